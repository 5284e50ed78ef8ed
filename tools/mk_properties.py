"""Writes properties.jsonl (kept as a script only so that the text is readable)."""
import json, os
P = []
T = "tensornetwork/"


def prop(id, title, statement, over, qtext, tests, files, mech, observe, state=None):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
           anchors=dict(files=[T + f for f in files],
                        mechanism=[dict(name=n, where=w) for n, w in mech],
                        observe_at=observe, hook_needed=None))
  if state:
    d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
  assert len(title) <= 80, title
  assert statement.count(". ") <= 2, (id, statement)
  P.append(d)


prop("C01", "Network graphs stay well-formed under every operation history",
     "After any sequence of successful graph operations (connect, disconnect, contract in any form, outer product, trace, split, flatten, slice, reorder, remove, copy), every live node has exactly one edge and one axis name per tensor axis, every edge is referenced by exactly the node axes it claims as its endpoints, and both ends of an edge have the edge's dimension. No consumed or retired node or edge is reachable from a live node, and the network queries (dangling edges, shared edges, trace edges, reachability, connectivity checks, neighbours) agree with that graph.",
     ["histories", "inputs"],
     "All connected and disconnected multigraphs with at most 3 nodes of rank at most 3 (parallel, trace, dangling and dimension-1 edges included), and every operation sequence up to the stated depth on each.",
     "Unit tests run single operations on one hand-written topology; most rewiring bugs need a trace or parallel edge, a particular axis order, or a second operation on the result of the first.",
     ["network_components.py", "network_operations.py", "contractors/bucket_contractor.py"],
     [("edge endpoint updates", "network_components.py:Edge.update_axis/_remove_edges/_remove_trace_edge"),
      ("node reordering", "network_components.py:AbstractNode.reorder_edges/reorder_axes"),
      ("flatten/split", "network_components.py:flatten_edges/split_edge/_flatten_trace_edges/_split_trace_edge"),
      ("contraction", "network_components.py:contract/contract_between/contract_parallel/outer_product")],
     ["node.edges, node.axis_names, node.shape, edge.node1/node2/axis1/axis2/dimension, edge.is_dangling/is_trace",
      "get_all_nodes/get_all_edges/get_subgraph_dangling/get_shared_edges/get_parallel_edges/get_all_nondangling/reachable/check_connected"],
     [("node.edges / node.axis_names", "which edge sits on which tensor axis", "network_components.py:AbstractNode"),
      ("edge._nodes/_axes", "endpoints of an edge", "network_components.py:Edge")])

prop("C02", "Rewrites of a network never change the tensor it denotes",
     "Whatever sequence of contractions, traces, outer products, flattenings, splittings, reorderings and exact node splits is applied to a network, the tensor denoted by the network as a function of its dangling edges stays exactly the same, and connecting, disconnecting, slicing or removing changes it exactly as defined on tensors. The documented axis and edge order of each result (free edges of the first operand then of the second, or the requested order) is respected.",
     ["histories", "inputs"],
     "All multigraphs with at most 3 nodes of rank at most 3 with pairwise distinguishable integer data, and every operation sequence up to the stated depth.",
     "Tests check final values for one contraction order on a few networks; a transposed operand, swapped parallel edges or wrong free-edge order shows only for particular axis orders and multi-step rewrites.",
     ["network_components.py", "network_operations.py"],
     [("tensordot axis selection and result edge order", "network_components.py:contract_between/contract/contract_parallel"),
      ("flatten_edges permutation", "network_components.py:flatten_edges"),
      ("split_edge reshape", "network_components.py:split_edge"),
      ("reorder_edges", "network_components.py:AbstractNode.reorder_edges"),
      ("slice_edge", "network_components.py:slice_edge")],
     ["node.tensor with node.edges; einsum of the live network before and after each operation"])

prop("C03", "Every contractor returns the network's tensor for every network",
     "For every network, each contraction strategy (greedy, branch, optimal, automatic, bucket, custom path, explicit path) returns one node whose edges are the requested output edges in the requested order and whose tensor equals the exact sum over all shared indices. The result does not depend on the order or the kind of container in which nodes are supplied, on hash/iteration order of sets, on the strategy chosen or on a memory limit that is sufficient.",
     ["inputs", "configurations", "schedules"],
     "All multigraph networks of up to 4 small nodes (disconnected parts, trace edges, parallel edges, scalars), all output orders, all strategies, and permuted set iteration orders.",
     "Tests use two or three fixed networks with one output order; order-dependent behaviour hides behind the hash order of one run, and disconnected or trace-bearing networks are barely reached.",
     ["contractors/opt_einsum_paths/path_contractors.py", "contractors/opt_einsum_paths/utils.py", "contractors/bucket_contractor.py"],
     [("base contractor loop", "contractors/opt_einsum_paths/path_contractors.py:base"),
      ("algorithm to path conversion", "contractors/opt_einsum_paths/utils.py:get_path"),
      ("automatic strategy cascade", "contractors/opt_einsum_paths/path_contractors.py:auto")],
     ["contractors.greedy/branch/optimal/auto/custom/bucket/path_solver/contract_path"])

prop("C04", "ncon computes the labelled sum for every valid labelling and order",
     "For every labelling of a list of tensors, ncon returns the tensor obtained by summing over every contracted label and laying out the open labels in the requested (or documented default) order, whatever contraction order, output order, label spelling (integers, strings, mixed), batch label, container type or backend is used. Labellings that break the rules are rejected with an error and the input tensors or nodes are left untouched.",
     ["inputs", "configurations"],
     "All label assignments of up to 3 tensors of rank at most 3 over a small label alphabet (trace, repeated, batch, outer-product and scalar cases), all contraction orders and output orders up to the bound.",
     "The ncon tests are pinned to a dozen networks; the internal partial traces, batch handling and outer-product tail only interact for unusual label patterns.",
     ["ncon_interface.py"],
     [("label canonicalisation and order", "ncon_interface.py:ncon/_canonicalize_network_structure"),
      ("contraction loop", "ncon_interface.py:_jittable_ncon"),
      ("validation", "ncon_interface.py:_check_network")],
     ["tensornetwork.ncon return value / raised ValueError"])

prop("C05", "Node splittings and decompositions reconstruct within their contract",
     "Splitting a node or tensor by SVD, QR or RQ over any bipartition of its axes yields factors with the documented edges, shapes and isometry properties whose product reproduces the original, up to exactly the reported discarded singular values. Truncation keeps the largest singular values, honours the maximum-dimension and maximum-error (absolute or relative) limits tightly, and behaves identically on every backend, including rank-deficient and dimension-1 inputs.",
     ["inputs", "configurations"],
     "All shapes up to rank 4 and small dimensions, all ordered edge bipartitions, all truncation parameters on a grid around each singular-value breakpoint, ranks 0..full, real/complex, numpy/jax/tensorflow/symmetric backends.",
     "Tests use one random matrix per option; boundaries (error exactly at a partial sum, zero singular values, wide versus tall, relative with maximum) are not enumerated.",
     ["network_operations.py", "backends/numpy/decompositions.py", "backends/tensorflow/decompositions.py", "backends/jax/jax_backend.py", "backends/symmetric/decompositions.py", "linalg/node_linalg.py", "linalg/linalg.py"],
     [("split_node family", "network_operations.py:split_node/split_node_full_svd/split_node_qr/split_node_rq"),
      ("truncation rule", "backends/numpy/decompositions.py:svd")],
     ["split_node*, backend.svd/qr/rq, Tensor-level linalg functions"])

prop("C06", "Copies of networks are faithful, independent and fully mapped",
     "Copying or replicating any set of nodes yields a network isomorphic to the original (names, axis names, edge names, connectivity, trace edges, values, node kinds), with maps covering every node and every edge, where edges leaving the copied set become dangling. The copies share no graph structure with the originals: later operations on either side leave the other unchanged, and a conjugated copy denotes the complex conjugate tensor.",
     ["inputs", "histories"],
     "All multigraphs of up to 3 nodes, every subset of nodes copied in every container kind, conjugation on/off, followed by every single mutation on one side.",
     "Tests copy one or two fixed networks completely; partial copies, trace edges, copy tensors and mutation-after-copy combinations are not enumerated.",
     ["network_operations.py", "network_components.py"],
     [("copy maps", "network_operations.py:copy/replicate_nodes/remove_node"),
      ("node copying", "network_components.py:Node.copy/CopyNode.copy"),
      ("reduced density", "network_operations.py:reduced_density")],
     ["copy, replicate_nodes, reduced_density, Node.copy"])

prop("C07", "Saving and loading a network restores the same network",
     "Writing any network of nodes to file or to a serialized string and loading it back restores the same nodes in the same order with the same names, axis names, edge names, tensors (bitwise, same dtype), dangling edges and connectivity. Saving does not change the live network, and named edge bindings survive the round trip.",
     ["inputs", "histories"],
     "All multigraphs of up to 3 nodes (and chains beyond ten nodes), all dtypes supported, all node-subset serializations and edge bindings.",
     "Tests store two hand-made networks; ordering beyond ten nodes, repeated names, partial subsets and the state of the live network after saving are not covered.",
     ["utils.py", "network_operations.py", "network_components.py"],
     [("hdf5", "utils.py:save_nodes/load_nodes"),
      ("json", "network_operations.py:nodes_to_json/nodes_from_json"),
      ("component serialization", "network_components.py:Node._save_node/_load_node/Edge._save_edge/_load_edge/to_serial_dict")],
     ["save_nodes, load_nodes, nodes_to_json, nodes_from_json"])

prop("C08", "Block-sparse operations agree with the same operations on dense arrays",
     "For symmetric block-sparse tensors, every operation (transpose, reshape, contraction, tensordot, outer product, trace, conjugation, arithmetic, diagonal, norm, element-wise functions, conversion from and to dense) followed by conversion to dense equals the dense operation on the converted operands. Results keep exactly the symmetry-allowed entries, carry indices (charges, flows) consistent with their data, and operands are not changed.",
     ["inputs", "histories"],
     "All symmetry groups (Z2, ZN, U1, products), all flow patterns, small charge assignments including negative, repeated, unsorted, missing and dimension-1 sectors, tensors up to rank 4, and sequences of transposes and reshapes before the operation.",
     "Tests draw a few random charges with large dimensions; empty sectors, dimension-1 legs, unsorted charges, fused legs and lazily transposed operands in combination are hit by luck only.",
     ["block_sparse/blocksparsetensor.py", "block_sparse/blocksparse_utils.py", "block_sparse/utils.py", "backends/symmetric/symmetric_backend.py"],
     [("block location", "block_sparse/blocksparse_utils.py:_find_transposed_diagonal_sparse_blocks/_find_diagonal_sparse_blocks/reduce_charges"),
      ("tensordot", "block_sparse/blocksparsetensor.py:tensordot"),
      ("lazy transposition", "block_sparse/blocksparsetensor.py:transpose/contiguous/reshape")],
     ["BlockSparseTensor.todense, symmetric backend operations"])

prop("C09", "Charge and index algebra is a faithful group action on every leg",
     "Fusing, dualizing, multiplying by flows, slicing, reducing, intersecting and comparing charge arrays agrees element by element with the arithmetic of the symmetry group, for every group, every product of groups and every charge order. Equality of charges and indices depends only on the denoted sequence of charges and flows, never on how the object was constructed or previously used.",
     ["inputs", "histories"],
     "All charge sequences up to a small length over small charge alphabets for every group and products, all flow signs, all short operation chains.",
     "Tests check fuse on random large arrays; representation-dependent behaviour (sorted, lazily compressed, repeated labels) and extreme charge values are not enumerated.",
     ["block_sparse/charge.py", "block_sparse/index.py", "block_sparse/utils.py"],
     [("group operations", "block_sparse/charge.py:U1Charge/Z2Charge/ZNCharge fuse/dual_charges"),
      ("compressed representation", "block_sparse/charge.py:BaseCharge"),
      ("index fusion", "block_sparse/index.py:Index/fuse_indices/split")],
     ["BaseCharge operators, Index methods, fuse_charges"])

prop("C10", "The block cache never changes any result",
     "Enabling, disabling or clearing the block-information cache at any point of any sequence of symmetric-tensor operations leaves every result exactly the same as without caching. In particular a cached entry is never used for operands of another symmetry, flow pattern, leg order or charge content.",
     ["histories", "configurations"],
     "All sequences up to the stated depth of operations on a pool of pairwise similar tensors (same shapes and labels but different groups, flows, fusion partitions) interleaved with cache enable, disable and clear.",
     "Tests check that the cache fills and that one contraction agrees; key collisions need two particular operands in one cached session.",
     ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py"],
     [("cache key", "block_sparse/blocksparse_utils.py:_to_string"),
      ("cache lifecycle", "block_sparse/caching.py")],
     ["get_cacher/enable_caching/disable_caching/clear_cache and results of tensordot/svd/transpose"])

prop("C11", "Block-sparse linear algebra agrees with dense linear algebra",
     "Decompositions, eigenproblems, inverses, diagonals, norms, square roots, exponentials, traces and random or identity constructions of symmetric tensors satisfy their defining equations and agree with the dense results on the converted matrices. This holds for every flow pattern and charge content, including empty, rectangular and dimension-1 blocks, and returned factors keep charge-consistent bonds.",
     ["inputs", "configurations"],
     "All charge and flow patterns on small matrices over Z2, ZN, U1 and products, every option (full matrices, modes, uv), including truncated symmetric SVD around singular-value breakpoints.",
     "Tests use random square matrices with all sectors populated; sector mismatches between row and column and ties between sectors are not reached.",
     ["block_sparse/linalg.py", "block_sparse/initialization.py", "backends/symmetric/decompositions.py", "backends/symmetric/symmetric_backend.py"],
     [("per-block decomposition", "block_sparse/linalg.py:svd/qr/eigh/eig/inv/pinv/expm/diag/sqrt/trace/eye"),
      ("truncated svd", "backends/symmetric/decompositions.py:svd")],
     ["block_sparse.linalg functions, symmetric backend"])

prop("C12", "All backends compute the same function",
     "Every operation of the common backend interface gives, on every installed backend and for every supported argument combination, the value, shape and dtype that the mathematical definition (numpy semantics) prescribes. A numeric backend is never observable except through its array type.",
     ["inputs", "configurations"],
     "Every interface method, every argument pattern of the small input alphabet (shapes up to rank 3, axis choices positive and negative, real/complex dtypes), on numpy, jax and tensorflow.",
     "Each backend has its own test file with separate literal inputs, so disagreements between backends on unusual axes or dtypes are never compared.",
     ["backends/abstract_backend.py", "backends/numpy/numpy_backend.py", "backends/jax/jax_backend.py", "backends/tensorflow/tensorflow_backend.py", "backends/tensorflow/tensordot2.py"],
     [("backend methods", "backends/*/*_backend.py"),
      ("tensordot fork for tensorflow", "backends/tensorflow/tensordot2.py")],
     ["backend_factory.get_backend(name).<method>"])

prop("C13", "Gauge moves of a matrix product state never change the state",
     "Every sequence of moving the orthogonality centre, canonicalizing and applying gates leaves the represented state equal to what the moves prescribe (unchanged up to normalization, or the gate applied), with every tensor left of the centre left-isometric and every tensor right of it right-isometric. The reported centre, norms and truncation errors are those of the actual tensors, whether or not normalization or truncation is requested.",
     ["histories", "inputs"],
     "All sequences up to the stated depth of position/canonicalize/one-site/two-site gate operations on all chains up to 4-5 sites with varying bond and physical dimensions, every starting centre, with and without truncation.",
     "Tests move the centre of one random chain once or twice; centre bookkeeping errors need a sequence (gate then move then measure) or a particular centre choice.",
     ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"],
     [("centre moves", "matrixproductstates/base_mps.py:position"),
      ("gates", "matrixproductstates/base_mps.py:apply_two_site_gate/apply_one_site_gate"),
      ("canonical form", "matrixproductstates/finite_mps.py:canonicalize/check_canonical")],
     ["FiniteMPS.tensors/center_position/check_canonical/norm and dense state vector"],
     [("center_position", "site that carries the norm", "matrixproductstates/base_mps.py:BaseMPS"),
      ("connector_matrix", "matrix that closes the unit cell", "matrixproductstates/base_mps.py:BaseMPS")])

prop("C14", "Matrix product state measurements equal dense expectation values",
     "For every finite matrix product state in canonical form, local expectation values, two-site correlators (any operator pair, any site list order), environments, norms and transfer operators equal the values computed from the dense state vector, independent of the position of the centre. Measuring does not change the state.",
     ["inputs", "histories"],
     "All chains of 1 to 5 sites with small, varying dimensions, every centre, every site and every ordered site list, hermitian and non-hermitian operators, real and complex.",
     "Tests measure one state with a handful of sites and operators; operator order (O1 left or right of O2), repeated, unsorted and boundary sites are not enumerated.",
     ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"],
     [("measurements", "matrixproductstates/base_mps.py:measure_local_operator/measure_two_body_correlator"),
      ("environments", "matrixproductstates/finite_mps.py:left_envs/right_envs")],
     ["measure_local_operator, measure_two_body_correlator, left_envs, right_envs, apply_transfer_operator"])

prop("C15", "MPO Hamiltonians are exact and DMRG reaches their ground state",
     "Every supplied Hamiltonian builder yields a matrix product operator whose dense matrix equals the textbook Hamiltonian for every length and every coupling. A variational ground-state search with sufficient bond dimension never returns an energy below the true minimum, reports the energy of the state it holds, and reaches the dense minimum, for one-site and two-site updates and any starting centre.",
     ["inputs", "configurations", "histories"],
     "All chains up to 5 sites and 2-dimensional patches with distinct couplings per bond, all dtypes, one/two-site sweeps, every initial centre, repeated runs.",
     "Tests compare a few MPO elements with fixed literals and run DMRG on one length from one starting point; site-dependent couplings and boundary lengths are not enumerated.",
     ["matrixproductstates/mpo.py", "matrixproductstates/dmrg.py"],
     [("Hamiltonians", "matrixproductstates/mpo.py:FiniteXXZ/FiniteTFI/FiniteFreeFermion2D"),
      ("sweeps and environments", "matrixproductstates/dmrg.py:FiniteDMRG")],
     ["MPO tensors contracted to dense, FiniteDMRG.run_one_site/run_two_site/compute_energy"])

prop("C16", "Infinite chains keep their state under canonicalization and centre moves",
     "Canonicalizing an infinite matrix product state or moving its centre leaves its bulk properties (dominant transfer eigenvalue normalized to one, local expectation values and correlators per site) unchanged, and yields isometric tensors and Schmidt values in the documented gauge. Repeating the operation changes nothing further.",
     ["histories", "inputs"],
     "All sequences up to the stated depth of canonicalize/position/transfer operations for unit cells of 1 to 3 sites with small varying dimensions, real and complex.",
     "Tests canonicalize one random cell once and check isometry only, never that the state is the same before and after, nor repeated use.",
     ["matrixproductstates/infinite_mps.py", "matrixproductstates/base_mps.py"],
     [("canonicalization", "matrixproductstates/infinite_mps.py:canonicalize"),
      ("transfer spectrum", "matrixproductstates/infinite_mps.py:transfer_matrix_eigs"),
      ("centre moves", "matrixproductstates/base_mps.py:position")],
     ["InfiniteMPS.tensors/connector_matrix/transfer_matrix_eigs"])

prop("C17", "Krylov solvers return genuine solutions of the operator they are given",
     "For every linear operator, start vector and option within their documented domain, the iterative eigensolvers return normalized vectors and values satisfying the eigen-equation within tolerance in the requested spectral order, and the linear solver's returned solution satisfies the equation to the requested tolerance whenever it reports convergence. They agree across backends, pass extra operator arguments through unchanged, and do not alter the caller's arrays.",
     ["inputs", "configurations"],
     "All small integer-valued matrices of stated dimension (hermitian, non-normal, singular, degenerate, defective, identity), every selector, subspace size, reorthogonalization setting and start vector in the alphabet.",
     "Tests use generic random matrices, where breakdown, invariant subspaces, restarts and early convergence never occur.",
     ["linalg/krylov.py", "backends/numpy/numpy_backend.py", "backends/jax/jax_backend.py", "backends/jax/jitted_functions.py", "backends/symmetric/symmetric_backend.py"],
     [("Lanczos/Arnoldi/GMRES", "backends/numpy/numpy_backend.py:eigsh_lanczos/eigs/eigsh/gmres"),
      ("front end", "linalg/krylov.py")],
     ["backend.eigsh_lanczos/eigsh/eigs/gmres, linalg.krylov.*"])

prop("C18", "Default-backend and node-collection contexts nest like a stack",
     "The backend used by default and the collections that receive newly created nodes are, at every moment, exactly those of the innermost entered contexts, whatever nesting, exception exit, reuse or interleaving with explicit default changes happens. Leaving a context restores what was in force on entry, and explicit backend arguments always win.",
     ["histories", "fault_sequences"],
     "Every sequence up to the stated depth of enter/leave/raise/set-default/create-node events over a small set of context objects and backends.",
     "Tests nest at most two contexts without exceptions or reuse of the same context object.",
     ["backend_contextmanager.py", "ops.py", "network_components.py", "backends/backend_factory.py"],
     [("backend stack", "backend_contextmanager.py"),
      ("collection stack", "ops.py:NodeCollection, network_components.py:AbstractNode.__new__/__init__")],
     ["get_default_backend, Node(...).backend.name, contents of NodeCollection containers"],
     [("backend stack", "currently entered default backends", "backend_contextmanager.py"),
      ("collection stack", "containers receiving new nodes", "ops.py")])

prop("C19", "The tensor wrapper and its free functions mirror array semantics",
     "Every operator, property and method of the tensor wrapper and every free function on wrapped tensors returns what the wrapped arrays' library semantics prescribe for value, shape, dtype and backend, for either operand order and for scalar, array and tensor operands. Operands stay unchanged, and mixing different backends is refused.",
     ["inputs", "configurations"],
     "Every operator and function, all operand kinds and orders, shapes up to rank 3 (scalars and dimension 1 included), real/complex/integer dtypes, numpy/jax/tensorflow.",
     "The tests cover square random inputs on one operand order; reflected operators, hermitian conjugates of higher rank and pivots are not enumerated.",
     ["tensor.py", "linalg/operations.py", "linalg/initialization.py", "linalg/linalg.py", "network_components.py"],
     [("operators", "tensor.py:Tensor, network_components.py:AbstractNode/Node operators"),
      ("free functions", "linalg/operations.py")],
     ["tensornetwork.Tensor, tensornetwork.linalg.*"])

prop("C20", "Quantum vectors, operators and their algebra equal dense linear algebra",
     "Composition, adjoint, trace, partial trace, norm, projector, tensor product, contraction and conversion to nodes or dense tensors of quantum operators, vectors and scalars equal the corresponding dense linear algebra for every combination of spaces. This also holds for networks containing identities, shared dimension-1 legs, scalar factors and disconnected parts, in any order of evaluation, and operands stay usable.",
     ["programs", "histories"],
     "All expressions up to the stated depth over vectors, adjoint vectors, operators, identities and scalars with one or two subsystems of distinct dimensions, contracted before, between or after each step, under permuted set iteration orders.",
     "Tests evaluate a fixed list of short expressions; identity elimination and reference bookkeeping depend on expression structure and hash order.",
     ["quantum/quantum.py"],
     [("identity elimination", "quantum/quantum.py:eliminate_identities"),
      ("composition", "quantum/quantum.py:QuOperator.__matmul__/tensor_product/partial_trace/adjoint")],
     ["QuOperator/QuVector/QuAdjointVector/QuScalar .eval()"])

prop("C21", "A refused operation leaves the network exactly as it was",
     "When a network operation is called with arguments it refuses (wrong or foreign edges, mismatched dimensions, edges already connected, wrong orders, unknown names, missing shared edges), it raises an error and every node, edge, tensor, name and connection is exactly as before. After any number of such refusals the network behaves as if they had never been attempted.",
     ["fault_sequences", "histories"],
     "Every operation with every invalid argument combination from the small topology alphabet, at every reachable state up to the stated depth, followed by valid operations.",
     "Tests assert that some errors are raised but never that the network is intact afterwards.",
     ["network_components.py", "network_operations.py"],
     [("argument validation before mutation", "network_components.py:connect/contract_between/flatten_edges/split_edge/reorder_edges/reorder_axes/slice_edge")],
     ["raised exception type and full public state of all nodes and edges before and after"])

prop("C22", "Copy tensors behave exactly as the diagonal tensor they stand for",
     "A copy tensor denotes the array that is one when all its indices agree and zero otherwise, and every way of contracting it (direct, through its partners, through bucket elimination or as a materialized node) gives the same result as that explicit array. Partner queries list exactly the neighbours and the axes shared with them, and contraction leaves the rest of the graph well-formed.",
     ["inputs", "histories"],
     "All networks of one or two copy tensors of rank up to 4 with up to 3 partner nodes, all axis assignments including several legs to one partner, dangling legs and directly joined copy tensors.",
     "Tests contract two fixed examples; multi-leg partners and copy-copy connections are not enumerated.",
     ["network_components.py", "contractors/bucket_contractor.py", "network_operations.py"],
     [("copy node contraction", "network_components.py:CopyNode.compute_contracted_tensor/contract_copy_node/get_partners"),
      ("bucket elimination", "contractors/bucket_contractor.py:bucket")],
     ["CopyNode.tensor, compute_contracted_tensor, contract_copy_node, bucket"])

prop("C23", "Path solvers return valid, truthfully costed and optimal orders",
     "For every network, the exhaustive path solver returns an order that contracts the whole network and whose cost is the true minimum among all orders it considers, and the greedy solver's reported cost is the true cost of the order it returns. The ncon front ends convert between labels and orders without loss: the returned order is a permutation of the contracted labels and contracting with it gives the reported cost and the right tensor.",
     ["inputs", "configurations"],
     "All adjacency structures of up to 4-5 tensors with bond dimensions from a small alphabet, compared with brute-force enumeration of every pairwise contraction order.",
     "Tests check a handful of literal networks; pruning and bit-mask errors only show on particular bond-dimension patterns.",
     ["contractors/custom_path_solvers/pathsolvers.py", "contractors/custom_path_solvers/nconinterface.py"],
     [("search with pruning", "contractors/custom_path_solvers/pathsolvers.py:full_solve_complete"),
      ("greedy", "contractors/custom_path_solvers/pathsolvers.py:greedy_size_solve/greedy_cost_solve"),
      ("ncon conversion", "contractors/custom_path_solvers/nconinterface.py:ncon_solver/ncon_to_adj/ord_to_ncon/ncon_cost_check")],
     ["full_solve_complete, greedy_size_solve, greedy_cost_solve, ncon_solver, ncon_cost_check"])

prop("C24", "Library calls never modify the arrays or objects passed in by the caller",
     "No public call changes the contents of an array, tensor, list or dictionary the caller passes in, except operations documented as in-place on the network itself. Objects created from the same inputs are independent: mutating or normalizing one never changes another or the original data.",
     ["inputs", "histories"],
     "Every public entry point that accepts arrays (backends, node construction, ncon, splitting, solvers, matrix product states, block-sparse tensors, quantum) on every case of the small alphabet, twice on the same inputs.",
     "Tests build fresh inputs for every call, so aliasing and in-place updates stay invisible.",
     ["backends/numpy/numpy_backend.py", "matrixproductstates/base_mps.py", "matrixproductstates/dmrg.py", "block_sparse/blocksparsetensor.py", "ncon_interface.py"],
     [("array ownership", "backends/numpy/numpy_backend.py, matrixproductstates/base_mps.py:position")],
     ["byte contents of every input before and after each call"])

prop("C25", "Tensor network layers compute the tensor network they describe",
     "Every neural-network layer maps each example exactly as the tensor network spelled out by its documented structure and weights does, independently of the other examples in the batch and of the batch's size. Its declared output shape is the actual one, and rebuilding it from its configuration and weights reproduces the same function.",
     ["inputs", "configurations"],
     "Every layer class with every parameter combination of a small alphabet (dimensions, levels, nodes, bias, activation), all batch sizes 1 to 3, compared with an independently contracted reference.",
     "Tests check output shapes and that training lowers the loss, not the computed function.",
     ["tn_keras/dense.py", "tn_keras/condenser.py", "tn_keras/expander.py", "tn_keras/entangler.py", "tn_keras/mpo.py", "tn_keras/conv2d_mpo.py"],
     [("layer call", "tn_keras/*.py:call"), ("configuration", "tn_keras/*.py:get_config")],
     ["layer(x), layer.compute_output_shape, layer.get_config/from_config, get_weights/set_weights"])

prop("C26", "Seeded and shaped constructors give exactly what was asked for",
     "Every constructor of tensors, nodes, block-sparse tensors and matrix product states (zeros, ones, identity, random, from dense) returns the requested shape, dtype, backend, charges and boundary structure, and identity-like constructors hold the exact identity pattern. Random constructors called with the same seed return the same data regardless of what was called before, different seeds give different data, and bounded random data stays within the bounds.",
     ["inputs", "histories", "configurations"],
     "Every constructor, every backend, all shapes up to rank 3 (rectangular and dimension 1 included), dtypes, seeds including zero, and interleavings of other random calls between two seeded calls.",
     "Tests try seed 10 on square shapes with the same call twice in a row; seed zero and interleaved calls are not tried.",
     ["linalg/initialization.py", "backends/numpy/numpy_backend.py", "backends/tensorflow/tensorflow_backend.py", "backends/jax/jax_backend.py", "block_sparse/initialization.py", "matrixproductstates/finite_mps.py", "matrixproductstates/infinite_mps.py"],
     [("backend constructors", "backends/*/*_backend.py:eye/ones/zeros/randn/random_uniform"),
      ("front ends", "linalg/initialization.py, linalg/node_linalg.py, block_sparse/initialization.py")],
     ["returned arrays"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
  for d in P:
    f.write(json.dumps(d) + "\n")
print(len(P))
