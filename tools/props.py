"""Single source of the property list: writes properties.jsonl and MANIFEST.json.

Run with any python3 from /verif:  python3 tools/props.py
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique,
         note):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=['swirl_fem/' + f for f in files], mech=mech,
                observe=observe, technique=technique, note=note))


prop('C01', '1D nodes and quadrature rules are exact',
     'For every number of points, Gauss-Legendre and Gauss-Lobatto-Legendre nodes are increasing, symmetric and inside [-1, 1] (Lobatto and Newton-Cotes including both end points), and their quadrature rules have positive weights summing to 2 that integrate every polynomial of degree up to 2n-1 (Legendre) and 2n-3 (Lobatto) exactly; the Newton-Cotes rule is the composite trapezoidal rule. '
     'N-dimensional weights are the lexicographic tensor product of the 1D weights. Node sets of the same family and size (or the same single point) compare equal, sets with different points never do, and a node set is continuous exactly when it contains both end points.',
     ['inputs'], 'every node family, number of points, dimension and polynomial',
     'Tests compare a few tabulated rules; exactness is a statement over all polynomials and sizes.',
     ['core/interpolation.py'], [('Nodes1D.create / Quadrature1D.create', 'core/interpolation.py')],
     ['Nodes1D.create', 'Quadrature1D.create', 'weights_nd'],
     'runtime monitor: recorded rules judged by polynomial-moment oracle', 'all sizes up to a bound, random polynomials')

prop('C02', 'Interpolation and differentiation are exact on tensor polynomials',
     'For every grid of nodes and every set of evaluation points (of any families, sizes and dimension 1 to 3, coinciding with nodes or not), interpolating the nodal values of a polynomial of degree below the number of nodes in each variable gives its values at the evaluation points, and interpolating its gradient gives its exact partial derivatives, component i being the derivative in variable i. '
     'Nodes and evaluation points are both ordered lexicographically, the last variable fastest; the matrices and the functions applying them agree.',
     ['inputs'], 'every grid family/size, evaluation family/size, dimension, polynomial',
     'Tests use a handful of sizes and polynomials, mostly of equal shape per dimension.',
     ['core/interpolation.py'], [('BarycentricInterpolator', 'core/interpolation.py')],
     ['BarycentricInterpolator.interpolate', 'interpolate_grad', 'interpolation_matrix', 'interpolation_matrix_grad'],
     'runtime monitor: interpolator calls judged by analytic polynomial oracle', 'random grids and polynomials')

prop('C03', 'Time extrapolation and backward differentiation are exact',
     'For every order k, the extrapolation coefficients predict the value one step ahead of k+1 equispaced samples exactly for every polynomial in time of degree up to k, and the backward differentiation coefficients applied to k+1 equispaced samples give dt times the exact derivative at the newest sample for every such polynomial. Coefficients are ordered from the oldest to the newest sample.',
     ['inputs'], 'every order and polynomial in time',
     'Tests tabulate orders 1 to 3 only in part; solvers use whatever order the user asks for.',
     ['navier_stokes/navier_stokes.py'], [('extk_coeffs, bdfk_coeffs', 'navier_stokes/navier_stokes.py')],
     ['extk_coeffs', 'bdfk_coeffs'],
     'runtime monitor: coefficients judged by polynomial oracle', 'orders 1..8')

prop('C04', 'Refinement is conforming and geometrically exact',
     'Refining any first order mesh of quadrilaterals, hexahedra or segments, whatever its connectivity, node numbering and the orientation of each element, keeps every element in its place and puts the new nodes of an element at the multilinear images of the tensor-product reference nodes, in lexicographic order. '
     'For node families containing the end points, two elements share a refined node exactly when they share that point of a common vertex, edge or face, so that no node is duplicated, missing or unused; for families without end points no node is shared.',
     ['inputs', 'configurations'], 'every conforming mesh topology, numbering, element orientation, refinement order and node family',
     'Tests refine a few small meshes with regular numbering; the orientation cases that matter grow with order and dimension.',
     ['core/mesh_refiner.py', 'common/facet_util.py'],
     [('facet deduplication keyed by sorted vertices with orientation permutations', 'core/mesh_refiner.py')],
     ['refine_premesh'],
     'runtime monitor: refined meshes checked against exact topological keys', 'random unstructured 1-3D meshes')

prop('C05', 'Refinement preserves physical groups, periodic links and partitions',
     'After refinement each facet of a physical group consists of exactly the refined nodes lying on that source facet, in one to one order with the source facets; each periodic link pairs the refined nodes of its two facets by the same correspondence as the source vertices; and every element keeps its partition. '
     'This holds whatever the numbering, the vertex order in which the facets are listed and the orientation of the elements.',
     ['inputs', 'configurations'], 'every mesh, facet listing order, pairing, refinement order',
     'Tests use aligned, regularly numbered facets.',
     ['core/mesh_refiner.py', 'core/premesh.py'], [('refinement of facets through the orientation map', 'core/mesh_refiner.py')],
     ['refine_premesh', 'Premesh.physical_groups', 'Premesh.periodic_links', 'Premesh.partitions'],
     'runtime monitor: refined groups/links checked against topological keys', 'random meshes with groups, links, partitions')

prop('C06', 'Gather and scatter are exact transposes and local renumbering is faithful',
     'Gathering reads the value of each indexed node (and the fill value at padding), scattering sums every indexed contribution into its node and drops padding, and the two are transposes of each other for any index array with repeats and padding. '
     'Grouping by partition places every index exactly once, in its own partition row, with padding elsewhere, and partition-local renumbering lists each node of a partition exactly once and maps each local element back to its global one.',
     ['inputs'], 'every index array, multiplicity, padding pattern and partition assignment',
     'Tests use small hand-written arrays.',
     ['core/gather_scatter.py', 'core/mesh.py'], [('gather, scatter, group_by_partitions, get_local_elements', 'core/gather_scatter.py')],
     ['gather', 'scatter', 'Mesh.gather', 'Mesh.scatter', 'group_by_partitions', 'get_local_elements'],
     'runtime monitor: calls judged by numpy reference and conservation/adjoint invariants', 'random index arrays')

prop('C07', 'Exchange sums all copies of a degree of freedom',
     'The exchange operation replaces the value of every node by the sum over all copies of the same degree of freedom, where copies are those identified by chains of periodic links or by being shared between partitions, and leaves all other nodes unchanged. '
     'Deduplicated node indices are equal for two nodes exactly when they are connected by periodic links. This holds on one device and on any number of devices, with padding, and under jit, vmap and differentiation (the operator is symmetric).',
     ['inputs', 'configurations'], 'every set of links (including chains and corners), node numbering, partitioning and nodal values',
     'Tests cover single axis links on tiny meshes and one or two partitions.',
     ['core/gather_scatter.py', 'core/mesh.py'], [('exchange, get_exchange_indices, get_unique_node_indices', 'core/gather_scatter.py')],
     ['exchange', 'Mesh.exchange', 'get_unique_node_indices', 'get_exchange_indices'],
     'runtime monitor: exchange events judged by union-find reference', 'random links/partitions, 1..8 devices')

prop('C08', 'Partitioned meshes compute the same as the serial mesh',
     'Finalizing a partitioned mesh (even or uneven, refined or not, periodic across partitions or not) places every element on its own device with its own node coordinates, and marks as shared exactly the nodes that are shared. '
     'Operators assembled on the devices followed by exchange, and integrals summed over devices, equal those of the unpartitioned mesh, with no non-finite values from padding.',
     ['configurations', 'inputs'], 'every partitioning, mesh, refinement and nodal field',
     'Tests use tiny even partitionings and compare index arrays.',
     ['core/premesh.py', 'core/gather_scatter.py', 'core/fespace.py', 'core/mesh.py'],
     [('Premesh.finalize partitioned branch', 'core/premesh.py')], ['Premesh.finalize', 'pmap of mesh operators'],
     'runtime monitor: multi-device executions compared with serial reference', 'random partitionings on 2..8 devices')

prop('C09', 'The partitioner assigns every element to one valid partition',
     'Partitioning a mesh assigns each element exactly one partition id in range, changes nothing else of the mesh, and yields a mesh that can be finalized on devices. When there are many elements per partition every partition is used, the sizes are balanced, and far fewer node-sharing pairs of elements are separated than by a random assignment. A mesh that is partitioned already may be partitioned again.',
     ['inputs', 'configurations'], 'every mesh and number of partitions',
     'Tests partition two small meshes.',
     ['common/mesh_partitioner.py'], [('partition via the element adjacency graph', 'common/mesh_partitioner.py')], ['partition'],
     'runtime monitor: partitioner outputs judged by invariants', 'structured, disconnected and unstructured meshes')

prop('C10', 'Reading a Gmsh file reproduces the mesh it describes',
     'Reading a Gmsh file of segments, quadrilaterals or hexahedra returns the nodes at their coordinates and every element with its nodes in lexicographic order, for any node numbering and element order. '
     'Every periodic facet of the file yields one link from each of its nodes to the matching node of its image, for any number of periodic directions and of sides that are images of one another, no link connects nodes the file does not, and invalid dimensions or missing element types are rejected.',
     ['inputs'], 'every valid mesh file (versions, numberings, periodic entities)',
     'Tests read four fixed files.',
     ['common/mesh_reader.py'], [('node ordering permutations, periodic links per entity', 'common/mesh_reader.py')], ['mesh_reader.read'],
     'runtime monitor: generated files, reader output judged by the generator model', 'generated 1-3D msh files')

prop('C11', 'Structured cube meshes tile the cube with correct boundary and periodicity',
     'For every size, dimension and interval the structured mesh has nodes on the uniform grid in lexicographic order and elements that tile the cube with positively oriented lexicographic corners; the boundary group is exactly the set of facets on non-periodic sides, each once; periodic links pair each facet on one side of a periodic dimension with its translate on the other side; and partitions are contiguous blocks as described.',
     ['inputs', 'configurations'], 'every size, dimension, interval, set of periodic dimensions and partition block layout',
     'Tests check a 2D example or two.',
     ['common/premesh_commons.py', 'common/facet_util.py'], [('unit_cube_mesh', 'common/premesh_commons.py')], ['unit_cube_mesh'],
     'runtime monitor: meshes judged by geometric invariants', 'all small configurations')

prop('C12', 'Facet enumeration and orientation maps are complete and consistent',
     'The facets of a cube are enumerated completely and without repetition, with the requested dimension; the slices of all facets (interior nodes only) partition the nodes of an element, while the closed slice of a facet holds exactly the nodes on its side(s). '
     'The orientation map has one entry for each of the 2^d d! symmetries of the cube and sends each ordering of the corners to the node ordering produced by that same symmetry.',
     ['inputs'], 'every dimension, order and symmetry',
     'Tests check fixed examples.',
     ['common/facet_util.py'], [('get_facet_types, slice_from_facet_type, get_orderings_mapping', 'common/facet_util.py')],
     ['get_facet_types', 'slice_from_facet_type', 'get_orderings_mapping'],
     'runtime monitor: outputs judged by geometric enumeration oracle', 'dimensions 1..4, sizes up to a bound')

prop('C13', 'Integration over a mesh is exact up to the quadrature degree',
     'On any mesh, also curved, refined or unstructured, the quadrature coordinates, Jacobian determinants and inverse Jacobians are those of the element maps, and integrating a function equals the sum over elements of quadrature weight times determinant times value. '
     'Integrals of polynomials within the degree of the rule are therefore exact, add up over elements, are linear, and do not depend on the numbering or on rigid motions of the mesh.',
     ['inputs', 'configurations'], 'every mesh, node family, quadrature and integrand',
     'Tests integrate a few functions on uniform meshes.',
     ['core/fespace.py', 'core/interpolation.py'], [('FiniteElementSpace.create, integrate', 'core/fespace.py')],
     ['FiniteElementSpace.create', 'integrate', 'quad_coords', 'jacdets', 'invjacs'],
     'runtime monitor: recorded integrals judged by independent numpy quadrature', 'random meshes and integrands')

prop('C14', 'Covectors represent their linear form exactly',
     'For any multilinear form and any choice of its placeholder argument (scalar or vector valued or the gradient of such a function, alone or with other nodal or coordinate functions), the covector paired with the nodal values of a function equals the integral of the form with that function in the placeholder. '
     'Hence mass and stiffness operators equal the densely assembled matrices, are symmetric, mass is positive definite, stiffness annihilates constants, and more than one or no placeholder is rejected.',
     ['inputs', 'configurations'], 'every mesh, form, placeholder position and nodal values',
     'Tests check mass and stiffness on few meshes.',
     ['core/fespace.py'], [('local_covector via linear transpose', 'core/fespace.py')], ['local_covector', 'scalar_function', 'vector_function'],
     'runtime monitor: duality pairing and dense assembly oracle', 'random meshes and forms')

prop('C15', 'Gradients and divergence of nodal functions are physical derivatives',
     'On any positively oriented mesh, the gradient of the nodal interpolant of a polynomial representable in the space equals its exact physical gradient at every quadrature point (for a vector field entry [j, k] is the derivative of component k in direction j), the divergence is its trace, and the gradient of a plain scalar function of the coordinates agrees. '
     'The integral of the divergence over a mesh equals the flux through its boundary.',
     ['inputs', 'configurations'], 'every mesh, order and polynomial field',
     'Tests differentiate few functions on axis-aligned meshes, where transposition errors vanish.',
     ['core/fespace.py'], [('grad, div with inverse Jacobians', 'core/fespace.py')], ['grad', 'div'],
     'runtime monitor: pointwise derivative oracle and flux balance', 'rotated, sheared and curved meshes')

prop('C16', 'The Poisson solver solves the discrete Poisson problem',
     'For any mesh and forcing with at least one Dirichlet group, the Poisson solver returns the solution of the assembled linear system with homogeneous values at every node of the Dirichlet groups and natural conditions elsewhere, to the requested tolerance. '
     'Solutions depend linearly on the forcing, converge to the exact solution under refinement, and unsupported boundary values are rejected.',
     ['inputs', 'configurations'], 'every mesh, order, forcing and choice of boundary groups',
     'Tests check two manufactured solutions.',
     ['examples/poisson.py', 'core/fespace.py'], [('solve_poisson', 'examples/poisson.py')], ['solve_poisson'],
     'runtime monitor: dense reference solution and Galerkin residual', 'random meshes, groups, forcings')

prop('C17', 'Conjugate gradients meets its stopping contract',
     'On every symmetric positive definite system, and on any semi-definite consistent one, with or without preconditioner and initial guess, conjugate gradients stops at the first iterate whose (preconditioned) squared residual is at most max(tol^2 b.b, atol^2) or after the maximal number of iterations, and reports that iteration count and that residual truthfully. '
     'The energy norm error never increases with the iteration count, pytrees and custom inner products are supported, and a zero right-hand side or an exact guess takes no iteration.',
     ['inputs'], 'every system, preconditioner, tolerance, guess, iteration limit and pytree structure',
     'Tests solve one system.',
     ['linalg/cg.py'], [('cg', 'linalg/cg.py')], ['cg'],
     'runtime monitor: results and diagnostics judged by independent numpy CG and invariants', 'random systems')

prop('C18', 'Flow operators equal their weak forms',
     'On any mesh and order, the velocity mass, stiffness and convection operators, the divergence operator and its transpose equal the dense matrices of their weak forms assembled independently (mass diagonal by nodal quadrature), with rows of Dirichlet nodes zeroed as configured. '
     'Mass and stiffness are symmetric, divergence and pressure gradient are transposes away from Dirichlet nodes, and the pressure operator is symmetric positive semi-definite.',
     ['inputs', 'configurations'], 'every mesh, order, boundary choice, periodicity and field',
     'Tests check operators on uniform unit squares.',
     ['navier_stokes/navier_stokes.py'], [('StokesSEM operators', 'navier_stokes/navier_stokes.py')],
     ['StokesSEM.A/B/Bi/C/D/Dt/Q/E'],
     'runtime monitor: operator applications judged by dense numpy assembly', 'random 2D/3D meshes')

prop('C19', 'One Stokes step follows the documented fractional step scheme',
     'For any mesh, order, time order, history, forcing, viscosity, step size, filter and boundary values, one step returns the velocity and pressure of the documented scheme: backward differences of the velocity history, linearly extrapolated pressure, filtered tentative velocity, and a pressure correction. '
     'The returned velocity is discretely divergence free to the solver tolerance, takes the prescribed values on Dirichlet nodes (when the filter reproduces them), is continuous across elements and periodic images, and a state at rest stays at rest.',
     ['inputs', 'histories', 'configurations'], 'every mesh, order, history, forcing and parameter setting',
     'Tests run a few steady flows to loose tolerances.',
     ['navier_stokes/navier_stokes.py', 'linalg/cg.py'], [('stokes_one_step', 'navier_stokes/navier_stokes.py')], ['stokes_one_step'],
     'runtime monitor: step outputs judged by an independent dense implementation', 'random states, 2D/3D')

prop('C20', 'Filtering and vorticity act as defined',
     'The stabilization filter with strength alpha keeps every field of degree below the element order unchanged, blends a field with its element-wise projection through one node fewer averaged at shared nodes, is linear, and is the identity for alpha zero. '
     'Vorticity of a two-dimensional flow is the element-wise curl averaged over the elements sharing a mesh node; it is the exact curl for polynomial velocity fields on affine elements.',
     ['inputs', 'configurations'], 'every mesh, order, field and alpha',
     'Tests check one field.',
     ['navier_stokes/navier_stokes.py'], [('filter, vorticity', 'navier_stokes/navier_stokes.py')], ['StokesSEM.filter', 'StokesSEM.vorticity'],
     'runtime monitor: reference filter/curl in numpy', 'random meshes and fields')

prop('C21', 'Crystal router delivers every item exactly once to its target',
     'For every number of devices, every dynamic length per device and every assignment of targets, each item sent (and nothing else) arrives exactly once, unmodified, at its target device, with all leaves of the data tree kept together, the reported lengths and sources correct, and sending back to the sources restoring the original items per device. '
     'The router terminates whatever the imbalance, including all items to one device and buffers that must grow, and independent of the order of items.',
     ['schedules', 'inputs', 'configurations'], 'every device count, traffic pattern, data tree and buffer growth history',
     'Tests send small fixed patterns on few devices.',
     ['communication/crystal_router.py', 'communication/jit_distributed.py', 'communication/semi_traced_scalar.py'],
     [('crystal_router_setup', 'communication/crystal_router.py')], ['crystal_router'],
     'runtime monitor: exactly-once checker over send/receive logs with unique ids', '1..8(16) devices, hostile traffic')

prop('C22', 'Prefix scans and reductions equal the sequential fold',
     'For every number of devices and every supported operation and data type, the scan gives each device the fold of the values of all lower ranked devices in rank order (the unit of the operation on the first), and the reduction gives every device the fold of all values. '
     'This holds for pytrees of any shapes, for infinities, and along one axis of a multi-axis device mesh.',
     ['schedules', 'inputs', 'configurations'], 'every device count, operation, dtype, value and tree',
     'Tests cover few device counts and integer values.',
     ['communication/pscan.py'], [('fan-in fan-out schedule, unit table', 'communication/pscan.py')], ['pscan', 'preduce'],
     'runtime monitor: device results judged by sequential numpy fold', '1..8(16) devices, all ops and dtypes')

prop('C23', 'Semi-traced scalars agree between local and global view',
     'For every expression of arithmetic, bitwise, comparison and selection operations (also reflected and with constants) over semi-traced scalars, the concrete global array holds at each rank exactly the value the traced local scalar takes on the device of that rank.',
     ['programs', 'configurations'], 'every expression and number of devices',
     'There are no direct tests of the operators.',
     ['communication/semi_traced_scalar.py'], [('SemiTracedScalar operators', 'communication/semi_traced_scalar.py')], ['SemiTracedScalar'],
     'runtime monitor: random expression programs, local vs global vs python evaluation', 'random programs on 1..8 devices')

prop('C24', 'Distributed jit equals mapping the function over the devices',
     'For any function, the distributed version applied to arrays with one leading entry per device equals applying the function to each entry separately (collectives aside) and stacking the results, whatever mix of positional, keyword, default and static arguments in any position is used. Static arguments are passed unsharded as Python constants, and calling again with other static values recomputes with them.',
     ['programs', 'inputs', 'configurations'], 'every signature, call style and device count',
     'Tests cover two call styles.',
     ['communication/jit_distributed.py'], [('jit_distributed argument binding', 'communication/jit_distributed.py')], ['jit_distributed'],
     'runtime monitor: calls compared with per-device reference evaluation', 'random signatures and call styles')

prop('C25', 'The SDE integrator is the Euler-Heun scheme on the given path',
     'For every drift, diffusion, pytree state, Brownian path and evenly spaced output times, the integrator returns at each output time the state of the Euler-Heun recursion driven by exactly the given increments in order, from the given initial state and with the time advancing by the step size. '
     'With zero diffusion it is the Euler method, splitting the interval into more output times does not change the final state, and solutions converge to the Stratonovich solution as the path is refined.',
     ['inputs', 'histories', 'programs'], 'every vector field, path, initial state and set of output times',
     'Tests compare with closed forms to 1e-3 or worse.',
     ['sde/sdeint.py'], [('sdeint step loop', 'sde/sdeint.py')], ['sdeint'],
     'runtime monitor: trajectories judged step by step by reference recursion', 'random systems and paths')

prop('C26', 'SDE adjoint gradients converge to the true gradients',
     'Gradients of any function of the integrated states with respect to the initial state and to all differentiable arguments, explicit or closed over, agree with the derivatives of the discrete solution up to the discretization error, which decreases as the path is refined; gradients through several output times add up; time and path get no gradient contribution; and forward values are unaffected by differentiation.',
     ['inputs', 'programs'], 'every vector field, parameter tree, path and cotangent',
     'Tests check gradients of geometric Brownian motion to 1e-2.',
     ['sde/sdeint.py'], [('custom vjp running the reversed augmented SDE', 'sde/sdeint.py')], ['jax.grad of sdeint'],
     'runtime monitor: adjoint gradients judged by differentiating a reference loop', 'random systems, several resolutions')

prop('C27', 'The lifted SDE layer computes the same as the integrator',
     'Applying the lifted layer with given parameters equals integrating the wrapped module applied with those parameters; initialization creates exactly the parameters of the wrapped module and an output of the right shape; and gradients with respect to the parameters equal those of the integrator.',
     ['programs', 'inputs'], 'every wrapped module, parameters, path and state',
     'The one test checks an output shape.',
     ['sde/flax_nn_sde.py'], [('core_sdeint', 'sde/flax_nn_sde.py')], ['nn_sdeint'],
     'runtime monitor: lifted outputs compared with direct integration', 'random modules')

prop('C28', 'Brownian paths have independent increments of variance 1/n',
     'For every size, the sampled increments are real, finite, of the requested type, deterministic in the key and different for different keys, and are distributed as independent normal variables of mean zero and variance 1/n, so that their sum has unit variance.',
     ['inputs'], 'every key, size and dtype',
     'No test samples it other than as an input.',
     ['sde/sdeint.py'], [('brownian_path', 'sde/sdeint.py')], ['brownian_path'],
     'runtime monitor: statistical oracle with fixed, wide thresholds', 'large samples')

prop('C29', 'The input pipeline yields exactly the windows of the dataset',
     'For every dataset and configuration, the examples of one epoch are windows of consecutive snapshots of one file with the configured size, step and stride, velocity, pressure and time taken from the same snapshots, each window at most once per epoch and never spanning two files, in full batches only. Epochs are shuffled, each in another order, and two runs see the same batches. '
     'Training reads training files and evaluation validation files, values are read back unchanged in double precision, and the number of examples is as computed from the split size.',
     ['inputs', 'configurations', 'histories'], 'every dataset, window size, stride, step and batch size',
     'There are no tests.',
     ['niles/input_pipeline.py'], [('create_split, get_num_examples, read_snapshots_file', 'niles/input_pipeline.py')], ['create_split', 'get_num_examples', 'read_snapshots_file'],
     'runtime monitor: recorded batches judged by unique-id window model', 'generated datasets')

prop('C30', 'Training helpers meet their definitions',
     'Transferring nodal values between meshes of equal nodes is a permutation matching coordinates; the multiscale ordering is a permutation that keeps patches contiguous; the energy spectrum distributes each mode into its wavenumber bin; learning rate and penalty schedules take their configured values at warmup, peak and end and are continuous in between.',
     ['inputs', 'configurations'], 'every mesh, size, field and schedule configuration',
     'There are no tests.',
     ['niles/train.py'], [('transfer_perm, make_multiscale_perm, get_energy_spectrum, schedules', 'niles/train.py')],
     ['transfer_perm', 'make_multiscale_perm', 'get_energy_spectrum', 'create_learning_rate_fn'],
     'runtime monitor: outputs judged by numpy definitions', 'random configurations')

prop('C31', 'The closure model is a well-formed batch-wise stochastic map',
     'For any supported configuration the model maps a batch of element features to an output of the same shape, treats the examples of a batch independently of each other, is a deterministic function of parameters, input and random key, and has finite gradients for all trainable parameters. Where the noise of the latent process vanishes, the divergence rate and its derivatives vanish instead of being undefined.',
     ['inputs', 'configurations'], 'every configuration, batch and key',
     'There are no tests.',
     ['niles/transformer.py', 'niles/train.py'], [('Model', 'niles/transformer.py')], ['Model.init', 'Model.apply'],
     'runtime monitor: metamorphic invariants on model executions', 'random small configurations')

prop('C32', 'Data generation records the simulated trajectory',
     'A simulation cycle advances the flow by the requested number of steps of the time stepping scheme and writes a file whose snapshots are the initial state and every tenth state, with matching times, velocities and pressures, named after the steps covered; the returned histories continue the simulation so that two cycles equal one cycle of the same total length.',
     ['histories', 'inputs'], 'every initial state, number of steps and cycle split',
     'There are no tests.',
     ['niles/datagen/datagen.py', 'navier_stokes/navier_stokes.py'], [('one_cycle', 'niles/datagen/datagen.py')], ['one_cycle', 'written file'],
     'runtime monitor: written event log replayed against independent stepping', 'small grids, several cycles')

prop('C33', 'Mesh computations never index out of bounds or create non-finite values',
     'On any valid mesh, finite fields and any supported operation, no array access goes out of bounds (JAX would silently clamp or drop it), no NaN arises in any intermediate operation and no NaN or infinity in a result, no tracer escapes, and the input arrays and meshes are left unmodified.',
     ['inputs', 'programs', 'configurations'], 'every operation sequence on valid inputs',
     'Out of bounds accesses are silent in JAX, so tests cannot see them unless values differ.',
     ['core/gather_scatter.py', 'core/mesh.py', 'core/fespace.py', 'navier_stokes/navier_stokes.py', 'linalg/cg.py', 'core/premesh.py', 'core/mesh_refiner.py'],
     [('sentinel handling and masks', 'core/gather_scatter.py')], ['all mesh operations'],
     'JAX runtime sanitizers (checkify index and nan checks, debug_nans, leak checker) and mutation monitor', 'operation sequences on random meshes')

prop('C34', 'Simulations are differentiable with correct derivatives',
     'Derivatives of integrals, assembled operators, exchanges, linear solves and whole flow steps with respect to fields, forcing, physical parameters and node coordinates agree with finite differences, and forward- and reverse-mode derivatives agree with each other where both are supported.',
     ['inputs', 'programs'], 'every mesh, operation, input and direction',
     'Tests do not differentiate the solver.',
     ['core/fespace.py', 'core/gather_scatter.py', 'navier_stokes/navier_stokes.py', 'linalg/cg.py'],
     [('custom_vmap, linear_transpose, custom_linear_solve', 'core/fespace.py')], ['jax.grad, jax.jvp through the API'],
     'runtime monitor: derivative events judged by finite differences', 'random meshes and directions')

prop('C35', 'Compilation and batching do not change results',
     'Every mesh, function space and flow operation gives the same result eagerly, under jit, and mapped over a batch of fields (agreeing with one call per field), with meshes passed as arguments or closed over, and in single precision agrees with double precision to single precision accuracy. '
     'One function space, interpolator or flow setup may serve calls of both precisions, eager and compiled, in any order: each gives what a new object gives.',
     ['programs', 'configurations', 'inputs'], 'every operation, batching and compilation context',
     'Tests call each operation in one context.',
     ['core/mesh.py', 'core/fespace.py', 'core/gather_scatter.py', 'navier_stokes/navier_stokes.py'],
     [('pytree registration, custom_vmap rules', 'core/fespace.py')], ['jit, vmap of the API'],
     'runtime monitor: differential executions across contexts', 'random meshes and fields')

prop('C36', 'Physical masks mark exactly the nodes of their group',
     'In a finalized mesh, partitioned or not, the mask of a physical group is true at exactly the nodes that are contained in a facet of the group or are identified with such a node by periodic links, on every partition holding a copy, and never at padding.',
     ['inputs', 'configurations'], 'every mesh, group, link and partitioning',
     'Tests use one boundary group on regular meshes.',
     ['core/premesh.py'], [('_mask in Premesh.finalize', 'core/premesh.py')], ['Mesh.physical_masks'],
     'runtime monitor: masks judged by union-find reference', 'random groups, links, partitions')

prop('C37', 'Results do not depend on numbering or element orientation',
     'Renumbering the nodes, permuting the elements, rotating the local corner order of elements, or listing groups and links in another order permutes finalized results accordingly and changes no integral, no Poisson solution and no flow step beyond rounding.',
     ['inputs', 'configurations', 'programs'], 'every mesh and relabelling',
     'Tests only use the numbering of the mesh generators.',
     ['core/mesh_refiner.py', 'core/premesh.py', 'core/gather_scatter.py', 'navier_stokes/navier_stokes.py', 'examples/poisson.py'],
     [('numbering independent assembly', 'core/gather_scatter.py')], ['pipeline outputs matched by coordinates'],
     'runtime monitor: metamorphic relabelling oracle', 'random relabellings in 2D/3D')

prop('C38', 'Time stepping converges to exact flows at its order',
     'From exact history of a smooth solution of the Stokes or Navier-Stokes equations, with the filter off and convection extrapolated, repeated steps of time order 1 to 3 in periodic domains (1 and 2 with moving Dirichlet values) approach the exact velocity: differences between step sizes fall at the order of the scheme, what remains falls spectrally with the element order. Unforced periodic Stokes flows keep their momentum and never exceed their initial energy.',
     ['histories', 'configurations', 'inputs'], 'every time order, element order, mesh and smooth flow',
     'Tests check steady flows at one resolution.',
     ['navier_stokes/navier_stokes.py'], [('stokes_one_step with bdfk and extk', 'navier_stokes/navier_stokes.py')], ['sequences of stokes_one_step'],
     'runtime monitor: error decay and conservation over recorded trajectories', 'travelling Taylor-Green and manufactured flows')

prop('C39', 'Training follows the closed simulation and updates all replicas by its gradient',
     'For any closure, batch and settings, the training loss is the sum over the solver steps of the batch mean of half the squared distance between the rolled out velocities and the snapshots that follow the initial ones, plus the weighted divergence. Every step of the roll-out is the flow step with extrapolated convection, the Kolmogorov forcing, drag and the closure of the current velocities summed from the elements to the nodes; no gradient passes through the closures of push-forward steps. All replicas apply the same AdamW update with the clipped mean gradient and stay equal. A restored checkpoint is the saved state and continues the run. A run performs the number of updates its configuration asks for on the batches it is given, one after the other, writes its checkpoints and reports averages when scheduled, and a run that is stopped anywhere and started again ends where it would have. Evaluation uses no dropout and reports the spectral error over the second half of the roll-out.',
     ['inputs', 'configurations', 'histories'], 'every closure, batch, flow setup, optimizer and roll-out setting',
     'No test runs a training step.',
     ['niles/train.py'], [('compute_mse_loss', 'niles/train.py'), ('train_step', 'niles/train.py'), ('checkpoints', 'niles/train.py')],
     ['compute_mse_loss', 'train_step', 'save_checkpoint', 'restore_checkpoint', 'train_and_evaluate'],
     'runtime monitor: roll-out, loss, gradients and updates recomputed step by step', 'independent roll-out and AdamW recurrence')

prop('C40', 'Results do not depend on the unit of length, the place or the direction of the axes',
     'Measuring a mesh in another unit, moving it or turning it changes neither how it is read from a file, partitioned, refined, linked, masked or exchanged, and multiplies integrals, forms, solutions of the Poisson equation and flow steps by the powers of the unit their dimension asks for, on one device or several. Scaling a linear system by powers of two scales the iterates of the solver.',
     ['inputs', 'configurations', 'programs'], 'every mesh, file, flow and similarity transform',
     'Tests only use unit domains at the origin.',
     ['core/mesh_refiner.py', 'core/premesh.py', 'core/fespace.py', 'common/mesh_reader.py', 'navier_stokes/navier_stokes.py', 'linalg/cg.py', 'examples/poisson.py'],
     [('dimensionally consistent operators', 'core/fespace.py')], ['pipeline outputs of both meshes'],
     'runtime monitor: metamorphic similarity oracle', 'random scales, shifts and rotations')

prop('C41', 'The same calls give the same results in every process and after any history',
     'Results are a function of the arguments (and of the contents of the files read): the same call gives the same result in another process, whatever the order of calls before it, failed calls in between, repetition, what a caller later does to returned arrays, the random state of the process and the order in which it hashes strings. Random numbers follow from the keys that are passed, partitions from the mesh. No call modifies the arrays passed to it, so that meshes may be finalized, refined or partitioned again.',
     ['histories', 'inputs', 'configurations'], 'every history of calls in every process',
     'Tests make each call once, in one order, in one process.',
     ['core/premesh.py', 'core/gather_scatter.py', 'core/mesh_refiner.py', 'core/interpolation.py', 'common/mesh_reader.py', 'common/mesh_partitioner.py', 'communication/jit_distributed.py', 'communication/crystal_router.py', 'navier_stokes/navier_stokes.py', 'sde/sdeint.py', 'niles/train.py', 'niles/transformer.py', 'niles/input_pipeline.py'],
     [('no state outside of arguments and results', 'core/premesh.py')], ['results of all public calls', 'bytes of the arguments before and after'],
     'runtime monitor: recorded results of several processes and histories compared', 'random call histories with failing calls')

prop('C42', 'Calls outside the documented domain are refused, not answered',
     'Every operation whose documentation, message or explicit test states a domain refuses calls outside of it with an exception, before any result is returned, while all neighbouring calls inside are answered: refinement and flow setups of meshes of order above one, refinement of empty groups, elements whose number of nodes does not fit the grid of nodes, gather, scatter and interpolation of arrays of another shape, nodal functions of another shape, integrands that are not scalar, functionals without exactly one placeholder, functions of a space with other points, unknown node families and rules of a single point, partition blocks that do not divide the cube, partitioned meshes without the name of an axis, periodic images within one partition, mesh files of other dimensions or without cells of the type, unknown models, and states, noise, contexts or inputs of another rank, size or type in the networks.',
     ['input shapes', 'configurations', 'files'], 'every call outside a stated domain',
     'Tests call inside the domain; an error path that no longer triggers answers silently with wrong numbers.',
     ['core/premesh.py', 'core/mesh.py', 'core/gather_scatter.py', 'core/mesh_refiner.py', 'core/interpolation.py', 'core/fespace.py', 'common/mesh_reader.py', 'common/premesh_commons.py', 'navier_stokes/navier_stokes.py', 'niles/train.py', 'niles/transformer.py'],
     [('explicit domain tests', 'core/fespace.py')], ['exceptions', 'returned values'],
     'runtime monitor: refusals outside and answers inside of every stated domain', 'random neighbours of valid calls')

prop('C43', 'How arguments are stored does not matter',
     'Results depend on the values of arguments only: arrays may be stored by rows or columns, as strided, reversed, unaligned or read-only views, node indices in signed integers of any sufficient width (elements, groups, links and partitions each in another, serial meshes before refinement also in the other byte order), fields as arrays of numpy or jax, and mesh files may be named by strings or path objects, absolute or relative. The same holds for meshes, premeshes, nodes and rules that were copied, pickled, rebuilt from their leaves, transferred or passed through a compiled function between the steps of a computation.',
     ['inputs', 'configurations'], 'every storage of the arguments of every call',
     'Tests pass freshly created contiguous arrays.',
     ['core/premesh.py', 'core/mesh.py', 'core/gather_scatter.py', 'core/mesh_refiner.py', 'core/interpolation.py', 'core/fespace.py', 'common/mesh_reader.py', 'common/mesh_partitioner.py', 'communication/crystal_router.py', 'linalg/cg.py', 'navier_stokes/navier_stokes.py', 'sde/sdeint.py', 'niles/transformer.py'],
     [('arrays are read by value', 'core/gather_scatter.py')], ['results of public calls'],
     'runtime monitor: metamorphic storage oracle', 'random storage of every argument')

NOT_APPLICABLE = {}


def main(claimed=None):
  claimed = claimed or [p['id'] for p in P if os.path.exists(
      os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))]
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(dict(
          id=p['id'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=p['over'], text=p['text']),
          why_tests_cant=p['why'],
          anchors=dict(files=p['files'],
                       mechanism=[dict(name=n, where='swirl_fem/' + w) for n, w in p['mech']],
                       observe_at=p['observe'], hook_needed=None)),
          ensure_ascii=False) + '\n')
  checks, na = [], []
  for p in P:
    if p['id'] in NOT_APPLICABLE:
      na.append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]))
    elif p['id'] in claimed:
      checks.append(dict(
          property=p['id'], quick_cmd=f"./run.sh {p['id']}",
          thorough_cmd=f"./run.sh {p['id']}",
          technique=p['technique'], level='exploration', level_note=p['note']))
    else:
      na.append(dict(property=p['id'], reason='check under construction'))
  m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           notes='Every check is an oracle observing executions of the real code; no hooks in /repo are needed.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')


if __name__ == '__main__':
  main()
