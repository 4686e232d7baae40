INP=['inputs']; 
prop('C01','Material interpolation models are exact, bounded and differentiated exactly',
 "For every density, exponent, minimum value and parameter history, each material interpolation model (SIMP, RAMP, Heaviside) returns its documented closed form: the minimum value at density 0 and 1 at density 1 (Heaviside: outside the regularization length), and the same value and exact derivative when evaluated on an automatic-differentiation number. Continuation never moves the penalty beyond its upper bound and steps by exactly the given increment below it. Setting parameters from a map changes exactly the named parameters and uses the documented default for a missing one.",
 ['inputs','histories'],'all densities, exponents, minimum values, continuation steps/bounds (histories of up to 4 updates) and every subset of present parameters',
 'the unit tests evaluate each model at one or two points with one parameter set; the repository has no test for continuation past the bound or missing keys',
 ['src/Simp.hpp','src/Ramp.hpp','src/Heaviside.hpp','src/NoPenalty.hpp'],[('operator()','src/Simp.hpp'),('update','src/Ramp.hpp'),('setParameters','src/Heaviside.hpp')])
prop('C02','Density projections interpolate 0 and 1 and are differentiated exactly',
 "For every curvature and threshold and after any sequence of parameter changes, the hyperbolic-tangent projection maps 0 to 0 and 1 to 1, equals its documented formula, and depends only on the current curvature and threshold (not on how they were reached). Projecting an element's nodal densities applies the projection to the mean of that element's nodal values only, with the exact derivative.",
 ['inputs','histories'],'all curvatures, thresholds and densities; all setter sequences up to length 3; cells of 1-3 dimensions',
 'tests use one curvature/threshold and one setter order',
 ['src/HyperbolicTangentProjection.hpp','src/HeavisideProjection.hpp','src/ApplyProjection.hpp'],[('apply','src/HyperbolicTangentProjection.hpp'),('operator()','src/ApplyProjection.hpp')])
prop('C03','Dense vector operations compute exactly their mathematical definition',
 "For every vector length within bounds, contents and scalar, each level-1 operation (fill, scale, copy, update/axpy, dot, norm, absolute value, sum, min, max, shift, range fill, fill of listed entries, extraction by stride) produces exactly its defining value and changes no other entry. Inputs that violate the size contract are rejected with an exception, and no call reads or writes outside its arguments.",
 ['inputs'],'all vector contents and scalars, lengths 1-4 (quick) and up to 6 (thorough), all listed-index patterns including the empty list',
 'tests use one length and one constant fill value per operation',
 ['src/BLAS1.hpp','src/ImplicitFunctors.hpp'],[('update','src/BLAS1.hpp'),('dot','src/BLAS1.hpp')])
prop('C04','Sparse block matrix algebra agrees with dense algebra',
 "For every sparse block matrix (any block shape and sparsity pattern within bounds), matrix-vector products, products, sums, differences, row sums, lumped inverse multiplication, diagonal inverse multiplication, condensation, and conversion to and from non-block form, all with any row stride/offset, give the same result as the dense computation, keep the sparsity pattern of the target, and touch no memory outside their arguments.",
 ['inputs'],'all matrix and vector values; blocks 1x1 to 3x3 including rectangular; patterns up to 3 block rows, with unordered columns',
 'tests use a handful of fixed small matrices',
 ['src/PlatoMathHelpers.hpp','src/PlatoMathFunctors.hpp','src/alg/CrsMatrix.hpp',],[('MatrixMatrixMultiply','src/PlatoMathHelpers.hpp'),('RowSum','src/PlatoMathFunctors.hpp')])
prop('C05','Imposing prescribed values keeps the solution of the constrained system',
 "For every matrix with a symmetric sparsity pattern, right-hand side, set of constrained unknowns, prescribed values and load scale, imposing the prescribed values yields a system that fixes each constrained unknown to its scaled value and has, for the free unknowns, exactly the equations of the original system with the constrained values substituted. Constrained rows and columns become those of the identity, so a symmetric matrix stays symmetric, and nothing else changes.",
 ['inputs'],'all matrix, right-hand-side and prescribed values and scales; systems up to 3 nodes x 2 unknowns; all subsets of constrained unknowns of those sizes in several orders; block and scalar storage',
 'one existing test checks two fixed constraint sets on one symmetric mesh matrix',
 ['src/ApplyConstraints.hpp'],[('applyBlockConstraints','src/ApplyConstraints.hpp'),('applyConstraints','src/ApplyConstraints.hpp')])
prop('C06','Cell-wise dense matrix operations compute their mathematical definition',
 "For every cell count, matrix shape and content within bounds, the cell-wise dense operations (identity, fill, scale, inverse, matrix-matrix and matrix-vector products with transposes and scaling, axpy, norms and inner products) give for each cell exactly the defining value, independent of all other cells. Mismatched shapes are rejected with an exception and an invertible matrix times its computed inverse is the identity.",
 INP,'all entries; 1-3 cells, 1x1 to 3x3 and rectangular shapes',
 'tests use one fixed workset per operation, mostly constant-filled',
 ['src/BLAS2.hpp','src/BLAS3.hpp'],[('multiply','src/BLAS3.hpp'),('matrix_times_vector','src/BLAS2.hpp')])
prop('C07','Strain and divergence kernels are exact linear operators and mutually adjoint',
 "For every nodal state, shape-function gradient, cell volume, scale and previous content of the output, the element kernels compute exactly their defining sums: symmetric gradient in Voigt order with engineering shear, scalar gradients, interpolation to the cubature point, and the stress, flux, pressure and body-force contributions to nodal residuals, at the named degree of freedom only and for their own cell only. Divergence kernels are the exact adjoint of the corresponding strain or gradient kernel, so internal virtual work equals stress times strain.",
 INP,'all nodal values, gradients, stresses, volumes, scales and stale output contents; 1-3 dimensions; mechanical, thermomechanical, electromechanical, stabilized and complex kernels; one cell of a three-cell workset with the others required unchanged',
 'tests compare one fixed mesh state per kernel, with outputs freshly zeroed',
 ['src/Strain.hpp','src/TMKinematics.hpp','src/EMKinematics.hpp','src/Kinematics.hpp','src/StressDivergence.hpp','src/FluxDivergence.hpp','src/VoigtMap.hpp'],[('operator()','src/TMKinematics.hpp'),('operator()','src/StressDivergence.hpp')])
prop('C08','Isotropic elastic stress, deviator, work and moduli follow the documented laws',
 "For every strain, modulus and cell, the elastic kernels return exactly the documented law: Cauchy stress 2*mu*e + lambda*tr(e)*I with lambda = K - 2*mu/3 and engineering shear, deviatoric stress and strain (traceless), elastic work mu e^d:e^d + K/2 tr(e)^2, the pressure stabilization term, and shear/bulk moduli from Young's modulus and Poisson's ratio; inputs and other cells are unchanged. Missing material parameters are rejected with an exception.",
 INP,'all strains, moduli, volumes and stale outputs; 1-3 dimensions; every subset of missing parameters',
 'tests use one strain state per kernel (and for two kernels pin a wrong value)',
 ['src/ComputeCauchyStress.hpp','src/ComputeDeviatoricStress.hpp','src/ComputeDeviatoricStrain.hpp','src/ComputeElasticWork.hpp','src/ComputeStabilization.hpp','src/IsotropicMaterialUtilities.hpp'],[('operator()','src/ComputeCauchyStress.hpp'),('compute_bulk_modulus','src/IsotropicMaterialUtilities.hpp')])
prop('C09','J2 plasticity state updates satisfy the flow rule and the local residual',
 "For every previous state, yield-surface normal, multiplier and hardening modulus: the plastic-step update sets plastic strain and backstress by the associative flow rule (engineering shear doubled) and makes the plastic-strain and backstress residuals exactly zero; the elastic step freezes both; residual entries of other state variables and other cells are untouched; the yield-surface normal has unit norm and the direction of deviatoric stress minus backstress; plastic flow along a deviatoric normal preserves volume. Elastic strain is total minus plastic minus isotropic thermal strain, and state accessors read the documented slots.",
 INP,'all states, normals, multipliers, moduli, temperatures and stale outputs; 2 and 3 dimensions',
 'tests use two cells with one hand-picked state each',
 ['src/J2PlasticityUtilities.hpp','src/ThermoPlasticityUtilities.hpp'],[('updatePlasticStrainAndBackstressPlasticStep','src/J2PlasticityUtilities.hpp'),('computeElasticStrain','src/ThermoPlasticityUtilities.hpp')])
prop('C10','Local stress measures: von Mises, eigenvalues and tensile energy are exact',
 "For every stress or strain state: the von Mises stress is the documented invariant (independent of hydrostatic pressure, consistent between 2D and 3D, exact derivative on automatic-differentiation numbers); 2D eigenvalues, and each Jacobi sweep in 3D, are exact (trace and determinant of the rotated pair preserved, diagonal tensors unchanged, engineering shear halved on request) for either sign of shear; the tensile energy density counts exactly the positive principal strains and positive trace.",
 INP,'all tensors (2D complete; 3D diagonal tensors for any number of sweeps and one sweep of a full tensor), all Lame constants; 1-3 dimensions. Convergence of several Jacobi sweeps on fully coupled 3D tensors is outside the bound',
 'tests use two cells with one tensor each, with positive shear only',
 ['src/VonMisesYieldFunction.hpp','src/Eigenvalues.hpp','src/TensileEnergyDensity.hpp'],[('operator()','src/Eigenvalues.hpp'),('operator()','src/TensileEnergyDensity.hpp')])
prop('C11','P-norm aggregates and their gradients use one consistent exponent',
 "For every tensor or vector field, cell volume and exponent (integer or not): each cell contributes volume times the p-th power of the plain, weighted or Barlat effective magnitude with the given weights and defaults; the reported value is the p-th root of the sum, so a uniform field over unit volume returns its magnitude; and the gradient scaling makes the automatic-differentiation gradient the exact derivative of the reported value. The norm type named in the input is the one used.",
 INP,'all tensors, volumes, real exponents 1-8, weights, given or defaulted parameters; Barlat exponents 2,4,6 with fixed transformation tensors',
 'no existing runnable test covers these norms',
 ['src/TensorPNorm.hpp','src/VectorPNorm.hpp'],[('postEvaluate','src/TensorPNorm.hpp'),('create','src/TensorPNorm.hpp')])
prop('C12','Basis functions and cubature rules integrate polynomials exactly',
 "For every dimension (1-3) and supported degree, the cubature rule has its documented number of points, all inside the reference simplex, and integrates every polynomial up to that degree exactly (to rounding); unsupported dimensions or degrees and wrongly sized arrays are rejected with an exception. Linear basis functions are one at their own node and zero at the others, sum to one, reproduce every linear field at every point, and their gradients are the exact derivatives. The one-point rule used by the elements integrates every linear nodal field exactly.",
 INP,'all polynomials (symbolic coefficients) of degree 0-3 in 1-3 dimensions, all evaluation points, all nodal values, all dimension and degree arguments in a range around the supported ones',
 'no existing test integrates a polynomial or calls the higher-order rules',
 ['src/alg/Cubature.cpp','src/alg/Basis.cpp','src/LinearTetCubRuleDegreeOne.hpp','src/Simplex.hpp'],[('getCubature','src/alg/Cubature.cpp'),('getValues','src/alg/Basis.cpp')])
prop('C13','Time integrators step by their scheme and report its exact derivatives',
 "For every time step, parameter pair and state: the Newmark velocity and acceleration residuals vanish exactly on states produced by the Newmark scheme, are exact for constant acceleration, and for gamma=1/2, beta=1/4 an undamped oscillator keeps its energy; the reported derivative coefficients are the exact derivatives of the residuals (used by the adjoint). The trapezoid integrator likewise: residual zero on its scheme, exact coefficients, documented default parameter, exact for a linear rate with alpha=1/2. Missing Newmark parameters are rejected.",
 INP,'all states, steps in (0,10], beta in (0,1], gamma in [0,1]; vectors of 1-3 unknowns',
 'no runnable test covers the integrators',
 ['src/hyperbolic/Newmark.hpp','src/parabolic/TrapezoidIntegrator.hpp'],[('v_value','src/hyperbolic/Newmark.hpp'),('v_grad_a_prev','src/hyperbolic/Newmark.hpp'),('v_value','src/parabolic/TrapezoidIntegrator.hpp')])
prop('C14','The rocket model balances pressure and consumes what it burns at every step',
 "For every chamber, propellant and nozzle parameter set: each time step of the algebraic rocket model solves the mass balance (propellant burned equals gas leaving through the throat) by Newton iteration up to the pressure tolerance or the iteration limit, reports thrust from that step's pressure, burns the surface back by burn rate times step, and advances time by exactly the step until the total burn time. Profiles start from the documented initial values, have one entry per step, and repeated solves do not accumulate. Cylinder area, mass rate and gradient are exact.",
 ['inputs','histories'],'all positive parameters (pressure-independent burning: up to 3 steps and 2 solves; general exponent: 1-2 Newton iterations), all chamber sizes',
 'the tests run two fixed rockets and compare with stored profiles',
 ['src/Plato_AlgebraicRocketModel.hpp','src/Plato_Cylinder.hpp','src/Plato_GeometryModel.hpp'],[('solve','src/Plato_AlgebraicRocketModel.hpp'),('newton','src/Plato_AlgebraicRocketModel.hpp'),('evolveGeometry','src/Plato_Cylinder.hpp')])
prop('C15','The material used is exactly the material given in the input',
 "For every set of given entries and values, material containers return exactly what was given: second-rank tensors (with documented defaults: missing diagonal entries copy the first, missing off-diagonals are zero, symmetric), fourth-rank tensors in Voigt notation (symmetric), isotropic stiffness from Young's modulus and Poisson's ratio (equal to the textbook law in 1, 2 and 3 dimensions at every temperature), temperature polynomials c0+c1*T+c2*T^2, and thermal conduction, thermal mass and thermoelastic materials. Properties never given, a required entry that is missing, or a constant given where a function is needed (and vice versa) are never replaced by silent zeros.",
 INP,'all values, temperatures and every subset of optional entries (1-3 dimensions), linear and temperature-dependent models',
 'tests build one material of each kind with all entries present',
 ['src/MaterialModel.hpp','src/MaterialModel.cpp','src/Rank4Voigt.cpp','src/IsotropicStiffness.cpp','src/ThermalConductivityMaterial.hpp','src/ThermalMassMaterial.hpp','src/ThermoelasticMaterial.hpp'],[('TensorFunctor','src/MaterialModel.cpp'),('IsotropicStiffnessConstant','src/IsotropicStiffness.cpp'),('ThermoelasticModelFactory','src/ThermoelasticMaterial.hpp')])
prop('C16','A custom material equation evaluates to the expression that was written',
 "For every expression over numbers, variables, + - * / ^ ! | |, parentheses (adjacent ones multiply) and sin, cos, tan, exp, log, sqrt, abs, pow, and every value of the variables, the custom-material evaluator returns its mathematical value with the usual precedence and associativity (a sign binds tighter than ^), or rejects it with an exception: malformed text, unknown variables and missing equations are never given a value. Parsing reads nothing outside the text and a failed or repeated parse leaves the evaluator usable. The equation used is the one named, else the indexed line of the Bingo file.",
 ['inputs','histories'],'all variable values; all token sequences of length up to 3 (quick) / 4 (thorough) and all of length 2 inside parentheses, bars and pow arguments; all well-formed expressions with up to 3 binary or 2 unary operators; a fixed list of number and name forms',
 'no runnable test evaluates an expression',
 ['src/ExpressionEvaluator.cpp','src/CustomMaterial.cpp'],[('parse_expression','src/ExpressionEvaluator.cpp'),('evaluateNode','src/ExpressionEvaluator.cpp'),('GetCustomExpressionValue','src/CustomMaterial.cpp')])
prop('C17','Frequency-domain element forces and energies are those of the damped oscillator',
 "For every cell, state, frequency, density and damping coefficients: damping acts at every node of the cell and couples real and imaginary parts with opposite signs (the adjoint operator is the transpose), inertial forces are those of the consistent mass so their total is mass times mean displacement, the cell residual adds elastic + damping - omega^2 inertial force to what was there, and the elastic energy, inertial energy, tensor double-dot product and frequency-response misfit (with its derivative) equal their definitions. Other cells and all inputs are unchanged; unspecified damping coefficients take their documented defaults.",
 ['inputs'],'all states, forces, volumes, coefficients in bounded boxes; 1D, 2D and 3D; a middle cell of three','the tests sample one mesh, one state and one frequency',
 ['src/ComplexRayleighDamping.hpp','src/AdjointComplexRayleighDamping.hpp','src/RayleighDamping.hpp','src/InertialForces.hpp','src/StateValues.hpp','src/StructuralDynamicsCellResidual.hpp','src/ComplexElasticEnergy.hpp','src/ComplexInertialEnergy.hpp','src/ComputeFrequencyResponseMisfit.hpp','src/DoubleDotProduct2ndOrderTensor.hpp'],
 [('ComplexRayleighDamping','src/ComplexRayleighDamping.hpp'),('structural_dynamics_cell_residual','src/StructuralDynamicsCellResidual.hpp'),('InertialForces','src/InertialForces.hpp')])
prop('C18','Heat flux and heat content follow the material for every temperature',
 "For every conductivity (scalar or symmetric tensor, constant or quadratic in temperature), temperature and temperature gradient, the flux of a cell is minus conductivity times gradient with the conductivity evaluated at the cell's temperature, and the heat content is density times specific heat times the given temperature (or temperature rate); derivatives with respect to temperature include the material's own dependence. The element conduction matrix built from them is symmetric, conserves heat, vanishes on uniform temperature and (isotropic) dissipates. Other cells and inputs are unchanged.",
 ['inputs'],'all material coefficients, temperatures and gradients in bounded boxes; 1D, 2D and 3D; scalar, tensor, constant and temperature-dependent materials','the tests use one constant and one temperature-dependent material at a few temperatures',
 ['src/ThermalFlux.hpp','src/ThermalContent.hpp','src/ThermalConductivityMaterial.hpp','src/ThermalMassMaterial.hpp','src/MaterialModel.hpp'],
 [('ThermalFlux','src/ThermalFlux.hpp'),('ThermalContent','src/ThermalContent.hpp')])
prop('C19','Nonlinear-solver stopping measures and solver parameters are what was asked for',
 "For every history of residual norms, the absolute (relative) stopping measure of iteration k is |r(k-1)-r(k)| (divided by |r(k)|), the first iteration of a solve only sets the reference, and norms that are not finite are rejected; the stopping-measure names are recognised in any letter case and every other name is rejected; diagnostics are written only when requested and never to a closed file. A parameter or sub-list parameter has the value the user gave, the stated default when absent, and is rejected when it is required and absent or has the wrong type.",
 ['inputs','histories'],'histories of up to 4 norms and a restarted solve, all norms; letter-case patterns of the first 6 (quick) / 9 (thorough) letters; all scalar values','the tests follow one norm history and read a handful of parameters',
 ['src/NewtonRaphsonUtilities.hpp','src/ParseTools.hpp'],
 [('compute_relative_residual_norm_error','src/NewtonRaphsonUtilities.hpp'),('newton_raphson_stopping_criterion','src/NewtonRaphsonUtilities.hpp'),('getParam','src/ParseTools.hpp')])
MESHN=' The mesh library (Omega_h) is not available here; it is replaced by /verif/engine/overlay/omega_h_stub.hpp, a small simplex mesh (two cells, shared side, both cell orientations) with the same interface: the repository code is real, the mesh data structures underneath are a model.'
prop('C20','Gather and assembly move every cell contribution to its own unknown exactly once',
 "For every nodal field, cell contribution and element block (whole mesh, reversed, one cell): worksets hold, for each cell, exactly the values at its nodes, and automatic-differentiation worksets are seeded with a one in exactly their own slot; assembling residuals, scalar values, gradients and Jacobians adds each cell's contribution exactly once at its global unknown and nothing elsewhere; the sparse graph built from the mesh is well formed (sorted or not, no duplicates, every needed entry present) for square and rectangular node couplings, with the block shape asked for, and the entry ordinals point at the right entries. Fields of several domains together cover the mesh.",
 INP,'all field values and contributions; 2-cell meshes in 1-3 dimensions, element blocks with 1-2 cells in either order; 1-4 unknowns per node, square and rectangular blocks',
 'no runnable test exercises gather or assembly (they need the mesh library)',
 ['src/WorksetBase.hpp','src/Assembly.hpp','src/ImplicitFunctors.hpp','src/SpatialModel.hpp','src/ToMap.hpp'],[('assembleJacobianFad','src/WorksetBase.hpp'),('CreateBlockMatrix','src/ImplicitFunctors.hpp'),('worksetState','src/WorksetBase.hpp')],note=MESHN)
prop('C21','Element volumes, gradients and side areas are those of the actual simplex',
 "For every position of the nodes of a non-degenerate cell: its volume is the simplex volume, its shape-function gradients are the exact derivatives of the linear shape functions (they sum to zero and reproduce every linear field), its side areas and lengths are those of the side, the strain-displacement matrix is built from those gradients, and a field projected to nodes or interpolated to the integration point takes its exact value; every derivative with respect to node coordinates carried along is exact.",
 INP,'all node coordinates within +-0.125 of a reference mesh (3D: node subsets, one general tetrahedron); 1-3 dimensions, both orientations',
 'no runnable test evaluates element geometry',
 ['src/ImplicitFunctors.hpp','src/LinearTetCubRuleDegreeOne.hpp'],[('ComputeGradientWorkset','src/ImplicitFunctors.hpp'),('ComputeSurfaceArea','src/ImplicitFunctors.hpp'),('ComputeVolume','src/ImplicitFunctors.hpp')],note=MESHN)
prop('C22','Loads and prescribed values act exactly where and as strongly as the input says',
 "For every load value, side set, node set and node position: a uniform traction adds value times side area over the number of side nodes at exactly the side's nodes and the physics' own unknowns, a uniform pressure acts along the outward normal, single-component loads act on that component only, a body load integrates its function at the cell centroid weighted with the cell density, a cell-problem forcing subtracts the chosen stiffness column, and prescribed values name exactly the unknowns of the named node sets with their values (constant or time function, zero type). Side sets, types or values that do not exist are rejected.",
 INP,'all load values, densities and node positions (within +-0.125); 1-3 dimensions; mechanical, thermal and thermomechanical unknown layouts; side sets of 1-2 sides, node sets with overlaps',
 'no runnable test applies a load',
 ['src/NaturalBC.hpp','src/NaturalBCs.hpp','src/SurfaceLoadIntegral.hpp','src/SurfacePressureIntegral.hpp','src/BodyLoads.hpp','src/EssentialBCs.hpp','src/CellForcing.hpp'],[('get','src/NaturalBC.hpp'),('operator()','src/SurfaceLoadIntegral.hpp'),('get','src/BodyLoads.hpp'),('get','src/EssentialBCs.hpp')],note=MESHN)
prop('C23','Steady residuals are the weak form and their matrices its exact derivatives',
 "For every state, density field, node position, load and material: the residual of the steady mechanical, thermal, thermomechanical and electromechanical problems is the weak form (cell volume times penalised stress or flux times shape-function gradient, minus loads; thermal problem: heat flux into the body positive), domain by domain with each domain's own material; the state, control and configuration matrices are its exact derivatives (stored in the documented transposed or plain form); and requested plot fields hold every cell's strain, stress, gradient, flux, electric field and displacement.",
 INP,'all states, densities in [0.1,1], loads and material values in boxes; 2-cell meshes in 1-3 dimensions with one or two domains, SIMP/RAMP/none penalties, constant and temperature-dependent materials; node positions within +-0.125 (derivatives: one moving node at a time in 2D/3D)',
 'no runnable test assembles a residual',
 ['src/elliptic/VectorFunction.hpp','src/elliptic/ElastostaticResidual.hpp','src/elliptic/ThermostaticResidual.hpp','src/elliptic/ThermoelastostaticResidual.hpp','src/elliptic/ElectroelastostaticResidual.hpp','src/NaturalBCUtilities.hpp'],[('evaluate','src/elliptic/ElastostaticResidual.hpp'),('gradient_x','src/elliptic/VectorFunction.hpp'),('gradient_u','src/elliptic/VectorFunction.hpp')],
 note=MESHN+' Known findings: the configuration derivative omits position-dependent body loads and the pressure normal.')
prop('C24','Elastic, thermoelastic and electroelastic models carry exactly the given entries',
 "For every set of given entries and values: the elastic model named in the input (isotropic, cubic, custom equation, orthotropic), the linear thermoelastic models (isotropic, cubic) and the electroelastic model have exactly the stiffness, reference strain, density, damping, expansion, conductivity, piezoelectric, permittivity and scaling entries that were given, with the documented defaults; the orthotropic stiffness is the inverse of the orthotropic compliance and is accepted exactly when it is stable (positive moduli, positive compliance determinants); a missing required entry or an undefined model name is rejected.",
 INP,'all values and every combination of optional entries (alternating subsets of reference strains); 1-3 dimensions; orthotropic 3D: moduli or Poisson ratios symbolic, stability: any one entry symbolic',
 'no runnable test builds these models',
 ['src/LinearElasticMaterial.cpp','src/IsotropicLinearElasticMaterial.cpp','src/CubicLinearElasticMaterial.cpp','src/CustomLinearElasticMaterial.cpp','src/OrthotropicLinearElasticMaterial.cpp','src/LinearThermoelasticMaterial.cpp','src/LinearElectroelasticMaterial.cpp','src/ElasticModelFactory.hpp'],[('checkOrthoMaterialStability','src/OrthotropicLinearElasticMaterial.cpp'),('create','src/ElasticModelFactory.hpp')],note=MESHN)
prop('C25','Criteria have their stated value and their gradients are its exact derivatives',
 "For every state, density field, node position and material value: internal energies (elastic, thermal, thermoelastic, electroelastic), stress and flux p-norms, effective energy, volume, surface and solution criteria equal the stated integral over the domains (summed over load steps; the solution criterion reads the last step), weighted sums, quotients and least-squares combinations equal the stated combination of their parts, mass properties equal the moments of the mass distribution (centre of mass, inertia about the origin or, when all ten are asked for, about the goal's centre in the goal's principal axes), and each criterion's gradient with respect to the state of every load step, to the densities and to the node positions is the exact derivative of its value. Lists of unequal length, unknown properties and missing node sets are refused. The same holds for criteria evaluated without an analysis (geometric criteria).",
 INP,'all states, densities in [0.1,1], weights, goals and material values in boxes; 2-cell meshes in 1-3 dimensions, one or two domains, 1-2 load steps, p-norm exponents 2-4 (1D: any in [1,6]), SIMP/RAMP/none penalties; node positions within +-0.125; p-norms: strictly positive stress or flux in every cell; mass properties: any orthogonal or non-orthogonal result of the eigensolver',
 'no runnable test evaluates an elliptic or geometric criterion',
 ['src/elliptic/PhysicsScalarFunction.hpp','src/elliptic/WeightedSumFunction.hpp','src/elliptic/DivisionFunction.hpp','src/elliptic/LeastSquaresFunction.hpp','src/elliptic/SolutionFunction.hpp','src/elliptic/MassPropertiesFunction.hpp','src/elliptic/InternalElasticEnergy.hpp','src/elliptic/StressPNorm.hpp','src/elliptic/FluxPNorm.hpp','src/elliptic/EffectiveEnergy.hpp','src/geometric/MassPropertiesFunction.hpp','src/geometric/GeometryScalarFunction.hpp'],
 [('value/gradient_u/gradient_z/gradient_x','src/elliptic/PhysicsScalarFunction.hpp'),('getInertiaAndMassWeights','src/elliptic/MassPropertiesFunction.hpp'),('gradient_u','src/elliptic/LeastSquaresFunction.hpp'),('gradient_u','src/elliptic/SolutionFunction.hpp')],note=MESHN)

prop('C26','Time-dependent residuals are the stated weak forms; derivatives are exact',
 "For every state, rate, density field, node position, load and material value: the transient heat, transient thermomechanical and structural dynamics residuals equal the weak form stated for them (stiffness, capacity or mass, Rayleigh damping A M + B K, minus the applied loads) over one or several domains, their matrices with respect to the state, the velocity, the acceleration, the densities and the node positions are the exact derivatives of the residual, and transient criteria (thermal, thermoelastic and elastic energy, temperature average, stress p-norm) equal the stated integral summed over the time steps after the initial one, with exact gradients with respect to the state, its rates at every step, the densities and the node positions. Plotted fields are the ones named, on every domain.",
 INP,'all states and rates in [-1,1], densities in [0.1,1], material values in boxes; 2-cell meshes in 1-3 dimensions, one or two domains, 2-3 time steps, SIMP/RAMP penalties; node positions within +-0.125; p-norm exponent 2; temperature scaling 1; uniform loads; body loads not combined with node position derivatives (C23 finding)',
 'no runnable test evaluates a transient residual or criterion',
 ['src/parabolic/VectorFunction.hpp','src/parabolic/PhysicsScalarFunction.hpp','src/parabolic/HeatEquationResidual.hpp','src/parabolic/TransientThermomechResidual.hpp','src/parabolic/TemperatureAverage.hpp','src/parabolic/InternalThermalEnergy.hpp','src/parabolic/InternalThermoelasticEnergy.hpp','src/hyperbolic/HyperbolicVectorFunction.hpp','src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp','src/hyperbolic/ElastomechanicsResidual.hpp','src/hyperbolic/InertialContent.hpp','src/hyperbolic/HyperbolicInternalElasticEnergy.hpp','src/hyperbolic/HyperbolicStressPNorm.hpp'],
 [('value/gradient_u/gradient_v','src/parabolic/VectorFunction.hpp'),('value/gradient_u/gradient_v/gradient_a','src/hyperbolic/HyperbolicVectorFunction.hpp'),('evaluateWithDamping','src/hyperbolic/ElastomechanicsResidual.hpp'),('evaluate','src/parabolic/TransientThermomechResidual.hpp')],note=MESHN)
prop('C27','Stabilized residuals and projection are the stated weak forms; derivatives exact',
 "For every displacement, pressure, temperature, projected pressure gradient, density field, node position, load and material value: the stabilized mechanics and thermomechanics residuals equal the stated mixed weak form (deviatoric plus scaled pressure stress, volume constraint with thermal dilatation, pressure-gradient stabilization, heat conduction, minus the loads), the projection residual equals the weighted difference of projected and scaled pressure gradient, and their assembled and cell-wise matrices with respect to state, nodal field (and transposed), densities and node positions are the exact derivatives of the residual. A pressure equal to bulk modulus times dilatation gives the momentum balance of plain elasticity. The stabilized elastic energy criterion is the power of the total stress with the criterion's penalty, with exact gradients, and plotted fields are the ones named.",
 INP,'all states in [-1,1], densities in [0.1,1], material values and scalings in boxes; 2-cell meshes in 2-3 dimensions (projection 1-3), one or two domains, SIMP/RAMP/no penalty; node positions within +-0.125; uniform loads; one-dimensional stabilized mechanics excluded (no shear modulus)',
 'no runnable test evaluates a stabilized residual',
 ['src/VectorFunctionVMS.hpp','src/StabilizedElastostaticResidual.hpp','src/StabilizedThermoelastostaticResidual.hpp','src/StabilizedElastostaticEnergy.hpp','src/StabilizedMechanics.hpp','src/StabilizedThermomechanics.hpp','src/Kinetics.hpp','src/TMKinetics.hpp','src/PressureGradientProjectionResidual.hpp','src/Projection.hpp','src/LinearThermoelasticMaterial.cpp'],
 [('value/gradient_u/gradient_u_T/gradient_n/gradient_n_T/gradient_z/gradient_x','src/VectorFunctionVMS.hpp'),('evaluate','src/StabilizedElastostaticResidual.hpp'),('StabilizedTMKinetics','src/TMKinetics.hpp'),('evaluate','src/PressureGradientProjectionResidual.hpp')],note=MESHN)
prop('C28','Plastic residuals, return mapping and their derivatives are the stated ones',
 "For every displacement, temperature, pressure, cell state (accumulated plastic strain, multiplier, plastic strain, backstress), density field, node position, load factor and material value: the global plasticity and thermoplasticity residuals equal the stated mixed weak form with the elastic strain (total minus plastic minus thermal) and loads times the load factor; the local J2 residual is the flow rule, hardening and yield condition in plastic cells and 'state unchanged, multiplier zero' in elastic cells; the state update is the closed-form return to the yield surface (nothing changes inside it); every domain's cells are computed with that domain's material and land in their own rows; and the matrices with respect to current and previous global and cell states, densities, node positions and the projected pressure gradient are the exact derivatives.",
 INP,'global residual: all states in [-1,1], densities in [0.1,1], material values in boxes, load factor in [0.25,2]; local residual: the same; update and derivatives: a fixed point with one node, up to four cell-state entries, one density or one node position symbolic; 2-cell meshes in 2-3 dimensions, one or two domains, each cell elastic or plastic (yield excess above 1/16)',
 'the repository has no runnable test of a plasticity residual',
 ['src/LocalVectorFunctionInc.hpp','src/GlobalVectorFunctionInc.hpp','src/J2PlasticityLocalResidual.hpp','src/J2PlasticityUtilities.hpp','src/ThermoPlasticityUtilities.hpp','src/InfinitesimalStrainPlasticityResidual.hpp','src/InfinitesimalStrainThermoPlasticityResidual.hpp','src/ComputeDeviatoricStress.hpp','src/ComputeStabilization.hpp'],
 [('value/updateLocalState/gradient_u/gradient_c/gradient_z/gradient_x','src/LocalVectorFunctionInc.hpp'),('value/gradient_u/gradient_c/gradient_z/gradient_x/gradient_n_T_assembled','src/GlobalVectorFunctionInc.hpp'),('evaluate/updateLocalState','src/J2PlasticityLocalResidual.hpp')],
 note=MESHN+' Known finding: the configuration derivative of the global residual omits boundary loads.')
prop('C29','Elastic and plastic work criteria have their value and exact derivatives',
 "For every current and previous displacement, temperature and cell state, density field, node position, multiplier and weight: the plastic (elastic) work criterion of one step equals its multiplier times the sum over all domains' cells of cell volume times the average of previous and current penalised Cauchy stress contracted with the increment of plastic (elastic) strain; a weighted sum of criteria equals the weighted sum of their values; and each of their cell-wise derivatives with respect to current and previous global and cell states, densities and every node position of the cell is exact.",
 INP,'all states in [-1,1], densities in [0.1,1], material values, multipliers and weights in boxes; plane strain, 2-cell mesh, one or two domains; derivatives: states symbolic at fixed densities, densities or one node position at fixed states',
 'the repository has no runnable test of these criteria',
 ['src/BasicLocalScalarFunction.hpp','src/WeightedLocalScalarFunction.hpp','src/PathDependentScalarFunctionFactory_def.hpp','src/PlasticWorkCriterion.hpp','src/ElasticWorkCriterion.hpp'],
 [('evaluate','src/PlasticWorkCriterion.hpp'),('evaluate','src/ElasticWorkCriterion.hpp'),('value/gradient_u/gradient_up/gradient_c/gradient_cp/gradient_z/gradient_x','src/BasicLocalScalarFunction.hpp'),('value','src/WeightedLocalScalarFunction.hpp')],
 note=MESHN+' Three-dimensional work is excluded because its stress functor carries the known finding of C08.')
prop('C30','A steady problem solves its equations and gives total criterion gradients',
 "For every density field, prescribed value, load and node position: the solution a steady problem returns meets every prescribed value exactly and balances every other equation of the assembled residual, whatever the number of Newton iterations and whatever was solved before; a criterion is evaluated at that solution, whether it is passed in or kept; and the returned control and shape gradients are the total derivatives of the criterion through the solution, nonsymmetric coupled physics and nonzero prescribed values included. Criteria that do not depend on the solution are reported as such and get their plain derivative, the self-adjoint short cut gives the same gradients where it applies, and unknown criteria are refused.",
 INP,'mechanics, thermal, thermomechanics and electromechanics on 2-cell meshes in 1D and 2D, one or two domains; symbolic prescribed values in [-2,2], densities of one to three nodes in [0.1,1] or one node position; other inputs fixed; up to 3 Newton iterations',
 'tests solve one mesh with homogeneous constraints on symmetric systems and compare the gradient along one finite-difference direction, or none at all',
 ['src/elliptic/Problem.hpp','src/elliptic/VectorFunction.hpp','src/elliptic/PhysicsScalarFunction.hpp','src/ApplyConstraints.hpp','src/EssentialBCs.hpp','src/geometric/GeometryScalarFunction.hpp'],
 [('solution/criterionValue/criterionGradient/criterionGradientX/applyStateConstraints/applyAdjointConstraints','src/elliptic/Problem.hpp')],
 note=MESHN+' The third-party linear solver is replaced by an exact one (Cramer), so convergence tolerances are outside; criterion factories are decided in C25.')
prop('C31','Transient problems march correctly and give total criterion gradients',
 "For every density field, prescribed value, load, time step size, integration parameter, initial state and node position: each step of a transient heat, thermomechanical or structural dynamics problem meets the prescribed values, balances every other equation at the new state and relates states and rates by the stated integration rule from the previous step; the first step is the stated initial state; solving again gives the same history; dynamics evaluates time-dependent loads and prescribed values at each step's time; and the returned control and shape gradients of a criterion are its total derivatives through the whole history. Initial values of unknown state variables are refused.",
 INP,'parabolic heat and thermomechanics, hyperbolic mechanics with and without Rayleigh damping on 2-cell meshes in 1D and 2D; symbolic prescribed values in [-2,2], one density in [0.1,1] or one node position, step size and integration parameters in marching scenarios; 2 to 4 steps; constant prescribed values in parabolic problems',
 'tests march one problem with a handful of steps and check gradients, if at all, along one finite-difference direction for homogeneous constraints',
 ['src/parabolic/Problem.hpp','src/parabolic/VectorFunction.hpp','src/parabolic/TrapezoidIntegrator.hpp','src/hyperbolic/HyperbolicProblem.hpp','src/hyperbolic/HyperbolicVectorFunction.hpp','src/hyperbolic/Newmark.hpp','src/ApplyConstraints.hpp','src/ComputedField.hpp'],
 [('solution/criterionGradient/criterionGradientX/applyStateConstraints/parseInitialState','src/parabolic/Problem.hpp'),('solution/criterionGradient/criterionGradientX','src/hyperbolic/HyperbolicProblem.hpp')],
 note=MESHN+' The third-party linear solver is replaced by an exact one (Cramer). Time-dependent prescribed values of parabolic problems are read once and are not claimed.')
