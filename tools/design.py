#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl and HOW below) + the table of planted changes + tools/design_tail.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
'C01': ('SIMP, MSIMP, RAMP, Heaviside and NoPenalty, as plain numbers and as Fad types', 'closed-form interpolation law written in the harness; derivative of the value term computed by normalisation', 'all densities in [0,1], penalty powers and minimum values in boxes, Fad vectors with arbitrary derivative entries; continuation updates over several steps'),
'C02': ('Heaviside and hyperbolic tangent projections, ApplyProjection', 'closed form, end-point values 0 and 1, monotonicity, exact Fad derivative', 'all densities, slopes and thresholds in boxes'),
'C03': ('blas1 on Kokkos views, gather/scatter/copy helpers', 'index-wise definition', 'symbolic entries, vector lengths 0-6 (including empty), 2-D views and sub-vectors'),
'C04': ('CRS construction, block/non-block conversion, transpose, product, sum, Schur-type row/column operations, inverse diagonal', 'the same operation on dense arrays', 'symbolic entries and symbolic sparsity choices, up to 3x3 blocks of size up to 3; rectangular blocks'),
'C05': ('ApplyBCs, ApplyConstraints (multipoint), projection and condensation', 'every solution of the modified system satisfies the prescribed values and the untouched equations of the original one (checked by substituting symbolic solutions)', 'symbolic matrices/right-hand sides, symbolic choice of constrained unknowns, up to 4 nodes and 3 unknowns per node'),
'C06': ('blas2/blas3 worksets: multiply, update, scale, trace, inverse, identity, diagonal', 'per-cell dense definition; A*inv(A)=I', 'symbolic entries; up to 3 cells and 4x4 matrices; inverse for strictly diagonally dominant matrices (the code does not pivot)'),
'C07': ('Strain, TM/EM/stabilized kinematics, gradients, divergences, projection and interpolation kernels', 'textbook definition with Voigt map; adjointness (virtual work) for symbolic stress and displacement; untouched cells and unknowns stay', '3-cell workset, 1-3 dimensions, several dofs-per-node and offsets'),
'C08': ('Cauchy/deviatoric stress, deviatoric strain, elastic work, stabilization, moduli conversions', 'documented law; for the two recorded deviations the law or exactly the recorded expression', 'symbolic strain, bulk and shear modulus'),
'C09': ('J2PlasticityUtilities, ThermoPlasticityUtilities, local residual/update', 'flow rule, consistency, elastic trial state and local residual equal zero after the update', 'symbolic strains, history, yield stress, hardening moduli; 1-3 dimensions'),
'C10': ('von Mises, eigenvalues (Jacobi rotations), tensile energy density, cell stress kernels', 'invariants and trace/determinant identities; documented formula', 'symbolic symmetric tensors; bounded number of Jacobi sweeps'),
'C11': ('tensor p-norm variants, postEvaluate', '(sum |.|^p)^(1/p) and its chain rule', 'symbolic tensors, p in stated range'),
'C12': ('reference basis functions, degree-one rules, Cubature', 'exact integral of an arbitrary polynomial of the stated degree (all coefficients symbolic)', 'all degrees and dimensions the code accepts; rejected ones raise'),
'C13': ('Newmark, backward-Euler/parabolic integrators', 'scheme equations; derivative terms', 'symbolic states, rates, time step and integration parameters'),
'C14': ('rocket model: burn rate, pressure, geometry, solver loop', 'balance equations at every stored step', 'symbolic parameters, up to the stated number of steps'),
'C15': ('material factories and parameter parsing', 'the list entry given', 'symbolic values, symbolic choice of list shape, missing/duplicate/ill-typed entries'),
'C16': ('ExpressionEvaluator, CustomMaterial', 'a reference evaluator for the same generated expression tree', 'all expression shapes up to the stated depth, symbolic variable values'),
'C17': ('structural dynamics cell residual, Rayleigh damping, complex energies', 'real/imaginary parts of the damped oscillator', 'symbolic state, frequency, damping; 1-3 dimensions'),
'C18': ('thermal flux, heat content and material functors', 'constant, linear and quadratic law', 'symbolic coefficients and temperatures'),
'C19': ('Newton-Raphson measures, stop codes, parameter parsing', 'definition over a symbolic history of norms', 'up to 4 iterations, non-finite values, symbolic letter case of names'),
'C20': ('WorksetBase, Assembly, entry ordinals, ToMap', 'sum over the cells that contain the node, each exactly once', '2-cell meshes with symbolic entries, 1-2 domains, several physics'),
'C21': ('ComputeGradientWorkset, volumes, surface Jacobians and areas', 'determinant formulas of the simplex with symbolic corner positions', 'all non-degenerate corner positions in boxes'),
'C22': ('NaturalBCs, BodyLoads, EssentialBCs, side/node sets', 'consistent nodal load of the stated traction/flux/pressure', '2-cell meshes, symbolic values and node positions'),
'C23': ('elliptic VectorFunction with mechanics, thermal, thermomechanics, electromechanics residuals', 'weak form assembled by the harness from the same symbolic mesh; matrices against the normalised derivative of the real residual', '2-cell meshes'),
'C24': ('LinearElastic, thermoelastic, electroelastic (and custom, orthotropic, cubic) materials', 'tensor with the given entries', 'symbolic entries'),
'C25': ('elliptic and geometric scalar functions', 'stated integral; gradients against the normalised derivative of the real value', '2-cell meshes, 1-2 load steps'),
'C26': ('parabolic and hyperbolic vector and scalar functions', 'weak form with rate terms; derivatives as in C23/C25', '2-cell meshes, 2-3 time steps'),
'C27': ('VectorFunctionVMS with stabilized mechanics, thermomechanics and projection physics, stabilized energy criterion', 'mixed weak form computed from the same cell geometry; derivatives as in C23; plain elasticity (C23 oracle) for p = K div u', '2-cell meshes, one or two domains'),
'C28': ('LocalVectorFunctionInc and GlobalVectorFunctionInc with (thermo)plastic physics: value, updateLocalState, all gradient_*', 'J2 flow rule, yield condition and closed-form return mapping written from the equations; mixed weak form of C27 with elastic strain; derivatives as in C23', '2-cell meshes, one or two domains, elastic/plastic pattern per scenario; derivatives and update at a fixed point with few symbolic unknowns (nested square roots)'),
'C29': ('BasicLocalScalarFunction and WeightedLocalScalarFunction through the factory, with plastic and elastic work', 'volume * mean of previous and current stress : strain increment, from the cell geometry; derivatives as in C25', 'plane strain, 2-cell mesh'),
'C30': ('Elliptic::Problem (solution, criterionValue, criterionGradient, criterionGradientX) with real residuals, criteria, constraints', 'balance of the residual and prescribed values; total derivative of the returned criterion value by differentiating its symbolic expression, solve included', 'exact linear solver stand-in (sxsolve.hpp), 2-cell meshes, few symbolic inputs per scenario'),
'C31': ('Parabolic::Problem and HyperbolicProblem (solution, gradients), trapezoid and Newmark integrators, computed initial fields', 'per-step balance, integration rule, prescribed values; total derivative through the history', 'exact linear solver stand-in, 2-cell meshes, 2 to 4 steps'),
}
try: exec(open(os.path.join(V, 'tools', 'design_more.py')).read())
except FileNotFoundError: pass
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json')); na = {x['property']: x['reason'] for x in M['not_applicable']}
out = open(V + '/tools/design_head.md').read() + '\n## Properties\n'
for p in P:
    out += '\n### %s %s\n' % (p['id'], p['title'])
    if p['id'] in na: out += 'Not applicable: %s\n' % na[p['id']]; continue
    h = HOW[p['id']]
    out += '- Code executed symbolically: %s (%s).\n- Oracle: %s.\n- Symbolic inputs and bounds: %s. %s.\n- Beyond tests: %s.\n' % (h[0], ', '.join('`%s`' % f for f in p['anchors']['files']), h[1], h[2], p['quantifier']['text'][0].upper() + p['quantifier']['text'][1:].rstrip('.'), p['why_tests_cant'].rstrip('.'))
out += '\n## Planted changes (seeded/) and the check that catches each\nEvery one builds, passes the 101 stable tests, has a demonstration, and is caught by the named check (`tools/seedtest.sh`).\n\n| change | caught by | needs |\n|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); out += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'))
out += '\n## Defects found\n'
k = json.load(open(V + '/known_findings.json'))
out += 'Recorded (not repaired):\n' + ''.join('- %s (%s / %s): %s\n' % (f['property'], f['scenario'], f['label'], f['what']) for f in k['findings']) + '\nRepaired by `fix:` commits in /repo:\n' + ''.join('- %s\n' % f.replace('fixed: property=', '') for f in k['fixed'])
out += '\n' + open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
