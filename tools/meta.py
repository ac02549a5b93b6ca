#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below, for the properties units.py has programs for."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import units

C, X, U, MO = 'cpp/include/gatl/ga/core/', 'cpp/include/gatl/ga/extra/', 'cpp/include/gatl/ga/util/', 'cpp/include/gatl/ga/model/'
T_IN = 'The existing tests evaluate each operation on a handful of fixed constants or on one full multivector per algebra'

P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [f for f, _ in files] if files and isinstance(files[0], tuple) else files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})

prop('C01', 'The geometric product is the Clifford product of the metric',
     'For any two multivectors of one algebra, gp(a, b) and the operator * return, component by component, the associative bilinear product with e_i e_j + e_j e_i = 2 (e_i . e_j), whatever form the operands are stored in (native number, compile-time constant, stored coefficient, run-time basis blade, dense or sparse, int, float or double) and in every dimension up to 63. Products of integer-valued data are exact.',
     ['inputs', 'programs', 'configurations'], 'every pair of multivectors, every pair of storage forms, every metric signature and dimension',
     T_IN + ', so a sign, a metric factor or a lost component that depends on the pair of basis blades, on the storage form or on the metric is never met.',
     [C + 'geometric_product.hpp', C + 'orthogonal_metric_mapping.hpp', C + 'expression_simplification_product_components.hpp', C + 'constexpr.hpp'],
     [('reordering sign', C + 'constexpr.hpp swaps_count'), ('metric factor', C + 'orthogonal_metric_mapping.hpp'), ('distribution over components', C + 'expression_simplification_product_components.hpp')])
prop('C02', 'Outer and regressive products are the exterior and dual exterior products',
     'op(a, b) (operator ^) is the metric-free antisymmetric product: it vanishes on blades that share a basis vector and otherwise joins them with the sign of the permutation that sorts them. rp(a, b) is the regressive product: nonzero only for blades that span the whole space together, it returns their common factor C with A = A\'^C, B = C^B\' and A\'^C^B\' the unit pseudoscalar. Both hold in every algebra and for every storage form of the operands.',
     ['inputs', 'programs', 'configurations'], 'every pair of multivectors and storage forms, every dimension',
     T_IN + '; the sign depends on the pair of blades and, for rp, on the dimension of the space.',
     [C + 'outer_product.hpp', C + 'exterior_product_mapping.hpp', C + 'regressive_product.hpp', C + 'regressive_product_mapping.hpp'],
     [('outer product sign', C + 'exterior_product_mapping.hpp'), ('regressive product grade test and sign', C + 'regressive_product_mapping.hpp')])
prop('C03', 'Contractions, inner and scalar products are the graded parts of gp',
     'For every pair of multivectors, lcont (operator <), rcont (operator >), dot (operator |), hip and sp equal the sum, over pairs of homogeneous parts of grades r and s, of the part of the geometric product of grade s-r, r-s, |r-s|, |r-s| (zero if r or s is 0) and 0, respectively. A negative target grade gives zero, and the result does not depend on how the operands are stored.',
     ['inputs', 'programs', 'configurations'], 'every pair of multivectors, storage forms and metrics',
     T_IN + '; a wrong grade test only shows on particular pairs of grades or for basis blades known only at run time.',
     [C + 'left_contraction.hpp', C + 'right_contraction.hpp', C + 'dot_product.hpp', C + 'hestenes_inner_product.hpp', C + 'scalar_product.hpp'],
     [('grade conditions of each product', C + '{left_contraction,right_contraction,dot_product,hestenes_inner_product,scalar_product}.hpp')])
prop('C04', 'Addition, subtraction and scaling are linear and lose no component',
     'a + b, a - b, -a, +a, scaling by a number and division by a scalar act component-wise on any two multivectors, so that the sum of two expressions has at every basis blade the sum of their coefficients, including basis blades only known at run time and blades that appear in both operands. The products distribute over these sums and scalars commute with them.',
     ['inputs', 'programs'], 'every pair of multivectors and storage forms, including repeated run-time basis blades and sums that cancel',
     T_IN + '; components only collide or get lost for particular combinations of compile-time and run-time basis blades.',
     [C + 'arithmetic_operators.hpp', C + 'expression_simplification_addition_components.hpp', C + 'expression_simplification_addition_values.hpp', X + 'arithmetic_operators.hpp'],
     [('merging of like components', C + 'expression_simplification_addition_components.hpp'), ('one entry per component', C + 'lazy_context.hpp evaluated_addition')])
prop('C05', 'Reversion, involution, conjugation and grade extraction act grade by grade',
     'reverse (operator ~), involute and conjugate multiply the part of grade k of any multivector by (-1)^(k(k-1)/2), (-1)^k and (-1)^(k(k+1)/2), and are their own inverses. take_grade(a, k) keeps exactly the part of grade k, for k given as a compile-time constant or at run time.',
     ['inputs', 'programs', 'configurations'], 'every multivector and storage form, every grade up to the dimension, every algebra',
     T_IN + '; the signs have period four in the grade, and basis blades known at run time take a different path.',
     [C + 'reversion.hpp', C + 'involution.hpp', C + 'conjugation.hpp', C + 'expression_graded_unary_minus.hpp', X + 'take_grade.hpp'],
     [('sign by grade', C + 'expression_graded_unary_minus.hpp'), ('grade filter', X + 'take_grade.hpp')])
prop('C06', 'Reverse norm, unit, inverse and inverse product satisfy their equations',
     'For every multivector, rnorm_sqr(a) is the scalar product of a and its reverse, and rnorm(a) its square root when it is not negative. Whenever it is not zero, inv(a) equals reverse(a)/rnorm_sqr(a), so that a versor times its inverse is 1; igp(b, a) equals b * inv(a); and unit(a) is a divided by the root of |rnorm_sqr(a)|.',
     ['inputs', 'programs', 'configurations'], 'every multivector with non-null reverse norm, every storage form, coefficient type and signature, including negative and mixed signatures',
     T_IN + ' with positive norms; negative squares, fractions and integer coefficients take other branches.',
     [X + 'reverse_norm.hpp', X + 'unit.hpp', X + 'versor_inverse.hpp', X + 'inverse_geometric_product.hpp', C + 'expression_simplification_power.hpp'],
     [('inverse as reverse over squared norm', X + 'versor_inverse.hpp'), ('symbolic powers', C + 'expression_simplification_power.hpp')])
prop('C07', 'Dual and undual are contractions with the pseudoscalar and inverse of each other',
     'dual(a) and dual(a, P) equal the left contraction of a onto the inverse of the unit pseudoscalar or of P, undual(a) and undual(a, P) the left contraction of a onto it. In every non-degenerate algebra, undual(dual(a)) = a and dual(undual(a)) = a for every multivector a and any non-null pseudoscalar P.',
     ['inputs', 'programs', 'configurations'], 'every multivector and storage form, every non-degenerate signature, scaled pseudoscalars (undual also in degenerate metrics)',
     T_IN + '; the sign of the pair depends on the dimension modulo four and on the signature.',
     [X + 'dualization.hpp', X + 'versor_inverse.hpp', U + 'pseudoscalar.hpp', C + 'left_contraction.hpp'],
     [('dual by contraction with the inverse pseudoscalar', X + 'dualization.hpp')])
prop('C08', 'Versors and rotors transform any multivector by the sandwich product',
     'apply_even_versor(v, a) = v a v^-1, apply_odd_versor(v, a) = v involute(a) v^-1 and apply_rotor(r, a) = r a reverse(r), for every multivector a and every versor of the right parity with non-null norm, whatever form the versor and the argument are stored in.',
     ['inputs', 'programs', 'configurations'], 'every versor (products of vectors, scalars, run-time vectors) and every argument shape, several signatures',
     T_IN + '; unnormalised versors, negative squares, mixed grade arguments and odd grades only differ from the tested cases in sign or scale.',
     [X + 'apply_versor.hpp', X + 'versor_inverse.hpp', C + 'involution.hpp'],
     [('sandwich products', X + 'apply_versor.hpp')])
prop('C09', 'The exponential of a blade is its power series',
     'exp(B) of any blade B equals the sum of B^k/k!, whether B squares to a negative, a positive or a zero scalar, in every metric and storage form, and the tolerance given decides when the square counts as zero.',
     ['inputs', 'configurations'], 'every blade of every grade and signature, magnitudes from far below the tolerance to large, compile-time and run-time blades',
     T_IN + '; the elliptic, hyperbolic and parabolic cases and the neighbourhood of the tolerance need different inputs and metrics.',
     [X + 'blade_exponential.hpp'], [('choice of case by the sign of the square', X + 'blade_exponential.hpp')])
prop('C10', 'Grade queries, selections and predicates agree with the components',
     'For any multivector and tolerance t, grade() reports the only grade with a coefficient above t in absolute value, or that there are several or none; largest_grade() and take_largest_grade() report and keep the largest such grade; is_zero, is_null and is_unit answer from the coefficients and the squared reverse norm within the tolerance.  (An expression holding the same run-time basis blade in two components is a recorded finding.)',
     ['inputs', 'programs'], 'every multivector and storage form, coefficients below, at and above the given and the default tolerance',
     T_IN + '; coefficients near the tolerance, mixtures of grades and basis blades known only at run time decide the answer.',
     [X + 'grade.hpp', X + 'tests.hpp', C + 'default_tolerance.hpp', X + 'take_grade.hpp'],
     [('grade with tolerance', X + 'grade.hpp'), ('predicates', X + 'tests.hpp')])
prop('C11', 'Lazy evaluation gives what eager evaluation gives',
     'A computation written with a lazy context, over any inputs and of any shape (operands used once, many times, or as temporaries), evaluates to the same value as the same computation done step by step, and to the value of the mathematical expression. Evaluating the same lazy expression again gives the same value.',
     ['programs', 'inputs'], 'every program over the library operations and every input',
     'The existing tests only use the lazy context through the library\'s own functions; which sub-expressions get merged, reordered or simplified depends on the whole program.',
     [C + 'lazy_context.hpp', C + 'expression.hpp', C + 'expression_traits.hpp'],
     [('tagging of inputs and evaluation', C + 'lazy_context.hpp'), ('expression simplification', C + 'expression_simplification_*.hpp')])
prop('C12', 'The result does not depend on what is known at compile time',
     'An operation applied to the same values gives the same result whether coefficients and basis blades are compile-time constants, stored values or run-time basis blades, in any mixture. Only the type and storage of the result may change.',
     ['programs', 'inputs'], 'every operation and every assignment of compile-time or run-time status to coefficients and basis blades of its operands',
     'The existing tests fix the status of every operand; each of them selects a different chain of simplification rules.',
     [C + 'expression.hpp', C + 'expression_simplification_product_components.hpp', C + 'lazy_context.hpp', U + 'basis_vector.hpp', U + 'basis_blade.hpp'],
     [('compile-time simplification against run-time evaluation', C + 'expression.hpp')])
prop('C13', 'Scalar functions of multivector scalars equal those of real numbers',
     'abs, sqrt, cbrt, pow, exp, log, cos, sin, tan, cosh, sinh and tanh of a scalar multivector, constant or stored, equal the real function of its value within rounding, also when they are composed with each other and with arithmetic; integer values do not truncate the result.',
     ['inputs', 'programs'], 'every scalar in the domain of the function, native, constant or stored, int, float or double, and compositions of functions',
     'The existing tests do not compose these functions; the symbolic rules for powers and absolute values only act on compositions.',
     [C + 'math.hpp', C + 'expression.hpp', C + 'expression_simplification_power.hpp'],
     [('function nodes', C + 'expression.hpp'), ('power rules', C + 'expression_simplification_power.hpp')])
prop('C14', 'Copies and conversions preserve the multivector or are refused',
     'Copying, assigning or converting one multivector expression to another storage form keeps every component; a conversion whose target cannot hold the value is rejected at compile time or, when only the run-time basis blade or coefficient tells, by an exception; the source never changes, and components at or below the tolerance in use may be dropped. A scalar converts to and from native numbers without change.',
     ['inputs', 'programs'], 'every pair of source and target storage forms and every value, including values the target cannot hold',
     T_IN + '; which component lands in which slot depends on the pair of types, and refusals depend on values.',
     [C + 'trivial_copy.hpp', C + 'clifford_expression.hpp', C + 'exceptions.hpp'],
     [('checked copy of components', C + 'trivial_copy.hpp'), ('converting constructors', C + 'clifford_expression.hpp')])
prop('C15', 'Meet, join and plunge satisfy their defining relations',
     'For any two blades of Euclidean space, the join is the smallest blade containing both and the meet the largest contained in both, they satisfy meet = (b _| join^-1) _| a, and plunge(a, b) is the blade orthogonal-through both given by the duals with respect to the join. The fast variants return the same subspaces and relation with a unit join.',
     ['inputs'], 'every pair of blades of every pair of grades: disjoint, nested, equal and partially overlapping',
     T_IN + '; the algorithm branches on the grade of the delta product and picks projections in value-dependent order.',
     [X + 'meet_and_join.hpp', X + 'fast_meet_and_join.hpp', X + 'plunge.hpp', X + 'fast_plunge.hpp'],
     [('join by delta product and projections', X + 'meet_and_join.hpp'), ('fast join', X + 'fast_meet_and_join.hpp')])
prop('C16', 'Commutator and delta products follow from the geometric product',
     'cp(a, b) = (a b - b a)/2 for every pair of multivectors, and dp(a, b) is the part of a b of the largest grade that is not zero within the tolerance, in every storage form.',
     ['inputs', 'programs', 'configurations'], 'every pair of multivectors and storage forms, results near the tolerance',
     T_IN + '; the delta product depends on the values, on cancellation and on the tolerance.',
     [X + 'commutator_product.hpp', X + 'delta_product.hpp', X + 'grade.hpp'],
     [('commutator', X + 'commutator_product.hpp'), ('delta product', X + 'delta_product.hpp')])
prop('C17', 'Euclidean, homogeneous and plane-based models encode their geometry',
     'In the Euclidean model, projection and rejection split any multivector along a blade; in the homogeneous model, point() and the flat parameter functions (direction, moment, support vector, unit support point, translation) recover the geometry a flat was built from; the plane-based algebra has the metric and basis it documents. All hold for every dimension, position, scale and storage form.',
     ['inputs', 'configurations'], 'every flat built from random points and directions in 2 to 4 dimensions, every scale, constant and stored coordinates, points built from numbers or iterators',
     'The existing tests build no flats from random geometry and check no round trip.',
     [MO + 'signed/euclidean/', MO + 'signed/homogeneous/', MO + 'signed/plane_based/'],
     [('model functions', MO + 'signed/*/')])
prop('C18', 'Conformal and Minkowski models encode points, flats, rounds and tangents',
     'point() maps coordinates to null vectors whose inner product is minus half the squared distance, and the primal and dual parameter functions (flat direction and location, round direction, location and squared size, tangent direction and location) recover the centre, radius, direction and location an element was built from. Both models agree with each other, in every dimension and at every scale.',
     ['inputs', 'configurations'], 'every flat, round and tangent built from random points and directions, real and imaginary, primal and dual, any weight',
     'The existing tests check these functions on no random geometry.',
     [MO + 'conformal/', MO + 'signed/minkowski/'],
     [('model functions', MO + '{conformal,signed/minkowski}/*.hpp')])
prop('C19', 'Construction, iteration and output present exactly the stored components',
     'vector(), scalar(), e(), pseudoscalar(), and the full multivector types place each given number on the basis blade they document; iterating over the components yields every component once with its basis blade and value; writing to a stream shows the same components, and constant values as constants.',
     ['inputs', 'programs'], 'every constructor form (numbers, constants, scalars, iterators, mixtures), every algebra and expression',
     T_IN + '; mixtures of constants and values shift the stored slots.',
     [U + 'vector.hpp', U + 'basis_vector.hpp', U + 'multivector.hpp', U + 'for_each_component.hpp', U + 'for_each_basis_vector.hpp', X + 'write.hpp', U + 'pseudoscalar.hpp', C + 'scalar.hpp'],
     [('construction', U + 'vector.hpp'), ('iteration', U + 'for_each_component.hpp'), ('output', X + 'write.hpp')])
prop('C20', 'No operation touches invalid memory, is undefined, or changes its operands',
     'Every operation of the library, on any valid operands, runs free of out-of-bounds or dangling accesses, uninitialised reads, leaks and undefined arithmetic, leaves its operands (including class-type coefficients of the caller) unchanged, and gives the same value when repeated, also when several threads compute with the same operands at once.',
     ['inputs', 'programs', 'schedules'], 'every operation on every operand shape, with the optimiser on and off, alone and from several threads',
     'The existing tests run without instrumentation, and compare values that are usually right even when read from dead or adjacent storage.',
     [C + 'lazy_context.hpp', C + 'clifford_expression.hpp', C + 'expression.hpp', C + 'scalar.hpp'],
     [('storage of results and of inputs', C + 'lazy_context.hpp'), ('sequential storage', C + 'clifford_expression.hpp')])
prop('C21', 'Expression simplification never changes the value',
     'Any composition of sums, products, powers, roots, absolute values and signs of scalars, constants and basis blades, simplified at compile time, has the value of the original expression wherever that is defined, including negative, zero and integer values.',
     ['programs', 'inputs'], 'every expression tree and every value of its inputs',
     'The existing tests simplify a fixed set of small expressions and compare types, not values.',
     [C + 'expression_simplification_power.hpp', C + 'expression_simplification_product_values.hpp', C + 'expression_simplification_addition_values.hpp', C + 'expression_relational_operators.hpp', C + 'expression_traits.hpp'],
     [('rewriting rules', C + 'expression_simplification_*.hpp'), ('assumptions on signs and parity', C + 'expression_traits.hpp')])
prop('C22', 'Non-orthogonal and user-defined metrics give the product of their metric matrix',
     'Every product, norm, inverse and dual in an algebra with a user-defined constant metric matrix, symmetric and possibly non-orthogonal or degenerate, and in any user-defined signature, is the one of that bilinear form.',
     ['configurations', 'inputs'], 'every symmetric metric matrix and signature, every pair of multivectors with compile-time basis blades',
     'The existing tests exercise one non-orthogonal metric (the conformal one).',
     [C + 'general_metric_mapping.hpp', MO + 'general/', MO + 'signed/metric_space.hpp', MO + 'conformal/metric_space.hpp'],
     [('expansion of non-orthogonal products', C + 'general_metric_mapping.hpp')])
prop('C23', 'Results do not depend on coefficient types or build configuration',
     'The same computation gives the same value, within the precision of the type, for int, long, float, double and long double coefficients and mixtures, for class-type coefficients, and whatever default types, maximum basis vector index and tolerances the library was configured with.',
     ['configurations', 'inputs'], 'every configuration macro setting, coefficient type and mixture of types',
     'The existing tests are built in one configuration, almost only with double.',
     ['cpp/include/gatl/ga/core.hpp', C + 'default_tolerance.hpp', C + 'lazy_context.hpp', C + 'constexpr.hpp'],
     [('common coefficient type of a result', C + 'lazy_context.hpp'), ('configuration macros', 'cpp/include/gatl/ga/core.hpp')])

TECH = 'runtime monitoring: sanitized programs (ASan+UBSan), every call checked online against an independent reference model'
NOTE = {
    'C20': 'ASan, UBSan, LeakSanitizer, ThreadSanitizer and valgrind memcheck watch seeded random workloads over all operations; monitors re-read every operand and repeat every call. Trusts the sanitizers and g++ 11.',
}
DEFNOTE = 'Every observed call on seeded random operands of every storage shape agrees with an independent reference model (self-checked on start); says nothing about inputs, programs or algebras outside the covered combinations listed in the evidence.'

live = [p for p in P if p['id'] in units.TABLE]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in live: f.write(json.dumps(p) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'exploration', 'level_note': NOTE.get(p['id'], DEFNOTE)} for p in live],
    'not_applicable': [],
    'notes': 'GATL is a header-only template library: a check builds its monitored programs from /repo/cpp/include at run time, so nothing needs hooks in /repo.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(live), 'properties')
