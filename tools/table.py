"""The properties: one entry each."""
ORACLE = 'runtime monitoring: reference-model oracle and operand-snapshot monitor over randomised executions of the real code'
TRUST = ('Held on the executions run, not proved. Trusts numpy polynomial arithmetic, the stated tolerances and the monitors in lib/harness.py; '
         'extensions are compiled from the current tree by the check itself. ')

PROPS = [
 dict(id='C01', title='A constructed Chebyshev function represents the data it was built from',
      statement='A function built adaptively from one or several formulas on any finite interval agrees with those formulas at every point of the interval, ends included, to rounding relative to the size of each column. A function built from values on the Chebyshev grid interpolates them, one built from Chebyshev or ultraspherical coefficients (as a table or as a flat vector, column after column or row after row) is exactly that series, and one built from constants is constant. Number of columns, domain and order of columns are those given, and no function is built longer than the largest length asked for. Random functions have the size asked for, decaying ones coefficients below scale/(k+1)^2.',
      quant='every resolvable formula, value table, coefficient table, number of columns, scale and interval',
      why='The tests build a handful of exp/sin/cos functions, mostly one or two columns on [-1,1]; the adaptive sampling, chopping and column padding branch on length, column count, scale and domain.',
      files=['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/refine.py', 'funpy/cheb/detail.pyx', 'funpy/mapping.py'],
      mech=[('adaptive refinement', 'funpy/cheb/refine.py'), ('standardChop / happiness check', 'funpy/cheb/chebtech.py, detail.pyx'), ('construction dispatch', 'funpy/fun.py Fun.__new__/__init__, from_*')],
      technique=ORACLE, note=TRUST + 'Formulas from 11 families with frequency to 200, degree to 600, 1..5 columns; single polynomials and oscillations to degree 1024; largest lengths of 37..400 given by the caller.'),
 dict(id='C02', title='Evaluation of a Chebyshev function is evaluation of its series',
      statement='Evaluating a function at points of its domain (arrays of any order and layout, single numbers, integers, both end points) gives the value of its Chebyshev series for every column, whatever the number of points, columns and coefficients. Points outside the domain are refused, points of it accepted, also for narrow intervals far from the origin. Reversal, restriction to a subinterval, selecting columns (by number, range or step) and iterating over them act on the values accordingly.',
      quant='every coefficient table, domain and set of evaluation points',
      why='Tests evaluate a few short functions at linspace points; the compiled Clenshaw loops treat odd/even lengths, single columns and single points separately.',
      files=['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/detail.pyx', 'funpy/mapping.py'],
      mech=[('Clenshaw recurrences', 'funpy/cheb/detail.pyx'), ('domain map and range test', 'funpy/fun.py __call__, mapping.py'), ('flip / restrict', 'funpy/cheb/chebtech.py')],
      technique=ORACLE, note=TRUST + 'Lengths to 5000, 1..7 columns, independent Clenshaw as oracle.'),
 dict(id='C03', title='Value/coefficient transforms, prolongation and grid operators are exact',
      statement='The values-to-coefficients and coefficients-to-values transforms are inverse to each other and equal the cosine sums that define them for every size, column count and scale. Prolongation pads or truncates (by aliasing where it says so) without changing represented values. Points of the first and second kind, their quadrature weights, barycentric weights, angles and matrices, and differentiation matrices are exact on polynomials of the degree they are for, on any interval, and so are evaluation and derivatives of functions given by their values at the points.',
      quant='every grid size, number of columns, scale and polynomial',
      why='Tests use one or two sizes; sizes 1 and 2, odd/even, symmetric data and multi-column layouts take separate branches.',
      files=['funpy/cheb/chebtech.py', 'funpy/cheb/detail.pyx', 'funpy/cheb/pts.py', 'funpy/cheb/diff.py', 'funpy/fun.py', 'funpy/colloc/chebcolloc/chebcolloc2.py'],
      mech=[('polyfit/polyval', 'funpy/cheb/detail.pyx'), ('points and weights', 'funpy/cheb/pts.py'), ('prolong', 'funpy/cheb/detail.pyx')],
      technique=ORACLE, note=TRUST + 'Sizes 1..2500; oracle is the explicit cosine sum / exact integrals.'),
 dict(id='C04', title='Arithmetic on Chebyshev functions is pointwise arithmetic',
      statement='Sums, differences, products, quotients, powers, negation and elementary functions of functions, numbers and rows of numbers represent the pointwise operation on the values, to rounding relative to the sizes involved, in operator, reflected, function and in-place form, and functions can be composed with each other and with any Python function through the library\'s composition. Operands keep their values and domain. Multi-column operands combine column by column.',
      quant='every pair of functions of any lengths, columns, scales and domain, and every operation',
      why='Tests combine a few fixed functions; chopping, squaring detection, scalar and constant shortcuts and length mismatches branch on the operands.',
      files=['funpy/cheb/ufuncs.pyx', 'funpy/cheb/chebtech.py', 'funpy/fun.py', 'funpy/cheb/detail.pyx'],
      mech=[('ufunc registry', 'funpy/cheb/ufuncs.pyx'), ('__array_ufunc__ dispatch', 'funpy/fun.py, chebtech.py'), ('coefficient product and simplification', 'funpy/cheb/ufuncs.pyx')],
      technique=ORACLE, note=TRUST + 'Results compared with pointwise numpy arithmetic at random points and both ends; tolerance 2e-9 for long algebraically decaying series, where the library itself chops at eps^(2/3).'),
 dict(id='C06', title='Differentiation and integration obey calculus on every domain',
      statement='Derivatives of any order, antiderivatives and definite integrals of Chebyshev functions are those of the represented function in the variable of its own domain, column by column; the antiderivative vanishes at the left end. The fundamental theorem, linearity, product rule, integration by parts and change of variables hold between results. Operands are not changed.',
      quant='every function, number of columns, order of derivative and interval',
      why='Tests differentiate a few short functions on [-1,1] or one other interval.',
      files=['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/detail.pyx', 'funpy/mapping.py'],
      mech=[('coefficient recurrences', 'funpy/cheb/detail.pyx, chebtech.py'), ('rescaling by the derivative of the map', 'funpy/fun.py')],
      technique=ORACLE, note=TRUST + 'Orders 1..8, 1..400 coefficients; oracle is numpy Chebyshev calculus.'),
 dict(id='C07', title='Inner products, norms and functionals equal the integrals they denote',
      statement='Inner products, dot products, Chebyshev-weighted inner products and Lp, sup, Sobolev (of every order) and signed (Sturm) norms of functions equal the integrals, maxima and signs they are defined by, on any domain and for every number of columns. They are symmetric, homogeneous, satisfy the triangle and Cauchy-Schwarz inequalities, and normalising gives unit norm in the same direction. The QR factorisation of a function has orthonormal columns, an upper triangular factor and reproduces the function. Turning a function into a functional and applying it to coefficients gives the inner product.',
      quant='every pair of functions, columns, scale and interval',
      why='Tests check a few closed-form integrals.',
      files=['funpy/fun.py', 'funpy/norms.py', 'funpy/functional.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/pts.py', 'funpy/cheb/qr.py', 'funpy/qr.py'],
      mech=[('quadrature inner product', 'funpy/cheb/chebtech.py, fun.py'), ('norms', 'funpy/norms.py'), ('functional', 'funpy/functional.py')],
      technique=ORACLE, note=TRUST + 'Oracle is Gauss quadrature exact for the degree.'),
 dict(id='C08', title='Root finding and extrema are complete and correct',
      statement='The roots reported for a column are zeros of it inside its domain; every zero at which the function changes sign and that is separated from the others is reported, once, for every degree, number of zeros, domain and scale. Minima and maxima equal the extreme values of the function over its closed interval and the reported positions attain them.',
      quant='every function with separated roots, degree, number of roots, columns, scale and interval',
      why='Tests look for a handful of roots of low-degree functions; subdivision starts only for longer ones.',
      files=['funpy/cheb/detail.pyx', 'funpy/cheb/chebtech.py', 'funpy/cheb/minmax.py', 'funpy/fun.py'],
      mech=[('recursive subdivision and colleague matrix', 'funpy/cheb/detail.pyx roots'), ('extrema through roots of the derivative', 'funpy/cheb/minmax.py')],
      technique=ORACLE, note=TRUST + 'Sign changes certified by dense sampling and prescribed roots; a root exactly at the internal splitting point excluded.'),
 dict(id='C09', title='Simplification and adaptive resolution lose no accuracy and waste no length',
      statement='Simplifying a function keeps its values to its tolerance relative to its size and never leaves it substantially longer; padding with zeros is removed. The adaptive construction finds about the true degree: enough to resolve, not much more, and the same whatever unit the values are measured in. Rounding noise above a resolved function is cut where it begins. Results carry the least accurate tolerance of their operands.',
      quant='every function, amount of padding, noise level, scale and number of columns',
      why='Tests simplify one or two functions.',
      files=['funpy/cheb/chebtech.py', 'funpy/cheb/refine.py', 'funpy/cheb/detail.pyx'],
      mech=[('standardChop', 'funpy/cheb/detail.pyx or chebtech.py'), ('simplify', 'funpy/cheb/chebtech.py')],
      technique=ORACLE, note=TRUST + 'Lengths checked against true degrees with slack n/4 + 12.'),
 dict(id='C05', title='No operation changes a function that is not its target',
      statement='Functions are values. Whatever sequence of operations is carried out (evaluation, arithmetic, calculus, roots, norms, copies, column selection, in-place updates of other functions, repeated calls that hit caches), a function keeps its values, length and domain until it is itself the target of an in-place operation; arrays passed in or handed out by grids and matrices are not changed behind the caller\'s back and do not change later results; repeating a call gives the same answer.',
      quant='every history of operations on any pool of Chebyshev or trigonometric functions, including shared and reused ones',
      over=['inputs', 'histories'],
      why='Aliasing shows only after a particular later operation; unit tests look at one result at a time and never look back at the operands.',
      files=['funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/cheb/ufuncs.pyx', 'funpy/trig/trigtech.py', 'funpy/trig/ufuncs.py', 'funpy/cheb/pts.py', 'funpy/trig/trigpts.py'],
      mech=[('copy / in-place protocol', 'funpy/fun.py __array_ufunc__'), ('shared coefficient storage', 'funpy/cheb/chebtech.py, funpy/trig/trigtech.py'), ('lru caches of grids and weights', 'funpy/cheb/pts.py, funpy/trig/trigpts.py')],
      technique='runtime monitoring: shadow-state monitor over recorded operation histories (every live function re-checked after every step)',
      note=TRUST + 'Histories of 12..60 steps over pools of up to about ten functions; views by f[i] and Fun(coeffs=array) sharing are documented behaviour and excluded.'),
 dict(id='C10', title='Trigonometric functions represent their data: construct, evaluate, transform',
      statement='A periodic function built from a formula, from values on the equispaced grid or from Fourier coefficients agrees with it at every point of the period, for odd and even lengths, real, complex and mixed columns. Value/coefficient transforms are inverse to each other and equal the exponential sums. Prolongation and simplification keep the represented values, the latter to the library\'s tolerance. Converting between the periodic and the Chebyshev representation keeps the function, column by column.',
      quant='every periodic formula, value or coefficient table, length parity, column count, domain',
      why='Tests use a few sines and cosines; parity, the Nyquist term and realness of each column take separate branches.',
      files=['funpy/trig/trigtech.py', 'funpy/trig/transform.py', 'funpy/trig/eval.py', 'funpy/trig/refine.py', 'funpy/trig/trig_simplify.py', 'funpy/trig/trigpts.py', 'funpy/fun.py'],
      mech=[('transforms and Nyquist handling', 'funpy/trig/transform.py'), ('Horner-like evaluation', 'funpy/trig/eval.py'), ('simplification', 'funpy/trig/trig_simplify.py')],
      technique=ORACLE, note=TRUST + 'Lengths 1..600; 2e-8 where the library resolves to 1e-10.'),
 dict(id='C11', title='Arithmetic on trigonometric functions is pointwise arithmetic',
      statement='Sums, differences, products, quotients, powers, real and imaginary parts, conjugates, moduli and elementary functions of trigonometric functions and numbers or rows of numbers represent the pointwise operation on the values, in operator, reflected, function and in-place form, for every parity, length, realness and column count. Ring identities hold between results.',
      quant='every pair of trigonometric functions, numbers and every operation',
      why='Tests combine a few functions of equal parity and realness.',
      files=['funpy/trig/ufuncs.py', 'funpy/trig/trigtech.py', 'funpy/trig/operations.py', 'funpy/fun.py'],
      mech=[('coefficient alignment of different lengths', 'funpy/trig/operations.py, ufuncs.py'), ('realness flags', 'funpy/trig/trigtech.py')],
      technique=ORACLE, note=TRUST + 'Lengths 1..600, 1..4 columns.'),
 dict(id='C12', title='Calculus, shifts and convolutions of trigonometric functions are termwise exact',
      statement='Derivatives, antiderivatives, definite integrals, inner products, norms, shifts, circular convolutions and adhesion products of trigonometric functions equal the termwise formulas on their own domain, column by column; the product and Leibniz rules, Parseval\'s identity and integration by parts hold between results.',
      quant='every trigonometric function, order, parity, realness, shift and domain',
      why='Tests differentiate one or two sines; wavenumber ordering, the Nyquist term and complex columns are not covered.',
      files=['funpy/trig/trigtech.py', 'funpy/trig/operations.py', 'funpy/fun.py'],
      mech=[('wavenumber multiplication', 'funpy/trig/trigtech.py'), ('convolution', 'funpy/trig/operations.py')],
      technique=ORACLE, note=TRUST + 'Orders 1..4; shifts up to 50; convolutions on symmetric domains, adhesion on any.'),
 dict(id='C13', title='Copies and saved files reproduce the object and are independent of it',
      statement='Writing a function, parameter, name space, continuation state or operator to HDF5 and reading it back gives the same object: values, number of columns, domain, kind, type and names; for an operator its equations, conditions, names, parameters and sizes, hence the same action. Copies and deep copies are equal to the original and unaffected by later changes of it, and conversely. Flattening to a coefficient vector and rebuilding, and stacking the columns obtained by iteration, is the identity. Two functions compare equal exactly when they are the same function, and unequal otherwise.',
      quant='every function, state, parameter value, name and number of columns',
      over=['inputs', 'histories'],
      why='Tests copy one function; files are not tested over sizes, kinds or nested groups.',
      files=['funpy/colloc/chebOp.py', 'funpy/fun.py', 'funpy/cheb/chebtech.py', 'funpy/trig/trigtech.py', 'funpy/vectorspaces/base_state.py', 'funpy/vectorspaces/namespace.py', 'funpy/vectorspaces/parameter.py'],
      mech=[('writeHDF5 / from_hdf5', 'funpy/fun.py, funpy/vectorspaces/*.py'), ('__copy__ / __deepcopy__', 'funpy/fun.py, chebtech.py, trigtech.py, base_state.py'), ('flatten / from_coeffs', 'funpy/fun.py, base_state.py')],
      technique=ORACLE, note=TRUST + 'Files are written to memory buffers.'),
 dict(id='C14', title='States form an inner product space',
      statement='Addition, subtraction and scaling of states act component by component on functions and parameters, in plain and in-place form; the inner product is bilinear, symmetric, positive, respects the weight between functions and parameters, and the norm is the one it induces (norms of other orders take absolute values). Flattening, rebuilding from a vector, iteration, prolongation and copies keep every component, a parameter that becomes a coordinate is listed once with its new value, pseudo-arclength pairs compose accordingly, and the coordinates a state offers for a bifurcation diagram are its parameter and the named norm of its functions.',
      quant='every kind of state, number and size of functions, parameters, weights and domain',
      why='Tests build a few states with one function and one parameter.',
      files=['funpy/vectorspaces/base_state.py', 'funpy/vectorspaces/cont_state.py', 'funpy/vectorspaces/deflation_state.py', 'funpy/vectorspaces/mp_state.py', 'funpy/vectorspaces/tp_state.py', 'funpy/vectorspaces/tp_cont_state.py', 'funpy/vectorspaces/namespace.py'],
      mech=[('componentwise ufuncs', 'funpy/vectorspaces/base_state.py __array_ufunc__'), ('weighted inner product', 'funpy/vectorspaces/cont_state.py'), ('flat form', 'funpy/vectorspaces/base_state.py')],
      technique=ORACLE, note=TRUST + 'States of five kinds, 1..4 functions, Chebyshev and periodic.'),
 dict(id='C15', title='Ultraspherical matrices act as the operators they stand for',
      statement='Differentiation, basis conversion, multiplication, integration and evaluation matrices of the ultraspherical discretization, applied to coefficients, give the coefficients in the target Gegenbauer basis of the derivative, of the same function, of the product, the integral and the value; conversions between any two bases are inverse to each other; the assembled matrix of a linear operator acts as that operator. The arrays passed in are left alone.',
      quant='every size, basis, order, multiplier and domain',
      why='Tests compare a few small matrices with stored ones.',
      files=['funpy/colloc/ultraS/matrices.py', 'funpy/colloc/ultraS/ultraS.py', 'funpy/colloc/coeffsDiscretization.py', 'funpy/colloc/OpDiscretization.py', 'funpy/ultra.py'],
      mech=[('convertmat / diffmat / multmat', 'funpy/colloc/ultraS/matrices.py'), ('assembly', 'funpy/colloc/ultraS/ultraS.py')],
      technique=ORACLE, note=TRUST + 'Sizes to 260, bases and orders 0..4; oracle is the Gegenbauer three-term recurrence.'),
 dict(id='C16', title='Solvers, determinants and null vectors are those of the given matrix',
      statement='Every direct, bordered, rank-deficient, minimum-norm and iterative solver returns a vector that solves the (adjoint, least squares or minimum norm) problem posed by the matrix it was given, to accuracy relative to its conditioning; determinants have the right sign and size; null vectors are annihilated and normalised; the matrix and right hand side are not modified.',
      quant='every matrix of the class a solver is for, any size, scale, sparsity pattern, rank deficiency and right hand side',
      why='There are few tests of the linear algebra; pivoting, rank decisions and signs depend on the matrix.',
      files=['funpy/linalg/bem_solve.py', 'funpy/linalg/bemw_solve.py', 'funpy/linalg/exact_linear_solver.py', 'funpy/linalg/gbit.py', 'funpy/linalg/lu_solve.py', 'funpy/linalg/lucp.py', 'funpy/linalg/nullspace.py', 'funpy/linalg/qr_solve.py', 'funpy/linalg/qr_chol.py', 'funpy/linalg/schur_solve.py', 'funpy/linalg/qr.py', 'funpy/newton/giant.py'],
      mech=[('factorizations and pivoting', 'funpy/linalg/*.py'), ('good Broyden iteration', 'funpy/linalg/gbit.py'), ('determinants and signs', 'funpy/linalg/helpers.py, lu_solve.py, qr.py')],
      technique=ORACLE, note=TRUST + 'Dimension 1..60, condition to 1e6; the code paths listed as unusable in DESIGN.md are not exercised.'),
 dict(id='C17', title='A boundary value problem reported as solved is solved',
      statement='When the solver reports success for a linear or nonlinear boundary value problem, the returned function satisfies the differential equation and all boundary conditions to the solver\'s tolerance, hence is the solution where that is unique, on the domain and with the parameters given, whatever the starting guess, initial discretization and choice of Newton method, also for equations with integrals of the unknown, conservation laws whose solution is fixed by its mass, for systems, periodic or with boundary conditions (given as text or as functions), and when one operator is solved again at other parameter values; well-posed linear problems are reported as solved. The adaptive driver enlarges the discretization until the solution has settled, never starts a solve from the result of a failed one, survives early failures, and reports success exactly when its last solve succeeded. The residual function of an operator equals the operator applied to the state, and the starting guess is left alone.',
      quant='every well posed problem or system, coefficients, conditions, parameter values, guesses, sizes and domain',
      why='Tests solve a few fixed problems.',
      files=['funpy/colloc/chebOp.py', 'funpy/colloc/chebOpConstraint.py', 'funpy/colloc/source/BoundaryConditionSource.py', 'funpy/colloc/LinSys.py', 'funpy/colloc/LinSysBase.py', 'funpy/colloc/source/DiffOperatorSource.py', 'funpy/colloc/source/compiler.py', 'funpy/colloc/linOp.py', 'funpy/newton/NewtonSystem.py', 'funpy/newton/newton_base.py', 'funpy/newton/newton_standard.py', 'funpy/newton/nleq_err.py', 'funpy/newton/qnerr.py', 'funpy/newton/giant.py', 'funpy/colloc/adapt.py', 'funpy/colloc/ultraS/ultraS.py', 'funpy/colloc/trigspec/trigspec.py'],
      mech=[('symbolic compilation', 'funpy/colloc/source/, chebOp.py'), ('Newton iteration and success test', 'funpy/newton/*.py'), ('boundary rows', 'funpy/colloc/chebOpConstraint.py')],
      technique=ORACLE, note=TRUST + 'Manufactured solutions, order 1..3; monotone nonlinearities so that the solution is unique; systems of 2 or 3 functions.'),
 dict(id='C18', title='Compiled code stays inside its arrays and uses only memory it wrote',
      statement='The compiled extensions never read or write outside the arrays they are given or allocate, never have undefined behaviour, and no result depends on the previous contents of freshly allocated memory, for every size (0 and 1 included), number of columns, memory layout, data type and content (infinities and NaNs included) that reaches them, directly or through the public operations.',
      quant='every array size, layout, type and content, and every sequence of public operations',
      why='Out-of-bounds reads return plausible numbers most of the time: the tests pass, and whether they do depends on the allocator.',
      files=['funpy/cheb/detail.pyx', 'funpy/cheb/ufuncs.pyx', 'funpy/cheb/chebtech.py', 'funpy/support', 'funpy/trig/trigtech.py', 'funpy/fun.py'],
      mech=[('unchecked index arithmetic', 'funpy/cheb/*.pyx (boundscheck off)'), ('np.empty work arrays', 'funpy/**/*.py, *.pyx')],
      technique='runtime monitoring and sanitizers: AddressSanitizer and UBSan builds of the extensions, a build with index checks, and poisoned-allocation differential runs over kernel and workload executions',
      note='Held on the executions run. The extensions are rebuilt three ways from the current tree; memory of numpy and scipy is observed through the shared allocator only.'),
 dict(id='C19', title='Operations on incompatible functions are refused, on equal domains accepted',
      statement='Functions on different domains, with numbers of columns that do not fit, or evaluation, restriction or column selection outside what exists are refused with an error by every operation that combines or uses them, never answered with numbers; the operands are left as they were. The same domain written as list, tuple, array or integers is the same domain. Unresolvable formulas are flagged.',
      quant='every operation, pair of domains or shapes, and out-of-range request',
      why='Tests check agreement on valid input; a dropped check yields plausible numbers.',
      files=['funpy/fun.py', 'funpy/mapping.py', 'funpy/cheb/ufuncs.pyx', 'funpy/trig/operations.py', 'funpy/vectorspaces/base_state.py'],
      mech=[('check_domains and range assertions', 'funpy/fun.py'), ('column checks', 'funpy/cheb/ufuncs.pyx, funpy/trig/ufuncs.py')],
      technique=ORACLE, note=TRUST + 'Operations known not to check (adhesion, reversed domains) are listed in DESIGN.md.'),
 dict(id='C21', title='Fourier discretization matrices act as the operators they stand for',
      statement='Differentiation, multiplication, integration and non-local aggregation matrices of the Fourier discretizations, in coefficient and grid form, give the coefficients or values of the derivative, product, integral and aggregation of the function, for odd and even sizes, Nyquist term included, on every domain; the assembled matrix of a periodic linear operator or system acts as that operator, block by block.',
      quant='every size, parity, order, multiplier, domain and periodic system',
      why='There are no tests of these matrices.',
      files=['funpy/colloc/trigspec/matrices.py', 'funpy/colloc/trigspec/trigspec.py', 'funpy/colloc/trigcolloc/matrices.py', 'funpy/colloc/ultraS/transform.py', 'funpy/colloc/OpDiscretization.py', 'funpy/newton/NewtonSystem.py'],
      mech=[('diffmat / multmat / intmat / aggmat', 'funpy/colloc/trigspec/matrices.py'), ('cotangent formulas', 'funpy/colloc/trigcolloc/matrices.py'), ('block assembly', 'funpy/colloc/trigspec/trigspec.py')],
      technique=ORACLE, note=TRUST + 'Sizes to 300, orders 0..4 (grid form 0..3), systems of 1..3 functions.'),
 dict(id='C22', title='The compiled linearisation is the derivative of the equation as written',
      statement='For an equation or system given as text, the compiled residual is the equation (with the constraints added to it) evaluated at the state and current parameter values, the coefficients of its linearisation (differential and integral terms, every pair of equation and unknown) give its directional derivative in every direction, the parameter derivative is its derivative in the parameter, the compiled second derivative and the parameter derivative of the linearisation are those of the equation, and the discretised matrix acts as the linearisation; changing parameter values changes all of these accordingly. Linearisations can be added, subtracted, negated and scaled like the operators they are, leaving the operands alone.',
      quant='every equation of the supported grammar, state, direction and parameter values',
      over=['inputs'],
      why='Tests compile a few equations; products, fluxes, integrals and couplings exercise different branches of the symbolic code.',
      files=['funpy/colloc/source/compiler.py', 'funpy/colloc/source/DiffOperatorSource.py', 'funpy/colloc/source/IntegralOperatorSource.py', 'funpy/colloc/source/NonlinearOperatorSource.py', 'funpy/colloc/source/OperatorSource.py', 'funpy/colloc/source/OperatorSourceBlock.py', 'funpy/colloc/source/support.py', 'funpy/colloc/linBlock.py', 'funpy/colloc/linOp.py', 'funpy/colloc/LinSys.py', 'funpy/colloc/rhs.py', 'funpy/colloc/pDerivative.py', 'funpy/cbcode.py'],
      mech=[('symbolic Frechet derivative and coefficient extraction', 'funpy/colloc/source/compiler.py linearize'), ('code generation', 'funpy/colloc/source/*Source.py, funpy/cbcode.py'), ('parameter name space', 'funpy/colloc/LinSysBase.py')],
      technique='runtime monitoring: complex-step reference oracle over randomised executions of the compiled equations',
      note=TRUST + 'Terms of 16 kinds plus 9 integral kinds, 1..3 functions, orders 1..4, positive parameters; integrals of derivatives are not part of the grammar.'),
 dict(id='C23', title='Sparse edits and structured matrices equal their dense counterparts',
      statement='Deleting, appending, permuting and cleaning rows and columns of compressed sparse matrices gives exactly the matrix the same edit of the dense matrix gives, in valid compressed form, for every pattern, also in sequences; Toeplitz, Hankel and basis-conversion constructors give the matrices they name; helpers for boundary rows move the right entries; wrong formats are refused.',
      quant='every sparsity pattern, shape, data type, index set and sequence of edits',
      over=['inputs', 'histories'],
      why='There are no tests of these helpers; empty rows, last rows and stored zeros take separate branches.',
      files=['funpy/colloc/sparse/csr.py', 'funpy/colloc/sparse/csc.py', 'funpy/colloc/ultraS/transform.py', 'funpy/colloc/tools.py'],
      mech=[('in-place edits of the compressed arrays', 'funpy/colloc/sparse/*.py'), ('diagonal constructions', 'funpy/colloc/ultraS/transform.py')],
      technique=ORACLE, note=TRUST + 'Square Toeplitz matrices only.'),
 dict(id='C24', title='Computed eigenvalues are those of the operator with its boundary conditions',
      statement='The eigenvalues returned for a differential operator or coupled system with boundary conditions, for the linearisation of a nonlinear operator about a given function, and for periodic operators and systems contain every low eigenvalue of the continuous problem, with its multiplicity, to the accuracy of a resolved discretization, whatever the order of the terms and conditions, interval and size.',
      quant='every well posed operator, boundary conditions, base function, interval and size',
      why='There are no tests of eigenvalues.',
      files=['funpy/colloc/eig.py', 'funpy/colloc/projection.py', 'funpy/colloc/ultraS/ultraS.py', 'funpy/colloc/OpDiscretization.py', 'funpy/colloc/chebOp.py', 'funpy/colloc/chebOpConstraint.py', 'funpy/colloc/coeffsDiscretization.py'],
      mech=[('generalised problem with change of basis', 'funpy/colloc/eig.py, projection.py'), ('boundary rows', 'funpy/colloc/coeffsDiscretization.py convertFunctional')],
      technique=ORACLE, note=TRUST + 'Oracle is an independent collocation; only eigenvalues converged there are judged.'),
 dict(id='C25', title="Newton's method with known solutions divided out finds other solutions",
      statement='The deflation factor is the product over the known solutions of shift plus an inverse power of the H1 distance to the state; the deflated residual is the factor times the residual and the deflated Jacobian its derivative in every direction, for equations and systems; linear steps with it solve it, and the preconditioner inverts the update of what it factorised. Whatever a deflated solve reports as found satisfies the equation and its conditions and is none of the known solutions. The solution seeker remembers exactly the solutions it reported, unless told not to learn. A functional made from a function is the inner product with it. States and known solutions are left alone.',
      quant='every equation or system, state, direction, set of known solutions, power and shift',
      why='There are no tests of deflation.',
      files=['funpy/newton/deflation.py', 'funpy/newton/NewtonSystem.py', 'funpy/newton/FrechetDeflated.py', 'funpy/newton/FrechetDeflatedPrecond.py', 'funpy/functional.py', 'funpy/fun.py'],
      mech=[('factor and its derivative', 'funpy/newton/deflation.py'), ('inner product with derivatives on coefficients', 'funpy/functional.py'), ('rank one update', 'funpy/newton/FrechetDeflated.py, FrechetDeflatedPrecond.py')],
      technique=ORACLE, note=TRUST + 'Chebyshev discretizations; 1..3 components, up to 4 known solutions; power 2 and shift 1 in whole systems.'),
 dict(id='C26', title='A Newton iteration reports success only at a zero and follows its own rules',
      statement='Each of the four nonlinear iterations (Newton, damped Newton, quasi-Newton, inexact Newton) reports success only at a point where the Newton step of the equations is within the tolerance; never where there is no zero, after a failed linear solve or once the step length or iteration limit is exhausted, which are reported as failures. Every step uses the residual and linearisation at the current point, damped steps are accepted only by the monotonicity test, quasi-Newton steps are those of the good Broyden update; limits on iterations, refusals of the callback and the counts of evaluations are honoured. Linear problems and starts close enough to a zero converge; recombining the equations does not change the iterates; the starting guess is left alone.',
      quant='every system of equations, starting point, tolerance, damping setting, limit, and pattern of linear solver failures and refusals',
      over=['inputs', 'fault_sequences', 'histories'],
      why='There are no tests of the iterations on their own; failures of the linear solver and refused steps never happen in the tests.',
      files=['funpy/newton/newton.py', 'funpy/newton/newton_base.py', 'funpy/newton/newton_standard.py', 'funpy/newton/nleq_err.py', 'funpy/newton/qnerr.py', 'funpy/newton/giant.py', 'funpy/linalg/gbit.py'],
      mech=[('damping with natural monotonicity test', 'funpy/newton/nleq_err.py, giant.py'), ('Broyden updates kept as steps', 'funpy/newton/qnerr.py'), ('inexact linear solves', 'funpy/linalg/gbit.py')],
      technique='runtime monitoring: recorded traces of instrumented linear systems under injected solver failures, checked against the specification of the iteration', note=TRUST + 'Real systems of 1..8 equations.'),
]

NOT_APPLICABLE = []
NOTES = 'Every check: bash run.sh <ID> [tier]; replay a violation with: /opt/venv/bin/python check.py --replay <file>.'
