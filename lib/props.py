import json
I='include/gcem_incl/'
def P(id,title,st,over,q,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=[('include/gcem.hpp' if f=='gcem.hpp' else I+f) for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ['return value of the public function'],hook_needed=None))
    assert len(title)<=80,(id,len(title)); out.append(d)
out=[]
TY='float, double and long double'
P('C01','floor, ceil, trunc and round are exact for every value',
 'For every float, double and long double x, gcem::floor, ceil, trunc and round return exactly the mathematically correct integral value (round: halves away from zero), with infinities returned unchanged and NaN giving NaN; values too large to have a fraction are returned unchanged and subnormals are rounded like any other number. For every integral argument of any width the result is that integer as a double. (The sign of a zero result is not specified.)',
 ['inputs'],'all values of float, double, long double and of the ten integral types, in every language standard','The tests call each function on a few dozen literals; a wrong threshold, a wrong cast through an integer type, or a slip for one width only shows at values they do not contain.',
 ['floor.hpp','ceil.hpp','trunc.hpp','round.hpp','find_whole.hpp','find_fraction.hpp','find_exponent.hpp'],[('large-argument thresholds per type, cast through an integer, sign fix-up','floor.hpp/ceil.hpp/trunc.hpp/round.hpp *_check_internal, *_check')])
P('C02','abs, sgn, signbit, copysign, max and min are exact for every value and type',
 'For every floating or integral x whose negation is representable, abs(x) is |x| in the type of x (abs(-0.0) is +0.0), and sgn(x) is -1, 0 or +1; for every floating x and y, signbit(x) tells the sign bit (of zeros, infinities and NaNs too) and copysign(x,y) has the magnitude and type of x and the sign bit of y. max and min of two non-NaN arguments of any two arithmetic types are the larger and the smaller of the two after conversion to their common type, and have that type.',
 ['inputs'],'all values and all pairs of argument types','A handful of literals per function; no mixed widths, no signed zeros of every type, no extreme values.',
 ['abs.hpp','sgn.hpp','signbit.hpp','copysign.hpp','max.hpp','min.hpp','gcem_options.hpp','neg_zero.hpp'],[('sign tests and common-type conversion','abs.hpp, sgn.hpp, signbit.hpp, copysign.hpp, max.hpp, min.hpp')])
P('C03','gcd and lcm are exact for every pair of integers',
 'For integers a and b of any (also different) integral types whose magnitudes fit the common type, gcd(a,b) is the non-negative greatest common divisor (gcd(a,0)=|a|, gcd(0,0)=0) and, whenever it is representable in the common type, lcm(a,b) is the non-negative least common multiple (0 if an argument is 0), returned in the common type. Signs, argument order and argument width do not matter, and integral-valued floating arguments (exactly representable, below 2^63) give the same numbers.',
 ['inputs'],'all pairs of representable integers, all pairs of types','Tests use about ten small positive pairs of one type.',
 ['gcd.hpp','lcm.hpp','is_odd.hpp','abs.hpp'],[('Euclid recursion, sign removal, a*(b/gcd) order','gcd.hpp gcd_recur, lcm.hpp lcm_compute')])
P('C04','factorial and binomial_coef are exact whenever the result is representable',
 'For every integral type and every n >= 0 whose factorial fits the type, factorial(n) is exactly n! in that type; for a floating n >= 0 that is an integer it is n! within a relative error of (64+16 ln n!) eps + 1e-15 (1+ln n!). For every n >= 0 and k >= 0 of any two arithmetic types, binomial_coef(n,k) is exactly the binomial coefficient in the common type (0 when k > n), provided it and its partial sums fit the type.',
 ['inputs'],'all n, k with a representable result, all argument types (n up to 400; for binomial_coef, whose evaluation takes time proportional to its result, results up to 3e5 quick / 4e7 thorough)','Tests check a few values of one type; a wrong table entry or a wrong base case for one n or k passes them.',
 ['factorial.hpp','binomial_coef.hpp'],[('factorial table and recursion','factorial.hpp factorial_table, factorial_recur'),('Pascal recursion and its base cases','binomial_coef.hpp binomial_coef_recur')])
P('C05','pow with an integral exponent is exact for integers and accurate for reals',
 'For an integral base and an integral exponent of any types, pow(b,n) equals b^n exactly in the common type whenever that is representable (negative n and non-zero b: the integer quotient 1/b^|n|, that is 0 or +-1, also where b^|n| is not representable). For a floating base x and any integral exponent n, including the largest and smallest of its type, pow(x,n) is within a relative error of (8+2|n|) eps of x^n (results below 8 times the smallest normal number may be flushed), is exactly 1 for n = 0 and +-1 for x = +-1, overflows to the correctly signed infinity, and x of 0, infinity or NaN gives the IEEE limit.',
 ['inputs'],'all bases and exponents of every pair of base and exponent types','A few small exponents per type; not the extreme exponents, not the parity rule for negative bases, not narrow types.',
 ['pow_integral.hpp','pow.hpp','is_odd.hpp','is_even.hpp'],[('square-and-multiply recursion, type-extreme exponents, sign of the exponent','pow_integral.hpp pow_integral_compute_recur, pow_integral_check; pow.hpp pow_check dispatch')])
ACC='eps is the machine epsilon of the type; '
P('C06','exp and expm1 are accurate over the whole range',
 'For every float, double and long double x (here and below integral arguments count as double), exp(x) has a relative error of at most (24+|x|/2) eps and expm1(x) an error of at most (24+|x|/2) eps (1+|expm1 x|), or 16 eps relative for |x| < 1e-4. Results overflow to infinity only within 3% of the largest finite value or beyond and underflow towards zero (results below 8 times the smallest normal number may be flushed); exp(0)=1, exp(-inf)=0, exp(+inf)=inf, expm1(-inf)=-1 and NaN gives NaN.',
 ['inputs'],'all floating values of the three types','About a dozen arguments with a tolerance of 1e-7 or so.',
 ['exp.hpp','expm1.hpp','find_whole.hpp','find_fraction.hpp','pow_integral.hpp'],[('split into integer power of e and a continued fraction','exp.hpp exp_split, exp_cf'),('small-argument series switch','expm1.hpp')])
P('C07','log, log1p, log2 and log10 are accurate over the whole range',
 'For every normal positive float, double and long double x (integral arguments count as double), log, log2 and log10 have a relative error of at most 24 eps (also next to one, next to powers of two and of ten, and at both ends of the range); log1p has an error of at most 8 eps (1+|log1p x|), or 16 eps relative for |x| < 1e-4. log(0) = -inf, log(inf) = inf, log(1) = 0 exactly, and a negative or NaN argument gives NaN, for integral arguments too.',
 ['inputs'],'all floating values of the three types and all integers','About a dozen arguments with a loose tolerance.',
 ['log.hpp','log1p.hpp','log2.hpp','log10.hpp','log_binomial_coef.hpp','mantissa.hpp','find_exponent.hpp'],[('split into mantissa and decimal exponent, table for integral mantissa, series','log.hpp log_breakup, log_mantissa, log_cf_main, log_check; mantissa.hpp; find_exponent.hpp')])
P('C08','sqrt, inv_sqrt and hypot are accurate from the smallest to the largest number',
 'For every normal positive x of the three floating types (integral arguments count as double), sqrt(x) and inv_sqrt(x), and hypot(x,y) for all normal or zero x and y, have a relative error of at most 32 eps, with no overflow or underflow in between when the result is representable. sqrt(0)=0, inv_sqrt(0)=inf, sqrt(inf)=inf, inv_sqrt(inf)=0, hypot with an infinite and a non-NaN argument is +inf, and negative or NaN arguments of the roots give NaN.',
 ['inputs'],'all floating values and pairs of values','A dozen ordinary arguments; neither the ends of the range nor pairs of very different size.',
 ['sqrt.hpp','inv_sqrt.hpp','hypot.hpp'],[('Newton iteration, scaling, iteration limit','sqrt.hpp sqrt_recur, inv_sqrt.hpp inv_sqrt_recur, hypot.hpp hypot_compute')])
P('C09','sin, cos and tan are accurate in every quadrant',
 'For |x| <= 1/sqrt(eps) in each floating type (integral arguments count as double), sin(x) and cos(x) have an absolute error of at most (8+2|x|) eps and tan(x) of at most 2 (8+2|x|) eps (1+tan^2 x) (within |tan x| (8+2|x|) eps > 1/4 of a pole only not-NaN is required); for |x| <= 1 sin and tan are accurate to 16 eps relative. sin(0)=tan(0)=0, cos(0)=1, and infinite or NaN arguments give NaN.',
 ['inputs'],'all floating values with |x| <= 1/sqrt(eps), in particular next to every multiple of pi/4','About ten arguments per function; quadrant switches are hit at one or two points only.',
 ['sin.hpp','cos.hpp','tan.hpp'],[('half-angle forms of tan, range reduction by pi, special values next to multiples of pi/2','tan.hpp tan_begin, tan_series_exp, tan_cf; sin.hpp sin_check; cos.hpp cos_check')])
P('C10','asin, acos, atan and atan2 are accurate, in the right quadrant',
 'For every argument of the three floating types (integral arguments count as double), asin (on [-1,1]) and atan have a relative error of at most 32 eps (long double: 256 eps) and acos and atan2 an error of at most 16 eps (long double: 128 eps) times (1+|result|); results below 8 times the smallest normal number may be flushed to zero. atan2(y,x) for all normal, zero and infinite y and x lies in the quadrant of (x,y) as IEEE prescribes, including signed zeros and two infinities (the sign of a zero result is determined for two zero arguments, where it is that of y); arguments outside [-1,1] of asin and acos, and NaN, give NaN.',
 ['inputs'],'all floating values, all pairs of values for atan2','A dozen arguments; the switch points of the series, both ends of [-1,1] and most sign combinations are not covered.',
 ['asin.hpp','acos.hpp','atan.hpp','atan2.hpp','neg_zero.hpp'],[('series order ladder and continued fraction','atan.hpp atan_series_main, atan_cf_main, atan_begin'),('quadrant selection','atan2.hpp atan2_compute'),('reduction to atan','asin.hpp, acos.hpp')])
P('C11','sinh, cosh and tanh are accurate over the whole range',
 'For every x of the three floating types (integral arguments count as double) sinh(x) and cosh(x) have an error of at most (24+|x|/2) eps (1+|result|) as long as the result stays below half of the largest finite number, and beyond that are that large or the correctly signed infinity; tanh(x) has a relative error of at most 16 eps, stays within [-1,1] up to 4 eps and is +-1 for large and infinite x. NaN gives NaN, and sinh(0)=tanh(0)=0, cosh(0)=1.',
 ['inputs'],'all floating values of the three types','A few ordinary arguments.',
 ['sinh.hpp','cosh.hpp','tanh.hpp','exp.hpp'],[('exp combination, continued fraction','sinh.hpp, cosh.hpp, tanh.hpp tanh_cf, tanh_begin')])
P('C12','asinh, acosh and atanh are accurate over the whole range',
 'For every x of the three floating types (integral arguments count as double) in the domain, asinh, acosh and atanh have an error of at most 16 eps (1+|result|), including negative, tiny, near-one and near-largest arguments. acosh below 1 and atanh beyond +-1 are NaN, acosh(1)=0, atanh(+-1)=+-inf, infinities map to infinities and NaN to NaN.',
 ['inputs'],'all floating values of the three types','A few ordinary arguments.',
 ['asinh.hpp','acosh.hpp','atanh.hpp','log.hpp','sqrt.hpp'],[('logarithmic forms and domain checks','asinh.hpp, acosh.hpp, atanh.hpp')])
P('C13','erf is accurate and erf_inv inverts it',
 'erf(x) has a relative error of at most 64 eps for |x| <= 1 and |x| >= 2.11, and an error of at most (64+exp(2x^2)) eps (1+|erf x|) in between, and is +-1 at +-infinity. erf_inv(p) for |p| < 1 (p zero or at least 8 times the smallest normal number) has the sign of p and erf(erf_inv(p)) is within 16 eps relative of p for |p| < 1/2, within (16+1/(4c^2)) eps for |p| < 0.998 and within 4 eps (0.75c if c=1-|p| < 5 eps) beyond; erf_inv(+-1)=+-inf and anything outside [-1,1] or NaN gives NaN.',
 ['inputs'],'all floating values of the three types, every distance of |p| to one','About ten arguments each with a tolerance far above eps.',
 ['erf.hpp','erf_inv.hpp'],[('two continued fractions and their switch point, iteration depth','erf.hpp erf_begin, erf_cf_*'),('initial values by region and Halley iteration count','erf_inv.hpp erf_inv_initial_val, erf_inv_recur')])
P('C14','gamma, beta and log-binomial functions are accurate over their domains',
 'With g = 64 eps + 1e-15: lgamma(x) for normal x > 0 is within g (1+|result|); tgamma(x) for x > 0, and for negative x at least 2^-10 from an integer, within (64+16 ln|result|) eps + 1e-15 (1+|ln|result||) relative, plus 32(1+|x|) eps divided by the distance to the nearest integer for negative x; lbeta and beta for arguments in [1/1024,4096], log_binomial_coef(n,k) for 0 <= k <= n <= 4096 and lmgamma(a,p) for a > (p-1)/2 are within 2g times one plus the sum of the magnitudes of the log-gamma terms they are made of (beta: relative). lgamma of any x <= 0 is +inf, tgamma of 0 is +inf and of a negative integer NaN, both are +inf at +inf, lmgamma with p < 1 is NaN, NaN gives NaN.',
 ['inputs'],'all floating values of the three types, all pairs of values of the two-argument functions','A few arguments each.',
 ['lgamma.hpp','tgamma.hpp','beta.hpp','lbeta.hpp','lmgamma.hpp','log_binomial_coef.hpp'],[('Lanczos coefficients','lgamma.hpp lgamma_coef_term'),('recursion for |x| above 10 and for negative x, factorial shortcut','tgamma.hpp tgamma_check'),('sums of log-gammas','lbeta.hpp, beta.hpp, lmgamma.hpp, log_binomial_coef.hpp')])
P('C15','incomplete_gamma is the regularized lower incomplete gamma function',
 'For a in [16 times the smallest normal number, 2000] and 0 < z <= a + 12 sqrt(a) + 15, incomplete_gamma(a,z) is within t = (160+16a+4|ln a|) eps + 8e-15 of P(a,z), and in the lower tail (z < a+2 for a < 10; P <= 1/2 for larger a) even within (t + 8|ln P| eps) relative (for a >= 10 down to P = 1e-30), however the argument pair falls between the evaluation methods. A NaN argument or negative a gives NaN, z <= 0 gives 0, and an infinite z or a = 0 (z > 0) gives 1.',
 ['inputs'],'all pairs (a,z) of the three floating types in the stated domain','About a dozen pairs with a tolerance of 1e-5 or so; most regions between the thresholds on a and z are never entered.',
 ['incomplete_gamma.hpp','quadrature/gauss_legendre_50.hpp','lgamma.hpp'],[('region selection between series, two continued fractions and quadrature; integration limits as multiples of sqrt(a)','incomplete_gamma.hpp incomplete_gamma_check, incomplete_gamma_quad_lb/ub, incomplete_gamma_cf_*')])
P('C16','incomplete_gamma_inv solves P(a,x) = p',
 'For a in [0.3,2000] (float: [0.5,50]) and every p in (0,1), x = incomplete_gamma_inv(a,p) is finite and non-negative, and (float: for p <= 0.9999) P(a,x) differs from p by no more than the error allowed for incomplete_gamma at (a,x) plus the change of P over two units in the last place of x to either side; where p < 1e-25, or the quantile is below 1e-12 (a > 1) or close to underflow, only the smaller of 1e-8 and the absolute error of incomplete_gamma is allowed for, but a quantile well above underflow never comes out as zero. p = 0 gives 0, p = 1 gives +inf, p outside [0,1], negative a or a NaN argument gives NaN, and a = 0 gives 0 for 0 < p < 1.',
 ['inputs'],'all pairs (a,p) of the three floating types in the stated domain','About ten pairs with a loose tolerance; convergence of the iteration from every starting value is not tested.',
 ['incomplete_gamma_inv.hpp','incomplete_gamma.hpp'],[('starting value by region, Halley step and its limits, iteration count','incomplete_gamma_inv.hpp incomplete_gamma_inv_initial_val, _decision, _recur')])
P('C17','incomplete_beta is the regularized incomplete beta function',
 'For a and b in [0.05,500] and z in (0,1) in the three floating types, incomplete_beta(a,b,z) is within t = (64+16(a+b)) eps + 1e-15 (1+a+b) of I_z(a,b), on both sides of the point where the evaluation switches to the complement, and in the lower tail (z <= 1/2 and z (a+b+2) <= 0.9 (a+1)) even within (t + 8|ln I| eps) relative, however small I is (results below 8 times the smallest normal number, or 1e-4900, may be flushed). z <= 0 gives 0, z = 1 gives 1 and a NaN argument gives NaN.',
 ['inputs'],'all triples (a,b,z) of the three floating types in the stated domain','About ten triples with a loose tolerance.',
 ['incomplete_beta.hpp','lbeta.hpp'],[('Lentz continued fraction with iteration limit, reflection at (a+1)/(a+b+2)','incomplete_beta.hpp incomplete_beta_cf, incomplete_beta_begin')])
P('C18','incomplete_beta_inv solves I_x(a,b) = p',
 'For a and b in [0.5,500] and p in (0,1-1e-9], x = incomplete_beta_inv(a,b,p) lies in [0,1] and I_x(a,b) differs from p by no more than the error allowed for incomplete_beta at (a,b,x) (float: three times that; 1e-17 for p below that, float 1e-10) plus the change of I over two units in the last place of x to either side. p = 0 gives 0, p = 1 gives 1, and p outside [0,1], a negative parameter or a NaN argument gives NaN.',
 ['inputs'],'all triples (a,b,p) of the three floating types in the stated domain','About ten triples with a loose tolerance.',
 ['incomplete_beta_inv.hpp','incomplete_beta.hpp'],[('starting value by region, Halley step and its limits, iteration count','incomplete_beta_inv.hpp incomplete_beta_inv_initial_val, _decision, _recur')])
P('C19','NaN, infinities, poles and out-of-domain arguments give the documented values',
 'For every public function a NaN argument gives NaN (except pow(x,0)=1, and max/min), an argument outside the mathematical domain of a one-argument function gives NaN, and so do fmod(x,0), pow of a negative base and a non-integral exponent, negative a of incomplete_gamma, z > 1 of incomplete_beta, p outside [0,1] and negative parameters of the inverse incomplete functions; a pole gives the infinity of the right sign (log(0), log1p(-1), atanh(+-1), erf_inv(+-1), inv_sqrt(0), tgamma(0), lgamma(x<=0)), and infinite arguments give the limit of the function where it exists and NaN otherwise (sin, cos, tan). For every other argument in the domain the result is not NaN, and it is finite wherever the function is bounded or the true value is representable, up to the error allowed for the function (sin, cos, tan for |x| <= 1/eps, fmod for |x/y| <= 0.5/eps and |x| up to half of the largest number, beta and lbeta for arguments up to 1e6, incomplete functions in the ranges stated for their accuracy; subnormal arguments of log, sqrt, lgamma and tgamma are unspecified).',
 ['inputs'],'all floating values of the three types and all integral types, all pairs for two-argument functions','Each test file has one to four such cases, mostly for double only.',
 ['is_nan.hpp','is_inf.hpp','is_finite.hpp','gcem_options.hpp','log.hpp','sqrt.hpp','tgamma.hpp','atanh.hpp','atan2.hpp','erf_inv.hpp','pow.hpp','fmod.hpp'],[('NaN / infinity / domain guards at the entry of every function','*_check functions')])
P('C20','Compile-time evaluation works and equals run-time evaluation',
 'Every public function called with constant arguments in its domain (every argument type, from the smallest normal to the largest finite number for float and double, magnitudes between 1e-300 and 1e300 for long double, and the infinite limits) is a constant expression for g++ and clang++ under C++11 and later, within a constant-evaluation depth of 1024, and its value as a constant expression is bit for bit the value the same call returns at run time. Not included are calls whose value, or an intermediate quotient or power of their arguments, leaves the range of finite numbers or divides by zero, sin, cos and tan beyond 1/sqrt(eps), lgamma above 1e300, and, with clang, calls whose result is NaN.',
 ['programs','inputs'],'all constant argument lists; two compilers; language standards C++11 to C++20','The tests compare run-time results; only a few constants are evaluated at compile time, none of them compared with run time.',
 ['gcem.hpp','gcem_options.hpp','signbit.hpp','incomplete_gamma.hpp','quadrature/gauss_legendre_50.hpp','quadrature/gauss_legendre_30.hpp','atan.hpp','erf.hpp'],[('constexpr functions without non-constant reads, overflow or NaN arithmetic on the path to a valid answer','all headers')])
P('C21','Every language standard, compiler and optimisation level gives the same answers',
 'The library compiles without diagnostics that a conforming compiler must issue under strict C++11, C++14, C++17 and C++20 with g++ and clang++, from several translation units of one program, and after headers that define abs, min, max, round and signbit as macros. For every argument list all these builds return the same value: identical for the exact functions, the same NaN and infinity, and otherwise equal up to 64 eps (1+|value|) (tan: 64 eps (1+value^2), erf 8192 eps, exponential, gamma, beta and incomplete functions and erf_inv 10000 eps times 1+|value|; erf_inv between 0.84 and 0.998 only as far as erf is determined there). The iteration limits GCEM_*_MAX_ITER can be set before the header is read, and raising them changes no answer by more than this.',
 ['configurations','inputs'],'all argument lists; C++11/14/17/20 x g++/clang++ x optimisation levels, macro-polluted includes, raised iteration limits','The suite is built with one compiler and one standard; the recursive (C++11) and the loop (C++14) versions of an algorithm are never compared.',
 ['gcem.hpp','gcem_options.hpp','atan.hpp','erf.hpp','exp.hpp','log.hpp','tan.hpp','tanh.hpp','is_odd.hpp'],[('two implementations selected by language standard','#if __cplusplus >= 201402L blocks'),('macro protection','gcem.hpp')])
P('C22','Result types follow the promotion rules and mixed arguments behave as converted',
 'Real functions return their argument type for float, double and long double and double for every integral type; two- and three-argument real functions return the common type of their arguments, or double if that is integral; abs, factorial, gcd, lcm, binomial_coef, max, min and pow of integers keep the (common) integral type and sgn returns int; no public function may throw (all are noexcept). A call with integral, mixed or const/reference arguments returns exactly what the same call returns when all arguments are first converted to the result type (gcd and lcm: for non-negative arguments), and the width of an integral exponent does not change the value of pow.',
 ['inputs','programs'],'all argument types and pairs of types, over an alphabet of values for each','Tests check values, almost never types, and mix types in two or three places.',
 ['gcem_options.hpp','pow.hpp','atan2.hpp','hypot.hpp','beta.hpp','lbeta.hpp','incomplete_gamma.hpp','incomplete_beta.hpp','incomplete_beta_inv.hpp','log_binomial_coef.hpp','fmod.hpp'],[('return_t, common_return_t, common_t and the conversions at each entry point','gcem_options.hpp; *_type_check functions')])
P('C23','Symmetries and result ranges hold everywhere',
 'For every argument: sin, tan, asin, atan, sinh, tanh, asinh, erf, erf_inv are odd and cos, cosh even (to 4 eps relative; atanh odd to 16 eps (1+|value|)), round and trunc odd, abs even and floor(-x) = -ceil(x) exactly; hypot, max, min, gcd, beta and lbeta do not depend on the order of their arguments and atan2 and fmod are odd in their first (up to rounding). sin, cos, tanh and erf stay in [-1,1], asin and atan in [-pi/2,pi/2], acos in [0,pi], atan2 in [-pi,pi] up to 4 eps; exp, sqrt, inv_sqrt and acosh are never negative, cosh never below 1, expm1 never below -1, and incomplete_gamma and incomplete_beta stay in [0,1] and incomplete_beta(a,b,z) + incomplete_beta(b,a,1-z) = 1, up to the errors allowed for them.',
 ['inputs'],'all floating values (|x| < 1/eps for sin, cos and tan), all pairs and triples for the functions of several arguments','No test relates two calls to each other.',
 ['sin.hpp','cos.hpp','tan.hpp','asin.hpp','acos.hpp','atan.hpp','atan2.hpp','sinh.hpp','cosh.hpp','tanh.hpp','erf.hpp','erf_inv.hpp','hypot.hpp','fmod.hpp','floor.hpp','ceil.hpp','incomplete_beta.hpp'],[('sign handling at the entry of each function','*_check functions')])
P('C24','pow with a real exponent and fmod are accurate over their domains',
 'For normal or zero x >= 0 and finite y of one floating type, pow(x,y) has a relative error of at most (48+8|y ln x|) eps (results below 8 times the smallest normal number may be flushed; above half of the largest finite number it may be infinite), and pow(x,0)=1. fmod(x,y) is NaN for y = 0, infinite x or a NaN argument, x itself for infinite y, exact for integers below 1/eps, and otherwise, for |x| up to half of the largest number and |x/y| up to 0.5/eps, differs from the exact remainder by at most 2 eps |x| modulo y, with the sign of x and magnitude not above |y|.',
 ['inputs'],'all pairs of floating values in the stated domain, three types','A few pairs each.',
 ['pow.hpp','fmod.hpp','exp.hpp','log.hpp','trunc.hpp'],[('exp(y log x) with special cases','pow.hpp pow_dbl, pow_check'),('x - trunc(x/y) y','fmod.hpp')])
P('C25','Every call returns, without undefined behaviour',
 'For every argument list of every public function (integral functions: arguments whose result is representable, as stated for them) the call returns after a bounded amount of work: no endless iteration, no unbounded recursion or stack exhaustion. No call executes undefined behaviour: no floating value converted to an integer type that cannot hold it, no signed overflow, no shift or array index out of range, no integer division by zero.',
 ['inputs'],'all floating values of the three types and extreme integers, all pairs and triples over an alphabet of special and ordinary values','The tests run without sanitizers on ordinary values.',
 ['find_whole.hpp','find_exponent.hpp','floor.hpp','round.hpp','exp.hpp','pow_integral.hpp','tgamma.hpp','factorial.hpp','gcd.hpp','incomplete_gamma.hpp','incomplete_beta.hpp','sqrt.hpp'],[('guards before casts to integers, iteration limits, terminating recursions','find_whole.hpp, GCEM_*_MAX_ITER, *_recur functions')])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w').write('\n'.join(json.dumps(d) for d in out)+'\n')
json.dump({d['id']:d['title'] for d in out},open('/dev/null','w'))
