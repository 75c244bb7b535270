"""Generate the compile-time = run-time conformance program (check C20).

Every entry is one call with literal arguments.  The call is evaluated twice: by the compiler's
constant evaluator (a constexpr variable, one per line, so a diagnostic names its entry) and by
the machine (the same call on volatile arguments).  The program compares the two bit for bit.
"""
import math, struct, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

T = {'f': ('float', 'f'), 'd': ('double', ''), 'l': ('long double', 'L')}


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def lit(x, t):
    if x != x:
        return 'std::numeric_limits<%s>::quiet_NaN()' % T[t][0]
    if math.isinf(x):
        return ('-' if x < 0 else '') + 'std::numeric_limits<%s>::infinity()' % T[t][0]
    if t == 'f':
        try:
            x = f32(x)
        except OverflowError:
            return None
    s = repr(float(x))
    if 'e' not in s and '.' not in s:
        s += '.0'
    return s + T[t][1]


INF, NAN = float('inf'), float('nan')


def nb(x):
    return [x, math.nextafter(x, INF), math.nextafter(x, -INF)]


def build(landmarks, thorough):
    E = []   # (id text, expression with {c} / {r} forms)

    def add(fn, args, ts, nan=False):
        """args: list of python numbers, ts: string of type letters or C++ integral type names"""
        cs, rs = [], []
        for a, t in zip(args, ts):
            if t in T:
                l = lit(a, t)
                if l is None:
                    return
                cs.append(l)
                rs.append('rt<%s>(%s)' % (T[t][0], l))
            else:
                suf = {'long long': 'LL', 'unsigned long long': 'ULL', 'unsigned': 'U', 'long': 'L', 'unsigned long': 'UL'}.get(t, '')
                l = '%d%s' % (a, suf) if suf or t == 'int' else '(%s)%d' % (t, a)
                cs.append(l)
                rs.append('rt<%s>(%s)' % (t, l))
        E.append(('gcem::%s(%s)' % (fn, ', '.join(cs)), 'gcem::%s(%s)' % (fn, ', '.join(rs)), nan))

    lm = sorted(set(float(x) for x in landmarks))
    base = [0.0, 1.0, 0.5, 2.0, 0.1, 0.25, 0.75, 0.9, 1.1, 1.5, 2.5, 3.0, 3.7, 5.0, 7.25, 10.0, 12.5, 20.0, 33.3, 50.0, 77.7, 99.5, 0.01, 0.001, 1e-5, 1e-8, 0.3, 0.6, 1.9, 2.1, 2.4]
    steps = [k / 16.0 for k in range(0, 161 if thorough else 65)]
    big = [100.0, 150.5, 255.0, 1000.0, 12345.678, 1e5, 1e6, 1e9]
    huge = [1e15, 1e20, 1e30]
    tiny = [1e-10, 1e-15, 1e-20, 1e-30]

    def sel(xs, lo, hi, signs=True):
        v = []
        for x in xs:
            for y in ([x, -x] if signs and x != 0 else [x]):
                if lo <= y <= hi and y not in v:
                    v.append(y)
        return v
    pool = base + steps + big + huge + tiny + [y for x in lm for y in nb(x)]
    thin = base + steps + big + huge + tiny + lm
    # (domain in which the answer is an ordinary number; limits listed separately)
    one = {
        'abs': (-1e30, 1e30), 'floor': (-1e30, 1e30), 'ceil': (-1e30, 1e30), 'trunc': (-1e30, 1e30), 'round': (-1e30, 1e30),
        'sgn': (-1e30, 1e30), 'acos': (-1, 1), 'asin': (-1, 1), 'atan': (-1e30, 1e30), 'acosh': (1, 1e15), 'asinh': (-1e15, 1e15), 'atanh': (-0.999999, 0.999999),
        'cos': (-1000, 1000), 'sin': (-1000, 1000), 'tan': (-1000, 1000), 'cosh': (-80, 80), 'sinh': (-80, 80), 'tanh': (-1e30, 1e30),
        'erf': (-1e30, 1e30), 'erf_inv': (-0.999999, 0.999999), 'exp': (-85, 85), 'expm1': (-85, 85), 'log': (1e-30, 1e30), 'log2': (1e-30, 1e30), 'log10': (1e-30, 1e30), 'log1p': (-0.999999, 1e30),
        'sqrt': (0, 1e30), 'inv_sqrt': (1e-30, 1e30), 'lgamma': (1e-5, 1e6), 'tgamma': (1e-5, 33), 'factorial': (0, 30), 'signbit': (-1e30, 1e30)}
    for fn, (lo, hi) in sorted(one.items()):
        for t in 'fdl':
            for x in sel(pool if t == 'd' or thorough else thin, lo, hi):
                if t == 'f' and not (lo <= f32(x) <= hi):
                    continue
                add(fn, [x], t)
    # limits that are defined for constant expressions
    lim = {'abs': [INF, -INF, NAN], 'floor': [INF, -INF, NAN], 'ceil': [INF, -INF, NAN], 'trunc': [INF, -INF, NAN], 'round': [INF, -INF, NAN], 'acos': [NAN, 1.5, -2.0, INF], 'asin': [NAN, 1.5], 'atan': [INF, -INF, NAN], 'acosh': [NAN, 0.5, -1.0, INF], 'asinh': [NAN, INF, -INF],
           'atanh': [NAN, 1.0, -1.0, 2.0, -2.0], 'cos': [NAN], 'sin': [NAN], 'tan': [NAN], 'cosh': [NAN, INF, -INF], 'sinh': [NAN, INF], 'tanh': [NAN, INF, -INF], 'erf': [NAN, INF, -INF], 'erf_inv': [NAN, 1.0, -1.0, 1.5, -1.5],
           'exp': [NAN, INF, -INF, 800.0, -800.0], 'expm1': [NAN, INF, -INF], 'log': [NAN, 0.0, -1.0, INF, -INF], 'log2': [NAN, 0.0, -1.0, INF], 'log10': [NAN, 0.0, -1.0, INF], 'log1p': [NAN, -1.0, -2.0, INF], 'sqrt': [NAN, INF, -1.0, -INF], 'inv_sqrt': [NAN, INF, -1.0, 0.0],
           'lgamma': [NAN, 0.0, INF, -1.5], 'tgamma': [NAN, 0.0, INF, -1.0, -2.0, -0.5, -1.5, -2.25], 'signbit': [INF, -INF]}
    for fn, v in sorted(lim.items()):
        for t in 'fdl':
            for x in v:
                if t == 'l' and abs(x) == 800.0:
                    continue
                add(fn, [x], t, x != x or (x < 0 and fn in ('log', 'log2', 'log10', 'log1p', 'sqrt', 'inv_sqrt', 'acosh')) or (abs(x) > 1 and fn in ('acos', 'asin', 'atanh', 'erf_inv')) or (fn == 'tgamma' and x in (-1.0, -2.0)))
    # integral arguments
    for fn, dom in [('exp', range(-20, 60)), ('log', range(1, 60)), ('sqrt', range(0, 200)), ('sin', range(-20, 20)), ('floor', range(-5, 6)), ('lgamma', range(1, 30)), ('tgamma', range(1, 20)), ('abs', range(-10, 11)), ('sgn', range(-3, 4)), ('cosh', range(-9, 10)), ('tanh', range(-9, 10)), ('erf', range(-4, 5)), ('log2', range(1, 66)), ('log10', range(1, 50)), ('inv_sqrt', range(1, 50)), ('atan', range(-9, 10)), ('asinh', range(-9, 10)), ('log1p', range(0, 30)), ('expm1', range(-9, 20))]:
        for n in dom:
            add(fn, [n], ['int'])
            if n >= 0:
                add(fn, [n], ['unsigned long long'])
    for n in range(0, 21):
        add('factorial', [n], ['long long'])
        if n < 13:
            add('factorial', [n], ['int'])
    # two arguments
    q = [0.1, 0.5, 0.75, 1.0, 1.5, 2.0, 3.3, 7.0, 10.0, 25.5]
    sq = [s * x for x in [0.1, 0.5, 1.0, 2.0, 3.3, 10.0, 1e6] for s in (1, -1)] + [0.0]
    for t in 'fdl':
        for x in sq:
            for y in sq:
                add('atan2', [x, y], t + t)
                add('hypot', [x, y], t + t)
                add('max', [x, y], t + t)
                add('min', [x, y], t + t)
                add('copysign', [x, y], t + t)
                if y != 0:
                    add('fmod', [x, y], t + t)
        for x in q:
            for y in q + [-y for y in q]:
                add('pow', [x, y], t + t)
        for x in q + [-x for x in q]:
            for n in list(range(-12, 13)):
                add('pow', [x, n], [t, 'int'])
        for x in q + [40.0, 100.0]:
            for y in q + [40.0, 100.0]:
                add('beta', [x, y], t + t)
                add('lbeta', [x, y], t + t)
                add('incomplete_gamma', [x, y], t + t)
        for n in range(0, 40, 3):
            for k in range(0, n + 1, 3):
                add('log_binomial_coef', [n, k], t + t)
        for a in q:
            for p in range(1, 6):
                if a > (p - 1) / 2.0:
                    add('lmgamma', [a, p], [t, 'int'])
        for a in [0.5, 1.0, 2.0, 7.0, 25.5]:
            for p in [0.01, 0.1, 0.3, 0.5, 0.8, 0.95]:
                add('incomplete_gamma_inv', [a, p], t + t)
        bb = [0.5, 0.9, 1.0, 2.0, 7.0, 25.5]
        for a in bb:
            for b in bb:
                for z in [0.0, 0.05, 0.3, 0.5, 0.8, 0.97, 1.0]:
                    if not (z == 1.0):
                        add('incomplete_beta', [a, b, z], t * 3)
                for z in ([0.1, 0.5, 0.9] if not thorough else [0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98]):
                    if a >= 0.5 and b >= 0.5:
                        add('incomplete_beta_inv', [a, b, z], t * 3)
    # mixed types
    for x in [0.5, 1.0, 2.5]:
        for y in [1, 2, 7]:
            for (a, b) in [('f', 'd'), ('d', 'f'), ('f', 'l'), ('l', 'd'), ('d', 'int'), ('f', 'long long'), ('l', 'unsigned')]:
                for fn in ('atan2', 'hypot', 'beta', 'max', 'min', 'pow', 'incomplete_gamma'):
                    add(fn, [x, y], [a, b])
    ii = [0, 1, 2, 3, 4, 6, 9, 12, 35, 48, 100, 1071, 462, 46368, 75025]
    for a in ii:
        for b in ii:
            for t in ('int', 'long long', 'unsigned'):
                add('gcd', [a, b], [t, t])
                add('gcd', [-a, b], ['int', 'int'])
                if a * b < 2**31:
                    add('lcm', [a, b], [t, t])
            add('max', [a, b], ['int', 'int'])
            add('min', [a, -b], ['int', 'int'])
    for n in range(0, 13):
        for k in range(0, 13):
            add('binomial_coef', [n, k], ['int', 'int'])
            add('binomial_coef', [n, k], ['unsigned', 'unsigned'])
    for b in range(-9, 10):
        for n in range(0, 10):
            add('pow', [b, n], ['int', 'int'])
            if b >= 0:
                add('pow', [b, n], ['unsigned', 'int'])
            add('pow', [b, n * 2 if abs(b) < 8 else n], ['long long', 'long long'])

    # the ends of the ranges (what overflows, or divides by zero, on the way is not claimed)
    import itertools
    NL = 'std::numeric_limits<%s>::%s()'

    def raw(fn, cs, ts, nan=False):
        names = [T[t][0] if t in T else t for t in ts]
        E.append(('gcem::%s(%s)' % (fn, ', '.join(cs)), 'gcem::%s(%s)' % (fn, ', '.join('rt<%s>(%s)' % (n, c) for n, c in zip(names, cs))), nan))
    ext = {'f': ['1e37', '1e-37', '3e38', '1e-38', '88.0', '88.7', '89.5', '104.0', '34.5', '36.0', '1e19', '1e20', '0.99999994', '1e9', '2e9', '3e10', '20.5', '2896.0'],
           'd': ['1e300', '1e-300', '1e154', '1e155', '1e-160', '700.0', '709.0', '709.7', '710.0', '708.0', '745.0', '750.0', '800.0', '170.5', '171.6', '172.0', '0.9999999999999999', '1e18', '1e19', '2e19', '1e10', '3e9', '20.5', '1e100', '1e200', '67108863.0', '6.7e7'],
           'l': ['700.0', '5000.0', '1754.0', '1e18', '1e19', '2e19', '1e300', '1e-300', '0.99999999999999999995', '20.5', '3037000499.0']}
    trig = {'f': 2896.4, 'd': 6.72e7, 'l': 3.04e9}
    for fn in sorted(one):
        lo1, hi1 = one[fn]
        for t in 'fdl':
            xs = [c + T[t][1] for c in ext[t]] + ([NL % (T[t][0], m) for m in ('min', 'max', 'epsilon')] if t != 'l' else [])
            vs = [float(c) for c in ext[t]] + ([{'f': 1.17549435e-38, 'd': 2.2250738585072014e-308}[t], {'f': 3.4028234e38, 'd': 1.7976931348623157e308}[t], {'f': 1.1920929e-07, 'd': 2.220446049250313e-16}[t]] if t != 'l' else [])
            for c, v in zip(xs, vs):
                for sg in ('', '-'):
                    y = -v if sg else v
                    if fn in ('sin', 'cos', 'tan') and v > trig[t]:
                        continue
                    if fn in ('log', 'log2', 'log10', 'sqrt', 'inv_sqrt', 'acosh') and y < (1 if fn == 'acosh' else 0):
                        continue
                    if fn in ('acos', 'asin', 'atanh', 'erf_inv') and v > 1:
                        continue
                    if fn == 'log1p' and y < -1:
                        continue
                    if fn in ('lgamma', 'tgamma', 'factorial') and (y < 0 or v > {'f': 1e36, 'd': 1e300, 'l': 1.0}[t]):
                        continue
                    if fn == 'factorial' and v != 20.0:
                        continue
                    raw(fn, [sg + c], [t])
    for t, s, big, mx in (('f', 'f', ['1e30', '1e37', '1e-30', '1e-37'], 3e38), ('d', '', ['1e150', '1e200', '1e300', '1.7e308', '1e-150', '1e-200', '1e-300', '2.3e-308'], 1.79e308), ('l', 'L', ['1e300', '1e900', '1e-300', '1e-900'], INF)):
        al = big + ['0.0', '1.0', '-2.5']
        for x, y in itertools.product(al, al):
            fx, fy = (float(x) if t != 'l' else 1.0), (float(y) if t != 'l' else 1.0)
            if not (fx == 1.7e308 and fy == 1.7e308):
                raw('hypot', [x + s, y + s], t + t)
            if fy == 0 or abs(fx) < mx * abs(fy) if abs(fy) < 1 else True:
                raw('atan2', [x + s, y + s], t + t)
            raw('max', [x + s, y + s], t + t)
        for x, y in (('2.0', '120.5'), ('2.0', '-120.5'), ('0.5', '120.5'), ('1e10', '3.5'), ('1e-10', '3.5'), ('2.0', '500.0'), ('2.0', '-1000.5'), ('1.0000001', '1e6'), ('0.0', '2.5'), ('0.0', '0.0'), ('3.0', '0.0'), ('2.0', '1023.5')):
            if t != 'f' or abs(float(y)) <= 127:
                raw('pow', [x + s, y + s], t + t)
        for b, n in (('1.5', '100'), ('0.5', '126'), ('2.0', '-126'), ('-1.5', '99'), ('1.0', '2147483647'), ('-1.0', '(-2147483647-1)'), ('0.0', '3'), ('-0.5', '-90')):
            raw('pow', [b + s, n], [t, 'int'])
        for a in ['0.001', '0.01', '0.3', '1.0', '9.99', '10.0', '50.0', '100.0', '300.0', '500.0', '800.0', '1000.0', '2000.0']:
            for r in ('0.1', '0.5', '0.9', '1.0', '1.1', '1.2'):
                if not (t == 'l' and a == '2000.0' and r == '0.1'):
                    raw('incomplete_gamma', [a + s, '%s%s*%s%s' % (a, s, r, s)], t + t)
            raw('incomplete_gamma', [a + s, NL % (T[t][0], 'infinity')], t + t)
            raw('incomplete_gamma', [a + s, '0.0' + s], t + t)
            for p in ('0.001', '0.1', '0.5', '0.9', '0.99', '0.999'):
                if float(a) >= 0.5 and (t != 'f' or float(a) <= 50):
                    raw('incomplete_gamma_inv', [a + s, p + s], t + t)
        ab = ['0.05', '0.5', '1.0', '3.0', '20.0', '100.0', '500.0']
        for a, b in itertools.product(ab, ab):
            for p in ('0.001', '0.1', '0.5', '0.9', '0.99', '0.0', '1.0', '0.9999'):
                raw('incomplete_beta', [a + s, b + s, p + s], t * 3)
                if float(a) >= 0.5 and float(b) >= 0.5:
                    raw('incomplete_beta_inv', [a + s, b + s, p + s], t * 3)
            raw('beta', [a + s, b + s], t + t)
            raw('lbeta', [a + s, b + s], t + t)
        for n, k in (('4096.0', '2000.0'), ('4096.0', '0.0'), ('4096.0', '4096.0'), ('0.0', '0.0'), ('100.5', '3.25')):
            raw('log_binomial_coef', [n + s, k + s], t + t)
        for a, p in (('15.0', '29'), ('4000.0', '30'), ('0.3', '1')):
            raw('lmgamma', [a + s, p], [t, 'int'])
        raw('lmgamma', ['2.0' + s, '0'], [t, 'int'], True)
        for x, y in (('1e10', '3.0'), ('5.5', '1e30'), ('-7.25', '0.1'), ('1e6', '0.001'), ('1e30', '1e28'), ('3.0', '-2.0'), ('0.0', '5.0')):
            raw('fmod', [x + s, y + s], t + t)
    for c, t in (('9223372036854775807LL', 'long long'), ('-9223372036854775807LL', 'long long'), ('4294967295U', 'unsigned'), ('18446744073709551615ULL', 'unsigned long long'), ('2147483647', 'int')):
        for fn in 'abs sgn floor ceil round trunc exp log sqrt cos atan tanh erf asinh'.split():
            if not (c[0] == '-' and fn in ('log', 'sqrt')) and not (fn == 'cos' and t in ('long long', 'unsigned long long')):
                raw(fn, [c], [t])
        raw('gcd', [c, '1000003'], [t, 'int'])
    out, seen = [], set()
    for e in E:
        if e[0] not in seen:
            seen.add(e[0])
            out.append(e)
    return out


HEAD = '''#include <cstdio>
#include <cstring>
#include <limits>
#include "gcem.hpp"
template<class T> __attribute__((noinline)) T rt(T x) { volatile T v = x; return v; }
template<class T> struct Sz { enum { n = sizeof(T) == 16 ? 10 : sizeof(T) }; };
static long bad = 0;
template<class T> void text(char* b, T v, ...) { std::snprintf(b, 80, "%.21Lg (%La)", (long double)v, (long double)v); }
template<class T> void cmp(int line, const char* what, T c, T r) { if ((c != c && r != r) || std::memcmp(&c, &r, Sz<T>::n) == 0) return; bad++; char x[90], y[90]; text(x, c); text(y, r); std::printf("MISMATCH\\t%d\\t%s\\t%s\\t%s\\n", line, what, x, y); }
'''


def emit(entries, chunk=400):
    """text of one translation unit and the map line -> entry"""
    L = HEAD.rstrip('\n').split('\n')
    lines = {}
    for i, (c, r, _) in enumerate(entries):
        L.append('constexpr auto k%d = %s;' % (i, c))
        lines[len(L)] = i
    nf = 0
    for s in range(0, len(entries), chunk):
        L.append('static void run%d() {' % nf)
        for i in range(s, min(len(entries), s + chunk)):
            L.append('cmp<decltype(%s)>(%d, "%s", k%d, %s);' % (entries[i][0], i, entries[i][0].replace('"', ''), i, entries[i][1]))
            lines[len(L)] = i
        L.append('}')
        nf += 1
    L.append('int main() { ' + ' '.join('run%d();' % k for k in range(nf)) + ' return bad ? 1 : 0; }')
    return '\n'.join(L) + '\n', lines
