#!/usr/bin/env python3
"""Run one check:  run.py Cxx [quick|thorough]      replay a violation:  run.py Cxx --replay FILE

Builds the harness of the property against the working tree of /repo, explores its bounded space
completely, replays whatever it reports, and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
"""
import concurrent.futures as cf, json, math, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import landmarks as LM
REPO = os.environ.get('GCEM_REPO', '/repo')
INC = os.path.join(REPO, 'include')
NCPU = os.cpu_count() or 8
T0 = time.time()

# ---- how each check is built.  Default: g++, gnu++11 and gnu++17, -O2
PARTS = {'C22': ['-DPART_A', '-DPART_B', '-DPART_C', '-DPART_D', ''], 'C25': ['-DPART_A', '-DPART_B', '']}
FLAGS = {'C22': ['-O1'], 'C25': ['-O1', '-fsanitize=undefined,float-cast-overflow', '-fsanitize-trap=all']}
HANG = {'C25': '10'}
NEEDS_ALL = {'C22'}       # a harness that no longer compiles under one standard is itself a violation


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, **k):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **k)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -999, '', 'timeout after %s s' % timeout


def compile_one(cmd, timeout=600):
    """(ok, log); a compiler that died (killed, out of memory) is tried a second time"""
    rc, o, e = run(cmd, timeout)
    if rc != 0:
        rc, o, e = run(cmd, timeout)
    return rc == 0, ('$ ' + ' '.join(cmd) + '\n' + e)[:20000]


def first_errors(log, n=3):
    return '; '.join([l.strip()[:220] for l in log.split('\n') if 'error:' in l][:n]) or log.strip()[-300:]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.tmp = tempfile.mkdtemp(prefix='mc_%s_' % pid)
        self.lm = os.path.join(self.tmp, 'landmarks.txt')
        self.viol = []          # (key, description, replay dict)
        self.notes = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True)
        self.extra = {}
        vals = LM.literals(INC)
        self.landmarks = vals
        open(self.lm, 'w').write('\n'.join(vals) + '\n')

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, key, what, replay):
        self.viol.append((key, what, replay))


# --------------------------------------------------------------------- engine based checks
def engine_variants(pid):
    parts = PARTS.get(pid, [''])
    v = []
    for std in ('gnu++11', 'gnu++17'):
        for p in parts:
            v.append((std, p))
    return v


def engine_cmd(pid, std, part, exe):
    fl = FLAGS.get(pid, ['-O2'])
    return ['g++', '-std=' + std] + fl + ['-w', '-fmax-errors=5', '-I' + INC, '-I' + os.path.join(HERE, 'lib')] + ([part] if part else []) + [os.path.join(HERE, 'checks', pid + '.cpp'), '-o', exe, '-lquadmath', '-lpthread']


def vname(std, part):
    return std + (' ' + part[2:] if part else '')


def engine_check(c):
    pid = c.pid
    vs = engine_variants(pid)
    exes = [os.path.join(c.tmp, 'x%d' % i) for i in range(len(vs))]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda a: compile_one(engine_cmd(pid, a[0][0], a[0][1], a[1])), zip(vs, exes)))
    bad = [(v, log) for v, (ok, log) in zip(vs, res) if not ok]
    good = [(v, e) for v, e, (ok, log) in zip(vs, exes, res) if ok]
    stds_ok = set(v[0] for v, e in good) - (set() if pid not in PARTS else set())
    for v, log in bad:
        c.notes.append('harness did not compile as %s: %s' % (vname(*v), first_errors(log)))
    if bad and (not good or pid in NEEDS_ALL or len(bad) == len(vs)):
        v, log = bad[0]
        c.add('compile', 'calls of the property do not compile as %s: %s' % (vname(*v), first_errors(log)), dict(kind='compile', std=v[0], part=v[1], log=log[:6000]))
    budget = 1500.0 / max(1, len(vs)) if c.thorough else 420.0 / max(1, len(vs))
    obs = {}
    for v, exe in good:
        out = exe + '.json'
        cmd = [exe, '--landmarks', c.lm, '--out', out, '--budget', str(budget), '--hang', HANG.get(pid, '20')] + (['--thorough'] if c.thorough else [])
        rc, o, e = run(cmd, budget + 180)
        if rc not in (0, 1) or not os.path.exists(out):
            rc, o, e = run(cmd, budget + 180)
        if rc not in (0, 1) or not os.path.exists(out):
            c.add('died', 'the exploration of %s died (exit %s) %s' % (vname(*v), rc, e[-300:]), dict(kind='died', std=v[0], part=v[1]))
            continue
        r = json.load(open(out))
        if r['capped']:
            c.cov['exhaustive'] = False
            c.notes.append('%s: time budget of %.0f s reached; not everything was explored' % (vname(*v), budget))
        for ob in r['obligations']:
            c.cov['states'] += ob['states']
            c.cov['transitions'] += ob['calls']
            c.cov['traces_validated_against_impl'] += ob['validated']
            if ob['explored'] < ob['space'] and not ob['nviol']:
                c.cov['exhaustive'] = False
            key = ob['name']
            d = obs.setdefault(key, dict(space=ob['space'], in_domain=ob['states'], worst_error_over_tolerance=ob['worst'], builds=0))
            d['builds'] += 1
            d['worst_error_over_tolerance'] = max(d['worst_error_over_tolerance'], ob['worst'])
            for s in ob.get('samples', []):
                if len(c.cov['samples']) < 24:
                    c.cov['samples'].append('[%s] %s: %s' % (vname(*v), ob['name'], s))
            # replay before report
            n = 0
            for vi in ob['viols'][:12]:
                if n >= 2 or len(c.viol) > 40:
                    break
                rcmd = [exe, '--landmarks', c.lm, '--out', out + '.r', '--replay', ob['name'], str(vi['index']), '--hang', '60' if vi['what'].startswith('hang') else '30'] + (['--thorough'] if c.thorough else [])
                rr, o, e = run(rcmd, 120)
                if rr == 1 or rr < 0:
                    c.add('%s: %s' % (ob['name'], vi['what']), '[%s] %s: %s  (%d violations in this obligation)' % (vname(*v), ob['name'], vi['what'], ob['nviol']), dict(kind='engine', std=v[0], part=v[1], obligation=ob['name'], index=vi['index'], thorough=c.thorough, landmarks=c.landmarks))
                    n += 1
                else:
                    c.notes.append('not reproduced on replay, not reported: %s #%d %s' % (ob['name'], vi['index'], vi['what']))
    c.extra['obligations'] = obs
    c.extra['builds'] = [vname(*v) for v, e in good]


# --------------------------------------------------------------------- C20: compile time = run time
def const_check(c):
    import gen_const as G
    lm = []
    for t in c.landmarks:
        try:
            lm.append(float(t))
        except ValueError:
            pass
    ent = G.build(lm, c.thorough)
    combos = [('g++', 'gnu++11'), ('g++', 'gnu++17'), ('clang++', 'gnu++11'), ('clang++', 'gnu++17')]
    if c.thorough:
        combos += [('g++', 'gnu++14'), ('g++', 'gnu++20'), ('clang++', 'gnu++14'), ('clang++', 'gnu++20')]
    NSH = 12 if c.thorough else 4
    jobs = [(cc, std, k) for k in range(NSH) for cc, std in sorted(combos, reverse=False)]
    jobs.sort(key=lambda j: j[0] != 'clang++')

    def build(sub, cc, std, stem, timeout=1500 if c.thorough else 240):
        text, m = G.emit(sub)
        src = os.path.join(c.tmp, stem + '.cpp')
        open(src, 'w').write(text)
        lim = ['-fmax-errors=200', '-fconstexpr-depth=1024'] if cc == 'g++' else ['-ferror-limit=200', '-fconstexpr-steps=100000000', '-fconstexpr-depth=1024']
        cmd = [cc, '-std=' + std, '-O0', '-w'] + lim + ['-I' + INC, src, '-o', src[:-4]]
        rc, o, e = run(cmd, timeout)
        if rc not in (0, -999) and not re.search(r'error:', e):
            rc, o, e = run(cmd, timeout)
        bad = []
        if rc != 0:
            seen = set()
            for x in re.findall(re.escape(os.path.basename(src)) + r':(\d+):', e):
                i = m.get(int(x))
                if i is not None and i not in seen:
                    seen.add(i)
                    bad.append(i)
        os.unlink(src)
        return rc, e, bad, src[:-4]

    def job(j):
        cc, std, k = j
        sub = [x for x in ent if not (cc == 'clang++' and x[2])][k::NSH]
        res = []
        rc, e, bad, exe = build(sub, cc, std, 's_%s_%s_%d' % (cc, std, k))
        done = len(sub)
        if rc != 0:
            if not bad:
                return j, 0, [('build', 'a file of constant expressions does not compile with %s -std=%s: %s' % (cc, std, first_errors(e)), dict(kind='text', text=e[:5000]))]
            for i in bad[:3]:
                res.append(('constexpr ' + sub[i][0], '%s -std=%s: %s is not a constant expression (or does not compile): %s' % (cc, std, sub[i][0], first_errors(e, 1)), dict(kind='const', cc=cc, std=std, expr=sub[i][0])))
            bs = set(bad)
            sub = [x for i, x in enumerate(sub) if i not in bs]
            rc, e, bad, exe = build(sub, cc, std, 't_%s_%s_%d' % (cc, std, k))
            if rc != 0:
                return j, 0, res
        rc, o, e = run([exe], 300)
        if rc not in (0, 1):
            res.append(('run', '%s -std=%s: evaluating the same calls at run time died (exit %s)' % (cc, std, rc), dict(kind='text', text='exit %s %s' % (rc, e[:300]))))
        for l in o.split('\n')[:3]:
            if l.startswith('MISMATCH'):
                _, i, what, x, y = l.split('\t')
                res.append(('value ' + what, '%s -std=%s: %s is %s as a constant expression, %s at run time' % (cc, std, what, x, y), dict(kind='const', cc=cc, std=std, expr=what, runtime=sub[int(i)][1])))
        os.unlink(exe)
        return j, done, res
    with cf.ThreadPoolExecutor(NCPU) as ex:
        R = list(ex.map(job, jobs))
    tot = sum(n for _, n, _ in R)
    c.cov['states'] = len(ent)
    c.cov['transitions'] = 2 * tot
    c.cov['traces_validated_against_impl'] = tot
    st = max(1, len(ent) // 16)
    c.cov['samples'] = [e[0] for e in ent[::st]][:16]
    c.extra['builds'] = ['%s %s' % x for x in combos]
    for j, n, res in R:
        for x in res:
            if len(c.viol) < 40:
                c.add(*x)


# --------------------------------------------------------------------- C21: all standards and compilers agree
EXACT = ('abs', 'floor', 'ceil', 'trunc', 'round', 'sgn', 'max', 'min', 'copysign', 'gcd', 'lcm', 'factorial(integer)', 'binomial_coef(integer)', 'pow(integer')
EPS = {'float': 2.0 ** -23, 'double': 2.0 ** -52, 'long double': 2.0 ** -63}


def close(name, a, b):
    """is the difference between two builds allowed? (values as text)"""
    from fractions import Fraction
    def val(t):
        t = t.split('(')[-1].rstrip(')') if '(' in t else t
        if 'nan' in t or 'inf' in t:
            return t.replace('+', '')
        if t.startswith(('0x', '-0x')):
            s = -1 if t[0] == '-' else 1
            h = t.lstrip('-')[2:]
            mant, _, ex = h.partition('p')
            ip, _, fp = mant.partition('.')
            return s * Fraction(int(ip + fp, 16)) * Fraction(2) ** (int(ex) - 4 * len(fp))
        return Fraction(t)
    x, y = val(a), val(b)
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x == y:
        return True
    fn, ty = name.split('<')[0], name.split('<')[1].split('>')[0]
    if fn in EXACT or any(fn.startswith(e) for e in ('pow(integer',)):
        return False
    v = abs(x)
    k = 64
    s = 1 + v
    if fn == 'tan':
        s = 1 + v * v
    if fn == 'erf':
        k = 8192
    if fn.startswith('incomplete_') or fn in ('erf_inv', 'beta', 'lbeta', 'tgamma', 'factorial', 'log_binomial_coef', 'lmgamma', 'pow', 'exp', 'expm1', 'sinh', 'cosh') or fn.startswith('pow('):
        k = 10000
    if fn == 'erf_inv' and 0.9 < v < 2.2:  # where erf itself is ill-conditioned
        k += Fraction(math.exp(3 * float(v) ** 2))
    return abs(x - y) <= k * Fraction(EPS[ty]) * s


def std_check(c):
    src = os.path.join(HERE, 'checks', 'C21.cpp')
    V = []
    for cc in ('g++', 'clang++'):
        for std in ('c++11', 'c++14', 'c++17', 'c++20'):
            V.append((cc, std, '-O2', []))
    V += [('g++', 'c++11', '-O2', ['-DMACRO_PRELUDE']), ('clang++', 'c++17', '-O2', ['-DMACRO_PRELUDE']), ('g++', 'gnu++17', '-O0', []), ('clang++', 'gnu++11', '-O0', [])]
    # the iteration limits are options: they may be set before the header is read, and more iterations change nothing
    opts = ['-D%s=%d' % (m, int(v) * 3 // 2) for m, v in sorted(set(re.findall(r'define +(GCEM_\w+_MAX_ITER\w*) +(\d+)', ''.join(open(os.path.join(d, f), errors='replace').read() for d, _, fs in os.walk(INC) for f in sorted(fs)))))]
    V += [('g++', 'c++11', '-O2', opts), ('clang++', 'c++17', '-O2', opts)]
    if c.thorough:
        V += [('g++', 'c++23', '-O2', []), ('clang++', 'c++23', '-O2', []), ('g++', 'gnu++11', '-O3', []), ('clang++', 'gnu++20', '-O3', []), ('g++', 'c++14', '-O0', []), ('clang++', 'c++14', '-O1', [])]
    exes = [os.path.join(c.tmp, 'd%d' % i) for i in range(len(V))]

    def comp(a):
        (cc, std, opt, ex), exe = a
        return compile_one([cc, '-std=' + std, opt, '-w', '-pedantic-errors'] + ex + ['-I' + INC, '-I' + os.path.join(HERE, 'lib'), src, '-o', exe, '-lpthread'])
    # two translation units of one program, warnings are not errors but the program must link
    two = os.path.join(c.tmp, 'tu')
    open(two + '1.cpp', 'w').write('#include "gcem.hpp"\n#include "gcem.hpp"\ndouble f(double x) { return gcem::incomplete_gamma(12.0, x) + gcem::exp(x) + gcem::incomplete_beta(2.0, 3.0, x) + gcem::lgamma(x) + gcem::pow(x, 3); }\n')
    open(two + '2.cpp', 'w').write('#include "gcem.hpp"\ndouble f(double);\nint main() { volatile double x = 0.5; double a = f(x), b = gcem::incomplete_gamma(12.0, +x) + gcem::exp(+x) + gcem::incomplete_beta(2.0, 3.0, +x) + gcem::lgamma(+x) + gcem::pow(+x, 3); return a == b ? 0 : 1; }\n')

    def link(a):
        cc, std = a
        exe = two + cc + std
        ok, log = compile_one([cc, '-std=' + std, '-pedantic-errors', '-I' + INC, two + '1.cpp', two + '2.cpp', '-o', exe])
        if ok:
            rc, o, e = run([exe], 20)
            return a, rc == 0, 'two translation units disagree'
        return a, False, log
    with cf.ThreadPoolExecutor(NCPU) as ex:
        R = list(ex.map(comp, zip(V, exes)))
        L = list(ex.map(link, [(cc, s) for cc in ('g++', 'clang++') for s in ('c++11', 'c++14', 'c++17', 'c++20')]))
    name = lambda v: '%s -std=%s %s%s' % (v[0], v[1], v[2], ' with all iteration limits raised' if len(v[3]) > 1 else ' '.join([''] + v[3]))
    for v, (ok, log) in zip(V, R):
        if not ok:
            c.add('compile ' + name(v), 'the library does not compile with %s: %s' % (name(v), first_errors(log)), dict(kind='text', text=log[:6000]))
    for a, ok, log in L:
        if not ok:
            c.add('link %s %s' % a, 'a program of two translation units does not build or agree with %s -std=%s: %s' % (a + (first_errors(log),)), dict(kind='text', text=log[:6000]))
    tier = 'thorough' if c.thorough else 'quick'
    D = []
    for v, exe, (ok, log) in zip(V, exes, R):
        if not ok:
            continue
        lim = 900 if c.thorough else 120
        rc, o, e = run([exe, c.lm, exe + '.out', tier], lim)
        if rc not in (0, -999):
            rc, o, e = run([exe, c.lm, exe + '.out', tier], lim)
        if rc == -999:
            c.add('hang ' + name(v), 'the program built with %s gave no answer within %d s' % (name(v), lim), dict(kind='text', text='timeout'))
            break
        if rc != 0:
            c.add('died ' + name(v), 'the program built with %s died (exit %s) on calls the other builds answer' % (name(v), rc), dict(kind='text', text='exit %s' % rc))
            continue
        D.append((v, exe, [l.split(' ', 4) for l in open(exe + '.out').read().split('\n') if l]))
    if len(D) >= 2:
        # the most common digest of each block is the reference; builds with another digest are compared value by value
        blocks = len(D[0][2])
        ncalls = sum(min(256, int(b[2]) - int(b[1])) for b in D[0][2])
        diff = 0
        judged = 0
        cache = {}

        def values(exe, ob, lo):
            k = (exe, ob, lo)
            if k not in cache:
                rc, o, e = run([exe, c.lm, '-', tier, ob, lo, str(int(lo) + 256)], 120)
                cache[k] = [l.split('\t', 1) for l in o.split('\n') if '\t' in l]
            return cache[k]
        todo = []
        per = {}
        for b in range(blocks):
            ds = {}
            for v, exe, rows in D:
                ds.setdefault(rows[b][3], []).append((v, exe))
            if len(ds) > 1:
                diff += 1
                ob, lo, n, _, nm = D[0][2][b]
                per[nm] = per.get(nm, 0) + 1
                ref = max(ds, key=lambda k: len(ds[k]))
                for d in ds:
                    if d != ref:
                        todo.append((nm, ob, lo, ds[ref][0], ds[d][0]))
        CAP = 4000
        if len(todo) > CAP:
            c.notes.append('%d differing blocks; the first %d per obligation were judged value by value' % (len(todo), CAP // 40))
            keep, cnt = [], {}
            for t in todo:
                cnt[t[0]] = cnt.get(t[0], 0) + 1
                if cnt[t[0]] <= CAP // 40:
                    keep.append(t)
            todo = keep
            c.cov['exhaustive'] = False
        with cf.ThreadPoolExecutor(NCPU) as ex:
            pairs = list(ex.map(lambda t: (t, values(t[3][1], t[1], t[2]), values(t[4][1], t[1], t[2])), todo))
        nv = {}
        for (nm, ob, lo, A, B), a, b in pairs:
            for x, y in zip(a, b):
                judged += 1
                if x[1] == y[1]:
                    continue
                call, _, va = x[1].rpartition(' = ')
                _, _, vb = y[1].rpartition(' = ')
                if not close(nm, va, vb):
                    nv[nm] = nv.get(nm, 0) + 1
                    if nv[nm] <= 2 and len(c.viol) < 40:
                        c.add('%s %s' % (nm, call), '%s: gcem::%s = %s with %s but %s with %s' % (nm, call, va, name(A[0]), vb, name(B[0])), dict(kind='text', text='%s\n%s\n' % (x[1], y[1])))
        c.cov['states'] = ncalls
        c.cov['transitions'] = ncalls * len(D)
        c.cov['traces_validated_against_impl'] = ncalls * (len(D) - 1)
        c.extra['blocks'] = blocks
        c.extra['blocks_not_bit_identical'] = per
        c.extra['values_judged_one_by_one'] = judged
        st = max(1, blocks // 12)
        for b in D[0][2][::st][:12]:
            vs = values(D[0][1], b[0], b[1])
            if vs:
                c.cov['samples'].append('%s: %s (same in %d builds)' % (b[4], vs[min(7, len(vs) - 1)][1], len(D)))
    c.extra['builds'] = [name(v) for v, _, _ in D]


# --------------------------------------------------------------------- known findings, evidence, report
def known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match="([^"]+)" (.*)', l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def setup():
    """nothing is kept between runs: only make sure that the tools the checks use are there"""
    t = tempfile.mkdtemp(prefix='mc_setup_')
    try:
        src = os.path.join(t, 's.cpp')
        open(src, 'w').write('#include <quadmath.h>\n#include <boost/math/special_functions/gamma.hpp>\nint main() { return 0; }\n')
        for cmd in (['g++', '-std=gnu++17', src, '-o', src + '.x', '-lquadmath'], ['clang++', '--version']):
            ok, log = compile_one(cmd)
            if not ok:
                say(log)
                return 1
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return 0


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        return setup()
    stale = os.path.join(HERE, 'evidence', pid + '.replay.json')
    if len(sys.argv) <= 3 and os.path.exists(stale):
        os.unlink(stale)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(pid, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Ctx(pid, tier)
    try:
        (const_check if pid == 'C20' else std_check if pid == 'C21' else engine_check)(c)
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kf = known(pid)
    shown, new = set(), []
    for key, what, rep in c.viol:
        hit = [k for k in kf if re.search(k[0], key)]
        if hit:
            shown.add(hit[0])
        else:
            new.append((key, what, rep))
    for k in sorted(shown):
        say('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    # tidy coverage
    c.cov.update(c.extra)
    if not c.cov['samples']:
        c.cov['samples'] = ['none (every obligation violated)']
    e = dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=c.cov,
             assumptions=['x86-64 Linux, IEEE-754 binary32/binary64, 80-bit long double, round to nearest', 'the reference model (libquadmath, Boost.Math / closed forms in wider arithmetic) is right to the stated tolerance'] + c.notes,
             wall_s=round(time.time() - T0, 2), violations=len(new))
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for n in c.notes[:10]:
        say('note:', n[:400])
    say('%s %s: %d states, %d transitions, %d validated, exhaustive=%s, %.1f s' % (pid, tier, c.cov['states'], c.cov['transitions'], c.cov['traces_validated_against_impl'], c.cov['exhaustive'], time.time() - T0))
    if new:
        path = os.path.join(ev, '%s.replay.json' % pid)
        json.dump(dict(property=pid, how='python3 run.py %s --replay %s' % (pid, path), violations=[dict(what=w, replay=r) for _, w, r in new]), open(path, 'w'), indent=1)
        for _, w, _ in new[:8]:
            say('  ' + w[:500])
        say('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def replay(pid, path):
    d = json.load(open(path))
    bad = 0
    tmp = tempfile.mkdtemp(prefix='mc_replay_')
    built = {}
    try:
        for v in d['violations']:
            r = v['replay']
            say(v['what'][:600])
            if r['kind'] == 'engine':
                k = (r['std'], r['part'])
                if k not in built:
                    built[k] = os.path.join(tmp, 'x%d' % len(built))
                    ok, log = compile_one(engine_cmd(pid, r['std'], r['part'], built[k]))
                    if not ok:
                        say('  does not compile now: ' + first_errors(log))
                        bad += 1
                        continue
                lm = os.path.join(tmp, 'lm.txt')
                open(lm, 'w').write('\n'.join(r['landmarks']) + '\n')
                rc, o, e = run([built[k], '--landmarks', lm, '--replay', r['obligation'], str(r['index'])] + (['--thorough'] if r['thorough'] else []), 120)
                say('  -> ' + ('reproduced' if rc not in (0, 2) else 'did not fail'))
                bad += rc not in (0, 2)
            elif r['kind'] == 'const':
                src = os.path.join(tmp, 'k.cpp')
                open(src, 'w').write('#include <limits>\n#include <cstdio>\n#include "gcem.hpp"\ntemplate<class T> T rt(T x) { volatile T v = x; return v; }\nconstexpr auto k = %s;\nint main() { auto r = %s; std::printf("compile time %%.21Lg, run time %%.21Lg\\n", (long double)k, (long double)r); }\n' % (r['expr'], r.get('runtime', r['expr'])))
                rc, o, e = run([r['cc'], '-std=' + r['std'], '-w', '-I' + INC, src, '-o', src[:-4]], 120)
                say('  -> ' + (first_errors(e) if rc else run([src[:-4]], 20)[1].strip()))
            else:
                say('  -> see the text in the file; run the check again to reproduce')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
