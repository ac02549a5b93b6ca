"""Writes the generated programs: random computations as C++ text, with the same computation for the reference model."""
import os, random

# operand shapes of include/operands.hpp: index -> (number of components, has run-time basis blades, native)
def shapes(nd):
    k2 = nd * (nd - 1) // 2
    return {0: (1, 0, 1), 1: (1, 0, 1), 2: (1, 0, 0), 3: (1, 0, 0), 4: (1, 0, 0), 5: (1, 0, 0), 6: (2, 0, 0), 7: (1, 0, 0), 8: (3, 0, 0), 9: (3, 0, 0), 10: (nd, 0, 0), 11: (k2, 0, 0),
            12: (2 ** nd, 0, 0), 13: (2 ** nd, 0, 0), 14: (1 + nd + k2, 0, 0), 15: (1, 0, 0), 16: (1, 1, 0), 17: (1, 1, 0), 18: (1, 1, 0), 19: (2, 1, 0), 20: (2, 2, 0)}


class Node:
    __slots__ = ('lib', 'ref', 'n', 'rt', 'exact', 'deg', 'leaf')
    def __init__(self, lib, ref, n, rt=0, exact=True, deg=1, leaf=None):
        self.lib, self.ref, self.n, self.rt, self.exact, self.deg, self.leaf = lib, ref, n, rt, exact, deg, leaf


class Programs:
    """Multivector programs over nargs operands."""
    def __init__(self, rng, nd, cap, degenerate, orthogonal, euclidean, maxdeg=6):
        self.r, self.nd, self.cap, self.deg, self.orth, self.euc, self.maxdeg = rng, nd, cap, degenerate, orthogonal, euclidean, maxdeg

    def invertible(self, args):
        """Operands whose squared norm is not a compile-time constant zero (the library refuses those), perhaps reversed."""
        ok = [a for a in args if a.leaf in (2, 3, 9, 10) or self.euc and a.leaf in (4, 5, 6, 7, 8, 11, 15)]
        if not ok: return None
        a = self.r.choice(ok)
        if self.r.random() < 0.3:
            f = self.r.choice(['reverse', 'conjugate', 'involute'])
            return Node('%s(%s)' % (f, a.lib), 'r%s(%s)' % (f, a.ref), a.n, 0, a.exact, a.deg)
        return a

    def tree(self, args, depth):
        r = self.r
        if depth == 0 or r.random() < 0.12: return r.choice(args)
        for _ in range(20):
            k = r.random()
            if k < 0.52:
                a, b = self.tree(args, depth - 1), self.tree(args, depth - 1)
                f = r.choice(['gp', 'gp', 'gp', 'op', 'op', 'lcont', 'rcont', 'dot', 'hip', 'sp', 'rp', 'cp'] + ['igp'])
                if f == 'igp':
                    b = self.invertible(args)
                    if b is None: continue
                n = a.n * b.n
                rt = a.rt + b.rt
                if n > self.cap or a.deg + b.deg > self.maxdeg: continue
                if rt and (n > 8 or f in ('cp', 'igp', 'rp') and n > 2): continue
                n2 = n if rt else min(n, 2 ** self.nd)
                if f == 'sp': n2 = 1
                return Node('%s(%s, %s)' % (f, a.lib, b.lib), 'seen(r%s(%s, %s))' % (f, a.ref, b.ref), n2, rt, a.exact and b.exact and f not in ('cp', 'igp'), a.deg + b.deg)
            if k < 0.72:
                a, b = self.tree(args, depth - 1), self.tree(args, depth - 1)
                f = r.choice(['+', '-'])
                if a.rt + b.rt and a.n + b.n > 6: continue
                n = a.n + b.n if a.rt + b.rt else min(a.n + b.n, 2 ** self.nd)
                return Node('(%s %s %s)' % (a.lib, f, b.lib), 'seen(r%s(%s, %s))' % ({'+': 'add', '-': 'sub'}[f], a.ref, b.ref), n, a.rt + b.rt, a.exact and b.exact, max(a.deg, b.deg))
            a = self.tree(args, depth - 1)
            if k < 0.80:
                f = r.choice(['reverse', 'involute', 'conjugate'])
                return Node('%s(%s)' % (f, a.lib), 'r%s(%s)' % (f, a.ref), a.n, a.rt, a.exact, a.deg)
            if k < 0.84:
                c = r.choice([-3, -2, -1, 2, 3])
                if r.random() < 0.5: return Node('(c<%d> * %s)' % (c, a.lib), 'seen(rscale(%d, %s))' % (c, a.ref), a.n, a.rt, a.exact, a.deg)
                return Node('(%s + c<%d>)' % (a.lib, c), 'seen(radd(%s, mv(%d)))' % (a.ref, c), a.n + 1, a.rt, a.exact, a.deg)
            if k < 0.88:
                return Node('(-%s)' % a.lib, 'rneg(%s)' % a.ref, a.n, a.rt, a.exact, a.deg)
            if k < 0.92:
                g = r.randint(0, self.nd)
                return Node('take_grade(%s, c<%d>)' % (a.lib, g), 'rgrade(%s, %d)' % (a.ref, g), a.n, a.rt, a.exact, a.deg)
            if k < 0.94 and not self.deg:
                f = r.choice(['dual', 'undual'])
                return Node('%s(%s)' % (f, a.lib), 'seen(r%s(%s))' % (f, a.ref), a.n, a.rt, a.exact, a.deg)
            if k < 0.96:
                if a.n > 8 or a.deg > 3: continue
                return Node('rnorm_sqr(%s)' % a.lib, 'seen(rrnorm_sqr(%s))' % a.ref, 1, a.rt, a.exact, a.deg * 2)
            k = r.random()
            if k < 0.5:
                a = self.invertible(args)
                if a is None: continue
                f = r.choice(['inv', 'unit'])
                return Node('%s(%s)' % (f, a.lib), 'seen(r%s(%s))' % (f, a.ref), a.n, a.rt, False, a.deg * 2)
            if k < 0.75:
                ok = [x for x in args if x.leaf in (3, 4, 5, 7, 10, 11) and (self.nd == 3 or x.leaf != 11)]
                if not ok: continue
                v = r.choice(ok)
                return Node('exp(%s)' % v.lib, 'seen(rexp(%s))' % v.ref, v.n + 1, 0, False, 6)
            v = [x for x in args if x.leaf in (4, 10) or x.leaf == 5 and self.euc]
            if not v or a.rt or a.n > 4 or a.deg > 2: continue
            v = r.choice(v)
            f = r.choice(['apply_odd_versor', 'apply_rotor'])
            return Node('%s(%s, %s)' % (f, v.lib, a.lib), 'seen(r%s(%s, %s))' % (f, v.ref, a.ref), a.n * 4, 0, False, 5)
        return r.choice(args)


def emit_programs(path, rng, count, nd, degenerate, orthogonal, euclidean, mode, depth=3, cap=40, pool=None):
    sh = shapes(nd)
    pool = pool or [k for k in sh if k > 1 and (orthogonal or k < 16)]
    out = ['#include "prog.hpp"', 'using namespace prog; using namespace NS;', 'using opnd::make;', '']
    calls = []
    for i in range(count):
        for _ in range(1000):
            na = rng.choice([1, 2, 2, 3, 3, 4])
            idx, natives, rt = [], 0, 0
            while len(idx) < na:
                k = rng.choice(pool)
                if sh[k][2] and natives: continue
                if rt + sh[k][1] > 2: continue
                idx.append(k); natives += sh[k][2]; rt += sh[k][1]
            args = [Node('a%d' % j, 'b%d' % j, sh[k][0], sh[k][1], leaf=k) for j, k in enumerate(idx)]
            P = Programs(rng, nd, cap, degenerate, orthogonal, euclidean, 4 if 13 in idx or 14 in idx else 6)
            t = P.tree(args, rng.choice([2, depth, depth]))
            if t.lib.count('(') < 2: continue
            used = [j for j in range(na) if 'a%d' % j in t.lib]
            if all(sh[idx[j]][2] for j in used): continue
            if len(t.lib) > 260: continue
            break
        text = t.lib.replace('"', '')
        params_l = ', '.join('auto const &a%d' % j for j in range(na))
        params_r = ', '.join('mv const &b%d' % j for j in range(na))
        tol = '2e-4L' if 14 in idx and not t.exact else '1e-6L' if 14 in idx else '1e-9L' if not t.exact else '1e-12L'
        out.append('static void p%d() {' % i)
        out.append('    auto const f = [](%s) { return %s; };' % (params_l, t.lib))
        out.append('    auto const g = [](%s) -> mv { return %s; };' % (params_r, t.ref))
        out.append('    for (int k = 0; k < mon::S().rounds; ++k) run<%d>("%s", %s, f, g, %s);' % (mode, text, tol, ', '.join('make<%d>()' % k for k in idx)))
        out.append('}')
        calls.append('p%d();' % i)
    out.append('int main(int argc, char **argv) {')
    out.append('    mon::begin(argc, argv, PROPERTY, UNIT);')
    out.append('    std::string why; if (!SP.selftest(why)) { std::fprintf(stderr, "selftest: %s\\n", why.c_str()); return 3; }')
    out.append('    ' + ' '.join(calls))
    out.append('    return mon::finish();')
    out.append('}')
    open(path, 'w').write('\n'.join(out) + '\n')


class Scalars:
    """Scalar expression trees: sums, products, powers, roots, absolute values, signs and (rarely) the transcendental functions."""
    def __init__(self, rng, nargs, fancy): self.r, self.na, self.fancy = rng, nargs, fancy

    def leaf(self):
        r = self.r
        if r.random() < 0.78:
            i = r.randrange(self.na)
            return ('a%d' % i, 'b%d' % i, None)
        k = r.choice([-3, -2, -1, 1, 2, 3, 4, 8, -4])
        return ('c<%d>' % k, 'K(%d)' % k, k)

    def tree(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.08: return self.leaf()
        k = r.random()
        if k < 0.30:
            (a, x, _), (b, y, _) = self.tree(depth - 1), self.tree(depth - 1)
            return ('(%s * %s)' % (a, b), '(%s * %s)' % (x, y), None)
        if k < 0.46:
            (a, x, _), (b, y, _) = self.tree(depth - 1), self.tree(depth - 1)
            o = r.choice('+-')
            return ('(%s %s %s)' % (a, o, b), '(%s %s %s)' % (x, o, y), None)
        a, x, _ = self.tree(depth - 1)
        if k < 0.52: return ('(-%s)' % a, '(-%s)' % x, None)
        if k < 0.66:
            e = r.choice([-3, -2, -1, 2, 2, 2, 3, 3, 4])
            return ('pow(%s, c<%d>)' % (a, e), 'powi_(%s, %d)' % (x, e), None)
        if k < 0.76: return ('sqrt(%s)' % a, 'sqrt_(%s)' % x, None)
        if k < 0.82: return ('cbrt(%s)' % a, 'cbrt_(%s)' % x, None)
        if k < 0.90: return ('abs(%s)' % a, 'abs_(%s)' % x, None)
        if k < 0.94: return ('inv(%s)' % a, 'inv_(%s)' % x, None)
        if not self.fancy: return ('pow(%s, c<2>)' % a, 'powi_(%s, 2)' % x, None)
        if k < 0.96:
            b, y, _ = self.tree(depth - 2 if depth > 1 else 0)
            return ('pow(%s, %s)' % (a, b), 'pow_(%s, %s)' % (x, y), None)
        f = r.choice(['exp', 'log', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh'])
        return ('%s(%s)' % (f, a), '%s_(%s)' % (f, x), None)


def emit_scalars(path, rng, count, depth=4, fancy=False):
    out = ['#include "scal.hpp"', 'using namespace scal; using namespace NS;', '']
    calls = []
    import math
    for i in range(count):
        while True:
            na = rng.choice([1, 1, 2, 2, 3])
            t = Scalars(rng, na, fancy).tree(rng.choice([2, 3, depth]))
            if t[0].count('(') < 2 or len(t[0]) > 170: continue
            if not all(constant_ok(s) for s in subtrees(t[0])): continue
            used = [j for j in range(na) if 'a%d' % j in t[0]]
            if used and has_value(t[1], na): break
        pl = ', '.join('[[maybe_unused]] auto const &a%d' % j for j in range(na))
        pr = ', '.join('[[maybe_unused]] en b%d' % j for j in range(na))
        kinds = [rng.choice(['double', 'double', 'scalar', 'int']) for _ in range(na)]
        mkx = {'double': 'draw()', 'scalar': 'ga::scalar(draw())', 'int': 'mon::irand(-6, 6)'}
        out.append('static void p%d() {' % i)
        out.append('    auto const f = [](%s) { return %s; };' % (pl, t[0]))
        out.append('    auto const g = [](%s) -> en { return %s; };' % (pr, t[1]))
        out.append('    for (int k = 0; k < mon::S().rounds * 4; ++k) run("%s", "%s", f, g, %s);' % (t[0], ', '.join(kinds), ', '.join(mkx[k] for k in kinds)))
        out.append('}')
        calls.append('p%d();' % i)
    out += ['int main(int argc, char **argv) {', '    mon::begin(argc, argv, PROPERTY, UNIT);', '    ' + ' '.join(calls), '    return mon::finish();', '}']
    open(path, 'w').write('\n'.join(out) + '\n')


def has_value(ref, na):
    """Defined on some of the inputs: an inverse of a - a, say, is rejected by the library in compile time."""
    import math, random
    r = random.Random(7)
    py = ref.replace('cbrt_', 'cbrt')
    def inv(x):
        if abs(x) < 1e-9: raise ValueError
        return 1 / x
    env = {'K': float, 'powi_': lambda a, n: a ** n if n >= 0 else inv(a ** -n), 'pow_': lambda a, b: math.exp(b * math.log(a)), 'sqrt_': math.sqrt, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'abs_': abs, 'inv_': inv}
    for f in ('exp', 'log', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh'): env[f + '_'] = getattr(math, f)
    ok = 0
    for _ in range(80):
        for j in range(na): env['b%d' % j] = r.choice([r.uniform(-3, 3), r.uniform(0, 3), r.uniform(-9, 9)])
        try: ok += math.isfinite(eval(py, env))
        except Exception: pass
    return ok >= 3


def subtrees(text):
    """Every sub-expression without variables."""
    import re
    out, st = [], []
    for i, ch in enumerate(text):
        if ch == '(':
            j = i
            while j > 0 and (text[j - 1].isalnum()): j -= 1
            st.append(j)
        elif ch == ')':
            j = st.pop(); s = text[j:i + 1]
            if not re.search(r'\ba\d', s): out.append(s)
    return out


def constant_ok(s):
    """A sub-expression of constants must have a value: the library rejects the others in compile time."""
    import math, re
    py = re.sub(r'c<(-?\d+)>', r'(\1.0)', s)
    def cbrt(x): return math.copysign(abs(x) ** (1 / 3), x)
    try:
        v = eval(py, {'pow': lambda a, b: a ** b if a > 0 or b == int(b) else 1 / 0, 'sqrt': math.sqrt, 'cbrt': cbrt, 'abs': abs, 'inv': lambda x: 1 / x, 'exp': math.exp, 'log': math.log,
                      'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh})
        return math.isfinite(v) and abs(v) > 1e-9 and abs(v) < 1e6
    except Exception: return False


def blade_text(k, bits, kind, nd):
    idx = [i + 1 for i in range(nd) if bits >> i & 1]
    const = '^'.join('e(c<%d>)' % i for i in idx)
    run = '^'.join('e(rti(%d))' % i for i in idx)
    if kind == 'const': return 'c<%d>' % k if not idx else '(c<%d> * (%s))' % (k, const)
    if kind == 'stored': return 'scalar(rtd(%d))' % k if not idx else '(rtd(%d) * (%s))' % (k, const)
    if kind == 'int': return 'scalar(rti(%d))' % k if not idx else '(rti(%d) * (%s))' % (k, const)
    if kind == 'rtconst': return 'c<%d>' % k if not idx else '(c<%d> * (%s))' % (k, run)
    if kind == 'rt': return 'scalar(rtd(%d))' % k if not idx else '(rtd(%d) * (%s))' % (k, run)
    if kind == 'any': return 'anyblade(%d, %d)' % (k, bits)
    raise ValueError(kind)


STATIC_KINDS, RT_KINDS = ['const', 'stored', 'int'], ['rtconst', 'rt', 'any']


def emit_variants(path, rng, count, nd, degenerate, orthogonal, euclidean, variants, depth=3):
    """C12: one computation, its operands holding the same values in every way that differs in what the compiler knows."""
    out = ['#include "prog.hpp"', 'using namespace prog; using namespace NS;', 'using opnd::mk;',
           'static int rti(int v) { static volatile int z = 0; return v + z; }', 'static double rtd(int v) { return rti(v); }',
           'static auto anyblade(int k, int b) { scaled_basis_blade_t<double, 0, ND> v; *v.values().begin() = k; *v.bitsets().begin() = ref::bits(b); return v; }',
           'template<class X> auto fullof(X const &x) { full_multivector_t<double, ND> f; ga::trivial_copy(x, f); return f; }', '']
    calls = []
    for i in range(count):
        rt = orthogonal and rng.random() < 0.65
        while True:
            na = rng.choice([1, 2, 2, 3])
            vals = []
            for _ in range(na):
                comps = {}
                for _ in range(1 if rt else rng.choice([1, 2, 2, 3])): comps[rng.randrange(2 ** nd)] = rng.choice([-3, -2, -1, 1, 1, 2, 3, 5])
                vals.append(sorted(comps.items()))
            args = [Node('a%d' % j, 'b%d' % j, len(v), 1 if rt else 0, leaf=6 if euclidean else None) for j, v in enumerate(vals)]
            t = Programs(rng, nd, 24, degenerate, orthogonal, euclidean, 6).tree(args, rng.choice([1, 2, depth]))
            if t.lib.count('(') < 1 or len(t.lib) > 200: continue
            if rt and t.n > 6: continue
            used = [j for j in range(na) if 'a%d' % j in t.lib]
            if used: break
        assign = [['const'] * na, ['stored'] * na] + ([['rt'] * na] if rt else [])
        for _ in range(200):
            if len(assign) >= variants: break
            a = [rng.choice((STATIC_KINDS + RT_KINDS) if rt else STATIC_KINDS + ['full', 'split']) for _ in range(na)]
            if [a[j] for j in used] not in [[x[j] for j in used] for x in assign]: assign.append(a)
        out.append('static void p%d() {' % i)
        out.append('    auto const f = [](%s) { return %s; };' % (', '.join('[[maybe_unused]] auto const &a%d' % j for j in range(na)), t.lib))
        out.append('    auto const g = [](%s) -> mv { return %s; };' % (', '.join('[[maybe_unused]] mv const &b%d' % j for j in range(na)), t.ref))
        for a in assign:
            ops = []
            for j, k in enumerate(a):
                v = vals[j]
                if k == 'full': x = 'fullof(%s)' % ' + '.join(blade_text(q, b, 'stored', nd) for b, q in v)
                elif k == 'split': x = ' + '.join(blade_text(q, b, rng.choice(STATIC_KINDS), nd) for b, q in v)
                else: x = ' + '.join(blade_text(q, b, k, nd) for b, q in v)
                ops.append('mk(%s, %s, "%s")' % (x, ' + '.join('mv::blade(%d, %d)' % (b, q) for b, q in v), k + ' ' + ' + '.join('%d e%s' % (q, ''.join(str(n + 1) for n in range(nd) if b >> n & 1)) for b, q in v)))
            out.append('    run<3>("%s", %s, f, g, %s);' % (t.lib, '1e-12L' if t.exact else '1e-9L', ', '.join(ops)))
        out.append('}')
        calls.append('p%d();' % i)
    out += ['int main(int argc, char **argv) {', '    mon::begin(argc, argv, PROPERTY, UNIT);',
            '    std::string why; if (!SP.selftest(why)) { std::fprintf(stderr, "selftest: %s\\n", why.c_str()); return 3; }', '    ' + ' '.join(calls), '    return mon::finish();', '}']
    open(path, 'w').write('\n'.join(out) + '\n')
