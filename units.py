"""The monitored programs of each property: driver, configuration, and the quick/thorough split."""
import os, random, sys

import gen

HERE = os.path.dirname(os.path.abspath(__file__))

DEFAULT_RULE = 'Operands of every storage shape (compile-time constants, stored coefficients, run-time basis blades, mixtures; int, float and double) are drawn from a seeded generator; a case is one monitored library call compared with the reference model. Distinct: operation, operand shapes and operand values not seen before in that program. Non-trivial: the expected result is not zero (for predicates and conversions: the operand is not empty).'
RULE = {}
ASSUMPTIONS = [
    'g++ 11.4 in C++17 mode, x86-64, as the repository builds its own tests',
    'the reference model (include/ref.hpp) is right: it shares no code with the library and its axioms are re-checked at the start of every program',
    'floating-point results are compared within the stated rounding allowance; integer-valued data is compared exactly',
]


def label(u):
    d = u.get('defs', {})
    return ' '.join([u['generate'] if 'generate' in u else u['src']] + ['%s=%s' % (k, d[k]) for k in sorted(d)] + (['valgrind'] if u.get('valgrind') else []) + (['plain'] if u.get('plain') else []) + (['threads'] if u.get('tsan') else []) + [f for f in u.get('flags', []) if f.startswith(('-O', '-D'))])


def generate(u, work):
    """Writes the generated program of a unit: u['generate'] names the generator, u['args'] its arguments."""
    a = dict(u['args']); seed = a.pop('seed')
    path = os.path.join(work, 'generated_%s_%d.cpp' % (u['generate'].split()[0], generate.n)); generate.n += 1
    getattr(gen, 'emit_' + u['generate'].split()[0])(path, random.Random(seed), **a)
    return path


generate.n = 0


E = lambda d: {'KIND': 'e', 'DIM': d}
H = lambda d: {'KIND': 'h', 'DIM': d}
P = lambda d: {'KIND': 'p', 'DIM': d}
M = lambda d: {'KIND': 'm', 'DIM': d}
C = lambda d: {'KIND': 'c', 'DIM': d}
S = lambda p, q, r: {'KIND': 's', 'SP_': p, 'SQ_': q, 'SR_': r}


def G(d, *m):
    """A general metric; without entries, the one of alg.hpp."""
    if not m: return {'KIND': 'g', 'DIM': d}
    assert len(m) == d * d and all(m[i * d + j] == m[j * d + i] for i in range(d) for j in range(d))
    return dict({'KIND': 'g', 'DIM': d, 'GMAT': ','.join(map(str, m))}, **({} if det([list(m[i * d:i * d + d]) for i in range(d)]) else {'GDEG': 1}))


def det(m): return m[0][0] if len(m) == 1 else sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def random_metric(r, d, kinds):
    """A symmetric integer matrix: dense, sparse, null basis, degenerate or the identity."""
    k = r.choice(kinds); m = [[0] * d for _ in range(d)]
    for i in range(d):
        for j in range(i + 1): m[i][j] = m[j][i] = 1 * (i == j) if k == 'identity' else 0 if (k == 'null' and i == j) or (k == 'sparse' and r.random() < 0.6) else r.randint(-3, 3)
    if k == 'degenerate':
        for i in range(d): m[i][d - 1] = m[d - 1][i] = 2 * m[i][0] if i < d - 1 else 0
        m[d - 1][d - 1] = 4 * m[0][0]
    return G(d, *[x for row in m for x in row])


def mk(src, *ds, **kw):
    d = {}
    for x in ds: d.update(x)
    return dict({'src': src, 'defs': d}, **kw)


def units(prop, tier, seed):
    t = tier == 'thorough'
    u = TABLE[prop](t, seed)
    return u


def parts(src, n, base, shapes=22, **kw):
    return [mk(src, base, {'PART': i, 'NPARTS': n}, **kw) for i in range(min(n, shapes))]


def dense(mask, t, seed):
    """Dense basis blades of large spaces; two of them, drawn here, are compile-time constants."""
    out = []
    for i, b in enumerate((S(63, 0, 0), S(40, 20, 3), S(9, 30, 1)) + ((S(33, 0, 0), S(17, 16, 3), S(0, 63, 0), S(31, 31, 1), S(5, 2, 1), S(16, 0, 0)) if t else ())):
        for k in range(6 if t else 2):
            r = random.Random('%d %d %d %d' % (mask, seed, i, k)); n = b['SP_'] + b['SQ_']
            x, y = ((r.getrandbits(64) | (r.getrandbits(64) if k % 2 else 0) | 1) & ((1 << n) - 1) for _ in range(2))
            out.append(mk('dense.cpp', b, {'MASK': mask, 'BA': '%dull' % x, 'BB': '%dull' % y, 'HIGH': 1}, mem=800))
    return out


def c04(t, seed):
    if t:
        out = []
        for b in (E(3), E(2), P(2), M(1), S(1, 1, 1)): out += parts('linear.cpp', 22, b)
        out += parts('linear.cpp', 16, C(1), 16)
        return out
    return parts('linear.cpp', 22, E(2)) + parts('linear.cpp', 8, C(1), 16)


def c08(t, seed):
    algs = (E(3), H(2), M(1), S(1, 1, 1), C(1)) if t else (E(3),)
    out = [mk('versor.cpp', b, {'PART': i, 'RSTEP': 1 if t else 3}) for b in algs for i in range(16)]
    if not t: out += [mk('versor.cpp', b, {'PART': i, 'RSTEP': 7}) for b in (M(1), C(1)) for i in range(16)]
    return [u for u in out if not (u['defs']['KIND'] == 'c' and u['defs']['DIM'] == 1 and u['defs']['PART'] == 8)]  # e2 is a null vector there
    return out


def c09(t, seed):
    algs = (E(2), E(3), E(4), H(2), H(3), P(2), P(3), M(1), M(2), C(1), C(2), S(1, 1, 1), S(1, 2, 0), S(2, 2, 0)) if t else (E(3), H(2), P(2), M(1), C(1))
    return [mk('bladeexp.cpp', x, {'PART': i, 'NPARTS': 4}) for x in algs for i in range(4)]


def c10(t, seed):
    if t: return [u for b, n in ((E(2), 22), (E(3), 22), (P(2), 22), (M(1), 22), (C(1), 16), (S(1, 1, 1), 22)) for u in parts('queries.cpp', n, b)]
    return parts('queries.cpp', 22, E(3)) + parts('queries.cpp', 8, C(1), 16)


def c15(t, seed):
    return [mk('meet.cpp', E(3), {'PART': i}) for i in (11, 12, 13, 21, 22, 23, 31, 32, 33, 101)] + ([mk('meet.cpp', H(2), {'PART': i}) for i in (11, 12, 21, 22, 101)] if t else [])


def c16(t, seed):
    algs = (E(3), E(2), P(2), M(1), C(1), S(1, 1, 1)) if t else (E(2),)
    out = []
    for b in algs:
        n = 16 if b['KIND'] == 'c' else 22
        out += [mk('commut.cpp', b, {'MASK': 1, 'PART': i, 'NPARTS': 11, 'RSTEP': 1 if t else 2}) for i in range(11)]
        out += [mk('commut.cpp', b, {'MASK': 2, 'PART': i, 'NPARTS': 16, 'RSTEP': 2 if t else 3}) for i in range(16)]
    return out


def prod(mask):
    def f(t, seed):
        out = []
        def add(base, n, step, high=False, off=None):
            d = dict({'OPS_MASK': mask, 'NPARTS': n}, **({'HIGH': 1} if high else {}))
            if step > 1: d.update(RSTEP=step, ROFF=(seed if off is None else off) % step)
            out.extend(mk('products.cpp', base, d, {'PART': i}) for i in range(n))
        if t:
            for b in (E(2), E(3), H(2), P(2), M(1), S(1, 1, 1), S(1, 2, 0), S(0, 2, 1)): add(b, 22, 1)
            for b in (C(1),): add(b, 16, 1)
            for b in (P(3), E(4), M(2), S(2, 1, 1)): add(b, 22, 4)
            for b in (C(2),): add(b, 16, 4)
            for b in (S(40, 20, 3), S(17, 16, 3), S(5, 2, 1), S(63, 0, 0)): add(b, 12, 1, True)
        else:
            add(E(2), 11, 2 if mask == 12 else 1); add(E(3), 11, 6); add(P(2), 6, 6); add(M(1), 6, 6); add(S(1, 1, 1), 6, 6); add(C(1), 8, 3)
            add(S(40, 20, 3), 6, 2, True)
        for m in (1, 2, 4, 8): out += dense(m, t, seed) if mask & m else []
        return out
    return f


def una(mask, quick, step=None):
    """quick: list of (algebra, parts); step: stride over the right operands of the quotients."""
    def f(t, seed):
        out = []
        def add(base, n, st, high=False):
            d = {'MASK': mask, 'NPARTS': n}
            if st: d['RSTEP'] = st
            if high: d['HIGH'] = 1
            out.extend(mk('unary.cpp', base, d, {'PART': i}) for i in range(n))
        if t:
            for b in (E(2), E(3), H(2), P(2), M(1), C(1), S(1, 1, 1), S(1, 2, 0), S(0, 3, 0), S(0, 2, 1)): add(b, 22 if b['KIND'] != 'c' else 16, step and 1)
            for b in (E(4), P(3), M(2), C(2), S(2, 2, 0), E(5)): add(b, 22 if b['KIND'] != 'c' else 16, step)
            for b in (S(40, 23, 0), S(17, 16, 3), S(5, 2, 1)): add(b, 12, step and 1, True)
        else:
            for b, n in quick: add(b, n, step)
            add(S(40, 23, 0), 3, step, True)
        return out + (dense(16, t, seed) if mask == 1 else dense(32, t, seed))
    return f


KINDS = {'e': lambda b: b['DIM'], 'h': lambda b: b['DIM'] + 1, 'p': lambda b: b['DIM'] + 1, 'm': lambda b: b['DIM'] + 2, 'c': lambda b: b['DIM'] + 2, 's': lambda b: b['SP_'] + b['SQ_'] + b['SR_']}


def space(b):
    k = b['KIND']
    return {'nd': KINDS[k](b), 'degenerate': k == 'p' or (k == 's' and b['SR_'] > 0), 'orthogonal': k != 'c', 'euclidean': k in 'eh' or (k == 's' and b['SQ_'] == b['SR_'] == 0)}


def gen_unit(kind, b, seed, **args):
    d = dict(b)
    return {'generate': '%s seed=%d' % (kind, seed), 'args': dict(args, seed=seed, **(space(b) if kind != 'scalars' else {})), 'defs': d, 'mem': 2500, 'flags': ['-fmax-errors=20']}


def c11(t, seed):
    n = 12
    if not t: return [gen_unit('programs', b, seed * 1000 + i, count=n, mode=31) for b, k in ((E(3), 10), (P(2), 4), (M(1), 4), (C(1), 4)) for i in range(k)]
    return [gen_unit('programs', b, seed * 1000 + 100 + i, count=n, mode=31, depth=3 + i % 3) for b, k in ((E(2), 16), (E(3), 60), (P(2), 30), (M(1), 30), (C(1), 30), (S(1, 1, 1), 20), (H(2), 10)) for i in range(k)]


def c12(t, seed):
    if not t: return [gen_unit('variants', b, seed * 1000 + i, count=6, variants=4, depth=2 if b['KIND'] == 'c' else 3) for b, k in ((E(3), 9), (P(2), 3), (M(1), 4), (C(1), 4)) for i in range(k)]
    return [gen_unit('variants', b, seed * 1000 + 100 + i, count=6, variants=6, depth=2 if b['KIND'] == 'c' else 3) for b, k in ((E(2), 12), (E(3), 60), (P(2), 24), (M(1), 24), (C(1), 24), (S(1, 1, 1), 16)) for i in range(k)]


def c14(t, seed):
    return parts('copy.cpp', 22, E(3)) + (parts('copy.cpp', 16, C(1), 16) + parts('copy.cpp', 22, E(2)) + parts('copy.cpp', 22, M(2)) if t else [])


def c21(t, seed):
    out = [gen_unit('scalars', E(2), seed * 1000 + i, count=30, depth=4 + (i % 3 == 0), fancy=i % 2 == 1) for i in range(160 if t else 24)]
    return out + [gen_unit('programs', b, seed * 1000 + 500 + i, count=10, mode=8) for b in ((E(3), M(1), P(2), C(1)) if t else (E(3), M(1))) for i in range(20 if t else 4)]


def c13(t, seed):
    out = [mk('scalarfn.cpp', E(3), {'PART': i}) for i in range(6)]
    if t: out += [mk('scalarfn.cpp', b, {'PART': i}) for b in (C(2), P(2), E(1), M(1)) for i in range(6)]
    return out + [gen_unit('scalars', E(2), seed * 1000 + 300 + i, count=24, depth=3 + i % 2, fancy=True) for i in range(120 if t else 10)]


def c19(t, seed):
    def rows(b, n, ps, **kw): return [mk('present.cpp', b, {'PART': p, 'NPARTS': n}, kw) for p in ps]
    out = []
    if t:
        for b in (E(1), E(2), E(3), E(4), P(2), M(1), M(2), H(3), S(1, 1, 1)): out += rows(b, 22, [*range(2, 22), 100, 101, 102])
        for b in (C(1), C(2), C(3)): out += rows(b, 22, [*range(2, 16), 100, 101, 102])
        for b in (S(40, 20, 3), S(63, 0, 0), S(9, 30, 1)): out += rows(b, 12, [*range(1, 12), 100, 102], HIGH=1)
        out += rows(E(3), 22, [103]) + rows(E(5), 22, [100, 101, 102])
    else:
        out += rows(E(3), 22, [*range(2, 22), 100, 101, 102, 103])
        for b in (E(1), C(2), P(3), M(2), H(3), E(5)): out += rows(b, 22, [100, 101, 102])
        out += rows(C(1), 22, range(2, 16)) + rows(S(40, 20, 3), 12, [*range(1, 12), 100, 102], HIGH=1)
    return out


NUM = {'COEF': 'trk::Num'}
FP = ['-fsanitize=float-cast-overflow', '-D_GLIBCXX_ASSERTIONS']
VG = dict(valgrind=True, plain=True, rounds=3)
O2 = ['-O2']


def c20(t, seed):
    r = random.Random('memory %d %s' % (seed, t)); out = [mk('memory.cpp', E(3), {'PART': 200}, flags=FP), mk('memory.cpp', E(3), {'PART': 200}, **VG), mk('memory.cpp', E(3), {'PART': 200}, flags=O2)]
    rows = lambda b, k, *ds, lo=0, **kw: [mk('memory.cpp', b, {'PART': p, 'RSTEP': 3 if t else 7}, *ds, **kw) for p in sorted(r.sample(range(lo, 16 if b['KIND'] == 'c' else 22), k))]
    some = lambda src, n, k, b, *ds, lo=0, **kw: [mk(src, b, {'PART': p, 'NPARTS': n}, *ds, **kw) for p in sorted(r.sample(range(lo, n), min(k, n - lo)))]
    out += rows(E(2), 22, flags=FP) + rows(M(1), 22 if t else 4, flags=FP) + rows(C(1), 16 if t else 4, flags=FP) + rows(P(2), 22 if t else 4, flags=FP)
    out += rows(E(2), 22 if t else 5, {'HOSTILE': 1}, flags=FP, lo=0) + rows(E(2), 20 if t else 8, NUM, lo=2) + rows(E(3), 8 if t else 2, NUM, lo=2)
    out += rows(E(2), 18 if t else 4, **VG) + rows(E(2), 22 if t else 4, flags=O2)
    # the other programs, with coefficients that own memory, under the optimizer, or watched for uninitialised reads
    k = 8 if t else 1
    for kw in (dict(), dict(flags=O2), dict(VG)):
        ds = [NUM] if not kw else []
        for b in (E(2), C(1)): n = 22 if b['KIND'] == 'e' else 16; out += some('products.cpp', n, k + 1, b, {'OPS_MASK': r.choice((3, 12)), 'RSTEP': 4, 'ROFF': r.randrange(4)}, *ds, lo=2, **kw)
        out += some('unary.cpp', 22, 2 * k, E(3), {'MASK': 1}, *ds, lo=2, **kw) + some('unary.cpp', 22, k, E(2), {'MASK': 2, 'RSTEP': 7}, *ds, lo=2, **kw) + some('unary.cpp', 22, k, E(2), {'MASK': 4}, *ds, lo=2, **kw)
        out += some('linear.cpp', 22, k, E(2), *ds, lo=2, **kw) + some('versor.cpp', 16, 2 * k, E(2), {'RSTEP': 5}, *ds, **kw) + some('commut.cpp', 16, k, E(2), {'MASK': 2, 'RSTEP': 3}, *ds, **kw) + some('present.cpp', 22, 2 * k, E(3), *ds, lo=2, **kw) + some('bladeexp.cpp', 4, k, E(3), *ds, **kw)
        if kw:
            out += some('copy.cpp', 22, 2 * k, E(3), **kw) + [mk('meet.cpp', E(3), {'PART': p}, **kw) for p in r.sample((11, 12, 21, 22, 23, 33, 101), min(7, 2 * k))]
            out += [mk('cga.cpp', C(2), {'PART': p}, {'GRADE': 2}, **kw) for p in r.sample((1, 2), min(k, 2))] + [mk('cga.cpp', C(2), {'PART': 3}, **kw), mk('model.cpp', H(2), {'PART': 2}, **kw), mk('model.cpp', E(3), {'PART': 10}, **kw), mk('dense.cpp', S(40, 20, 3), {'MASK': r.choice((1, 2, 4, 8)), 'BA': '5ull', 'BB': '1099511627777ull', 'HIGH': 1}, **kw), mk('present.cpp', E(3), {'PART': 100, 'NPARTS': 22}, **kw), mk('scalarfn.cpp', E(3), {'PART': 3}, **kw)]
    out += [mk('threads.cpp', b, {'PART': p}, tsan=True) for b in ((E(3), M(1), C(1)) if t else (E(3),)) for p in r.sample(range(3, 16 if b['KIND'] == 'c' else 22), 10 if t else 4)]
    return [u for u in out if not (u['src'] == 'versor.cpp' and u['defs']['KIND'] == 'c')]


FLOATDEF = {'GA_DEFAULT_FLOATING_POINT_TYPE': 'float'}
CONFIGS = [FLOATDEF, {'GA_DEFAULT_INTEGRAL_TYPE': 'int'}, {'GA_DEFAULT_INTEGRAL_TYPE': 'short'}, {'GA_MAX_BASIS_VECTOR_INDEX': 7}, {'GA_MAX_BASIS_VECTOR_INDEX': 8}, {'GA_MAX_BASIS_VECTOR_INDEX': 15}, {'GA_MAX_BASIS_VECTOR_INDEX': 16}, {'GA_MAX_BASIS_VECTOR_INDEX': 31}, {'GA_MAX_BASIS_VECTOR_INDEX': 32}, {'GA_MAX_BASIS_VECTOR_INDEX': 5, 'GA_DEFAULT_INTEGRAL_TYPE': 'int'}]
COEFS = ['int', 'short', 'long', 'float', 'longdouble', 'trk::Num']


def c23(t, seed):
    r = random.Random('configurations %d %s' % (seed, t)); out = []
    part = lambda src, b, n, *ds, lo=0: mk(src, b, {'PART': r.randrange(lo, n), 'NPARTS': n}, *ds)
    def suite(d, coef):
        out.extend([part('products.cpp', E(2), 22, {'OPS_MASK': 15, 'RSTEP': 3, 'ROFF': r.randrange(3)}, d, lo=8), part('products.cpp', C(1), 16, {'OPS_MASK': 3, 'RSTEP': 3, 'ROFF': r.randrange(3)}, d, lo=8),
            part('unary.cpp', E(3), 22, {'MASK': 1}, d, lo=9), part('unary.cpp', E(2), 22, {'MASK': 2, 'RSTEP': 7}, d, lo=9), part('unary.cpp', M(1), 22, {'MASK': 4}, d, lo=9), part('linear.cpp', E(2), 22, d, lo=9),
            part('versor.cpp', E(2), 16, {'RSTEP': 5}, d), part('commut.cpp', E(2), 16, {'MASK': 3, 'RSTEP': 3}, d), mk('queries.cpp', E(3), {'PART': r.randrange(8, 16), 'NPARTS': 22}, d)])
        if not coef: out.extend([part('copy.cpp', E(3), 22, d, lo=2), part('present.cpp', E(3), 22, d, lo=2), mk('present.cpp', r.choice((C(2), M(1), P(2), H(2))), {'PART': r.choice((100, 102)), 'NPARTS': 22}, d), mk('meet.cpp', E(3), {'PART': r.choice((11, 12, 21, 22, 23))}, d), part('bladeexp.cpp', E(3), 4, d),
            mk('cga.cpp', C(2), {'PART': r.choice((1, 2)), 'GRADE': r.choice((1, 2))}, d), mk('model.cpp', H(2), {'PART': r.choice((1, 2, 3))}, d), mk('scalarfn.cpp', E(3), {'PART': r.choice((0, 1, 2, 3))}, d)])
        # constants of narrower integral types overflow in deep random expressions, as they do in plain C++
        if not coef and d is not FLOATDEF:
            if d.get('GA_DEFAULT_INTEGRAL_TYPE') != 'short': out.append(gen_unit('programs', dict(E(3), **d), seed * 1000 + 700 + len(out), count=8, mode=31))
            if 'GA_DEFAULT_INTEGRAL_TYPE' not in d: out.append(gen_unit('scalars', dict(E(2), **d), seed * 1000 + 700 + len(out), count=20, depth=4))
    for d in (CONFIGS if t else r.sample(CONFIGS, 4)):
        for _ in range(4 if t else 1): suite(d, False)
    for c in COEFS:
        for _ in range(4 if t else 1): suite({'COEF': c}, True)
    # the tolerances of the library, set by the user
    for k, n in (('0.25', 4), ('3.0', 2)): out.extend(mk(*a, {'GA_DEFAULT_DBL_TOLERANCE': k}) for i in r.sample(range(6, 16), n) for a in (('queries.cpp', E(3), {'PART': i, 'NPARTS': 22}), ('commut.cpp', E(2), {'MASK': 2, 'PART': i, 'NPARTS': 16, 'RSTEP': 3})))
    return out


def c22(t, seed):
    r = random.Random('metrics %d %s' % (seed, t)); out = []
    def products(b, k, step):
        for m, n in ((1, 4), (2, 4), (12, 4)): out.extend(mk('products.cpp', b, {'OPS_MASK': m, 'NPARTS': n, 'RSTEP': step, 'ROFF': i % step, 'PART': i}) for i in r.sample(range(n), min(k, n)))
    def rest(b, k, step):
        for i in r.sample(range(4), min(k, 4)):
            out.append(mk('unary.cpp', b, {'MASK': 1, 'NPARTS': 4, 'PART': i})); out.append(mk('unary.cpp', b, {'MASK': 4, 'NPARTS': 4, 'PART': i}))
        out.extend(mk('unary.cpp', b, {'MASK': 2, 'NPARTS': 8, 'PART': i, 'RSTEP': step}) for i in r.sample(range(8), min(k, 8)))
        out.extend(mk('versor.cpp', b, {'PART': i, 'RSTEP': step}) for i in r.sample((4, 5, 6, 7, 10, 12, 14, 15), min(k, 8)))
    if t:
        fixed = [G(2), G(3), G(2, 0, 1, 1, 0), G(2, 1, 1, 1, 1), G(3, 0, 0, -1, 0, 1, 0, -1, 0, 0), G(3, 1, 0, 0, 0, 1, 0, 0, 0, 1), G(2, 0, 0, 0, 0), G(1, -2)]
        for b in fixed + [random_metric(r, r.choice((2, 3, 3)), ('dense', 'sparse', 'null', 'degenerate')) for _ in range(12)]: products(b, 4, 2); rest(b, 3, 3)
        for b in (G(4), G(4, 0, 0, 0, -1, 0, 1, 0, 0, 0, 0, 1, 0, -1, 0, 0, 0)): products(b, 2, 6); rest(b, 1, 7)
        for p, q, s in ((3, 1, 0), (2, 0, 1), (0, 1, 1), (1, 0, 2), (2, 2, 0), (0, 4, 0), (1, 1, 2)): products(S(p, q, s), 3, 4); rest(S(p, q, s), 2, 4)
    else:
        for b in (G(2), G(3), random_metric(r, 2, ('null', 'sparse')), random_metric(r, 3, ('dense',)), random_metric(r, r.choice((2, 3)), ('degenerate',))): products(b, 2, 4); rest(b, 2, 7)
        products(G(3, 0, 0, -1, 0, 1, 0, -1, 0, 0), 1, 4); products(G(4), 1, 8)
        for _ in range(2): p, q = r.randint(0, 2), r.randint(0, 2); b = S(p, q, r.randint(max(0, 2 - p - q), 2 if p + q < 3 else 0)); products(b, 1, 6); rest(b, 1, 7)
    return out


def c17(t, seed):
    out = [mk('model.cpp', E(2), {'PART': i}) for i in range(2, 22)]
    out += [mk('model.cpp', E(3), {'PART': i}) for i in (range(2, 22) if t else range(2 + seed % 3, 22, 3))]
    if t: out += [mk('model.cpp', E(4), {'PART': i}) for i in range(2, 22)] + [mk('model.cpp', E(1), {'PART': i}) for i in range(2, 22)]
    for d in (1, 2, 3) + ((4,) if t else ()): out += [mk('model.cpp', H(d), {'PART': i}, mem=6000 if d > 3 else 2500, cost=30 + d) for i in [*range(1, d + 2), 100, 101, 102, 103] if t or d < 3 or i < 100]
    out += [mk('model.cpp', b, {'BASIS': 1}, mem=900) for b in (E(1), E(2), E(3), E(4), E(5), H(1), H(2), H(3), P(1), P(2), P(3))]
    return out


def c18(t, seed):
    out = []
    def add(b, p, gs=(None,), vs=(3,), **kw): out.extend(mk('cga.cpp', b, {'PART': p}, {'GRADE': g} if g else {}, {'VIEW': v} if v != 3 else {}, **kw) for g in gs for v in vs)
    for m in (C, M):
        for d in (1, 2):
            w = dict(mem=5000, cost=60) if m is M and d == 2 else dict(mem=2000, cost=20)
            add(m(d), 0, **w); add(m(d), 3, mem=1200)
            for p in (1, 2): add(m(d), p, range(1, d + 2), (1, 2) if m is M and d == 2 else (3,), **w)
            if d == 2: out.extend(mk('cga.cpp', m(d), {'PART': 4, 'FORM': f}, mem=5000 if m is M and f in (4, 6) else 1500, cost=50 if m is M and f in (4, 6) else 10) for f in range(7))
    w = dict(mem=5000, cost=40)
    if t:
        add(C(3), 0, range(1, 4), (1, 2), **w); add(C(3), 1, range(1, 5), (1, 2), **w); add(C(3), 2, range(1, 5), (1, 2), **w); add(C(3), 3); add(M(3), 3)
        out.extend(mk('cga.cpp', C(3), {'PART': 4, 'FORM': f}, mem=4000) for f in range(7))
        w = dict(mem=14000, cost=90)
        add(M(3), 0, range(1, 4), (1, 2), **w)
        for p in (1, 2): add(M(3), p, range(1, 5), (1, 2), **w)
    else: add(C(3), 0, (2,), **w); add(C(3), 1, (2,), **w); add(C(3), 2, (3,), (1,), **w)
    return out


TABLE = {
    'C01': prod(1), 'C02': prod(2), 'C03': prod(12), 'C04': c04,
    'C05': una(1, [(E(3), 8), (P(2), 8), (M(1), 8), (C(1), 8)]),
    'C06': una(2, [(E(3), 8), (M(1), 8), (C(1), 8)], 7),
    'C07': una(4, [(E(3), 8), (M(1), 8), (C(1), 8), (S(0, 2, 1), 4), (S(1, 2, 0), 4)]),
    'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23,
}
