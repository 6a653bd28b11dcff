"""Subspace facts: questions about subspaces, as public calls, with the answers the definition gives.

operation {'id','k':'fact','ctx':c,'q':<fact>,'s':<spec>,'t':<spec or None>}
"""
import functools

import numpy as np

from .catalog import mset, nset, support, gen_sub, NAMES
from .model import popcount
from . import program

FACTS = {}
LIMIT = [12]


def fact(name, run, model, two=False, nonempty=False, maxn=None, weight=1.0):
    FACTS[name] = dict(run=run, model=model, two=two, nonempty=nonempty, maxn=maxn or LIMIT[0], weight=weight)


def blades(s):
    return [int(b) for b in s.blades]


def sup(M, k, *S):
    return support(M, {'k': k}, list(S))


QUAD = {'squared': 'q.squared', 'symmetric_reverse': 'q.symmetric_reverse_product', 'symmetric_involute': 'q.symmetric_involute_product',
        'symmetric_conjugate': 'q.symmetric_conjugate_product', 'symmetric_scalar_negation': 'q.symmetric_scalar_negation_product',
        'symmetric_pseudoscalar_negation': 'q.symmetric_pseudoscalar_negation_product'}
SIMPLE = {'is_squared_n_simple': 'squared', 'is_reverse_n_simple': 'symmetric_reverse', 'is_involute_n_simple': 'symmetric_involute',
          'is_conjugate_n_simple': 'symmetric_conjugate', 'is_scalar_negation_n_simple': 'symmetric_scalar_negation',
          'is_pseudoscalar_negation_n_simple': 'symmetric_pseudoscalar_negation'}


def n_simple(M, S, n):
    if n == 0:
        return S <= {0}
    return any(n_simple(M, sup(M, QUAD[q], S), n - 1) for q in SIMPLE.values())


@functools.lru_cache(20000)
def _simple(sig, S, n, M):
    if n == 0:
        return S <= {0}
    return any(_simple(sig, sup(M, QUAD[q], S), n - 1, M) for q in SIMPLE.values())


def n_simple_c(M, S, n):
    return _simple(tuple(M.sig), frozenset(S), n, M)


def exp_closure(M, S):
    S = S | {0}
    while True:
        T = S | sup(M, 'q.squared', S)
        if T == S:
            return S
        S = T


def closure(M, S):
    while True:
        T = S | M.prodspace(S, S)
        if T == S:
            return S
        S = T


# set algebra and order
fact('union', lambda s, t: blades(s.union(t)), lambda M, S, T: list(M.order(S | T)), two=True, weight=2)
fact('intersection', lambda s, t: blades(s.intersection(t)), lambda M, S, T: list(M.order(S & T)), two=True, weight=2)
fact('difference', lambda s, t: blades(s.difference(t)), lambda M, S, T: list(M.order(S - T)), two=True, weight=2)
fact('in', lambda s, t: s in t, lambda M, S, T: S <= T, two=True, weight=3)
fact('is_subspace', lambda s, t: bool(s.is_subspace(t)), lambda M, S, T: S <= T, two=True, weight=2)
fact('eq', lambda s, t: [s == t, s is t, not (s != t)], lambda M, S, T: [S == T] * 3, two=True, weight=3)
fact('hash', lambda s, t: hash(s) == hash(t), lambda M, S, T: S == T, two=True)
fact('key', lambda s, t: len({s: 1, t: 2}), lambda M, S, T: 1 if S == T else 2, two=True)
fact('equals()', lambda s, t: s.equals(t), lambda M, S, T: S == T, two=True)
fact('inside()', lambda s, t: s.inside(t), lambda M, S, T: S <= T, two=True)
fact('select()', lambda s, t: blades(s.select(t)), lambda M, S, T: list(M.order(T)), two=True)
fact('restrict_subspace', lambda s, t: blades(s.restrict_subspace(t)), lambda M, S, T: list(M.order(S & T)), two=True)
fact('restrict()', lambda s, t: blades(s.restrict(t)), lambda M, S, T: list(M.order(S & T)), two=True)


def gr(T):
    return sorted({popcount(int(m)) for m in T}) or [0]


def by_grade(ns):
    def run(s, t):
        g = gr(t.blades)
        x = getattr(s, ns)
        return [blades(x[g]), blades(x[tuple(g)]), blades(x[g[0]]), blades(x[-1 - s.algebra.n_dimensions:g[0] + 1])]

    def model(M, S, T):
        g = gr(T)
        sets = [M.grades(g), M.grades(g), M.grades(g[:1]), M.grades(list(range(g[0] + 1)))]
        return [list(M.order(x if ns == 'select' else x & S)) for x in sets]
    fact(ns + '[]', run, model, two=True)


by_grade('select')
by_grade('restrict')
fact('len', lambda s, t: [len(s), bool(s.is_blade)], lambda M, S, T: [len(S), len(S) == 1])
fact('grades', lambda s, t: [int(g) for g in s.grades()], lambda M, S, T: [popcount(m) for m in M.order(S)])
fact('bit_blades', lambda s, t: np.asarray(s.bit_blades()).astype(int).tolist(),
     lambda M, S, T: [[m >> i & 1 for m in M.order(S)] for i in range(M.n)], nonempty=True)
fact('complement', lambda s, t: blades(s.complement()), lambda M, S, T: list(M.order({m ^ M.pss for m in S})))
fact('degenerate', lambda s, t: [blades(s.degenerate()), blades(s.nondegenerate())],
     lambda M, S, T: [list(M.order({m for m in S if m & M.degen})), list(M.order({m for m in S if not m & M.degen}))])
fact('scalar_degenerate', lambda s, t: blades(s.scalar_degenerate()), lambda M, S, T: list(M.order({m for m in S if m & M.degen} | {0})))
fact('is_degenerate', lambda s, t: bool(s.is_degenerate), lambda M, S, T: all(m & M.degen for m in S))
fact('is_degenerate_scalar', lambda s, t: bool(s.is_degenerate_scalar), lambda M, S, T: S == {m for m in S if m & M.degen} | {0})
fact('parity', lambda s, t: [bool(s.in_even), bool(s.in_odd), bool(s.is_even), bool(s.is_odd), bool(s.is_empty), bool(s.in_self_reverse)],
     lambda M, S, T: [S <= M.named('even_grade'), S <= M.named('odd_grade'), S == M.named('even_grade'), S == M.named('odd_grade'),
                      not S, S <= M.named('self_reverse')])
fact('slice', lambda s, t: blades(s.slice_subspace(s.to_relative_indices(np.array(blades(s)[::2], dtype=s.blades.dtype)))),
     lambda M, S, T: list(M.order(S))[::2], nonempty=True)
fact('indices', lambda s, t: [int(i) for i in s.union(t).to_relative_indices(t.blades)],
     lambda M, S, T: [list(M.order(S | T)).index(m) for m in M.order(T)], two=True, nonempty=True)
fact('algebra', None, None, weight=1)
fact('algebra complement', lambda s, t: np.asarray(s.algebra.complement(s.blades)).astype(int).tolist(), lambda M, S, T: [m ^ M.pss for m in M.order(S)], weight=.4)
fact('algebra signs', lambda s, t: [[int(x) for x in s.algebra.reverse(s.blades)], [int(x) for x in s.algebra.involute(s.blades)], [int(x) for x in s.algebra.grade(s.blades)]],
     lambda M, S, T: [[(-1) ** (popcount(m) // 2) for m in M.order(S)], [(-1) ** popcount(m) for m in M.order(S)], [popcount(m) for m in M.order(S)]], nonempty=True, weight=.5)
fact('algebra product', lambda s, t: [np.asarray(x).astype(int).tolist() for x in s.algebra.product(s.blades, t.blades)],
     lambda M, S, T: [[[a ^ b for b in M.order(T)] for a in M.order(S)], [[M.bprod(a, b)[0] for b in M.order(T)] for a in M.order(S)]], two=True, nonempty=True, weight=.6)
fact('bulk', None, lambda M, S, T: True, weight=.12)
fact('readonly', None, lambda M, S, T: True, weight=1.5)
# operator outputs
LIMIT[0] = 6
fact('product', lambda s, t: blades(s.product(t)), lambda M, S, T: list(M.order(M.prodspace(S, T))), two=True, nonempty=True, maxn=5)
fact('is_subalgebra', lambda s, t: bool(s.is_subalgebra), lambda M, S, T: M.prodspace(S, S) <= S, nonempty=True, maxn=4)
fact('minimal_subalgebra', lambda s, t: blades(s.minimal_subalgebra), lambda M, S, T: list(M.order(closure(M, S))), nonempty=True, maxn=4)
for _q, _k in QUAD.items():
    fact(_q, (lambda q: lambda s, t: blades(getattr(s, q)()))(_q), (lambda k: lambda M, S, T: list(M.order(sup(M, k, S))))(_k),
         nonempty=True, maxn=4, weight=.4)
BIN = ['wedge', 'inner', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product', 'pseudoscalar_negation_product', 'anti_reverse_product']
for _q in BIN:      # methods of the subspace
    fact('s.' + _q, (lambda q: lambda s, t: blades(getattr(s, q)(t)))(_q), (lambda q: lambda M, S, T: list(M.order(sup(M, 'b.' + q, S, T))))(_q),
         two=True, nonempty=True, maxn=5, weight=.2)
for _q in ['commutator', 'regressive', 'left_contract', 'right_contract', 'anti_wedge', 'cross_product', 'anti_product']:     # operators of the algebra by attribute
    fact('s.' + _q, (lambda q: lambda s, t: blades(getattr(s, q)(t).subspace))(_q),
         (lambda q: lambda M, S, T: list(M.order(sup(M, 'b.' + {'cross_product': 'cross'}.get(q, q), S, T))))(_q), two=True, nonempty=True, maxn=5, weight=.2)
fact('cubed', lambda s, t: blades(s.cubed()), lambda M, S, T: list(M.order(sup(M, 'q.cubed', S))), nonempty=True, maxn=4, weight=.3)
fact('reject', lambda s, t: blades(s.reject(t)), lambda M, S, T: list(M.order(sup(M, 'b.inner', sup(M, 'b.wedge', S, T), T))), two=True, nonempty=True, maxn=5, weight=.3)
fact('symmetric_alt_product', lambda s, t: blades(s.symmetric_alt_product()), lambda M, S, T: list(M.order(sup(M, 'q.inverse_factor_completed_alt', S))),
     nonempty=True, maxn=3, weight=.3)
fact('is_alt_n_simple', lambda s, t: bool(s.is_alt_n_simple(2)), lambda M, S, T: sup(M, 'q.inverse_factor_completed_alt', S) <= {0},
     nonempty=True, maxn=3, weight=.3)
for _q, _k in SIMPLE.items():
    fact(_q, (lambda q: lambda s, t: bool(getattr(s, q)(1)))(_q),
         (lambda k: lambda M, S, T: n_simple(M, sup(M, QUAD[k], S), 0))(_k), nonempty=True, maxn=4, weight=.3)
fact('is_n_simple', lambda s, t: [bool(s.is_n_simple(0)), bool(s.is_n_simple(1)), bool(s.is_n_simple(2))],
     lambda M, S, T: [n_simple(M, S, i) for i in (0, 1, 2)], nonempty=True, maxn=3, weight=.5)
fact('simplicity', lambda s, t: s.simplicity, lambda M, S, T: next((n for n in range(M.n // 2 + 2) if n_simple_c(M, S, n)), None),
     nonempty=True, maxn=4, weight=.8)
fact('minimal_exponential', lambda s, t: blades(s.minimal_exponential), lambda M, S, T: list(M.order(exp_closure(M, S))), maxn=4, weight=.6)
fact('is_study', lambda s, t: bool(s.is_study), lambda M, S, T: n_simple(M, sup(M, QUAD['symmetric_scalar_negation'], S), 0), nonempty=True, maxn=4)
# names as namespaces
fact('named', None, None, weight=3)
NS = ['inside', 'equals', 'select', 'restrict']


def many(alg, n, seed):
    """n subspaces of an algebra (of few blades each, in algebras of more than five dimensions), most of them distinct"""
    rs = np.random.RandomState(seed)
    out = []
    for _ in range(n):
        if alg.n_dimensions <= 5:
            b = np.flatnonzero(rs.randint(0, 2, alg.n_blades))
        else:
            b = np.unique(rs.randint(0, alg.n_blades, rs.randint(1, 6)))
        out.append(alg.subspace.from_blades(b))
    return out


def run(prog, o):
    ctx = prog.env.ctx(o['ctx'])
    names = ctx.algebra.description.basis_names
    s = nset(ctx.algebra, o['s'], names)
    if o['q'] == 'readonly':
        before = blades(s)
        with prog.sim.masked():
            try:
                s.blades[:1] = s.blades[:1] ^ 1
                ok = len(before) == 0
            except ValueError:
                ok = True
            arr = np.array(before[::-1], dtype=s.blades.dtype)
        r = ctx.algebra.subspace.from_blades(arr)
        with prog.sim.masked():
            arr[:] = 0          # the caller's own array stays the caller's
        return ok and blades(s) == before and blades(r) == before and r is s
    if o['q'] == 'bulk':        # many subspaces of one algebra, all of which stay what they are
        with prog.sim.masked(), prog.sim.quiet():
            ss = many(ctx.algebra, o['n'], o['seed'])
            same = all(a is b for a, b in zip(ss, many(ctx.algebra, o['n'], o['seed'])))
        return same and nset(ctx.algebra, o['s'], names) is s
    if o['q'] == 'algebra':
        A = ctx.algebra
        D = A.description
        return [len(A), A.n_dimensions, A.n_grades, A.n_blades, D.n_grades, D.n_blades, D.description_str, D.signature_str, D.pqr_str,
                [int(x) for x in D.pqr], [int(np.asarray(x)) for x in (A.positives, A.negatives, A.zeros)], A.pseudo_scalar_squared,
                [list(x) for x in (D.positives, D.negatives, D.zeros, D.all)], [list(D.parse_tokens(n + names[0])) for n in names],
                [[list(D.parse_tokens(n + m)), blades(getattr(A.subspace, n)), blades(getattr(A.subspace, n + m)) if n != m else None]
                 for n in sorted(names)[:4] for m in sorted(names)[:4]]]
    if o['q'] == 'named':
        r = getattr(getattr(s, o['ns']), o['nm'])()
        return r if isinstance(r, (bool, np.bool_)) else blades(r)
    t = nset(ctx.algebra, o['t'], names) if o.get('t') else None
    return FACTS[o['q']]['run'](s, t)


def answer(M, o):
    S = mset(M, o['s'])
    if o['q'] in ('readonly', 'bulk'):
        return True
    if o['q'] == 'algebra':
        c = [M.sig.count(x) for x in (1, -1, 0)]
        m = [[int(x == k) for x in M.sig] for k in (1, -1, 0)]
        ss = ''.join({1: '+', -1: '-', 0: '0'}[x] for x in M.sig)
        return [2 ** M.n, M.n, M.n + 1, 2 ** M.n, M.n + 1, 2 ** M.n, ''.join(n + x for n, x in zip(M.names, ss)), ss, ''.join(map(str, c)), c,
                [sum(x << i for i, x in enumerate(k)) for k in m], M.bprod(M.pss, M.pss)[0], m + [[1] * M.n], [[i, 0] for i in range(M.n)],
                [[[M.names.index(n), M.names.index(m)], [1 << M.names.index(n)], [1 << M.names.index(n) | 1 << M.names.index(m)] if n != m else None]
                 for n in sorted(M.names)[:4] for m in sorted(M.names)[:4]]]
    if o['q'] == 'named':
        N = M.named(o['nm'])
        return {'inside': lambda: S <= N, 'equals': lambda: S == N, 'select': lambda: list(M.order(N)),
                'restrict': lambda: list(M.order(S & N))}[o['ns']]()
    return FACTS[o['q']]['model'](M, S, mset(M, o['t']) if o.get('t') else None)


def judge(prog, o, value):
    M = prog.env.malg_of_ctx(o['ctx'])
    exp = answer(M, o)
    if value != exp:
        return f'{o["q"]}{" " + o["ns"] + "." + o["nm"] if "nm" in o else ""} of {o["s"]}{" and " + str(o["t"]) if o.get("t") else ""} ' \
               f'is {value}, expected {exp}'
    return None


program.KINDS['fact'] = (run, judge)


DEEP = ['simplicity', 'is_n_simple', 'minimal_subalgebra', 'minimal_exponential', 'is_study'] + list(SIMPLE)     # answered by many nested calls


def gen_fact(g, ctx, depth=1, among=None):
    rng = g.rng
    M = g.M(ctx)
    for _ in range(20):
        q = rng.choice(among) if among else rng.choices(list(FACTS), [f['weight'] for f in FACTS.values()])[0]
        f = FACTS[q]
        if M.n > f['maxn']:
            continue
        sub = (lambda: gen_sub(rng, M, depth)) if M.n <= 6 else (lambda: g.small_sub(M))
        s = sub()
        if mset(M, s) is None:
            continue
        o = {'k': 'fact', 'ctx': ctx, 'q': q, 's': s}
        if q == 'bulk':
            o['n'], o['seed'] = rng.choice([200, 1500, 1500, 3000]), rng.randrange(10 ** 6)
        if q == 'named':
            o['ns'], o['nm'] = rng.choice(NS), rng.choice(NAMES)
            if M.named(o['nm']) is None or o['nm'] == 'multivector' and o['ns'] in ('select', 'restrict'):
                continue
        elif f['two']:
            r = rng.random()
            t = s if r < .2 else sub()
            if .2 <= r < .45 and mset(M, s):      # same or neighbouring set through another route
                ms = list(mset(M, s))
                rng.shuffle(ms)
                if r < .32 and len(ms) > 1:
                    ms.pop()
                t = ['blades', ms]
            elif .45 <= r < .7 and M.n <= 6:        # a part, of any size, of a mixed set
                ms = list(mset(M, s)) if rng.random() < .4 else rng.sample(M.blades, rng.randint(1, min(len(M.blades), 9)))
                rng.shuffle(ms)
                s, t = ['blades', ms], ['blades', ms[:rng.randint(min(1, len(ms)), len(ms))]]
                if rng.random() < .6:
                    s, t = t, s
                o['s'] = s
            if mset(M, t) is None:
                continue
            o['t'] = t
            if f['nonempty'] and not mset(M, t):
                continue
        if f['nonempty'] and not mset(M, s):
            continue
        if q in ('minimal_subalgebra', 'is_subalgebra', 'product') and len(mset(M, s)) > 16:
            continue
        o['id'] = f'o{g.nop}'
        g.nop += 1
        return o
    return None
