"""Operation catalogue: for every public operation, how to run it on numga and what it must return.

A plan is plain JSON:
  algs:   [desc, ...]                                   (string or [p, q, r])
  ctxs:   [{alg, backend, otype, dtype, order}, ...]
  inputs: {id: {ctx, sub, shape, seed, layout}}
  threads: [[op, ...], ...]   op = {id, k: <name in OPS>, a: [operand ids], ...params}
Operand ids name inputs or earlier ops of the same thread.
"""
import numpy as np
from .model import MAlg, dense, popcount

# =============================================================================== subspace specs

def mset(M, spec):
    """blade set a spec denotes (None if it does not exist in this algebra)"""
    k = spec[0]
    if k == 'name':
        return M.named(spec[1])
    if k == 'k' or k == 'kref':
        if k == 'k':
            g = spec[1]
            return M.grades([g]) if -M.n - 1 <= g <= M.n else None
        s = frozenset([0])
        for _ in range(spec[1]):
            s = M.prodspace(s, M.grades([1]))
        return s
    if k == 'grades':
        return M.grades(spec[1])
    if k in ('blades', 'attr', 'bits', 'blade', 'slice'):
        return frozenset(spec[1])
    if k == 'ualgs':
        s = mset(M, spec[1])
        while True:
            t = s | M.prodspace(s, s)
            if t == s:
                return s
            s = t
    subs = [mset(M, s) for s in spec[1:]]
    if any(s is None for s in subs):
        return None
    if k == 'union':
        return subs[0] | subs[1]
    if k == 'inter':
        return subs[0] & subs[1]
    if k == 'diff':
        return subs[0] - subs[1]
    if k == 'restrict':
        return subs[0] & subs[1]
    if k == 'select':
        return subs[1]
    if k == 'prod':
        return M.prodspace(*subs)
    if k == 'wedge':
        return frozenset(a ^ b for a in subs[0] for b in subs[1] if not a & b)
    if k == 'inner':
        return frozenset(a ^ b for a in subs[0] for b in subs[1]
                         if not a & b & M.degen and (a & b) in (a, b))
    if k == 'compl':
        return frozenset(m ^ M.pss for m in subs[0])
    if k == 'nondeg':
        return frozenset(m for m in subs[0] if not m & M.degen)
    if k == 'deg':
        return frozenset(m for m in subs[0] if m & M.degen)
    if k == 'rev':
        return subs[0]
    raise KeyError(k)


def nset(alg, spec, names):
    """construct the spec on a numga algebra through the route the spec names"""
    F = alg.subspace
    k = spec[0]
    if k == 'name':
        return getattr(F, spec[1])()
    if k == 'k':
        return F.k_vector(spec[1])
    if k == 'kref':
        return F.k_reflection(spec[1])
    if k == 'grades':
        return F.from_grades(list(spec[1]))
    if k == 'blades':
        return F.from_blades(list(spec[1]))
    if k == 'blade':
        return F.blade(spec[1][0])
    if k == 'attr':
        rot = spec[2] if len(spec) > 2 else 0
        def nm(m):
            s = [n for i, n in enumerate(names) if m >> i & 1]
            r = rot % max(1, len(s))
            return ''.join(s[r:] + s[:r])
        return getattr(F, '_'.join(nm(m) for m in spec[1]))
    if k == 'bits':
        n = len(names)
        return F.from_bit_str(','.join(''.join(str(m >> i & 1) for i in range(n)) for m in spec[1]))
    if k == 'slice':
        full = F.full()
        return full.slice_subspace(full.to_relative_indices(np.array(spec[1], dtype=full.blades.dtype)))
    if k == 'ualgs':
        return nset(alg, spec[1], names).minimal_subalgebra
    subs = [nset(alg, s, names) for s in spec[1:]]
    a = subs[0]
    if k == 'union':
        return a.union(subs[1])
    if k == 'inter':
        return a.intersection(subs[1])
    if k == 'diff':
        return a.difference(subs[1])
    if k == 'restrict':
        return a.restrict(subs[1]) if False else a.restrict_subspace(subs[1])
    if k == 'select':
        return a.select_subspace(subs[1])
    if k == 'prod':
        return a.product(subs[1])
    if k == 'wedge':
        return a.wedge(subs[1])
    if k == 'inner':
        return a.inner(subs[1])
    if k == 'compl':
        return a.complement()
    if k == 'nondeg':
        return a.nondegenerate()
    if k == 'deg':
        return a.degenerate()
    if k == 'rev':
        return a.reverse().subspace
    raise KeyError(k)


NAMES = ['empty', 'scalar', 'pseudoscalar', 'vector', 'bivector', 'antivector', 'antibivector', 'trivector',
         'antitrivector', 'quadvector', 'antiquadvector', 'scalar_pseudoscalar', 'even_grade', 'odd_grade',
         'reflection', 'bireflection', 'trireflection', 'quadreflection', 'self_reverse', 'nonscalar',
         'multivector', 'full', 'motor', 'translator', 'rotor', 'mod4', 'degenerate', 'scalar_degenerate',
         'nondegenerate', 'antiscalar', 'self_involute']


def gen_leaf(rng, M, small=False):
    n = M.n
    r = rng.random()
    if r < .45:
        for _ in range(20):
            nm = rng.choice(NAMES)
            if nm in ('quadreflection', 'trireflection') and n > 6:
                continue
            s = M.named(nm)
            if s is not None:
                return ['name', nm]
    if r < .6:
        return ['k', rng.randint(-n - 1, n)]
    if r < .7:
        return ['grades', sorted(rng.sample(range(n + 1), rng.randint(1, min(3, n + 1))))]
    k = rng.randint(1, min(len(M.blades), 6))
    masks = rng.sample(M.blades, k)
    q = rng.random()
    if q < .4:
        return ['blades', masks]
    masks1 = [m for m in masks if m] or [1]
    if q < .7 and all(len(nm) == 1 for nm in M.names):
        return ['attr', masks1, rng.randint(0, 2)]
    if q < .85:
        return ['bits', masks]
    if q < .95:
        return ['slice', masks]
    return ['blade', masks[:1]]


def gen_sub(rng, M, depth=1):
    if depth > 0 and rng.random() < .35:
        k = rng.choice(['union', 'inter', 'diff', 'compl', 'nondeg', 'deg', 'rev', 'prod', 'wedge', 'inner', 'select',
                        'restrict', 'union', 'diff'])
        if k in ('compl', 'nondeg', 'deg', 'rev'):
            return [k, gen_sub(rng, M, depth - 1)]
        return [k, gen_sub(rng, M, depth - 1), gen_sub(rng, M, depth - 1)]
    return gen_leaf(rng, M)


# =============================================================================== inputs

def input_values(spec, M):
    """(ordered masks, integer float64 array shape+(n,)) of an input spec"""
    masks = M.order(mset(M, spec['sub']))
    rs = np.random.RandomState(spec['seed'])
    hi = spec.get('hi', 3)
    vals = rs.randint(-hi, hi + 1, size=tuple(spec['shape']) + (len(masks),)).astype(float)
    return masks, vals


def input_model(spec, M):
    masks, vals = input_values(spec, M)
    return {m: vals[..., i] for i, m in enumerate(masks)}


def layout_array(vals, layout):
    """the same numbers in a given memory layout / container"""
    if layout == 'list':
        return vals.tolist()
    if layout == 'int':
        return vals.astype(np.int64)
    if layout == 'F':
        return np.asfortranarray(vals)
    if layout == 'strided':
        big = np.full(vals.shape[:-1] + (2 * vals.shape[-1],), 7.0)
        big[..., ::2] = vals
        return big[..., ::2]
    if layout == 'rev':
        return np.ascontiguousarray(vals[..., ::-1])[..., ::-1]
    return vals.copy()


# =============================================================================== operations
OPS = {}


class OpDef:
    def __init__(self, name, arity, run, model, pre=None, tags=(), cost=None, weight=1.0, params=None):
        self.name, self.arity, self.run, self.model = name, arity, run, model
        self.pre, self.tags, self.cost, self.weight, self.params = pre, frozenset(tags), cost, weight, params


def op(name, arity, run, model, **kw):
    OPS[name] = OpDef(name, arity, run, model, **kw)


def _m(name):
    return lambda e, o, *a: getattr(a[0], name)(*a[1:])


def _f(name, rep=None):
    """direct use of the context's operator factory; rep lists operand index per operator argument"""
    def run(e, o, *a):
        fn = getattr(a[0].context.operator, name)
        f = fn(*(x.subspace for x in a))
        return f(*(a[i] for i in rep)) if rep else f(*a)
    return run


NONEMPTY = lambda M, *s: all(len(x) for x in s)

# --- unary -------------------------------------------------------------------------------------
for nm, mm in [('dual', 'dual'), ('dual_inverse', 'dual_inverse'), ('reverse', 'reverse'), ('involute', 'involute'),
               ('conjugate', 'conjugate'), ('study_conjugate', 'study_conjugate'), ('scalar_negation', 'scalar_negation'),
               ('pseudoscalar_negation', 'pseudoscalar_negation')]:
    op('u.' + nm, 1, _m(nm), (lambda mm: lambda M, o, A: getattr(M, mm)(A))(mm), pre=NONEMPTY, tags=('core', 'lin'))
op('u.invert', 1, lambda e, o, a: ~a, lambda M, o, A: M.reverse(A), pre=NONEMPTY, tags=('core', 'lin'))
op('u.neg', 1, lambda e, o, a: -a, lambda M, o, A: M.neg(A), tags=('arr', 'lin', 'keepsub'))
op('u.degenerate', 1, _m('degenerate'), lambda M, o, A: {m: v for m, v in A.items() if m & M.degen},
   pre=NONEMPTY, tags=('core', 'lin'))
op('u.nondegenerate', 1, _m('nondegenerate'), lambda M, o, A: {m: v for m, v in A.items() if not m & M.degen},
   pre=NONEMPTY, tags=('core', 'lin'))
for nm in ['left_hodge', 'left_hodge_inverse', 'left_complement', 'right_complement', 'right_complement_dual',
           'left_complement_dual']:
    op('f.' + nm, 1, _f(nm), (lambda mm: lambda M, o, A: getattr(M, mm)(A))(nm), pre=NONEMPTY, tags=('core', 'lin'))
op('f.identity', 1, _f('identity'), lambda M, o, A: dict(A), pre=NONEMPTY, tags=('core', 'lin'))

# --- quadratic and cubic forms of one argument ----------------------------------------------------
for nm in ['squared', 'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product',
           'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product']:
    mm = {'squared': 'mul'}.get(nm, nm.replace('symmetric_', ''))
    op('q.' + nm, 1, _m(nm), (lambda mm: lambda M, o, A: getattr(M, mm)(A, A))(mm),
       pre=NONEMPTY, tags=('core', 'sym'), cost=lambda M, a: a * a * len(M.blades))
op('q.inverse_factor', 1, _m('inverse_factor'), lambda M, o, A: M.inverse_factor(A), pre=NONEMPTY, tags=('core', 'sym', 'cubic'),
   cost=lambda M, a: a ** 3 * len(M.blades), weight=.5)
op('q.inverse_factor_alt', 1, _f('inverse_factor_alt', (0, 0, 0)), lambda M, o, A: M.inverse_factor_alt(A), pre=NONEMPTY,
   tags=('core', 'sym', 'cubic'), cost=lambda M, a: a ** 3 * len(M.blades), weight=.3)
op('q.cubed', 1, _f('cubed', (0, 0, 0)), lambda M, o, A: M.cubed(A), pre=NONEMPTY, tags=('core', 'sym', 'cubic'),
   cost=lambda M, a: a ** 3 * len(M.blades), weight=.5)
op('q.study_norm_squared', 1, _f('study_norm_squared', (0, 0)), lambda M, o, A: M.study_norm_squared(A), pre=NONEMPTY,
   tags=('core',), cost=lambda M, a: a * a * len(M.blades), weight=.3)
op('q.euclidian_factorization', 1, _f('euclidian_factorization', (0, 0)), lambda M, o, A: M.euclidian_factorization(A),
   pre=lambda M, s: len(s) > 0 and M.n >= 2, tags=('core', 'sym'), cost=lambda M, a: a * a * len(M.blades), weight=.3)

# --- binary --------------------------------------------------------------------------------------
_bc = lambda M, a, b: a * b * len(M.blades)
for nm, mm in [('product', 'mul'), ('wedge', 'wedge'), ('outer', 'wedge'), ('inner', 'inner'), ('scalar_product', 'scalar_product'),
               ('left_contract', 'left_contract'), ('right_contract', 'right_contract'), ('regressive', 'regressive'),
               ('anti_product', 'anti_product'), ('anti_wedge', 'anti_wedge'), ('anti_inner', 'anti_inner'),
               ('cross', 'cross'), ('commutator', 'commutator'), ('commutator_product', 'commutator'),
               ('anti_commutator', 'anti_commutator'), ('anti_commutator_product', 'anti_commutator'),
               ('commutator_anti', 'commutator_anti'), ('commutator_anti_product', 'commutator_anti'),
               ('anti_commutator_anti', 'anti_commutator_anti'), ('anti_commutator_anti_product', 'anti_commutator_anti'),
               ('reverse_product', 'reverse_product'), ('involute_product', 'involute_product'),
               ('conjugate_product', 'conjugate_product'), ('scalar_negation_product', 'scalar_negation_product'),
               ('pseudoscalar_negation_product', 'pseudoscalar_negation_product'), ('anti_reverse_product', 'anti_reverse_product')]:
    w = 2.0 if nm in ('product', 'wedge', 'inner', 'regressive', 'commutator') else .6
    op('b.' + nm, 2, _m(nm), (lambda mm: lambda M, o, A, B: getattr(M, mm)(A, B))(mm), pre=NONEMPTY, tags=('core', 'bil'),
       cost=_bc, weight=w)
for nm, mm in [('left_interior', 'left_interior'), ('right_interior', 'right_interior'), ('anti_scalar', 'anti_scalar_product'),
               ('anti_left_interior', 'anti_left_interior'), ('anti_right_interior', 'anti_right_interior')]:
    op('f.' + nm, 2, _f(nm), (lambda mm: lambda M, o, A, B: getattr(M, mm)(A, B))(mm), pre=NONEMPTY, tags=('core', 'bil'),
       cost=_bc, weight=.4)
# the other names of the same products, through the factory of the context or that of the algebra
ALIAS2 = {'mul': ['gp', 'geometric_product', 'product'], 'wedge': ['op', 'outer', 'outer_product', 'wedge_product'], 'inner': ['ip', 'inner_product'],
          'scalar_product': ['sp', 'dp', 'dot', 'scalar', 'dot_product'], 'left_contract': ['lc', 'left_contraction_product'],
          'right_contract': ['rc', 'right_contraction_product'], 'left_interior': ['lip', 'left_interior_product'],
          'right_interior': ['rip', 'right_interior_product'], 'anti_product': ['agp', 'anti_geometric_product'],
          'anti_wedge': ['aop', 'anti_outer', 'anti_outer_product', 'anti_wedge_product'], 'anti_inner': ['aip', 'anti_inner_product'],
          'anti_scalar_product': ['asp', 'adp', 'anti_dot', 'anti_dot_product', 'anti_scalar_product'],
          'anti_left_interior': ['alip', 'anti_left_interior_product'], 'anti_right_interior': ['arip', 'anti_right_interior_product'],
          'regressive': ['rp', 'regressive_product'], 'cross': ['cross_product'], 'study_conjugate_product': ['study_conjugate_product']}
ALIAS1 = {'dual': ['right_hodge', 'dual'], 'dual_inverse': ['right_hodge_inverse', 'dual_inverse'], 'right_hodge': ['right_hodge'],
          'study_conjugate': ['study_conjugate'], 'left_hodge': ['left_hodge'], 'left_hodge_inverse': ['left_hodge_inverse']}
ALIAS_OF = {n: m for d in (ALIAS2, ALIAS1) for m, ns in d.items() for n in ns}


def _alias(e, o, *a):
    if o['via']:
        return a[0].context.operator(getattr(a[0].algebra.operator, o['nm'])(*(x.subspace for x in a)))(*a)
    return getattr(a[0].context.operator, o['nm'])(*(x.subspace for x in a))(*a)


def _alias_par(table):
    names = sorted(n for ns in table.values() for n in ns)
    return lambda rng: {'nm': rng.choice(names), 'via': rng.randrange(2)}


op('f.alias2', 2, _alias, lambda M, o, A, B: getattr(M, ALIAS_OF[o['nm']])(A, B), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc, weight=2.5,
   params=_alias_par(ALIAS2))
op('f.alias1', 1, _alias, lambda M, o, A: getattr(M, ALIAS_OF[o['nm']])(A), pre=NONEMPTY, tags=('core', 'lin'), weight=.5, params=_alias_par(ALIAS1))
op('f.n_product', 2, lambda e, o, a, b: a.context.operator.n_product(a.subspace, b.subspace, e.sub(a, o['s']))(a, b),
   lambda M, o, A, B: M.n_product(A, B, mset(M, o['s'])), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc, weight=.5, params='sub')
op('q.symmetric_study_conjugate_product', 1, _f('symmetric_study_conjugate_product', (0, 0)), lambda M, o, A: M.study_conjugate_product(A, A), pre=NONEMPTY,
   tags=('core', 'sym'), cost=lambda M, a: a * a * len(M.blades), weight=.3)
for nm in ['inverse_factor_completed', 'inverse_factor_completed_alt']:
    op('q.' + nm, 1, _f(nm, (0, 0, 0, 0)), (lambda mm: lambda M, o, A: getattr(M, mm)(A))(nm), pre=NONEMPTY, tags=('core', 'sym', 'cubic', 'quartic'),
       cost=lambda M, a: a ** 4 * len(M.blades), weight=.3)
op('u.pos', 1, lambda e, o, a: +a, lambda M, o, A: dict(A), tags=('core', 'lin', 'keepsub'), weight=.5)
op('b.bivector_product', 2, _m('bivector_product'), lambda M, o, A, B: M.n_product(A, B, M.grades([2])), pre=lambda M, *s: NONEMPTY(M, *s) and M.n >= 2,
   tags=('core', 'bil', 'n2'), cost=_bc)
op('b.trivector_product', 2, _m('trivector_product'), lambda M, o, A, B: M.n_product(A, B, M.grades([3])),
   pre=lambda M, *s: NONEMPTY(M, *s) and M.n >= 3, tags=('core', 'bil', 'n2'), cost=_bc, weight=.5)
op('s.mul', 2, lambda e, o, a, b: a * b, lambda M, o, A, B: M.mul(A, B), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc)
op('s.xor', 2, lambda e, o, a, b: a ^ b, lambda M, o, A, B: M.wedge(A, B), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc)
op('s.and', 2, lambda e, o, a, b: a & b, lambda M, o, A, B: M.regressive(A, B), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc)
op('s.or', 2, lambda e, o, a, b: a | b, lambda M, o, A, B: M.inner(A, B), pre=NONEMPTY, tags=('core', 'bil'), cost=_bc)
op('s.add', 2, lambda e, o, a, b: a + b, lambda M, o, A, B: M.add(A, B), tags=('arr', 'sum'), weight=1.5)
op('s.sub', 2, lambda e, o, a, b: a - b, lambda M, o, A, B: M.add(A, B, -1), tags=('arr', 'sum'), weight=1.5)

# --- with scalars ---------------------------------------------------------------------------------
_sc = lambda rng: {'c': rng.choice([-3, -2, 2, 3, 5, 0, 1, -1, .5, -1.5, 2.5]), 'ck': rng.choice(['', '', '', 'float', 'np'])}
_scd = lambda rng: {'c': rng.choice([-6, -4, 4, 6, 10, 2, -2, .5, -.25]), 'ck': rng.choice(['', '', '', 'float', 'np'])}
_sca = lambda rng, shape, bk: {'cs': rng.randrange(1000), 'sh': list(shape)}


def _num(o):
    """the plain number, as an int, a float, or a scalar of numpy"""
    c, k = o['c'], o.get('ck')
    return float(c) if k == 'float' else np.float64(c) if k == 'np' else c


def _lanes(o):
    """an array of plain numbers, one per element of the batch"""
    return np.random.RandomState(o['cs']).choice([-2., -1., .5, 1., 2., 3.], size=tuple(o['sh']))


op('c.rmul', 1, lambda e, o, a: o['c'] * a, lambda M, o, A: M.scale(A, o['c']), pre=NONEMPTY, tags=('arr', 'lin', 'keepsub'), params=_sc, cost=lambda M, a: a * len(M.blades))
op('c.mul', 1, lambda e, o, a: a * _num(o), lambda M, o, A: M.scale(A, o['c']), pre=NONEMPTY, tags=('arr', 'lin', 'keepsub'), params=_sc, cost=lambda M, a: a * len(M.blades))
op('c.add', 1, lambda e, o, a: a + _num(o), lambda M, o, A: M.add(A, {0: float(o['c'])}), tags=('arr', 'addc'), params=_sc)
op('c.radd', 1, lambda e, o, a: o['c'] + a, lambda M, o, A: M.add(A, {0: float(o['c'])}), tags=('arr', 'addc'), params=_sc)
op('c.sub', 1, lambda e, o, a: a - _num(o), lambda M, o, A: M.add(A, {0: float(o['c'])}, -1), tags=('arr', 'addc'), params=_sc)
op('c.rsub', 1, lambda e, o, a: o['c'] - a, lambda M, o, A: M.add({0: float(o['c'])}, A, -1), tags=('arr', 'addc'), params=_sc)
op('c.div', 1, lambda e, o, a: a / _num(o), lambda M, o, A: M.scale(A, 1 / o['c']), tags=('arr', 'lin', 'keepsub'), params=_scd)
op('c.mula', 1, lambda e, o, a: a * _lanes(o), lambda M, o, A: {m: v * _lanes(o) for m, v in A.items()}, pre=NONEMPTY,
   tags=('npj', 'notorch', 'lin', 'keepsub', 'shp'), params=_sca, cost=lambda M, a: a * len(M.blades))
op('c.diva', 1, lambda e, o, a: a / _lanes(o), lambda M, o, A: {m: v / _lanes(o) for m, v in A.items()}, pre=NONEMPTY,
   tags=('npj', 'notorch', 'lin', 'keepsub', 'shp'), params=_sca, cost=lambda M, a: a * len(M.blades))
# the builtin sum starts from the plain number zero
op('s.sum3', 2, lambda e, o, a, b: sum([a, b, a]), lambda M, o, A, B: M.add(M.add(A, B), A), tags=('arr', 'sum0'), weight=.5)

# --- ternary -------------------------------------------------------------------------------------
_tc = lambda M, R, v: R * R * v * len(M.blades)
for nm in ['sandwich', 'reverse_sandwich', 'full_sandwich']:
    op('t.' + nm, 2, _m(nm), (lambda mm: lambda M, o, A, B: getattr(M, mm)(A, B))(nm), pre=NONEMPTY,
       tags=('core', 'sym', 'cubic', 'inputs'), cost=_tc)
op('t.rshift', 2, lambda e, o, a, b: a >> b, lambda M, o, A, B: M.sandwich(A, B), pre=NONEMPTY, tags=('core', 'sym', 'cubic', 'inputs'), cost=_tc)
op('t.lshift', 2, lambda e, o, a, b: a << b, lambda M, o, A, B: M.reverse_sandwich(A, B), pre=NONEMPTY, tags=('core', 'sym', 'cubic', 'inputs'), cost=_tc)
op('t.transform', 2, _m('transform'), lambda M, o, A, B: M.transform(A, B),
   pre=lambda M, R, v: len(R) and len(v) and len({popcount(m) & 1 for m in R}) == 1,
   tags=('core', 'sym', 'cubic', 'inputs'), cost=_tc, weight=.5)
op('t.inertia', 2, _f('inertia', (0, 0, 1)), lambda M, o, A, B: M.inertia(A, B), pre=NONEMPTY, tags=('core', 'sym', 'cubic', 'inputs'), cost=_tc)

# --- selection -----------------------------------------------------------------------------------
def _selgrades(rng, M=None):
    return {}


op('sel.grades', 1, lambda e, o, a: a.select[tuple(o['g'])] if len(o['g']) > 1 else a.select[o['g'][0]],
   lambda M, o, A: M.grade(A, set(o['g'])), tags=('core', 'lin', 'selg'), params='grades')
op('res.grades', 1, lambda e, o, a: a.restrict[tuple(o['g'])] if len(o['g']) > 1 else a.restrict[o['g'][0]],
   lambda M, o, A: M.grade(A, set(o['g'])), tags=('core', 'lin', 'resg'), params='grades')
op('sel.sub', 1, lambda e, o, a: a.select_subspace(e.sub(a, o['s'])), lambda M, o, A: M.keep(A, mset(M, o['s'])),
   tags=('core', 'lin', 'sels'), params='sub')
op('res.sub', 1, lambda e, o, a: a.restrict_subspace(e.sub(a, o['s'])), lambda M, o, A: M.keep(A, mset(M, o['s'])),
   tags=('core', 'lin', 'ress'), params='sub')
op('sel.name', 1, lambda e, o, a: getattr(a.select, o['nm'])(), lambda M, o, A: M.keep(A, M.named(o['nm'])),
   tags=('core', 'lin', 'seln'), params='name')
op('res.name', 1, lambda e, o, a: getattr(a.restrict, o['nm'])(), lambda M, o, A: M.keep(A, M.named(o['nm'])),
   tags=('core', 'lin', 'resn'), params='name')
op('sel.grade', 1, lambda e, o, a: a.select_grade(o['g'][0]), lambda M, o, A: M.grade(A, {o['g'][0]}), tags=('core', 'lin', 'selg'), params='grade1')
op('res.grade', 1, lambda e, o, a: a.restrict_grade(o['g'][0]), lambda M, o, A: M.grade(A, {o['g'][0]}), tags=('core', 'lin', 'resg'), params='grade1')

# --- partial application ----------------------------------------------------------------------------
op('p.sandwich_map', 2, lambda e, o, a, b: a.sandwich_map(b.subspace)(b), lambda M, o, A, B: M.sandwich(A, B), pre=NONEMPTY,
   tags=('part', 'sym', 'cubic', 'inputs'), cost=_tc)
op('p.inertia_map', 2, lambda e, o, a, b: a.inertia_map(b.subspace)(b), lambda M, o, A, B: M.inertia(A, B), pre=NONEMPTY,
   tags=('part', 'sym', 'cubic', 'inputs'), cost=_tc)


def _partial_run(e, o, *a):
    """bind the arguments of an operator in the order o['ord'], in one or several stages"""
    ops = a[0].context.operator
    nm = o['op']
    f = getattr(ops, nm)(*(x.subspace for x in a[:2]))
    args = list(a) if nm in BIN_PART else [a[0], a[1], a[0]]
    if nm == 'inertia':
        args = [a[0], a[0], a[1]]
    left = list(range(len(args)))
    order = list(o['ord'])
    for stage in o['stages']:
        bind = order[:stage]
        order = order[stage:]
        if len(bind) == len(left):
            f = f(*(args[i] for i in left))
            left = []
        else:
            f = f.partial({left.index(i): args[i] for i in bind})
            left = [i for i in left if i not in bind]
    if left:
        f = f(*(args[i] for i in left))
    return f


CHURN2 = {'sandwich_map': ('sandwich', lambda y, b: y.sandwich_map(b.subspace)(b)), 'inertia_map': ('inertia', lambda y, b: y.inertia_map(b.subspace)(b)),
          'sandwich': ('sandwich', lambda y, b: y.sandwich(b))}
CHURN1 = {'product': ('mul', lambda y, b: y * b), 'wedge': ('wedge', lambda y, b: y ^ b),
          'bound product': ('mul', lambda y, b: y.operator.product(y.subspace, b.subspace).partial({0: y})(b)),
          'bound wedge': ('wedge', lambda y, b: y.operator.wedge(y.subspace, b.subspace).partial({0: y})(b))}


def _churn(fs):
    def run(e, o, a, b):
        """operands that live for one call each, one after the other"""
        r = None
        for c in o['by']:
            y = a.context.multivector(a.subspace, a.values * c)
            s = fs[o['op']][1](y, b)
            del y
            r = s if r is None else r + s
        return r
    return run


def _churn_par(fs):
    return lambda rng: {'op': rng.choice(sorted(fs)), 'by': [rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 3, 4]))]}


op('p.churn1', 2, _churn(CHURN1), lambda M, o, A, B: M.scale(getattr(M, CHURN1[o['op']][0])(A, B), sum(o['by'])), pre=NONEMPTY,
   tags=('part', 'bil'), cost=_bc, weight=.4, params=_churn_par(CHURN1))
op('p.churn2', 2, _churn(CHURN2), lambda M, o, A, B: M.scale(getattr(M, CHURN2[o['op']][0])(A, B), sum(c * c for c in o['by'])), pre=NONEMPTY,
   tags=('part', 'sym', 'cubic', 'inputs'), cost=_tc, weight=.6, params=_churn_par(CHURN2))


BIN_PART = {'product': 'mul', 'wedge': 'wedge', 'inner': 'inner', 'regressive': 'regressive', 'anti_product': 'anti_product',
            'scalar_product': 'scalar_product', 'commutator': 'commutator', 'left_contract': 'left_contract',
            'reverse_product': 'reverse_product'}
TER_PART = {'sandwich': 'sandwich', 'full_sandwich': 'full_sandwich', 'inertia': 'inertia', 'reverse_sandwich': 'reverse_sandwich'}


def _partial_model(M, o, A, B):
    return getattr(M, {**BIN_PART, **TER_PART}[o['op']])(A, B)


def _partial_params_bin(rng):
    ordr = rng.choice([[0, 1], [1, 0]])
    return {'op': rng.choice(sorted(BIN_PART)), 'ord': ordr, 'stages': rng.choice([[1], [1, 1], [2]])}


def _partial_params_ter(rng):
    ordr = [0, 1, 2]
    rng.shuffle(ordr)
    return {'op': rng.choice(sorted(TER_PART)), 'ord': ordr, 'stages': rng.choice([[1], [2], [1, 1], [1, 1, 1], [2, 1], [1, 2]])}


op('p.bin', 2, _partial_run, _partial_model, pre=NONEMPTY, tags=('part', 'bil'), cost=_bc, params=_partial_params_bin, weight=2)
op('p.ter', 2, _partial_run, _partial_model, pre=NONEMPTY, tags=('part', 'sym', 'cubic', 'inputs'), cost=_tc, params=_partial_params_ter, weight=2)

# --- structural (array backends) ---------------------------------------------------------------------
op('x.copy', 1, lambda e, o, a: a.copy(), lambda M, o, A: dict(A), tags=('npj', 'keepsub'))
op('x.getitem', 1, lambda e, o, a: a[o['i']], lambda M, o, A: {m: v[o['i']] for m, v in A.items()},
   tags=('npj', 'keepsub', 'idx'), params='idx')


def _dynget(e, o, a):
    """the index is itself a value of the backend (traced, when the operand is)"""
    z = a.values.ravel()[0] > a.values.ravel()[0]
    if hasattr(z, 'long'):
        return a[z.long() + o['i']]
    return a[z.astype(np.int32) + o['i']]


op('x.dynget', 1, _dynget, lambda M, o, A: {m: v[o['i']] for m, v in A.items()}, pre=NONEMPTY,
   tags=('npj', 'keepsub', 'idx'), params='idx', weight=.7)
op('x.atset', 2, lambda e, o, a, b: a.at[o['i']].set(b[o['i']]),
   lambda M, o, A, B: _atset(A, o['i'], B), tags=('npj', 'keepsub', 'idx', 'samesub'), params='idx')
op('x.concat', 2, lambda e, o, a, b: a.concatenate(b, axis=0),
   lambda M, o, A, B: _concat(A, B), tags=('npj', 'keepsub', 'batch1', 'samesub', 'reshape'))
op('x.sum', 1, lambda e, o, a: a.sum(0), lambda M, o, A: {m: v.sum(0) for m, v in A.items()}, tags=('npj', 'keepsub', 'batch1', 'reshape'))


# the batch in another shape: one function for an array of batch elements
def _einops(f, o, v):
    import einops
    return getattr(einops, f)(np.asarray(v), ' -> '.join(' '.join(x) for x in o['pat']))


def _take(o, v):
    v = np.asarray(v)
    return np.take_along_axis(v, np.broadcast_to(_pick(o), v.shape[:o['ax']] + (len(o['take']),) + v.shape[o['ax'] + 1:]), o['ax'])


def _pick(o):
    """indices along one axis (the same ones for every other axis)"""
    return np.array(o['take']).reshape([-1 if i == o['ax'] else 1 for i in range(o['nd'])])


RESHAPE = {'x.rearrange': lambda o, v: _einops('rearrange', o, v), 'x.repeat': lambda o, v: np.repeat(np.asarray(v)[..., None], 3, -1) if o['end'] else
           np.repeat(np.asarray(v)[None], 3, 0), 'x.reshape': lambda o, v: np.asarray(v).reshape(o['to']), 'x.take': _take}


def _index(o, bk='numpy'):
    """the index a caller writes: integers, slices, lists, masks, new axes, alone or several"""
    out = []
    for k, *x in o['idx']:
        if k in 'lm':
            x = x[0] if o.get('raw') and bk != 'jax' else np.array(x[0], dtype=bool if k == 'm' else int)
        elif k == 'i':
            x = np.int64(x[0]) if o.get('raw') and bk == 'numpy' else x[0]
        else:
            x = slice(*x) if k == 's' else None
        out.append(x)
    return out[0] if len(out) == 1 and not o['tup'] else tuple(out)


def _par_index(rng, shape, bk, new=True):
    nd = len(shape)

    def sl(n):
        return ['s', rng.choice([None, 0, rng.randrange(n), -rng.randint(1, n)]), None, rng.choice([None, 1, 2])] if rng.random() < .6 else ['s', None, rng.randint(1, n), None]
    r = rng.random()
    n = shape[0]
    if r < .2:
        idx = [sl(n)]
    elif r < .4:
        k = rng.choice([1, 2, n])
        idx = [['l', [rng.randrange(-n, n) for _ in range(k)] if new else rng.sample(range(n), min(n, k))]]
    elif r < .5:
        m = [rng.random() < .6 for _ in range(n)]
        m[rng.randrange(n)] = True
        idx = [['m', m]]
    elif r < .6 and new:
        idx = [['n']]
    elif r < .8:
        k = rng.randint(1, nd)
        idx = [['i', rng.randrange(-shape[j], shape[j])] if rng.random() < .6 else sl(shape[j]) for j in range(k)]
    else:
        k = rng.randint(1, nd)
        at = rng.randrange(k)
        idx = [['s', None, None, None] for _ in range(k)]
        idx[at] = ['l', rng.sample(range(shape[at]), rng.randint(1, shape[at]))]
    return {'idx': idx, 'tup': len(idx) > 1 or rng.random() < .2, 'raw': rng.random() < .5}


def _bk(a):
    return a.context.__class__.__name__[:-7].lower()


def _atindex_model(M, o, A, B):
    A, B = _full(A, B)
    i = _index(o)
    out = {}
    for m, v in A.items():
        out[m] = v.copy()
        out[m][i] = B[m][i]
    return out


def _par_axis(rng, shape, bk):
    return {'ax': rng.randrange(len(shape))}


RESHAPE['x.index'] = lambda o, v: np.asarray(v)[_index(o)]


def _par_rearrange(rng, shape, bk):
    ax = list('abcd'[:len(shape)])
    out = list(ax)
    rng.shuffle(out)
    if len(ax) > 1 and rng.random() < .4:
        i = rng.randrange(len(ax) - 1)
        out[i:i + 2] = ['(' + ' '.join(out[i:i + 2]) + ')']
    if rng.random() < .3:
        out.insert(rng.randint(0, len(out)), '1')
    return {'pat': [ax, out]}


def _par_reshape(rng, shape, bk):
    n = int(np.prod(shape))
    f = [[n], [-1], [1, n], [n, 1], list(shape) + [1], list(shape[::-1])] + [[2, n // 2], [-1, 2]] * (n % 2 == 0)
    return {'to': rng.choice(f), 'flat': rng.choice([0, 0, 1])}


def _par_take(rng, shape, bk):
    ax = rng.randrange(len(shape))
    return {'ax': ax, 'nd': len(shape), 'take': [rng.randrange(shape[ax]) for _ in range(rng.choice([1, shape[ax], shape[ax] + 1]))]}


def _run_rearrange(e, o, a):
    return a.rearrange(' '.join(o['pat'][0] + ['n']) + ' -> ' + ' '.join(o['pat'][1] + ['n']))


def _run_reshape(e, o, a):
    if o['flat'] and o['to'] == [-1]:
        return a.flatten()
    to = list(o['to'])
    if -1 in to and not len(a.subspace):   # without components numpy cannot tell what -1 stands for: the caller says it
        to[to.index(-1)] = int(np.prod(a.shape)) // int(np.prod([t for t in to if t != -1]))
    return a.reshape(tuple(to))


def _run_take(e, o, a):
    i = _pick(o)
    if a.context.__class__.__name__.startswith('Torch'):
        import torch
        i = torch.as_tensor(i)
    return a.take_along_axis(i, o['ax'])


for nm, run, par, more in [
        ('x.rearrange', _run_rearrange, _par_rearrange, ()),
        ('x.repeat', lambda e, o, a: a.repeat('... n -> ... k n' if o['end'] else '... n -> k ... n', k=3), lambda rng, shape, bk: {'end': rng.randrange(2)}, ()),
        ('x.reshape', _run_reshape, _par_reshape, ('nponly',)),
        ('x.index', lambda e, o, a: a[_index(o, _bk(a))], _par_index, ()),
        ('x.take', _run_take, _par_take, ())]:
    op(nm, 1, run, (lambda nm: lambda M, o, A: {m: RESHAPE[nm](o, v) for m, v in A.items()})(nm), tags=('npj', 'keepsub', 'batch1', 'reshape', 'shp') + more,
       params=par, weight=.5)
op('x.mean', 1, lambda e, o, a: a.mean(0), lambda M, o, A: {m: v.mean(0) for m, v in A.items()}, tags=('npj', 'keepsub', 'batch1', 'reshape'), weight=.5)

op('x.atindex', 2, lambda e, o, a, b: a.at[_index(o, _bk(a))].set(b[_index(o, _bk(a))] if o['raw'] else b[_index(o, _bk(a))].values), _atindex_model,
   tags=('npj', 'keepsub', 'batch1', 'samesub', 'shp'), params=lambda rng, shape, bk: _par_index(rng, shape, bk, new=False), weight=.5)
op('x.concatax', 2, lambda e, o, a, b: a.concatenate(b, axis=o['ax']), lambda M, o, A, B: _concat(A, B, o['ax']),
   tags=('npj', 'keepsub', 'batch1', 'samesub', 'reshape', 'shp'), params=_par_axis, weight=.5)
op('x.sumax', 1, lambda e, o, a: a.sum(o['ax']), lambda M, o, A: {m: v.sum(o['ax']) for m, v in A.items()}, tags=('npj', 'keepsub', 'batch1', 'reshape', 'shp'),
   params=_par_axis, weight=.4)
op('x.meanax', 1, lambda e, o, a: a.mean(o['ax']), lambda M, o, A: {m: v.mean(o['ax']) for m, v in A.items()}, tags=('npj', 'keepsub', 'batch1', 'reshape', 'shp'),
   params=_par_axis, weight=.3)


# --- partially bound operators with a batch of their own --------------------------------------------
def _lane0(A, i):
    return {m: np.asarray(v)[i] for m, v in A.items()}


def _map_of(o, a, b):
    return a.sandwich_map(b.subspace) if o['op'] == 'sandwich' else a.inertia_map(b.subspace)


def _map_atset(e, o, a, b):
    m = _map_of(o, a, b)
    return m.at[o['i']].set(m.kernel[-1])(b)


def _map_atset_model(M, o, A, B):
    A = {m: np.asarray(v).copy() for m, v in A.items()}
    for v in A.values():
        v[o['i']] = v[-1]
    return getattr(M, o['op'])(A, B)


def _map_sum_model(M, o, A, B):
    n = len(next(iter(A.values()))) if A else 0
    out = {}
    for i in range(n):
        out = M.add(out, getattr(M, o['op'])(_lane0(A, i), B))
    return out


_mp = lambda rng: {'op': rng.choice(['sandwich', 'inertia'])}
op('m.getitem', 2, lambda e, o, a, b: _map_of(o, a, b)[o['i']](b), lambda M, o, A, B: getattr(M, o['op'])(_lane0(A, o['i']) if np.ndim(next(iter(A.values()))) else A, B),
   pre=NONEMPTY, tags=('part', 'npj', 'sym', 'cubic', 'inputs', 'idx', 'bscalar'), cost=_tc, params=_mp)
op('m.atset', 2, _map_atset, _map_atset_model, pre=NONEMPTY, tags=('part', 'npj', 'sym', 'cubic', 'inputs', 'idx', 'bscalar'), cost=_tc, params=_mp)
op('m.sum', 2, lambda e, o, a, b: _map_of(o, a, b).sum(0)(b), _map_sum_model, pre=NONEMPTY,
   tags=('part', 'npj', 'sym', 'cubic', 'inputs', 'batch1', 'bscalar'), cost=_tc, params=_mp)
op('m.concat', 2, lambda e, o, a, b: (lambda m: m.concatenate(m, axis=0)(b))(_map_of(o, a, b)),
   lambda M, o, A, B: getattr(M, o['op'])({m: np.concatenate([v, v]) for m, v in A.items()}, B), pre=NONEMPTY,
   tags=('part', 'npj', 'sym', 'cubic', 'inputs', 'batch1', 'bscalar'), cost=_tc, params=_mp)


# --- operators derived symbolically by the client, and executed by a context -----------------------------
UN_D = ['reverse', 'involute', 'conjugate', 'dual', 'dual_inverse', 'scalar_negation', 'pseudoscalar_negation', 'left_complement',
        'right_complement', 'identity']
BIN_D = {**BIN_PART, 'right_contract': 'right_contract', 'involute_product': 'involute_product', 'anti_wedge': 'anti_wedge',
         'anti_inner': 'anti_inner', 'anti_commutator': 'anti_commutator', 'cross': 'cross'}
BIN_D = {k if k != 'cross' else 'cross_product': v for k, v in BIN_D.items()}


def _un(M, nm, A):
    return dict(A) if nm == 'identity' else getattr(M, nm)(A)


def _sym(a, nm, *subs):
    """a symbolic operator of the algebra of a"""
    return getattr(a.algebra.operator, nm)(*subs)


def _d_par(*more):
    def params(rng):
        d = {'op': rng.choice(sorted(BIN_D)), 'via': rng.randrange(3)}
        if 'c' in more:
            d['c'] = rng.choice([-3, -2, -1, -1, 2, 3, .5, -1.5, 2.5])
        if 'op2' in more:
            d['op2'] = rng.choice(sorted(BIN_D))
            d['c'] = rng.choice([1, -1])
        if 'un' in more:
            d['u'] = [rng.choice(UN_D), rng.choice(UN_D)]
        return d
    return params


def _d_scale(e, o, a, b):
    f = _sym(a, o['op'], a.subspace, b.subspace)
    f = -f if o['c'] == -1 and o['via'] else f * o['c'] if o['via'] == 1 else o['c'] * f
    if isinstance(o['c'], float) and hasattr(a.values, 'dtype'):      # a kernel of fractions has the element type of its context
        f = f.copy(f.kernel.astype(str(a.values.dtype).split('.')[-1]))
    return a.context.operator(f)(a, b)


def _d_swap(e, o, a, b):
    return a.context.operator(_sym(a, o['op'], a.subspace, b.subspace).swapaxes(0, 1))(b, a)


def _d_sum2(e, o, a, b):
    full = a.algebra.subspace.full()
    f = _sym(a, o['op'], a.subspace, b.subspace).select_subspace(full)
    g = _sym(a, o['op2'], a.subspace, b.subspace).select_subspace(full)
    h = f + g if o['c'] > 0 else f - g
    return a.context.operator(h.squeeze())(a, b)


def _d_slice(e, o, a, b):
    full = a.algebra.subspace.full()
    f = _sym(a, o['op'], full, full)
    f = f[a.subspace, b.subspace] if o['via'] else f.slice((a.subspace, b.subspace))
    return a.context.operator(f.squeeze())(a, b)


def _d_compose(e, o, a, b):
    return a.context.operator(_sym(a, o['op'], _sym(a, o['u'][0], a.subspace), _sym(a, o['u'][1], b.subspace)).squeeze())(a, b)


def _d_bind(e, o, a, b):
    u, v = _sym(a, o['u'][0], a.subspace), _sym(a, o['u'][1], b.subspace)
    f = _sym(a, o['op'], u.output, v.output)
    f = f.bind(u, v) if o['via'] == 0 else f.bind({1: v, 0: u}) if o['via'] == 1 else u.fuse(v.fuse(f, axis=1), axis=0)
    return a.context.operator(f)(a, b)


def _d_reduce(e, o, a, b):
    return a.context.operator(_sym(a, o['op'], a.subspace, b.subspace).sum(1))(a)


def _d_symm(e, o, a):
    return a.context.operator(_sym(a, o['op'], a.subspace, a.subspace).symmetry((0, 1)))(a, a)


def _d_desl(e, o, a, b):
    part = a.subspace.slice_subspace(np.arange(0, len(a.subspace), 2))
    f = _sym(a, o['op'], part, b.subspace)
    if not len(f.output):       # (numpy_indexed has no index in an empty list)
        return a.context.operator(f)(a.restrict_subspace(part), b)
    return a.context.operator(f.deslice((a.subspace, b.subspace, a.algebra.subspace.full())).squeeze())(a, b)


def _d_half(M, A):
    return {m: A[m] for m in M.order(A)[::2]}


_d2 = lambda M, o, A, B: getattr(M, BIN_D[o['op']])(A, B)
_small = lambda n: lambda M, *s: NONEMPTY(M, *s) and M.n <= n
_dk = dict(tags=('core', 'bil', 'derived'), cost=_bc, weight=.35)
op('d.scale', 2, _d_scale, lambda M, o, A, B: M.scale(_d2(M, o, A, B), o['c']), pre=NONEMPTY, params=_d_par('c'), **_dk)
op('d.swap', 2, _d_swap, _d2, pre=NONEMPTY, params=_d_par(), **_dk)
op('d.sum2', 2, _d_sum2, lambda M, o, A, B: M.add(_d2(M, o, A, B), getattr(M, BIN_D[o['op2']])(A, B), o['c']), pre=_small(5), params=_d_par('op2'), **_dk)
op('d.slice', 2, _d_slice, _d2, pre=_small(4), params=_d_par(), **_dk)
op('d.compose', 2, _d_compose, lambda M, o, A, B: getattr(M, BIN_D[o['op']])(_un(M, o['u'][0], A), _un(M, o['u'][1], B)), pre=NONEMPTY,
   params=_d_par('un'), **_dk)
op('d.bind', 2, _d_bind, lambda M, o, A, B: getattr(M, BIN_D[o['op']])(_un(M, o['u'][0], A), _un(M, o['u'][1], B)), pre=NONEMPTY,
   params=_d_par('un'), **_dk)
op('d.reduce', 2, _d_reduce, lambda M, o, A, B: _d2(M, o, A, {m: 1.0 for m in B}), pre=NONEMPTY, tags=('core', 'bil', 'derived', 'bs0', 'inputs'), cost=_bc,
   weight=.35, params=_d_par())
op('d.symm', 1, _d_symm, lambda M, o, A: _d2(M, o, A, A), pre=NONEMPTY, tags=('core', 'sym', 'derived'), cost=lambda M, a: a * a * len(M.blades),
   weight=.35, params=_d_par())
op('d.deslice', 2, _d_desl, lambda M, o, A, B: _d2(M, o, _d_half(M, A), B), pre=_small(5), tags=('core', 'bil', 'derived', 'inputs'), cost=_bc, weight=.35, params=_d_par())
op('d.csqueeze', 2, lambda e, o, a, b: getattr(a.context.operator, o['op'])(a.subspace, b.subspace).squeeze()(a, b), _d2, pre=NONEMPTY, params=_d_par(), **_dk)
# two namespaces of the same kind side by side
op('sel.two', 2, lambda e, o, a, b: (lambda s, t: s[o['g'][0]] + t[o['g'][0]])(a.select, b.select), lambda M, o, A, B: M.grade(M.add(A, B), {o['g'][0]}),
   tags=('arr', 'bil2', 'selg'), params='grade1')
op('res.two', 2, lambda e, o, a, b: (lambda s, t: s[o['g'][0]] + t[o['g'][0]])(a.restrict, b.restrict), lambda M, o, A, B: M.grade(M.add(A, B), {o['g'][0]}),
   tags=('arr', 'bil2', 'resg2'), params='grade1')



def out_shape(o, shapes):
    """batch shape of the result of an operation on operands of the given batch shapes"""
    k = o['k']
    if None in shapes:
        return None
    if k in RESHAPE:
        return RESHAPE[k](o, np.zeros(shapes[0])).shape
    if k in ('x.getitem', 'x.dynget', 'x.sum', 'x.mean', 'm.getitem', 'm.sum'):
        return tuple(shapes[0][1:])
    if k in ('x.sumax', 'x.meanax'):
        return tuple(shapes[0][:o['ax']]) + tuple(shapes[0][o['ax'] + 1:])
    if k == 'x.concatax':
        return tuple(a + b * (j == o['ax']) for j, (a, b) in enumerate(zip(*shapes)))
    if k == 'x.atindex':
        return tuple(shapes[0])
    if k in ('x.atset', 'm.atset'):
        return tuple(shapes[0])
    if k == 'd.reduce':
        return tuple(shapes[0])
    if k == 'x.concat':
        return (shapes[0][0] + shapes[1][0],) + tuple(shapes[0][1:])
    if k == 'm.concat':
        return (2 * shapes[0][0],) + tuple(shapes[0][1:])
    return tuple(np.broadcast_shapes(*shapes))


def _atset(A, i, B):
    A, B = _full(A, B)
    out = {}
    for m, v in A.items():
        v = v.copy()
        v[i] = B[m][i]
        out[m] = v
    return out


def _full(A, B):
    """both operands on the union of their blades (a model value may leave out zeros)"""
    if not A and not B:
        return A, B
    za = np.zeros(np.shape(next(iter((A or B).values()))))
    zb = np.zeros(np.shape(next(iter((B or A).values()))))
    ms = list(A) + [m for m in B if m not in A]
    return {m: A.get(m, za) for m in ms}, {m: B.get(m, zb) for m in ms}


def _concat(A, B, axis=0):
    A, B = _full(A, B)
    return {m: np.concatenate([v, B[m]], axis=axis) for m, v in A.items()}


# =============================================================================== expected results

def generic(masks, salt):
    rs = np.random.RandomState(1234 + salt)
    return {m: rs.uniform(0.5, 1.5) for m in masks}


_support_cache = {}


def support(M, o, subs):
    """blades the operation can produce at all (evaluated on generic operands)"""
    d = OPS[o['k']]
    key = (M.desc if isinstance(M.desc, str) else tuple(M.desc), o['k'], str(o.get('op')), str(o.get('g')), str(o.get('s')),
           str(o.get('nm')), str(o.get('op2')), str(o.get('u')), str(o.get('c')) if o['k'] == 'd.sum2' else '', tuple(subs))
    if key in _support_cache:
        return _support_cache[key]
    t = d.tags
    if 'keepsub' in t:
        r = frozenset(subs[0])
    elif 'sum' in t:
        r = subs[0] | subs[1]
    elif 'sum0' in t:
        r = subs[0] | subs[1] | {0}
    elif 'addc' in t:
        r = subs[0] | {0}
    elif 'selg' in t:
        r = M.grades(o['g'])
    elif 'resg2' in t:
        r = M.grades(o['g']) & (subs[0] | subs[1])
    elif 'resg' in t:
        r = M.grades(o['g']) & subs[0]
    elif 'sels' in t:
        r = mset(M, o['s'])
    elif 'ress' in t:
        r = mset(M, o['s']) & subs[0]
    elif 'seln' in t:
        r = M.named(o['nm'])
    elif 'resn' in t:
        r = M.named(o['nm']) & subs[0]
    else:
        args = [generic(M.order(s), i) for i, s in enumerate(subs)]
        try:
            out = getattr(M, o['op'])(*args) if 'bscalar' in t else d.model(M, o, *args)
            r = frozenset(m for m, v in out.items() if abs(v) > 1e-9)
        except Exception:
            r = None
    if len(_support_cache) > 5000:
        _support_cache.clear()
    _support_cache[key] = r
    return r
