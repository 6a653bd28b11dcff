"""Nonlinear functions: input domains and the equations that define their results (checked with the model's float arithmetic)."""
import numpy as np
from .model import popcount, dense
from .catalog import mset
from .execute import values_np


def mv_model(mv):
    v = values_np(mv).astype(float)
    return {int(b): v[..., i] for i, b in enumerate(mv.subspace.blades)}


def lmul_matrix(M, A):
    """matrix of x -> A x on the full algebra, for scalar-valued (unbatched) A"""
    n = len(M.blades)
    L = np.zeros((n, n))
    for a, x in A.items():
        for b in M.blades:
            s, m = M.bprod(a, b)
            if s:
                L[m, b] += s * x
    return L


def lanes(A):
    """iterate over unbatched slices of a batched model value"""
    if not A:
        yield (), {}
        return
    shape = np.broadcast_shapes(*(np.shape(v) for v in A.values()))
    B = {m: np.broadcast_to(np.asarray(v, float), shape) for m, v in A.items()}
    for i in np.ndindex(*shape):
        yield i, {m: float(v[i]) for m, v in B.items()}


def mx(A):
    return max([0.0] + [abs(float(v)) for v in A.values()])


def sub(M, A, B):
    return M.add(A, B, -1)


ONE = {0: 1.0}


class NL:
    """deg: the error scales with this power of the operand (None: with max(1, operand))"""
    def __init__(self, name, nargs, dom, gen, run, check, tol=1e-9, weight=1.0, array=True, deg=None):
        self.deg = deg
        self.name, self.nargs, self.run, self.check = name, nargs, run, check
        self.doms = dom if isinstance(dom, tuple) else (dom,) * nargs       # one per argument
        self.gens = gen if isinstance(gen, tuple) else (gen,) * nargs
        self.dom = self.doms[0]
        self.tol, self.weight, self.array = tol, weight, array


NLS = {}


def nl(name, nargs, dom, gen, run, check, **k):
    NLS[name] = NL(name, nargs, dom, gen, run, check, **k)


# ---------------------------------------------------------------- domains: random lane values as {mask: float}
def even(M): return M.named('even_grade')
def bivec(M): return M.grades([2])


def euclid(M, n0=3):
    return all(s >= 0 for s in M.sig) and M.sig.count(0) <= 1


def anysig(M):
    """functions of motors close enough to one work in every signature"""
    return True


def mixed(M):
    return any(s > 0 for s in M.sig) and any(s < 0 for s in M.sig)


def rooted(M, x):
    """x ~x has a real square root, by a margin"""
    y = M.mul(x, M.reverse(x))
    ns = {m: v for m, v in y.items() if m}
    return y.get(0, 0.0) > .2 and y[0] ** 2 - M.mul(ns, ns).get(0, 0.0) > .02


def scaled(gen, lo, hi, p=.3):
    """the same operands, now and then all but vanishing or large, by a power of two"""
    def g(M, masks, rs):
        v = gen(M, masks, rs)
        if v is None or rs.uniform() > p:
            return v
        k = 2.0 ** rs.randint(lo, hi + 1)
        return {m: x * k for m, x in v.items()}
    return g


def g_biv(scale):
    def gen(M, masks, rs):
        s = scale * rs.choice([10.0 ** rs.uniform(-9, 0), 1e-3, .1, 1., 1.])
        if scale >= 1 and not mixed(M) and rs.uniform() < .12:
            s = scale * rs.uniform(1, 5)
        out = {m: float(v) * s for m, v in zip(masks, rs.uniform(-1, 1, len(masks)))}
        r = rs.uniform()
        keep = masks
        if r < .06:
            keep = ()                                   # zero
        elif r < .16:
            keep = [m for m in masks if m & M.degen]    # a pure translation
        elif r < .24:
            keep = [masks[rs.randint(len(masks))]]      # a single blade
        return {m: v if m in keep else 0.0 for m, v in out.items()}
    return gen


def g_motor(size=1.0, far=False):
    """a normalized motor exp(b), on the full even subalgebra"""
    def gen(M, masks, rs):
        scale = size * (.4 if mixed(M) else 1)
        k = scale if rs.uniform() < .75 else scale * 10.0 ** rs.uniform(-9, 0)
        wide = far and not mixed(M) and rs.uniform() < .15          # up to about half a turn and more
        B = M.order(bivec(M))
        r = rs.uniform()
        keep = B
        if r < .04:
            keep = ()
        elif r < .12:
            keep = [m for m in B if m & M.degen]
        elif r < .18:
            keep = [m for m in B if not m & M.degen]
        elif r < .24:
            keep = [B[rs.randint(len(B))]]
        for _ in range(20):
            if wide:
                k = scale * rs.uniform(1, 4)
            b = {m: float(v) * k * (m in keep) for m, v in zip(B, rs.uniform(-1, 1, len(B)))}
            e = M.exp_series(b)
            if not wide or rooted(M, M.add(e, ONE)):
                return {m: float(e.get(m, 0.0)) for m in masks}
        return {m: float(m == 0) for m in masks}
    return gen


def g_nearmotor(M, masks, rs):
    for _ in range(50):
        e = g_motor()(M, masks, rs)
        s = float(rs.uniform(.5, 2))
        v = {m: e[m] * s + .05 * float(rs.uniform(-1, 1)) for m in masks}
        if not mixed(M) or rooted(M, v):
            return v
    return None


def g_bivn(scale):
    """bivectors b with 1 + b in the domain of the norm"""
    def gen(M, masks, rs):
        v = g_biv(scale)(M, masks, rs)
        return {m: x * .3 for m, x in v.items()} if mixed(M) else v
    return gen


def g_invertible(M, masks, rs):
    for _ in range(50):
        v = {m: float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}
        big = masks[rs.randint(len(masks))]
        v[big] += 2.0 * np.sign(v[big] or 1)
        L = lmul_matrix(M, v)
        c = np.linalg.cond(L)
        if c < 12:
            return v
    return None


def g_posscalar(M, masks, rs):
    return {0: float(rs.uniform(.1, 4))}


def g_study(M, masks, rs):
    """scalar-dominated study number"""
    v = {m: .4 * float(rs.uniform(-1, 1)) for m in masks}
    v[0] = float(rs.uniform(1.5, 3))
    return v


def is_study_set(M, s):
    """a set {scalar} + single blade squaring to a scalar"""
    return 0 in s and len(s) == 2


def nondeg_biv(M, masks, rs):
    for _ in range(50):
        v = {m: float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}
        b2 = M.mul(v, v)
        s0 = b2.get(0, 0.0)
        rest = {m: x for m, x in b2.items() if m}
        r2 = M.mul(rest, rest).get(0, 0.0)
        if abs(s0) > .3 and s0 * s0 - r2 > .1:
            return v
    return None


# ---------------------------------------------------------------- checks: per lane; return error magnitude
def c_inverse(M, A, X):
    return max(mx(sub(M, M.mul(A, X), ONE)), mx(sub(M, M.mul(X, A), ONE)))


def c_exp(M, b, e):
    """relative to what bisection can do: for small b the error vanishes faster than b"""
    x = M.exp_series(b)
    return mx(sub(M, x, e)) / max(1, mx(x)) / (3e-3 + min(1.0, mx(b)) ** 2)


def c_log(M, m, b):
    bad = max([0.0] + [abs(v) for k, v in b.items() if popcount(k) != 2])
    return max(bad, mx(sub(M, M.exp_series(b), m)))


def c_norm(M, x, y):
    """y ~y == 1, and y = s x with s in the algebra generated by x ~x"""
    e = mx(sub(M, M.mul(y, M.reverse(y)), ONE))
    return e


def c_norm_dir(M, x, y):
    # y x~ = s (x x~) : must equal s * (x x~); s is scalar when x x~ is scalar
    xx = M.mul(x, M.reverse(x))
    if max([0.0] + [abs(v) for m, v in xx.items() if m]) < 1e-9:
        s = 1 / np.sqrt(xx[0])
        return max(c_norm(M, x, y), mx(sub(M, M.scale(x, s), y)))
    return c_norm(M, x, y)


def c_sqrt(M, x, s):
    return mx(sub(M, M.mul(s, s), x))


def c_invsqrt(M, x, r):
    return mx(sub(M, M.mul(M.mul(r, x), r), ONE))


def c_mean(M, l, r, g):
    s = M.add(l, r)             # the nearer to antipodal the two are, the worse the condition
    n = M.mul(s, M.reverse(s))
    return min(1.0, max(0.0, n.get(0, 0.0) - mx({m: v for m, v in n.items() if m and not m & M.degen}))) ** 2 * max(mx(sub(M, M.mul(M.mul(g, M.reverse(l)), g), r)), mx(sub(M, M.mul(g, M.reverse(g)), ONE)))


def c_decomp(M, b, out):
    l, r = out
    ll, rr = M.mul(l, l), M.mul(r, r)
    return max(mx(sub(M, M.add(l, r), b)), mx(M.inner(l, r)) if l and r else 0.0,
               max([0.0] + [abs(v) for m, v in ll.items() if m]), max([0.0] + [abs(v) for m, v in rr.items() if m]))


def c_polar(M, b, out):
    L, s = out
    return max(mx(sub(M, M.mul(L, s), b)), mx(sub(M, M.mul(L, M.reverse(L)), ONE)))


def c_tr(M, m, out):
    t, r = out
    nd = {k: v for k, v in r.items() if k & M.degen}
    return max(mx(sub(M, M.mul(t, r), m)), mx(nd), mx(sub(M, M.mul(t, M.reverse(t)), ONE)))


def c_normsq(M, x, y):
    return mx(sub(M, M.mul(x, M.reverse(x)), y))


def c_roundtrip(M, b, c):
    return mx(sub(M, b, c))


E5 = lambda M, s: M.n <= 5 and len(s) > 0
nl('inverse', 1, lambda M, s: 0 < M.n <= 5 and len(s) > 0, scaled(g_invertible, -16, 16), lambda x: x.inverse(), c_inverse, weight=3, deg=0)
nl('rdiv', 1, lambda M, s: 0 < M.n <= 5 and len(s) > 0, scaled(g_invertible, -16, 16), lambda x: 1 / x, c_inverse, weight=.7, deg=0)
nl('inverse_la', 1, lambda M, s: 0 < M.n <= 4 and len(s) > 0, scaled(g_invertible, -16, 16), lambda x: x.inverse_la(), c_inverse, weight=.5, deg=0)
nl('inverse_shirokov', 1, lambda M, s: 0 < M.n <= 4 and len(s) > 0, scaled(g_invertible, -16, 16), lambda x: x.inverse_shirokov(), c_inverse, weight=.5, deg=0)
nl('exp', 1, lambda M, s: 2 <= M.n <= 5 and len(s) and s <= bivec(M), g_biv(1.5), lambda x: x.exp(), c_exp, weight=3, tol=3e-7)
nl('exp_bisect', 1, lambda M, s: 2 <= M.n <= 5 and len(s) and s <= bivec(M), g_biv(1.0), lambda x: x.exp_bisect(), c_exp, tol=3e-7)
nl('motor_log', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), g_motor(.6, True), lambda x: x.motor_log(), c_log, weight=2, tol=2e-7)
nl('normalized', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), scaled(g_nearmotor, -8, 8), lambda x: x.normalized(), c_norm_dir, weight=3, deg=0)
nl('normalized_vec', 1, lambda M, s: 2 <= M.n <= 5 and s == M.grades([1]) and all(x > 0 for x in M.sig), scaled(g_invertible, -16, 16), lambda x: x.normalized(), c_norm_dir, deg=0)
nl('motor_square_root', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), g_motor(.8, True), lambda x: x.motor_square_root(), c_sqrt, weight=2)
nl('motor_geometric_mean', 2, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), g_motor(.5, True), lambda x, y: x.motor_geometric_mean(y), c_mean)
nl('square_root', 1, lambda M, s: M.n <= 5 and s == frozenset([0]), scaled(g_posscalar, -16, 16), lambda x: x.square_root(), c_sqrt, weight=.7, deg=1)
nl('study_square_root', 1, lambda M, s: M.n <= 5 and is_study_set(M, s), scaled(g_study, -16, 16), lambda x: x.square_root(), c_sqrt, deg=1)
nl('inverse_square_root', 1, lambda M, s: M.n <= 5 and (s == frozenset([0]) or is_study_set(M, s)), scaled(g_study, -16, 16), lambda x: x.inverse_square_root(), c_invsqrt, deg=0)
nl('norm_squared', 1, lambda M, s: M.n <= 5 and len(s), g_biv(1.0), lambda x: x.norm_squared(), c_normsq, deg=2)
nl('decompose_invariant', 1, lambda M, s: 2 <= M.n <= 4 and s == bivec(M) and euclid(M), nondeg_biv, lambda x: x.decompose_invariant(), c_decomp)
nl('decompose_polar', 1, lambda M, s: 2 <= M.n <= 4 and s == bivec(M) and euclid(M), nondeg_biv, lambda x: x.decompose_polar(), c_polar)
nl('motor_tr', 1, lambda M, s: M.n in (3, 4) and s == even(M) and M.sig.count(0) == 1 and euclid(M), g_motor(.7),
   lambda x: (x.motor_translator(), x.motor_rotor()), c_tr)
nl('quad_roundtrip', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == bivec(M), g_bivn(.5),
   lambda x: x.exp_quadratic().motor_log_quadratic(), c_roundtrip, tol=1e-8)
nl('linnorm_roundtrip', 1, lambda M, s: 2 <= M.n <= 5 and any(M.sig) and s == bivec(M), g_bivn(.5),
   lambda x: x.exp_linear_normalized().motor_log_linear_normalized(), c_roundtrip)
nl('explog_roundtrip', 1, lambda M, s: 2 <= M.n <= 4 and anysig(M) and s == bivec(M), g_bivn(.5),
   lambda x: x.exp().motor_log(), c_roundtrip, tol=1e-8)


# ---------------------------------------------------------------- further functions
def g_vec(M, masks, rs):
    return {m: float(x) + (.5 if x > 0 else -.5) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}


def g_origin(M, masks, rs):
    """a finite point close to the origin (the blade of all nondegenerate axes dominates)"""
    v = {m: .4 * float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}
    o = M.pss & ~M.degen if M.degen else masks[rs.randint(len(masks))]
    v[o] = float(rs.uniform(.8, 1.5))
    return v


def c_normfn(M, x, n):
    return max(mx(sub(M, M.mul(n, n), M.mul(x, M.reverse(x)))), max(0.0, -n.get(0, 0.0)))


def c_studynorm2(M, x, y):
    conj = {m: (v if m == 0 else -v) for m, v in x.items()}
    return mx(sub(M, {0: M.mul(x, conj).get(0, 0.0)}, y))


def c_studynorm(M, x, n):
    return c_studynorm2(M, x, M.mul(n, n))


def c_cayley(M, b, m):
    h = M.scale(b, .5)
    return max(mx(sub(M, M.mul(sub(M, ONE, h), m), M.add(ONE, h))), mx(sub(M, M.mul(m, M.reverse(m)), ONE)))


def c_explin(M, b, out):
    m, l = out
    return max(mx(sub(M, m, M.add(ONE, b))), mx(sub(M, l, b)))


def c_scalarexp(M, x, out):
    e, l = out
    return max(abs(e.get(0, 0.0) - np.exp(x.get(0, 0.0))), abs(l.get(0, 0.0) - x.get(0, 0.0)), mx({m: v for m, v in e.items() if m}))


def c_split(M, m, o, out):
    t, r = out
    moved = M.mul(M.mul(r, o), M.reverse(r))
    return max(mx(sub(M, M.mul(t, r), m)), mx(sub(M, moved, o)), mx(sub(M, M.mul(t, M.reverse(t)), ONE)))


def c_normparts(M, x, out):
    """the parts of a normalised product of two functions agree with each other"""
    n, u = out
    return max(c_norm(M, x, u), mx(sub(M, M.mul(n, u), x)))


def c_translog(M, t, b):
    return mx(sub(M, M.add(ONE, b), t))


def vec(M): return M.grades([1])


def c_mapinv(M, m, v, out):
    w, back, kt = out
    e = max(mx(sub(M, M.mul(M.mul(m, v), M.reverse(m)), w)), mx(sub(M, back, v)))
    # the transpose of the matrix of v -> m v ~m, applied to v
    exp = {i: sum(x * M.mul(M.mul(m, {i: 1.0}), M.reverse(m)).get(o, 0.0) for o, x in v.items()) for i in M.order(vec(M))}
    return max(e, mx(sub(M, kt, exp)))


def run_mapinv(m, v):
    f = m.sandwich_map(v.subspace)
    w = f(v)
    return w, f.inverse()(w), f.transpose()(v)


def g_translator(M, masks, rs):
    return {m: (1.0 if m == 0 else float(rs.uniform(-2, 2))) for m in masks}


def deg2(M):
    return frozenset(m for m in bivec(M) if m & M.degen)


nl('norm_vec', 1, lambda M, s: 2 <= M.n <= 5 and len(s) and s <= M.grades([1]) and all(x > 0 for x in M.sig), scaled(g_vec, -16, 16), lambda x: x.norm(), c_normfn, deg=2)
nl('norm_even', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), scaled(g_nearmotor, -8, 8), lambda x: x.norm(), c_normfn, deg=2)
nl('norm_and_direction', 1, lambda M, s: 2 <= M.n <= 4 and anysig(M) and s == even(M), g_nearmotor, lambda x: (x.norm(), x.normalized()), c_normparts)
nl('study_norm_squared', 1, lambda M, s: M.n <= 5 and is_study_set(M, s), scaled(g_study, -16, 16), lambda x: x.study_norm_squared(), c_studynorm2, weight=.7, deg=2)
nl('study_norm', 1, lambda M, s: M.n <= 5 and is_study_set(M, s), scaled(g_study, -16, 16), lambda x: x.study_norm(), c_studynorm, weight=.7, deg=2)
nl('motor_inverse', 1, lambda M, s: 2 <= M.n <= 4 and anysig(M) and s == even(M), g_motor(1.0, True), lambda x: x.motor_inverse(), c_inverse)
nl('exp_quadratic', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and len(s) and s <= bivec(M), g_bivn(.5), lambda x: x.exp_quadratic(), c_cayley)
nl('exp_linear', 1, lambda M, s: 2 <= M.n <= 5 and len(s) and s <= bivec(M), g_biv(1.0),
   lambda x: (x.exp_linear(), x.exp_linear().motor_log_linear()), c_explin, weight=.6)
nl('scalar_exp_log', 1, lambda M, s: M.n <= 5 and s == frozenset([0]), g_posscalar, lambda x: (x.exp(), x.exp().log()), c_scalarexp, weight=.6)
nl('motor_log_bisect', 1, lambda M, s: 2 <= M.n <= 5 and anysig(M) and s == even(M), g_motor(.6, True), lambda x: x.motor_log_bisect(), c_log, tol=2e-7)
nl('map_inverse', 2, (lambda M, s: 2 <= M.n <= 4 and anysig(M) and s == even(M), lambda M, s: 2 <= M.n <= 4 and s == vec(M)),
   (g_motor(.7, True), g_vec), run_mapinv, c_mapinv)
nl('translator_log', 1, lambda M, s: 2 <= M.n <= 5 and M.sig.count(0) == 1 and s == deg2(M) | {0}, g_translator, lambda x: x.motor_log(), c_translog)
nl('motor_split', 2, (lambda M, s: M.n in (3, 4, 5) and euclid(M) and s == even(M),
                      lambda M, s: s == M.grades([M.n - 1]) or s == frozenset([M.pss & ~M.degen]) and M.degen and M.n > 1 or len(s) == 1 and s <= M.grades([M.n - 1]) and not M.degen),
   (g_motor(.5), g_origin), lambda m, o: m.motor_split(o), c_split, weight=1.5, tol=1e-8)


# ---------------------------------------------------------------- more routes, larger algebras
def c_div(M, y, x, q):
    return mx(sub(M, M.mul(q, x), y))


def c_invsandwich(M, s, r):
    return mx(sub(M, M.mul(M.mul(r, s), M.reverse(r)), ONE))


def g_squares(M, masks, rs):
    """operands whose product with their reverse is a scalar that is clearly positive"""
    for _ in range(60):
        v = {m: float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}
        y = M.mul(v, M.reverse(v))
        if y.get(0, 0.0) > .1:
            return v
    return None


def g_nearone(M, masks, rs):
    v = {m: .15 * float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}
    v[0] = float(rs.uniform(.8, 1.25))
    return v


def g_any(M, masks, rs):
    return {m: float(x) for m, x in zip(masks, rs.uniform(-1, 1, len(masks)))}


def symmetric(M, s, f):
    """the blades x f(x) has for a general x of the set"""
    out = set()
    for a in s:
        for b in s:
            x, m = M.bprod(a, b)
            if x and (a == b or x * f(b) + M.bprod(b, a)[0] * f(a)):
                out.add(m)
    return out


def rev_sign(m):
    k = popcount(m)
    return -1 if k * (k - 1) // 2 % 2 else 1


def simple(M, s):
    return symmetric(M, s, rev_sign) == {0}


def study_set(M, s):
    """{scalar} + blades that anticommute, so that the square of their sum is a scalar"""
    return 0 in s and len(s) > 1 and symmetric(M, s, lambda m: 1 if m == 0 else -1) <= {0}


def c_simpledec(M, b, out):
    l, r = out
    return max(mx(sub(M, l, b)), mx(r))


def c_onlyrotor(M, m, out):
    t, r = out
    return max(mx(sub(M, t, ONE)), mx(sub(M, r, m)))


def run_numeric(which, *a, **k):
    def run(x):
        from numga.multivector import numerical_normalize as n
        return getattr(n, which)(x, *a, **k)
    return run


selfrev = lambda M: frozenset(m for m in M.blades if rev_sign(m) == 1 and popcount(m) % 2 == 0)
nl('div', 2, (lambda M, s: 0 < M.n <= 5 and len(s) > 0, lambda M, s: 0 < M.n <= 5 and len(s) > 0),
   (g_any, g_invertible), lambda y, x: y / x, c_div)
nl('div_scaled', 2, (lambda M, s: 0 < M.n <= 4 and len(s) > 0, lambda M, s: 0 < M.n and s == frozenset([0])),
   (g_any, g_posscalar), lambda y, x: y / x, c_div, weight=.5)
nl('inverse_hitzer', 1, lambda M, s: 0 < M.n <= 3 and len(s) > 0, scaled(g_invertible, -8, 8), lambda x: x.inverse_hitzer(), c_inverse, weight=.5, deg=0, tol=1e-8)
nl('inverse_shirokov_large', 1, lambda M, s: 5 <= M.n <= 6 and 0 < len(s) <= 12, g_invertible, lambda x: x.inverse_shirokov(), c_inverse, weight=.3, tol=1e-6)
nl('normalized_simple', 1, lambda M, s: M.n <= 5 and len(s) and simple(M, s), scaled(g_squares, -8, 8), lambda x: x.normalized(), c_norm_dir, deg=0, weight=1.5)
nl('norm_simple', 1, lambda M, s: M.n <= 5 and len(s) and simple(M, s), scaled(g_squares, -8, 8), lambda x: x.norm(), c_normfn, deg=2)
nl('study_root_general', 1, lambda M, s: M.n <= 5 and len(s) > 2 and study_set(M, s), scaled(g_study, -16, 16), lambda x: x.square_root(), c_sqrt, deg=1)
nl('study_norm_general', 1, lambda M, s: M.n <= 5 and len(s) > 2 and study_set(M, s), scaled(g_study, -16, 16), lambda x: x.study_norm(), c_studynorm, deg=2, weight=.6)
nl('study_invroot_general', 1, lambda M, s: M.n <= 5 and len(s) > 2 and study_set(M, s), scaled(g_study, -16, 16), lambda x: x.inverse_square_root(), c_invsqrt, deg=0, weight=.6)
nl('simple_decompose', 1, lambda M, s: 2 <= M.n <= 5 and len(s) and s <= bivec(M) and symmetric(M, s, lambda m: 1) <= {0}, g_any, lambda x: x.decompose_invariant(), c_simpledec, weight=.6)
nl('rotor_parts', 1, lambda M, s: 2 <= M.n <= 4 and M.sig.count(0) <= 1 and 0 in s and s == frozenset(m for m in even(M) if not m & M.degen), g_any,
   lambda x: (x.motor_translator(), x.motor_rotor()), c_onlyrotor, weight=.6)
nl('normalize_motor', 1, lambda M, s: 2 <= M.n <= 5 and euclid(M) and s == even(M), scaled(g_nearmotor, -6, 6), run_numeric('normalize_motor', inner=10, outer=3), c_norm, deg=0)
nl('inverse_sandwich', 1, lambda M, s: 2 <= M.n <= 5 and euclid(M) and s == selfrev(M), g_nearone, run_numeric('inverse_sandwich', n_iter=10), c_invsandwich)


def nl_values(spec, M):
    """(masks, array shape+(n,)) for a nonlinear input spec {'fn','sub','shape','seed'}; None if no suitable value exists"""
    masks = M.order(mset(M, spec['sub']))
    rs = np.random.RandomState(spec['seed'])
    f = NLS[spec['fn']]
    shape = tuple(spec['shape'])
    out = np.zeros(shape + (len(masks),))
    for i in np.ndindex(*shape):
        v = f.gens[spec.get('arg', 0)](M, masks, rs)
        if v is None:
            return None
        out[i] = [v[m] for m in masks]
    return masks, out


def nl_candidates(M, name, arg=0, rng=None):
    """subspace specs on which the function is defined (for one of its arguments)"""
    f = NLS[name]
    out = []
    c = [['name', 'even_grade'], ['k', 1], ['k', 2], ['k', 0], ['k', 3], ['name', 'full'], ['name', 'odd_grade'],
         ['name', 'nondegenerate'], ['name', 'bireflection'], ['name', 'reflection'], ['name', 'translator'], ['name', 'rotor'],
         ['name', 'scalar_pseudoscalar'], ['name', 'pseudoscalar'], ['name', 'antivector'], ['name', 'self_reverse'],
         ['nondeg', ['k', 2]], ['deg', ['k', 2]], ['blades', [0, 3]], ['blades', [1, 2]], ['blades', [3]], ['blades', [0, 1, 2, 3]], ['blades', [M.pss & ~M.degen]], ['blades', [M.pss & ~1]], ['blades', [M.pss & ~2]]]
    c.append(['blades', M.order(selfrev(M))])
    c.append(['blades', [0] + [1 << i for i in range(M.n)]])
    c.append(['blades', [m for m in M.blades if m in even(M) and not m & M.degen]])
    if rng is not None:
        c += [['blades', rng.sample(M.blades, rng.randint(1, min(len(M.blades), 6)))] for _ in range(2)]
        b = sorted(bivec(M))
        c += [['blades', rng.sample(b, rng.randint(1, len(b)))] for _ in range(2) if b]
    for s in c:
        try:
            ms = mset(M, s)
        except Exception:
            ms = None
        if ms is None or any(m > M.pss for m in ms):
            continue
        try:
            if f.doms[arg](M, ms):
                out.append(s)
        except Exception:
            pass
    return out


def nl_check(name, M, args, res, tol=None, skip=None):
    """None if the result satisfies the defining equation in every lane (but those in the mask skip)"""
    f = NLS[name]
    tol = tol or f.tol
    R = tuple(mv_model(r) for r in res) if isinstance(res, tuple) else mv_model(res)
    # batch shape of operands
    shape = np.broadcast_shapes(*(np.shape(v) for A in args for v in A.values())) if any(args) else ()
    bc = lambda A: {m: np.broadcast_to(np.asarray(v, float), shape) for m, v in A.items()}
    try:
        args = [bc(A) for A in args]
        R = tuple(bc(r) for r in R) if isinstance(R, tuple) else bc(R)
    except ValueError:
        return f'{name}: result does not have the batch shape {shape} of its operand'
    if skip is not None and skip.shape != shape:
        return f'{name}: result does not have the batch shape {shape} of its operand'
    for i in np.ndindex(*shape):
        if skip is not None and skip[i]:
            continue
        la = [{m: float(v[i]) for m, v in A.items()} for A in args]
        lr = tuple({m: float(v[i]) for m, v in r.items()} for r in R) if isinstance(R, tuple) else {m: float(v[i]) for m, v in R.items()}
        if not all(np.isfinite(v) for r in (lr if isinstance(lr, tuple) else (lr,)) for v in r.values()):
            return f'{name}: the result is not finite in lane {i}: operand {la[0]} result {lr}'
        e = f.check(M, *la, lr)
        size = max(mx(a) for a in la)
        if not e <= tol * (max(1.0, size) if f.deg is None else size ** f.deg):
            return f'{name}: defining equation violated by {e:.3g} in lane {i}: operand {la[0]} result {lr}'
    return None
