"""Independent reference model of geometric algebra.

Blades are python int bit masks (bit i = i-th generator); a multivector is a dict mask -> value, where a
value is a float or a float64 array over batch axes.  Nothing here imports numga.  Coefficients used by the
simulator are small integers, so float64 arithmetic on them is exact and results can be compared with ==.
"""
import numpy as np


def popcount(x):
    return bin(x).count('1')


def parse_desc(desc):
    """'x+y+z+w0' -> (names, signature); a (p, q, r) triple uses a, b, c, ... as names"""
    val = {'+': 1, '-': -1, '0': 0}
    if not isinstance(desc, str):
        p, q, r = desc
        sig = [1] * p + [-1] * q + [0] * r
        return tuple('abcdefghijklmnopqrstuvwxyz'[:len(sig)]), tuple(sig)
    names, sig, last = [], [], 0
    for i, c in enumerate(desc):
        if c in val:
            names.append(desc[last:i]); sig.append(val[c]); last = i + 1
    return tuple(names), tuple(sig)


class MAlg:
    def __init__(self, desc):
        self.desc = desc
        self.names, self.sig = parse_desc(desc)
        self.n = len(self.sig)
        self.pss = (1 << self.n) - 1
        self.blades = sorted(range(1 << self.n), key=lambda m: (popcount(m), m))
        self.degen = sum(1 << i for i, s in enumerate(self.sig) if s == 0)
        self.negm = sum(1 << i for i, s in enumerate(self.sig) if s == -1)

    # ---- subspaces (frozensets of masks) ------------------------------------------------------
    def order(self, masks):
        return tuple(sorted(masks, key=lambda m: (popcount(m), m)))

    def grades(self, gs):
        gs = {g if g >= 0 else self.n + 1 + g for g in gs}
        return frozenset(m for m in self.blades if popcount(m) in gs)

    def named(self, name):
        n = self.n
        k = {'scalar': 0, 'vector': 1, 'bivector': 2, 'trivector': 3, 'quadvector': 4, 'pseudoscalar': n,
             'antiscalar': n, 'antivector': n - 1, 'antibivector': n - 2, 'antitrivector': n - 3,
             'antiquadvector': n - 4}
        if name in k:
            return self.grades([k[name]]) if 0 <= k[name] <= n else None
        if name in ('multivector', 'full'):
            return frozenset(self.blades)
        if name == 'empty':
            return frozenset()
        if name in ('even_grade', 'motor', 'self_involute'):
            return self.grades(range(0, n + 1, 2))
        if name == 'odd_grade':
            return self.grades(range(1, n + 1, 2))
        if name == 'nonscalar':
            return self.grades(range(1, n + 1))
        if name == 'scalar_pseudoscalar':
            return self.grades([0, n])
        if name == 'self_reverse':
            return self.grades([g for g in range(n + 1) if (g // 2) % 2 == 0])
        if name == 'mod4':
            return self.grades(range(0, n + 1, 4))
        if name == 'degenerate':
            return frozenset(m for m in self.blades if m & self.degen)
        if name == 'scalar_degenerate':
            return frozenset(m for m in self.blades if m & self.degen) | {0}
        if name == 'nondegenerate':
            return frozenset(m for m in self.blades if not m & self.degen)
        if name == 'rotor':
            return frozenset(m for m in self.named('even_grade') if not m & self.degen)
        if name == 'translator':
            if n < 2:
                return None
            b = self.named('bireflection')
            return b - frozenset(m for m in self.grades([2]) if not m & self.degen)
        if name in ('reflection', 'bireflection', 'trireflection', 'quadreflection'):
            k = ['', 'reflection', 'bireflection', 'trireflection', 'quadreflection'].index(name)
            s = frozenset([0])
            v = self.grades([1])
            for _ in range(k):
                s = self.prodspace(s, v)
            return s
        raise KeyError(name)

    def prodspace(self, a, b):
        return frozenset(x ^ y for x in a for y in b if not x & y & self.degen)

    def blade_name(self, m):
        return '1' if m == 0 else ''.join(n for i, n in enumerate(self.names) if m >> i & 1)

    # ---- blade level -------------------------------------------------------------------------
    def swaps(self, a, b):
        """parity sign of reordering the concatenation of blades a, b"""
        s = 0
        a >>= 1
        while a:
            s += popcount(a & b)
            a >>= 1
        return -1 if s & 1 else 1

    def bprod(self, a, b):
        c = a & b
        if c & self.degen:
            return 0, a ^ b
        s = self.swaps(a, b)
        if popcount(c & self.negm) & 1:
            s = -s
        return s, a ^ b

    def negs(self, a):
        return -1 if popcount(a & self.negm) & 1 else 1

    # ---- multivector level -------------------------------------------------------------------
    def bilinear(self, A, B, keep=None):
        out = {}
        for a, x in A.items():
            ga = popcount(a)
            for b, y in B.items():
                s, m = self.bprod(a, b)
                if s == 0:
                    continue
                if keep is not None and not keep(ga, popcount(b), popcount(m)):
                    continue
                t = x * y * s
                out[m] = out[m] + t if m in out else t
        return out

    def mul(self, A, B): return self.bilinear(A, B)
    def wedge(self, A, B): return self.bilinear(A, B, lambda l, r, o: l + r == o)
    def inner(self, A, B): return self.bilinear(A, B, lambda l, r, o: abs(l - r) == o)
    def scalar_product(self, A, B): return self.bilinear(A, B, lambda l, r, o: o == 0)
    def left_contract(self, A, B): return self.bilinear(A, B, lambda l, r, o: r - l == o)
    def right_contract(self, A, B): return self.bilinear(A, B, lambda l, r, o: l - r == o)
    def n_product(self, A, B, masks): return self.keep(self.mul(A, B), masks)

    @staticmethod
    def keep(A, masks): return {m: v for m, v in A.items() if m in masks}
    def grade(self, A, gs): return {m: v for m, v in A.items() if popcount(m) in gs}
    def diag(self, A, f): return {m: v * f(m) for m, v in A.items()}
    def neg(self, A): return self.diag(A, lambda m: -1)
    def scale(self, A, s): return {m: v * s for m, v in A.items()}

    def add(self, A, B, sign=1):
        out = dict(A)
        for m, v in B.items():
            out[m] = out[m] + v * sign if m in out else v * sign
        return out

    def reverse(self, A): return self.diag(A, lambda m: -1 if (popcount(m) // 2) & 1 else 1)
    def involute(self, A): return self.diag(A, lambda m: -1 if popcount(m) & 1 else 1)
    def conjugate(self, A): return self.involute(self.reverse(A))
    def scalar_negation(self, A): return self.diag(A, lambda m: -1 if m else 1)
    study_conjugate = scalar_negation
    def pseudoscalar_negation(self, A): return self.diag(A, lambda m: 1 if popcount(m) in (0, self.n) else -1)

    # dualities
    def _map(self, A, sign): return {m ^ self.pss: v * sign(m) for m, v in A.items()}
    def right_complement(self, A): return self._map(A, lambda m: self.swaps(m, self.pss) * self.negs(m))
    def left_complement(self, A): return self._map(A, lambda m: self.swaps(self.pss, m) * self.negs(m))
    def right_complement_dual(self, A): return self._map(A, lambda m: self.swaps(m, m ^ self.pss))
    def left_complement_dual(self, A): return self._map(A, lambda m: self.swaps(m ^ self.pss, m))
    def right_hodge(self, A): return self._map(A, lambda m: self.swaps(m, m ^ self.pss) * self.negs(m))
    def left_hodge(self, A): return self._map(A, lambda m: self.swaps(m ^ self.pss, m) * self.negs(m))
    def right_hodge_inverse(self, A):
        return self._map(A, lambda m: self.swaps(m ^ self.pss, m) * self.negs(m ^ self.pss))
    def left_hodge_inverse(self, A):
        return self._map(A, lambda m: self.swaps(m, m ^ self.pss) * self.negs(m ^ self.pss))
    dual = right_hodge
    dual_inverse = right_hodge_inverse

    def antify(self, op, *a): return self.left_complement(op(*(self.right_complement(x) for x in a)))
    def anti_product(self, A, B): return self.antify(self.mul, A, B)
    def anti_wedge(self, A, B): return self.antify(self.wedge, A, B)
    def anti_inner(self, A, B): return self.antify(self.inner, A, B)
    def anti_scalar_product(self, A, B): return self.antify(self.scalar_product, A, B)
    def left_interior(self, A, B): return self.anti_wedge(self.left_complement(A), B)
    def right_interior(self, A, B): return self.anti_wedge(A, self.right_complement(B))
    def anti_left_interior(self, A, B): return self.antify(self.left_interior, A, B)
    def anti_right_interior(self, A, B): return self.antify(self.right_interior, A, B)
    def regressive(self, A, B): return self.dual_inverse(self.wedge(self.dual(A), self.dual(B)))
    def cross(self, A, B): return self.dual(self.wedge(A, B))

    def commutator(self, A, B):
        return self.scale(self.add(self.mul(A, B), self.mul(B, A), -1), 0.5)
    def anti_commutator(self, A, B):
        return self.scale(self.add(self.mul(A, B), self.mul(B, A)), 0.5)
    def commutator_anti(self, A, B):
        return self.scale(self.add(self.anti_product(A, B), self.anti_product(B, A), -1), 0.5)
    def anti_commutator_anti(self, A, B):
        return self.scale(self.add(self.anti_product(A, B), self.anti_product(B, A)), 0.5)

    def reverse_product(self, A, B): return self.mul(A, self.reverse(B))
    def involute_product(self, A, B): return self.mul(A, self.involute(B))
    def conjugate_product(self, A, B): return self.mul(A, self.conjugate(B))
    def scalar_negation_product(self, A, B): return self.mul(A, self.scalar_negation(B))
    def pseudoscalar_negation_product(self, A, B): return self.mul(A, self.pseudoscalar_negation(B))
    def study_conjugate_product(self, A, B): return self.mul(A, self.study_conjugate(B))
    def anti_reverse_product(self, A, B): return self.antify(self.reverse_product, A, B)

    def squared(self, A): return self.mul(A, A)
    def cubed(self, A): return self.mul(self.mul(A, A), A)
    def full_sandwich(self, R, v): return self.mul(self.mul(R, v), self.reverse(R))
    def sandwich(self, R, v):
        gs = {popcount(m) for m in v}
        return self.grade(self.full_sandwich(R, v), gs)
    def reverse_sandwich(self, R, v): return self.sandwich(self.reverse(R), v)
    def transform(self, R, v):
        p = {popcount(m) & 1 for m in R}
        assert len(p) == 1
        p = p.pop()
        # the sign belongs to each output blade's grade, which equals the grade of the input it came from
        return self.diag(self.sandwich(R, v), lambda m: -1 if (popcount(m) * p) & 1 else 1)
    def inverse_factor(self, A):
        return self.mul(self.reverse(A), self.conjugate(self.mul(A, self.reverse(A))))
    def inverse_factor_alt(self, A):
        return self.mul(self.reverse(A), self.scalar_negation(self.mul(A, self.reverse(A))))
    def inverse_factor_completed(self, A):
        p = self.mul(A, self.reverse(A))
        return self.mul(p, self.conjugate(p))
    def inverse_factor_completed_alt(self, A):
        p = self.mul(A, self.reverse(A))
        return self.mul(p, self.scalar_negation(p))
    def inertia(self, l, r): return self.regressive(l, self.commutator(l, r))
    def study_norm_squared(self, A): return self.scalar_product(A, self.study_conjugate(A))
    def euclidian_factorization(self, A): return self.grade(self.dual(self.mul(A, self.dual(A))), {2})

    # series exponential for small real multivectors (used for nonlinear checks)
    def exp_series(self, A, n=12, sub=40):
        A = {m: np.asarray(v, float) / 2 ** n for m, v in A.items()}
        out = {0: 1.0}
        term = {0: 1.0}
        for k in range(1, sub):
            term = self.scale(self.mul(term, A), 1.0 / k)
            out = self.add(out, term)
            if k > 8:
                break
        for _ in range(n):
            out = self.mul(out, out)
        return out


def dense(A, masks):
    """values of A on the given masks, stacked on the last axis (missing blades are 0)"""
    vals = [np.asarray(A.get(m, 0.0), dtype=float) for m in masks]
    if not vals:
        shape = np.broadcast_shapes(*(np.shape(v) for v in A.values())) if A else ()
        return np.zeros(shape + (0,))
    shape = np.broadcast_shapes(*(v.shape for v in vals), *(np.shape(v) for v in A.values()))
    return np.stack([np.broadcast_to(v, shape) for v in vals], axis=-1)
