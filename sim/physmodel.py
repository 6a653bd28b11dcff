"""Reference for the rigid body engine: one step, one constraint at a time, written out in the model algebra.

State of a world of n bodies: multivectors are dicts mask -> array (n,); inertia maps are arrays (n, out, in) over the ordered
blades of bivectors and antibivectors.  Nothing here imports numga."""
import numpy as np
from .model import MAlg, dense, popcount


def pick(A, i):
    return {m: v[i] for m, v in A.items()}


class Phys:
    def __init__(self, M):
        self.M = M
        self.biv = M.order(M.grades([2]))
        self.anti = M.order(M.grades([M.n - 2]))
        self.pts = M.order(M.grades([M.n - 1]))
        self.q = M.mul({M.pss: 1.0}, {M.pss: 1.0}).get(0, 0.0)      # square of the pseudoscalar

    # ---- study numbers a + b I of the even algebra (I commutes with everything even)
    def parts(self, s):
        a = np.asarray(s.get(0, 0.0), float)
        b = np.asarray(s.get(self.M.pss, 0.0), float) if self.M.n == 4 else np.zeros_like(a)
        return a, b

    def study(self, a, b):
        return {0: a, self.M.pss: b} if self.M.n == 4 else {0: a}

    def sqrt(self, s):
        a, b = self.parts(s)
        with np.errstate(all='ignore'):
            nn = np.sqrt(np.maximum(a * a - self.q * b * b, 0))
            x = np.sqrt(np.maximum((a + nn) / 2, 0))
            y = np.where(x > 0, b / (2 * np.where(x > 0, x, 1)), 0)
        return self.study(x, y)

    def inv(self, s):
        a, b = self.parts(s)
        with np.errstate(all='ignore'):
            d = a * a - self.q * b * b
            return self.study(a / d, -b / d)

    def square(self, m):
        """m ~m of an even element: a study number"""
        M = self.M
        return M.keep(M.mul(m, M.reverse(m)), (0, M.pss) if M.n == 4 else (0,))

    def normalise(self, m):
        return self.M.mul(self.inv(self.sqrt(self.square(m))), m)

    def exp_lin(self, b):
        one = np.ones(np.shape(next(iter(b.values()))))
        return self.normalise(self.M.add(b, {0: one}))

    def log_lin(self, m):
        M = self.M
        den = self.inv({k: v for k, v in m.items() if k == 0 or (M.n == 4 and k == M.pss)})
        return M.grade(M.mul(m, den), {2})

    # ---- linear maps
    def apply(self, K, A, ins, outs):
        v = dense(A, ins)
        r = np.einsum('...oi,...i->...o', K, v)
        return {m: r[..., i] for i, m in enumerate(outs)}

    def inertia(self, points):
        """(n, k) points -> (n, anti, biv)"""
        M = self.M
        sh = np.shape(next(iter(points.values())))
        K = np.zeros(sh[:-1] + (len(self.anti), len(self.biv)))
        for j, b in enumerate(self.biv):
            r = M.inertia(points, {b: np.ones(sh)})
            for i, a in enumerate(self.anti):
                if a in r:
                    K[..., i, j] = r[a].sum(-1)
        return K

    # ---- the engine
    def add_step(self, motor, step):
        return self.M.mul(motor, self.exp_lin(self.M.scale(step, -.5)))

    def relative(self, old, new):
        return self.M.scale(self.log_lin(self.M.reverse_product(new, old)), -2)

    def derivative(self, w, rate):
        M = self.M
        damping = M.neg(M.dual({m: v * w['damping'] for m, v in rate.items()}))
        gravity = M.regressive(w['first_moment'], M.reverse_sandwich(w['motor'], w['gravity']))
        f = M.add(damping, gravity)
        mom = self.apply(w['inertia'], rate, self.biv, self.anti)
        f = M.add(f, M.commutator(mom, rate), -1)
        return self.apply(w['inertia_inv'], M.grade(f, {M.n - 2}), self.anti, self.biv)

    def pre(self, w, dt):
        M = self.M
        f = lambda r: self.derivative(w, r)
        y = w['rate']
        k1 = f(y)
        k2 = f(M.add(y, M.scale(k1, .5 * dt)))
        k3 = f(M.add(y, M.scale(k2, .5 * dt)))
        k4 = f(M.add(y, M.scale(k3, dt)))
        t = M.add(M.add(k2, k3), M.scale(M.add(k1, k4), .5))
        rate = M.add(y, M.scale(t, dt / 3))
        return dict(w, motor=self.add_step(w['motor'], M.scale(rate, dt)), rate=rate)

    def post(self, w, old, dt):
        M = self.M
        motor = self.normalise(w['motor'])
        rate = M.scale(self.relative(M.reverse(motor), M.reverse(old['motor'])), 1 / dt)
        return dict(w, motor=motor, rate=rate)

    def distribute(self, inertia_inv, directions, magnitude, compliance):
        """directions: two lines; returns two steps"""
        M = self.M
        steps = [self.apply(K, d, self.anti, self.biv) for K, d in zip(inertia_inv, directions)]
        tot = compliance + sum(M.regressive(s, d).get(0, 0.0) for s, d in zip(steps, directions))
        mult = {m: v / tot for m, v in magnitude.items()}
        return [M.grade(M.mul(M.scale(s, c), mult), {2}) for s, c in zip(steps, (.5, -.5))]

    def length(self, line):
        """magnitude (a study number) and direction of a line"""
        M = self.M
        s = self.square(line) if M.n == 4 else {0: M.mul(line, M.reverse(line)).get(0, 0.0)}
        mag = self.sqrt(s)
        mag1 = self.M.add(mag, {0: 1e-26})
        return mag, M.grade(M.mul(line, self.inv(mag1)), {M.n - 2})

    def constraint(self, w, c, dt):
        """position pass of one constraint c = (i, j, anchors [dict, dict], compliance)"""
        M = self.M
        ij, anchors, compliance = c['ij'], c['anchors'], c['compliance']
        ms = [pick(w['motor'], i) for i in ij]
        p = [M.sandwich(m, a) for m, a in zip(ms, anchors)]
        mag, d = self.length(M.regressive(p[0], p[1]))
        steps = self.distribute([w['inertia_inv'][i] for i in ij], [M.reverse_sandwich(m, d) for m in ms], mag, compliance / dt ** 2)
        motor = {m: v.copy() for m, v in w['motor'].items()}
        for i, m, s in zip(ij, ms, steps):
            for k, v in self.add_step(m, s).items():
                motor[k][i] = v
        return dict(w, motor=motor)

    def v_constraint(self, w, c):
        M = self.M
        ij, anchors = c['ij'], c['anchors']
        ms = [pick(w['motor'], i) for i in ij]
        vel = [M.sandwich(m, M.inertia(a, pick(w['rate'], i))) for m, a, i in zip(ms, anchors, ij)]
        mag, d = self.length(M.scale(M.add(vel[0], vel[1], -1), -.5))
        steps = self.distribute([w['inertia_inv'][i] for i in ij], [M.reverse_sandwich(m, d) for m in ms], mag, 0.0)
        rate = {m: np.array(v, copy=True) for m, v in w['rate'].items()}
        for i, s in zip(ij, steps):
            for k, v in s.items():
                rate[k][i] += v
        return dict(w, rate=rate)

    def step(self, w, dt, cons):
        new = self.pre(w, dt)
        for c in cons:
            new = self.constraint(new, c, dt)
        new = self.post(new, w, dt)
        for c in cons:
            new = self.v_constraint(new, c)
        return new
