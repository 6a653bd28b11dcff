"""Rigid body worlds under the simulator.

A world lives in the memory of a simulated process; only what a 'p.save' wrote survives a crash.  Operations on a world:
  p.step   one time step; 'classes' is a list of classes of constraints that share no body, each class a list of parts that are
           applied in turn (order and grouping within a class must not matter); 'via': how the step is carried out (in one go, in
           the pieces integrate consists of, on slices of the bodies, with the bodies renumbered)
  p.kick   an impulse on, or displacement of, one body
  p.save   the durable copy of the changing numbers
  p.crash  the process dies and comes back from the durable copy; 'mode': what else survives in memory
When a fault ends an operation, the world either survives (the caller retries) or the process is gone ('onfault')."""
import gc
import numpy as np
from . import program
from .hist import HistProgram, LazyEnv
from .execute import make_context, values_np, malg
from .physmodel import Phys, pick
from .model import dense

WK = ('p.new', 'p.step', 'p.kick', 'p.save', 'p.crash', 'p.look')


# ------------------------------------------------------------------------------------------ initial numbers
def numbers(spec, M):
    """static numbers and initial state of a world, as model values"""
    P = Phys(M)
    rs = np.random.RandomState(spec['seed'])
    n, k = spec['n'], spec['k']
    org = 1 << (M.n - 1)
    axes = [1 << i for i in range(M.n - 1)]

    def points(d):
        """d: (..., ndim) displacements from the origin"""
        return M.dual_inverse({org: np.ones(d.shape[:-1]), **{a: d[..., i] for i, a in enumerate(axes)}})
    size = spec.get('size', .1)
    nd = len(axes)
    # a cloud around the origin in general position, and some more points
    base = np.concatenate([np.eye(nd), -np.eye(nd)])[:, :] * size
    extra = rs.uniform(-size, size, (n, k, nd))
    cloud = np.concatenate([np.broadcast_to(base, (n,) + base.shape) * rs.uniform(.6, 1.4, (n, 1, 1)), extra], axis=1)
    pts = points(cloud)
    pos = np.zeros((n, nd))
    if spec.get('chain'):
        pos[:, -1] = np.arange(n) * spec['chain']
    else:
        pos[:] = rs.uniform(-.4, .4, (n, nd)) * (.5 if M.negm else 1)
    # translators with half the displacement, exactly normalised
    tr = M.add({0: np.ones(n)}, {a | org: pos[:, i] * -.5 * (1 if True else 0) for i, a in enumerate(axes)})
    tr = {m: v for m, v in tr.items()}
    motor = P.normalise(tr)
    o = points(np.zeros((n, nd)))
    # which sign of the generator moves the origin along +axis is settled by trying
    got = M.sandwich(motor, o)
    want = points(pos)
    if sum(float((got[m] * want[m]).sum()) for m in want if m != M.pss ^ org) < 0:
        motor = P.normalise({m: (v if m == 0 else -v) for m, v in tr.items()})
    if not spec.get('chain') and nd > 1:
        rot = {b: rs.uniform(-.5, .5, n) for b in P.biv if not b & org}
        motor = P.normalise(M.mul(motor, P.exp_lin(rot)))
    motor = {m: motor.get(m, np.zeros(n)) for m in M.named('even_grade')}
    rate = {b: rs.uniform(-1, 1, n) * spec.get('speed', .3) for b in P.biv}
    cons = []
    for i, j in spec['cons']:
        if spec.get('chain'):
            mid = (pos[i] + pos[j]) / 2
        else:
            mid = (pos[i] + pos[j]) / 2 + rs.uniform(-.05, .05, nd)
        mp = points(mid)
        anchors = [M.reverse_sandwich(pick(motor, b), mp) for b in (i, j)]
        cons.append({'ij': (i, j), 'anchors': anchors, 'compliance': spec.get('compliance') or float(10 ** rs.uniform(-9, -3))})
    K = P.inertia(pts)
    Kinv = np.linalg.inv(K)
    for b in spec.get('fixed', ()):
        Kinv[b] = 0
    grav = {m: v * rs.uniform(.5, 1.5) * spec.get('gravity', 0.0) for m, v in points(np.zeros((n, nd))).items()}
    g = M.dual_inverse({axes[0]: np.full(n, spec.get('gravity', 0.0))})
    grav = {m: g.get(m, np.zeros(n)) for m in P.pts}
    return {'points': pts, 'motor': motor, 'rate': rate, 'gravity': grav, 'damping': np.full(n, spec.get('damping', 0.0)),
            'first_moment': {m: v.sum(-1) for m, v in pts.items()}, 'inertia': K, 'inertia_inv': Kinv, 'cons': cons}


def kick_value(o, P):
    rs = np.random.RandomState(o['seed'])
    return {b: rs.uniform(-1, 1) * o['size'] for b in P.biv}


# ------------------------------------------------------------------------------------------ the reference
class Ref:
    def __init__(self, plan, name):
        self.spec = plan['worlds'][name]
        M = malg(plan['algs'][plan['ctxs'][self.spec['ctx']]['alg']])
        self.P = Phys(M)
        self.num = numbers(self.spec, M)
        self.state = {k: self.num[k] for k in ('motor', 'rate', 'gravity', 'damping', 'first_moment', 'inertia', 'inertia_inv')}

    def apply(self, o):
        w, P = self.state, self.P
        if o['k'] == 'p.step':
            cons = [self.num['cons'][c] for cl in o['classes'] for c in sorted(x for part in cl for x in part)]
            self.state = P.step(w, o['dt'], cons)
        elif o['k'] == 'p.kick':
            v = kick_value(o, P)
            b = o['body']
            if o['what'] == 'rate':
                rate = {m: np.array(x, copy=True) for m, x in w['rate'].items()}
                for m, x in v.items():
                    rate[m][b] += x
                self.state = dict(w, rate=rate)
            else:
                new = P.add_step(pick(w['motor'], b), v)
                motor = {m: np.array(x, copy=True) for m, x in w['motor'].items()}
                for m, x in new.items():
                    motor[m][b] = x
                self.state = dict(w, motor=motor)


# ------------------------------------------------------------------------------------------ the real thing
class World:
    """the process memory of one simulated process"""
    def __init__(self, prog, name):
        self.prog = prog
        self.name = name
        self.spec = prog.plan['worlds'][name]
        self.M = prog.env.malg_of_ctx(self.spec['ctx'])
        self.P = Phys(self.M)
        self.num = numbers(self.spec, self.M)
        self.ctx = None
        self.bodies = None
        self.sets = {}
        self.saved = None       # durable: (motor, rate) arrays
        self.journal = []       # operations since (known to the harness, not to the process)
        self.past = []
        self.savedobj = self.restore = None
        self.ready = False      # the process is up and has caught up

    def mv(self, A, masks):
        v = dense(A, masks)
        if self.prog.plan['ctxs'][self.spec['ctx']]['backend'] == 'torch':
            import torch
            v = torch.tensor(v)
        return self.ctx.multivector(self.ctx.algebra.subspace.from_blades(list(masks)), v)

    def build(self, state=None):
        """construct everything from numbers, as a fresh process would"""
        from numga.examples.physics.core import Body, Constraint
        M, P = self.M, self.P
        if self.ctx is None:
            self.ctx = self.prog.env.ctx(self.spec['ctx'])
        even = M.order(M.named('even_grade'))
        b = Body.from_point_cloud(self.mv(self.num['points'], P.pts))
        b = b.copy(motor=self.mv(self.num['motor'], even), rate=self.mv(self.num['rate'], P.biv),
                   gravity=self.mv(self.num['gravity'], P.pts), damping=self.mv({0: self.num['damping']}, (0,)))
        for i in self.spec.get('fixed', ()):
            b.inertia_inv = b.inertia_inv.at[i].set(0)
        if state is not None:
            s = self.ctx.algebra.subspace
            b = b.copy(motor=self.ctx.multivector(s.from_blades(list(even)), self.arr(state[0])),
                       rate=self.ctx.multivector(s.from_blades(list(P.biv)), self.arr(state[1])))
        c = self.num['cons']
        sets = None
        if c:
            anchors = {m: np.array([[x['anchors'][a].get(m, 0.0) for x in c] for a in (0, 1)]) for m in P.pts}
            sets = Constraint(np.array([[x['ij'][a] for x in c] for a in (0, 1)]), self.mv(anchors, P.pts),
                              self.mv({0: np.array([x['compliance'] for x in c])}, (0,)))
        self.cons = sets
        self.bodies = b

    def arr(self, a):
        if self.prog.plan['ctxs'][self.spec['ctx']]['backend'] == 'torch':
            import torch
            return torch.tensor(a)
        return a.copy()

    def state(self, b=None):
        """the changing numbers, over all even blades and all bivectors"""
        b = b or self.bodies
        out = []
        for x, masks in ((b.motor, self.M.order(self.M.named('even_grade'))), (b.rate, self.P.biv)):
            v = np.asarray(values_np(x), float)
            at = {int(m): i for i, m in enumerate(x.subspace.blades)}
            out.append(np.stack([v[..., at[m]] if m in at else np.zeros(v.shape[:-1]) for m in masks], -1))
        return out

    def crash(self, mode):
        """the process dies; memory is lost up to what 'mode' says"""
        prog = self.prog
        spec = prog.plan['ctxs'][self.spec['ctx']]
        old = self.ctx
        self.restore = None
        self.bodies = self.cons = None
        self.ready = False
        if mode == 'obj' and self.savedobj is not None:     # the bodies as they were, kept by reference
            self.restore = self.savedobj
        if mode == 'same' or mode == 'obj':
            pass                            # a new world in the same process
        elif mode == 'ctx':
            self.ctx = make_context(spec, old.algebra)
        else:
            self.ctx = make_context(spec, prog.env.make_alg(prog.plan['algs'][spec['alg']]))
            if mode == 'keep':
                self.past.append(old)
        if self.ctx is not old:
            self.savedobj = None
        old = None
        if mode == 'gc':
            with prog.sim.masked():
                gc.collect()

    # ---------------------------------------------------------------------------------- one operation
    def pieces(self, b, sets, dt):
        new = b.pre_integrate(dt)
        for c in sets:
            new = c.apply(new, dt=dt)
        new = new.post_integrate(b, dt=dt)
        for c in sets:
            new = c.v_apply(new, dt=dt)
        return new

    def constraints(self, idx, renum=None):
        key = (tuple(idx), None if renum is None else tuple(renum))
        c = self.cons[np.array(idx)]
        if renum is not None:
            from numga.examples.physics.core import Constraint
            c = Constraint(np.asarray(renum)[np.asarray(values_idx(c.body_idx))], c.anchors, c.compliance)
        return c

    def step(self, o):
        b, dt, via = self.bodies, o['dt'], o.get('via')
        parts = [part for cl in o['classes'] for part in cl]
        n = self.spec['n']
        if via == 'perm':
            perm = np.random.RandomState(o['seed']).permutation(n)
            inv = np.argsort(perm)          # body i is now called inv[i]
            nb = b[perm].integrate(dt, [self.constraints(p, inv) for p in parts])
            return nb[inv]
        if via == 'split':
            comp = components(n, [self.num['cons'][c]['ij'] for p in parts for c in p])
            groups = [g for g in comp]
            order = np.random.RandomState(o['seed']).permutation(len(groups))
            # a few separate worlds
            k = min(len(groups), 1 + o['seed'] % 3)
            worlds = [sorted(x for i in order[q::k] for x in groups[i]) for q in range(k)]
            out = None
            for ids in worlds:
                renum = np.full(n, -1)
                renum[ids] = np.arange(len(ids))
                mine = [[c for c in p if self.num['cons'][c]['ij'][0] in ids] for p in parts]
                r = b[np.array(ids)].integrate(dt, [self.constraints(p, renum) for p in mine if p])
                out = r if out is None else out.concatenate(r)
            flat = np.array([i for ids in worlds for i in ids])
            return out[np.argsort(flat)]
        sets = [self.constraints(p) for p in parts]
        if via == 'pieces':
            return self.pieces(b, sets, dt)
        return b.integrate(dt, sets)

    def kick(self, o):
        from numga.examples.physics.core import motor_add_step
        b = self.bodies
        v = self.mv(kick_value(o, self.P), self.P.biv)
        i = np.array([o['body']])
        if o['what'] == 'rate':
            return b.copy(rate=b.rate.at[i].set(b.rate[i] + v))
        return b.copy(motor=b.motor.at[i].set(motor_add_step(b.motor[i], v)))

    def do(self, o):
        k = o['k']
        if k == 'p.step':
            self.bodies = self.step(o)
        elif k == 'p.kick':
            self.bodies = self.kick(o)
        elif k == 'p.save':
            with self.prog.sim.masked():
                s = self.state()
            self.saved = s
            self.savedobj = (self.bodies, self.cons)
            self.journal = []
        elif k == 'p.look':
            self.bodies.kinetic_energy()
            repr(self.bodies.motor)
            str(self.bodies.rate.subspace)


def values_idx(x):
    return x.detach().numpy() if hasattr(x, 'detach') else np.asarray(x)


def components(n, edges):
    lab = list(range(n))
    for i, j in edges:
        a, b = lab[i], lab[j]
        if a != b:
            lab = [a if x == b else x for x in lab]
    out = {}
    for i, x in enumerate(lab):
        out.setdefault(x, []).append(i)
    return list(out.values())


class PhysProgram(HistProgram):
    TOL = 1e-7

    def __init__(self, plan, sim):
        HistProgram.__init__(self, plan, sim)
        self.worlds = {w: World(self, w) for w in plan['worlds']}
        self.refs = {w: Ref(plan, w) for w in plan['worlds']}
        self.done = {w: [] for w in plan['worlds']}
        self.restarts = 0
        self.compared = 0
        self.worst = 0.0

    def run_world(self, o):
        W = self.worlds[o['w']]
        if o.get('plain') and o.get('onfault') and W.ready:
            self.restarts += 1
            W.crash(o['onfault'])
        if o['k'] == 'p.crash':
            self.restarts += 1
            W.crash(o['mode'])
        if not W.ready:                     # first use, or after a crash (maybe one during a restart)
            if W.restore is not None:
                W.bodies, W.cons = W.restore
            else:
                W.build(W.saved)
            for x in W.journal:
                W.do(x)
            W.restore = None
            W.ready = True
        W.do(o)
        if o['k'] not in ('p.save', 'p.crash', 'p.new'):
            W.journal.append(o)
        return ('world', W.bodies)

    def eval(self, o, reg):
        if o['k'] in WK:
            return self.run_world(o)
        return HistProgram.eval(self, o, reg)

    def judge_op(self, o, out=None):
        if o['k'] not in WK:
            return HistProgram.judge_op(self, o, out)
        out = out or self.out[o['id']]
        if out.kind in ('skip', 'fault', 'dropped'):
            return None
        if out.kind == 'exc':
            return f'{program.describe(o)} raised {type(out.err).__name__}: {str(out.err)[:160]}'
        with self.sim.masked():
            return self.compare(o, out.value[1])

    def compare(self, o, bodies):
        R, W = self.refs[o['w']], self.worlds[o['w']]
        R.apply(o)
        exp = [dense(R.state['motor'], W.M.order(W.M.named('even_grade'))), dense(R.state['rate'], W.P.biv)]
        got = W.state(bodies)
        self.compared += 1
        for what, g, e in zip(('motor', 'rate'), got, exp):
            if g.shape != e.shape:
                return f'{program.describe(o)}: {what} has shape {g.shape}, expected {e.shape}'
            if not np.isfinite(e).all():
                return None
            err = np.abs(g - e).max() / (1 + np.abs(e).max())
            self.worst = max(self.worst, err if np.isfinite(err) else 9.0)
            if not err <= self.TOL:
                i = np.unravel_index(np.argmax(np.abs(g - e)), g.shape)
                return f'{program.describe(o)}: {what} of body {i[0]} is {g[i[0]].tolist()}, the undisturbed reference has {e[i[0]].tolist()} (error {err:.2e})'
        return None


def _run(prog, o, *a):
    return prog.run_world(o)


for k in WK:
    program.KINDS[k] = (_run, None)
