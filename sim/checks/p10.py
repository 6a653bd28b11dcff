"""P10: a chain of bodies recovers once disturbances stop; momentum is conserved by every pass; motors stay normalised."""
import copy
import json
import numpy as np

from ..runner import Check, known_findings
from ..plangen import Gen
from .. import core, hist, phys, program
from ..hist import inputs_first, regs_of, interleave
from ..model import dense
from ..physmodel import pick
from .common import finish, make_sim, Faulty, sched_spec

ALGS = ['x+y+w0', 'x+y+z+w0', 'x+y+w+', 'x+y+z+w+', 'x+y+z+', [3, 0, 0], 'x+y+', 'x+w0', 'x+w+']
CALM = 80
ERR = .05           # bounds, an order of magnitude above what undisturbed algebra shows
ENERGY = 10.0
KNOWN = {d.get('id') for d in known_findings('P10')}


class RecProgram(phys.PhysProgram):
    def __init__(self, plan, sim):
        phys.PhysProgram.__init__(self, plan, sim)
        self.bad = None
        self.known = False
        self.passes = 0
        self.calm = 0
        self.worst = {}
        self.sampled = 0

    # ---- measurements on plain numbers
    def plain(self, W, b):
        m, r = W.state(b)
        even = W.M.order(W.M.named('even_grade'))
        return ({k: m[..., i] for i, k in enumerate(even)}, {k: r[..., i] for i, k in enumerate(W.P.biv)})

    def momentum(self, W, motor, rate):
        M, P = W.M, W.P
        mom = P.apply(W.num['inertia'], rate, P.biv, P.anti)
        return M.sandwich(motor, mom)

    def note(self, what, v):
        self.worst[what] = max(self.worst.get(what, 0.0), float(v))

    def check(self, o, what, err, tol):
        self.note(what, err)
        if self.bad is None and not err <= tol:
            self.bad = f'{program.describe(o)}: {what} off by {err:.3g} (allowed {tol:.3g})'

    def exact_rest(self, W, part, b):
        """known finding: a constraint whose anchors have exactly the same velocity turns into 0/0"""
        c = W.constraints(part)
        idx = c.body_idx
        v = b.motor[idx] >> c.anchors_map(b.rate[idx])
        return bool((np.asarray((-(c.connectivity * v).sum(axis=0)).norm().values) == 0).all(-1).any())

    def stepped(self, W, o, parts, dt):
        """one step in pieces, every pass measured; returns the bodies or None if the known finding was met"""
        sim = self.sim
        b = W.bodies
        new = b.pre_integrate(dt)
        for p in parts:
            c = W.constraints(p)
            before = new
            new = c.apply(new, dt=dt)
            with sim.masked():
                self.passed(W, o, p, before, new, 'position')
        new = new.post_integrate(b, dt=dt)
        with sim.masked():
            motor, _ = self.plain(W, new)
            sq = W.M.mul(motor, W.M.reverse(motor))
            e = max(float(np.abs(v - (m == 0)).max()) for m, v in sq.items())
            self.check(o, 'normalisation of the motors', e, 1e-9)
        for p in parts:
            with sim.masked():
                rest = self.exact_rest(W, p, new)
            before = new
            c = W.constraints(p)
            new = c.v_apply(new, dt=dt)
            with sim.masked():
                if rest and 'exact-rest-nan' in KNOWN and not np.isfinite(W.state(new)[1]).all():
                    self.known = True
                    return None
                self.passed(W, o, p, before, new, 'velocity')
        return new

    def passed(self, W, o, part, a, b, what):
        self.passes += 1
        M, P = W.M, W.P
        if any(W.spec['fixed'] and i in W.spec['fixed'] for c in part for i in W.num['cons'][c]['ij']):
            return
        ma, ra = self.plain(W, a)
        mb, rb = self.plain(W, b)
        if what == 'velocity':
            pa, pb = self.momentum(W, ma, ra), self.momentum(W, mb, rb)
            scale = 1 + max(float(np.abs(v).sum()) for v in pa.values())
            d = [float(abs((pb.get(m, 0) - v).sum())) for m, v in pa.items()]
        else:           # what the pass moved, as an impulse
            rel = M.mul(M.reverse(ma), mb)
            step = M.scale(P.log_lin(rel), -2)
            q = self.momentum(W, ma, {m: step.get(m, np.zeros(len(next(iter(ma.values()))))) for m in P.biv})
            scale = 1e-3 + max(float(np.abs(v).sum()) for v in q.values())
            d = [float(abs(v.sum())) for v in q.values()]
        if not np.isfinite(d).all() or not np.isfinite(scale):
            self.check(o, f'momentum exchanged in a {what} pass', float('inf'), 0)
            return
        # in 3 dimensions, anchors that have come apart exchange a screw rather than a line; its pitch is not passed on exactly
        slack = 10 * self.violation(W, a, part) if what == 'velocity' and M.n == 4 else 0
        self.check(o, f'momentum exchanged in a {what} pass', max(d) / scale, 1e-8 + slack)

    def violation(self, W, b, part=None):
        M = W.M
        motor, _ = self.plain(W, b)
        e = 0.0
        for c in W.num['cons'] if part is None else [W.num['cons'][i] for i in part]:
            p = [M.sandwich(pick(motor, i), a) for i, a in zip(c['ij'], c['anchors'])]
            e = max([e] + [abs(float(v)) for v in M.regressive(p[0], p[1]).values()])
        return e

    def energy(self, W, b):
        P = W.P
        _, rate = self.plain(W, b)
        return float(W.M.regressive(P.apply(W.num['inertia'], rate, P.biv, P.anti), rate)[0].sum())

    # ---- operations
    def calm_steps(self, W, o, parts, a, z):
        """undisturbed steps a..z; False when something was found"""
        for i in range(a, z):
            ref = None
            if i % 16 == 3:
                with self.sim.masked():
                    ref = self.ref_step(W, o)
            b = self.stepped(W, o, parts, o['dt'])
            if b is None:
                return False
            W.bodies = b
            with self.sim.masked():
                if ref is not None:
                    self.one_step(W, o, ref)
                e = self.energy(W, b)
                if i < 10:
                    self.top = max(self.top, e)
                elif not e <= ENERGY * self.top + 1e-6:
                    self.bad = self.bad or f'{program.describe(o)}: kinetic energy {e:.3g} after {i + 1} calm steps, {self.top:.3g} at their beginning'
                if not np.isfinite(e):
                    self.bad = self.bad or f'{program.describe(o)}: no finite state after {i + 1} calm steps'
                if self.bad:
                    return False
        return True

    def run_world(self, o):
        W = self.worlds[o['w']]
        if self.known:
            return None
        if o['k'] == 'p.calm':
            if not W.ready:
                W.build(W.saved)
                W.ready = True
            parts = [p for cl in o['classes'] for p in cl]
            self.top = 0.0
            cut = min(2, o['n'])
            go = self.calm_steps(W, o, parts, 0, cut)
            with self.sim.quiet():
                go = go and self.calm_steps(W, o, parts, cut, o['n'])
            if not go:
                return ('world', W.bodies) if self.bad else None
            with self.sim.masked():
                e = self.violation(W, W.bodies)
                self.calm += 1
                self.note('constraint error after the calm', e)
                self.note('energy ratio', self.energy(W, W.bodies) / max(self.top, 1e-12))
                if not e <= ERR:
                    self.bad = self.bad or f'{program.describe(o)}: constraints still violated by {e:.3g} after {o["n"]} undisturbed steps'
            return ('world', W.bodies)
        if o['k'] == 'p.step':
            if o.get('plain') and o.get('onfault') and W.ready:
                self.restarts += 1
                W.crash(o['onfault'])
                W.journal = []
            self.up(W)
            b = self.stepped(W, o, [p for cl in o['classes'] for p in cl], o['dt'])
            if b is not None:
                W.bodies = b
            return ('world', W.bodies)
        if o['k'] == 'p.crash' or o.get('plain') and o.get('onfault'):
            self.restarts += 1
            W.crash(o.get('mode') or o['onfault'])
            W.journal = []
        self.up(W)
        W.do(o)
        return ('world', W.bodies)

    def up(self, W):
        if not W.ready:         # back from the last checkpoint; what happened since is lost
            if W.restore is not None:
                W.bodies, W.cons = W.restore
            else:
                W.build(W.saved)
            W.ready, W.restore = True, None

    def ref_step(self, W, o):
        m, r = self.plain(W, W.bodies)
        n = W.spec['n']
        w = {k: W.num[k] for k in ('gravity', 'damping', 'first_moment', 'inertia', 'inertia_inv')}
        return W.P.step(dict(w, motor=m, rate=r), o['dt'], [W.num['cons'][c] for cl in o['classes'] for c in sorted(x for p in cl for x in p)])

    def one_step(self, W, o, ref):
        self.sampled += 1
        m, r = W.state()
        for what, g, e in (('motor', m, dense(ref['motor'], W.M.order(W.M.named('even_grade')))), ('rate', r, dense(ref['rate'], W.P.biv))):
            err = np.abs(g - e).max() / (1 + np.abs(e).max())
            self.check(o, f'{what} after one step, against the reference', err if np.isfinite(err) else float('inf'), 1e-7)

    def judge_op(self, o, out=None):
        out = out or self.out[o['id']]
        if o['k'] in phys.WK or o['k'] == 'p.calm':
            if out.kind == 'exc':
                return f'{program.describe(o)} raised {type(out.err).__name__}: {str(out.err)[:160]}'
            return self.bad
        return hist.HistProgram.judge_op(self, o, out)


program.KINDS['p.calm'] = (lambda prog, o: prog.run_world(o), None)


class P10(Check):
    id = 'P10'
    backends = ('numpy', 'torch', 'physics')
    runs = {'quick': 900, 'thorough': 20000}
    wall = {'quick': 55, 'thorough': 800}
    child_timeout = 200
    real = 'numga (unmodified sources of the working tree) with its rigid body engine (examples/physics), numpy, torch; stub: the durable store of checkpoints'
    rule = ('a run is one or two simulated processes, each stepping a chain of rigid bodies in 1 to 3 dimensions (flat or elliptic) while '
            'it is disturbed: impulses, displaced bodies, irregular, stalled or missing steps, constraint passes lost, repeated or out of '
            'order, interrupts and failed allocations inside a step, crashes that lose all work since the last checkpoint; then the '
            f'disturbances stop, and within {CALM} steps the constraints must hold again, energy must not have grown, with momentum and '
            'normalisation measured at every pass, and sampled steps compared with the reference')
    measure = 'distinct pairs of code locations at which one process was stopped and another went on'

    def gen(self, rng, tier):
        g = Gen(rng, budget=200, big=0)
        p = g.plan
        p['worlds'] = {}
        nw = rng.choice([1, 1, 1, 2])
        alg = rng.choice(ALGS)
        p['algs'].append(alg)
        backend = 'torch' if rng.random() < .08 else 'numpy'
        c = g.ctx(0, backend, otype=rng.choice(['einsum', 'einsum', 'sparse']), dtype='float64')
        p['threads'] = [self.world(g, rng, f'w{i}', c, rng.choice([2, 4, 8]) if nw == 1 else rng.choice([1, 2])) for i in range(nw)]
        p['sched'] = sched_spec(rng) if nw > 1 else {'mode': 'call', 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        p['sched']['mode'] = 'call'
        p['retries'] = 4
        if rng.random() < .75:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .5]), again=.1, extra=.02)
            for t in p['threads']:
                for o in t:
                    if o['k'] == 'p.calm':
                        for x in (o['id'], o['id'] + '~1'):
                            p['faults']['ops'].pop(x, None)
        return p

    def world(self, g, rng, w, c, nsteps):
        p = g.plan
        M = g.M(c)
        n = rng.choice([2, 3, 4, 5]) if M.n < 4 else rng.choice([2, 3, 4])
        cons = [[i, i + 1] for i in range(n - 1)]
        fixed = rng.choice([[], [], [0], [n - 1]])
        p['worlds'][w] = {'ctx': c, 'n': n, 'k': rng.choice([0, 1]), 'cons': cons, 'chain': rng.choice([.1, .2]), 'seed': rng.randrange(10 ** 6), 'fixed': fixed,
                          'gravity': rng.choice([0, .05]), 'damping': rng.choice([.05, .1, .2]), 'speed': .3, 'size': .05, 'compliance': 10 ** rng.uniform(-9, -5)}

        def nid():
            g.nop += 1
            return f'o{g.nop - 1}'
        red, black = list(range(0, n - 1, 2)), list(range(1, n - 1, 2))
        full = [[cl] for cl in (red, black) if cl]
        ops = [{'id': nid(), 'k': 'p.new', 'w': w, 'ctx': c}]
        for _ in range(nsteps):
            if rng.random() < .5:
                b = rng.randrange(n)
                what = rng.choice(['rate', 'motor'])
                if b not in fixed:
                    ops.append({'id': nid(), 'k': 'p.kick', 'w': w, 'ctx': c, 'body': b, 'what': what, 'seed': rng.randrange(10 ** 6), 'size': .5 if what == 'rate' else .01})
            if rng.random() < .15:      # a stalled step: nothing happens at all
                continue
            cl = json.loads(json.dumps(full))
            r = rng.random()
            if r < .2:                  # lost passes
                cl = [[[x for x in part if rng.random() < .5] for part in q] for q in cl]
                cl = [[part for part in q if part] for q in cl]
                cl = [q for q in cl if q]
            elif r < .35:               # repeated passes
                cl = cl + cl
            elif r < .5:
                cl = cl[::-1]
            elif r < .6:                # one by one
                cl = [[[x]] for q in cl for part in q for x in part]
                rng.shuffle(cl)
            ops.append({'id': nid(), 'k': 'p.step', 'w': w, 'ctx': c, 'dt': rng.choice([1 / 120, 1 / 60, 1 / 40, 1 / 30]), 'classes': cl})
            if rng.random() < .3:
                ops.append({'id': nid(), 'k': 'p.save', 'w': w, 'ctx': c})
            if rng.random() < .12:
                ops.append({'id': nid(), 'k': 'p.crash', 'w': w, 'ctx': c, 'mode': rng.choice(['same', 'obj', 'ctx', 'alg', 'gc'])})
        for o in ops:
            if rng.random() < .4 and o['k'] in ('p.step', 'p.kick'):
                o['onfault'] = rng.choice(['same', 'obj', 'ctx', 'alg', 'gc'])
        if rng.random() < .2 and p['ctxs'][c]['backend'] == 'numpy':
            ins = inputs_first(g, c, 2)
            ops = interleave(rng, [ops, ins + g.sequence(c, regs_of(g, ins, c), rng.randint(1, 4), nl=0, gc=.05)])
        ops.append({'id': nid(), 'k': 'p.calm', 'w': w, 'ctx': c, 'n': CALM, 'dt': rng.choice([1 / 60, 1 / 100]), 'classes': full})
        return ops

    def variants(self, plan):
        yield from Check.variants(self, plan)
        for i, t in enumerate(plan['threads']):
            for j, o in enumerate(t):
                if o['k'] == 'p.calm' and o['n'] > 1:
                    for k in (1, o['n'] // 2):
                        q = json.loads(json.dumps(plan))
                        q['threads'][i][j]['n'] = k
                        yield q

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
        prog = RecProgram(plan, sim)
        v = None
        try:
            prog.run()
        except core.Deadlock as e:
            v = {'kind': 'deadlock', 'msg': str(e)}
        finish(sim, res)
        for t in plan['threads']:
            for o in t:
                if o['k'] == 'p.kick':
                    res['faults']['impulse' if o['what'] == 'rate' else 'displaced body'] += 1
                res['stats']['op ' + o['k']] += 1
        res['faults']['process crashed and restarted'] += prog.restarts
        res['stats']['constraint passes measured'] += prog.passes
        res['stats']['recoveries completed'] += prog.calm
        res['stats']['steps compared with the reference'] += prog.sampled
        res['stats']['known findings met'] += prog.known
        res['simtime'] += sum(o['n'] * o['dt'] for t in plan['threads'] for o in t if o['k'] == 'p.calm')
        res['worst'] = prog.worst
        res['nontrivial'] = prog.calm > 0
        v = v or prog.viol
        if v is None and prog.bad:
            v = {'kind': 'wrong result', 'msg': prog.bad}
        res['viol'] = v


CHECK = P10()
