"""P09: rigid body worlds can be crashed and resumed; independent constraints commute; unconnected bodies do not interact."""
import copy
import json

from ..runner import Check
from ..plangen import Gen
from .. import hist, phys
from ..hist import inputs_first, regs_of, interleave
from .common import finish, make_sim, Faulty, sched_spec
from .. import core

ALGS = ['x+y+w0', 'x+y+z+w0', 'x+w0', 'x+y+w+', 'x+y+z+w+', 'x+y+w-', 'x+w+', 'x+y+z+w-', 'x+y+', 'x+y+z+', [3, 0, 0], [2, 0, 1], [3, 0, 1]]
DTS = [1 / 240, 1 / 60, 1 / 60, 1 / 30, 1 / 20]


def colour(rng, cons, ids):
    """random partition of some constraints into classes in which no body occurs twice, each class split into parts"""
    ids = list(ids)
    rng.shuffle(ids)
    classes = []
    for c in ids:
        for cl in classes:
            if not any(set(cons[c]) & set(cons[d]) for d in cl):
                cl.append(c)
                break
        else:
            classes.append([c])
    rng.shuffle(classes)
    return [sorted(cl) for cl in classes]


def parts(rng, cl):
    cl = list(cl)
    rng.shuffle(cl)
    out = []
    while cl:
        k = rng.choice([1, 2, len(cl)])
        out.append(cl[:k])
        del cl[:k]
    return out


class P09(Check):
    id = 'P09'
    backends = ('numpy', 'torch', 'physics')
    runs = {'quick': 1500, 'thorough': 40000}
    wall = {'quick': 50, 'thorough': 800}
    real = 'numga (unmodified sources of the working tree) with its rigid body engine (examples/physics), numpy, torch; stub: the durable store of checkpoints'
    rule = ('a run is one to three simulated processes, each stepping a world of rigid bodies in 1 to 3 dimensions (flat, elliptic or '
            'hyperbolic), interleaved by the scheduler over shared or separate algebras; faults end a step anywhere inside, after which '
            'the step is retried or the process is restarted from its last checkpoint in a new world, context or algebra; constraints '
            'without common bodies are permuted and regrouped from step to step, bodies renumbered, worlds split and rejoined; after '
            'every operation the state is compared with an independent reference that applies one constraint at a time, undisturbed')
    measure = 'distinct pairs of code locations at which one process was stopped and another went on'

    def gen(self, rng, tier):
        g = Gen(rng, budget=200, big=0)
        p = g.plan
        nw = rng.choice([1, 1, 1, 2, 2, 3])
        p['worlds'] = {}
        first = rng.choice(ALGS)
        backend = 'torch' if rng.random() < .12 else 'numpy'
        threads = []
        for i in range(nw):
            if i == 0 or rng.random() < .35:
                if i and rng.random() < .5:
                    p['algs'].append(copy.deepcopy(p['algs'][0]))
                else:
                    p['algs'].append(first if not i else rng.choice(ALGS))
                c = g.ctx(len(p['algs']) - 1, backend, otype=rng.choice(['einsum', 'einsum', 'sparse']), dtype='float64')
            else:
                c = rng.choice(range(len(p['ctxs'])))
            threads.append(self.world(g, rng, f'w{i}', c, rng.choice([2, 3, 5, 8]) if nw == 1 else rng.choice([1, 2, 3])))
        if nw > 1 and rng.random() < .4:    # several processes, one at a time
            threads = [interleave(rng, threads)]
        p['threads'] = threads
        p['sched'] = sched_spec(rng) if len(threads) > 1 else {'mode': rng.choice(['call', 'line', 'line', 'both']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .6:
            p['sched']['mode'] = 'call'
        p['retries'] = 4
        if rng.random() < .75:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .5]), again=.15, extra=.03)
        return p

    def world(self, g, rng, w, c, nsteps):
        p = g.plan
        M = g.M(c)
        nd = M.n - 1
        n = rng.choice([1, 2, 3, 4, 5, 6]) if nd < 3 else rng.choice([1, 2, 3, 4])
        pairs = [[i, j] for i in range(n) for j in range(n) if i != j]
        cons = rng.sample(pairs, min(len(pairs), rng.choice([0, 1, 2, 3, 4]))) if pairs else []
        p['worlds'][w] = {'ctx': c, 'n': n, 'k': rng.choice([0, 1, 3]), 'cons': cons, 'seed': rng.randrange(10 ** 6),
                          'fixed': [rng.randrange(n)] if rng.random() < .3 else [], 'gravity': rng.choice([0, .05, 1.0]), 'damping': rng.choice([0, 1e-3, .05]),
                          'speed': rng.choice([.1, .3, 1.0]), 'size': rng.choice([.05, .1, .3])}

        def nid():
            g.nop += 1
            return f'o{g.nop - 1}'
        ops = [{'id': nid(), 'k': 'p.new', 'w': w, 'ctx': c}]
        dt = rng.choice(DTS)
        for _ in range(nsteps):
            if rng.random() < .2:
                ops.append({'id': nid(), 'k': 'p.kick', 'w': w, 'ctx': c, 'body': rng.randrange(n), 'what': rng.choice(['rate', 'motor']), 'seed': rng.randrange(10 ** 6), 'size': rng.choice([.01, .1, .5])})
            if rng.random() < .2:
                ops.append({'id': nid(), 'k': 'p.look', 'w': w, 'ctx': c})
            o = {'id': nid(), 'k': 'p.step', 'w': w, 'ctx': c, 'dt': dt if rng.random() < .7 else rng.choice(DTS), 'seed': rng.randrange(10 ** 6),
                 'classes': [parts(rng, cl) for cl in colour(rng, cons, range(len(cons)) if rng.random() < .8 else rng.sample(range(len(cons)), len(cons) // 2))]}
            v = rng.choice([None, None, 'pieces', 'perm', 'split'])
            if v:
                o['via'] = v
            ops.append(o)
            if rng.random() < .35:
                ops.append({'id': nid(), 'k': 'p.save', 'w': w, 'ctx': c})
            if rng.random() < .12:
                ops.append({'id': nid(), 'k': 'p.crash', 'w': w, 'ctx': c, 'mode': rng.choice(['same', 'obj', 'obj', 'ctx', 'alg', 'keep', 'gc'])})
        for o in ops:
            if rng.random() < .5:
                o['onfault'] = rng.choice(['same', 'obj', 'obj', 'ctx', 'alg', 'keep', 'gc'])
        if rng.random() < .3 and p['ctxs'][c]['backend'] == 'numpy':
            ins = inputs_first(g, c, 2)
            noise = ins + g.sequence(c, regs_of(g, ins, c), rng.randint(1, 4), nl=0, gc=.05)
            ops = interleave(rng, [ops, noise])
        return ops

    def variants(self, plan):
        yield from Check.variants(self, plan)
        for i, t in enumerate(plan['threads']):
            for j, o in enumerate(t):
                for k in ('via', 'onfault'):
                    if isinstance(o.get(k), str):
                        q = json.loads(json.dumps(plan))
                        del q['threads'][i][j][k]
                        yield q
                if o.get('classes'):
                    for a in range(len(o['classes'])):
                        q = json.loads(json.dumps(plan))
                        del q['threads'][i][j]['classes'][a]
                        yield q

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
        prog = phys.PhysProgram(plan, sim)
        v = None
        try:
            prog.run()
        except core.Deadlock as e:
            v = {'kind': 'deadlock', 'msg': str(e)}
        finish(sim, res)
        for t in plan['threads']:
            for o in t:
                res['stats']['op ' + o['k']] += 1
                if isinstance(o.get('via'), str):
                    res['stats']['step via ' + o['via']] += 1
        res['faults']['process crashed and restarted'] += prog.restarts
        res['stats']['states compared'] += prog.compared
        res['nontrivial'] = prog.compared > 1
        res['worst'] = prog.worst
        v = v or prog.viol
        if v is None:
            m = prog.identity_violation()
            v = m and {'kind': 'subspace identity', 'msg': m}
        res['viol'] = v


CHECK = P09()
