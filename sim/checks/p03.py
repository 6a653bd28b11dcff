"""P03: multilinear operations do not depend on what was computed before."""
import copy

from ..runner import Check
from ..plangen import Gen, related
from .. import core, hist
from ..hist import HistProgram, make_history, interleave
from .common import finish, make_sim, Faulty


class P03(Check):
    id = 'P03'
    backends = ('numpy', 'python')
    runs = {'quick': 4000, 'thorough': 80000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is one history of 5-80 multilinear calls over 1-6 contexts (equal or easily confused algebras, element types, '
            'memory orders, execution strategies), with the same program mirrored on several contexts, operators and partial '
            'applications held across other work, strategy switches, contexts and algebras dropped and recreated, garbage '
            'collections, clock jumps and interrupted calls in between; every result is compared with the reference algebra; '
            'non-trivial when at least two contexts or one fault, reconfiguration or drop took part')
    measure = 'not used (single caller)'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000, 12000, 40000]), big=.05)
        p = g.plan
        phases = rng.choice([1, 1, 2, 3])
        ops = []
        for ph in range(phases):
            first = len(p['ctxs'])
            a0 = len(p['algs'])
            for i in range(rng.choice([1, 2, 2, 3, 4])):
                r = rng.random()
                if i == 0 or r < .2:
                    a = g.alg()
                elif r < .45:
                    p['algs'].append(related(rng, p['algs'][rng.randrange(len(p['algs']))]))
                    a = len(p['algs']) - 1
                else:
                    a = rng.randrange(a0, len(p['algs']))
                g.ctx(a, 'numpy' if rng.random() < .92 else 'python')
            cs = list(range(first, len(p['ctxs'])))
            ops += make_history(g, rng, cs, rng.choice([3, 6, 10, 18]))
            if ph < phases - 1 or rng.random() < .2:
                gone = cs if rng.random() < .7 else [rng.choice(cs)]
                algs = [a for a in {p['ctxs'][c]['alg'] for c in gone} if all(p['ctxs'][c]['alg'] != a or c in gone for c in cs)]
                ops.append({'id': f'o{g.nop}', 'k': 'drop', 'ctxs': gone, 'algs': algs})
                g.nop += 1
        p['threads'] = [ops]
        p['sched'] = {'mode': rng.choice(['call', 'line', 'both']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .5:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.1, .3]), again=0, extra=.03)
        else:
            p['sched']['mode'] = 'call'
        return p

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
        prog = HistProgram(plan, sim)
        prog.run()
        finish(sim, res)
        for o in plan['threads'][0]:
            res['stats']['op ' + o['k']] += 1
        res['faults']['context or algebra dropped'] += sum(o['k'] == 'drop' for o in plan['threads'][0])
        res['faults']['strategy switched'] += sum(o['k'] == 'cfg' for o in plan['threads'][0])
        res['nontrivial'] = bool(sim.fired or len(plan['ctxs']) > 1)
        v = prog.viol
        if v is None:
            m = prog.identity_violation()
            v = m and {'kind': 'subspace identity', 'msg': m}
        res['viol'] = v


CHECK = P03()
