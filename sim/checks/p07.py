"""P07: nonlinear functions satisfy their defining equations in every history."""
import copy
import importlib

from ..runner import Check
from ..plangen import Gen
from .. import core, program
from ..hist import HistProgram, make_history
from ..nonlin import NLS
from .common import sched_spec, simulate, finish, make_sim, Faulty


def activate(prog, o):
    """the client imports the optional optimised implementations"""
    importlib.import_module('numga.multivector.extension.optimized')


program.KINDS['opt'] = (activate, lambda prog, o, v: None)
OPTIMISED = ['exp', 'normalized', 'exp', 'explog_roundtrip', 'motor_square_root', 'motor_log', 'motor_geometric_mean', 'linnorm_roundtrip', 'motor_split']
SPECIAL = [['nondeg', ['k', 2]], ['deg', ['k', 2]], ['k', 2], ['name', 'even_grade']]       # what the optimised implementations are for


class P07(Check):
    id = 'P07'
    backends = ('numpy', 'torch')
    runs = {'quick': 2600, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a program of 3-40 nonlinear calls (mixed with multilinear ones) by 1-3 threads over 1-4 algebras, operands generated '
            'inside the domain of each function over all kinds of subspaces and batch shapes, with interrupts, failed allocations, garbage '
            'collections, contexts dropped and recreated, and the optional optimised implementations activated at a random moment (possibly '
            'interrupted and retried); every result must satisfy the defining equation of its function in every batch element, in the '
            'arithmetic of the reference algebra; non-trivial when a fault, a second thread, an activation or a second context took part')
    measure = 'distinct pairs of code locations between which the baton passed'

    def nl_ops(self, g, c, n, rng, fns=None):
        out = []
        for _ in range(n):
            x = g.nl_input(c, rng.choice(fns) if fns and rng.random() < .7 else None, SPECIAL if fns else ())
            if x:
                out.append({'id': f'o{g.nop}', 'k': 'nl', 'fn': x[0], 'a': x[1]})
                g.nop += 1
        return out

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000]), big=0.0)
        p = g.plan
        opt = rng.random() < .45
        p['opt'] = opt

        def alg():
            a = g.alg()
            if opt and rng.random() < .75:
                p['algs'][a] = 'x+y+z+w0'
            return a
        torch = not opt and rng.random() < .25          # the optimised implementations are for numpy only, as their module says
        bk = lambda: 'torch' if torch and rng.random() < .6 else 'numpy'
        if rng.random() < .4:       # one caller, long history, things come and go
            p['mode'] = 'history'
            ops = []
            for ph in range(rng.choice([1, 2])):
                first = len(p['ctxs'])
                for i in range(rng.choice([1, 2, 2])):
                    g.ctx(alg(), bk(), dtype='float64')
                cs = list(range(first, len(p['ctxs'])))
                ops += make_history(g, rng, cs, rng.choice([3, 6, 10]), nl=.75)
                for c in cs:
                    for o in self.nl_ops(g, c, rng.choice([0, 2, 5]), rng, OPTIMISED if opt else None):
                        ops.insert(rng.randint(max([i for i, x in enumerate(ops) if x['k'] == 'drop'] + [-1]) + 1, len(ops)), o)
                if ph == 0 and rng.random() < .5:
                    algs = [p['ctxs'][c]['alg'] for c in cs]
                    ops.append({'id': f'o{g.nop}', 'k': 'drop', 'ctxs': cs, 'algs': sorted(set(algs))})
                    g.nop += 1
            p['threads'] = [ops]
        else:
            p['mode'] = 'shared'
            a = alg()
            ctxs = [g.ctx(a, bk(), dtype='float64')]
            if rng.random() < .5:
                ctxs.append(g.ctx(rng.choice([a, alg()]), bk(), dtype='float64'))
            nt = rng.choice([1, 2, 2, 3])
            base = []
            for c in ctxs:
                g.inp(c)
                base += self.nl_ops(g, c, rng.randint(2, 5), rng, OPTIMISED if opt else None)
                base += g.sequence(c, g.known(c), rng.randint(0, 3), nl=.4, ew=.25)
            rng.shuffle(base)
            if not all(set(o.get('a', ())) <= set(p['inputs']) for o in base):
                have, q = set(p['inputs']), []
                pool = list(base)
                while pool:
                    o = next(x for x in pool if set(x.get('a', ())) <= have)
                    pool.remove(o)
                    have.add(o['id'])
                    q.append(o)
                base = q
            p['threads'] = [base] + [g.clone(base, shuffle=.6, drop=rng.choice([0, .3])) for _ in range(nt - 1)]
            p['rerun'] = rng.random() < .5
        if opt:
            t = rng.choice(p['threads'])
            t.insert(rng.randint(0, len(t)), {'id': f'o{g.nop}', 'k': 'opt'})
            g.nop += 1
        nt = len(p['threads'])
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'both', 'call']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .55:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .5, .9]), again=.3, extra=.03)
            for o in [o for t in p['threads'] for o in t if o['k'] == 'opt']:
                if rng.random() < .6:
                    p['faults']['ops'][o['id']] = [rng.choice(Faulty.KINDS)]
            p['retries'] = rng.choice([0, 1, 2])
        return p

    def execute(self, plan, explicit, res):
        n = sum(len(t) for t in plan['threads'])
        for t in plan['threads']:
            for o in t:
                res['faults']['optimised implementations activated'] += o['k'] == 'opt'
        if plan['mode'] == 'history':
            sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
            prog = HistProgram(plan, sim)
            prog.run()
            finish(sim, res)
            for o in plan['threads'][0]:
                res['stats']['op ' + (o['k'] if o['k'] != 'nl' else 'nl.' + o['fn'])] += 1
            res['faults']['context or algebra dropped'] += sum(o['k'] == 'drop' for o in plan['threads'][0])
            v = prog.viol
        else:
            prog, v = simulate(plan, explicit, res)
        res['nontrivial'] = bool(prog.sim.fired or len(plan['ctxs']) > 1 or len(plan['threads']) > 1 or plan['opt'])
        res['viol'] = v


CHECK = P07()
