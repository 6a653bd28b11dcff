"""P02: one subspace object per set of blades, however and whenever it is named."""
from ..runner import Check
from ..plangen import Gen, related
from ..catalog import mset, gen_sub
from .. import facts
from .common import sched_spec, finish, simulate, Faulty


class P02(Check):
    id = 'P02'
    backends = ('numpy',)
    runs = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is 1-4 threads constructing and questioning subspaces of 1-2 algebras through random routes (names, grades, '
            'blade lists, attribute and bit-string syntax, slices, set operations, operator outputs, labels), with interrupts, '
            'failed allocations and garbage collections injected into part of them and each faulted construction retried; '
            'non-trivial when a context switch or a fault happened inside a construction')
    measure = 'distinct (location of the preempted task, location where the resumed task was preempted) pairs'

    def gen(self, rng, tier):
        g = Gen(rng, budget=3000, big=.15)
        p = g.plan
        ctxs = [g.ctx(g.alg(), 'numpy', 'einsum', 'float64') for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .3:       # an algebra that is easily confused with another
            p['algs'].append(related(rng, p['algs'][0]))
            ctxs.append(g.ctx(len(p['algs']) - 1, 'numpy', 'einsum', 'float64'))
        base = []
        for _ in range(rng.randint(2, 12)):
            c = rng.choice(ctxs)
            M = g.M(c)
            if rng.random() < .55:
                o = facts.gen_fact(g, c, (2 if M.n <= 5 else 0))
                if o:
                    base.append(o)
            else:
                base += g.sequence(c, g.known(c), 1, nl=0, subs=.7, labels=.3, blades=0)
        if len(p['algs']) > 1 and rng.random() < .4:
            base += [o for o in (facts.gen_fact(g, c, 0, ['algebra']) for c in rng.sample(ctxs, len(ctxs))) if o]
        if len(p['algs']) > 1 and p['algs'][-1] is not p['algs'][0] and rng.random() < .6:
            for o in [o for o in base if o['k'] == 'fact']:     # the same questions to the other algebra
                c = ctxs[-1] if o['ctx'] != ctxs[-1] else ctxs[0]
                if g.M(c).n == g.M(o['ctx']).n and o['q'] not in ('named', 'bulk'):
                    base.append(dict(o, ctx=c, id=f'o{g.nop}'))
                    g.nop += 1
            if all('a' not in o for o in base):
                rng.shuffle(base)
        nt = rng.choice([1, 1, 2, 2, 3, 4])
        for t in range(nt):
            p['threads'].append(g.clone(base, shuffle=rng.choice([0, 1]), drop=rng.choice([0, .3])) if t else base)
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'both', 'instr']), 'strategy': ['none'], 'seed': 0}
        if rng.random() < .6:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.15, .5, .9]), extra=.1)
            p['retries'] = 3
        p['rerun'] = True
        return p

    def execute(self, plan, explicit, res):
        prog, v = simulate(plan, explicit, res)
        res['nontrivial'] = bool(prog.sim.n_switch or prog.sim.fired)
        res['viol'] = v


CHECK = P02()
