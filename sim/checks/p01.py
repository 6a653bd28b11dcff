"""P01: concurrent callers get exactly what a lone caller gets."""
from ..runner import Check
from ..plangen import Gen
from ..nonlin import nl_values
from .common import sched_spec, simulate


def other_numbers(g, ops):
    """the same calls on operands of the same kind with other values"""
    ins, twin = g.plan['inputs'], {}
    for name in sorted({a for o in ops for a in o.get('a', ()) if a in ins} | {o['in'] for o in ops if 'in' in o}):
        spec = dict(ins[name], seed=g.rng.randrange(10 ** 6))
        if 'fn' in spec and nl_values(spec, g.M(spec['ctx'])) is None:
            continue
        twin[name] = f'i{len(ins)}'
        ins[twin[name]] = spec
    out = []
    for o in ops:
        o = dict(o)
        if 'a' in o:
            o['a'] = [twin.get(a, a) for a in o['a']]
        if 'in' in o:
            o['in'] = twin.get(o['in'], o['in'])
        out.append(o)
    return out


class P01(Check):
    id = 'P01'
    backends = ('numpy', 'python')
    runs = {'quick': 3500, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a random program (1-2 algebras, 1-3 contexts, 2-4 threads running equal, reordered or overlapping sequences of '
            'subspace, label, multilinear and nonlinear calls on cold shared objects) under a random schedule (random walk, round '
            'robin, PCT or parking at a fresh location) at call, line or instruction granularity; non-trivial when at least one '
            'context switch happened inside a library call')
    measure = 'distinct (innermost code location of the preempted task, location where the resumed task was preempted) pairs'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000, 12000]), big=0.0)
        p = g.plan
        nctx = rng.choice([1, 1, 1, 2, 2, 3])
        ctxs = []
        for i in range(nctx):
            a = g.alg() if i == 0 or rng.random() < .3 else rng.randrange(len(p['algs']))
            ctxs.append(g.ctx(a, 'numpy' if rng.random() < .88 else 'python', dtype='float64'))
        for c in ctxs:
            for _ in range(rng.randint(1, 3)):
                g.inp(c)
        for s in p['inputs'].values():
            s['late'] = rng.random() < .5
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        n = rng.randint(1, 6)
        base = []
        for c in ctxs:
            seq = []
            for name, s in p['inputs'].items():
                if s['ctx'] == c and s['late']:
                    seq.append({'id': f'o{g.nop}', 'k': 'mk', 'in': name})
                    g.nop += 1
            regs = g.known(c)
            seq += g.sequence(c, regs, max(1, n // nctx), nl=.12, ew=.05)
            base.append(seq)
        for s in p['inputs'].values():
            if 'fn' in s or 'haz' in s:
                s['late'] = False
        style = rng.choice(['same', 'same', 'shuffled', 'mixed', 'thin'])
        own = rng.random() < .45         # every thread works on numbers of its own
        fns = rng.choice([['inverse'], ['norm_squared'], ['exp'], ['normalized', 'normalized_vec'], ['inverse', 'rdiv', 'normalized']]) if rng.random() < .25 else None
        for t in range(nt):
            order = list(range(len(base)))
            if style in ('shuffled', 'mixed'):
                rng.shuffle(order)
            ops = []
            for i in order:
                ops += g.clone(base[i], shuffle={'same': 0, 'shuffled': .8, 'mixed': .5, 'thin': 0}[style], drop={'thin': .3}.get(style, 0))
            if style == 'mixed' and rng.random() < .5:
                c = rng.choice(ctxs)
                mk = [o for o in ops if o['k'] == 'mk']
                ops = mk + [o for o in ops if o['k'] != 'mk'] + g.sequence(c, g.known(c), 2, nl=.1)
            for _ in range(rng.choice([1, 2]) if fns else 0):       # the same function on operands of another kind
                c = rng.choice(ctxs)
                x = g.nl_input(c, rng.choice(fns)) if g.M(c).n <= 4 else None
                if x:
                    ops.insert(rng.randint(0, len(ops)), {'id': f'o{g.nop}', 'k': 'nl', 'fn': x[0], 'a': x[1]})
                    g.nop += 1
            if t and own:
                ops = other_numbers(g, ops)
            p['threads'].append(ops)
        for s in p['inputs'].values():
            if 'fn' in s or 'haz' in s:
                s['late'] = False
        p['sched'] = sched_spec(rng)
        p['rerun'] = rng.random() < .5
        return p

    def execute(self, plan, explicit, res):
        prog, v = simulate(plan, explicit, res)
        res['nontrivial'] = prog.sim.n_switch > 0
        res['viol'] = v


CHECK = P01()
