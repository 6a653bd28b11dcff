"""P04: an interrupted or failed call leaves no trace."""
import random
import sys

from ..runner import Check
from ..plangen import Gen
from ..program import Program
from .. import core, facts, program
from .common import sched_spec, simulate, Faulty


# ---- calls that must fail: whatever they do, they leave nothing behind
def bad_run(prog, o, *a):
    ctx = prog.env.ctx(o['ctx'])
    try:
        _bad(ctx, o, *a)
    except Exception:
        return None
    return None


def _bad(ctx, o, *a):
    k = o['b']
    x = a[0] if a else None
    S = ctx.algebra.subspace
    if k == 'attr':
        return getattr(x, 'no_such_operation')(x)
    if k == 'blades':
        return S.from_blades([1, 1, 2])
    if k == 'name':
        return getattr(S, 'no_such_subspace')()
    if k == 'grade':
        return S.k_vector(77)
    if k == 'shape':
        return ctx.multivector(x.subspace, [1.0] * (len(x.subspace) + 1))
    if k == 'arity':
        return ctx.operator.product(x.subspace)
    if k == 'type':
        return ctx.operator.product(x.subspace, 'vector')
    if k == 'nomatch':
        return S and ctx.multivector.vector().motor_log()
    if k == 'opargs':
        return ctx.operator.product(x.subspace, x.subspace)(x)
    if k == 'opmissing':
        return ctx.operator.no_such_operator(x.subspace)
    if k == 'partial':
        return ctx.operator.product(x.subspace, x.subspace).partial({5: x})
    if k == 'index':
        return x[999]
    if k == 'bits':
        return S.from_bit_str('01x')
    if k == 'dup':
        return S.blade('xx')
    if k == 'foreign':
        return x * object()
    if k == 'selname':
        return x.select.no_such_subspace()
    if k == 'inv':
        return ctx.multivector.scalar([0.0]).no_inverse_here()
    if k == 'opgrade':
        return x.select[99]
    raise KeyError(k)


BAD = ['attr', 'blades', 'name', 'grade', 'shape', 'arity', 'type', 'nomatch', 'opargs', 'opmissing', 'partial', 'index', 'bits',
       'dup', 'foreign', 'selname', 'inv', 'opgrade']
program.KINDS['bad'] = (bad_run, lambda prog, o, v: None)


class FaultProgram(Program):
    """operations may also run out of stack, or trap floating point errors"""
    tight = 0

    def around(self, o, f):
        if o.get('plain'):
            return f()
        if 'rec' in o:
            depth = 0
            fr = sys._getframe()
            while fr is not None:
                depth, fr = depth + 1, fr.f_back
            old = sys.getrecursionlimit()
            room = o['rec']
            up = room < 0           # a little more every time, until it suffices
            room = 3 if up else room
            while True:
                sys.setrecursionlimit(depth + room)
                try:
                    return f()
                except RecursionError:
                    if not up or room > 200:
                        raise
                    self.tight += 1
                finally:
                    sys.setrecursionlimit(old)
                room -= o['rec']
        if 'fpe' in o:
            import numpy as np
            with np.errstate(all='raise'):
                return f()
        return f()

    def allowed(self, o, e):
        if o.get('plain'):
            return False
        if 'rec' in o and isinstance(e, RecursionError):
            self.tight += 1
            return True
        if 'fpe' in o and isinstance(e, FloatingPointError):
            self.tight += 1
            return True
        return False


class P04(Check):
    id = 'P04'
    backends = ('numpy', 'python')
    runs = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a program of 2-10 library calls over cold shared objects in 1-3 threads; interrupts (KeyboardInterrupt) and '
            'failed allocations (MemoryError) are raised at a seeded event inside chosen calls, other calls get too little stack or '
            'trapping floating point, or are invalid; each faulted call is retried and the whole program is repeated undisturbed on '
            'what is left; non-trivial when at least one fault was delivered')
    measure = 'distinct (code location, fault kind) pairs at which a fault was delivered'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000, 9000]), big=0.0)
        p = g.plan
        ctxs = []
        for i in range(rng.choice([1, 1, 2])):
            ctxs.append(g.ctx(g.alg(), 'numpy' if rng.random() < .9 else 'python', dtype='float64'))
        base = []
        for c in ctxs:
            for _ in range(rng.randint(1, 3)):
                g.inp(c)
            for s in p['inputs'].values():
                if s['ctx'] == c:
                    s['late'] = rng.random() < .3
            seq = [{'id': f'm{n}', 'k': 'mk', 'in': n} for n, s in p['inputs'].items() if s['ctx'] == c and s['late']]
            seq += g.sequence(c, g.known(c), rng.randint(2, 5), nl=rng.choice([.1, .5]), ew=.06)
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                o = facts.gen_fact(g, c, 1 if g.M(c).n < 6 else 0, facts.DEEP if rng.random() < .35 and g.M(c).n < 5 else None)
                if o and rng.random() < .6:         # the subspace exists already
                    seq.append({'id': f'o{g.nop}', 'k': 'sub', 'ctx': c, 's': o['s']})
                    g.nop += 1
                seq += [o] if o else []
            base += seq
        for s in p['inputs'].values():
            if 'fn' in s or 'haz' in s:
                s['late'] = False
        nt = rng.choice([1, 1, 1, 1, 2, 3])
        p['threads'] = [base] + [g.clone(base, shuffle=.5) for _ in range(nt - 1)]
        if nt == 1:
            for o in base:
                if (o['k'] == 'fact' and o['q'] != 'readonly' or 'ctx' not in o and o['k'] not in ('mk', 'gc')) and rng.random() < (.6 if o['k'] == 'fact' else .2):
                    if rng.random() < .6 or o.get('q') in facts.DEEP:
                        o['rec'] = rng.choice([rng.randint(3, 16), rng.randint(3, 40), 60, -1, -2, -3])
                    else:
                        o['fpe'] = 1
            early = [n for n, s in p['inputs'].items() if not s.get('late') and 'fn' not in s and 'haz' not in s]
            for _ in range(rng.choice([0, 0, 1, 3])):
                i = rng.randrange(len(base) + 1)
                c = rng.choice(ctxs)
                a = [n for n in early if p['inputs'][n]['ctx'] == c]
                if a:
                    base.insert(i, {'id': f'o{g.nop}', 'k': 'bad', 'ctx': c, 'b': rng.choice(BAD), 'a': [rng.choice(a)]})
                    g.nop += 1
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'line', 'both', 'call', 'instr']), 'strategy': ['none'], 'seed': 0}
        p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.3, .6, 1.0]), again=.4, extra=.05)
        p['retries'] = rng.choice([0, 2, 3])
        p['rerun'] = True
        return p

    def execute(self, plan, explicit, res):
        prog, v = simulate(plan, explicit, res, cls=FaultProgram)
        fired = [f for f in prog.sim.fired if f[2] in ('intr', 'mem')]
        res['states'] = [f'{a}:{b}:{k}' for (a, b), k in prog.sim.fire_locs]
        res['faults']['recursion limit or floating point trap'] += prog.tight
        res['nontrivial'] = bool(fired or prog.tight)
        res['viol'] = v


CHECK = P04()
