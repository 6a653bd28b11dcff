"""P15: repeating a workload reaches a steady state."""
import copy
from array import array
import functools
import gc
from sys import getsizeof
from collections import Counter, deque

from ..runner import Check
from ..plangen import Gen
from .. import core, hist
from ..hist import HistProgram, inputs_first, regs_of, hold
from ..catalog import gen_sub, mset
from .. import facts
from .common import sched_spec, Faulty
from .p04 import BAD

WARM, MEAS, LOOP = 3, 7, 8
OPNAMES = ('product', 'wedge', 'inner', 'commutator', 'left_contract', 'regressive', 'scalar_product')
UNARY = ('reverse', 'involute', 'dual', 'pseudoscalar_negation')


class Rep(HistProgram):
    """one repetition on the objects the earlier ones left behind"""
    def __init__(self, plan, sim, env):
        HistProgram.__init__(self, plan, sim)
        fresh = plan.get('fresh')
        if env is not None and not fresh:
            self.env.algs, self.env.ctxs = env.algs, env.ctxs
        elif env is not None:
            self.env.algs = env.algs


MEASURES = ('live objects', 'entries in containers and caches', 'bytes of memory')
CACHE = type(functools.cache(len))
HOLD = (dict, list, set, deque, CACHE)


BASE = []       # containers that existed before the run (everything else that existed then is left out of the counts)


def freeze():
    gc.collect()
    objs = gc.get_objects()
    seen = {}
    for o in gc.get_referents(*objs) + objs:
        if isinstance(o, HOLD) and o is not objs:
            seen[id(o)] = o
    BASE[:] = seen.values()
    del objs, seen
    gc.freeze()


class Table:
    """measurements after each repetition, in storage made beforehand (so that measuring does not itself grow anything)"""
    def __init__(self, n):
        self.i = 0
        self.rows = {k: array('q', bytes(8 * n)) for k in MEASURES}
        self.zero = bytes(8 * n)
        self.types = [t for t in all_types(object, set()) if isinstance(t.__module__, str) and t.__module__.startswith('numga')]
        for t in self.types:
            self.rows[t] = array('q', self.zero)

    def measure(self):
        gc.collect()
        gc.collect()
        objs = gc.get_objects()
        for o in objs:
            r = self.rows.get(type(o))
            if r is not None:
                r[self.i] += 1
        self.rows['live objects'][self.i] = len(objs)
        entries = size = 0
        refs = gc.get_referents(*objs)
        refs += objs
        refs += BASE
        seen = set()
        for o in refs:
            if id(o) not in seen:
                seen.add(id(o))
                t = type(o)
                if t is not CACHE and isinstance(o, HOLD):
                    entries += len(o)
                elif t is CACHE:
                    entries += o.cache_info().currsize
                try:
                    size += getsizeof(o)
                except Exception:
                    pass
        del objs, refs, seen
        self.rows['entries in containers and caches'][self.i] = entries
        self.rows['bytes of memory'][self.i] = size
        self.i += 1


def all_types(t, seen):
    for s in type.__subclasses__(t):
        if s not in seen:
            seen.add(s)
            all_types(s, seen)
    return seen


def kinds():
    gc.collect()
    return Counter(f'{type(o).__module__}.{type(o).__name__}' for o in gc.get_objects())


def growing(xs):
    return len(xs) > 4 and all(b > a for a, b in zip(xs, xs[1:]))


class P15(Check):
    id = 'P15'
    backends = ('numpy', 'python')
    runs = {'quick': 2500, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a workload of 2-14 calls (constructions, linear, bound, indexed and nonlinear functions, subspace questions) '
            'first run up to 3 times with interrupts and failed allocations or by several callers at once, then repeated 10 times '
            'undisturbed, then repeated 8 times with the same aborted calls in each repetition; after each repetition all results '
            'are dropped and live objects, memory blocks and library objects counted; non-trivial when the workload contained an aborted call')
    measure = 'distinct (library object type, count) pairs at the steady state'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000]), big=.02)
        p = g.plan
        ops = []
        a = g.alg()
        for _ in range(rng.choice([1, 1, 2])):
            c = g.ctx(a if rng.random() < .8 else g.alg(), 'numpy' if rng.random() < .9 else 'python')
            x = inputs_first(g, c, rng.randint(1, 2))
            regs = regs_of(g, x, c)
            x += g.sequence(c, dict(regs), rng.choice([1, 3, 8]), nl=0, subs=.2)
            for _ in range(rng.choice([0, 0, 1, 2])):
                i = rng.randrange(len(x)) + 1
                mk = [o for o in x[:i] if o['k'] == 'mk']
                if mk:
                    x.insert(i, {'id': f'o{g.nop}', 'k': 'bad', 'ctx': c, 'b': rng.choice(BAD), 'a': [rng.choice(mk)['in']]})
                    g.nop += 1
            x = hold(g, x, c, regs)
            for _ in range(rng.choice([0, 0, 1])):
                y = g.nl_input(c) if g.M(c).n <= 5 else None
                if y:
                    for n in y[1]:
                        p['inputs'][n]['late'] = True
                        x.append({'id': f'o{g.nop}', 'k': 'mk', 'in': n})
                        g.nop += 1
                    x.append({'id': f'o{g.nop}', 'k': 'nl', 'fn': y[0], 'a': y[1]})
                    g.nop += 1
            for _ in range(rng.choice([0, 0, 2])):
                o = facts.gen_fact(g, c, 1)
                if o:
                    x.append(o)
            ops += x
        p['threads'] = [ops]
        if rng.random() < .25:          # each repetition on contexts of its own, which are dropped at its end
            p['fresh'] = 'ctx'
        if rng.random() < .15:          # a workload with many more subspaces and operators than any cache of a fixed size has room for
            p['bulk'] = [rng.randrange(len(p['ctxs'])), rng.choice([150, 600, 3000]), rng.randrange(10 ** 6)]
        p['cold'] = rng.choice([0, 0, 1, 2, 3])
        p['sched'] = {'mode': rng.choice(['line', 'call']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if p.get('fresh'):      # (an exception raised by a monitor at the call of super().__init__ leaks self in CPython 3.12)
            p['sched']['mode'] = 'line'
        p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .5]), again=0, extra=0) if rng.random() < .7 else None
        if p['faults']:
            p['faults']['rate'] = max(p['faults']['rate'], 3e-4)
        return p

    def variants(self, plan):
        yield from Check.variants(self, plan)
        if plan.get('fresh'):
            yield dict(copy.deepcopy(plan), fresh=None)
        if plan.get('bulk'):
            yield dict(copy.deepcopy(plan), bulk=None)
        if plan['cold']:
            yield dict(copy.deepcopy(plan), cold=0)

    def execute(self, plan, explicit, res):
        freeze()
        env = None
        rec = {'switches': [], 'ends': [], 'faults': [], 'mode': plan['sched']['mode']}
        viol = None
        nf = 0

        def one(phase, faulty, first=True, forced=None, judged=True):
            nonlocal env, viol, nf
            x = forced
            if x is None and (explicit is not None or not faulty):
                x = {'switches': [], 'ends': [], 'faults': [[o[len(phase) + 1:], k, f] for o, k, f in (explicit or {}).get('faults', [])
                                                            if o.startswith(phase + '/')] if faulty else []}
            sim = core.Sim(seed=f'{plan["sched"]["seed"]}:{phase}', mode=plan['sched']['mode'] if faulty else 'call' if judged else 'off', explicit=x,
                           faults=copy.deepcopy(plan['faults']) if faulty else None)
            prog = Rep(plan, sim, env)
            if not judged:
                prog.after_op = None
            prog.run()
            env = prog.env
            res['events'] += sim.events
            res['digest'] = (res['digest'] * 31 + sim.digest) & core.MASK
            if first:
                rec['faults'] += [[f'{phase}/{o}', k, f] for o, k, f in sim.fired]
            for _, _, f in sim.fired:
                res['faults'][f] += 1
            nf += len(sim.fired)
            viol = viol or prog.viol
            fired = list(sim.fired)
            prog.out.clear()
            prog.live.clear()
            prog.held.clear()
            prog.local = None
            if plan.get('fresh'):
                env.ctxs.clear()
            return fired

        faulty = bool(plan['faults']) or explicit is not None and bool(explicit.get('faults'))
        for i in range(plan['cold']):
            one(f'a{i}', faulty)
        for i in range(WARM):
            one('w', False)
        fresh = bool(plan.get('fresh'))
        ids = None if fresh else self.identities(plan, env)
        tab, before = Table(MEAS), kinds()
        for i in range(MEAS):
            one('w', False, judged=False)
            tab.measure()
        res['stats']['operations repeated'] += sum(map(len, plan['threads']))
        if viol is None:
            viol = self.judge(tab, before, 'undisturbed', lambda: one('w', False, judged=False), res)
        if viol is None and not fresh and self.identities(plan, env, ids):
            viol = {'kind': 'not reused', 'msg': self.identities(plan, env, ids)}
        if viol is None and faulty:
            fired = one('c', True)
            forced = {'switches': [], 'ends': [], 'faults': fired}
            tab = Table(LOOP - 2)
            for i in range(LOOP):
                one('c', True, False, copy.deepcopy(forced), False)
                if i == 1:
                    before = kinds()
                if i > 1:
                    tab.measure()
            if viol is None:
                viol = self.judge(tab, before, f'with {[f[0] + "#" + str(f[1]) + " " + f[2] for f in fired]} in each',
                                  lambda: one('c', True, False, copy.deepcopy(forced), False), res)
        res['states'] += [f'{t.__name__}:{tab.rows[t][tab.i - 1]}' for t in tab.types]
        res['nontrivial'] = nf > 0
        res['sched'] = rec
        res['viol'] = viol

    def judge(self, tab, before, how, again, res):
        for t in tab.types:
            xs = tab.rows[t].tolist()
            if growing(xs):
                return {'kind': 'growth', 'msg': f'number of live {t.__name__} objects keeps growing when the workload is repeated ({how}): {xs}'}
        for j in MEASURES:
            xs = tab.rows[j].tolist()
            if growing(xs):
                # free lists and adaptive bytecode settle slowly; a leak does not
                res['stats']['suspected growth examined'] += 1
                tab = Table(3)
                for i in range(3):
                    for _ in range(60):
                        again()
                    tab.measure()
                ys = tab.rows[j].tolist()
                if ys[1] - ys[0] < 60 or ys[2] - ys[1] < 60:
                    continue
                xs = xs + ['...'] + ys
                more = kinds() - before
                return {'kind': 'growth', 'msg': f'the number of {j} keeps growing when the workload is repeated ({how}): {xs}; most grown: {more.most_common(4)}'}
        return None

    def identities(self, plan, env, old=None):
        """subspace and operator objects handed out for the same question; or what changed since"""
        out = {}
        for o in plan['threads'][0]:
            if o['k'] != 'mk' or 'fn' in plan['inputs'][o['in']]:
                continue
            sp = plan['inputs'][o['in']]
            ctx = env.ctx(sp['ctx'])
            b = [int(i) for i in mset(env.malg_of_ctx(sp['ctx']), sp['sub'])]
            s = ctx.algebra.subspace.from_blades(b)
            out[sp['ctx'], tuple(b)] = id(s)
            if len(b) > 8 or not b:
                continue
            for nm in OPNAMES + UNARY:
                args = (s, s) if nm in OPNAMES else (s,)
                out[sp['ctx'], tuple(b), nm] = id(getattr(ctx.operator, nm)(*args))
                f = getattr(ctx.algebra.operator, nm)(*args)
                out[sp['ctx'], tuple(b), nm, 'o'] = id(f.output)
        if plan.get('bulk'):
            c, n, seed = plan['bulk']
            ctx = env.ctx(c)
            for i, s in enumerate(facts.many(ctx.algebra, n, seed)):
                if len(s):
                    out[c, 'bulk', i] = s, ctx.algebra.operator.reverse(s), ctx.operator.reverse(s)
        if old is None:
            return out
        diff = [k for k in old if (any(a is not b for a, b in zip(out[k], old[k])) if isinstance(out[k], tuple) else out[k] != old[k])]
        return f'another object is handed out for {diff[:3]}' if diff else None


CHECK = P15()
