"""P05: no operation changes its operands, earlier results or shared tables."""
import hashlib
import numpy as np

from ..runner import Check
from ..plangen import Gen
from ..program import Program
from ..catalog import OPS
from .. import program
from .p07 import OPTIMISED, SPECIAL
from .common import sched_spec, simulate, Faulty

VIEWS = {'x.getitem', 'x.dynget', 'x.index', 'x.rearrange', 'x.reshape', 'x.take', 'x.repeat'}


def raw(mv):
    v = mv.values
    if isinstance(v, np.ndarray):
        return v.shape, v.dtype.str, v.tobytes()
    if isinstance(v, list):
        return tuple(v)
    if hasattr(v, 'detach'):
        v = v.detach().numpy()
        return v.shape, v.dtype.str, v.tobytes()
    v = np.asarray(v)
    return v.shape, v.dtype.str, v.tobytes()


def digest(mv):
    return hashlib.blake2b(repr(raw(mv)).encode(), digest_size=8).digest(), id(mv.subspace), id(mv.values)


def scribble(v):
    """the client overwrites the numbers of a multivector it owns"""
    if isinstance(v, list):
        for i in range(len(v)):
            v[i] = 777.25
    elif hasattr(v, 'detach'):
        v.fill_(777.25)
    elif isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 777.25


def edit_run(prog, o, x):
    r = o['a'][0]
    if prog.ops[r]['k'] == 'u.pos' or any(q['k'] == 'u.pos' and r in q['a'] for q in prog.ops.values()):      # +x may be x itself
        return None
    with prog.sim.masked():
        for y in (x if isinstance(x, tuple) else (x,)):
            if hasattr(y, 'values') and hasattr(y, 'subspace'):
                # a nonlinear function may hand its operand back where it is its own answer
                if prog.ops[o['a'][0]]['k'] == 'nl' and any(y is z for r, (z, d) in prog.seen.items() if r[0] != o['a'][0]):
                    continue
                scribble(y.values)
                prog.edited.append(y)
    return None


program.KINDS['edit'] = (edit_run, lambda prog, o, v: None)


class Watch(Program):
    """digests of everything that is alive, compared after every operation of any thread"""
    def __init__(self, plan, sim):
        Program.__init__(self, plan, sim)
        self.seen = {}          # register -> (object, digest)
        self.tables = {}        # id -> (array, digest, name)
        self.edited = []
        self.bad = None
        self.after_op = self.watch
        self.n = 0
        self.watched = 0

    def setup(self):
        Program.setup(self)
        for n, v in self.live.items():
            self.note(n, v)

    def note(self, r, v):
        for i, y in enumerate(v if isinstance(v, tuple) else (v,)):
            if hasattr(y, 'values') and hasattr(y, 'subspace'):
                self.seen[r, i] = (y, digest(y))

    def watch(self, o, out):
        self.n += 1
        for key, (y, d) in list(self.seen.items()):
            if any(y is e for e in self.edited):
                if o['k'] == 'edit' and key[0] not in o['a'] and key[0] not in self.aka(o['a'][0]):
                    self.bad = self.bad or f'{program.describe(o)} on a computed result: {key[0]} is the very same object'
                del self.seen[key]
                continue
            self.watched += 1
            if digest(y) != d:
                self.bad = self.bad or f'{self.who(key[0])} changed during {program.describe(o)} ({out.kind})'
                self.seen[key] = (y, digest(y))
        for k, (arr, d, name) in self.tables.items():
            self.watched += 1
            if arr.tobytes() != d:
                self.bad = self.bad or f'{name} changed during {program.describe(o)} ({out.kind})'
                self.tables[k] = (arr, arr.tobytes(), name)
        if out.kind == 'ok' and o['k'] not in ('gc', 'edit', 'sub', 'label', 'opt'):
            self.note(o['in'] if o['k'] == 'mk' else o['id'], out.value)
        self.find_tables()

    def aka(self, r):
        return {self.ops[r]['in']} if r in self.ops and self.ops[r]['k'] == 'mk' else set()

    def find_tables(self):
        for i in self.plan_ctxs():
            ctx = self.env.ctxs[i]
            for key, op in list(getattr(ctx.operator, 'cache', {}).items() if isinstance(getattr(ctx.operator, 'cache', None), dict) else ()):
                k = getattr(op, 'kernel', None)
                if isinstance(k, np.ndarray) and id(k) not in self.tables and k.nbytes < 300000:
                    self.tables[id(k)] = (k, k.tobytes(), f'the kernel of operator {key[0] if isinstance(key, tuple) else key}')
        for r, (y, d) in self.seen.items():
            b = y.subspace.blades
            if id(b) not in self.tables:
                self.tables[id(b)] = (b, b.tobytes(), f'the blade list of the subspace of {r[0]}')

    def plan_ctxs(self):
        return list(self.env.ctxs)

    def who(self, r):
        return f'operand {r}' if r in self.plan['inputs'] else f'the earlier result {program.describe(self.ops[r])}'

    def judge_op(self, o, out=None, env_args=None):
        out = out or self.out[o['id']]
        if out.kind == 'ok' and any(out.value is e or isinstance(out.value, tuple) and any(x is e for x in out.value) for e in self.edited):
            return None         # it was judged when it was returned
        return Program.judge_op(self, o, out)


class JudgedWatch(Watch):
    def watch(self, o, out):
        if self.bad is None:
            m = self.judge_op(o, out)
            if m:
                self.bad = f'{m} (edited before: {len(self.edited)})'
        Watch.watch(self, o, out)


class P05(Check):
    id = 'P05'
    backends = ('numpy', 'python', 'torch')
    runs = {'quick': 3000, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a program of 3-25 library calls by 1-3 threads over operands of many layouts (batched, broadcast, strided, reversed, '
            'either memory order); after every call (completed or aborted) the bytes of all live operands, earlier results, operator kernels '
            'and blade lists are compared with what they were; clients overwrite results they own, and the call that produced them is '
            'repeated; non-trivial when a fault, an edit or a second thread took part')
    measure = 'distinct pairs of code locations between which the baton passed'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000, 9000]), big=0.0)
        p = g.plan
        base = []
        ctxs = []
        a = None
        for i in range(rng.choice([1, 1, 2])):
            if a is None or rng.random() < .5:
                a = g.alg()
            ctxs.append(g.ctx(a, rng.choices(['numpy', 'python', 'torch'], [8, 1, 2])[0]))
        nt = rng.choice([1, 1, 1, 2, 3])
        for c in ctxs:
            for _ in range(rng.randint(2, 4)):
                g.inp(c)
            base += g.sequence(c, g.known(c), rng.randint(3, 12), nl=rng.choice([.05, .3]), blades=.12, ew=.15)
            if rng.random() < .25:
                for o in g.branches(c):
                    base.insert(rng.randint(max([i + 1 for i, q in enumerate(base) if q['id'] in o['a']], default=0), len(base)), o)
        opt = rng.random() < .12
        if opt:         # with the optional implementations, on the operands they are for
            p['algs'].append('x+y+z+w0')
            c = g.ctx(len(p['algs']) - 1, 'numpy', dtype='float64')
            for _ in range(rng.choice([2, 4])):
                x = g.nl_input(c, rng.choice(OPTIMISED), SPECIAL)
                if x:
                    base.insert(rng.randint(0, len(base)), {'id': f'o{g.nop}', 'k': 'nl', 'fn': x[0], 'a': x[1]})
                    g.nop += 1
        p['threads'] = [base] + [g.clone(base, shuffle=.5) for _ in range(nt - 1)]
        if opt:
            base.insert(rng.randint(0, len(base)), {'id': f'o{g.nop}', 'k': 'opt'})
            g.nop += 1
        for t in p['threads']:
            for o in [o for o in t if o['k'] not in VIEWS and o['k'] not in ('gc', 'sub', 'label', 'edit', 'opt')]:
                if rng.random() < .35:
                    users = [i for i, x in enumerate(t) if o['id'] in x.get('a', ()) or x is o]
                    # results of indexing may share memory with what they were taken from: they go along
                    if any(t[i]['k'] in VIEWS for i in users if t[i] is not o):
                        continue
                    i = rng.randint(max(users) + 1, len(t))
                    t.insert(i, {'id': f'o{g.nop}', 'k': 'edit', 'a': [o['id']]})
                    g.nop += 1
                    if rng.random() < .6 and not any(a in g.plan['inputs'] or a in {x['id'] for x in t if x['k'] == 'edit'} for a in ()):
                        ed = {x['a'][0] for x in t if x['k'] == 'edit'}
                        if not any(a in ed for a in o.get('a', ())):
                            n = dict(o, id=f'o{g.nop}')
                            g.nop += 1
                            t.insert(rng.randint(i + 1, len(t)), n)
        # an edited register is never used afterwards
        for t in p['threads']:
            dead, out = set(), []
            for o in t:
                if any(a in dead for a in o.get('a', ())):
                    dead.add(o['id'])
                    continue
                if o['k'] == 'edit':
                    dead.add(o['a'][0])
                out.append(o)
            t[:] = out
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'line', 'both', 'call', 'instr']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .6:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .5, .9]), again=.3, extra=.05)
            p['retries'] = rng.choice([0, 1, 2])
        return p

    def execute(self, plan, explicit, res):
        prog, v = simulate(plan, explicit, res, cls=JudgedWatch, identity=False)
        if prog.bad:
            v = {'kind': 'changed value', 'msg': prog.bad}
        res['stats']['values compared'] += prog.watched
        res['stats']['operations watched'] += prog.n
        res['faults']['result overwritten by its owner'] += len(prog.edited)
        res['nontrivial'] = bool(prog.sim.fired or prog.edited or len(plan['threads']) > 1)
        res['viol'] = v


CHECK = P05()
