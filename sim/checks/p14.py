"""P14: sparse matrix builders never see each other's entries."""
import itertools
import json
import numpy as np

from ..runner import Check, known_findings
from ..plangen import Gen
from ..program import Program, describe
from .. import program
from ..catalog import mset, nset, support, BIN_PART
from ..execute import values_np, malg, tol_for
from .common import sched_spec, simulate, Faulty

MATOPS = ['product', 'wedge', 'inner', 'commutator', 'regressive', 'left_contract', 'reverse_product']


def gs():
    from numga.examples import ga_sparse
    return ga_sparse


def get_lane(o, v):
    return v[o['ln']] if o.get('ln') is not None else v


KNOWN = {d.get('id') for d in known_findings('P14')}


def new_builder(prog, o):
    ctx = prog.env.ctx(o['ctx'])
    b = gs().Builder(tuple(o['shape']), nset(ctx.algebra, o['s'], ctx.algebra.description.basis_names))
    if 'builder-class-level-entries' in KNOWN and 'entries' not in vars(b):
        b.entries = []      # known: the list is an attribute of the class; everything else about builders is still judged
    return b


def dense_product(prog, o, m, v):
    """the product by way of the dense form; and what it would be had the blocks not been transposed"""
    b = _bound(prog, o, m, v)
    d, x = b.as_dense(), v.values.flatten()
    r, c = m.shape
    i, j = b.block_shape
    return d @ x, d.reshape(r, i, c, j).transpose(0, 3, 2, 1).reshape(r * i, c * j) @ x if i == j else None


K = program.KINDS
nojudge = lambda prog, o, v: prog.judge_mat(o, v)


def kind(name, f):
    K[name] = (f, nojudge)


def _bound(prog, o, m, v):
    return getattr(m, o['op'])(v.subspace)


kind('sb.new', lambda prog, o: new_builder(prog, o))
kind('sb.add', lambda prog, o, b, v: b.add(o['rc'][0], o['rc'][1], get_lane(o, v)))
kind('sb.fin', lambda prog, o, b: b.finalize())
kind('sm.diag', lambda prog, o, v: gs().MatrixContainer.diag(v))
kind('sm.mulc', lambda prog, o, m: m * o['c'])
kind('sm.neg', lambda prog, o, m: -m)
kind('sm.add', lambda prog, o, m, q: m + q)
kind('sm.sub', lambda prog, o, m, q: m - q)
kind('sm.rev', lambda prog, o, m: ~m)
kind('sm.dual', lambda prog, o, m: m.dual())
kind('sm.scal', lambda prog, o, m, v: getattr(m, o['op'])(v))
kind('sm.vec', lambda prog, o, m, v: getattr(m, o['op'])(v))
kind('sm.mat', lambda prog, o, m, q: getattr(m, o['op'])(q))
kind('sm.bvec', lambda prog, o, m, v: _bound(prog, o, m, v)(v))
kind('sm.dense', dense_product)
kind('sm.linop', lambda prog, o, m, v: _bound(prog, o, m, v).as_operator()(np.ascontiguousarray(v.values).flatten()))


class SparseProgram(Program):
    """judges finished matrices against dictionaries of entries"""
    def __init__(self, plan, sim):
        Program.__init__(self, plan, sim)
        self.mats = {}
        self.compared = self.aborted_adds = self.known = 0
        self.n_threads = len(plan['threads'])

    def setup(self):
        Program.setup(self)
        for n, b in self.plan['builders'].items():
            self.live[n] = new_builder(self, b)

    # ---------------------------------------------------------------------------- model
    def vals(self, name, ln=None):
        A = self.model.value(name)[0]
        return {m: (np.asarray(v)[ln] if ln is not None else np.asarray(v)) for m, v in A.items()}

    def M_of(self, r):
        return malg(self.plan['algs'][self.plan['ctxs'][self.mctx(r)]['alg']])

    def mctx(self, r):
        if r in self.plan['builders']:
            return self.plan['builders'][r]['ctx']
        if r in self.plan['inputs']:
            return self.plan['inputs'][r]['ctx']
        o = self.ops[r]
        return o['ctx'] if 'ctx' in o else self.mctx(o['a'][0])

    def ctx_of(self, o):
        return self.mctx(o['id']) if o['id'] in self.ops else Program.ctx_of(self, o)

    def adds(self, b, upto=None):
        """certain and uncertain entries of a builder (those added before operation upto in its thread)"""
        sure, maybe = [], []
        for t in self.plan['threads']:
            here = upto is None or any(o['id'] == upto for o in t)
            for o in t if here else ():
                if o['id'] == upto:
                    break
                if o['k'] == 'sb.add' and o['a'][0] == b:
                    e = (tuple(o['rc']), self.vals(o['a'][1], o.get('ln')))
                    out = self.out.get(o['id'])
                    if out is not None and out.kind == 'ok':
                        sure.append(e)
                    elif out is not None and out.kind == 'fault':
                        maybe.append(e)
        return sure, maybe

    def build(self, entries, M):
        d = {}
        for rc, v in entries:
            d[rc] = M.add(d[rc], v) if rc in d else dict(v)
        return d

    def compare(self, m, shape, d, sub, M, dt):
        if not isinstance(m, gs().MatrixContainer):
            return f'result is {type(m).__name__}'
        if tuple(m.shape) != tuple(shape):
            return f'matrix of shape {m.shape}, expected {shape}'
        blades = [int(b) for b in m.subspace.blades]
        if sub is not None and frozenset(blades) != sub:
            return f'matrix in subspace {blades}, expected {list(M.order(sub))}'
        rc = list(zip((int(i) for i in m.rows), (int(i) for i in m.columns)))
        if rc != sorted(rc) or len(set(rc)) != len(rc):
            return f'entries not in row order or repeated: {rc}'
        if set(rc) != set(d):
            return f'matrix has entries at {rc}, expected {sorted(d)}'
        v = values_np(m.values).astype(float)
        if v.shape != (len(rc), len(blades)):
            return f'values of shape {v.shape} for {len(rc)} entries of {len(blades)} blades'
        for i, p in enumerate(rc):
            m_ = self.cmp(v[i], blades, d[p], dt)
            if m_:
                return f'entry {p}: {m_}'
        self.compared += len(rc)
        return None

    def cmp(self, v, blades, A, dt):
        e = np.array([float(A.get(b, 0)) for b in blades])
        scale = max([1.0] + [abs(float(x)) for x in A.values()])
        gone = [b for b in A if b not in blades and abs(float(A[b])) > tol_for(dt) * scale]
        if gone:
            return f'blades {gone} missing'
        if not np.all(np.abs(v - e) <= tol_for(dt) * scale * 4):
            return f'{v.tolist()} expected {e.tolist()}'
        return None

    def judge_mat(self, o, v):
        k = o['k']
        if k == 'sm.dense':
            m = self.judge_product(o, v[0])
            if m and 'dense-blocks-transposed' in KNOWN and v[1] is not None and not self.judge_product(o, v[1]):
                self.known += 1
                return None
            return m
        return self.judge_product(o, v)

    def judge_product(self, o, v):
        k = o['k']
        if k in ('sb.new', 'sb.add'):
            return None
        M = self.M_of(o['id'])
        dt = self.plan['ctxs'][self.mctx(o['id'])].get('dtype', 'float64')
        if k == 'sb.fin':
            b = self.plan['builders'].get(o['a'][0]) or self.ops[o['a'][0]]
            return self.judge_fin(o, v, b, *self.adds(o['a'][0], o['id']), M, dt)
        if k == 'sm.diag':
            A = self.vals(o['a'][0])
            n = self.plan['inputs'][o['a'][0]]['shape'][0]
            return self.keep(o, v, (n, n), {(i, i): {m: x[i] for m, x in A.items()} for i in range(n)}, mset(M, self.plan['inputs'][o['a'][0]]['sub']), M, dt)
        if o['a'][0] not in self.mats:
            return None
        shape, d, sub = self.mats[o['a'][0]]
        if k == 'sm.mulc':
            return self.keep(o, v, shape, {p: M.scale(x, o['c']) for p, x in d.items()}, sub, M, dt)
        if k == 'sm.neg':
            return self.keep(o, v, shape, {p: M.scale(x, -1) for p, x in d.items()}, sub, M, dt)
        if k == 'sm.rev':
            return self.keep(o, v, shape[::-1], {p[::-1]: M.reverse(x) for p, x in d.items()}, sub, M, dt)
        if k == 'sm.dual':
            return self.keep(o, v, shape, {p: M.dual(x) for p, x in d.items()}, None, M, dt)
        if k in ('sm.add', 'sm.sub', 'sm.mat') and o['a'][1] not in self.mats:
            return None
        if k in ('sm.add', 'sm.sub'):
            s2, e, sub2 = self.mats[o['a'][1]]
            r = {p: dict(x) for p, x in d.items()}
            for p, x in e.items():
                r[p] = M.add(r.get(p, {}), x, 1 if k == 'sm.add' else -1)
            return self.keep(o, v, shape, r, sub and sub2 and sub | sub2, M, dt)
        f = getattr(M, BIN_PART[o['op']])
        if k == 'sm.mat':
            s2, e, sub2 = self.mats[o['a'][1]]
            r = {}
            for (i, j), x in d.items():
                for (jj, l), y in e.items():
                    if j == jj:
                        r[i, l] = M.add(r.get((i, l), {}), f(x, y))
            return self.keep(o, v, (shape[0], s2[1]), r, None, M, dt)
        x = self.vals(o['a'][1])
        if k == 'sm.scal':
            return self.keep(o, v, shape, {p: f(y, x) for p, y in d.items()}, None, M, dt)
        rows = [{} for _ in range(shape[0])]
        for (i, j), y in d.items():
            rows[i] = M.add(rows[i], f(y, {m: c[j] for m, c in x.items()}))
        if k in ('sm.vec', 'sm.bvec'):
            blades = [int(b) for b in v.subspace.blades]
            got = values_np(v)
        else:
            src = self.live.get(o['a'][1])
            op = getattr(src.context.operator, o['op'])(nset(src.context.algebra, ['blades', sorted(self.mats[o['a'][0]][2] or [])], ()), src.subspace) if self.mats[o['a'][0]][2] is not None else None
            if op is None:
                return None
            blades = [int(b) for b in op.operator.output.blades]
            got = np.asarray(v).reshape(shape[0], len(blades))
        if got.shape != (shape[0], len(blades)):
            return f'{describe(o)}: vector of shape {got.shape}, expected {(shape[0], len(blades))}'
        for i in range(shape[0]):
            m = self.cmp(got[i].astype(float), blades, rows[i], dt)
            if m:
                return f'{describe(o)}: row {i}: {m}'
        self.compared += shape[0]
        return None

    def keep(self, o, v, shape, d, sub, M, dt):
        m = self.compare(v, shape, d, sub, M, dt)
        if m:
            return f'{describe(o)}: {m}'
        self.mats[o['id']] = (tuple(shape), d, frozenset(int(b) for b in v.subspace.blades))
        return None

    def judge_fin(self, o, v, b, sure, maybe, M, dt):
        sub = mset(M, b['s'])
        first = None
        for n in range(len(maybe) + 1):
            for extra in itertools.combinations(maybe, n):
                d = self.build(sure + list(extra), M)
                m = self.compare(v, b['shape'], d, sub, M, dt)
                if m is None:
                    self.mats[o['id']] = (tuple(b['shape']), d, sub)
                    return None
                first = first or m
        return f'{describe(o)}: {first} ({len(sure)} entries were added{f", {len(maybe)} more were interrupted" if maybe else ""})'

    def judge_op(self, o, out=None, env_args=None):
        out = out or self.out[o['id']]
        if out.kind == 'exc' and o['k'] == 'sb.fin' and not self.adds(o['a'][0], o['id'])[0]:
            return None          # nothing to finish (all insertions were interrupted)
        if out.kind == 'exc' and o['k'][:2] == 'sm' and any(a not in self.mats for a in o['a'] if a not in self.plan['inputs']):
            return None
        if out.kind == 'exc' and o['k'] in ('sm.vec', 'sm.bvec', 'sm.dense', 'sm.linop') and len({p[0] for p in self.mats[o['a'][0]][1]}) < self.mats[o['a'][0]][0][0]:
            return None          # empty rows are documented as unsupported
        if out.kind == 'exc' and o['k'] == 'sm.dense' and 'dense-blocks-transposed' in KNOWN and isinstance(out.err, ValueError) and 'broadcast' in str(out.err):
            src = self.live[o['a'][1]]
            m = nset(src.context.algebra, ['blades', sorted(self.mats[o['a'][0]][2])], ())
            f = getattr(src.context.operator, o['op'])(m, src.subspace).operator
            if len(f.output) != len(src.subspace):      # known: the blocks are transposed, and not square
                self.known += 1
                return None
        if out.kind == 'exc' and o['k'] == 'sm.mat' and not any(p[1] == q[0] for p in self.mats[o['a'][0]][1] for q in self.mats[o['a'][1]][1]):
            return None          # an empty matrix product
        return Program.judge_op(self, o, out)

    def finish_shared(self):
        """builders that several threads contributed to are finished at the end"""
        for n, b in self.plan['builders'].items():
            sure, maybe = self.adds(n)
            if not sure:
                continue
            M = malg(self.plan['algs'][self.plan['ctxs'][b['ctx']]['alg']])
            o = {'id': 'end:' + n, 'k': 'sb.fin', 'a': [n]}
            try:
                v = self.live[n].finalize()
            except Exception as e:
                return f'finishing the shared builder {n} raised {type(e).__name__}: {e}'
            m = self.judge_fin(o, v, b, sure, maybe, M, self.plan['ctxs'][b['ctx']].get('dtype', 'float64'))
            if m:
                return m
        return None

    def subspaces(self):
        for n, s in Program.subspaces(self):
            yield n, s


class P14(Check):
    id = 'P14'
    backends = ('numpy', 'sparse')
    runs = {'quick': 4000, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 700}
    real = 'numga and numga.examples.ga_sparse (unmodified sources of the working tree), numpy, numpy_indexed, scipy, real threads'
    rule = ('a run has 1-3 threads that create, fill, finish and abandon sparse matrix builders of their own and contribute to shared ones, in '
            'random order and interleaving, with insertions cut short by interrupts and failed allocations, and use the finished matrices in '
            'sums, reversals, duals and products with scalars, vectors and matrices, bound, flattened and dense; every matrix is compared with '
            'a dictionary of its entries; non-trivial when at least two builders were alive and entries were compared')
    measure = 'distinct (innermost code location of the preempted task, location where the resumed task was preempted) pairs'

    def gen(self, rng, tier):
        g = Gen(rng, budget=3000, big=0.0)
        p = g.plan
        p['builders'] = {}
        ctxs = [g.ctx(g.alg()) for _ in range(rng.choice([1, 1, 2]))]
        while any(g.M(c).n > 5 for c in ctxs):
            p['algs'], p['ctxs'] = [], []
            ctxs = [g.ctx(g.alg()) for _ in range(rng.choice([1, 1, 2]))]
        nt = rng.choice([1, 1, 2, 3])

        def nid():
            g.nop += 1
            return f'o{g.nop - 1}'

        def sub(M):
            while True:
                s = rng.choice([['name', 'vector'], ['name', 'even_grade'], ['k', 1], ['k', 0], ['k', min(2, M.n)],
                                ['blades', rng.sample(M.blades, rng.randint(1, min(6, len(M.blades))))], ['name', 'self_reverse'], ['name', 'full']])
                ms = mset(M, s)
                if ms and len(ms) <= 16:
                    return s

        def inp(c, s, shape):
            n = g.inp(c, sub=s, shape=shape, hi=3, layout=rng.choice(['C', 'F', 'strided']))
            return n

        shared = []
        for c in ctxs:
            for _ in range(rng.choice([0, 0, 1])):
                n = f'B{len(p["builders"])}'
                p['builders'][n] = {'ctx': c, 'shape': [rng.randint(1, 4), rng.randint(1, 4)], 's': sub(g.M(c))}
                shared.append(n)
        nadd = 0
        for t in range(nt):
            mine = []
            parts = []
            for _ in range(rng.randint(1, 3)):
                c = rng.choice(ctxs)
                M = g.M(c)
                b = {'id': nid(), 'k': 'sb.new', 'ctx': c, 'shape': [rng.randint(1, 4), rng.randint(1, 4)], 's': sub(M)}
                if mine and rng.random() < .3:
                    q = rng.choice(mine)
                    b.update(ctx=q['ctx'], shape=q['shape'], s=q['s'])
                    c, M = b['ctx'], g.M(b['ctx'])
                mine.append(b)
                ops = [b]
                full = list(range(b['shape'][0])) if rng.random() < .6 else []
                cells = [[r, rng.randrange(b['shape'][1])] for r in full]
                cells += [[rng.randrange(b['shape'][0]), rng.randrange(b['shape'][1])] for _ in range(rng.randint(1, 5))]
                rng.shuffle(cells)
                src = None
                for rc in cells:
                    if src is None or rng.random() < .4:
                        ms = sorted(mset(M, b['s']))
                        s = b['s'] if rng.random() < .6 else ['blades', rng.sample(ms, rng.randint(1, len(ms)))]
                        src = inp(c, s, rng.choice([[], [3]]))
                    o = {'id': nid(), 'k': 'sb.add', 'a': [b['id'], src], 'rc': rc}
                    if p['inputs'][src]['shape']:
                        o['ln'] = rng.randrange(3)
                    ops.append(o)
                if rng.random() < .85:
                    f = {'id': nid(), 'k': 'sb.fin', 'a': [b['id']]}
                    ops.append(f)
                    ms = [(f['id'], tuple(b['shape']), c, frozenset(mset(M, b['s'])), set(map(tuple, cells)))]
                    if rng.random() < .2:
                        ops.append({'id': nid(), 'k': 'sb.add', 'a': [b['id'], src], 'rc': cells[0], **({'ln': 0} if p['inputs'][src]['shape'] else {})})
                        ops.append({'id': nid(), 'k': 'sb.fin', 'a': [b['id']]})
                    for _ in range(rng.randint(0, 4)):
                        self.use(g, rng, nid, ops, ms, inp, sub)
                parts.append(ops)
            for n in shared:
                b = p['builders'][n]
                src = inp(b['ctx'], b['s'], [])
                parts.append([{'id': nid(), 'k': 'sb.add', 'a': [n, src], 'rc': [rng.randrange(b['shape'][0]), rng.randrange(b['shape'][1])]}
                              for _ in range(rng.randint(0, 3))])
            from ..hist import interleave
            p['threads'].append(interleave(rng, [x for x in parts if x]))
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'call', 'both']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 9)}
        if rng.random() < .5:
            p['faults'] = Faulty.spec(rng, p, prob=.25, again=0)
            p['faults']['ops'] = dict(list(p['faults']['ops'].items())[:5])
        return p

    def use(self, g, rng, nid, ops, ms, inp, sub):
        mid, shape, c, s, cells = rng.choice(ms)
        M = g.M(c)
        rows = {r for r, _ in cells}
        k = rng.choice(['sm.mulc', 'sm.neg', 'sm.add', 'sm.sub', 'sm.rev', 'sm.dual', 'sm.scal', 'sm.mat', 'sm.mat'] +
                       (['sm.vec', 'sm.bvec', 'sm.dense', 'sm.linop'] * 2 if len(rows) == shape[0] else []))
        o = {'id': nid(), 'k': k, 'a': [mid]}
        if k == 'sm.mulc':
            o['c'] = rng.choice([2, 3, -2])
            ms.append((o['id'], shape, c, s, cells))
        elif k == 'sm.neg':
            ms.append((o['id'], shape, c, s, cells))
        elif k == 'sm.rev':
            ms.append((o['id'], shape[::-1], c, s, {(b, a) for a, b in cells}))
        elif k in ('sm.add', 'sm.sub'):
            q = rng.choice([m for m in ms if m[1] == shape])
            o['a'].append(q[0])
            ms.append((o['id'], shape, c, s | q[3], cells | q[4]))
        elif k == 'sm.mat':
            q = [m for m in ms if m[1][0] == shape[1] and any(a[1] == b[0] for a in cells for b in m[4])]
            if not q:
                return
            q = rng.choice(q)
            o['op'] = rng.choice(MATOPS)
            if not support(M, {'k': 'b.' + o['op']}, [s, q[3]]):
                return
            o['a'].append(q[0])
        elif k != 'sm.dual':
            v = sub(M)
            o['op'] = rng.choice(MATOPS)
            if not support(M, {'k': 'b.' + o['op']}, [s, mset(M, v)]):
                return
            o['a'].append(inp(c, v, [] if k == 'sm.scal' else [shape[1]]))
        ops.append(o)

    def execute(self, plan, explicit, res):
        box = []

        def make(plan, sim):
            box.append(SparseProgram(plan, sim))
            return box[0]
        prog, v = simulate(plan, explicit, res, cls=make, identity=False)
        if v is None:
            m = prog.finish_shared()
            v = m and {'kind': 'wrong result', 'msg': m}
        res['stats']['entries compared'] += prog.compared
        res['stats']['known findings met'] += prog.known
        n = sum(o['k'] == 'sb.new' for t in plan['threads'] for o in t) + len(plan['builders'])
        res['nontrivial'] = n > 1 and prog.compared > 0
        res['viol'] = v


CHECK = P14()
