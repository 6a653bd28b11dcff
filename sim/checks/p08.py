"""P08: a fault in one batch element never reaches another."""
import numpy as np

from ..runner import Check, known_findings
from ..plangen import Gen
from ..program import Program, PModel, describe
from .. import program
from ..catalog import OPS, RESHAPE, mset, _index
from ..execute import judge, values_np
from ..nonlin import NLS, nl_check, mv_model
from ..hist import regs_of
from .common import sched_spec, simulate, Faulty

HOW = ['nan', 'inf', '-inf', 'huge', '-huge', 'flip', 'bit', 'tiny', 'zero']
LONG = [[257], [300], [1025], [4100], [2, 140], [1, 600], [300, 1]]
SHAPES = [[2], [3], [4], [17], [2, 3], [1, 3], [2, 1], [3, 2], [64], [2, 1, 3], [1], [5, 2]]


def corrupt(v, o, f32):
    """the array with the chosen components of the chosen elements destroyed"""
    v = np.array(v, dtype=float)
    big = 1e30 if f32 else 1e250
    for i in o['lanes']:
        i = tuple(i)
        for j, c in enumerate(o['comps']):
            h = o['how'][j % len(o['how'])]
            x = v[i + (c,)]
            v[i + (c,)] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': big, '-huge': -big, 'flip': -x, 'tiny': 1e-320,
                           'bit': x * 2.0 ** (60 if not f32 else 30), 'zero': 0.0}[h]
    return v


def poison_run(prog, o, x):
    with prog.sim.masked():
        f32 = prog.plan['ctxs'][prog.ctx_of(o)].get('dtype', 'float32') == 'float32'
        vals = corrupt(values_np(x), o, f32)
        ctx = x.context
        return ctx.multivector(x.subspace, vals)


program.KINDS['poison'] = (poison_run, lambda prog, o, v: None)


class LaneModel(PModel):
    def source(self, r):
        while r in self.ops and self.ops[r]['k'] in ('poison', 'mk'):
            r = self.ops[r]['a'][0] if self.ops[r]['k'] == 'poison' else self.ops[r]['in']
        return r

    def value(self, r):
        return PModel.value(self, self.source(r))

    def nlvals(self, r):
        return PModel.nlvals(self, self.source(r))

    def taint(self, r):
        """which elements of a result may depend on a corrupted element"""
        t = self.__dict__.setdefault('taints', {})
        if r not in t:
            if r in self.plan['inputs']:
                t[r] = np.zeros(tuple(self.plan['inputs'][r]['shape']), bool)
            else:
                o = self.ops[r]
                k = o['k']
                if k == 'mk':
                    t[r] = self.taint(o['in'])
                elif k == 'poison':
                    x = self.taint(o['a'][0]).copy()
                    for i in o['lanes']:
                        x[tuple(i)] = True
                    t[r] = x
                else:
                    T = [self.taint(a) for a in o['a']]
                    if k in ('x.getitem', 'x.dynget', 'm.getitem'):
                        y = T[0][o['i']]
                        t[r] = y if k[0] == 'x' else y | T[1]
                    elif k in RESHAPE:
                        t[r] = RESHAPE[k](o, T[0])
                    elif k in ('x.sum', 'x.mean', 'm.sum'):
                        y = T[0].any(0)
                        t[r] = y if k[0] == 'x' else y | T[1]
                    elif k in ('x.sumax', 'x.meanax'):
                        t[r] = T[0].any(o['ax'])
                    elif k == 'x.concatax':
                        t[r] = np.concatenate(T, axis=o['ax'])
                    elif k == 'x.atindex':
                        y = T[0].copy()
                        y[_index(o)] = T[1][_index(o)]
                        t[r] = y
                    elif k == 'x.atset':
                        y = T[0].copy()
                        y[o['i']] = T[1][o['i']]
                        t[r] = y
                    elif k == 'm.atset':
                        y = T[0].copy()
                        y[o['i']] = y[-1]
                        t[r] = y | T[1]
                    elif k == 'x.concat':
                        t[r] = np.concatenate(T)
                    elif k == 'm.concat':
                        t[r] = np.concatenate([T[0], T[0]]) | T[1]
                    else:
                        shape = np.broadcast_shapes(*(x.shape for x in T))
                        y = np.zeros(shape, bool)
                        for x in T:
                            y = y | x
                        t[r] = y
                    t[r] = np.asarray(t[r])
        return t[r]


class LaneProgram(Program):
    def __init__(self, plan, sim):
        Program.__init__(self, plan, sim)
        self.model = LaneModel(plan)
        self.clean = self.tainted = self.suppressed = 0
        self.known = known_findings('P08')
        self.alone = 0

    def judge_op(self, o, out=None):
        out = out or self.out[o['id']]
        if out.kind in ('skip', 'fault'):
            return None
        if o['k'] == 'poison':
            return None if out.kind == 'ok' else f'poison raised {out.err!r}'
        if 'a' not in o or o['k'] == 'gc':
            return Program.judge_op(self, o, out)
        skip = self.model.taint(o['id'])
        if out.kind == 'exc':
            if skip.any():
                if o['k'] == 'nl' and any(o['fn'] in k['functions'] and k['error'] == f'{type(out.err).__name__}: {out.err}' for k in self.known):
                    self.suppressed += 1
                    return None
                e = f'{type(out.err).__name__}: {str(out.err)[:160]}'
                return f'{describe(o)} raised {e} with {int((~skip).sum())} of {skip.size} batch elements intact'
            return Program.judge_op(self, o, out)
        self.clean += int((~skip).sum())
        self.tainted += int(skip.sum())
        ci = self.ctx_of(o)
        M = self.env.malg_of_ctx(ci)
        if o['k'] == 'nl':
            args = [self.model.nlvals(a) for a in o['a']]
            return nl_check(o['fn'], M, args, out.value, skip=skip) or self.lanes_alone(o, out, skip)
        m = judge(out.value, self.model.value(o['id']), M, self.plan['ctxs'][ci], skip=skip)
        return m and f'{describe(o)}: {m} (corrupted elements: {np.argwhere(skip).tolist()[:6]} of shape {skip.shape})'

    def lanes_alone(self, o, out, skip):
        """some intact elements once more, each alone"""
        if o['k'] != 'nl' or not skip.size or self.plan['ctxs'][self.ctx_of(o)]['backend'] not in ('numpy', 'torch'):
            return None
        idx = [tuple(i) for i in np.argwhere(~skip)]
        pick = [idx[0], idx[-1]] if len(idx) > 1 else idx
        shape = skip.shape
        R = out.value if isinstance(out.value, tuple) else (out.value,)
        for i in pick:
            args = []
            for a in o['a']:
                src = self.get(a)
                v = np.broadcast_to(values_np(src), shape + (len(src.subspace),))[i]
                args.append(src.context.multivector(src.subspace, v.copy()))
            one = NLS[o['fn']].run(*args)
            one = one if isinstance(one, tuple) else (one,)
            self.alone += 1
            for r, q in zip(R, one):
                x = np.broadcast_to(values_np(r), shape + (len(r.subspace),))[i].astype(float)
                y = values_np(q).astype(float)
                if r.subspace is not q.subspace:
                    return f'{describe(o)}: element {i} alone is in another subspace'
                if not np.allclose(x, y, rtol=1e-7, atol=1e-8):
                    return f'{describe(o)}: element {i} differs from the same element alone: {x.tolist()} and {y.tolist()}'
        return None

    def get(self, r):
        return self.live[r] if r in self.live else self.out[r].value


class P08(Check):
    id = 'P08'
    backends = ('numpy', 'torch')
    runs = {'quick': 6000, 'thorough': 100000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is a program of 4-20 linear, nonlinear, structural and partially applied calls on batched operands (batch shapes that '
            'broadcast, all memory layouts) in which components of some batch elements of operands and intermediate results are corrupted '
            '(NaN, infinity, overflow, sign and exponent flips, denormals, zero); elements that by broadcasting depend on no corrupted one '
            'must have the value the reference algebra gives, and nonlinear ones also that of the same element computed alone; non-trivial '
            'when both intact and corrupted elements were compared')
    measure = 'not used (single caller)'
    allow_jax = False

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000, 12000]), big=0.02)
        p = g.plan
        ops = []
        regs = {}
        ctxs = []
        for i in range(rng.choice([1, 1, 2])):
            a = g.alg()
            if self.allow_jax:
                bk, ot = 'jax', rng.choice(['einsum', 'sparse', 'einsum'])
            else:
                bk, ot = rng.choices([('numpy', None), ('torch', rng.choice(['einsum', 'sparse']))], [9, 1])[0]
            ctxs.append(g.ctx(a, bk, ot))
        for c in ctxs:
            M = g.M(c)
            R = {}
            base = rng.choice(SHAPES)
            others = SHAPES
            if M.n <= 4 and rng.random() < .04:     # longer than any block an implementation may work in
                base = rng.choice(LONG)
                others = [[1], [1] * len(base), base[:-1] + [1]]
            for j in range(rng.randint(2, 4)):
                sh = rng.choice([base, base, rng.choice(others), []])
                n = g.inp(c, shape=sh, layout=rng.choice(['C', 'F', 'strided', 'rev']) if p['ctxs'][c]['backend'] == 'numpy' else 'C')
                R[n] = (mset(M, p['inputs'][n]['sub']), tuple(sh), 0)
            n_ops = rng.randint(3, 10)
            for part in range(rng.choice([1, 2, 3])):
                for r in [r for r in R if rng.random() < (.7 if part == 0 else .3)]:
                    o = self.poison(g, rng, r, R[r][1], len(R[r][0] or ()))
                    if o:
                        ops.append(o)
                        R[o['id']] = R[r]
                        if rng.random() < .7:
                            del R[r]
                ops += g.sequence(c, R, n_ops, nl=0, subs=0, labels=0, blades=0)
            if p['ctxs'][c]['backend'] in ('numpy', 'torch') and p['ctxs'][c]['dtype'] == 'float64' and M.n <= 5:
                for _ in range(rng.choice([0, 1, 2, 4])):
                    x = g.nl_input(c)
                    if not x:
                        continue
                    a = []
                    for n in x[1]:
                        s = p['inputs'][n]
                        if not s['shape'] and rng.random() < .6:
                            s['shape'] = rng.choice([[2], [3], [5], [2, 2]])
                            from ..nonlin import nl_values
                            if nl_values(s, M) is None:
                                s['shape'] = []
                        o = self.poison(g, rng, n, tuple(s['shape']), len(mset(M, s['sub']))) if rng.random() < .85 else None
                        if o:
                            ops.append(o)
                        a.append(o['id'] if o else n)
                    try:
                        np.broadcast_shapes(*(tuple(p['inputs'][n]['shape']) for n in x[1]))
                    except ValueError:
                        continue
                    ops.append({'id': f'o{g.nop}', 'k': 'nl', 'fn': x[0], 'a': a})
                    g.nop += 1
        p['threads'] = [ops]
        p['sched'] = {'mode': 'call', 'strategy': ['none'], 'seed': 0}
        return p

    def poison(self, g, rng, r, shape, n):
        if not n or not shape:
            return None
        lanes = list(np.ndindex(*shape))
        k = rng.choice([1, 1, 2, max(1, min(40, len(lanes) // 2))])
        how = [rng.choice(HOW) for _ in range(rng.choice([1, 1, 2]))]
        o = {'id': f'o{g.nop}', 'k': 'poison', 'a': [r], 'lanes': sorted(list(x) for x in rng.sample(lanes, min(k, len(lanes)))),
             'comps': sorted(rng.sample(range(n), rng.choice([1, 1, min(2, n), n]))), 'how': how}
        g.nop += 1
        return o

    def execute(self, plan, explicit, res):
        prog, v = simulate(plan, explicit, res, cls=LaneProgram, identity=False)
        for o in plan['threads'][0]:
            if o['k'] == 'poison':
                for h in o['how']:
                    res['faults']['element corrupted: ' + h] += len(o['lanes'])
        res['stats']['intact elements compared'] += prog.clean
        res['stats']['corrupted elements'] += prog.tainted
        res['stats']['elements recomputed alone'] += prog.alone
        res['stats']['known findings met'] += prog.suppressed
        res['nontrivial'] = bool(prog.clean and prog.tainted)
        res['viol'] = v


CHECK = P08()
