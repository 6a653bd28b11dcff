"""P13: execution strategies and backends are interchangeable mid program."""
import copy
import json

from ..runner import Check
from ..plangen import Gen
from .. import core, hist, program
from ..hist import HistProgram, mirror, inputs_first, regs_of, hold, interleave, valid
from ..execute import OTYPES
from ..catalog import OPS
from .common import finish, make_sim, Faulty, sched_spec


def _dtype(prog, o):
    ctx = prog.env.ctx(o['ctx'])
    spec = prog.plan['ctxs'][o['ctx']]
    if spec['backend'] == 'numpy':
        import numpy as np
        ctx.dtype = np.dtype(o['dtype']).type
    else:
        import torch
        ctx.dtype = getattr(torch, o['dtype'])
    prog.dt[o['ctx']] = o['dtype']
    return None


program.KINDS['dtype'] = (_dtype, lambda prog, o, v: None)


class Multi(HistProgram):
    def __init__(self, plan, sim):
        HistProgram.__init__(self, plan, sim)
        self.dt = {}
        self.coarse = set()

    def judge_op(self, o, out=None):
        if o['k'] == 'dtype':
            out = out or self.out[o['id']]
            return f'dtype switch raised {out.err!r}' if out.kind == 'exc' else None
        if o['k'] == 'gc':
            return None
        c = self.ctx_of(o)
        q = self.plan['ctxs'][c]
        keep = dict(q)
        if c in self.dt:        # judged by the element type its context had
            q['dtype'] = self.dt[c]
        # numbers that came through a context of low precision
        if q.get('dtype') == 'float32' or q['backend'] == 'jax' or any(a in self.coarse for a in o.get('a', ())):
            self.coarse.add(o['id'])
            q['coarse'] = 1
        try:
            return HistProgram.judge_op(self, o, out)
        finally:
            q.clear()
            q.update(keep)


class P13(Check):
    id = 'P13'
    backends = ('numpy', 'python', 'torch', 'jax')
    runs = {'quick': 2500, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    child_timeout = 45
    native_hang = True
    real = 'numga (unmodified sources of the working tree), numpy, torch, jax with its compiler, the CPython interpreter and its threads'
    rule = ('a run is one program of multilinear operations carried out on 2-6 contexts that differ in backend (numpy, plain python, '
            'torch, jax), strategy (einsum, unrolled, dense) and element type; while it proceeds, live contexts are switched to '
            'another strategy (by the caller or by another thread) or element type, numbers are handed from one backend to '
            'another, and calls are interrupted; every result on every context is compared with the reference algebra, in '
            'value, blade set, element type and batch shape')
    measure = 'distinct pairs of adjacent switch points of the two threads'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([300, 1500, 6000, 20000]), big=.02)
        p = g.plan
        a = g.alg()
        jax = rng.random() < .12
        if jax:
            g.budget = rng.choice([200, 500])
            p['algs'][a] = rng.choice(['x+y+', 'x+y+w0', 'x+y+z+', 'x+t-', 'x+w0'])
        base = g.ctx(a, 'numpy', dtype='float64')
        n = rng.choice([2, 4, 6, 9]) if not jax else rng.choice([2, 3, 4])
        flat = jax and rng.random() < .5 or rng.random() < .3
        ops = inputs_first(g, base, rng.randint(1, 3), **({'shape': []} if flat else {}))
        regs = regs_of(g, ops, base)
        deny = ('npj',) if rng.random() < .4 else ()
        if jax and rng.random() < .7:
            deny += ('derived',)
        ops = ops + g.sequence(base, dict(regs), n, nl=0, subs=.03, labels=.02, blades=.03, deny=deny)
        if rng.random() < .3 and not jax:       # many operators that live for one call only
            ops = ops + g.sequence(base, dict(regs), rng.choice([4, 10]), nl=0, subs=0, labels=0, blades=0, tags=('derived', 'part'))
        if rng.random() < .4 and not jax:
            ops = hold(g, ops, base, dict(regs))
        groups = [(base, ops)]
        for i in range(rng.choice([1, 2, 3, 5]) if not jax else rng.choice([1, 2])):
            b = 'jax' if jax and i == 0 else rng.choice(['numpy', 'numpy', 'python', 'torch', 'torch', 'torch'])
            al = a
            if rng.random() < .1:       # an equal algebra, but not the same object
                p['algs'].append(copy.deepcopy(p['algs'][a]))
                al = len(p['algs']) - 1
            c = g.ctx(al, b)
            m, r = mirror(g, [o for o in ops if o['k'] != 'gc'], base, c)
            groups.append((c, m))
            if b in ('numpy', 'torch') and rng.random() < .3:       # the element type of a live context
                d = 'float32' if p['ctxs'][c].get('dtype') == 'float64' else 'float64'
                keep = p['ctxs'][c]['dtype']
                p['ctxs'][c]['dtype'] = d
                m2, _ = mirror(g, [o for o in ops if o['k'] != 'gc' and 'h' not in o and 'hp' not in o], base, c)
                p['ctxs'][c]['dtype'] = keep
                m += [{'id': f'o{g.nop}', 'k': 'dtype', 'ctx': c, 'dtype': d}] + m2
                g.nop += 1
                p['ctxs'][c]['dtypes'] = 1
        for c, m in groups:         # nonlinear and elementwise functions, in double precision where the backend has it
            q = p['ctxs'][c]
            for _ in range(rng.choice([0, 0, 1, 2])):
                x = g.nl_input(c) if q['backend'] in ('numpy', 'torch') and not q.get('dtypes') and g.M(c).n <= 5 else None
                if x:
                    m.append({'id': f'o{g.nop}', 'k': 'nl', 'fn': x[0], 'a': x[1]})
                    g.nop += 1
            if rng.random() < .35 and not q.get('dtypes'):
                m += g.elementwise(c)
        # hand numbers over and go on with them there
        flatlist = interleave(rng, [m for _, m in groups])
        ctxs = [c for c, _ in groups]
        for _ in range(rng.choice([0, 1, 2, 4])):
            self.hand(g, rng, flatlist, ctxs)
        for _ in range(rng.choice([0, 1, 2, 4])):
            self.switch(g, rng, flatlist, ctxs)
        p['threads'] = [flatlist]
        threads = not jax and rng.random() < .3
        if threads:
            other = []
            for _ in range(rng.randint(1, 8)):
                self.switch(g, rng, other, ctxs)
            for o in other:
                o['wait'] = rng.choice([1, 10, 50, 200])
            if other:
                p['threads'].append(other)
        p['sched'] = sched_spec(rng) if len(p['threads']) > 1 else {'mode': 'line', 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if not jax and rng.random() < .35:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.1, .3]), again=0, extra=.03)
            p['retries'] = 3
        elif len(p['threads']) == 1:
            p['sched']['mode'] = 'call'
        return p

    def switch(self, g, rng, ops, ctxs):
        p = g.plan
        c = rng.choice(ctxs)
        b = p['ctxs'][c]['backend']
        choice = list(OTYPES[b])
        if b == 'torch':        # the dense strategy of torch takes no batches
            choice = ['einsum', 'sparse'] if p['ctxs'][c]['otype'] != 'dense' else choice
        if len(choice) < 2:
            return
        ops.insert(rng.randrange(len(ops) + 1), {'id': f'o{g.nop}', 'k': 'cfg', 'ctx': c, 'otype': rng.choice(choice)})
        g.nop += 1

    def hand(self, g, rng, ops, ctxs):
        """hand a result (or input) of one context to another one and use it there"""
        p = g.plan
        if len(ctxs) < 2:
            return
        c1, c2 = rng.sample(ctxs, 2)
        if p['ctxs'][c1].get('dtypes') or p['ctxs'][c2].get('dtypes'):
            return
        pm = program.PModel(dict(p, threads=[ops]))
        mine = [o for o in ops if o['k'] in OPS and pm.ctx_of(o['id']) == c1]
        if not mine:
            return
        o = rng.choice(mine)
        # keep magnitudes exact in float32
        depth = 1
        x = o
        sub, shape = self.reg_type(g, pm, o)
        if sub is None or len(sub) > 16:
            return
        b2 = p['ctxs'][c2]['backend']
        if shape and (b2 == 'python' or b2 == 'torch' and p['ctxs'][c2]['otype'] == 'dense'):
            return
        h = {'id': f'o{g.nop}', 'k': 'hand', 'ctx': c2, 'a': [o['id']]}
        g.nop += 1
        regs = {h['id']: (sub, shape, 1)}
        new = [h]
        for _ in range(rng.randint(1, 3)):
            x = g.op(c2, regs)
            if x is None:
                continue
            ss = [regs[a] for a in x['a']]
            from ..catalog import support, out_shape
            s = support(g.M(c2), x, [q[0] for q in ss])
            if s is None:
                continue
            regs[x['id']] = (s, tuple(out_shape(x, [q[1] for q in ss])), max(q[2] for q in ss) + 1)
            new.append(x)
        i = ops.index(o) + 1
        ops[i:] = interleave(rng, [ops[i:], new])

    def reg_type(self, g, pm, o):
        try:
            _, sub, shape = pm.value(o['id'])
        except Exception:
            return None, None
        return sub, tuple(shape) if shape is not None else ()

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')), max_events=3_000_000)
        sim.spare = ('__eq__', '__hash__', 'tree_flatten', 'tree_unflatten')
        prog = Multi(plan, sim)
        try:
            prog.run()
        except core.Deadlock as e:
            prog.viol = {'kind': 'deadlock', 'msg': str(e)}
        finish(sim, res)
        pm = prog.model
        for t in plan['threads']:
            for o in t:
                res['stats']['op ' + o['k']] += 1
                if o['k'] in OPS:
                    c = plan['ctxs'][pm.ctx_of(o['id'])]
                    res['stats'][f'on {c["backend"]} ({c["otype"]} at first)'] += 1
                res['faults']['strategy switched'] += o['k'] == 'cfg'
                res['faults']['element type switched'] += o['k'] == 'dtype'
                res['faults']['numbers handed to another context'] += o['k'] == 'hand'
        res['nontrivial'] = True
        v = prog.viol
        if v is None:
            m = prog.identity_violation()
            v = m and {'kind': 'subspace identity', 'msg': m}
        res['viol'] = v


CHECK = P13()
