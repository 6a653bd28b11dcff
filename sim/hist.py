"""Histories: programs over many algebras, contexts and configurations that come, go and are reconfigured.

Further operations (a context is created when first used):
  {'k':'cfg','ctx':c,'otype':o}              switch the execution strategy of a live context
  {'k':'drop','ctxs':[..],'algs':[..]}       forget contexts (and algebras) with everything computed on them
  {'k':'hand','ctx':c,'a':[x]}               hand the numbers of a multivector to another context
catalogue operations may carry 'h' (apply a held concrete operator) or 'hp' (apply a held partial application)
"""
import gc
import json
import numpy as np

from . import program
from .program import Program, Outcome, PModel
from .plangen import Gen
from .catalog import OPS, mset, nset, support, layout_array, out_shape, BIN_PART, TER_PART
from .execute import Env, make_context, values_np, malg, otype_class, OTYPES, judge


class LazyEnv(program.PEnv):
    def setup(self):
        if len(self.plan['threads']) > 1:       # two tasks must not both make the same context
            program.PEnv.setup(self)

    def ctx(self, i):
        if i not in self.ctxs:
            c = self.plan['ctxs'][i]
            if c['alg'] not in self.algs:
                self.algs[c['alg']] = self.make_alg(self.plan['algs'][c['alg']])
            self.ctxs[i] = make_context(c, self.algs[c['alg']])
        return self.ctxs[i]


class HistProgram(Program):
    """judges every outcome at once, so that results can be dropped"""
    def __init__(self, plan, sim):
        Program.__init__(self, plan, sim)
        self.env = LazyEnv(plan)
        self.env.setup()
        self.held = {}
        self.viol = None
        self.after_op = self.judge_now

    def eval(self, o, reg):
        if 'h' in o:
            args = [reg(a) for a in o['a']]
            f = self.held.get(o['h'])
            if f is None:
                f = getattr(args[0].context.operator, o['hop'])(*(x.subspace for x in args))
                self.held[o['h']] = f
            return f(*args)
        if 'hp' in o:
            args = [reg(a) for a in o['a']]
            i = o['bind']
            p = self.held.get(o['hp'])
            if p is None:
                f = getattr(args[0].context.operator, o['op'])(*(x.subspace for x in args))
                p = f.partial({i: args[i]})
                self.held[o['hp']] = p
            return p(args[1 - i])
        return Program.eval(self, o, reg)

    def judge_now(self, o, out):
        if self.viol is None and out.kind != 'fault':
            m = self.judge_op(o, out)
            if m:
                hit = [f for f in self.sim.fired if f[0].split('~')[0] == o['id'] and f[2] in ('intr', 'mem')]
                self.viol = {'kind': 'wrong result' if out.kind == 'ok' else 'unexpected error', 'msg': m + (f' (after {hit})' if hit else '')}
        if self.viol is None and out.kind == 'ok' and hasattr(out.value, 'subspace') and hasattr(out.value.subspace, 'algebra'):
            s = out.value.subspace
            if s.algebra.subspace.from_blades([int(b) for b in s.blades]) is not s:
                self.viol = {'kind': 'subspace identity', 'msg': f'{program.describe(o)}: the result lives in a subspace object that its algebra does not hand out'}

    def judge_op(self, o, out=None):
        if o['k'] in ('cfg', 'drop'):
            out = out or self.out[o['id']]
            return f'{o["k"]} raised {out.err!r}' if out.kind == 'exc' else None
        return Program.judge_op(self, o, out)


def _cfg(prog, o):
    for _ in range(o.get('wait', 0)):       # give the other tasks a chance to get further
        prog.sim.hit(prog.sim.cur, 0, 0)
    ctx = prog.env.ctx(o['ctx'])
    ctx.otype = otype_class(prog.plan['ctxs'][o['ctx']]['backend'], o['otype'])
    return None


def _drop(prog, o):
    with prog.sim.masked():
        for c in o['ctxs']:
            prog.env.ctxs.pop(c, None)
        for a in o['algs']:
            prog.env.algs.pop(a, None)
        gone = {n for n, s in prog.plan['inputs'].items() if s['ctx'] in o['ctxs']}
        for n in gone:
            prog.live.pop(n, None)
            prog.local.pop(n, None)
        for t in prog.plan['threads']:
            for x in t:
                if x['id'] in prog.out and prog.out[x['id']].kind == 'ok' and ('a' in x or 'ctx' in x or 'in' in x) and x['k'] != 'cfg' and prog.ctx_of(x) in o['ctxs']:
                    prog.local.pop(x['id'], None)
                    prog.out[x['id']] = Outcome('dropped')
        for k in [k for k, c in o.get('held', [])]:
            prog.held.pop(k, None)
        gc.collect()
    return None


def _hand(prog, o, x):
    ctx = prog.env.ctx(o['ctx'])
    with prog.sim.masked():
        v = np.array(values_np(x), dtype=float)
        b = [int(i) for i in x.subspace.blades]
    s = ctx.algebra.subspace.from_blades(b)
    return ctx.multivector(s, v.tolist() if prog.plan['ctxs'][o['ctx']]['backend'] == 'python' else v)


def _hand_judge(prog, o, value):
    src = prog.model.value(o['a'][0])
    return judge(value, src, prog.env.malg_of_ctx(o['ctx']), prog.plan['ctxs'][o['ctx']])


program.KINDS['cfg'] = (_cfg, lambda prog, o, v: None)
program.KINDS['drop'] = (_drop, lambda prog, o, v: None)
program.KINDS['hand'] = (_hand, _hand_judge)


# ------------------------------------------------------------------------------------------ generation
def valid(g, o, c, regs):
    """may operation o run in context c on the given registers?"""
    M = g.M(c)
    if o['k'] in ('sub', 'label'):
        return M.n <= 6 and valid_spec(M, o['s'])
    if o['k'] == 'blade':
        return o['m'] <= M.pss
    if o['k'] not in OPS:
        return False
    d = OPS[o['k']]
    bk = g.plan['ctxs'][c]['backend']
    ot = g.plan['ctxs'][c]['otype']
    t = d.tags
    if bk == 'python' and 'core' not in t or bk == 'python' and 'npj' in t or bk == 'torch' and 'notorch' in t or bk != 'numpy' and 'nponly' in t:
        return False
    if bk in ('python',) and ('part' in t or 'hp' in o):
        return False
    if any(a not in regs for a in o['a']):
        return False
    ss = [regs[a][0] for a in o['a']]
    if 'samesub' in t and regs[o['a'][0]][:2] != regs[o['a'][1]][:2]:
        return False
    try:
        if d.pre and not d.pre(M, *ss):
            return False
        if 's' in o and not valid_spec(M, o['s']):
            return False
        if 'nm' in o and M.named(o['nm']) is None:
            return False
        if 'g' in o and max(o['g']) > M.n:
            return False
        if d.cost and d.cost(M, *(len(s) for s in ss)) > g.budget:
            return False
        sup = support(M, o, ss)
    except Exception:
        return False
    if sup is None:
        return False
    return True


def valid_spec(M, s):
    try:
        ms = mset(M, s)
    except Exception:
        return False
    if ms is None or any(m > M.pss for m in ms):
        return False
    k = s[0]
    if k in ('blades', 'attr', 'bits', 'slice', 'blade') and max(s[1], default=0) > M.pss:
        return False
    if k == 'grades' and max(s[1]) > M.n:
        return False
    if k == 'k' and not -M.n - 1 <= s[1] <= M.n:
        return False
    if k == 'name' and M.named(s[1]) is None:
        return False
    return all(valid_spec(M, x) for x in s[1:] if isinstance(x, list) and x and isinstance(x[0], str))


def mirror(g, ops, c, c2, flat=False):
    """the same program on another context (as far as it is defined there); returns (ops, register types)"""
    p = g.plan
    m, regs, out = {}, {}, []
    M = g.M(c2)
    for o in ops:
        n = json.loads(json.dumps(o))
        n['id'] = f'o{g.nop}'
        g.nop += 1
        if o['k'] == 'mk':
            s = json.loads(json.dumps(p['inputs'][o['in']]))
            if 'fn' in s or not valid_spec(M, s['sub']):
                continue
            s['ctx'] = c2
            bk = p['ctxs'][c2]['backend']
            if flat or bk == 'python' or bk == 'torch' and p['ctxs'][c2]['otype'] == 'dense':
                s['shape'] = []
            if bk != 'numpy':
                s['layout'] = 'C'
            if p['ctxs'][c2].get('dtype') == 'float32':
                s['hi'] = min(s['hi'], 2)
            n['in'] = f'i{len(p["inputs"])}'
            p['inputs'][n['in']] = s
            m[o['in']] = n['in']
            regs[n['in']] = (mset(M, s['sub']), tuple(s['shape']), 0)
            out.append(n)
            continue
        if 'ctx' in n:
            n['ctx'] = c2
        if any(a not in m for a in n.get('a', ())):
            continue
        if 'a' in n:
            n['a'] = [m[a] for a in n['a']]
        for h in ('h', 'hp'):
            if h in n:
                n[h] = f'{n[h]}@{c2}'
        if not valid(g, n, c2, regs):
            continue
        if 'a' in n:
            if 'i' in n and not regs[n['a'][0]][1] or 'batch1' in OPS[n['k']].tags and not regs[n['a'][0]][1] or OPS[n['k']].tags & {'bscalar', 'bs0'} and regs[n['a'][1]][1] != ():
                continue
            try:
                sh = out_shape(n, [regs[a][1] for a in n['a']])
            except (ValueError, IndexError):
                continue
            regs[n['id']] = (support(M, n, [regs[a][0] for a in n['a']]), sh, max(regs[a][2] for a in n['a']) + 1)
            m[o['id']] = n['id']
        out.append(n)
    return out, regs


def inputs_first(g, c, n, **kw):
    """n inputs of context c as mk operations"""
    out = []
    for _ in range(n):
        name = g.inp(c, **kw)
        g.plan['inputs'][name]['late'] = True
        out.append({'id': f'o{g.nop}', 'k': 'mk', 'in': name})
        g.nop += 1
    return out


def regs_of(g, ops, c):
    M = g.M(c)
    return {o['in']: (mset(M, g.plan['inputs'][o['in']]['sub']), tuple(g.plan['inputs'][o['in']]['shape']), 0) for o in ops if o['k'] == 'mk'}


HELD = {k: k.split('.')[1] for k in ('b.product', 'b.wedge', 'b.inner', 'b.regressive', 'b.commutator', 'b.left_contract', 'b.scalar_product',
                                     'b.anti_product', 'u.dual', 'u.reverse', 'u.involute')}


def hold(g, ops, c, regs):
    """let some operations share a held operator object, or a held partial application, with later operands"""
    rng = g.rng
    out = []
    for o in ops:
        out.append(o)
        if o['k'] in HELD and g.plan['ctxs'][c]['backend'] != 'python' and rng.random() < .3:
            h = f'h{g.nop}'
            more = [dict(o, id=f'o{g.nop + j}') for j in range(rng.randint(1, 2))]
            g.nop += len(more)
            for x in [o] + more:
                x['h'], x['hop'] = h, HELD[o['k']]
            out += more
        elif o['k'] == 'p.bin' and len(o['stages']) == 1 and o['stages'] == [1] and rng.random() < .7:
            h = f'h{g.nop}'
            g.nop += 1
            i = o['ord'][0]
            o['hp'], o['bind'] = h, i
            y = o['a'][1 - i]
            if y in g.plan['inputs']:
                for _ in range(rng.randint(1, 2)):
                    s = json.loads(json.dumps(g.plan['inputs'][y]))
                    s['seed'] = rng.randrange(10 ** 6)
                    n = f'i{len(g.plan["inputs"])}'
                    g.plan['inputs'][n] = s
                    regs[n] = regs[y]
                    out.append({'id': f'o{g.nop}', 'k': 'mk', 'in': n})
                    a = list(o['a'])
                    a[1 - i] = n
                    out.append(dict(o, id=f'o{g.nop + 1}', a=a))
                    g.nop += 2
    return out


def interleave(rng, lists):
    """a random merge that keeps the order of each list"""
    lists = [list(x) for x in lists if x]
    out = []
    while lists:
        x = rng.choice(lists)
        k = rng.choice([1, 1, 2, len(x)])
        out += x[:k]
        del x[:k]
        lists = [y for y in lists if y]
    return out


def make_history(g, rng, ctxs, n, mirrors=True, nl=0, drop=True, cfg=True, gc=.03, denys=()):
    """one thread of operations over the given contexts"""
    p = g.plan
    groups = []
    base = None
    for c in ctxs:
        if mirrors and base is not None and rng.random() < .7:
            ops, regs = mirror(g, base[0], base[1], c)
            if rng.random() < .4 and regs:
                ops = ops + g.sequence(c, regs, rng.randint(1, 3), nl=nl, gc=gc, deny=denys)
        else:
            ops = inputs_first(g, c, rng.randint(1, 3))
            regs = regs_of(g, ops, c)
            ops = ops + g.sequence(c, dict(regs), n, nl=nl, gc=gc, deny=denys)
            ops = hold(g, ops, c, regs)
            if base is None:
                base = (ops, c)
        # the same again later, warm
        if rng.random() < .4:
            again, _ = mirror(g, [o for o in ops if o['k'] != 'gc'], c, c)
            ops = ops + again
        groups.append(ops)
    ops = interleave(rng, groups)
    if cfg:
        for _ in range(rng.choice([0, 1, 1, 3])):
            c = rng.choice(ctxs)
            if p['ctxs'][c]['backend'] == 'numpy':
                i = rng.randrange(len(ops) + 1)
                ops.insert(i, {'id': f'o{g.nop}', 'k': 'cfg', 'ctx': c, 'otype': rng.choice(OTYPES['numpy'])})
                g.nop += 1
    return ops
