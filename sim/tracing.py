"""Blocks of library calls evaluated inside jax transformations.

  {'id','k':'tr','ctx':c,'a':[inputs],'body':[ops],'out':[ids],'stack':[...],'outer':...,'pytree':0/1,'hold':key,'abort':[kind,n],'seed':s}
The body is wrapped, inside out, in the transformations of 'stack' ('jit','remat','vmap','scan'), and evaluated, or
differentiated / abstractly evaluated as 'outer' says ('jvp','grad','vjp','linearize','shape','jaxpr').  'abort' makes the n-th
operation of the body fail while it is being traced.  'hold' names a transformed function that later blocks call again.
"""
import types
import numpy as np

from . import program
from .catalog import OPS
from .execute import judge, values_np
from .nonlin import NLS
from .program import PModel


class Planned(Exception):
    """the user's function fails while it is traced"""


class Held:
    def __init__(self):
        self.box = {}       # mutable: what the traced function sees
        self.fn = None
        self.subs = {}


def build(prog, o, args):
    """the function of raw arrays that evaluates the body, and the transformed function"""
    import jax
    import jax.numpy as jnp
    H = Held()
    ctx = prog.env.ctx(o['ctx'])
    subs_in = [x.subspace for x in args]
    names = list(o['a'])

    def f(*vals):
        local = {n: (v if hasattr(v, 'subspace') else ctx.multivector(s, v)) for n, s, v in zip(names, subs_in, vals)}
        outs = {}
        for k, b in enumerate(o['body']):
            ab = H.box.get('abort')
            if ab and ab[1] == k and not (ab[0] == 'conc' and not isinstance(jax.tree_util.tree_leaves(vals)[0], jax.core.Tracer)):
                H.box['abort'] = None
                H.box['fired'] = 1
                if ab[0] == 'raise':
                    raise Planned('function failed')
                x = list(local.values())[-1].values
                if ab[0] == 'conc':
                    if x.size == 0:
                        raise Planned('function failed')
                    if float(jnp.ravel(x)[0]) > 1e30 and isinstance(x, jax.core.Tracer):
                        pass
                if ab[0] == 'shape':
                    jnp.zeros(x.shape[-1] + 2) + jnp.zeros(x.shape[-1] + 4)
            outs[b['id']] = local[b['id']] = program.Program.eval(prog, b, local.__getitem__)
        res = []
        for p, i in enumerate(o['out']):
            v = outs[i]
            for j, q in enumerate(v if isinstance(v, tuple) else (v,)):
                H.subs[p, j] = q.subspace
                res.append(q)
        return tuple(res) if o.get('pytree') else tuple(q.values for q in res)

    batched = [len(x.shape) > 0 for x in args]
    g = f
    for t in o['stack']:
        g = wrap(jax, t, g, batched)
    H.raw, H.fn = f, g
    return H


def wrap(jax, t, g, batched):
    if t == 'jit':
        return jax.jit(g)
    if t == 'remat':
        return jax.checkpoint(g)
    if not any(batched):
        return g
    if t == 'vmap':
        return jax.vmap(g, in_axes=tuple(0 if b else None for b in batched))
    if t == 'scan':
        def scanned(*vals):
            def step(c, xs):
                it = iter(xs)
                return c, g(*[next(it) if b else v for b, v in zip(batched, vals)])
            return jax.lax.scan(step, 0, tuple(v for b, v in zip(batched, vals) if b))[1]
        return scanned
    raise KeyError(t)


def leaves(x):
    import jax
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def dirs(o, args):
    rs = np.random.RandomState(o['seed'])
    return [rs.randint(-1, 2, size=x.values.shape).astype(float) for x in args]


def run_tr(prog, o, *args):
    import jax
    import jax.numpy as jnp
    key = o.get('hold')
    H = prog.fns.get(key) if key else None
    if H is None:
        H = build(prog, o, args)
        if key:
            prog.fns[key] = H
    H.box.update(abort=o.get('abort') if not o.get('plain') else None, fired=0)
    prog.box = H.box
    vals = tuple(args) if o.get('pytree') else tuple(x.values for x in args)
    out = {}
    nl = any(b['k'] == 'nl' for b in o['body'])
    if nl and o.get('first'):
        out['plain'] = leaves(H.raw(*vals))
    k = o.get('outer')
    w = None
    if k in ('grad', 'vjp'):
        rs = np.random.RandomState(o['seed'] + 1)
        w = lambda outs: [rs.randint(-2, 3, size=q.shape) for q in outs]
    d = [jnp.asarray(v, x.values.dtype) for v, x in zip(dirs(o, args), args)]
    if o.get('pytree'):
        d = tuple(x.copy(values=v) for x, v in zip(args, d))
    if k is None:
        out['val'] = leaves(H.fn(*vals))
    elif k == 'jvp':
        a, b = jax.jvp(H.fn, vals, tuple(d))
        out['val'], out['jvp'] = leaves(a), leaves(b)
    elif k == 'linearize':
        a, lin = jax.linearize(H.fn, *vals)
        out['val'], out['jvp'] = leaves(a), leaves(lin(*d))
    elif k in ('grad', 'vjp'):
        if k == 'grad':
            def loss(*v):
                rs = np.random.RandomState(o['seed'] + 1)
                return sum((q * rs.randint(-2, 3, size=q.shape)).sum() for q in jax.tree_util.tree_leaves(H.fn(*v)))
            G = jax.grad(loss, argnums=tuple(range(len(vals))))
            G = jax.jit(G) if o.get('jg') else G
            g = leaves(G(*vals))
        else:
            a, pull = jax.vjp(H.fn, *vals)
            rs = np.random.RandomState(o['seed'] + 1)
            ls, tree = jax.tree_util.tree_flatten(a)
            ct = jax.tree_util.tree_unflatten(tree, [jnp.asarray(rs.randint(-2, 3, size=q.shape), q.dtype) for q in ls])
            g = leaves(pull(ct))
            out['val'] = leaves(a)
        out['grad'] = g
    elif k == 'shape':
        out['shape'] = [(tuple(s.shape), str(s.dtype)) for s in jax.tree_util.tree_leaves(jax.eval_shape(H.fn, *vals))]
    elif k == 'jaxpr':
        j = jax.make_jaxpr(H.fn)(*vals)
        out['val'] = [np.asarray(v) for v in jax.core.eval_jaxpr(j.jaxpr, j.consts, *jax.tree_util.tree_leaves(vals))]
    if nl and 'plain' not in out:
        out['plain'] = leaves(H.raw(*vals))
        if 'grad' in out and 'plaingrad' not in out:
            def loss0(*v):
                rs = np.random.RandomState(o['seed'] + 1)
                return sum((q * rs.randint(-2, 3, size=q.shape)).sum() for q in jax.tree_util.tree_leaves(H.raw(*v)))
            out['plaingrad'] = leaves(jax.grad(loss0, argnums=tuple(range(len(vals))))(*vals))
    out['subs'] = dict(H.subs)
    return out


STENCIL = {4: -1 / 280, 3: 4 / 105, 2: -1 / 5, 1: 4 / 5, -1: -4 / 5, -2: 1 / 5, -3: -4 / 105, -4: 1 / 280}     # exact up to degree 8


def shifted(prog, o, t, args_d):
    """model values of the block's outputs at x + t d"""
    pm = PModel(prog.plan)
    pm.ops.update({b['id']: b for b in o['body']})
    for n, d in zip(o['a'], args_d):
        A, s, sh = prog.model.value(n)
        ms = prog.env.malg_of_ctx(o['ctx']).order(s)
        pm.reg[n] = ({m: np.asarray(A.get(m, 0.0)) + t * d[..., i] for i, m in enumerate(ms)}, s, sh)
    return [pm.value(i) for i in o['out']]


def judge_tr(prog, o, value):
    M = prog.env.malg_of_ctx(o['ctx'])
    cs = prog.plan['ctxs'][o['ctx']]
    where = f'inside {"+".join(o["stack"]) or "nothing"}{" under " + o["outer"] if o.get("outer") else ""}'
    if any(b['k'] == 'nl' for b in o['body']):
        return judge_nl(o, value, where)
    pm = prog.model
    pm.ops.update({b['id']: b for b in o['body']})
    exp = [pm.value(i) for i in o['out']]
    B = ()
    if 'vmap' in o['stack'] or 'scan' in o['stack']:
        B = np.broadcast_shapes(*(pm.value(n)[2] for n in o['a']))
    exp = [(v, s, tuple(np.broadcast_shapes(sh, B))) for v, s, sh in exp]
    subs = [value['subs'][i, 0] for i in range(len(o['out']))]
    if 'shape' in value:
        for (v, s, sh), su, got in zip(exp, subs, value['shape']):
            if got != (sh + (len(su),), 'float32') or frozenset(int(b) for b in su.blades) != s:
                return f'{where}: abstract shape {got} on blades {[int(b) for b in su.blades]}, expected {sh} on {M.order(s)}'
    for i, j in enumerate(o['out']):
        if 'val' in value:
            r = types.SimpleNamespace(subspace=subs[i], values=value['val'][i])
            m = judge(r, exp[i], M, cs)
            if m:
                return f'{where}: {program.describe(o["body"][[b["id"] for b in o["body"]].index(j)])}: {m}'
    if 'jvp' in value or 'grad' in value:
        rs = np.random.RandomState(o['seed'])
        args_d = []
        for n in o['a']:
            _, s, sh = pm.value(n)
            args_d.append(rs.randint(-1, 2, size=tuple(sh) + (len(s),)).astype(float))
        der = [0] * len(o['out'])
        at = {t: shifted(prog, o, t, args_d) for t in STENCIL}
        for i in range(len(o['out'])):
            ms = [int(b) for b in subs[i].blades]
            sh = exp[i][2]
            # not every blade appears in every evaluation
            der[i] = np.stack([sum(c * np.broadcast_to(np.asarray(at[t][i][0].get(m, 0.0), float), sh) for t, c in STENCIL.items()) for m in ms], -1) if ms else np.zeros(sh + (0,))
        big = max([1.0] + [float(np.max(np.abs(v))) for A, _, _ in exp for v in A.values() if np.size(v)])
        if 'jvp' in value:
            for i, j in enumerate(o['out']):
                g, e = value['jvp'][i], der[i]
                tol = 1e-4 * max(big, float(np.max(np.abs(e))) if e.size else 0)
                if g.shape != e.shape or not (np.abs(g - e) <= tol).all():
                    return f'{where}: directional derivative of {j} is {g.tolist()}, expected {e.tolist()}'
        else:
            rs = np.random.RandomState(o['seed'] + 1)
            ws = [rs.randint(-2, 3, size=d.shape) for d in der]
            want = sum(float((w * d).sum()) for w, d in zip(ws, der))
            got = sum(float((np.asarray(g, float) * d).sum()) for g, d in zip(value['grad'], args_d))
            scale = sum(float(np.abs(w * d).sum()) for w, d in zip(ws, der)) + big * sum(d.size for d in der)
            if not abs(want - got) <= 1e-4 * max(1.0, scale):
                return f'{where}: gradient gives {got} in a direction where the derivative is {want}'
    return None


def judge_nl(o, value, where):
    fn = o['body'][0]['fn']
    for a, b, what in (('val', 'plain', 'value'), ('grad', 'plaingrad', 'gradient')):
        if a in value and b in value:
            if len(value[a]) != len(value[b]):
                return f'{fn} {where}: {len(value[a])} results instead of {len(value[b])}'
            big = max([1.0] + [float(np.max(np.abs(y))) for y in value[b] if y.size and np.isfinite(y).all()])
            for x, y in zip(value[a], value[b]):
                if x.shape != y.shape and not (a == 'val' and x.ndim >= y.ndim):
                    return f'{fn} {where}: {what} of shape {x.shape} instead of {y.shape}'
                ok = np.isfinite(np.broadcast_to(y, x.shape))
                if not np.isfinite(x[ok]).all() or not (np.abs(x - np.broadcast_to(y, x.shape))[ok] <= NLTOL * big).all():
                    return f'{fn} {where}: {what} {x.tolist()} instead of the plain {y.tolist()}'
    return None


NLTOL = 5e-3
program.KINDS['tr'] = (run_tr, judge_tr)
