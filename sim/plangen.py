"""Random plans (programs, subspaces, configurations)."""
import re
import random
from .catalog import OPS, support, out_shape, mset, gen_sub, gen_leaf, NAMES, BIN_PART
from .execute import malg, desc_of, OTYPES

ALGS = ['x+y+', 'x+y+z+', 'x+y+w0', 'x+y+z+w0', 'x+y+z+t-', 't-x+y+z+', 'x+y+z+p+n-', 'w0x+y+z+', 'x-y-', 'x-y-z-w0', 'x+n-', 'e1+e2+e3-', 'e1+e2+e30',
        [3, 0, 1], [2, 0, 1], [1, 1, 1], [4, 1, 0], [0, 3, 0], [2, 1, 1], [3, 0, 0], [1, 0, 0], [0, 1, 1], [2, 2, 0], [0, 0, 2],
        'x+y+z+u+w0', [4, 0, 0], [3, 1, 1], [5, 0, 0], [4, 0, 1], [0, 5, 0], [3, 3, 0], [6, 0, 0], [2, 0, 2], [1, 0, 2],
        [0, 0, 3], [0, 3, 1], [0, 4, 0], [1, 3, 0], [2, 2, 1], [1, 0, 3]]
BIG = [[9, 0, 0], [8, 0, 1], [6, 2, 1], [9, 1, 0], [4, 4, 1]]
NOTORCH = ('inverse_la', 'map_inverse', 'normalize_motor', 'inverse_sandwich')        # not implemented for torch
SHAPES = [[], [], [], [1], [2], [3], [2, 1], [1, 3], [2, 3], [4], [17]]


def related(rng, d):
    """an algebra easily mistaken for d: other signature, other names, other order"""
    if isinstance(d, str):
        b = re.findall(r'[^-+0]+[-+0]', d)
        r = rng.random()
        if r < .4:
            i = rng.randrange(len(b))
            b[i] = b[i][:-1] + rng.choice('+-0')
        elif r < .55:
            rng.shuffle(b)
        elif r < .8:        # other names for the same axes
            n = [x[:-1] for x in b]
            rng.shuffle(n)
            b = [x + y[-1] for x, y in zip(n, b)]
        return ''.join(b)
    d = list(d)
    r = rng.random()
    if r < .6:
        rng.shuffle(d)
    return d


class Gen:
    def __init__(self, rng, budget=60000, big=0.02):
        self.rng = rng
        self.budget = budget
        self.big = big
        self.plan = {'algs': [], 'ctxs': [], 'inputs': {}, 'threads': []}
        if rng.random() < .5:
            self.plan['route'] = rng.randint(1, 5)      # how the algebras are described
        self.nop = 0

    def alg(self):
        rng = self.rng
        d = rng.choice(BIG) if rng.random() < self.big else rng.choice(ALGS)
        self.plan['algs'].append(d)
        return len(self.plan['algs']) - 1

    def ctx(self, alg, backend='numpy', otype=None, dtype=None, order=None):
        rng = self.rng
        c = {'alg': alg, 'backend': backend, 'otype': otype or rng.choice(OTYPES[backend])}
        if backend == 'numpy':
            c['dtype'] = dtype or rng.choice(['float64'] * 3 + ['float32'])
            c['order'] = order or rng.choice(['F', 'C'])
        elif backend == 'torch':
            c['dtype'] = dtype or rng.choice(['float64', 'float32'])
        elif backend == 'jax':
            c['dtype'] = dtype or 'float32'
        self.plan['ctxs'].append(c)
        return len(self.plan['ctxs']) - 1

    def M(self, ctx):
        return malg(self.plan['algs'][self.plan['ctxs'][ctx]['alg']])

    def size_cap(self, M):
        return {True: 16, False: 40}[M.n <= 6] if M.n <= 6 else 12

    def inp(self, ctx, sub=None, shape=None, hi=3, layout=None):
        rng = self.rng
        M = self.M(ctx)
        for _ in range(30):
            s = sub or (gen_sub(rng, M, 1) if M.n <= 6 else self.small_sub(M))
            ms = mset(M, s)
            if ms is not None and (len(ms) <= (32 if M.n <= 5 else 16)):
                break
        else:
            s, ms = ['name', 'vector'], M.named('vector')
        c = self.plan['ctxs'][ctx]
        if shape is None:
            shape = [] if c['backend'] == 'python' or (c['backend'] == 'torch' and c['otype'] == 'dense') else rng.choice(SHAPES) if M.n > 4 or rng.random() > .008 else rng.choice([[1030], [300], [2, 200]])
        if layout is None:
            layout = rng.choice(['C', 'C', 'F', 'list', 'int', 'strided', 'rev']) if c['backend'] == 'numpy' else 'C'
        if c.get('dtype') == 'float32':
            hi = min(hi, 2)
        name = f'i{len(self.plan["inputs"])}'
        self.plan['inputs'][name] = {'ctx': ctx, 'sub': s, 'shape': shape, 'seed': rng.randrange(10 ** 6), 'hi': hi, 'layout': layout}
        return name

    def small_sub(self, M):
        rng = self.rng
        r = rng.random()
        if r < .4:
            return ['k', 1]
        if r < .5:
            return ['k', -1]
        if r < .6:
            return ['k', M.n - 1]
        if r < .8:      # few low bits, few high bits: different sets that a truncated or permuted name would confuse
            low = rng.choice([8, 8, 4, 1])
            return ['blades', sorted({(rng.choice([0, 0, 1, 2, 3]) | rng.choice([0, 0, 1, 2, 3]) << low) & M.pss for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))},
                                     key=lambda _: rng.random())]
        return ['blades', rng.sample(M.blades, rng.randint(1, 6))]

    def inputs_of(self, ctx):
        return [k for k, v in self.plan['inputs'].items() if v['ctx'] == ctx]

    def op(self, ctx, regs, allow=None, deny=(), subs=None, tags=None):
        """a random applicable operation on registers of one context; regs: {id: (set, shape, depth)}"""
        rng = self.rng
        M = self.M(ctx)
        c = self.plan['ctxs'][ctx]
        bk = c['backend']
        names = allow or [n for n in OPS]
        weights = [OPS[n].weight for n in names]
        for _ in range(60):
            nm = rng.choices(names, weights)[0]
            d = OPS[nm]
            t = d.tags
            if t & set(deny) or (tags and not t & set(tags)):
                continue
            if bk == 'python' and 'core' not in t:
                continue
            if bk == 'python' and 'npj' in t or bk == 'torch' and 'notorch' in t or bk != 'numpy' and 'nponly' in t:
                continue
            pool = [r for r, v in regs.items() if v[2] == 0 or ('inputs' not in t and 'cubic' not in t and v[2] < 2)]
            if not pool:
                continue
            a = [rng.choice(pool) for _ in range(d.arity)]
            if 'samesub' in t and len(a) == 2:
                same = [r for r in pool if regs[r][0] == regs[a[0]][0] and regs[r][1] == regs[a[0]][1]]
                a[1] = rng.choice(same)
            ss = [regs[r][0] for r in a]
            if d.arity == 2 and 'samesub' not in t and not self.bcast(regs[a[0]][1], regs[a[1]][1]):
                continue
            if 'idx' in t or 'batch1' in t:
                if not regs[a[0]][1] or regs[a[0]][1] == ():
                    continue
            if t & {'bscalar', 'bs0'} and regs[a[1]][1] != ():
                continue
            if d.pre and not d.pre(M, *ss):
                continue
            if d.cost and d.cost(M, *(len(s) for s in ss)) > self.budget:
                continue
            if c['otype'] in ('sparse', 'dense') and d.cost and d.cost(M, *(len(s) for s in ss)) > self.budget / 12:
                continue
            o = {'id': f'o{self.nop}', 'k': nm, 'a': a}
            if 'shp' in t:
                if regs[a[0]][1] is None:
                    continue
                o.update(d.params(rng, tuple(regs[a[0]][1]), bk))
            elif callable(d.params):
                o.update(d.params(rng))
            elif d.params == 'grades':
                o['g'] = sorted(rng.sample(range(M.n + 1), rng.randint(1, min(3, M.n + 1))))
            elif d.params == 'grade1':
                o['g'] = [rng.randint(0, M.n)]
            elif d.params == 'sub':
                s = gen_sub(rng, M, 1) if M.n <= 6 else self.small_sub(M)
                if mset(M, s) is None:
                    continue
                o['s'] = s
            elif d.params == 'name':
                nmn = rng.choice(NAMES)
                if nmn == 'multivector' or M.named(nmn) is None or (M.n > 6 and nmn not in ('scalar', 'vector', 'even_grade', 'empty')):
                    continue
                o['nm'] = nmn
            if 'idx' in t:
                o['i'] = rng.randrange(regs[a[0]][1][0])
            self.nop += 1
            return o
        return None

    @staticmethod
    def bcast(a, b):
        import numpy as np
        if a is None or b is None:
            return False
        try:
            np.broadcast_shapes(a, b)
            return True
        except ValueError:
            return False

    # ------------------------------------------------------------------------------ whole programs
    def nl_input(self, ctx, fn=None, prefer=()):
        """an input suitable for a nonlinear function; returns (fn, [names]) or None"""
        from .nonlin import NLS, nl_candidates, nl_values
        rng = self.rng
        M = self.M(ctx)
        q = self.plan['ctxs'][ctx]
        if q['backend'] not in ('numpy', 'torch') or q.get('dtype') == 'float32':
            return None
        for _ in range(8):
            fn = fn or rng.choices(list(NLS), [f.weight for f in NLS.values()])[0]
            if q['backend'] == 'torch' and fn in NOTORCH:
                fn = None
                continue
            shape = rng.choice([[], [], [2], [3], [2, 2]]) if q['backend'] == 'numpy' or q['otype'] != 'dense' else []
            names = []
            for j in range(NLS[fn].nargs):
                if j == 0 or NLS[fn].doms[j] is not NLS[fn].doms[0]:
                    c = nl_candidates(M, fn, j, rng)
                    if not c:
                        break
                    s = rng.choice(c)
                    liked = [x for x in c if x in prefer]
                    if liked and rng.random() < .5:
                        s = rng.choice(liked)
                sh = shape if j == 0 or rng.random() < .7 else []
                spec = {'ctx': ctx, 'sub': s, 'shape': sh, 'seed': rng.randrange(10 ** 6), 'fn': fn, 'arg': j,
                        'layout': rng.choice(['C', 'C', 'F', 'list', 'strided', 'rev']) if q['backend'] == 'numpy' else 'C'}
                if nl_values(spec, M) is None:
                    break
                names.append(f'i{len(self.plan["inputs"])}')
                self.plan['inputs'][names[-1]] = spec
            if len(names) == NLS[fn].nargs:
                return fn, names
            fn = None
        return None

    def sequence(self, ctx, regs, nops, nl=0.15, subs=0.15, labels=0.1, blades=0.05, gc=0.0, ew=0.0, **kw):
        """a list of operations over one context; regs maps known registers to (set, shape, depth)"""
        from .execute import ModelRun
        rng = self.rng
        M = self.M(ctx)
        out = []

        def nid():
            self.nop += 1
            return f'o{self.nop - 1}'
        for _ in range(nops):
            if ew and rng.random() < ew:
                out += self.elementwise(ctx)
                continue
            r = rng.random()
            if r < subs:
                s = gen_sub(rng, M, 2) if M.n <= 5 else self.small_sub(M)
                if mset(M, s) is not None:
                    out.append({'id': nid(), 'k': 'sub', 'ctx': ctx, 's': s})
                continue
            r -= subs
            if r < labels:
                if M.n <= 6:
                    s = gen_sub(rng, M, 1)
                    if mset(M, s) is not None:
                        out.append({'id': nid(), 'k': 'label', 'ctx': ctx, 's': s})
                continue
            r -= labels
            if r < blades:
                if self.plan['ctxs'][ctx]['backend'] in ('numpy', 'torch', 'python'):
                    out.append({'id': nid(), 'k': 'blade', 'ctx': ctx, 'm': rng.choice([m for m in M.blades if m])})
                continue
            r -= blades
            if r < gc:
                out.append({'id': nid(), 'k': 'gc'})
                continue
            r -= gc
            if r < nl:
                x = self.nl_input(ctx) if M.n <= 5 else None
                if x:
                    out.append({'id': nid(), 'k': 'nl', 'fn': x[0], 'a': x[1]})
                continue
            o = self.op(ctx, regs, **kw)
            if o is None:
                continue
            sub = support(M, o, [regs[a][0] for a in o['a']])
            if sub is None:
                continue
            shape = out_shape(o, [regs[a][1] for a in o['a']])
            regs[o['id']] = (sub, tuple(shape), max(regs[a][2] for a in o['a']) + 1)
            out.append(o)
        return out

    def branches(self, ctx):
        """a result built up step by step, and then continued in two ways: what one adds must not show in the other"""
        rng = self.rng
        if self.plan['ctxs'][ctx]['backend'] == 'python':
            return []
        n = self.inp(ctx, shape=rng.choice([[1], [2], [3], [3, 2]]), layout='C')
        spec = self.plan['inputs'][n]
        x = [n] + [self.inp(ctx, sub=spec['sub'], shape=spec['shape'], layout=spec['layout']) for _ in range(2)]
        nm = rng.choice(['x.concat', 'x.concat', 'x.atset', 's.add', 's.sub'])

        def o(a, b):
            q = {'id': f'o{self.nop}', 'k': nm, 'a': [a, b]}
            if nm == 'x.atset':
                q['i'] = rng.randrange(spec['shape'][0])
            self.nop += 1
            return q
        out = [o(x[0], x[1])]
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(o(out[-1]['id'], rng.choice(x)))
        r = out[-1]['id']
        out += [o(r, x[2]), o(r, x[0])]
        if rng.random() < .3:
            out.append(o(out[-2]['id'], x[1]))
        return out

    def elementwise(self, ctx):
        """an elementwise function of an input that contains numbers of every kind"""
        from .program import EW
        rng = self.rng
        if self.plan['ctxs'][ctx]['backend'] == 'python' or self.M(ctx).n > 6:
            return []
        old = [k for k, v in self.plan['inputs'].items() if v['ctx'] == ctx and 'haz' in v]
        if old and rng.random() < .6:
            name = rng.choice(old)
        else:
            name = self.inp(ctx, shape=None if self.plan['ctxs'][ctx]['backend'] == 'numpy' else [])
            spec = self.plan['inputs'][name]
            spec['haz'] = rng.choice([.3, .7])
            if spec['layout'] == 'int':
                spec['layout'] = 'C'
        self.nop += 1
        return [{'id': f'o{self.nop - 1}', 'k': 'ew', 'fn': rng.choice(list(EW)), 'a': [name], 'c': rng.choice([0, 1.5, -2, 1e9])}]

    def clone(self, ops, shuffle=0.0, drop=0.0):
        """the same operations for another thread, under fresh ids; optionally reordered or thinned (respecting dependencies)"""
        rng = self.rng
        ops = list(ops)
        if shuffle and rng.random() < shuffle:
            placed, order = set(), []
            ids = {o['id'] for o in ops}
            pool = list(ops)
            while pool:
                ready = [o for o in pool if all(a not in ids or a in placed for a in o.get('a', ()))]
                o = rng.choice(ready)
                pool.remove(o)
                placed.add(o['id'])
                order.append(o)
            ops = order
        gone = set()
        m = {}
        out = []
        for o in ops:
            if rng.random() < drop or any(a in gone for a in o.get('a', ())):
                gone.add(o['id'])
                continue
            n = dict(o)
            n['id'] = f'o{self.nop}'
            self.nop += 1
            m[o['id']] = n['id']
            if 'a' in o:
                n['a'] = [m.get(a, a) for a in o['a']]
            out.append(n)
        return out

    def known(self, ctx):
        """registers of the plain inputs of a context"""
        M = self.M(ctx)
        return {k: (mset(M, v['sub']), tuple(v['shape']), 0) for k, v in self.plan['inputs'].items()
                if v['ctx'] == ctx and 'fn' not in v and 'haz' not in v}
