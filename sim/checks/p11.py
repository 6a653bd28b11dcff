"""P11: traced, differentiated and aborted evaluations never affect later results."""
import copy
import json

from ..runner import Check
from ..plangen import Gen
from .. import core, hist, tracing
from ..hist import HistProgram, inputs_first, regs_of, interleave, mirror
from ..execute import OTYPES
from ..catalog import OPS, mset
from .common import finish, make_sim, Faulty

ALGS = ['x+y+', 'x+y+w0', 'x+y+z+', 'x+t-', 'x+y+z+w0', [2, 0, 1], [1, 1, 1], 'x-y-', 'w0x+y+', [0, 0, 2], [3, 0, 0], 'x+y+z+t-']
NLF = ['inverse', 'exp', 'normalized', 'motor_log', 'motor_square_root', 'motor_geometric_mean', 'norm_squared', 'exp_bisect', 'inverse_shirokov',
       'inverse_la', 'square_root', 'study_square_root', 'inverse_square_root', 'norm_even', 'study_norm', 'exp_quadratic', 'scalar_exp_log',
       'motor_split', 'decompose_invariant', 'motor_inverse', 'translator_log', 'motor_tr', 'quad_roundtrip']

# compiling these unrolled, term by term, takes xla tens of seconds; they are compiled with the other kinds of operator only
HEAVY = {'exp', 'exp_bisect', 'motor_log', 'motor_log_bisect', 'inverse_shirokov', 'quad_roundtrip', 'explog'}


class Traced(HistProgram):
    def __init__(self, plan, sim):
        HistProgram.__init__(self, plan, sim)
        self.fns = {}
        self.box = {}

    def allowed(self, o, e):
        return o['k'] == 'tr' and bool(self.box.get('fired'))

    def judge_op(self, o, out=None):
        if o['k'] == 'tr':
            out = out or self.out[o['id']]
            if out.kind == 'ok':
                m = tracing.judge_tr(self, o, out.value)
                return m and f'{o["id"]}: {m}'
        return HistProgram.judge_op(self, o, out)


class P11(Check):
    id = 'P11'
    backends = ('numpy', 'jax')
    runs = {'quick': 1500, 'thorough': 40000}
    wall = {'quick': 55, 'thorough': 800}
    child_timeout = 45
    native_hang = True
    real = 'numga (unmodified sources of the working tree), numpy, jax with its tracing machinery and compiler'
    rule = ('a run is one history over 1-3 jax contexts and possibly a numpy context on the same algebra, in which plain calls alternate '
            'with blocks of calls that are compiled, vectorised, scanned, checkpointed, differentiated forwards or backwards or only '
            'abstractly evaluated, in any nesting; traces are cut short by interrupts, failed allocations, failing user functions, '
            'concretisation and shape errors, transformed functions are kept and called again, strategies are switched in between; '
            'all values and derivatives are compared with the reference algebra, nonlinear functions with their plain evaluation')
    measure = 'not used (single caller)'

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([120, 300, 600]), big=0)
        p = g.plan
        p['algs'].append(rng.choice(ALGS))
        ctxs = []
        for i in range(rng.choice([1, 1, 2])):
            a = 0
            if i and rng.random() < .3:
                p['algs'].append(copy.deepcopy(p['algs'][0]))
                a = len(p['algs']) - 1
            ctxs.append(g.ctx(a, 'jax', otype=rng.choice(['einsum', 'einsum', 'dense', 'sparse'])))
        groups = []
        for c in ctxs:
            ins = inputs_first(g, c, rng.randint(1, 3), shape=None)
            for o in ins:
                s = p['inputs'][o['in']]
                s['shape'] = rng.choice([[], [3]])
                s['layout'] = 'C'
            regs = regs_of(g, ins, c)
            ops = []
            blocks = []
            for _ in range(rng.choice([2, 3, 4])):
                r = rng.random()
                if r < .3:
                    seq = g.sequence(c, dict(regs), rng.randint(1, 2), nl=0, subs=.05, labels=.03, blades=.05, gc=.03,
                                     deny=() if rng.random() < .2 else ('derived',))
                    ops += seq
                elif r < .5 and blocks:
                    ops += self.again(g, rng, rng.choice(blocks), c, regs)
                else:
                    new = self.block(g, rng, c, regs)
                    blocks += [o for o in new if o['k'] == 'tr']
                    ops += new
            for b in blocks:        # everything a failed trace touched is used again
                if 'abort' in b or rng.random() < .2:
                    ops += self.again(g, rng, b, c, regs)
            groups.append(ins + ops)
        if rng.random() < .5:           # the same symbolic tables seen from numpy
            n = g.ctx(0, 'numpy')
            flat = [o for t in groups for x in t for o in (x['body'] if x['k'] == 'tr' else [x]) if o['k'] != 'nl']
            m, _ = mirror(g, [o for o in flat if o['k'] not in ('gc', 'cfg')], ctxs[0], n)
            groups.append(m)
        ops = interleave(rng, groups)
        heavy = any(x['k'] == 'nl' and x['fn'] in HEAVY for o in ops for x in o.get('body', ()))
        otypes = [t for t in OTYPES['jax'] if not (heavy and t == 'sparse')]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.insert(rng.randrange(len(ops) + 1), {'id': f'o{g.nop}', 'k': 'cfg', 'ctx': rng.choice(ctxs), 'otype': rng.choice(otypes)})
            g.nop += 1
        p['threads'] = [ops]
        p['sched'] = {'mode': rng.choice(['call', 'call', 'line']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        p['retries'] = 2
        if rng.random() < .6:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.15, .4]), again=0, extra=.03)
        return p

    def block(self, g, rng, c, regs):
        p = g.plan
        pre = []
        whole = False
        if rng.random() < .3:
            names = self.nl(g, rng, c)
            if not names:
                return []
            fn, ins = names
            pre = [{'id': f'o{g.nop + i}', 'k': 'mk', 'in': n} for i, n in enumerate(ins)]
            g.nop += len(pre)
            body = [{'id': f'o{g.nop}', 'k': 'nl', 'fn': fn, 'a': ins}]
            g.nop += 1
            a, out = ins, [body[0]['id']]
            batch = any(p['inputs'][i]['shape'] for i in ins)
            outers = [None, None, None, 'grad', 'shape', 'jaxpr']
        else:
            whole = rng.random() < .3       # operations on the batch as a whole do not go with vmap and scan
            deny = (() if whole else ('npj',)) + (() if rng.random() < .2 else ('derived',))
            body = [o for o in g.sequence(c, dict(regs), rng.choice([1, 2, 3]), nl=0, subs=.02, labels=0, blades=.04, deny=deny) if o['k'] != 'gc']
            ids = [o['id'] for o in body if o['k'] in OPS]
            if not ids:
                return []
            a = sorted({x for o in body for x in o.get('a', ()) if x in regs})
            out = sorted(rng.sample(ids, min(len(ids), rng.choice([1, 1, 2]))))
            batch = any(p['inputs'][i]['shape'] for i in a)
            outers = [None, None, None, 'jvp', 'grad', 'vjp', 'linearize', 'shape', 'jaxpr']
        stack = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            t = rng.choice(['jit', 'jit', 'vmap', 'scan', 'remat'])
            if t in ('vmap', 'scan') and (whole or not batch or 'vmap' in stack or 'scan' in stack):
                t = 'jit'
            stack.append(t)
        o = {'id': f'o{g.nop}', 'k': 'tr', 'ctx': c, 'a': a, 'body': body, 'out': out, 'stack': stack, 'seed': rng.randrange(10 ** 6)}
        g.nop += 1
        k = rng.choice(outers)
        if k:
            o['outer'] = k
            if k == 'grad' and rng.random() < .4:
                o['jg'] = 1
        if rng.random() < .35:
            o['pytree'] = 1
        if rng.random() < .35:
            o['hold'] = f'f{o["id"]}'
        if rng.random() < .3 and (stack or k):
            o['abort'] = [rng.choice(['raise', 'conc', 'shape']), rng.randrange(len(body))]
        if body[0]['k'] == 'nl' and rng.random() < .4:
            o['first'] = 1
        return pre + [o]

    def nl(self, g, rng, c):
        """an input suitable for a nonlinear function in a jax context"""
        p = g.plan
        q = p['ctxs'][c]
        for _ in range(4):
            fn = rng.choice(NLF)
            q['backend'], keep, dt = 'numpy', q['backend'], q.get('dtype')
            if fn in HEAVY and (q['otype'] == 'sparse' or p['algs'][0] == 'x+y+z+t-'):
                q['backend'], q['dtype'] = keep, dt
                continue
            q['dtype'] = 'float64'
            try:
                x = g.nl_input(c, fn)
            finally:
                q['backend'] = keep
                q['dtype'] = dt
            if x and x[0] == fn:
                sh = rng.choice([[], [3]])
                for n in x[1]:
                    p['inputs'][n]['shape'] = sh
                    p['inputs'][n]['layout'] = 'C'
                return x
            for n in (x[1] if x else ()):
                p['inputs'].pop(n)
        return None

    def again(self, g, rng, b, c, regs):
        """the same block once more, on the same or other numbers, kept function or new, same transformations or others"""
        p = g.plan
        n = json.loads(json.dumps(b))
        n.pop('abort', None)
        out = []
        m = {}
        if rng.random() < .5:
            for x in n['a']:
                s = json.loads(json.dumps(p['inputs'][x]))
                s['seed'] = rng.randrange(10 ** 6)
                m[x] = f'i{len(p["inputs"])}'
                while m[x] in p['inputs']:
                    m[x] += 'x'
                p['inputs'][m[x]] = s
                out.append({'id': f'o{g.nop}', 'k': 'mk', 'in': m[x]})
                g.nop += 1
            if 'hold' not in n:
                for o in n['body']:
                    m[o['id']] = f'o{g.nop}'
                    g.nop += 1
        if m:
            if 'hold' in n:         # the kept function refers to the operations of its own body; only the numbers are new
                n['a'] = [m[x] for x in n['a']]
                ren = {o['id']: f'o{g.nop + i}' for i, o in enumerate(n['body'])}
                g.nop += len(ren)
                for o in n['body']:
                    o['id'] = ren[o['id']]
                    o['a'] = [m.get(x, ren.get(x, x)) for x in o.get('a', ())] if 'a' in o else []
                    if not o['a']:
                        o.pop('a')
                n['out'] = [ren[x] for x in n['out']]
            else:
                n['a'] = [m[x] for x in n['a']]
                for o in n['body']:
                    if 'a' in o:
                        o['a'] = [m.get(x, x) for x in o['a']]
                    o['id'] = m[o['id']]
                n['out'] = [m[x] for x in n['out']]
        if 'hold' not in n and rng.random() < .4:
            n['stack'] = [t for t in n['stack'] if t != 'jit'] if rng.random() < .5 else n['stack'] + ['jit']
        n['id'] = f'o{g.nop}'
        g.nop += 1
        return out + [n]

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')), max_events=3_000_000)
        sim.spare = ('__eq__', '__hash__', 'tree_flatten', 'tree_unflatten')
        prog = Traced(plan, sim)
        prog.run()
        finish(sim, res)
        tr = 0
        for o in plan['threads'][0]:
            if o['k'] == 'tr':
                tr += 1
                for t in o['stack']:
                    res['stats']['trace ' + t] += 1
                if o.get('outer'):
                    res['stats']['trace ' + o['outer']] += 1
                if 'abort' in o:
                    res['faults']['trace fails: ' + o['abort'][0]] += any(a[0]['id'] == o['id'] for a in prog.attempts)
            else:
                res['stats']['op ' + o['k']] += 1
        res['nontrivial'] = tr > 0
        v = prog.viol
        if v is None:
            m = prog.identity_violation()
            v = m and {'kind': 'subspace identity', 'msg': m}
        res['viol'] = v


CHECK = P11()
