"""P12: nothing ambient decides a result, and nothing ambient is changed."""
import atexit
import copy
import hashlib
import os
import random

import numpy as np

from ..runner import Check
from ..plangen import Gen
from .. import core, seams, ambient, facts
from ..program import Program, describe
from ..catalog import mset, OPS
from .common import Faulty, sched_spec

COMPANION = []


class Real(Program):
    """inputs are arbitrary reals, so that the order of every sum shows in the last bits"""
    def __init__(self, plan, sim):
        Program.__init__(self, plan, sim)
        self.states = None
        self.viol = None

    def judge_state(self, o, out):
        if self.viol is None:
            now = ambient.snapshot(deep=False)
            m = ambient.diff(self.states, now, self.ignore)
            if m:
                hit = [f for f in self.sim.fired if f[0].split('~')[0] == o['id']]
                self.viol = {'kind': 'ambient state changed', 'msg': f'{describe(o)}: {m}' + (f' (after {hit})' if hit else '')}


def realise(prog):
    from ..execute import Env
    env = prog.env
    orig = env.make_input

    def make_input(name):
        spec = prog.plan['inputs'][name]
        x = orig(name)
        if spec.get('layout') in ('list', 'int') and not spec.get('spice') or not hasattr(x.values, 'dtype'):
            return x
        r = np.random.RandomState(spec['seed'] + 1)
        w = v = np.array(x.values)
        if 'fn' not in spec and 'haz' not in spec:
            w = (r.standard_normal(v.shape) * 10.0 ** r.randint(-4, 5, v.shape)).astype(v.dtype)
        if spec.get('spice'):
            w = np.where(r.rand(*v.shape) < spec['spice'][0], r.choice(np.array(spec['spice'][1], dtype=v.dtype), v.shape), w)
        return x.context.multivector(x.subspace, w)
    env.make_input = make_input


def reorder(plan, rng):
    ops, done, out = list(plan['threads'][0]), set(plan['inputs']), []
    while ops:
        o = rng.choice([o for o in ops if all(a in done for a in o.get('a', ()))] or ops[:1])
        ops.remove(o)
        out.append(o)
        done.add(o['id'])
    return out


def other_operands(plan, rng):
    pre = copy.deepcopy({k: v for k, v in plan.items() if k != 'sides'})
    shape = rng.choice([[], [3], [2, 2], None])
    for i in pre['inputs'].values():
        i['seed'] += 77
        i.pop('spice', None)
        if shape is not None and all(c['backend'] == 'numpy' for c in plan['ctxs']):
            i['shape'] = shape
    return pre


def record(v):
    """everything a caller can read off a result, to the last bit"""
    if isinstance(v, (tuple, list)):
        return [type(v).__name__] + [record(x) for x in v]
    if hasattr(v, 'subspace') and hasattr(v, 'values'):
        a = v.values
        if isinstance(a, np.ndarray):
            b = (str(a.dtype), a.shape, hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest(), repr(a.ravel()[:6].tolist()))
        else:
            b = (str(a.dtype), tuple(a.shape)) if hasattr(a, 'dtype') else repr(a)      # the last bits of torch and jax are their own
        return ['mv', type(v).__name__, [int(i) for i in v.subspace.blades], b]
    if hasattr(v, 'blades'):
        return ['sub', [int(i) for i in v.blades], v.named_str, v.bit_str, v.pretty_str, repr(v)] if len(v.blades) < 70 else ['sub', [int(i) for i in v.blades]]
    if isinstance(v, np.ndarray):
        return ['array', str(v.dtype), v.shape, hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()]
    if isinstance(v, dict):
        return ['dict'] + [[record(k), record(x)] for k, x in v.items()]
    if isinstance(v, (bool, int, float, str, type(None), np.generic)):
        return repr(v)
    return type(v).__name__


class P12(Check):
    id = 'P12'
    backends = ('numpy', 'python', 'torch', 'jax')
    runs = {'quick': 2500, 'thorough': 60000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run is one program of 3-25 calls (constructions, labels, subspace questions, linear, bound, indexed and nonlinear functions; '
            'real valued inputs over 9 decades) executed twice, in two interpreters with different hash seeds, call orders, earlier calls and different random '
            'states, clocks, heap contents, collector settings, call depths, threads, directories and floating point error modes, with '
            'interrupts, failed allocations, collections and clock jumps injected (and the calls retried) on either side; the two '
            'records are compared bit for bit and process-wide state is compared after each call; every run is non-trivial')
    measure = 'not used'
    stub = Check.stub + '; surroundings (random states, heap, clock, directory, hash seed) are chosen by the simulator'

    def load(self):
        import einops, scipy                    # noqa: what the library itself imports changes filters of its own
        import numpy.linalg
        import torch, jax
        import jax.numpy as jnp
        torch.set_num_threads(1)
        x = torch.ones(2, dtype=torch.float64)
        torch.einsum('...i,...i->...', x, x)    # what these load on first use is not numga's doing
        jnp.einsum('...i,...i->...', jnp.ones(2), jnp.ones(2)).block_until_ready()
        a = ambient.snapshot()
        self.imported = None
        seams.install()
        import gc
        a['garbage collector'] = (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug())
        a['import path'] = None
        seams.load(self.backends)
        b = ambient.snapshot()
        b['import path'] = None
        self.imported = ambient.diff(a, b)
        if not os.environ.get('SIM_COMPANION'):
            from ..runner import Worker
            os.environ['SIM_COMPANION'] = '1'
            w = Worker(self.id, 'quick', (int(os.environ.get('PYTHONHASHSEED', '1')) * 7919 + 17) % 2 ** 32)
            del os.environ['SIM_COMPANION']
            bad = w.ready()
            if bad:
                raise RuntimeError('companion: ' + bad)
            COMPANION.append(w)
            atexit.register(w.close)

    def gen(self, rng, tier):
        g = Gen(rng, budget=rng.choice([600, 3000]), big=.04)
        p = g.plan
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            bk = rng.choices(['numpy', 'python', 'torch', 'jax'], [81, 9, 8, 2])[0]
            if bk == 'jax':
                p['algs'].append(rng.choice(['x+y+', 'x+w0']))
                c = g.ctx(len(p['algs']) - 1, bk, dtype=rng.choice(['float32', 'float64', 'float64', 'float16']))     # without x64, jax makes single of double precision
            else:
                c = g.ctx(g.alg(), bk)
            x = [g.inp(c) for _ in range(rng.randint(1, 3))]
            ops += g.sequence(c, g.known(c), rng.choice([2, 5, 12]) if bk != 'jax' else 2, deny=() if bk != 'jax' else ('derived', 'cubic'), nl=.2, subs=.2, labels=.2, ew=.06)
            for _ in range(rng.choice([0, 0, 1, 2])):       # printed
                o = {'id': f'o{g.nop}', 'k': 'show', 'how': rng.choice(['repr', 'repr', 'str', 'format', 'op']), 'a': [rng.choice(sorted(g.known(c)) + [q['id'] for q in ops if 'a' in q and q['k'] in OPS])]}
                g.nop += 1
                ops.append(o)
            for _ in range(rng.choice([0, 1, 4])):
                o = facts.gen_fact(g, c, 2 if g.M(c).n <= 5 else 0)
                if o:
                    ops.append(o)
        if rng.random() < .5:
            rng.shuffle(ops)
            done, out = set(p['inputs']), []
            while ops:
                i = next(i for i, o in enumerate(ops) if all(a in done for a in o.get('a', ())))
                out.append(ops.pop(i))
                done.add(out[-1]['id'])
            ops = out
        p['threads'] = [ops]
        for i in p['inputs'].values():
            if rng.random() < .4:       # zeros, negatives, values out of the domain
                i['spice'] = [rng.choice([.2, .6, 1]), [float(rng.choice(['0', '0', '-0', 'nan', 'inf', '-inf', '1e300', '1e-300', '-1', '1'])) for _ in range(rng.choice([1, 1, 3]))]]
        p['retries'] = 3
        p['sides'] = {}
        for s in 'AB':
            v = ambient.variant(rng, base=s == 'A' and rng.random() < .5)
            q = {'amb': v, 'mode': rng.choice(['call', 'line']), 'seed': rng.randrange(10 ** 6), 'faults': None}
            if rng.random() < .45:
                q['faults'] = Faulty.spec(rng, p, prob=rng.choice([.1, .4]), again=0, extra=.1)
            if rng.random() < .4:
                q['order'] = rng.randrange(10 ** 6)
            if rng.random() < .35:
                q['prelude'] = rng.randrange(10 ** 6)
            p['sides'][s] = q
        return p

    def side(self, plan, s, explicit, res):
        q = plan['sides'][s]
        x = None
        if explicit is not None:
            x = {'switches': [], 'ends': [], 'faults': [[o[2:], k, f] for o, k, f in explicit.get('faults', []) if o.startswith(s + '/')]}
        ids = [o['id'] for o in plan['threads'][0]]
        if q.get('order') is not None:
            plan = dict(plan, threads=[reorder(plan, random.Random(q['order']))])
        amb = ambient.Surroundings(q['amb'])
        before = ambient.snapshot()
        sim = core.Sim(seed=q['seed'], mode=q['mode'], explicit=x, faults=copy.deepcopy(q['faults']))
        prog = Real(plan, sim)
        if q.get('prelude') is not None:    # the same calls have been made before, on other operands
            pre = other_operands(plan, random.Random(q['prelude']))
            first = Real(pre, core.Sim(mode='call'))
            first.setup()
            first.run()
            prog.env.setup = lambda: None
            prog.env.algs, prog.env.ctxs = first.env.algs, first.env.ctxs
        native = any(c['backend'] in ('torch', 'jax') for c in plan['ctxs'])     # these import and start things of their own at any time
        prog.ignore = ('threads', 'warning filters', 'hooks', 'import path', 'open files', 'environment', 'garbage collector') if native else ('threads',) if q['amb'].get('threads') else ()
        realise(prog)
        prog.states = before
        prog.after_op = prog.judge_state
        out = {}

        def go():
            prog.setup()
            prog.run()
        if q['amb'].get('threads'):
            prog.setup()
            prog.states = before = ambient.snapshot()
            # another thread makes the calls; error modes are per thread, so it starts from those of the caller
            modes = np.geterr()

            def run0():
                np.seterr(**modes)
                amb.call(prog.body(0))
            sim.run([run0, lambda: None])
        else:
            amb.call(go)
        after = ambient.snapshot()
        m = ambient.diff(before, after, prog.ignore)
        v = prog.viol or (m and {'kind': 'ambient state changed', 'msg': m})
        rec = [[o['id'], prog.out[o['id']].kind if prog.out[o['id']].kind != 'exc' else type(prog.out[o['id']].err).__name__,
                record(prog.out[o['id']].value)] for o in plan['threads'][0]]
        rec.sort(key=lambda r: ids.index(r[0]))
        res['events'] += sim.events
        res['digest'] = (res['digest'] * 31 + sim.digest) & core.MASK
        for _, _, f in sim.fired:
            res['faults'][f] += 1
        res['record'] = rec
        res['fired'] = sim.fired
        res['clock'] = seams.Ambient.clock_reads
        return v

    def execute(self, plan, explicit, res):
        if self.imported:
            res['viol'] = {'kind': 'ambient state changed', 'msg': f'importing the library: {self.imported}'}
            return
        if plan.get('side'):
            res['viol'] = self.side(plan, plan['side'], explicit, res)
            return
        w = COMPANION[0]
        w.send({'plan': dict(plan, side='B', nonce=os.getpid()), 'explicit': explicit, 'keep': True, 'tier': 'quick'})
        v = self.side(plan, 'A', explicit, res)
        rb = w.recv()
        while not rb.get('died') and rb.get('plan', {}).get('nonce') != os.getpid():
            rb = w.recv()
        if rb.get('died') or rb.get('error'):
            raise RuntimeError(f'companion: {rb.get("died") or rb["error"]}')
        res['events'] += rb['events']
        res['digest'] = (res['digest'] * 31 + rb['digest']) & core.MASK
        res['faults'].update(rb['faults'])
        res['faults']['two sets of surroundings'] += 1
        for o in plan['threads'][0]:
            res['stats']['op ' + (o['k'] if o['k'] != 'nl' else 'nl.' + o['fn'])] += 1
        v = v or rb['viol']
        if v is None:
            for a, b, o in zip(res['record'], rb['record'], plan['threads'][0]):
                if a != b and not {'fault', 'skip'} & {a[1], b[1]}:
                    v = {'kind': 'ambient decides', 'msg': f'{describe(o)} gives {str(a[1:])[:300]} in one surrounding and {str(b[1:])[:300]} in another'}
                    break
        res['sched'] = {'switches': [], 'ends': [], 'mode': '', 'faults': [['A/' + f[0], f[1], f[2]] for f in res['fired']] +
                        [['B/' + f[0], f[1], f[2]] for f in rb['fired']]}
        res.pop('record')
        res.pop('fired')
        res['nontrivial'] = True
        res['viol'] = v

    def variants(self, plan):
        yield from Check.variants(self, plan)
        for s in 'AB':
            for k in ('order', 'prelude'):
                if k in plan['sides'][s]:
                    p = copy.deepcopy(plan)
                    del p['sides'][s][k]
                    yield p
            for k in list(plan['sides'][s]['amb']):
                if k != 'seed':
                    p = copy.deepcopy(plan)
                    del p['sides'][s]['amb'][k]
                    yield p


CHECK = P12()
