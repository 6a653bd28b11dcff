"""Shared pieces of the checks: schedule specs, simulator construction, digests of library state."""
import hashlib
import numpy as np
from .. import core, seams


def sched_spec(rng, threads=True):
    mode = rng.choices(['line', 'both', 'call', 'instr'], [5, 3, 2, 1])[0]
    st = rng.choice(['rw', 'rw', 'rr', 'pct', 'park', 'park', 'hot', 'hot'])
    if st == 'rw':
        s = ['rw', round(10 ** rng.uniform(-2.7, -0.3), 4)]
    elif st == 'rr':
        s = ['rr', rng.choice([1, 1, 2, 3, 5, 8, 13, 40])]
    elif st == 'pct':
        s = ['pct', rng.randint(1, 8), rng.choice([300, 1500, 6000, 20000])]
    elif st == 'hot':
        s = ['hot', rng.choice([4, 15, 40]), rng.choice([.2, .5, 1]), rng.choice(['line', 'line', 'fn'])]
    else:
        s = ['park', rng.choice([1, 2, 4, 8, 16, 40, 90, 180]) + rng.randint(0, 20)]
    return {'mode': mode, 'strategy': s, 'seed': rng.randrange(10 ** 9)}


def make_sim(plan, explicit, faults=None, max_events=20_000_000):
    s = plan.get('sched') or {'mode': 'line', 'strategy': ['none'], 'seed': 0}
    return core.Sim(seed=s['seed'], mode=s['mode'], strategy=tuple(s['strategy']), explicit=explicit,
                    faults=faults, max_events=max_events)


def finish(sim, res):
    """book-keeping shared by all checks"""
    res['events'] += sim.events
    res['switches'] += sim.n_switch
    res['digest'] = (res['digest'] * 31 + sim.digest) & core.MASK
    for _, _, k in sim.fired:
        res['faults'][k] += 1
    res['sched'] = sim.record()
    res['states'] += list({hash_pair(a) for a in sim.pairs})


def hash_pair(x):
    return f'{x[0]}:{x[1]}'


# ------------------------------------------------------------------------------------------ program checks
class Faulty(object):
    """how faults are spread over a plan"""
    KINDS = ['intr', 'intr', 'mem']

    @staticmethod
    def spec(rng, plan, prob=.5, again=.3, kinds=None, extra=0.0):
        """which operations are hit, by what; the exact event is drawn while the run proceeds"""
        kinds = kinds or Faulty.KINDS
        ops = {}
        for t in plan['threads']:
            for o in t:
                if rng.random() < prob:
                    ops[o['id']] = [rng.choice(kinds)]
                    if rng.random() < again:
                        ops[o['id'] + '~1'] = [rng.choice(kinds)]
                ev = [k for k in ('gc', 'clock+', 'clock-') if rng.random() < extra]
                if ev:
                    ops[o['id']] = ev + ops.get(o['id'], [])
        return {'ops': ops, 'rate': round(10 ** rng.uniform(-5, -2), 7), 'new': round(10 ** rng.uniform(-2.7, -.2), 5)}


def simulate(plan, explicit, res, cls=None, before=None, after_op=None, final=True, identity=True, rerun=None):
    """run a program plan under the simulator and judge every outcome; returns (program, violation)"""
    from ..program import Program
    import copy
    sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
    prog = (cls or Program)(plan, sim)
    prog.setup()
    if before:
        before(prog)
    if after_op:
        prog.after_op = after_op
    v = None
    try:
        prog.run()
    except core.Deadlock as e:
        v = {'kind': 'deadlock', 'msg': str(e)}
    except core.Livelock as e:
        v = {'kind': 'livelock', 'msg': str(e)}
    finish(sim, res)
    hit = {o.split('~')[0] for o, _, k in sim.fired if k in ('intr', 'mem')}
    if v is None:
        for t in plan['threads']:
            for o in t:
                res['stats']['op ' + (o['k'] if o['k'] != 'nl' else 'nl.' + o['fn'])] += 1
                m = prog.judge_op(o)
                if m and v is None:
                    kind = 'wrong result' if prog.out[o['id']].kind == 'ok' else 'unexpected error'
                    if o['id'] in hit:
                        m += f' (after {[f for f in sim.fired if f[0].split("~")[0] == o["id"]]})'
                    v = {'kind': kind, 'msg': m}
                if prog.out[o['id']].kind == 'fault':
                    res['stats']['operations ended by a fault'] += 1
    if v is None and identity:
        m = prog.identity_violation()
        if m:
            v = {'kind': 'subspace identity', 'msg': m}
    if v is None and (plan.get('rerun') if rerun is None else rerun):
        v = quiescent(plan, prog)
    return prog, v


def quiescent(plan, prog, cls=None):
    """afterwards a lone caller, undisturbed, repeats everything on the objects the run left behind"""
    from ..program import Program
    ops = [dict(o, plain=1) for t in plan['threads'] for o in t]
    flat = {'algs': plan['algs'], 'ctxs': plan['ctxs'], 'inputs': plan['inputs'], 'threads': [ops]}
    sim = core.Sim(mode='call')
    again = (cls or Program)(flat, sim)
    again.env.algs, again.env.ctxs = prog.env.algs, prog.env.ctxs
    for name, s in plan['inputs'].items():
        again.live[name] = again.env.make_input(name)
    try:
        again.run()
    except (core.Deadlock, core.Livelock) as e:
        return {'kind': 'later calls', 'msg': f'afterwards: {e}'}
    for o in ops:
        m = again.judge_op(o)
        if m:
            return {'kind': 'later calls', 'msg': 'repeated undisturbed afterwards: ' + m}
    again.out.update({'a' + k: v for k, v in prog.out.items()})
    m = again.identity_violation()
    return m and {'kind': 'subspace identity', 'msg': m}
