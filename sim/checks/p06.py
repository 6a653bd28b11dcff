"""P06: registered implementations take effect at once and in order."""
import copy

from ..runner import Check
from ..plangen import Gen
from ..program import Program
from ..nonlin import NLS, nl_check, nl_candidates
from ..catalog import mset, gen_sub
from .. import dispatch, core
from .common import sched_spec, finish, make_sim, Faulty

REAL = ['inverse', 'exp', 'normalized', 'square_root', 'norm_squared', 'motor_square_root', 'motor_log', 'exp_bisect', 'decompose_invariant']


class DispatchProgram(Program):
    def setup(self):
        Program.setup(self)
        self.bench = dispatch.Bench(self)


class P06(Check):
    id = 'P06'
    runs = {'quick': 4000, 'thorough': 80000}
    wall = {'quick': 50, 'thorough': 800}
    rule = ('a run registers implementations (conditions on values, subspaces, algebras; explicit positions; failing and flaky conditions; '
            'failing, calling and registering implementations) with own dispatch objects and with extension points of the library, from 1-3 '
            'threads, between and during calls on few, repeating argument kinds; the recorded history must be explained by one order of the '
            'registrations consistent with real time (linearizability against a list-of-implementations model); non-trivial when a fault or '
            'a second thread took part, or a registration followed a call on the same dispatch object')
    measure = 'distinct pairs of code locations between which the baton passed'

    def cond(self, g, d, rng, depth=1):
        n = d.get('n', 1)
        if n > 1 and rng.random() < .6:
            return ['arg', rng.randrange(n), self.cond(g, dict(d, n=1), rng, depth)]
        r = rng.random()
        if depth and r < .12:
            return ['flaky', rng.choice([1, 2]), self.cond(g, d, rng, 0), rng.randrange(99)]
        if depth and r < .2:
            return ['fail', self.cond(g, d, rng, 0), self.cond(g, d, rng, 0), rng.randrange(99)]
        if depth and r < .3:
            return ['and', self.cond(g, d, rng, 0), self.cond(g, d, rng, 0)]
        if depth and r < .36:
            return ['not', self.cond(g, d, rng, 0)]
        if r < .5:
            return ['all']
        if d['kind'] == 'own':
            return ['vals', sorted(rng.sample(range(4), rng.choice([1, 1, 2])))]
        i = rng.choice(list(g.plan['inputs']))
        s = g.plan['inputs'][i]
        M = g.M(s['ctx'])
        r = rng.random()
        if r < .3:
            return ['eq', s['sub']]
        if r < .45:
            return ['in', s['sub']]
        if r < .55:
            return ['in', gen_sub(rng, M, 1)] if M.n <= 5 else ['in', s['sub']]
        if r < .8:
            return ['ns', rng.choice(['inside', 'equals']), rng.choice(['vector', 'even_grade', 'odd_grade', 'scalar', 'nonscalar', 'empty', 'self_reverse'])]
        if r < .9:
            return ['alg', g.plan['ctxs'][s['ctx']]['alg']]
        return ['dim', len(mset(M, s['sub']))]

    def gen(self, rng, tier):
        g = Gen(rng, big=0.0)
        p = g.plan
        p['disp'] = []
        c = []
        for i in range(rng.choice([1, 2, 2])):
            a = g.alg()
            while g.plan['algs'][a] and g_n(g, a) > 5:
                p['algs'].pop()
                a = g.alg()
            c.append(g.ctx(a, 'numpy', dtype='float64'))
        for i in range(rng.choice([2, 3, 4])):
            x = rng.choice(c)
            n = g.inp(x)
            if rng.random() < .5 and len(c) > 1:       # the same blades in another algebra
                s = dict(p['inputs'][n])
                s['ctx'] = c[1 - c.index(x)]
                from ..hist import valid_spec
                if valid_spec(g.M(s['ctx']), s['sub']):
                    p['inputs'][f'i{len(p["inputs"])}'] = s
        plain = list(p['inputs'])
        realin = {}
        for i in range(rng.choice([1, 2, 2, 3])):
            r = rng.random()
            if r < .35:
                p['disp'].append({'kind': 'own', 'n': rng.choice([1, 1, 2]), 'how': rng.choice(['method', 'function'])})
            elif r < .7:
                p['disp'].append({'kind': 'sub', 'n': rng.choice([1, 1, 2]), 'how': rng.choice(['method', 'function'])})
            else:
                fn = rng.choice(REAL)
                if any(d.get('fn') == fn for d in p['disp']):
                    continue
                ins = []
                for k in range(rng.choice([1, 2, 3])):
                    x = g.nl_input(rng.choice(c), fn)
                    if x and x[0] == fn:
                        ins += x[1]
                if not ins:
                    continue
                realin[len(p['disp'])] = ins
                p['disp'].append({'kind': 'real', 'fn': fn, 'n': 1})
        if not p['disp']:
            p['disp'].append({'kind': 'own', 'n': 1, 'how': 'method'})
        nt = rng.choice([1, 2, 2, 3])
        tags = [0]
        delegate = rng.choice([0, 1])

        def items(d):
            D = p['disp'][d]
            if D['kind'] == 'own':
                return [rng.randrange(4) for _ in range(D['n'])]
            return [rng.choice(realin[d] if D['kind'] == 'real' else plain) for _ in range(D['n'])]

        def reg(d, nregs, nested=False):
            D = p['disp'][d]
            tags[0] += 1
            o = {'tag': f't{tags[0]}', 'cond': self.cond(g, D, rng), 'impl': ['tag']}
            r = rng.random()
            if D['kind'] == 'real':
                o['pos'] = 0 if rng.random() < .8 or nt > 1 else None
                # an override that does something else may not be used by other functions of the library while these are judged
                s = p['inputs'][rng.choice(realin[d])]
                o['cond'] = ['and', ['alg', p['ctxs'][s['ctx']]['alg']], rng.choice([['eq', s['sub']], ['in', s['sub']], o['cond']])]
                if D['fn'] in dispatch.DELEGATE and r < delegate:
                    alt = rng.choice(dispatch.DELEGATE[D['fn']])
                    o['impl'] = ['lib', alt]
                    M = g.M(s['ctx'])
                    o['cond'] = ['and', ['alg', p['ctxs'][s['ctx']]['alg']], ['eq', s['sub']]]
                    if alt in NLS and not NLS[alt].dom(M, mset(M, s['sub'])):
                        o['impl'] = ['tag']
                return o
            o['pos'] = None if rng.random() < .5 else rng.randint(0, nregs)
            if r < .1:
                o['impl'] = ['raise', rng.randrange(99)]
            elif r < .2 and d + 1 < len(p['disp']):
                e = rng.randrange(d + 1, len(p['disp']))
                o['impl'] = ['call', e, items(e)]
            elif r < .32 and not nested:
                e = rng.randrange(d, len(p['disp']))
                o['impl'] = ['reg', e, reg(e, 0, True)]
            return o
        p['threads'] = []
        busy = {}
        for ti in range(nt):
            ops = []
            nregs = {}
            for _ in range(rng.randint(4, 14 if nt == 1 else 9)):
                d = rng.randrange(len(p['disp']))
                if rng.random() < .35 and nregs.get(d, 0) < 4:
                    o = reg(d, nregs.get(d, 0))
                    nregs[d] = nregs.get(d, 0) + 1
                    o.update(id=f'o{g.nop}', k='reg', d=d)
                else:
                    o = {'id': f'o{g.nop}', 'k': 'call', 'd': d, 'it': items(d)}
                g.nop += 1
                ops.append(o)
            p['threads'].append(ops)
        # functions of other kinds, judged by their equations, on algebras nobody overrides
        p['sched'] = sched_spec(rng) if nt > 1 else {'mode': rng.choice(['line', 'both', 'instr']), 'strategy': ['none'], 'seed': rng.randrange(10 ** 6)}
        if rng.random() < .5:
            p['faults'] = Faulty.spec(rng, p, prob=rng.choice([.2, .6]), again=.2, extra=.03)
            if rng.random() < .5:
                p['faults']['rate'] = round(10 ** rng.uniform(-3, -1), 5)
            p['retries'] = rng.choice([0, 0, 1])
        return p

    def execute(self, plan, explicit, res):
        sim = make_sim(plan, explicit, copy.deepcopy(plan.get('faults')))
        prog = DispatchProgram(plan, sim)
        prog.setup()
        v = None
        try:
            prog.run()
        except (core.Deadlock, core.Livelock) as e:
            v = {'kind': 'deadlock', 'msg': str(e)}
        finish(sim, res)
        B = prog.bench
        if v is None:
            for t in plan['threads']:
                for o in t:
                    res['stats'][o['k']] += 1
                    out = prog.out[o['id']]
                    if out.kind == 'exc' and v is None:
                        v = {'kind': 'unexpected error', 'msg': f'{o["k"]} {o["id"]} raised {type(out.err).__name__}: {out.err}'}
        if v is None:
            # afterwards a lone caller asks everything once more
            for d in range(len(plan['disp'])):
                asked = []
                for h in list(B.hist[d]):
                    if h['type'] == 'call' and h['its'] not in asked:
                        asked.append(h['its'])
                        B.invoke(d, h['its'], lambda r: prog.live[r])
            late = False
            for d, D in enumerate(plan['disp']):
                res['stats']['histories of ' + (D.get('fn') or D['kind'])] += 1
                m = B.explain(d)
                if m and v is None:
                    v = {'kind': 'dispatch order', 'msg': m}
                first = min((h['t0'] for h in B.hist[d] if h['type'] == 'call'), default=1 << 60)
                late = late or any(h['type'] == 'reg' and h['t0'] > first for h in B.hist[d])
                if D['kind'] == 'real' and v is None:
                    for h in B.hist[d]:
                        res['stats']['calls of the library judged by equation'] += h['type'] == 'call' and h['out'] is not None and h['out'][0] == 'value'
                        if h['type'] == 'call' and h['out'] and h['out'][0] == 'value' and not B.altered(h['its'][0]):
                            M = prog.env.malg_of_ctx(plan['inputs'][h['its'][0]]['ctx'])
                            args = [prog.model.nlvals(h['its'][0])]
                            m = nl_check(D['fn'], M, args, h['v'])
                            if m and v is None:
                                v = {'kind': 'wrong result', 'msg': m}
            res['nontrivial'] = bool(sim.fired or len(plan['threads']) > 1 or late)
        res['faults']['failing condition'] += sum(h.get('out') and h['out'][0] == 'cond' or 0 for H in B.hist.values() for h in H)
        res['faults']['failing implementation'] += sum(h.get('out') and h['out'][0] == 'impl' or 0 for H in B.hist.values() for h in H)
        res['viol'] = v


def g_n(g, a):
    from ..execute import malg
    return malg(g.plan['algs'][a]).n


CHECK = P06()
