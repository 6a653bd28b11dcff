"""Extensible functions: registrations and calls as program operations, and the sequential model they are judged by.

  {'k':'reg','d':i,'tag':t,'pos':p|None,'cond':c,'impl':m}   register an implementation with dispatch object i
  {'k':'call','d':i,'it':[items]}                            call dispatch object i
plan['disp'][i] is {'kind':'own','n':arity,'how':'method'|'function'} (attribute is a plain value), {'kind':'sub','n':arity,...}
(by subspace) or {'kind':'real','fn':name} (an extension point of the library).
Conditions: ['all'] ['vals',[..]] ['in',spec] ['eq',spec] ['ns',ns,name] ['alg',i] ['dim',n] ['arg',j,c] ['and',c,d] ['not',c]
['flaky',n,c,e] (fails the first n times it is asked) ['fail',c,d,e] (always fails where c holds, else d); e picks the kind of error.
"""
from . import core, program
from .catalog import mset, nset
from .nonlin import NLS

DELEGATE = {'inverse': ['inverse_la', 'inverse_shirokov'], 'exp': ['exp_bisect'], 'norm_squared': ['symmetric_reverse_product']}


class Failed:
    """mixed into whatever kind of error the client's code raises"""
    what = None
    tag = None


class ConditionFailed(Failed):
    what = 'condition'


class ImplementationFailed(Failed):
    what = 'implementation'


KINDS = [Exception, NotImplementedError, TypeError, KeyError, AttributeError, IndexError, LookupError, ValueError,
         AssertionError, RuntimeError, ArithmeticError, ZeroDivisionError, OSError, NameError, RecursionError, MemoryError, ImportError,
         BaseException, SystemExit]
ERRORS = {(c, k): type(f'{c.__name__}{k.__name__}', (c, k), {}) for c in (ConditionFailed, ImplementationFailed) for k in KINDS}


def failure(cls, tag, kind):
    e = ERRORS[cls, KINDS[kind % len(KINDS)]](f'{cls.what} of {tag} failed')
    e.tag = tag
    return e


class Thing:
    def __init__(self, v):
        self.kind = v


class Bench:
    """the dispatch objects of a run, their history, and the model"""
    def __init__(self, prog):
        from numga.dynamic_dispatch import DynamicDispatch, SubspaceDispatch
        from numga.multivector.multivector import AbstractMultiVector
        self.prog = prog
        self.plan = prog.plan
        self.now = 0
        self.hist = {}
        self.flaky = {}
        self.ran = {}
        self.traces = {}
        self.odd = self.overrides()

        class ByKind(DynamicDispatch):
            def attribute(self, arg):
                return arg.kind

        class Holder(Thing):
            pass
        self.Holder = Holder
        self.objs = []
        self.things = {}
        for i, d in enumerate(self.plan['disp']):
            self.hist[i] = []
            if d['kind'] == 'own':
                o = ByKind(f'dispatch {i}')
                setattr(Holder, f'f{i}', o)
            elif d['kind'] == 'sub':
                o = SubspaceDispatch(f'dispatch {i}')
                setattr(AbstractMultiVector, f'client_{i}', o)
            else:
                o = getattr(AbstractMultiVector, d['fn'])
            self.objs.append(o)

    # ------------------------------------------------------------------ execution
    def tick(self):
        self.now += 1
        return self.now

    def item(self, d, it, reg):
        if self.plan['disp'][d]['kind'] == 'own':
            if it not in self.things:
                self.things[it] = self.Holder(it)
            return self.things[it]
        return reg(it)

    def invoke(self, d, its, reg):
        spec = self.plan['disp'][d]
        args = [self.item(d, it, reg) for it in its]
        h = {'t0': self.tick(), 't1': None, 'type': 'call', 'its': its, 'out': None}
        self.hist[d].append(h)
        me = self.prog.sim.cur
        outer, self.traces[me] = self.traces.get(me), []
        try:
            if spec['kind'] == 'real':
                v = getattr(args[0], spec['fn'])(*args[1:])
            elif spec.get('how') == 'method':
                v = getattr(args[0], f'f{d}' if spec['kind'] == 'own' else f'client_{d}')(*args[1:])
            else:
                v = self.objs[d](*args)
            h['out'] = ['ran', v[1]] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'tag' else ['value', self.traces[me][0] if self.traces[me] else None]
        except BaseException as e:
            if isinstance(e, Failed):
                h['out'], v = ['cond' if isinstance(e, ConditionFailed) else 'impl', e.tag], None
            elif isinstance(e, core.INJECTED + (core.Deadlock, core.Livelock, core.Abort)) or not isinstance(e, Exception):
                raise
            else:
                h['out'], v = ['none', f'{type(e).__name__}: {e}'[:120]], None
        finally:
            self.traces[me] = outer
        h['t1'] = self.tick()
        h['v'] = v
        return v

    def register(self, d, o, reg):
        tag, impl, cond = o['tag'], o['impl'], o['cond']
        spec = self.plan['disp'][d]

        def func(*args):
            self.ran[tag] = self.ran.get(tag, 0) + 1
            self.traces[self.prog.sim.cur].append(tag)
            if impl[0] == 'raise':
                raise failure(ImplementationFailed, tag, impl[1])
            if impl[0] == 'call':
                self.invoke(impl[1], impl[2], reg)
            if impl[0] == 'reg' and self.ran[tag] == 1:
                self.register(impl[1], impl[2], reg)
            if impl[0] == 'lib':
                return getattr(args[0], impl[1])()
            return 'tag', tag

        def condition(*attrs):
            return self.test(tag, cond, attrs)
        h = {'t0': self.tick(), 't1': None, 'type': 'reg', 'tag': tag, 'pos': o.get('pos'), 'cond': cond, 'impl': impl}
        self.hist[d].append(h)
        kw = {}
        if o.get('pos') is not None:
            kw['position'] = o['pos']
        wrap = self.objs[d].register(**kw) if cond == ['all'] else self.objs[d].register(condition, **kw)
        f = wrap(func)
        h['t1'] = self.tick()
        return f is func

    def test(self, tag, c, attrs):
        """a condition as the client wrote it, on what the library passes to it"""
        k = c[0]
        s = attrs[0]
        if k == 'all':
            return True
        if k == 'vals':
            return s in c[1]
        if k == 'in':
            return s in nset(s.algebra, c[1], s.algebra.description.basis_names) if self.fits(s, c[1]) else False
        if k == 'eq':
            return s == nset(s.algebra, c[1], s.algebra.description.basis_names) if self.fits(s, c[1]) else False
        if k == 'ns':
            return getattr(getattr(s, c[1]), c[2])()
        if k == 'alg':
            return s.algebra is self.prog.env.algs[c[1]]
        if k == 'dim':
            return len(s) == c[1]
        if k == 'arg':
            return self.test(tag, c[2], attrs[c[1]:] if c[1] < len(attrs) else attrs)
        if k == 'and':
            return self.test(tag, c[1], attrs) and self.test(tag, c[2], attrs)
        if k == 'not':
            return not self.test(tag, c[1], attrs)
        if k == 'flaky':
            n = self.flaky[tag] = self.flaky.get(tag, 0) + 1
            if n <= c[1]:
                raise failure(ConditionFailed, tag, c[3])
            return self.test(tag, c[2], attrs)
        if k == 'fail':
            if self.test(tag, c[1], attrs):
                raise failure(ConditionFailed, tag, c[3])
            return self.test(tag, c[2], attrs)
        raise KeyError(k)

    def fits(self, s, spec):
        from .execute import malg
        for i, a in self.prog.env.algs.items():
            if a is s.algebra:
                M = malg(self.plan['algs'][i])
                ms = safe_mset(M, spec)
                return ms is not None
        return False

    # ------------------------------------------------------------------ model
    def attrs(self, d, its):
        if self.plan['disp'][d]['kind'] == 'own':
            return tuple(its)
        out = []
        for it in its:
            ci = self.plan['inputs'][it]['ctx']
            a = self.plan['ctxs'][ci]['alg']
            M = self.prog.env.malg_of_ctx(ci)
            out.append((a, mset(M, self.plan['inputs'][it]['sub']), M))
        return tuple(out)

    def truth(self, c, attrs):
        """what the condition answers: True, False, or a set of possibilities {'raise', True, False}"""
        k = c[0]
        x = attrs[0]
        if k == 'all':
            return {True}
        if k == 'vals':
            return {x in c[1]}
        if k in ('in', 'eq'):
            S = safe_mset(x[2], c[1])
            return {S is not None and (x[1] <= S if k == 'in' else x[1] == S)}
        if k == 'ns':
            S = x[2].named(c[2])
            return {x[1] <= S if c[1] == 'inside' else x[1] == S}
        if k == 'alg':
            return {x[0] == c[1]}
        if k == 'dim':
            return {len(x[1]) == c[1]}
        if k == 'arg':
            return self.truth(c[2], attrs[c[1]:] if c[1] < len(attrs) else attrs)
        if k == 'and':
            a = self.truth(c[1], attrs)
            return self.truth(c[2], attrs) if a == {True} else a
        if k == 'not':
            return {(not v) if v != 'raise' else v for v in self.truth(c[1], attrs)}
        if k == 'flaky':
            return self.truth(c[2], attrs) | {'raise'}
        if k == 'fail':
            return {'raise'} if True in self.truth(c[1], attrs) else self.truth(c[2], attrs)
        raise KeyError(k)

    def outcomes(self, d, state, its):
        """what a call may do when exactly these registrations are in effect, in this order"""
        attrs = self.attrs(d, its)
        out = []
        for h in state:
            if h is None:
                return out + [['value', '*']] + ([['*']] if self.altered(its[0]) else [])
            t = self.truth(h['cond'], attrs)
            if 'raise' in t:
                out.append(['cond', h['tag']])
            if t == {'raise'}:
                return out
            if True in t:
                if h['impl'][0] == 'lib' and self.altered(its[0]):
                    return out + [['*']]
                out.append(['impl', h['tag']] if h['impl'][0] == 'raise' else ['value', h['tag']] if h['impl'][0] == 'lib' else ['ran', h['tag']])
                return out
        out.append(['none'])
        return out

    def overrides(self):
        """algebras in which some function of the library is overridden to do something else: whatever the library computes there
        may use it, and is not judged"""
        out = set()

        def look(o):
            if self.plan['disp'][o['d']]['kind'] == 'real' and o['impl'][0] != 'lib':
                out.add(o['cond'][1][1])
            if o['impl'][0] == 'reg':
                look(dict(o['impl'][2], d=o['impl'][1]))
        for t in self.plan['threads']:
            for o in t:
                if o['k'] == 'reg':
                    look(o)
        return out

    def altered(self, name):
        return self.plan['ctxs'][self.plan['inputs'][name]['ctx']]['alg'] in self.odd

    def explain(self, d):
        """None if some order of the registrations, consistent with real time, explains every call; else a message"""
        H = self.hist[d]
        INF = 1 << 60
        ops = [h for h in H if h['type'] == 'reg' or h['out'] is not None]
        end = [h['t1'] or INF for h in ops]
        real = self.plan['disp'][d]['kind'] == 'real'
        init = (None,) if real else ()
        cache = {}
        best = [0, None]

        def legal(state, i):
            key = (tuple(h['tag'] if h else 0 for h in state), i)
            if key not in cache:
                o = self.outcomes(d, state, ops[i]['its'])
                cache[key] = matches(ops[i]['out'], o)
            return cache[key]
        seen = set()

        def search(state, todo):
            key = (tuple(id(h) for h in state), todo)
            if key in seen:
                return False
            seen.add(key)
            todo = set(todo)
            moved = True
            while moved:
                moved = False
                lim = min((end[j] for j in todo), default=INF)
                for i in sorted(todo):
                    if ops[i]['type'] == 'call' and ops[i]['t0'] < lim and legal(state, i):
                        todo.discard(i)
                        moved = True
                        lim = min((end[j] for j in todo), default=INF)
            rest = [i for i in todo if ops[i]['type'] == 'call' or end[i] < INF]
            done = len(ops) - len(todo)
            if not rest:
                return True
            if done >= best[0]:
                best[0] = done
                stuck = [i for i in sorted(todo) if ops[i]['type'] == 'call' and ops[i]['t0'] < lim]
                best[1] = stuck and (ops[stuck[0]], self.outcomes(d, state, ops[stuck[0]]['its']), [h['tag'] if h else 'library' for h in state])
            for i in sorted(todo):
                h = ops[i]
                if h['type'] == 'reg' and h['t0'] < lim:
                    st = list(state)
                    st.insert(len(st) if h['pos'] is None else h['pos'], h)
                    if search(tuple(st), frozenset(todo - {i})):
                        return True
            return False
        if search(init, frozenset(range(len(ops)))):
            return None
        regs = [(h['tag'], h['pos'], h['cond'], 'unfinished' if h['t1'] is None else 'done') for h in H if h['type'] == 'reg']
        why = ''
        if best[1]:
            h, o, st = best[1]
            why = f'; call on {h["its"]} gave {h["out"]} where the order {st} allows {o}'
        return f'no order of the registrations {regs} explains all {sum(h["type"] == "call" for h in H)} calls of {self.plan["disp"][d]}{why}'


def matches(out, allowed):
    for a in allowed:
        if a == ['*'] or a[0] == out[0] and (a[0] == 'none' or a[1] in ('*', out[1])):
            return True
    return False


def safe_mset(M, spec):
    from .hist import valid_spec
    return mset(M, spec) if valid_spec(M, spec) else None


def reg_of(prog):
    local, live = prog.local, prog.live
    return lambda r: local[r] if r in local else live[r]


def run_reg(prog, o):
    if not prog.bench.register(o['d'], o, lambda r: prog.live[r]):
        raise AssertionError('register() does not return the function it was given')


def run_call(prog, o):
    v = prog.bench.invoke(o['d'], o['it'], lambda r: prog.live[r])
    return v


program.KINDS['reg'] = (run_reg, lambda prog, o, v: None)
program.KINDS['call'] = (run_call, lambda prog, o, v: None)
