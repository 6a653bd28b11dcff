"""Programs of library calls: the common language of the checks.

A plan's threads are lists of operations:
  {'id','k':<catalogue op>,'a':[...], ...}      one public operation (sim.catalog)
  {'id','k':'mk','in':<input name>}             construct an input multivector
  {'id','k':'sub','ctx':c,'s':<spec>}           construct a subspace
  {'id','k':'label','ctx':c,'s':<spec>}         subspace labels and predicates
  {'id','k':'nl','fn':f,'a':[...]}              a nonlinear function
  {'id','k':'ew','fn':f,'a':[r],'c':number}     an elementwise function
  {'id','k':'blade','ctx':c,'m':mask}           a basis blade by attribute
  {'id','k':'gc'}                               collect garbage
"""
import gc
import numpy as np

from . import core, seams
from .catalog import OPS, mset, nset
from .execute import Env, ModelRun, judge, values_np, malg
from .nonlin import NLS, nl_values, nl_check
from .catalog import layout_array, input_values


# elementwise functions of multivectors, on any number there is
EW = {
    'nan_to_num': (lambda x, c: x.nan_to_num(c), lambda v, c: np.nan_to_num(v, nan=c)),
    'abs': (lambda x, c: x.abs(), lambda v, c: np.abs(v)),
    'sqrt': (lambda x, c: x.sqrt(), lambda v, c: np.sqrt(v)),
    'invsqrt': (lambda x, c: x.invsqrt(), lambda v, c: 1 / np.sqrt(v)),
    'cos': (lambda x, c: x.cos(), lambda v, c: np.cos(v)),
    'sin': (lambda x, c: x.sin(), lambda v, c: np.sin(v)),
    'where': (lambda x, c: x.copy(values=x.context.where(x.values > c, x.values, -x.values)), lambda v, c: np.where(v > c, v, -v)),
}
HAZARDS = [float('nan'), float('inf'), float('-inf'), 0.0, -0.0, 1e-30, -2.5, 1e30]


def haz_values(spec, M):
    masks, v = input_values(spec, M)
    r = np.random.RandomState(spec['seed'] + 5)
    return masks, np.where(r.rand(*v.shape) < spec['haz'], r.choice(HAZARDS, v.shape), v * .37)


def ew_check(o, v, got, dtype):
    v = v.astype(dtype)
    with np.errstate(all='ignore'):
        e = EW[o['fn']][1](v, v.dtype.type(o.get('c', 0)))
    if got.shape != e.shape:
        return f'result of shape {got.shape}, expected {e.shape}'
    fn = o['fn']
    loose = v <= 0 if fn in ('sqrt', 'invsqrt') else np.abs(v) > 1e6 if fn in ('cos', 'sin') else np.zeros(v.shape, bool)
    with np.errstate(all='ignore'):
        ok = (got == e) | (np.isnan(got) & np.isnan(e)) | (np.abs(got - e) <= (1e-5 if v.dtype.itemsize < 8 else 1e-12) * np.maximum(1e-40, np.abs(e)))
        loose = loose & ((v < 0) | ~np.isfinite(got) | (np.abs(got) <= 1.0001))
    if not (ok | loose).all():
        i = tuple(np.argwhere(~(ok | loose))[0])
        return f'{fn} of {v[i]} gives {got[i]}, expected {e[i]}'
    return None


class PEnv(Env):
    def make_input(self, name):
        spec = self.plan['inputs'][name]
        if 'haz' in spec:
            M = self.malg_of_ctx(spec['ctx'])
            ctx = self.ctx(spec['ctx'])
            _, vals = haz_values(spec, M)
            return ctx.multivector(nset(ctx.algebra, spec['sub'], M.names), layout_array(vals, spec.get('layout', 'C')))
        if 'fn' in spec:
            M = self.malg_of_ctx(spec['ctx'])
            ctx = self.ctx(spec['ctx'])
            _, vals = nl_values(spec, M)
            s = nset(ctx.algebra, spec['sub'], M.names)
            return ctx.multivector(s, layout_array(vals, spec.get('layout', 'C')))
        return Env.make_input(self, name)


def label_facts(s):
    """everything the library says about a subspace by name"""
    return {'named': s.named_str, 'bits': s.bit_str, 'pretty': s.pretty_str, 'repr': repr(s)}


def expected_named(M, masks):
    return ','.join(M.blade_name(m) for m in masks) if masks else ''


LABELS = ['empty', 'scalar', 'pseudoscalar', 'vector', 'bivector', 'antivector', 'antibivector', 'trivector', 'antitrivector',
          'quadvector', 'antiquadvector', 'scalar_pseudoscalar', 'even_grade', 'odd_grade', 'reflection', 'bireflection',
          'trireflection', 'quadreflection', 'self_reverse', 'nonscalar', 'multivector']


def label_ok(M, s):
    """the label must be a true statement about the subspace, and 'is_' whenever a listed name equals it"""
    masks = tuple(int(b) for b in s.blades)
    f = label_facts(s)
    if f['named'] != expected_named(M, masks):
        return f'named_str {f["named"]!r} for blades {masks}'
    bits = ','.join(''.join(str(m >> i & 1) for i in range(M.n)) for m in masks)
    if f['bits'] != bits:
        return f'bit_str {f["bits"]!r}, expected {bits!r}'
    p = f['pretty']
    st = frozenset(masks)
    named = {n: M.named(n) for n in LABELS}
    equal = [n for n in LABELS if named[n] is not None and named[n] == st]
    if equal:
        if p is None or not p.startswith('is_') or M_named(M, p[3:]) != st:
            return f'pretty_str {p!r} although the subspace is {equal[0]}'
    elif p is not None:
        if not p.startswith('in_') or not st <= (M_named(M, p[3:]) or frozenset()):
            return f'pretty_str {p!r} is not true of blades {masks}'
    if f['named'] not in f['repr']:
        return f'repr {f["repr"]!r}'
    return None


def M_named(M, n):
    try:
        return M.named(n)
    except KeyError:
        return frozenset(M.blades) if n == 'study' else None


def show_judge(prog, o, v):
    return None if isinstance(v, str) else f'{o["how"]} of a multivector is {v!r}'


KINDS = {}          # further operation kinds: name -> (run(prog, o, *args), judge(prog, o, value) -> None or message)
KINDS['show'] = (lambda prog, o, x: {'repr': repr, 'str': str, 'format': '{}'.format, 'op': lambda x: str(x.algebra.operator.product(x.subspace, x.subspace)) if 0 < len(x.subspace) < 9 else ''}[o['how']](x), show_judge)


class Outcome:
    __slots__ = ('kind', 'value', 'err')

    def __init__(self, kind, value=None, err=None):
        self.kind, self.value, self.err = kind, value, err     # 'ok' | 'fault' | 'exc' | 'skip'


class Program:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.env = PEnv(plan)
        self.model = PModel(plan)
        self.out = {}
        self.live = {}
        self.ops = {o['id']: o for t in plan['threads'] for o in t}
        self.after_op = None            # hook(op, outcome), masked
        self.retries = plan.get('retries', 0)   # an operation cut short by an injected fault is tried again
        self.attempts = []              # (op, attempt id, outcome) of every faulted attempt

    def setup(self):
        self.env.setup()
        for name, spec in self.plan['inputs'].items():
            if not spec.get('late'):
                self.live[name] = self.env.make_input(name)

    def ctx_of(self, o):
        if 'ctx' in o:
            return o['ctx']
        if 'in' in o:
            return self.plan['inputs'][o['in']]['ctx']
        return self.model.ctx_of(o['a'][0])

    def eval(self, o, reg):
        k = o['k']
        env = self.env
        if k in KINDS:
            return KINDS[k][0](self, o, *(reg(a) for a in o.get('a', ())))
        if k == 'mk':
            return env.make_input(o['in'])
        if k in ('sub', 'label'):
            ctx = env.ctx(o['ctx'])
            s = nset(ctx.algebra, o['s'], ctx.algebra.description.basis_names)
            if k == 'label':
                repr(s)
            return s
        if k == 'nl':
            return NLS[o['fn']].run(*(reg(a) for a in o['a']))
        if k == 'ew':
            return EW[o['fn']][0](reg(o['a'][0]), o.get('c', 0))
        if k == 'blade':
            ctx = env.ctx(o['ctx'])
            M = env.malg_of_ctx(o['ctx'])
            return getattr(ctx.multivector, M.blade_name(o['m'])) if o['m'] else ctx.multivector.scalar()
        if k == 'gc':
            return gc.collect() and None
        return OPS[k].run(env, o, *(reg(a) for a in o['a']))

    def body(self, ti):
        sim = self.sim
        ops = self.plan['threads'][ti]
        local = self.local = {}

        def reg(r):
            return local[r] if r in local else self.live[r]

        def attempt(o, oid):
            sim.begin(oid)
            try:
                try:
                    v = self.around(o, lambda: self.eval(o, reg))
                finally:
                    sim.end()
                return Outcome('ok', v)
            except core.INJECTED as e:
                return Outcome('fault', err=e)
            except (core.Deadlock, core.Livelock, core.Abort):
                raise
            except Exception as e:
                if self.allowed(o, e):
                    return Outcome('fault', err=e)
                return Outcome('exc', err=e)

        def run():
            for o in ops:
                if any(a not in local and a not in self.live for a in o.get('a', ())):
                    self.out[o['id']] = Outcome('skip')
                    continue
                out = attempt(o, o['id'])
                for r in range(self.retries):
                    if out.kind != 'fault':
                        break
                    self.attempts.append((o, r, out))
                    if self.after_op is not None:
                        with sim.masked():
                            self.after_op(o, out)
                    out = attempt(dict(o, plain=1), f'{o["id"]}~{r + 1}')
                if out.kind == 'ok':
                    local[o['in'] if o['k'] == 'mk' else o['id']] = out.value
                self.out[o['id']] = out
                if self.after_op is not None:
                    with sim.masked():
                        self.after_op(o, out)
        return run

    def around(self, o, f):
        """run one operation (checks may override to change its surroundings)"""
        return f()

    def allowed(self, o, e):
        """is this exception the announced consequence of an injected condition?"""
        return False

    def run(self):
        self.sim.run([self.body(i) for i in range(len(self.plan['threads']))])

    # ------------------------------------------------------------------------------------ judging
    def judge_op(self, o, out=None, env_args=None):
        """None or why this outcome is wrong (given that no fault was injected into it)"""
        out = out or self.out[o['id']]
        if out.kind in ('skip', 'fault', 'dropped'):
            return None
        if out.kind == 'exc':
            return f'{describe(o)} raised {type(out.err).__name__}: {str(out.err)[:160]}'
        k = o['k']
        if k == 'gc':
            return None
        if k in KINDS:
            return KINDS[k][1](self, o, out.value)
        ci = self.ctx_of(o)
        M = self.env.malg_of_ctx(ci)
        cs = self.plan['ctxs'][ci]
        if k in ('sub', 'label'):
            exp = M.order(mset(M, o['s']))
            got = tuple(int(b) for b in out.value.blades)
            if got != exp:
                return f'subspace {o["s"]} has blades {got}, expected {exp}'
            m = label_ok(M, out.value) if k == 'label' else None
            return m and f'label of {o["s"]}: {m}'
        if k == 'nl':
            args = [self.model.nlvals(a) for a in o['a']]
            m = nl_check(o['fn'], M, args, out.value, tol=None if cs.get('dtype') != 'float32' else 5e-3)
            return m
        if k == 'ew':
            spec = self.plan['inputs'][o['a'][0]]
            m, v = haz_values(spec, M)
            x = out.value
            b = tuple(int(i) for i in x.subspace.blades)
            if b != M.order(m):
                return f'{describe(o)}: blades {b}, expected {M.order(m)}'
            m = ew_check(o, v, values_np(x), cs.get('dtype', 'float64'))
            return m and f'{describe(o)}: {m}'
        if k == 'mk' and 'haz' in self.plan['inputs'][o['in']]:
            return None
        if k == 'blade':
            exp = ({o['m']: 1.0}, frozenset([o['m']]), ())
        elif k == 'mk' and 'fn' in self.plan['inputs'][o['in']]:
            A = self.model.nlvals(o['in'])
            exp = (A, frozenset(A), tuple(self.plan['inputs'][o['in']]['shape']))
        else:
            exp = self.model.value(o['in'] if k == 'mk' else o['id'])
        m = judge(out.value, exp, M, cs)
        return m and f'{describe(o)}: {m}'

    def subspaces(self):
        """all subspace objects reachable from results and inputs"""
        for n, v in list(self.live.items()):
            yield n, v.subspace
        for oid, out in self.out.items():
            if out.kind != 'ok' or out.value is None:
                continue
            for v in (out.value if isinstance(out.value, tuple) else (out.value,)):
                s = getattr(v, 'subspace', None)
                if isinstance(v, (str, int, float, dict, list)):
                    continue
                if s is not None and hasattr(s, 'blades'):
                    yield oid, s
                elif hasattr(v, 'blades'):
                    yield oid, v

    def identity_violation(self):
        """one SubSpace object per blade set and algebra"""
        seen = {}
        for who, s in self.subspaces():
            key = (id(s.algebra), tuple(int(b) for b in s.blades))
            if key in seen and seen[key][1] is not s:
                return f'two distinct subspace objects for blades {key[1]} of one algebra (from {seen[key][0]} and {who})'
            seen.setdefault(key, (who, s))
            c = s.algebra.subspace.from_blades(list(key[1]))
            if c is not s:
                return f'subspace with blades {key[1]} obtained by {who} is not the one its algebra hands out now'
        return None


def describe(o):
    d = {k: v for k, v in o.items() if k not in ('id', 'a', 'k')}
    return f'{o["id"]}={o["k"]}({",".join(o.get("a", []))})' + (f' {d}' if d else '')


class PModel(ModelRun):
    def ctx_of(self, r):
        if r in self.ops:
            o = self.ops[r]
            if 'ctx' in o:
                return o['ctx']
            if 'in' in o:
                return self.plan['inputs'][o['in']]['ctx']
        return ModelRun.ctx_of(self, r)

    def nlvals(self, r):
        if r in self.ops and self.ops[r]['k'] == 'mk':
            r = self.ops[r]['in']
        spec = self.plan['inputs'][r]
        masks, v = nl_values(spec, self.M(r))
        return {m: v[..., i] for i, m in enumerate(masks)}

    def value(self, r):
        if r in self.reg:
            return self.reg[r]
        if r in self.ops:
            o = self.ops[r]
            if o['k'] == 'mk':
                self.reg[r] = self.value(o['in'])
                return self.reg[r]
            if o['k'] == 'hand':
                self.reg[r] = self.value(o['a'][0])
                return self.reg[r]
            if o['k'] == 'blade':
                self.reg[r] = ({o['m']: 1.0}, frozenset([o['m']]), ())
                return self.reg[r]
        elif 'fn' in self.plan['inputs'][r]:
            A = self.nlvals(r)
            self.reg[r] = (A, frozenset(A), tuple(self.plan['inputs'][r]['shape']))
            return self.reg[r]
        return ModelRun.value(self, r)
