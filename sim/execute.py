"""Executing one operation of a plan on numga, and judging its outcome against the model."""
import numpy as np
from .model import MAlg, dense
from .catalog import OPS, mset, nset, input_values, input_model, layout_array, support, out_shape


def desc_of(d):
    return d if isinstance(d, str) else tuple(d)


_malgs = {}


def malg(desc):
    d = desc_of(desc)
    if d not in _malgs:
        _malgs[d] = MAlg(d)
    return _malgs[d]


OTYPES = {'numpy': ['einsum', 'sparse'], 'python': ['sparse'], 'torch': ['einsum', 'sparse', 'dense'],
          'jax': ['einsum', 'dense', 'sparse']}


def otype_class(backend, name):
    if backend == 'numpy':
        from numga.backend.numpy import operator as m
        return {'einsum': m.NumpyEinsumOperator, 'sparse': m.NumpySparseOperator}[name]
    if backend == 'python':
        from numga.backend.python import operator as m
        return m.PythonSparseOperator
    if backend == 'torch':
        from numga.backend.torch import operator as m
        return {'einsum': m.TorchEinsumOperator, 'sparse': m.TorchSparseOperator, 'dense': m.TorchDenseOperator}[name]
    if backend == 'jax':
        from numga.backend.jax import operator as m
        return {'einsum': m.JaxEinsumOperator, 'dense': m.JaxDenseOperator, 'sparse': m.JaxSparseOperator}[name]
    raise KeyError(backend)


def make_context(spec, alg):
    b = spec['backend']
    if b == 'numpy':
        from numga.backend.numpy.context import NumpyContext
        return NumpyContext(alg, dtype=np.dtype(spec.get('dtype', 'float64')).type, otype=otype_class(b, spec['otype']),
                            order=spec.get('order', 'F'))
    if b == 'python':
        from numga.backend.python.context import PythonContext
        return PythonContext(alg)
    if b == 'torch':
        import torch
        from numga.backend.torch.context import TorchContext
        return TorchContext(alg, otype=otype_class(b, spec['otype']), dtype=getattr(torch, spec.get('dtype', 'float64')))
    if b == 'jax':
        import jax.numpy as jnp
        from numga.backend.jax.context import JaxContext
        return JaxContext(alg, otype=otype_class(b, spec['otype']), dtype=getattr(jnp, spec.get('dtype', 'float32')))
    raise KeyError(b)


def values_np(mv):
    v = mv.values
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, list):
        return np.array(v, dtype=float)
    if hasattr(v, 'detach'):
        return v.detach().cpu().numpy()
    return np.asarray(v)


class Env:
    """live numga objects of one run"""
    def __init__(self, plan):
        self.plan = plan
        self.algs = {}
        self.ctxs = {}
        self.shared = {}

    def make_alg(self, desc):
        """an algebra, by one of the public ways to describe it"""
        from numga.algebra.algebra import Algebra
        from numga.algebra.description import AlgebraDescription
        d = desc_of(desc)
        r = self.plan.get('route', 0)
        r = r and (r + len(self.algs)) % 5
        if r == 1:
            return Algebra.from_str(d) if isinstance(d, str) else Algebra.from_pqr(*d)
        if r == 2:
            return Algebra(AlgebraDescription.from_str(d) if isinstance(d, str) else AlgebraDescription.from_pqr(*d))
        if r == 3:
            if not isinstance(d, str):
                return Algebra(AlgebraDescription.from_signature('+' * d[0] + '-' * d[1] + '0' * d[2]))
            M = malg(d)
            k = M.n // 2
            if k:       # the product of two algebras
                f = [''.join(n + {1: '+', -1: '-', 0: '0'}[x] for n, x in zip(M.names[i], M.sig[i])) for i in (slice(0, k), slice(k, None))]
                return Algebra(f[0]) * Algebra(f[1])
        if r == 4 and isinstance(d, str):
            return Algebra(AlgebraDescription(tuple(malg(d).names), tuple(malg(d).sig)))
        return Algebra(d)

    def setup(self):
        for i, d in enumerate(self.plan['algs']):
            self.algs[i] = self.make_alg(d)
        for i, c in enumerate(self.plan['ctxs']):
            self.ctxs[i] = make_context(c, self.algs[c['alg']])

    def ctx(self, i):
        return self.ctxs[i]

    def malg_of_ctx(self, i):
        return malg(self.plan['algs'][self.plan['ctxs'][i]['alg']])

    def sub(self, mv, spec):
        alg = mv.context.algebra
        return nset(alg, spec, alg.description.basis_names)

    def make_input(self, name):
        spec = self.plan['inputs'][name]
        M = self.malg_of_ctx(spec['ctx'])
        ctx = self.ctx(spec['ctx'])
        _, vals = input_values(spec, M)
        s = nset(ctx.algebra, spec['sub'], M.names)
        return ctx.multivector(s, layout_array(vals, spec.get('layout', 'C')) if vals.size else vals)

    def run_op(self, o, args):
        return OPS[o['k']].run(self, o, *args)


class ModelRun:
    """expected values of every register, computed lazily and independently of numga"""
    def __init__(self, plan):
        self.plan = plan
        self.reg = {}
        self.ops = {o['id']: o for t in plan['threads'] for o in t}

    def ctx_of(self, r):
        if r in self.plan['inputs']:
            return self.plan['inputs'][r]['ctx']
        return self.ctx_of(self.ops[r]['a'][0])

    def M(self, r):
        return malg(self.plan['algs'][self.plan['ctxs'][self.ctx_of(r)]['alg']])

    def value(self, r):
        if r not in self.reg:
            if r in self.plan['inputs']:
                spec = self.plan['inputs'][r]
                M = self.M(r)
                self.reg[r] = (input_model(spec, M), mset(M, spec['sub']), tuple(spec['shape']))
            else:
                o = self.ops[r]
                M = self.M(r)
                args = [self.value(a) for a in o['a']]
                val = OPS[o['k']].model(M, o, *(a[0] for a in args))
                sub = support(M, o, [a[1] for a in args])
                shapes = [a[2] for a in args]
                shape = out_shape(o, shapes)
                if shape is not None:
                    val = {m: np.broadcast_to(np.asarray(v, float), shape) for m, v in val.items()}
                    if sub is not None:
                        val.update({m: np.zeros(shape) for m in sub if m not in val})
                self.reg[r] = (val, sub, shape)
        return self.reg[r]


def tol_for(dtype):
    return {'float64': 1e-9, 'float32': 2e-5, 'float': 1e-9}.get(dtype, 2e-5)


def judge(res, expect, M, ctxspec, shape_ok=True, skip=None):
    """None if `res` (a numga multivector) is what the model expects (outside the batch elements in the mask skip), else a description"""
    val, sub, shape = expect
    if not hasattr(res, 'subspace') or not hasattr(res, 'values'):
        return f'result is {type(res).__name__}, not a multivector'
    blades = [int(b) for b in res.subspace.blades]
    if list(M.order(blades)) != blades:
        return f'blades not in canonical order: {blades}'
    if sub is not None and frozenset(blades) != sub:
        return f'output subspace {blades}, expected {list(M.order(sub))}'
    v = values_np(res)
    if v.shape[-1:] != (len(blades),):
        return f'values of shape {v.shape} for {len(blades)} blades'
    dt = ctxspec.get('dtype') or ('float32' if ctxspec['backend'] == 'jax' else 'float64')
    if ctxspec['backend'] != 'python' and str(v.dtype) != dt:
        return f'dtype {v.dtype}, expected {dt}'
    exp = dense(val, blades)
    if shape_ok and shape is not None and v.shape[:-1] != tuple(shape):
        return f'batch shape {v.shape[:-1]}, expected {tuple(shape)}'
    missing = [m for m in val if m not in blades and np.any(np.asarray(val[m]) != 0)]
    scale = max([1.0] + [float(np.max(np.abs(x))) if np.size(x) else 0.0 for x in val.values()])
    tol = tol_for('float32' if ctxspec.get('coarse') else dt)
    if missing and max(float(np.max(np.abs(val[m]))) for m in missing) > tol * scale:
        return f'blades {missing} missing from result but expected nonzero'
    try:
        d = np.abs(v.astype(float) - np.broadcast_to(exp, np.broadcast_shapes(exp.shape, v.shape)))
    except ValueError:
        return f'shape {v.shape}, expected {exp.shape}'
    if skip is not None:
        d = np.where(np.broadcast_to(skip, d.shape[:-1])[..., None], 0.0, d)
    if d.size and not (d <= tol * scale).all():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        return f'values differ, worst at {tuple(int(x) for x in i)}: got {v[tuple(min(a, b - 1) for a, b in zip(i, v.shape))]!r}, expected {np.broadcast_to(exp, d.shape)[i]!r}'
    return None
