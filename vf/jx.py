"""Symbolic execution of jaxprs.

`trace(fun, args)` obtains the jaxpr of the real function with jax.make_jaxpr
(so it is regenerated from /repo's current source on every run) and executes
it over numpy object arrays whose elements are expression nodes.  Arguments are
numpy object arrays (symbolic) or ordinary arrays/scalars (traced as inputs
too, but carried concretely).
"""
import os
from fractions import Fraction

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")

import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Literal

jax.config.update("jax_enable_x64", True)

from . import expr as E
from .expr import Node, Cx, Unsupported


class Stats:
    eqns = 0
    prims = {}
    stubs = {}


def reset_stats():
    Stats.eqns = 0
    Stats.prims = {}
    Stats.stubs = {}


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def obj(x):
    """Numeric array -> object array of python scalars (left as is if object)."""
    if is_sym(x):
        return x
    return np.asarray(x).astype(object)


def nodes(x):
    """Array -> object array of Node/Cx."""
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        v = x[i]
        if isinstance(v, (Node, Cx)):
            out[i] = v
        elif isinstance(v, (complex, np.complexfloating)):
            out[i] = Cx.of(v)
        else:
            out[i] = E.const(v)
    return out


def simplify_concrete(x, dtype):
    """If every element of an object array is a constant, return numeric array."""
    if not is_sym(x):
        return x
    flat = x.ravel()
    vals = []
    for v in flat:
        if isinstance(v, Node):
            if v.op in ("num", "bool"):
                vals.append(v.val)
            else:
                return x
        elif isinstance(v, Cx):
            if v.re.op == "num" and v.im.op == "num":
                vals.append(complex(v.re.val, v.im.val))
            else:
                return x
        else:
            vals.append(v)
    return np.array(vals, dtype=dtype).reshape(x.shape)


def sym_array(prefix, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape) if shape else [()]:
        out[i] = E.var(prefix + ("_" + "_".join(map(str, i)) if i else ""))
    return out


def sym_carray(prefix, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape) if shape else [()]:
        sfx = "_" + "_".join(map(str, i)) if i else ""
        out[i] = Cx(E.var(prefix + "re" + sfx), E.var(prefix + "im" + sfx))
    return out


def arr(*xs):
    """Pack scalars/nodes in an object vector."""
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def scal(x):
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def _abstract(x):
    if isinstance(x, (Node,)):
        return jax.ShapeDtypeStruct((), jnp.bool_ if E.isbool(x) else jnp.float64)
    if isinstance(x, Cx):
        return jax.ShapeDtypeStruct((), jnp.complex128)
    if is_sym(x):
        dt = jnp.float64
        for v in x.ravel():
            if isinstance(v, (Cx, complex)):
                dt = jnp.complex128
                break
        return jax.ShapeDtypeStruct(x.shape, dt)
    return jax.ShapeDtypeStruct(jnp.shape(x), jnp.asarray(x).dtype)


def trace(fun, *args, weak_scalars=False):
    """Symbolically execute fun(*args); args may be nested lists/dicts of
    Node / object arrays / numbers.  Returns fun's output pytree with object
    (or numeric) numpy arrays as leaves."""
    is_leaf = lambda x: isinstance(x, (Node, Cx, np.ndarray))
    leaves, tree = jax.tree_util.tree_flatten(args, is_leaf=is_leaf)
    specs = []
    vals = []
    for l in leaves:
        specs.append(_abstract(l))
        if isinstance(l, (Node, Cx)):
            vals.append(scal(l))
        elif is_sym(l):
            vals.append(nodes(l))
        else:
            vals.append(np.asarray(l))
    out_tree = {}

    def flat(*ls):
        a = jax.tree_util.tree_unflatten(tree, ls)
        r = fun(*a)
        rl, rt = jax.tree_util.tree_flatten(r)
        out_tree["t"] = rt
        return rl

    cj = jax.make_jaxpr(flat)(*specs)
    outs = run_closed(cj, vals)
    return jax.tree_util.tree_unflatten(out_tree["t"], outs)


def run_closed(cj, vals):
    return run(cj.jaxpr, cj.consts, vals)


def run(jaxpr, consts, vals):
    env = {}

    def rd(v):
        if isinstance(v, Literal):
            return np.asarray(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if is_sym(c) else np.asarray(c)
    assert len(jaxpr.invars) == len(vals), (len(jaxpr.invars), len(vals))
    for v, c in zip(jaxpr.invars, vals):
        env[v] = c
    for eqn in jaxpr.eqns:
        ins = [rd(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            if is_sym(o):
                dt = v.aval.dtype
                if OPTIONS["rounding"] and eqn.primitive.name in ROUNDED and jnp.issubdtype(dt, jnp.floating):
                    o = with_rounding(o)
                if not jnp.issubdtype(dt, jax.dtypes.extended):
                    o = simplify_concrete(o, dt)
                assert o.shape == tuple(v.aval.shape), (eqn.primitive.name, o.shape, v.aval)
            env[v] = o
    return [rd(v) for v in jaxpr.outvars]


ROUNDED = ("add", "sub", "mul", "div", "integer_pow", "pow", "sqrt", "square")
EPS = []


def with_rounding(o):
    """Each computed value times 1 + eps, eps a fresh symbolic variable."""
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        x = norm_elem(o[i])
        if isinstance(x, Node) and x.op not in ("num", "var"):
            e = E.var(f"eps!{len(EPS)}")
            EPS.append(e)
            x = E.mul(x, E.add(E.ONE, e))
        out[i] = x
    return out


CALLS = {}
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def eval_eqn(eqn, ins):
    name = eqn.primitive.name
    Stats.eqns += 1
    Stats.prims[name] = Stats.prims.get(name, 0) + 1
    if name in HIGHER:
        return HIGHER[name](eqn, ins)
    sym = any(is_sym(x) for x in ins)
    r = RULES.get(name)
    if not sym:
        f = FAST.get(name)
        if f is not None:
            o = f(eqn, ins)
            if o is not None:
                return o
        return concrete_bind(eqn, ins)
    if r is None:
        if name in STRUCTURAL:
            return structural(eqn, ins)
        raise Unsupported(f"primitive {name}")
    return r(eqn, ins)


def concrete_bind(eqn, ins):
    args = [jnp.asarray(x, dtype=v.aval.dtype) if not jnp.issubdtype(v.aval.dtype, jax.dtypes.extended) else x for x, v in zip(ins, eqn.invars)]
    out = eqn.primitive.bind(*args, **eqn.params)
    if eqn.primitive.multiple_results:
        return [np.asarray(o) if not jnp.issubdtype(o.dtype, jax.dtypes.extended) else o for o in out]
    return np.asarray(out) if not jnp.issubdtype(out.dtype, jax.dtypes.extended) else out


# fast numpy versions for purely concrete work ------------------------------
def _np2(f):
    def g(eqn, ins):
        a = [np.asarray(x, dtype=v.aval.dtype) for x, v in zip(ins, eqn.invars)]
        with np.errstate(all="ignore"):
            return np.asarray(f(*a), dtype=eqn.outvars[0].aval.dtype)

    return g


FAST = {
    "add": _np2(np.add), "sub": _np2(np.subtract), "mul": _np2(np.multiply),
    "neg": _np2(np.negative), "lt": _np2(np.less), "le": _np2(np.less_equal),
    "gt": _np2(np.greater), "ge": _np2(np.greater_equal), "eq": _np2(np.equal),
    "ne": _np2(np.not_equal), "max": _np2(np.maximum), "min": _np2(np.minimum),
    "abs": _np2(np.abs), "sqrt": _np2(np.sqrt), "exp": _np2(np.exp), "log": _np2(np.log),
    "sin": _np2(np.sin), "cos": _np2(np.cos), "atan": _np2(np.arctan),
    "convert_element_type": lambda e, i: np.asarray(i[0]).astype(e.params["new_dtype"]) if not jnp.issubdtype(e.params["new_dtype"], jax.dtypes.extended) else None,
    "squeeze": lambda e, i: np.squeeze(i[0], axis=tuple(e.params["dimensions"])),
    "slice": lambda e, i: _slice(e, i),
    "reshape": lambda e, i: np.reshape(i[0], e.params["new_sizes"]) if e.params.get("dimensions") is None else None,
    "broadcast_in_dim": lambda e, i: _bcast(e, i),
    "concatenate": lambda e, i: np.concatenate(i, axis=e.params["dimension"]),
    "transpose": lambda e, i: np.transpose(i[0], e.params["permutation"]),
}


def _div_fast(e, i):
    dt = e.outvars[0].aval.dtype
    if not jnp.issubdtype(dt, jnp.inexact):
        return None
    with np.errstate(all="ignore"):
        return np.asarray(np.divide(i[0], i[1]), dtype=dt)


FAST["div"] = _div_fast


def _slice(e, i):
    p = e.params
    st = p["strides"] or (1,) * len(p["start_indices"])
    return i[0][tuple(slice(a, b, s) for a, b, s in zip(p["start_indices"], p["limit_indices"], st))]


def _bcast(e, i):
    shp, dims = e.params["shape"], e.params["broadcast_dimensions"]
    x = i[0]
    new = [1] * len(shp)
    for k, d in enumerate(dims):
        new[d] = x.shape[k]
    return np.broadcast_to(np.reshape(x, new), shp)


for _n in ("squeeze", "slice", "broadcast_in_dim", "transpose"):
    RULES[_n] = FAST[_n]
RULES["concatenate"] = lambda e, i: np.concatenate([obj(x) if not is_sym(x) else x for x in i], axis=e.params["dimension"])
RULES["reshape"] = lambda e, i: np.reshape(i[0], e.params["new_sizes"])


def norm_elem(v):
    """Python scalars -> Node/Cx."""
    if isinstance(v, (Node, Cx)):
        return v
    if isinstance(v, (complex, np.complexfloating)):
        return Cx.of(v)
    return E.const(v)


def ew(f, n):
    uf = np.frompyfunc(lambda *a: f(*[norm_elem(x) for x in a]), n, 1)

    def g(eqn, ins):
        o = uf(*[obj(x) for x in ins])
        if not isinstance(o, np.ndarray):
            o = scal(o)
        return o

    return g


def _real_only(name):
    def f(x):
        if isinstance(x, Cx):
            if x.im is E.ZERO:
                return Cx.of(E.fn(name, x.re))
            raise Unsupported(f"{name} of a complex value")
        return E.fn(name, x)

    return f


def _mulc(a, b):
    if isinstance(a, Cx) and isinstance(b, Cx):
        return a * b
    return a * b


RULES["add"] = RULES["add_any"] = ew(lambda a, b: E.add(a, b), 2)
RULES["sub"] = ew(lambda a, b: E.sub(a, b), 2)
RULES["mul"] = ew(lambda a, b: E.mul(a, b), 2)
RULES["neg"] = ew(lambda a: -a, 1)
RULES["square"] = ew(lambda a: E.powr(a, 2) if isinstance(a, Node) else a * a, 1)
RULES["exp"] = ew(lambda a: a.exp(), 1)
RULES["exp2"] = ew(lambda a: E.fn("exp", E.mul(E.const(float(np.log(2.0))), a)), 1)
RULES["log"] = ew(_real_only("log"), 1)
RULES["log1p"] = ew(lambda a: E.fn("log", E.add(E.ONE, a)), 1)
RULES["expm1"] = ew(lambda a: E.sub(E.fn("exp", a), E.ONE), 1)
RULES["sin"] = ew(_real_only("sin"), 1)
RULES["cos"] = ew(_real_only("cos"), 1)
RULES["tan"] = ew(lambda a: E.div(E.fn("sin", a), E.fn("cos", a)), 1)
RULES["atan"] = ew(_real_only("atan"), 1)
RULES["asin"] = ew(_real_only("asin"), 1)
RULES["acos"] = ew(_real_only("acos"), 1)
RULES["atan2"] = ew(lambda a, b: E.fn("atan2", a, b), 2)
RULES["erf"] = ew(_real_only("erf"), 1)
RULES["lgamma"] = ew(_real_only("lgamma"), 1)
for _h in ("asinh", "acosh", "atanh"):
    RULES[_h] = ew(_real_only(_h), 1)


def _tanh(a):
    e = E.fn("exp", E.mul(E.const(2.0), a))
    return E.div(E.sub(e, E.ONE), E.add(e, E.ONE))


RULES["tanh"] = ew(_tanh, 1)
RULES["logistic"] = ew(lambda a: E.div(E.ONE, E.add(E.ONE, E.fn("exp", E.neg(a)))), 1)
RULES["sinh"] = ew(lambda a: E.mul(E.const(0.5), E.sub(E.fn("exp", a), E.fn("exp", E.neg(a)))), 1)
RULES["cosh"] = ew(lambda a: E.mul(E.const(0.5), E.add(E.fn("exp", a), E.fn("exp", E.neg(a)))), 1)
RULES["sqrt"] = ew(lambda a: E.powr(a, Fraction(1, 2)), 1)
RULES["rsqrt"] = ew(lambda a: E.powr(a, Fraction(-1, 2)), 1)
RULES["cbrt"] = ew(lambda a: E.powr(a, Fraction(1, 3)), 1)
RULES["abs"] = ew(lambda a: E.abs_(a), 1)
RULES["floor"] = ew(lambda a: E.fn("floor", a), 1)
RULES["ceil"] = ew(lambda a: E.fn("ceil", a), 1)
RULES["round"] = ew(lambda a: E.fn("round", a), 1)
RULES["conj"] = ew(lambda a: Cx.of(a).conjugate(), 1)
RULES["real"] = ew(lambda a: Cx.of(a).re, 1)
RULES["imag"] = ew(lambda a: Cx.of(a).im, 1)
RULES["complex"] = ew(lambda a, b: Cx(a, b), 2)
RULES["max"] = ew(E.max_, 2)
RULES["min"] = ew(E.min_, 2)
RULES["copy"] = RULES["copy_p"] = RULES["stop_gradient"] = lambda e, i: i[0]
RULES["optimization_barrier"] = lambda e, i: list(i)
RULES["reduce_precision"] = lambda e, i: i[0]
RULES["is_finite"] = ew(lambda a: E.const(np.isfinite(a.val)) if isinstance(a, Node) and a.op == "num" else (E.FALSE if isinstance(a, Node) and a.op == "nan" else E.fn("isfinite", a) if False else E.TRUE), 1)
RULES["erf_inv"] = ew(_real_only("erf_inv"), 1)


@rule("sign")
def _sign(eqn, ins):
    return ew(lambda a: E.sign(a), 1)(eqn, ins)


@rule("div")
def _div(eqn, ins):
    if not jnp.issubdtype(eqn.outvars[0].aval.dtype, jnp.inexact):
        return ew(lambda a, b: E.fn("trunc", E.div(a, b)), 2)(eqn, ins)
    return ew(lambda a, b: E.div(a, b), 2)(eqn, ins)


@rule("rem")
def _rem(eqn, ins):
    return ew(lambda a, b: E.fn("mod", a, b), 2)(eqn, ins)


@rule("pow")
def _pow(eqn, ins):
    def f(a, b):
        if isinstance(a, Cx):
            if a.im is E.ZERO:
                b = Cx.of(b)
                if b.im is E.ZERO:
                    return Cx.of(E.pow_(a.re, b.re))
            raise Unsupported("complex power")
        return E.pow_(a, b)

    return ew(f, 2)(eqn, ins)


@rule("integer_pow")
def _ipow(eqn, ins):
    y = eqn.params["y"]
    return ew(lambda a: a.ipow(y) if isinstance(a, Cx) else E.powr(a, y), 1)(eqn, ins)


def _cmp(f):
    def g(a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            raise Unsupported("complex comparison")
        return f(a, b)

    return ew(g, 2)


RULES["lt"] = RULES["lt_to"] = _cmp(E.lt)
RULES["le"] = RULES["le_to"] = _cmp(E.le)
RULES["gt"] = _cmp(lambda a, b: E.lt(b, a))
RULES["ge"] = _cmp(lambda a, b: E.le(b, a))
RULES["eq"] = _cmp(E.eq)
RULES["ne"] = _cmp(lambda a, b: E.not_(E.eq(a, b)) if a is not b or True else E.FALSE)


def _bitop(fbool):
    def g(eqn, ins):
        if eqn.outvars[0].aval.dtype != np.bool_:
            raise Unsupported(f"{eqn.primitive.name} on symbolic integers")
        return ew(fbool, len(ins))(eqn, ins)

    return g


RULES["and"] = _bitop(E.and_)
RULES["or"] = _bitop(E.or_)
RULES["not"] = _bitop(E.not_)
RULES["xor"] = _bitop(lambda a, b: E.not_(E.eq(a, b)))


@rule("convert_element_type")
def _cet(eqn, ins):
    new = np.dtype(eqn.params["new_dtype"])
    old = np.dtype(eqn.invars[0].aval.dtype)

    def f(a):
        if new == np.bool_:
            return E.tobool(a)
        if np.issubdtype(new, np.complexfloating):
            return Cx.of(a)
        if isinstance(a, Cx):
            a = a.re
        a = E.toreal(a)
        if np.issubdtype(new, np.integer) and np.issubdtype(old, np.floating):
            return E.fn("trunc", a)
        return a

    return ew(f, 1)(eqn, ins)


@rule("select_n")
def _select(eqn, ins):
    which, cases = ins[0], ins[1:]
    shape = eqn.outvars[0].aval.shape
    out = np.empty(shape, dtype=object)
    which = np.broadcast_to(which, shape)
    cs = [np.broadcast_to(obj(c), shape) for c in cases]
    for i in np.ndindex(shape):
        w = which[i]
        w = w if isinstance(w, Node) else E.const(w)
        if len(cs) == 2 and (E.isbool(w) or w.op == "bool"):
            out[i] = E.ite(w, norm_elem(cs[1][i]), norm_elem(cs[0][i]))
        else:
            r = norm_elem(cs[-1][i])
            for k in range(len(cs) - 2, -1, -1):
                r = E.ite(E.eq(w, E.const(k)), norm_elem(cs[k][i]), r)
            out[i] = r
    return out


@rule("clamp")
def _clamp(eqn, ins):
    return ew(lambda lo, x, hi: E.min_(E.max_(x, lo), hi), 3)(eqn, ins)


# structural primitives on symbolic data with concrete indices ---------------
STRUCTURAL = {
    "gather", "dynamic_slice", "rev", "pad", "scatter", "dynamic_update_slice",
    "select_and_gather_add", "expand_dims", "split", "tile",
}


def structural(eqn, ins):
    """Execute a data-movement primitive on element indices."""
    name = eqn.primitive.name
    data_pos = {"gather": [0], "dynamic_slice": [0], "rev": [0], "pad": [0, 1],
                "scatter": [0, 2], "dynamic_update_slice": [0, 1], "split": [0],
                "expand_dims": [0], "tile": [0]}[name]
    pool = [None]
    args = []
    for k, x in enumerate(ins):
        if k in data_pos:
            x = obj(x)
            base = len(pool)
            pool.extend(x.ravel())
            args.append(jnp.asarray(np.arange(base, base + x.size).reshape(x.shape)))
        else:
            if is_sym(x):
                return symbolic_index(eqn, ins)
            args.append(jnp.asarray(x, dtype=eqn.invars[k].aval.dtype))
    params = dict(eqn.params)
    if "fill_value" in params:
        params["fill_value"] = 0 if params["fill_value"] is not None else None
    if name == "gather" and "fill" in str(params.get("mode", "")).lower():
        params["fill_value"] = 0
    out = eqn.primitive.bind(*args, **params)
    outs = out if isinstance(out, (list, tuple)) else [out]
    fill = float("nan")
    res = []
    for o in outs:
        o = np.asarray(o)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            k = int(o[i])
            r[i] = fill if k == 0 else pool[k]
        res.append(r)
    return res if eqn.primitive.multiple_results else res[0]


def _index_into(data, idx, mode_fill):
    """data: 1-D (numeric or object); idx: integer node (clamped semantics)."""
    n = data.shape[0]
    idx = E.min_(E.max_(idx, E.ZERO), E.const(n - 1))
    if not is_sym(data) and n > 64:
        return E.tab(E.table_id(np.asarray(data, float)), idx)
    if not is_sym(data):
        return E.tab(E.table_id(np.asarray(data, float)), idx)
    r = norm_elem(data[n - 1])
    for k in range(n - 2, -1, -1):
        r = E.ite(E.eq(idx, E.const(k)), norm_elem(data[k]), r)
    return r


def symbolic_index(eqn, ins):
    name = eqn.primitive.name
    out_shape = tuple(eqn.outvars[0].aval.shape)
    if name == "dynamic_slice":
        data, starts = ins[0], ins[1:]
        sizes = eqn.params["slice_sizes"]
        if data.ndim == 1 and sizes[0] == 1:
            out = np.empty((1,), dtype=object)
            out[0] = _index_into(data, starts[0].item() if is_sym(starts[0]) else E.const(int(starts[0])), False)
            return out
        if data.ndim == 1 and out_shape == (sizes[0],):
            out = np.empty(out_shape, dtype=object)
            n = data.shape[0]
            s = E.min_(E.max_(starts[0].item(), E.ZERO), E.const(n - sizes[0]))
            for k in range(sizes[0]):
                out[k] = _index_into(data, E.add(s, E.const(k)), False)
            return out
        raise Unsupported("dynamic_slice with symbolic start on rank>1")
    if name == "gather":
        data, idx = ins
        dn = eqn.params["dimension_numbers"]
        sizes = eqn.params["slice_sizes"]
        if data.ndim == 1 and sizes == (1,) and tuple(dn.collapsed_slice_dims) == (0,) and not dn.offset_dims:
            I = idx.reshape(-1)
            out = np.empty(len(I), dtype=object)
            fill = "fill" in str(eqn.params.get("mode", "")).lower()
            for k, j in enumerate(I):
                j = norm_elem(j)
                v = _index_into(data, j, fill)
                if fill:
                    n = data.shape[0]
                    ok = E.and_(E.le(E.ZERO, j), E.lt(j, E.const(n)))
                    v = E.ite(ok, v, E.const(float("nan"))) if not _inrange(j, n) else v
                out[k] = v
            return out.reshape(out_shape)
        if data.ndim == 2 and tuple(dn.collapsed_slice_dims) in ((0,), (1,)) and len(dn.start_index_map) == 1:
            ax = dn.start_index_map[0]
            if sizes[ax] == 1 and sizes[1 - ax] == data.shape[1 - ax]:
                I = idx.reshape(-1)
                rows = []
                for j in I:
                    j = norm_elem(j)
                    d = data if ax == 0 else data.T
                    rows.append([_index_into(d[:, c], j, False) for c in range(d.shape[1])])
                r = np.array(rows, dtype=object)
                return r.reshape(out_shape)
        raise Unsupported("gather with symbolic indices of this form")
    raise Unsupported(f"{name} with symbolic index")


def _inrange(j, n):
    """Syntactic check that an index node is already clamped into range."""
    return False


# reductions -----------------------------------------------------------------
def _reduce(f, init):
    def g(eqn, ins):
        x = ins[0]
        axes = tuple(eqn.params["axes"])
        keep = [a for a in range(x.ndim) if a not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[a] for a in keep] + [-1])
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            items = [norm_elem(v) for v in y[i]]
            if not items:
                out[i] = E.const(init)
                continue
            r = items[0]
            for v in items[1:]:
                r = f(r, v)
            out[i] = r
        return out

    return g


RULES["reduce_sum"] = _reduce(lambda a, b: E.add(a, b), 0.0)
RULES["reduce_prod"] = _reduce(lambda a, b: E.mul(a, b), 1.0)
RULES["reduce_max"] = _reduce(E.max_, -np.inf)
RULES["reduce_min"] = _reduce(E.min_, np.inf)
RULES["reduce_and"] = _reduce(E.and_, True)
RULES["reduce_or"] = _reduce(E.or_, False)


def _cum(f):
    def g(eqn, ins):
        x = ins[0]
        ax = eqn.params["axis"]
        y = np.moveaxis(x, ax, -1).copy()
        if eqn.params.get("reverse"):
            y = y[..., ::-1]
        out = np.empty(y.shape, dtype=object)
        for i in np.ndindex(y.shape[:-1]):
            acc = None
            for k in range(y.shape[-1]):
                v = norm_elem(y[i][k])
                acc = v if acc is None else f(acc, v)
                out[i + (k,)] = acc
        if eqn.params.get("reverse"):
            out = out[..., ::-1]
        return np.moveaxis(out, -1, ax)

    return g


RULES["cumsum"] = _cum(lambda a, b: E.add(a, b))
RULES["cumprod"] = _cum(lambda a, b: E.mul(a, b))
RULES["cummax"] = _cum(E.max_)
RULES["cummin"] = _cum(E.min_)


def _arg(better):
    def g(eqn, ins):
        x = ins[0]
        (ax,) = eqn.params["axes"]
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            best, idx = norm_elem(y[i][0]), E.ZERO
            for k in range(1, y.shape[-1]):
                v = norm_elem(y[i][k])
                c = better(v, best)
                best, idx = E.ite(c, v, best), E.ite(c, E.const(k), idx)
            out[i] = idx
        return out

    return g


RULES["argmin"] = _arg(lambda v, b: E.lt(v, b))
RULES["argmax"] = _arg(lambda v, b: E.lt(b, v))


@rule("sort")
def _sort(eqn, ins):
    if len(ins) != 1:
        return _sort_by_key(eqn, ins)
    x = ins[0]
    ax = eqn.params["dimension"]
    y = np.moveaxis(x, ax, -1).copy()
    for i in np.ndindex(y.shape[:-1]):
        v = [norm_elem(t) for t in y[i]]
        n = len(v)
        for a in range(n):
            for b in range(n - 1 - a):
                v[b], v[b + 1] = E.min_(v[b], v[b + 1]), E.max_(v[b], v[b + 1])
        for k in range(n):
            y[i + (k,)] = v[k]
    return [np.moveaxis(y, -1, ax)]


def _sort_by_key(eqn, ins):
    """Stable sort of several operands by the first one."""
    ax = eqn.params["dimension"]
    if eqn.params.get("num_keys", 1) != 1:
        raise Unsupported("sort by several symbolic keys")
    ys = [np.moveaxis(obj(x), ax, -1).copy() for x in ins]
    for i in np.ndindex(ys[0].shape[:-1]):
        v = [[norm_elem(t) for t in y[i]] for y in ys]
        n = len(v[0])
        if n > 6:
            raise Unsupported("sort of many symbolic values")
        for a in range(n):
            for b in range(n - 1 - a):
                swap = E.lt(E.N(v[0][b + 1]), E.N(v[0][b]))
                for w in v:
                    x, z = w[b], w[b + 1]
                    w[b], w[b + 1] = _sel(swap, z, x), _sel(swap, x, z)
        for y, w in zip(ys, v):
            for k in range(n):
                y[i + (k,)] = w[k]
    return [np.moveaxis(y, -1, ax) for y in ys]


def _sel(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(E.ite(c, a.re, b.re), E.ite(c, a.im, b.im))
    return E.ite(c, E.N(a), E.N(b))


@rule("scatter-add")
def _scatter_add(eqn, ins):
    op, idx, upd = ins
    if is_sym(idx):
        raise Unsupported("scatter-add at symbolic positions")
    op, upd = obj(op), obj(upd)
    if upd.size > 512:
        raise Unsupported("scatter-add of many values")
    out = op.copy()
    for k in range(upd.size):
        e = np.zeros(upd.size)
        e[k] = 1.0
        r = np.asarray(eqn.primitive.bind(jnp.zeros(op.shape), jnp.asarray(idx), jnp.asarray(e.reshape(upd.shape)), **eqn.params))
        for p in np.argwhere(r != 0):
            p = tuple(p)
            out[p] = norm_elem(out[p]) + norm_elem(upd.ravel()[k])
    return out


@rule("dot_general")
def _dot(eqn, ins):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    a, b = obj(ins[0]), obj(ins[1])
    lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
    at = np.transpose(a, list(lb) + lf + list(lc))
    bt = np.transpose(b, list(rb) + rf + list(rc))
    bs = [a.shape[i] for i in lb]
    ls = [a.shape[i] for i in lf]
    rs = [b.shape[i] for i in rf]
    K = int(np.prod([a.shape[i] for i in lc])) if lc else 1
    at = at.reshape(bs + [-1, K])
    bt = bt.reshape(bs + [-1, K])
    out = np.empty(bs + [at.shape[-2], bt.shape[-2]], dtype=object)
    for i in np.ndindex(out.shape):
        *bi, p, q = i
        s = E.ZERO
        for k in range(K):
            s = E.add(s, E.mul(norm_elem(at[tuple(bi) + (p, k)]), norm_elem(bt[tuple(bi) + (q, k)])))
        out[i] = s
    return out.reshape(bs + ls + rs)


@rule("iota")
def _iota(eqn, ins):
    return concrete_bind(eqn, ins)


@rule("fft")
def _fft(eqn, ins):
    kind = str(eqn.params["fft_type"]).split(".")[-1].upper()
    kind = {"0": "FFT", "1": "IFFT", "2": "RFFT", "3": "IRFFT"}.get(kind, kind)
    (n,) = eqn.params["fft_lengths"]
    x = ins[0]
    y = x.reshape(-1, x.shape[-1])
    res = []
    inverse = kind in ("IFFT", "IRFFT")
    if kind not in ("FFT", "IFFT", "RFFT"):
        raise Unsupported(f"fft kind {kind}")
    nout = n if kind != "RFFT" else n // 2 + 1
    for row in y:
        o = []
        for j in range(nout):
            s = Cx.of(0.0)
            for k in range(n):
                m = (j * k) % n
                c, sn = _unit(m, n)
                w = Cx(E.const(c), E.const(sn if inverse else -sn))
                s = s + norm_elem(row[k]) * w
            if inverse:
                s = s * E.const(1.0 / n)
            o.append(s)
        res.append(o)
    out = np.empty((len(res), nout), dtype=object)
    for i, o in enumerate(res):
        for j, v in enumerate(o):
            out[i, j] = v
    return out.reshape(x.shape[:-1] + (nout,))


def _unit(m, n):
    import math

    m4 = (4 * m) % (4 * n)
    if m4 % n == 0:
        return [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][m4 // n]
    a = 2 * math.pi * m / n
    c, s = math.cos(a), math.sin(a)
    if (12 * m) % n == 0:
        # multiples of 30 degrees: exact halves
        k = 12 * m // n
        c = [1, None, .5, 0, -.5, None, -1, None, -.5, 0, .5, None][k % 12] if k % 2 == 0 else c
        s2 = [0, .5, None, 1, None, .5, 0, -.5, None, -1, None, -.5][k % 12]
        s = s2 if s2 is not None else s
    return c, s


# higher-order primitives ------------------------------------------------------
HIGHER = {}


def higher(*names):
    def deco(f):
        for n in names:
            HIGHER[n] = f
        return f

    return deco


def _closed(j):
    return (j.jaxpr, j.consts) if hasattr(j, "consts") else (j, [])


@higher("pjit", "jit", "closed_call", "core_call", "remat", "checkpoint", "remat2",
        "custom_lin", "named_call", "xla_call")
def _pjit(eqn, ins):
    p = eqn.params
    j = p.get("jaxpr") or p.get("call_jaxpr")
    name = p.get("name", "")
    st = NAME_STUBS.get(name)
    if st is not None:
        o = st(eqn, ins)
        if o is not None:
            Stats.stubs[name] = Stats.stubs.get(name, 0) + 1
            return o
    jj, cc = _closed(j)
    return run(jj, cc, ins)


@higher("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr")
def _cjvp(eqn, ins):
    p = eqn.params
    j = p.get("call_jaxpr") or p.get("fun_jaxpr")
    jj, cc = _closed(j)
    return run(jj, cc, ins)


def _merge(c, a, b):
    if not is_sym(a) and not is_sym(b) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True):
        return a
    a, b = np.broadcast_arrays(obj(a), obj(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = E.ite(c, norm_elem(a[i]), norm_elem(b[i]))
    return out


@higher("cond")
def _cond(eqn, ins):
    idx, ops = ins[0], ins[1:]
    branches = eqn.params["branches"]
    if not is_sym(idx):
        k = int(np.clip(int(idx), 0, len(branches) - 1))
        jj, cc = _closed(branches[k])
        return run(jj, cc, ops)
    i = norm_elem(idx.item())
    outs = []
    for b in branches:
        jj, cc = _closed(b)
        outs.append(run(jj, cc, ops))
    res = outs[-1]
    for k in range(len(branches) - 2, -1, -1):
        if E.isbool(i):
            c = E.not_(i) if k == 0 else i
        elif k == 0:
            c = E.le(i, E.ZERO) if len(branches) > 2 else E.eq(i, E.ZERO)
        else:
            c = E.eq(i, E.const(k))
        res = [_merge(c, x, y) for x, y in zip(outs[k], res)]
    return res


@higher("scan")
def _scan(eqn, ins):
    p = eqn.params
    nc, ncar, L = p["num_consts"], p["num_carry"], p["length"]
    consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
    jj, cc = _closed(p["jaxpr"])
    ys = []
    order = range(L - 1, -1, -1) if p["reverse"] else range(L)
    for k in order:
        o = run(jj, cc, list(consts) + carry + [x[k] if x[k].__class__ is np.ndarray else np.asarray(x[k]) if not is_sym(x) else scal(x[k]) for x in xs])
        carry = list(o[:ncar])
        ys.append(o[ncar:])
    if p["reverse"]:
        ys = ys[::-1]
    outs = list(carry)
    ny = len(eqn.outvars) - ncar
    for m in range(ny):
        col = [y[m] for y in ys]
        if any(is_sym(c) for c in col):
            outs.append(np.stack([obj(c) for c in col]))
        elif col:
            outs.append(np.stack(col))
        else:
            a = eqn.outvars[ncar + m].aval
            outs.append(np.zeros(a.shape, a.dtype))
    return outs


MAX_UNROLL = 4096


@higher("while")
def _while(eqn, ins):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc_, bc_, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    cj, ccs = _closed(p["cond_jaxpr"])
    bj, bcs = _closed(p["body_jaxpr"])

    def go(carry, depth, symdepth):
        while True:
            (c,) = run(cj, ccs, list(cc_) + carry)
            if not is_sym(c):
                if not bool(c):
                    return carry
                carry = run(bj, bcs, list(bc_) + carry)
                depth += 1
                if depth > MAX_UNROLL:
                    raise Unsupported("while loop exceeds unrolling bound")
                continue
            if symdepth >= 64:
                raise Unsupported("symbolic while loop exceeds unrolling bound")
            nxt = go(run(bj, bcs, list(bc_) + carry), depth + 1, symdepth + 1)
            cnode = norm_elem(c.item())
            return [_merge(cnode, a, b) for a, b in zip(nxt, carry)]

    return go(carry, 0, 0)


# linear algebra: contract stubs ------------------------------------------------
@rule("lu")
def _lu(eqn, ins):
    """LU factors of a symbolic matrix are never inspected: only the solve
    contract (A x = b) of custom_linear_solve is used."""
    a = ins[0]
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = E.const(float("nan"))
    shp = [tuple(v.aval.shape) for v in eqn.outvars]
    return [out, np.broadcast_to(np.arange(shp[1][-1], dtype=np.int32), shp[1]),
            np.broadcast_to(np.arange(shp[2][-1], dtype=np.int32), shp[2])]


@higher("custom_linear_solve")
def _cls(eqn, ins):
    if not any(is_sym(x) for x in ins):
        pass
    p = eqn.params
    cl = p["const_lengths"]
    mv_n = cl.matvec
    mv_consts = ins[:mv_n]
    total = cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve
    bs = ins[total:]
    if len(bs) != 1:
        raise Unsupported("custom_linear_solve with several right-hand sides")
    b = bs[0]
    mj, mc = _closed(p["jaxprs"].matvec)
    shape = b.shape
    n = b.size
    if n > 64:
        raise Unsupported("large symbolic linear solve")
    cols = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        (col,) = run(mj, mc, list(mv_consts) + [e.reshape(shape)])
        cols.append(nodes(col).reshape(-1))
    bb = nodes(b).reshape(-1)
    # split into independent blocks (batched or multi-column right-hand sides)
    M = np.empty((n, n), dtype=object)
    for k in range(n):
        for r in range(n):
            M[r, k] = cols[k][r]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for r in range(n):
        for k in range(n):
            if not (M[r, k].op == "num" and M[r, k].val == 0.0):
                comp[find(r)] = find(k)
    out = np.empty(n, dtype=object)
    for root in {find(i) for i in range(n)}:
        I = [i for i in range(n) if find(i) == root]
        m = len(I)
        A = [M[r, k] for r in I for k in I] + [bb[r] for r in I]
        if m == 1:
            out[I[0]] = E.div(bb[I[0]], M[I[0], I[0]])
            continue
        for pos, i in enumerate(I):
            out[i] = E._mk("solve", tuple(A), (pos, m))
    Stats.stubs["linear_solve"] = Stats.stubs.get("linear_solve", 0) + 1
    return [out.reshape(shape)]


@rule("triangular_solve")
def _ts(eqn, ins):
    a, b = ins
    raise Unsupported("triangular_solve on symbolic values outside a linear solve")


# library stubs by contract ---------------------------------------------------
def _searchsorted(eqn, ins):
    """jnp.searchsorted(sorted constant table, x): contract stub."""
    tabs = [x for x in ins]
    if len(tabs) != 2:
        return None
    a, x = tabs
    if is_sym(a) or not is_sym(x) or a.ndim != 1:
        return None
    # side is baked into the traced computation: probe it concretely
    j = eqn.params["jaxpr"]
    mid = float(a[len(a) // 2])
    probe = jnp.full(x.shape, mid)
    r = np.asarray(jax.core.eval_jaxpr(j.jaxpr, j.consts, jnp.asarray(a), probe)[0])
    v = int(r.reshape(-1)[0]) if r.size else 0
    if v == int(np.searchsorted(a, mid, side="left")):
        side = "left"
    elif v == int(np.searchsorted(a, mid, side="right")):
        side = "right"
    else:
        return None
    if int(np.searchsorted(a, mid, side="left")) == int(np.searchsorted(a, mid, side="right")):
        return None
    tid = E.table_id(a)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = E.ss(tid, norm_elem(x[i]), side)
    return [out]


RANDOM_COUNT = [0]
RANDOM_VARS = []


def _uniform(eqn, ins):
    """jax.random.uniform: minval + u*(maxval-minval) with arbitrary u in [0,1)."""
    aval = eqn.outvars[0].aval
    key, lo, hi = ins[0], ins[1], ins[2]
    RANDOM_COUNT[0] += 1
    u = sym_array(f"rnd!{RANDOM_COUNT[0]}", aval.shape)
    RANDOM_VARS.extend(v for v in u.ravel())
    lo = np.broadcast_to(obj(lo), aval.shape)
    hi = np.broadcast_to(obj(hi), aval.shape)
    out = np.empty(aval.shape, dtype=object)
    for i in np.ndindex(aval.shape):
        l, h = norm_elem(lo[i]), norm_elem(hi[i])
        out[i] = E.max_(l, E.add(l, E.mul(u[i], E.sub(h, l))))
    return [out]


def _interp(eqn, ins):
    """jnp.interp on constant tables: contract stub (piecewise-linear lookup);
    the end values are probed from the traced computation itself."""
    if not OPTIONS["interp_stub"] or len(ins) < 3:
        return None
    x, xp, fp = ins[:3]
    if is_sym(xp) or is_sym(fp) or not is_sym(x) or xp.ndim != 1 or any(is_sym(y) for y in ins[3:]):
        return None
    j = eqn.params["jaxpr"]
    shape = x.shape
    n = len(xp)

    def at(v):
        r = jax.core.eval_jaxpr(j.jaxpr, j.consts, jnp.full(shape, v), jnp.asarray(xp), jnp.asarray(fp),
                                *[jnp.asarray(y) for y in ins[3:]])[0]
        return float(np.asarray(r).reshape(-1)[0])

    if int(np.prod(shape)) == 0:
        return None
    span = float(xp[-1] - xp[0])
    left, right = at(float(xp[0]) - span), at(float(xp[-1]) + span)
    for k in (0, n // 3, n - 2):
        v = 0.37 * float(xp[k]) + 0.63 * float(xp[k + 1])
        e = float(np.interp(v, xp, fp))
        if np.isfinite(e) and not abs(at(v) - e) <= 1e-9 * abs(e) + 1e-300:
            return None
    tx, ty = E.table_id(xp), E.table_id(fp)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = E.interp(norm_elem(x[i]), tx, ty, left, right)
    return [out]


def _signbit(eqn, ins):
    x = ins[0]
    if not is_sym(x):
        return None
    return [ew(lambda a: E.lt(a, E.ZERO), 1)(eqn, ins)]


OPTIONS = {"interp_stub": True, "rounding": False}
NAME_STUBS = {"searchsorted": _searchsorted, "_uniform": _uniform, "_interp": _interp, "interp": _interp,
              "signbit": _signbit}
