"""Library model: canonical terms for builtins, numpy / jax.numpy, pandas, plotly, functools, ... calls.

Every rule here is an algebraic identity of the library (same value by another
spelling); whatever is not modelled stays an uninterpreted application.
"""
import ast
import builtins as _b
from .terms import *
from . import terms as tm

BUILTINS = set(dir(_b))
FRESH_ATTRS = {"T", "shape", "size", "ndim", "dtype", "values"}
tm.SIMP["anyof"] = lambda x, *kw: bnot(tm.set_le(*bnot(x).args)) if not kw and isinstance(x, T) and bnot(x).op == "isin" and x.op != "isin" else raw("anyof", x, *kw)
tm.BOOL_OPS |= {"isnan", "isfinite", "mask", "isin", "allof", "anyof", "startswith", "endswith", "set_le"}

_ALIAS = [("logging.warnings", "warnings"), 
    ("jax.numpy", "np"), ("numpy", "np"), ("pandas", "pd"), ("plotly.graph_objects", "go"),
    ("plotly.express", "px"), ("plotly.figure_factory", "ff"),
]


def canon(d):
    for a, b in _ALIAS:
        if d == a:
            return b
        if d.startswith(a + "."):
            d = b + d[len(a):]
            break
    m = {
        "jax.scipy.special.logsumexp": "scipy.logsumexp", "scipy.special.logsumexp": "scipy.logsumexp",
        "jax.scipy.stats.norm.logpdf": "norm.logpdf", "scipy.stats.norm.logpdf": "norm.logpdf",
        "jax.nn.logsumexp": "scipy.logsumexp", "np.absolute": "np.abs", "jax.lax.scan": "lax.scan",
        "np.concat": "np.concatenate", "np.float64": "np.float64", "itertools.chain.from_iterable": "chain_from",
        "np.ndarray": "np.ndarray", "jax.Array": "np.ndarray", "jax.numpy.ndarray": "np.ndarray",
        "np.bool_": "builtins.bool", "np.multiply": "py.mul", "np.add": "py.add", "np.subtract": "py.sub",
        "np.divide": "py.div", "np.true_divide": "py.div", "np.negative": "py.neg", "np.matmul": "np.dot",
        "np.logical_and": "py.and", "np.logical_or": "py.or", "np.logical_not": "py.not", "np.square": "py.square",
        "np.power": "py.pow", "np.equal": "py.eq", "np.greater": "py.gt", "np.less": "py.lt", "np.not_equal": "py.ne",
        "operator.add": "py.add", "operator.mul": "py.mul", "operator.and_": "py.and", "operator.or_": "py.or",
    }
    if d == "jax.vmap" or d == "jax.jit" or d == "jax.grad":
        return d
    return m.get(d, d)


# ------------------------------------------------------------------ signatures
def _sig(s):
    names, dflt = [], {}
    for p in s.split(","):
        p = p.strip()
        if not p:
            continue
        if "=" in p:
            n, d = p.split("=", 1)
            names.append(n)
            dflt[n] = const(ast.literal_eval(d)) if not d.startswith("(") else None
        else:
            names.append(p)
    return names, dflt


_S = {
    "np.sum": "a,axis=None,dtype=None,keepdims=False", "np.mean": "a,axis=None,keepdims=False",
    "np.max": "a,axis=None", "np.min": "a,axis=None", "np.any": "a,axis=None", "np.all": "a,axis=None",
    "np.prod": "a,axis=None", "np.cumsum": "a,axis=None", "np.std": "a,axis=None,ddof=0", "np.var": "a,axis=None,ddof=0",
    "np.repeat": "a,repeats,axis=None", "np.reshape": "a,shape", "np.transpose": "a,axes=None",
    "np.concatenate": "arrays,axis=0", "np.stack": "arrays,axis=0", "np.hstack": "arrays", "np.vstack": "arrays",
    "np.column_stack": "arrays", "np.clip": "a,a_min=None,a_max=None", "np.where": "c,x=None,y=None",
    "np.zeros": "shape,dtype=None", "np.ones": "shape,dtype=None", "np.empty": "shape,dtype=None",
    "np.full": "shape,fill_value,dtype=None",
    "np.arange": "start,stop=None,step=None,dtype=None", "np.linspace": "start,stop,num=50",
    "np.diag": "v,k=0", "np.tril_indices": "n,k=0", "np.tril_indices_from": "a,k=0", "np.triu_indices_from": "a,k=0",
    "np.expand_dims": "a,axis", "np.squeeze": "a,axis=None", "np.dot": "a,b", "np.isin": "a,b", "np.eye": "n",
    "np.tile": "a,reps", "np.unique": "a", "np.fill_diagonal": "a,val", "np.linalg.qr": "a,mode='reduced'",
    "np.abs": "a", "np.exp": "a", "np.log": "a", "np.sqrt": "a", "np.round": "a,decimals=0",
    "np.take": "a,indices,axis=None", "np.swapaxes": "a,axis1,axis2", "np.broadcast_to": "a,shape",
    "np.array": "a,dtype=None", "np.zeros_like": "a,dtype=None", "np.ones_like": "a,dtype=None",
    "np.full_like": "a,fill_value,dtype=None", "np.nan_to_num": "a",
    "scipy.stats.gaussian_kde": "dataset,bw_method=None,weights=None", "np.isfinite": "a", "np.isnan": "a", "np.maximum": "a,b", "np.minimum": "a,b",
    "scipy.logsumexp": "a,axis=None,b=None,keepdims=False,return_sign=False", "norm.logpdf": "x,loc=0,scale=1",
    "dags.concatenate_functions": "functions,targets,return_type='tuple',aggregator=None,enforce_signature=True",
    "jax.vmap": "fun,in_axes=0,out_axes=0",
    "np.random.normal": "loc=0,scale=1,size=None", "np.random.multivariate_normal": "mean,cov,size=None",
    "np.random.choice": "a,size=None,replace=True,p=None",
    "pd.DataFrame": "data=None,index=None,columns=None,dtype=None,copy=None",
    "pd.Series": "data=None,index=None,dtype=None,name=None",
    "pd.concat": "objs,axis=0,join='outer',ignore_index=False,keys=None",
    "pd.MultiIndex.from_tuples": "tuples,sortorder=None,names=None",
    "pd.MultiIndex.from_product": "iterables,sortorder=None,names=None",
    "pd.merge": "left,right,how='inner',on=None,left_on=None,right_on=None,left_index=False,right_index=False",
    "builtins.round": "number,ndigits=None", "np.float64": "x",
}
_M = {
    "reset_index": "level=None,drop=False,inplace=False", "set_index": "keys,drop=True,append=False,inplace=False",
    "rename": "mapper=None,index=None,columns=None,axis=None,inplace=False",
    "drop": "labels=None,axis=0,index=None,columns=None,inplace=False", "fillna": "value=None,method=None,axis=None,inplace=False",
    "dropna": "axis=0,how='any',inplace=False", "sort_index": "axis=0,level=None,ascending=True,inplace=False",
    "sort_values": "by=None,axis=0,ascending=True,inplace=False", "reindex": "labels=None,index=None,columns=None,axis=None",
    "groupby": "by=None,axis=0,level=None", "query": "expr,inplace=False", "isin": "values",
    "quantile": "q=0.5,axis=0", "replace": "to_replace=None,value=None", "merge": "right,how='inner',on=None",
    "join": "other,on=None,how='left'", "corr": "method='pearson',min_periods=1", "sample": "n=None,frac=None,replace=False",
    "droplevel": "level,axis=0", "add_suffix": "suffix", "add_prefix": "prefix", "get_level_values": "level",
    "where": "cond,other=None", "mask": "cond,other=None", "shift": "periods=1", "xs": "key,axis=0,level=None",
    "assign": "", "round": "decimals=0", "apply": "func,axis=0", "clip": "lower=None,upper=None",
    "set_levels": "levels,level=None", "to_list": "", "tolist": "", "union": "other,sort=None", "difference": "other,sort=None",
    "intersection": "other,sort=False", "drop_duplicates": "subset=None", "isnull": "", "notnull": "",
    "std": "axis=None,ddof=1", "unstack": "level=-1,fill_value=None", "stack": "level=-1",
    "resample": "size=None,seed=None",
}
SIG = {k: _sig(v) for k, v in _S.items()}
MSIG = {k: _sig(v) for k, v in _M.items()}


def norm_args(sig, args, kwargs):
    """-> (positional required, {kw}) with defaults dropped"""
    names, dflt = sig
    kw = dict(kwargs)
    if len(args) > len(names):
        return list(args), kw
    for n, a in zip(names, args):
        kw.setdefault(n, a)
    pos = []
    for n in names:
        if n not in dflt:
            if n in kw:
                pos.append(kw.pop(n))
            else:
                pos.append(opaque("missing-arg " + n))
    for n, d in dflt.items():
        if n in kw and d is not None and kw[n] is d:
            del kw[n]
    return pos, kw


def kwterms(kw):
    return [raw("kw", k, v) for k, v in sorted(kw.items())]


# ------------------------------------------------------------------ helpers
def install(ip):
    ip.builtin_py = getattr(ip, "builtin_py", {})


def lib_attr(lib, attr):
    d = canon(lib + "." + attr)
    if d in ("np.inf", "math.inf", "np.Inf"):
        return const(float("inf"))
    if d in ("np.nan", "math.nan"):
        return NAN
    if d == "np.newaxis":
        return NONE
    if d == "math.pi":
        return raw("lib", "np.pi")
    return raw("lib", d)


NAN = raw("nan")


def maskify(t):
    if is_boolterm(t) or t.op == "const":
        return truth(t) if t.op == "const" else t
    if t.op == "ite":
        return ite(t.args[0], maskify(t.args[1]), maskify(t.args[2]))
    return raw("mask", t)


def unmask(t):
    """a test of single elements of boolean arrays"""
    if t.op == "ite":
        return ite(unmask(t.args[0]), unmask(t.args[1]), unmask(t.args[2]))
    if t.op == "mask" and t.args[0].op == "getitem" and t.args[0].args[1].op == "var":
        return truth(t.args[0])
    return t


def invert(t):
    return bnot(maskify(t))


def set_difference(a, b):
    return raw("set_diff", a, strip_seqwrap(b))


def dict_merge(a, b):
    """b overrides a"""
    if b.op == "emptydict":
        return a
    if a.op == "emptydict" and b.op == "upd":
        return b
    if b.op == "upd" and b.args[0] is EMPTYDICT:
        return upd(a, list(b.args[1:]))
    if b.op == "upd":
        return upd(dict_merge(a, b.args[0]), list(b.args[1:]))
    if b.op == "ite" and (is_empty_lit(b.args[1]) or is_empty_lit(b.args[2])):
        return ite(b.args[0], dict_merge(a, b.args[1]), dict_merge(a, b.args[2]))
    if a.op == "emptydict":
        return b if kind(b) == "dict" else upd(EMPTYDICT, [raw("sp", b)])
    return upd(a, [raw("sp", b)])


def np_dot(a, b):
    return raw("call", "np.dot", a, b)


def items_of(c):
    """iteration items of content c (no state)"""
    if c.op == "seq":
        return list(c.args[1:])
    if c.op == "emptydict":
        return []
    if c.op == "ite":
        return mk_if(c.args[0], items_of(c.args[1]), items_of(c.args[2]))
    if kind(c) == "dict":
        k = mk("keys", c)
        return list(k.args[1:]) if k.op == "seq" else [raw("sp", k)]
    if c.op == "const" and isinstance(c.args[0], str):
        return [it(const(x)) for x in c.args[0]]
    if c.op == "call" and c.args[0] == "np.arange" and len(c.args) == 2 and is_intval(c.args[1]):
        i = fresh("i")
        return [mk_for(i, c.args[1], [it(i)])]
    return [raw("sp", c)]


def rows(df, m):
    if m is TRUE:
        return df
    return raw("rows", df, m)


def normmask(df, m):
    """columns / index levels of df inside a row mask -> qvar"""
    mm = {}
    base = df
    for t in walk(m):
        if t.op == "getitem" and t.args[0] is base and kind(t.args[1]) == "str":
            mm[t.id] = raw("qvar", t.args[1])
        elif t.op == "meth" and t.args[0] == "get_level_values" and t.args[1].op == "attr" and \
                t.args[1].args[0] is base and t.args[1].args[1] == "index":
            mm[t.id] = raw("qvar", t.args[2])
    if mm:
        m = replace(m, mm)
    return m


def is_mask(k):
    if k.op in ("const",):
        return False
    if k.op == "mask":
        return True
    return is_boolterm(k)


def index(b, k):
    if b.op == "attr" and b.args[1] == "loc" :
        df = b.args[0]
        if is_mask(k):
            return rows(df, normmask(df, k))
        if k.op == "seq" and k.args[0] == "tuple" and len(k.args) == 3 and k.args[1].op == k.args[2].op == "it":
            r, c = k.args[1].args[0], k.args[2].args[0]
            full = lambda x: x.op == "slice" and x.args[0] is NONE and x.args[1] is NONE and x.args[2] is NONE
            if is_mask(r):
                d2 = rows(df, normmask(df, r))
                return d2 if full(c) else getitem(d2, c)
            if full(r) and not is_mask(c) and c.op != "slice":
                return getitem(df, c)
        return getitem(b, k)
    if b.op == "ite" and not is_boolterm(b):
        return ite(b.args[0], index(b.args[1], k), index(b.args[2], k))
    if is_mask(k) and b.op not in ("seq", "upd", "emptydict") and kind(b) not in ("list", "tuple", "dict", "str"):
        return rows(b, normmask(b, k))
    if b.op == "seq" and k.op == "mask":
        return raw("getitem", b, k)
    if k.op == "seq" and k.args[0] == "list" and is_boolterm(b):
        return raw("getitem", b, k)
    return getitem(b, k)


# ------------------------------------------------------------------ attributes
DATA_ATTRS = {"index", "columns", "loc", "iloc", "at", "iat", "shape", "size", "ndim", "dtype", "name", "names",
              "levels", "data", "layout", "line", "text", "title", "xaxis", "yaxis", "colors", "__name__", "str",
              "dtypes", "parent", "stem", "args", "kwargs", "annotations", "nlevels", "__registered_params__",
              "is_unique", "is_monotonic_increasing", "empty"}


def transpose(c):
    if c.op == "call" and c.args[0] == "np.transpose" and len(c.args) == 2:
        return c.args[1]
    return raw("call", "np.transpose", c)


def attr(ip, c, a, st):
    if a in ("T",):
        return transpose(ip.val(c, st))
    if a == "values" and c.op not in ("upd", "emptydict") and kind(c) != "dict":
        return arr(ip.val(c, st))
    if a == "empty":
        return bnot(truth(length(ip.val(c, st))))
    if a in DATA_ATTRS:
        c = ip.val(c, st)
        return mk("attr", c, a)
    return None


def assigned(i):
    """columns an update assigns, if they are known"""
    if i.op == "if":
        out = set()
        for b in i.args[1:]:
            for x in b.args:
                s = assigned(x)
                if s is None:
                    return None
                out |= s
        return out
    if i.op == "pair":
        k = i.args[0]
        if k.op == "const" and isinstance(k.args[0], str):
            return {k}
        if k.op in ("loc", "loc_") or k.op.startswith("loc"):
            t = k.args[0]
            if t.op == "seq" and len(t.args) == 3 and t.args[2].op == "it" and t.args[2].args[0].op == "const":
                return {t.args[2].args[0]}
    return None


@simp("attr")
def _attr(c, a):
    if c.op == "ite" and is_boolterm(c):
        return raw("attr", c, a)
    if c.op == "ite":
        return ite(c.args[0], mk("attr", c.args[1], a), mk("attr", c.args[2], a))
    if c.op == "upd":
        for i in reversed(c.args[1:]):
            if i.op == "pair" and i.args[0].op == "attr_":
                if i.args[0].args[0] == a:
                    return i.args[1]
            elif i.op == "pair" and a in ("index", "shape_"):
                continue
            else:
                if a == "index" and (i.op in ("pair", "for") or i.op == "if" and assigned(i) is not None) and kind(c) in ("df", None):
                    continue
                break
        else:
            return mk("attr", c.args[0], a)
    if a == "index" and c.op == "rows" and c.args[0].op == "upd":
        cols = [assigned(i) for i in c.args[0].args[1:]]
        if None not in cols:
            q = {x.args[0] for x in walk(c.args[1]) if x.op == "qvar"}
            if q and all(x.op == "const" for x in q) and not q & set().union(*cols) and c.args[0] not in list(walk(c.args[1])):
                # the rows selected do not depend on the columns assigned before
                return mk("attr", rows(c.args[0].args[0], c.args[1]), "index")
    if a == "index" and c.op == "call" and c.args[0] == "pd.DataFrame" or a == "index" and c.op == "call" and c.args[0] == "pd.Series":
        for k in c.args[1:]:
            if k.op == "kw" and k.args[0] == "index":
                return k.args[1]
    if a == "columns" and c.op == "call" and c.args[0] == "pd.DataFrame":
        for k in c.args[1:]:
            if k.op == "kw" and k.args[0] == "columns":
                return k.args[1]
    if a == "shape" and c.op == "call" and c.args[0] in ("np.zeros", "np.ones", "np.full", "np.empty"):
        s = c.args[1]
        if s.op == "seq":
            return s
    if a == "index" and c.op == "getitem" and kind(c.args[1]) == "str" and False:
        return mk("attr", c.args[0], a)
    return raw("attr", c, a)


def arr(x, dtype=None):
    if dtype is not None and dtype.op == "lib" and dtype.args[0] in ("builtins.float", "np.float64"):
        pass
    if dtype is not None and not (dtype is NONE):
        return raw("call", "np.array", x, raw("kw", "dtype", dtype))
    if x.op == "call" and x.args[0] in ("np.array",):
        return x
    if x.op == "call" and x.args[0].startswith("np.") and x.args[0] not in ("np.random",):
        return x
    if is_num(x) or x.op in ("const",):
        return x
    if x.op == "ite":
        return ite(x.args[0], arr(x.args[1]), arr(x.args[2]))
    if x.op == "seq" and x.args[0] in ("list", "tuple"):
        x = seq("list", x.args[1:])
    return raw("call", "np.array", x)


# ------------------------------------------------------------------ boolean reductions
def py_any(items):
    r = FALSE
    for i in items:
        r = bor(r, item_any(i))
    return r


def item_any(i):
    if i.op == "it":
        return truth(i.args[0])
    if i.op == "if":
        return ite(i.args[0], py_any(i.args[1].args), py_any(i.args[2].args))
    if i.op == "for":
        vs, (n, *its) = unbind(i)
        return mk_any(vs[0], n, py_any(its))
    if i.op == "sp":
        v = fresh("i")
        s = i.args[0]
        if kind(s) == "arr" or s.op in ("rows", "call", "meth"):
            return raw("anyof", s)
        return mk_any(v, length(s), truth(getitem(s, v)))
    return raw("anyof", i)


def py_all(items):
    r = FALSE
    for i in items:
        r = bor(r, item_notall(i))
    return bnot(r)


def item_notall(i):
    if i.op == "it":
        return bnot(truth(i.args[0]))
    if i.op == "if":
        return ite(i.args[0], bnot(py_all(i.args[1].args)), bnot(py_all(i.args[2].args)))
    if i.op == "for":
        vs, (n, *its) = unbind(i)
        return mk_any(vs[0], n, bnot(py_all(its)))
    if i.op == "sp":
        v = fresh("i")
        s = i.args[0]
        return mk_any(v, length(s), bnot(truth(getitem(s, v))))
    return bnot(raw("allof", i))


def py_sum(items, start):
    tot = start
    for i in items:
        tot = add(tot, item_sum(i))
    return tot


def item_sum(i):
    if i.op == "it":
        x = i.args[0]
        if is_boolterm(x):
            return ite(x, ONE, ZERO)
        return x
    if i.op == "if":
        return ite(i.args[0], py_sum(i.args[1].args, ZERO), py_sum(i.args[2].args, ZERO))
    if i.op == "for":
        vs, (n, *its) = unbind(i)
        return mk_sum(vs[0], n, py_sum(its, ZERO))
    s = i.args[0]
    v = fresh("i")
    return mk_sum(v, length(s), getitem(s, v))


# ------------------------------------------------------------------ sequence views
def seq_of(v):
    """frozen value -> list-like term"""
    if v.op == "seq":
        return v
    return seq("list", items_of(v))


def simple_items(its):
    return all(i.op == "it" for i in its)


def enumerate_(v, start):
    if v.op == "ite":
        a, b = enumerate_(v.args[1], start), enumerate_(v.args[2], start)
        return seq("list", mk_if(v.args[0], list(a.args[1:]), list(b.args[1:])))
    its = items_of(v)
    if simple_items(its):
        return seq("list", [it(seq("tuple", [it(add(start, const(k))), it(x.args[0])])) for k, x in enumerate(its)])
    out = enum_items(its, start)
    if out is not None:
        return seq("list", out)
    i = fresh("i")
    return seq("list", [mk_for(i, length(v), [it(seq("tuple", [it(add(start, i)), it(getitem(v, i))]))])])


def enum_items(its, off):
    """items with their position, or None"""
    out = []
    for x in its:
        if x.op == "it":
            out.append(it(seq("tuple", [it(off), it(x.args[0])])))
        elif x.op == "for":
            vs, (n, *sub_) = unbind(x)
            if len(sub_) == 1 and sub_[0].op == "it":
                out.append(mk_for(vs[0], n, [it(seq("tuple", [it(add(off, vs[0])), it(sub_[0].args[0])]))]))
            else:
                return None
        elif x.op == "sp":
            i = fresh("i")
            out.append(mk_for(i, length(x.args[0]), [it(seq("tuple", [it(add(off, i)), it(getitem(x.args[0], i))]))]))
        elif x.op == "if":
            p, q = enum_items(x.args[1].args, off), enum_items(x.args[2].args, off)
            if p is None or q is None:
                return None
            out += mk_if(x.args[0], p, q)
        else:
            return None
        l = item_count(x)
        if l is None:
            return None
        off = add(off, l)
    return out


def item_count(x):
    l = tm._item_len(x)
    if l is None and x.op == "for":
        vs, (n, *its) = unbind(x)
        each = ZERO
        for y in its:
            k = item_count(y)
            if k is None:
                return None
            each = add(each, k)
        l = tm.mk_sum(vs[0], n, each)
    elif l is None and x.op == "if":
        tot = []
        for its in (x.args[1].args, x.args[2].args):
            tot.append(ZERO)
            for y in its:
                k = item_count(y)
                if k is None:
                    return None
                tot[-1] = add(tot[-1], k)
        l = ite(x.args[0], *tot)
    return l


def zip_same(its):
    """zip of item lists with the same (nested) iteration spaces"""
    if len({len(x) for x in its}) != 1:
        return None
    out = []
    for xs in zip(*its):
        if all(x.op == "it" for x in xs):
            out.append(it(seq("tuple", list(xs))))
            continue
        if not all(x.op == "for" for x in xs):
            return None
        vs, (n, *b0) = unbind(xs[0])
        if len(vs) != 1:
            return None
        bodies = [b0]
        for x in xs[1:]:
            w, (m, *b) = unbind(x)
            if len(w) != 1 or m is not n:
                return None
            bodies.append([replace(y, {w[0].id: vs[0]}) for y in b])
        z = zip_same(bodies)
        if z is None:
            return None
        out.append(mk_for(vs[0], n, z))
    return out


def zip_(vs_):
    its = [items_of(v) for v in vs_]
    if all(simple_items(x) for x in its):
        n = min((len(x) for x in its), default=0)
        return seq("list", [it(seq("tuple", [it(x[k].args[0]) for x in its])) for k in range(n)])
    z = zip_same(its)
    if z is not None:
        return seq("list", z)
    i = fresh("i")
    ls = [length(seq_of(v)) for v in vs_]
    n = ls[0]
    # literal count wins if one operand is a literal list
    for v, x in zip(vs_, its):
        if simple_items(x):
            n = const(len(x))
            return seq("list", [it(seq("tuple", [it(getitem(v2, const(k))) for v2 in vs_])) for k in range(len(x))])
    if any(l is not n for l in ls):
        u = sorted(set(ls), key=lambda t: t.id)
        n = raw("minlen", *u)
    return seq("list", [mk_for(i, n, [it(seq("tuple", [it(getitem(seq_of(v), i)) for v in vs_]))])])


def repeated_keys(its, inner=()):
    """some entries of a loop may have the same key: it is an entry of a record, not the name of an element"""
    for i in its:
        if i.op == "for":
            vs, (n, *x) = unbind(i)
            if repeated_keys(x, inner + (vs[0],)):
                return True
        elif i.op == "if":
            if repeated_keys(i.args[1].args, inner) or repeated_keys(i.args[2].args, inner):
                return True
        elif i.op == "pair" and inner:
            k = i.args[0]
            if k.op == "getitem" and k.args[1].op == "const" and isinstance(k.args[1].args[0], str) and any(v in tm.walk(k.args[0]) for v in inner):
                return True
    return False


def dict_items(c):
    def conv(its):
        out = []
        for i in its:
            if i.op == "pair":
                out.append(it(seq("tuple", [it(i.args[0]), it(i.args[1])])))
            elif i.op == "for":
                vs, (n, *x) = unbind(i)
                y = conv(x)
                if y is None:
                    return None
                out.append(mk_for(vs[0], n, y))
            elif i.op == "if":
                a, b = conv(i.args[1].args), conv(i.args[2].args)
                if a is None or b is None:
                    return None
                out += mk_if(i.args[0], a, b)
            elif i.op == "sp":
                d = i.args[0]
                x = fresh("i")
                ks = mk("keys", d)
                k = getitem(ks, x)
                out.append(mk_for(x, length(ks), [it(seq("tuple", [it(k), it(getitem(d, k))]))]))
            else:
                return None
        return out
    if c.op == "emptydict":
        return seq("list", [])
    if c.op == "upd" and c.args[0] is EMPTYDICT and not repeated_keys(c.args[1:]):
        o = conv(c.args[1:])
        if o is not None:
            return seq("list", o)
    if c.op == "ite":
        return ite(c.args[0], dict_items(c.args[1]), dict_items(c.args[2]))
    x = fresh("i")
    ks = mk("keys", c)
    k = getitem(ks, x)
    return seq("list", [mk_for(x, length(ks), [it(seq("tuple", [it(k), it(getitem(c, k))]))])])


def map_items(its, f):
    out = []
    for i in its:
        if i.op == "it":
            out.append(it(f(i.args[0])))
        elif i.op == "for":
            vs, (n, *x) = unbind(i)
            out.append(mk_for(vs[0], n, map_items(x, f)))
        elif i.op == "if":
            out += mk_if(i.args[0], map_items(i.args[1].args, f), map_items(i.args[2].args, f))
        elif i.op == "sp":
            x = fresh("i")
            out.append(mk_for(x, length(i.args[0]), [it(f(getitem(i.args[0], x)))]))
        else:
            out.append(opaque("mapped", i))
    return out


def pairs_to_dict(its):
    out = []
    for i in its:
        if i.op == "it":
            out.append(pair(getitem(i.args[0], ZERO), getitem(i.args[0], ONE)))
        elif i.op == "for":
            vs, (n, *x) = unbind(i)
            out.append(mk_for(vs[0], n, pairs_to_dict(x)))
        elif i.op == "if":
            out += mk_if(i.args[0], pairs_to_dict(i.args[1].args), pairs_to_dict(i.args[2].args))
        elif i.op == "sp":
            x = fresh("i")
            e = getitem(i.args[0], x)
            out.append(mk_for(x, length(i.args[0]), [pair(getitem(e, ZERO), getitem(e, ONE))]))
        else:
            out.append(opaque("mapped", i))
    return out


def product_(vs_):
    its = [items_of(v) for v in vs_]

    def rec(k, acc):
        if k == len(its):
            return [it(seq("tuple", [it(x) for x in acc]))]
        return nest(its[k], lambda x: rec(k + 1, acc + [x]))

    def nest(xs, g):
        out = []
        for i in norm_items(list(xs)):
            if i.op == "it":
                out += g(i.args[0])
            elif i.op == "for":
                vs, (n, *x) = unbind(i)
                out.append(mk_for(vs[0], n, nest(x, g)))
            elif i.op == "if":
                out += mk_if(i.args[0], nest(i.args[1].args, g), nest(i.args[2].args, g))
            elif i.op == "sp":
                x = fresh("i")
                out.append(mk_for(x, length(i.args[0]), g(getitem(i.args[0], x))))
            else:
                out.append(opaque("mapped", i))
        return out
    return seq("list", rec(0, []))


# ------------------------------------------------------------------ library calls
MUTABLE = {"pd.DataFrame", "pd.Series", "pd.concat", "np.zeros", "np.ones", "np.full", "np.empty", "np.zeros_like",
           "np.ones_like", "go.Figure", "px.line", "ff.create_distplot", "plotly.subplots.make_subplots", "pd.merge",
           "np.array"}
ELEMENTWISE1 = {"np.abs", "np.exp", "np.log", "np.sqrt"}


def mkcall(name, args, kw):
    if name == "np.sqrt" and len(args) == 1 and not kw:
        return tm.power(args[0], raw("poly", raw("m", tm.Fraction(1, 2)))) if args[0].op != "const" or isinstance(args[0].args[0], int) else raw("call", name, args[0])
    return raw("call", name, *args, *kwterms(kw))


def call_lib(ip, name, args, kwargs, st, kwsplat=None, varsplat=None):
    V = lambda x: ip.val(x, st)
    C = lambda x: ip.content(x.args[0], st) if x.op == "ref" else x
    AL = lambda x: ip.alloc(st, x)
    if name.startswith("builtins."):
        r = call_builtin(ip, name[9:], args, kwargs, st, kwsplat, varsplat)
        if r is not None:
            return r
    if name in ("functools.partial", "partial"):
        f = args[0]
        kws = [raw("kw", k, v) for k, v in kwargs.items()]
        extra = []
        if kwsplat is not None:
            extra = [raw("kwsp", V(kwsplat))]
        pa = raw("pargs", *[it(a) for a in args[1:]])
        if f.op == "partial" and not extra:
            pa = raw("pargs", *f.args[1].args, *pa.args)
            d = {k.args[0]: k.args[1] for k in f.args[2].args}
            d.update(kwargs)
            return raw("partial", f.args[0], pa, raw("pkw", *[raw("kw", k, v) for k, v in sorted(d.items())]))
        if extra:
            return raw("call", "functools.partial", V(f), *[V(a) for a in args[1:]], *kwterms({k: V(v) for k, v in kwargs.items()}), *extra)
        return raw("partial", f, pa, raw("pkw", *sorted(kws, key=lambda k: k.args[0])))
    if name in ("functools.wraps",):
        return raw("partial", raw("lib", "functools._wraps"), raw("pargs", it(args[0])), raw("pkw"))
    if name == "functools._wraps":
        f, g = args
        if g.op == "fn":
            ip.fns[g.args[0]].wrapped = f if f.op in ("fn", "lib") else None
            if f.op not in ("fn", "lib"):
                ip.fns[g.args[0]].wrapped = None
                ip.fns[g.args[0]].__dict__["wraps_t"] = V(f)
                ip.fns[g.args[0]].__dict__.setdefault("attrs", {})["__name__"] = raw("attr", V(f), "__name__")
        return g
    if name in ("jax.jit", "functools.cache", "functools.lru_cache", "jax.block_until_ready"):
        if not args:
            return raw("lib", "py.identity")
        return args[0]
    if name == "py.identity":
        return args[0]
    if name in ("copy.deepcopy",):
        v = V(args[0])
        if kind(v) in ("str", "int", "bool", "none"):
            return v
        nm = ip.ext_rooted(v)
        if nm:
            ip.deepcopied.add(nm)
        return AL(v)
    if name in ("copy.copy",):
        c = C(args[0])
        r = AL(c)
        if args[0].op == "ref" and args[0].args[0] in st.ext:
            nm, own = st.ext[args[0].args[0]]
            st.ext[r.args[0]] = (nm, (own or 0) + 1)
        return r
    if name == "contextlib.contextmanager" and len(args) == 1:
        return args[0]
    if name == "warnings.warn":
        cat_ = V(args[1]) if len(args) > 1 else V(kwargs.get("category", NONE))
        ip.effect(st, "warn", V(args[0]) if args else NONE, cat_)
        return NONE
    if name.startswith("warnings."):
        if name.endswith("catch_warnings"):
            return raw("call", name, *kwterms({k: V(v) for k, v in kwargs.items()}))
        if name.endswith("simplefilter") and len(args) > 1:
            kwargs = dict(kwargs, category=args[1])
            args = args[:1]
        if not name.endswith("filter") and not name.endswith("filterwarnings"):
            return raw("call", name, *[V(a) for a in args])
        ip.effect(st, "filter", *[V(a) for a in args], *kwterms({k: V(v) for k, v in kwargs.items()}))
        return NONE
    if name == "lax.scan":
        return lax_scan(ip, args, kwargs, st)
    if name == "jax.lax.cond":
        pred = unmask(truth(V(args[0])))
        ops = args[3:]
        if "operand" in kwargs:
            ops = [kwargs["operand"]]
        if pred is TRUE or pred is FALSE:
            return ip.call(args[1] if pred is TRUE else args[2], ops, {}, st)
        s1, s2 = st.copy(), st.copy()
        a = V_(ip, ip.call(args[1], ops, {}, s1), s1)
        b = V_(ip, ip.call(args[2], ops, {}, s2), s2)
        ip.assign_state(st, ip.merge(pred, s1, s2))
        return zip_ite(pred, a, b)
    if name == "jax.lax.fori_loop" or name == "jax.lax.while_loop":
        return opaque("jax loop", *[V(a) for a in args])
    if name == "itertools.product":
        if set(kwargs) == {"repeat"} and V(kwargs["repeat"]).op == "const":
            args = args * V(kwargs["repeat"]).args[0]
            kwargs = {}
        if not kwargs and varsplat is None:
            return AL(product_([V(a) for a in args]))
    if name == "itertools.chain":
        its = []
        for a in args:
            its += items_of(V(a))
        if varsplat is None:
            return AL(seq("list", its))
    if name == "chain_from":
        its = []
        def flat(xs):
            o = []
            for i in xs:
                if i.op == "it":
                    o += items_of(i.args[0])
                elif i.op == "for":
                    vs, (n, *x) = unbind(i)
                    o.append(mk_for(vs[0], n, flat(x)))
                elif i.op == "if":
                    o += mk_if(i.args[0], flat(i.args[1].args), flat(i.args[2].args))
                elif i.op == "sp":
                    x = fresh("i")
                    o.append(mk_for(x, length(i.args[0]), items_of(getitem(i.args[0], x))))
            return o
        return AL(seq("list", flat(items_of(V(args[0])))))
    if name == "collections.OrderedDict" or name == "collections.defaultdict" and not args:
        return call_builtin(ip, "dict", args, kwargs, st, kwsplat, varsplat)
    if name.startswith("py."):
        a = [V(x) for x in args]
        op = name[3:]
        if len(a) == 2:
            if op == "add": return add(*a)
            if op == "mul": return mul(*a)
            if op == "sub": return tm.sub(*a)
            if op == "div": return tm.div(*a)
            if op == "pow": return tm.power(*a)
            if op == "and": return band(maskify(a[0]), maskify(a[1]))
            if op == "or": return bor(maskify(a[0]), maskify(a[1]))
            if op == "eq": return eq(*a)
            if op == "ne": return bnot(eq(*a))
            if op == "gt": return gt(*a)
            if op == "lt": return lt(*a)
        if len(a) == 1:
            if op == "neg": return tm.neg(a[0])
            if op == "not": return bnot(maskify(a[0]))
            if op == "square": return mul(a[0], a[0])
    if name == "dags.concatenate_functions" and not ip.reify_names:
        ip.reify_names = True
        try:
            return call_lib(ip, name, args, kwargs, st, kwsplat, varsplat)
        finally:
            ip.reify_names = False
    # frozen args from here on
    a = [V(x) for x in args] if not (args and name in DERIVATIVES and args[0].op in ("fn", "partial")) \
        else [args[0]] + [V(x) for x in args[1:]]
    kw = {k: V(v) for k, v in kwargs.items()}
    if varsplat is not None:
        a.append(raw("sp", V(varsplat)))
    if name in ("jax.grad", "jax.vmap", "jax.jacfwd", "jax.jacrev", "jax.value_and_grad"):
        nm = "jax.jac" if name in ("jax.jacfwd", "jax.jacrev", "jax.jacobian") else name
        return raw("call", nm, *a, *kwterms(kw))
    if name in SIG and varsplat is None:
        if name == "np.reshape" and False:
            pass
        a, kw = norm_args(SIG[name], a, kw)
    r = np_simplify(ip, name, a, kw, st)
    if r is None:
        if name.startswith("np.random.") or ".random." in name:
            r = rng(ip, name, a, kw, st)
        else:
            t = kwterms(kw)
            if kwsplat is not None:
                t.append(raw("kwsp", V(kwsplat)))
            if name in ("go.Figure",) and not a and not t:
                r = raw("call", name)
            elif t and t[-1].op == "kwsp":
                r = raw("call", name, *a, *t)
            else:
                r = mkcall(name, a, kw)
    if name in MUTABLE and r.op == "call":
        return AL(r)
    return r


# the function is turned into a term once the number of its arguments is known (Interp.derivative)
DERIVATIVES = ("jax.grad", "jax.jacfwd", "jax.jacrev", "jax.value_and_grad")


def rng(ip, name, a, kw, st):
    base = raw("rng", name, seq("tuple", [it(v) for v in ip.loopvars]), *a, *kwterms(kw))
    k = 0
    for e in st.store[("eff",)].args[1:]:
        if e.op == "it" and e.args[0].op == "effect" and e.args[0].args[0] == "rng" and e.args[0].args[1] is base:
            k += 1
    ip.effect(st, "rng", base)
    return raw("draw", base, const(k)) if k else raw("draw", base)


def V_(ip, v, st):
    return ip.val(v, st)


def zip_ite(c, a, b):
    """phi pushed into identical container shapes"""
    if a is b:
        return a
    if a.op == b.op == "seq" and a.args[0] == b.args[0] and len(a.args) == len(b.args) and \
            all(x.op == "it" for x in a.args[1:] + b.args[1:]):
        return seq(a.args[0], [it(zip_ite(c, x.args[0], y.args[0])) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == b.op == "upd" and a.args[0] is EMPTYDICT and b.args[0] is EMPTYDICT:
        da = {i.args[0]: i.args[1] for i in a.args[1:] if i.op == "pair"}
        db = {i.args[0]: i.args[1] for i in b.args[1:] if i.op == "pair"}
        if set(da) == set(db) and len(da) == len(a.args) - 1 == len(b.args) - 1:
            return upd(EMPTYDICT, [pair(k, zip_ite(c, da[k], db[k])) for k in da])
    return ite(c, a, b)


def flatten(t, path=()):
    """pytree leaves of a frozen term"""
    if t.op == "upd" and t.args[0] is EMPTYDICT and all(i.op == "pair" and i.args[0].op == "const" for i in t.args[1:]):
        out = []
        for i in t.args[1:]:
            out += flatten(i.args[1], path + (i.args[0],))
        return out
    if t.op == "seq" and all(i.op == "it" for i in t.args[1:]) and t.args[0] in ("tuple", "list"):
        out = []
        for k, i in enumerate(t.args[1:]):
            out += flatten(i.args[0], path + (const(k),))
        return out
    if t.op == "emptydict" or t is NONE:
        return []
    return [(path, t)]


def rebuild(t, f, path=()):
    if t.op == "upd" and t.args[0] is EMPTYDICT and all(i.op == "pair" and i.args[0].op == "const" for i in t.args[1:]):
        return upd(EMPTYDICT, [pair(i.args[0], rebuild(i.args[1], f, path + (i.args[0],))) for i in t.args[1:]])
    if t.op == "seq" and all(i.op == "it" for i in t.args[1:]) and t.args[0] in ("tuple", "list"):
        return seq(t.args[0], [it(rebuild(i.args[0], f, path + (const(k),))) for k, i in enumerate(t.args[1:])])
    if t.op == "emptydict" or t is NONE:
        return t
    return f(path, t)


def getp(t, path):
    for k in path:
        t = getitem(t, k)
    return t


def lax_scan(ip, args, kwargs, st):
    f = args[0]
    init = ip.val(kwargs.get("init", args[1] if len(args) > 1 else NONE), st)
    xs = ip.val(kwargs.get("xs", args[2] if len(args) > 2 else NONE), st)
    for k in kwargs:
        if k not in ("init", "xs", "f"):
            return opaque("scan option " + k)
    leaves = sorted(flatten(init), key=lambda pl: pl[1].id)
    xl = flatten(xs)
    i = fresh("i")
    cv = {p: fresh("c") for p, _ in leaves}
    carry = rebuild(init, lambda p, t: cv[p])
    x = rebuild(xs, lambda p, t: getitem(t, i))
    n = length(xl[0][1]) if xl else opaque("scan length")
    s2 = st.copy()
    r = ip.val(ip.call(f, [carry, x], {}, s2), s2)
    st.store[("eff",)] = s2.store[("eff",)]
    nc, y = getitem(r, ZERO), getitem(r, ONE)
    step = bind("lam", [i] + [cv[p] for p, _ in leaves],
                [seq("tuple", [it(getp(nc, p)) for p, _ in leaves])])
    S = raw("scan", step, n, *[l for _, l in leaves])
    pos = {p: k for k, (p, _) in enumerate(leaves)}
    final = rebuild(init, lambda p, t: raw("scanfinal", S, const(pos[p])))
    ys = rebuild(y, lambda p, t: raw("scanout", bind("lam", [i] + [cv[q] for q, _ in leaves], [t]), S))
    return seq("tuple", [it(final), it(ys)])


def call_builtin(ip, n, args, kwargs, st, kwsplat, varsplat):
    V = lambda x: ip.val(x, st)
    C = lambda x: ip.content(x.args[0], st) if x.op == "ref" else x
    AL = lambda x: ip.alloc(st, x)
    if varsplat is not None and n not in ("zip", "print", "max", "min"):
        return None
    if n == "len" and len(args) == 1:
        v = V(args[0])
        if v.op == "attr" and v.args[1] == "index":
            v = v.args[0]
        return length(v)
    if n == "range":
        a = [V(x) for x in args]
        if len(a) == 1:
            lo, hi = ZERO, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            if all(x.op == "const" for x in a):
                return seq("list", [it(const(k)) for k in range(*[x.args[0] for x in a])])
            return raw("call", "builtins.range", *a)
        i = fresh("i")
        return seq("list", [mk_for(i, tm.sub(hi, lo), [it(add(lo, i))])])
    if n == "enumerate":
        start = V(args[1]) if len(args) > 1 else V(kwargs.get("start", ZERO))
        c = C(args[0])
        if "ref" in c.flags and c.op == "seq":
            return AL(enumerate_(c, start))
        return AL(enumerate_(V(args[0]), start))
    if n == "zip":
        if varsplat is not None:
            return AL(raw("call", "zip*", *[V(a) for a in args], V(varsplat)))
        cs = [C(a) if "ref" in C(a).flags and C(a).op == "seq" else V(a) for a in args]
        return AL(zip_(cs))
    if n == "product":
        return None
    if n in ("list", "tuple"):
        if not args:
            s = seq(n, [])
        else:
            c = C(args[0])
            if "ref" in c.flags and c.op == "seq":
                s = seq(n, c.args[1:])
            else:
                s = seq(n, items_of(V(args[0])))
        return AL(s) if n == "list" else s
    if n in ("set", "frozenset"):
        if not args:
            return AL(raw("setof", seq("list", [])))
        v = V(args[0])
        r = v if v.op == "setof" else raw("setof", seq("list", items_of(v)))
        return AL(r) if n == "set" else r
    if n == "sorted":
        v = V(args[0])
        kw = {k: V(x) for k, x in kwargs.items()}
        if kw.get("reverse") is FALSE:
            del kw["reverse"]
        v = strip_seqwrap(v) if v.op in ("seq",) and len(v.args) == 2 else v
        if v.op == "sorted" and not kw:
            return AL(v)
        return AL(raw("sorted", v, *kwterms(kw)))
    if n == "reversed":
        return AL(rev(V(args[0])))
    if n == "iter":
        return args[0]
    if n == "next":
        v = V(args[0])
        its = items_of(v)
        if its and its[0].op == "it":
            return its[0].args[0]
        if len(args) > 1:
            return raw("next", v, V(args[1]))
        return getitem(v, ZERO) if v.op != "setof" else raw("next", v)
    if n == "dict":
        cur = EMPTYDICT
        if args:
            c = C(args[0])
            if c.op in ("upd", "emptydict") or kind(c) == "dict":
                cur = c
            elif c.op == "seq":
                cur = upd(EMPTYDICT, pairs_to_dict(list(c.args[1:])))
            elif kind(c) == "list":
                cur = upd(EMPTYDICT, pairs_to_dict(items_of(V(args[0]))))
            else:
                cur = raw("dictof", V(c))
        if kwsplat is not None:
            cur = dict_merge(cur, kwsplat)
        if kwargs:
            cur = upd(cur, [pair(const(k), v) for k, v in kwargs.items()])
        r = AL(cur)
        if args and args[0].op == "ref" and args[0].args[0] in st.ext:
            nm, own = st.ext[args[0].args[0]]
            st.ext[r.args[0]] = (nm, (own or 0) + 1)
        return r
    if n in ("any", "all"):
        v = V(args[0])
        its = items_of(v)
        return py_any(its) if n == "any" else py_all(its)
    if n == "sum":
        v = V(args[0])
        start = V(args[1]) if len(args) > 1 else V(kwargs.get("start", ZERO))
        if v.op not in ("seq",) and kind(v) not in ("list", "tuple"):
            return add(start, raw("call", "np.sum", v)) if start is not ZERO else raw("call", "np.sum", v)
        return py_sum(items_of(v), start)
    if n in ("max", "min") and not kwargs and varsplat is None:
        if len(args) == 1:
            v = V(args[0])
            its = items_of(v)
            if simple_items(its) and its and all(x.args[0].op == "const" for x in its):
                f = max if n == "max" else min
                return const(f(x.args[0].args[0] for x in its))
            return raw("call", "np." + n, v if v.op != "seq" or len(v.args) != 2 or v.args[1].op != "sp" else v.args[1].args[0])
        a = [V(x) for x in args]
        if all(x.op == "const" for x in a):
            return const((max if n == "max" else min)(x.args[0] for x in a))
        return raw("call", "np.maximum" if n == "max" else "np.minimum", *sorted(set(a), key=lambda t: t.id))
    if n == "map":
        f, c = args[0], V(args[1])
        if len(args) == 2:
            return AL(seq("list", map_items(items_of(c), lambda x: V(ip.call(f, [x], {}, st)))))
    if n == "filter" and len(args) == 2:
        f, c = args[0], V(args[1])
        i = fresh("i")
        e = getitem(c, i)
        g = truth(V(ip.call(f, [e], {}, st)) if f is not NONE else e)
        return AL(seq("list", [mk_for(i, length(c), mk_if(g, [it(e)], []))]))
    if n == "isinstance":
        v = C(args[0])
        t = V(args[1])
        ts = [x.args[0] for x in t.args[1:]] if t.op == "seq" else [t]
        r = FALSE
        for x in ts:
            nm = x.args[0] if x.op == "lib" else show(x)
            if nm.startswith("builtins."):
                nm = nm[9:]
            if v.op in ("fn", "lib", "partial"):
                rr = FALSE
            else:
                rr = mk("isinstance", V(v), nm)
            r = bor(r, rr)
        return r
    if n == "callable":
        v = C(args[0])
        if v.op in ("fn", "lib", "lam", "partial"):
            return TRUE
        if kind(V(v)) in ("str", "list", "dict", "tuple", "none", "int", "df"):
            return FALSE
        return is_callable(V(v))
    if n == "hasattr":
        nm = V(args[1])
        v = C(args[0])
        if v.op == "fn" and nm.op == "const":
            f = ip.fns[v.args[0]]
            if nm.args[0] in f.__dict__.get("attrs", {}) or nm.args[0].startswith("__") and nm.args[0] in ("__name__",):
                return TRUE
            if f.wrapped is not None:
                return call_builtin(ip, n, [f.wrapped, args[1]], {}, st, None, None)
            return FALSE
        return raw("hasattr", V(v), nm)
    if n == "getattr":
        nm = V(args[1])
        b = args[0]
        c = C(b)
        if nm.op == "const":
            from .interp import Frame
            fr = Frame(ip, None, -1, (), "getattr")
            if len(args) == 3 and c.op == "fn":
                h = call_builtin(ip, "hasattr", args[:2], {}, st, None, None)
                if h is FALSE:
                    return args[2]
            v = fr.getattr(b, nm.args[0], st)
            if len(args) == 3 and c.op not in ("fn", "mod"):
                return ite(raw("hasattr", V(c), nm), v, args[2])
            return v
        if c.op in ("mod", "lib"):
            return raw("modattr", c.args[0], nm, *([V(args[2])] if len(args) > 2 else []))
        return raw("getattr", V(c), nm)
    if n == "setattr" and args[0].op == "fn" and V(args[1]).op == "const":
        ip.fns[args[0].args[0]].__dict__.setdefault("attrs", {})[V(args[1]).args[0]] = args[2]
        return NONE
    if n == "str":
        return mk("str", V(args[0])) if args else const("")
    if n == "repr":
        return raw("repr", V(args[0]))
    if n in ("int", "float", "bool") and len(args) == 1:
        v = V(args[0])
        if n == "bool":
            return truth(v)
        if v.op == "const" and isinstance(v.args[0], (int, float)):
            return const(int(v.args[0]) if n == "int" else v.args[0])
        if v.op == "const" and isinstance(v.args[0], str):
            try:
                return const(float(v.args[0]) if n == "float" else int(v.args[0]))
            except ValueError:
                pass
        if n == "int" and is_intval(v):
            return v
        if n == "float":
            return v if is_num(v) else raw("call", "builtins.float", v)
        return raw("int", v)
    if n == "abs":
        return raw("call", "np.abs", V(args[0]))
    if n == "round":
        return None
    if n == "print":
        ip.effect(st, "print", *[V(a) for a in args])
        return NONE
    if n == "type":
        return raw("call", "builtins.type", V(args[0]))
    if n == "slice":
        a = [V(x) for x in args]
        if len(a) == 1:
            return slice_(NONE, a[0], NONE)
        return slice_(*(a + [NONE] * (3 - len(a))))
    if n == "id" or n == "hash":
        ip.effect(st, "nondet", n)
        return raw("call", "builtins." + n, V(args[0]))
    if n == "open":
        ip.effect(st, "open", *[V(a) for a in args])
        return raw("call", "open", *[V(a) for a in args])
    if n == "pow" and len(args) == 2:
        return tm.power(V(args[0]), V(args[1]))
    if n == "divmod":
        return None
    return None


def rev(v):
    its = items_of(v)
    if simple_items(its):
        return seq("list", its[::-1])
    i = fresh("i")
    s = seq_of(v)
    n = length(s)
    return seq("list", [mk_for(i, n, [it(getitem(s, tm.sub(tm.sub(n, i), ONE)))])])


def prod_shape(s):
    r = ONE
    for i in s.args[1:]:
        r = mul(r, i.args[0])
    return r


def swapneg(c, x, y):
    if c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE:
        return c.args[0], y, x
    return c, x, y


def np_simplify(ip, name, a, kw, st):
    if name == "np.where" and set(kw) == {"x", "y"}:
        c, x, y = swapneg(maskify(a[0]), kw["x"], kw["y"])
        if x is y:
            return x
        if c in (TRUE, FALSE) and all(z.op in ("const", "poly") or z.op == "call" and z.args[0] == "np.sum" and len(z.args) == 2 for z in (x, y)):
            return x if c is TRUE else y
        return raw("call", "np.where", c, x, y)
    if name in ("np.asarray", "np.array", "np.atleast_1d_"):
        return arr(a[0], kw.get("dtype")) if a else None
    if name in ("np.isnan", "pd.isnull", "pd.isna") and not kw:
        return raw("isnan", a[0])
    if name in ("pd.notnull", "pd.notna"):
        return bnot(raw("isnan", a[0]))
    if name == "np.isfinite":
        return raw("isfinite", a[0])
    if name == "np.diff" and len(a) == 1 and not kw and tm.kind(a[0]) == "list":
        x = [raw("call", "np.array", mk("getitem", a[0], mk("slice", *z))) for z in ((ONE, tm.NONE, tm.NONE), (tm.NONE, tm.const(-1), tm.NONE))]
        return tm.sub(*x)
    if name == "np.isin":
        return raw("isin", a[0], a[1])
    if name in ("np.any", "np.all"):
        m = maskify(a[0])
        op = "anyof" if name == "np.any" else "allof"
        if op == "allof":
            return bnot(mk("anyof", bnot(m), *kwterms(kw)))
        return mk("anyof", m, *kwterms(kw))
    if name == "np.stack" and False:
        return None
    if name == "np.dot" or name == "np.matmul":
        return np_dot(a[0], a[1])
    if name == "np.arange":
        if set(kw) == {"stop"} and a[0] is ZERO:
            return raw("call", "np.arange", kw["stop"])
    if name == "np.transpose" and not kw:
        return transpose(a[0])
    if name == "np.reshape":
        return reshaped(a[0], a[1], kw)
    if name == "np.ravel":
        return reshape(column_order(a[0], {"order": a[1]} if len(a) > 1 else kw), const(-1))
    if name in ("np.exp",) and a[0].op == "call" and a[0].args[0] == "np.log" and False:
        return a[0].args[1]
    if name in ("np.isscalar",):
        if kind(a[0]) in ("list", "dict", "tuple", "none", "df"):
            return FALSE
        if kind(a[0]) in ("int", "str", "bool", "num", "float"):
            return TRUE
        if a[0].op == "getitem" and a[0].args[0].op == "scanout" or a[0].op == "call" and str(a[0].args[0]).startswith(("U.pp_", "U.ku_", "U.kp_")):
            return FALSE
        if a[0].op in ("scanout", "deriv") or a[0].op == "call" and a[0].args[0] in (
                "U.soft_clipping", "np.array", "np.where", "np.log", "np.exp", "np.repeat", "np.reshape", "np.dot", "np.concatenate"):
            return FALSE  # results of jax operations are arrays, also zero-dimensional ones
        return raw("isscalar", a[0])
    if name == "np.clip":
        pass
    if name == "np.zeros" or name == "np.ones" or name == "np.full":
        s = a[0]
        if s.op == "seq" and len(s.args) == 2 and s.args[1].op == "it":
            s = s.args[1].args[0]
        if s.op == "seq":
            s = seq("tuple", s.args[1:])
        if name == "np.full" and a[1] is ZERO:
            return raw("call", "np.zeros", s, *kwterms(kw))
        if name == "np.full" and a[1] is ONE:
            return raw("call", "np.ones", s, *kwterms(kw))
        return raw("call", name, s, *a[1:], *kwterms(kw))
    if name == "np.fill_diagonal":
        return None
    if name == "pd.concat":
        x = a[0]
        if x.op == "seq":
            x = seq("list", x.args[1:])
        kw2 = dict(kw)
        ax = kw2.get("axis")
        if ax is const("columns"):
            kw2["axis"] = ONE
        if ax is const("index") or ax is const("rows"):
            del kw2["axis"]
        return raw("call", "pd.concat", x, *kwterms(kw2))
    if name == "dict.fromkeys" or name == "builtins.dict.fromkeys":
        v = a[1] if len(a) > 1 else NONE
        return upd(EMPTYDICT, pairs_to_dict(map_items(items_of(a[0]), lambda k: seq("tuple", [it(k), it(v)]))))
    return None


def column_order(x, kw):
    """the array whose elements, row by row, are those of x in the requested order"""
    o = kw.get("order")
    if o is None or o.op == "const" and o.args[0] in ("C", "K", "A"):
        return x
    return transpose(x) if o.op == "const" and o.args[0] == "F" else raw("call", "reordered", x, o)


def reshaped(x, s, kw):
    y = column_order(x, kw)
    if y is x:
        return reshape(x, s)
    if s.op == "seq" and all(i.op == "it" for i in s.args[1:]):
        if len(s.args) == 2:
            return reshape(y, s)
        return transpose(reshape(y, seq("tuple", s.args[:0:-1])))
    return raw("call", "reordered", y, s)


def reshape(x, s):
    if s.op == "seq" and len(s.args) == 2 and s.args[1].op == "it":
        s = s.args[1].args[0]
    if s.op == "seq":
        s = seq("tuple", s.args[1:])
    # reshape(reshape(x, s1), s2) -> reshape(x, s2) when s2 has no -1 relative to lost info (always valid)
    if x.op == "call" and x.args[0] == "np.reshape":
        x = x.args[1]
    if s is const(-1) and x.op == "call" and x.args[0] == "np.full" and len(x.args) == 3 and x.args[1].op == "seq" and len(x.args[1].args) == 3 \
            and all(i.op == "it" for i in x.args[1].args[1:]):
        n, m = (i.args[0] for i in x.args[1].args[1:])
        v = x.args[2]
        if v.op == "call" and v.args[0] == "np.arange" and len(v.args) == 2 and v.args[1] is m:
            return raw("call", "np.tile", v, n)     # every row is v
    return raw("call", "np.reshape", x, s)


# ------------------------------------------------------------------ methods
NPMETH = {"sum": "np.sum", "mean": "np.mean", "max": "np.max", "min": "np.min", "any": "np.any", "all": "np.all",
          "prod": "np.prod", "repeat": "np.repeat", "dot": "np.dot", "transpose": "np.transpose", "swapaxes": "np.swapaxes",
          "cumsum": "np.cumsum"}
MUTMETH = {"update_layout", "add_trace", "update_traces", "update_xaxes", "update_yaxes", "update_scenes",
           "add_traces", "add_vline", "add_hline", "add_annotation", "update_annotations", "write_image"}


def call_method(ip, name, obj, args, kwargs, st, kwsplat=None, varsplat=None, obj_loc=None):
    V = lambda x: ip.val(x, st)
    C = lambda x: ip.content(x.args[0], st) if x.op == "ref" else x
    AL = lambda x: ip.alloc(st, x)
    c = C(obj)
    if c.op == "ite" and kind(c) is None and name not in ("append", "extend", "update", "add") and "ref" in c.flags:
        # dispatch over phi of objects
        a = call_method(ip, name, c.args[1], args, kwargs, st, kwsplat, varsplat)
        b = call_method(ip, name, c.args[2], args, kwargs, st, kwsplat, varsplat)
        return ite(c.args[0], V(a), V(b))

    def loc():
        if obj.op == "ref":
            return (obj.args[0], ())
        if obj_loc is not None and obj_loc[0] != "name":
            return obj_loc
        nm = ip.ext_rooted(V(obj))
        if nm:
            ip.note_mut(st, nm, False)
        return None

    def mutate(f):
        if obj.op == "ite" and ip.refs_only(obj):
            ip.mutate_phi(obj, tm.TRUE, st, f)
            return
        l = loc()
        if l is None:
            ip.effect(st, "lost-mutation", name, V(obj))
            if obj_loc is not None and obj_loc[0] == "name":
                # the container it came from is not updated, the variable itself is
                obj_loc[1].rebind(obj_loc[2], AL(f(V(obj))), st)
            return
        ip.mutate(l, st, f)
    k = kind(c)
    # ------------- strings
    if k == "str" or name in ("format", "join_", "startswith", "endswith", "lower", "upper", "strip", "split", "title") and k is None and not isinstance(c, type(None)) and name in ("startswith", "endswith", "format", "lower", "upper", "strip", "split"):
        s = V(c)
        a = [V(x) for x in args]
        r = str_method(ip, name, s, a, {q: V(x) for q, x in kwargs.items()})
        if r is not None:
            return r
    # ------------- sequence mutation
    if name == "append" and len(args) == 1:
        x = args[0]
        mutate(lambda o: seq(o.args[0] if o.op == "seq" else "list", _its(o) + [it(x)]))
        return NONE
    if name == "extend" and len(args) == 1:
        from .interp import Frame
        fr = Frame(ip, None, -1, (), "ext")
        its = fr.iter_items(args[0], st)
        mutate(lambda o: seq("list", _its(o) + its))
        return NONE
    if name == "insert" and len(args) == 2 and (k == "list" or c.op == "seq"):
        p = V(args[0])
        if p is ZERO:
            mutate(lambda o: seq("list", [it(args[1])] + _its(o)))
        else:
            mutate(lambda o: raw("upd", o, raw("mutop", "insert", p, V(args[1]))))
        return NONE
    if name in ("remove", "sort", "reverse", "clear") and (k in ("list", "set", None, "dict")):
        a = [V(x) for x in args]
        kk = kwterms({q: V(x) for q, x in kwargs.items()})
        if name == "clear" and k == "dict":
            mutate(lambda o: EMPTYDICT)
        elif name == "sort":
            mutate(lambda o: raw("sorted", ip.val(o, st), *kk))
        elif name == "reverse":
            mutate(lambda o: rev(ip.val(o, st)))
        else:
            mutate(lambda o: raw("upd", o, raw("mutop", name, *a, *kk)))
        return NONE
    if name == "pop" and (k in ("list", "dict", None)):
        a = [V(x) for x in args]
        if k == "list" or (not a):
            i = a[0] if a else const(-1)
            v = getitem(c, i)
            if i is ZERO:
                mutate(lambda o: getitem(ip.val(o, st), slice_(ONE, NONE)))
            elif i is const(-1):
                mutate(lambda o: getitem(ip.val(o, st), slice_(NONE, const(-1))))
            else:
                mutate(lambda o: raw("upd", o, raw("mutop", "pop", i)))
            return v
        v = getitem(c, a[0])
        if len(a) > 1:
            v = ite(mk("in", a[0], V(c)), v, a[1])
        mutate(lambda o: dict_del(o, a[0]))
        return v
    if name == "add" and (c.op == "setof" or k == "set"):
        mutate(lambda o: raw("setof", seq("list", items_of(o.args[0]) + [it(V(args[0]))])) if o.op == "setof" else raw("upd", o, raw("mutop", "add", V(args[0]))))
        return NONE
    if name == "setdefault" and k in ("dict", None) and args:
        kk = V(args[0])
        d = args[1] if len(args) > 1 else NONE
        present = mk("in", kk, V(c))
        cur = getitem(c, kk)
        if present is not TRUE:
            nv = ite(present, cur, d)
            if d.op == "ref" and present is not FALSE:
                nv = ite(present, V(cur), V(d))
            mutate(lambda o: upd(o, [pair(kk, nv)]))
            return nv
        return cur
    if name == "update" and k in ("dict", None) and c.op != "call":
        def f(o):
            cur = o
            for x in args:
                cx = C(x)
                if cx.op == "seq":
                    cx = upd(EMPTYDICT, pairs_to_dict(list(cx.args[1:])))
                cur = dict_merge(cur, cx)
            if kwsplat is not None:
                cur = dict_merge(cur, kwsplat)
            if kwargs:
                cur = upd(cur, [pair(const(q), v) for q, v in kwargs.items()])
            return cur
        mutate(f)
        return NONE
    if name == "update" and (c.op == "setof" or k == "set"):
        mutate(lambda o: raw("setof", seq("list", items_of(o.args[0]) + items_of(V(args[0])))))
        return NONE
    # ------------- dict
    if name == "get" and args and (k in ("dict", None, "series")):
        kk = V(args[0])
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        pres = mk("in", kk, V(c))
        if pres is TRUE:
            return getitem(c, kk)
        if pres is FALSE:
            return d
        return ite(pres, getitem(c, kk), d)
    if name == "keys" and not args:
        kk = mk("keys", V(c))
        return kk
    if name == "items" and not args:
        if k == "dict" or c.op in ("upd", "emptydict") or k is None:
            return dict_items(c if "ref" in c.flags and c.op == "upd" else V(c))
    if name == "values" and not args:
        di = dict_items(c if "ref" in c.flags and c.op == "upd" else V(c))
        return seq("list", map_items(items_of(di), lambda t: getitem(t, ONE)))
    if name == "copy" and not args:
        if k in ("dict", "list") or c.op in ("upd", "seq", "emptydict"):
            r = AL(c)
            if obj.op == "ref" and obj.args[0] in st.ext:
                nm, own = st.ext[obj.args[0]]
                st.ext[r.args[0]] = (nm, (own or 0) + 1)
            return r
        v = V(c)
        r = AL(v)
        if kwargs.get("deep") is FALSE and obj.op == "ref" and obj.args[0] in st.ext:
            nm, own = st.ext[obj.args[0]]       # the columns are still those of the original
            st.ext[r.args[0]] = (nm, (own or 0) + 1)
        return r
    if name == "index" and len(args) == 1 and k not in ("str",):
        return raw("indexof", V(c), V(args[0]))
    if name == "count" and len(args) == 1:
        return raw("count", V(c), V(args[0]))
    # ------------- sets
    if name in ("union", "intersection", "difference", "issubset", "issuperset") and (c.op == "setof" or k == "set"):
        o = V(args[0]) if args else EMPTYDICT
        if name == "difference":
            return set_difference(V(c), o)
        if name == "union":
            if not args:
                return V(c)
            return raw("set_or", *sorted((V(c), o), key=lambda t: t.id))
        if name == "intersection":
            return raw("set_and", *sorted((V(c), o), key=lambda t: t.id))
        if name == "issubset":
            return tm.set_le(V(c), o)
        return tm.set_le(o, V(c))
    # ------------- functional array update
    ob = V(c)
    if ob.op == "getitem" and ob.args[0].op == "attr" and ob.args[0].args[1] == "at":
        base, kk = ob.args[0].args[0], ob.args[1]
        if name == "set":
            return upd(base, [pair(kk, V(args[0]))])
        if name in ("add", "subtract", "multiply", "divide", "mul"):
            g = getitem(base, kk)
            v = V(args[0])
            nv = {"add": add, "subtract": tm.sub, "multiply": mul, "mul": mul, "divide": tm.div}[name](g, v)
            return upd(base, [pair(kk, nv)])
    # ------------- figure-like mutators
    if name in MUTMETH:
        a = [V(x) for x in args]
        kk = kwterms({q: V(x) for q, x in kwargs.items()})
        if kwsplat is not None:
            kk.append(raw("kwsp", V(kwsplat)))
        mutate(lambda o: raw("upd", *(_updparts(o)), raw("mutop", name, *a, *kk)))
        return obj
    a = [V(x) for x in args]
    kw = {q: V(x) for q, x in kwargs.items()}
    # ------------- numpy-style methods
    if name == "reshape":
        if len(a) > 1:
            return reshaped(ob, seq("tuple", [it(x) for x in a]), kw)
        if a:
            return reshaped(ob, a[0], kw)
        if "shape" in kw:
            return reshaped(ob, kw["shape"], kw)
    if name in ("flatten", "ravel") and len(a) < 2:
        return reshape(column_order(ob, {"order": a[0]} if a else kw), const(-1))
    if name in ("to_numpy", "numpy", "__array__"):
        if "na_value" in kw and not (kw["na_value"].op == "attr" or kw["na_value"] is NAN):
            ob = raw("meth", "fillna", ob, *kwterms({"value": kw["na_value"]}))
        return arr(ob, a[0] if a else kw.get("dtype"))
    if name in ("to_list", "tolist") and not a:
        return AL(raw("meth", "tolist", unarr(ob)))
    if name in ("isna", "isnull") and not a:
        return raw("isnan", ob)
    if name in ("notna", "notnull") and not a:
        return bnot(raw("isnan", ob))
    if name == "isin":
        return raw("isin", ob, a[0])
    if name == "astype" and len(a) + len(kw) == 1:
        t = a[0] if a else list(kw.values())[0]
        return raw("meth", "astype", ob, t)
    if name in ("eq", "ne", "gt", "lt", "ge", "le") and len(a) == 1 and not kw:
        return {"eq": eq, "ne": lambda x, y: bnot(eq(x, y)), "gt": gt, "lt": lt, "ge": ge, "le": le}[name](ob, a[0])
    if name in ("mul", "add", "sub", "div") and len(a) == 1 and not kw:
        return {"mul": mul, "add": add, "sub": tm.sub, "div": tm.div}[name](ob, a[0])
    if name == "query" and len(a) >= 1:
        return query(ip, ob, a[0], kw, st)
    if name == "groupby":
        pass
    if name in NPMETH and varsplat is None and kwsplat is None:
        fn = NPMETH[name]
        if fn == "np.transpose" and len(a) > 1:
            a = [seq("tuple", [it(x) for x in a])]
        pos, kws = norm_args(SIG[fn], [ob] + a, kw) if fn in SIG else ([ob] + a, kw)
        r = np_simplify(ip, fn, pos, kws, st)
        return r if r is not None else mkcall(fn, pos, kws)
    # ------------- pandas / generic
    if name in MSIG and varsplat is None:
        a, kw = norm_args(MSIG[name], a, kw)
    inplace = kw.pop("inplace", None)
    t = kwterms(kw)
    if kwsplat is not None:
        t.append(raw("kwsp", V(kwsplat)))
    if varsplat is not None:
        a.append(raw("sp", V(varsplat)))
    if name == "assign" and not a and kwsplat is None:
        its = []
        for q, v in kwargs.items():
            cv = C(v)
            if cv.op in ("fn", "lam"):
                vv = V(ip.call(cv, [ob], {}, st))
            else:
                vv = V(v)
            its.append(pair(const(q), vv))
        return AL(upd(ob, its))
    if name == "rename" and "columns" in kw and "axis" not in kw:
        pass
    if name == "drop" and "axis" in kw and "labels" in kw:
        ax = kw.pop("axis")
        lb = kw.pop("labels")
        if ax is ONE or ax is const("columns"):
            kw["columns"] = lb
        elif ax is ZERO or ax is const("index"):
            kw["index"] = lb
        else:
            kw["axis"], kw["labels"] = ax, lb
        t = kwterms(kw)
    elif name == "drop" and "labels" in kw:
        kw["index"] = kw.pop("labels")
        t = kwterms(kw)
    if name == "reindex" and "labels" in kw:
        ax = kw.pop("axis", ZERO)
        lb = kw.pop("labels")
        kw["columns" if ax in (ONE, const("columns")) else "index"] = lb
        t = kwterms(kw)
    if name == "sample" or name == "resample" and ob.op == "call" and "kde" in ob.args[0]:
        return rng(ip, "meth." + name, [ob] + a, kw, st)
    res = raw("meth", name, ob, *a, *t)
    if inplace is TRUE:
        mutate(lambda o: res)
        return NONE
    if name in ("reset_index", "set_index", "rename", "drop", "fillna", "dropna", "sort_index", "sort_values", "reindex",
                "add_suffix", "add_prefix", "round", "astype", "replace", "droplevel", "corr", "mean", "where", "join"):
        return AL(res)
    return res


def unarr(x):
    if x.op == "call" and x.args[0] == "np.array" and len(x.args) == 2:
        return x.args[1]
    return x


def _updparts(o):
    if o.op == "upd":
        return list(o.args)
    return [o]


def _its(o):
    if o.op == "seq":
        return list(o.args[1:])
    if o.op == "emptydict":
        return []
    return [raw("sp", o)]


def dict_del(o, k):
    if o.op == "upd":
        its = list(o.args[1:])
        if its and its[-1].op == "pair" and its[-1].args[0] is k and o.args[0] is EMPTYDICT:
            return upd(EMPTYDICT, its[:-1])
        if all(i.op == "pair" and (i.args[0] is k or definitely_distinct(i.args[0], k)) for i in its) and o.args[0] is EMPTYDICT:
            return upd(EMPTYDICT, [i for i in its if i.args[0] is not k])
    return upd(o, [raw("del", k)])


def str_method(ip, name, s, a, kw):
    allc = s.op == "const" and all(x.op == "const" for x in a) and not kw
    if allc and name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "split",
                         "title", "capitalize", "isdigit", "removeprefix", "removesuffix"):
        r = getattr(s.args[0], name)(*[x.args[0] for x in a])
        if isinstance(r, list):
            return seq("list", [it(const(x)) for x in r])
        return const(r)
    if name == "join":
        its = items_of(a[0])
        if simple_items(its):
            parts = []
            for k, i in enumerate(its):
                if k:
                    parts.append(s)
                parts.append(i.args[0])
            return cat(*parts) if parts else const("")
        return raw("join", s, seq("list", its))
    if name == "format" and s.op == "const":
        import string
        parts, k = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s.args[0]):
                parts.append(const(lit))
                if fld is None:
                    continue
                if spec or conv:
                    return None
                if fld == "":
                    parts.append(a[k])
                    k += 1
                elif fld.isdigit():
                    parts.append(a[int(fld)])
                elif fld in kw:
                    parts.append(kw[fld])
                else:
                    return None
        except (ValueError, IndexError):
            return None
        return cat(*parts)
    if name in ("startswith", "endswith"):
        if s.op == "cat" and a[0].op == "const" and isinstance(a[0].args[0], str):
            e = s.args[0] if name == "startswith" else s.args[-1]
            if e.op == "const":
                f = getattr(e.args[0], name)
                if f(a[0].args[0]):
                    return TRUE
                if len(e.args[0]) >= len(a[0].args[0]):
                    return FALSE
        return raw(name, s, *a)
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "capitalize", "removeprefix", "removesuffix"):
        return raw("str", raw("smeth", name, s, *a))
    return None


# ------------------------------------------------------------------ query strings
def query(ip, df, q, kw, st):
    parts = []
    holes = {}
    for p in (q.args if q.op == "cat" else (q,)):
        if p.op == "const":
            parts.append(str(p.args[0]))
        else:
            x = p.args[0] if p.op in ("str",) else p
            n = f"HOLE{len(holes)}_"
            holes[n] = x
            parts.append(n)
    src = "".join(parts)
    # quoted holes: '{x}' is a string literal holding x
    for n in holes:
        for qt in "'\"":
            src = src.replace(qt + n + qt, n + "Q")
    src = src.replace("@", "AT_").replace("&", " and ").replace("|", " or ")
    try:
        e = ast.parse(src.strip(), mode="eval").body
    except SyntaxError:
        return raw("meth", "query", df, q)
    fr = ip.callframes[-1] if getattr(ip, "callframes", None) else None

    def ev(n):
        if isinstance(n, ast.Constant):
            return const(n.value)
        if isinstance(n, ast.Name):
            if n.id in holes:
                # unquoted hole inside a comparison: literal value or a column named so
                return holes[n.id]
            if n.id.endswith("Q") and n.id[:-1] in holes:
                return holes[n.id[:-1]]
            if n.id.startswith("AT_"):
                if fr is not None:
                    return ip.val(fr.lookup(n.id[3:], st)[0], st)
                return opaque("query local")
            return raw("qvar", const(n.id))
        if isinstance(n, ast.List) or isinstance(n, ast.Tuple):
            return seq("list", [it(ev(x)) for x in n.elts])
        if isinstance(n, ast.BoolOp):
            r = ev(n.values[0])
            for x in n.values[1:]:
                r = band(maskify(r), maskify(ev(x))) if isinstance(n.op, ast.And) else bor(maskify(r), maskify(ev(x)))
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            return bnot(maskify(ev(n.operand)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return tm.neg(ev(n.operand))
        if isinstance(n, ast.Compare):
            l = ev(n.left)
            if isinstance(n.left, ast.Name) and n.left.id in holes and l.op != "const":
                l = raw("qvar", l)      # interpolated without quotes on the left of a comparison: a column name
            r = TRUE
            for o, x in zip(n.ops, n.comparators):
                y = ev(x)
                if isinstance(o, ast.Eq):
                    t = eq(l, y)
                elif isinstance(o, ast.NotEq):
                    t = bnot(eq(l, y))
                elif isinstance(o, ast.In):
                    t = raw("isin", l, y)
                elif isinstance(o, ast.NotIn):
                    t = bnot(raw("isin", l, y))
                elif isinstance(o, ast.Lt):
                    t = lt(l, y)
                elif isinstance(o, ast.Gt):
                    t = gt(l, y)
                elif isinstance(o, ast.LtE):
                    t = le(l, y)
                else:
                    t = ge(l, y)
                r = band(r, t)
                l = y
            return r
        if isinstance(n, ast.BinOp):
            l, r = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add):
                return add(l, r)
            if isinstance(n.op, ast.Sub):
                return tm.sub(l, r)
            if isinstance(n.op, ast.Mult):
                return mul(l, r)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) == 1 and not n.keywords:
            o, f = n.func.value, n.func.attr
            if isinstance(o, ast.Attribute) and o.attr == "str" and f in ("startswith", "endswith", "contains"):
                l, y = ev(o.value), ev(n.args[0])
                return raw(f, l, y) if f != "contains" else raw("in", y, l)
            if f == "isin":
                return raw("isin", ev(o), ev(n.args[0]))
        return opaque("query")
    m = ev(e)
    return rows(df, m)


def is_callable(v):
    if v.op == "ite":
        return ite(v.args[0], is_callable(v.args[1]), is_callable(v.args[2]))
    if v.op in ("fn", "lib", "lam", "partial", "wraps", "named", "modattr"):
        return TRUE
    if v.op == "call" and v.args[0] in ("dags.signature.rename_arguments", "dags.concatenate_functions", "jax.vmap", "jax.jit"):
        return TRUE
    return raw("callable", v)
