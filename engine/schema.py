"""Symbolic inputs: the documented internal structures with named leaves."""
from . import terms as tm
from .terms import *


def IN(n, k=None, elem=None, elemelem=None):
    t = raw("in_", n, k)
    if elem:
        tm.ELEMKIND[t.id] = elem
    return t


def TY(n, ty):
    t = raw("in_", n, ty if isinstance(ty, str) else ty[0])
    tm.TYPES[t.id] = ty
    return t


def D(**kw):
    return upd(EMPTYDICT, [pair(const(k), v) for k, v in kw.items()])


def L(*xs):
    return seq("list", [it(x) for x in xs])


LF = IN("LATENT", "list", "str")
OF = IN("OBSERVED", "list", "str")
CTRL = IN("CONTROLS", "list", "str")        # user controls, without constant
NP = IN("N_PERIODS", "int")
NM = IN("N_MIX", "int")
SM = IN("STAGEMAP", "list", "int")
STAGES = IN("STAGES", "list", "int")
TN = IN("TRANSITION_NAMES", "list", "str")
tm.NONUNIQUE.add(SM.id)
tm.LENALIAS[TN.id] = LF
for t_ in (LF, OF, CTRL, TN):
    tm.TYPES[t_.id] = ("list", "str")
for t_ in (SM, STAGES):
    tm.TYPES[t_.id] = ("list", "int")


# ---- arrays: name -> declared shape
_ARR = {}


def N(n):
    return IN(n, "int")


def ARR(n, *dims, eager=False):
    t = IN(n, "arr")
    _ARR[t] = list(dims)
    if eager:
        tm.SHAPES[t.id] = list(dims)
    return t


def shapes():
    return dict(_ARR)


def _transition_rows(pw, t):
    """model['transition_info']['func'](coeffs, rows) maps rows of all factors to rows of latent factors (see C14)"""
    f = t.args[0]
    if f.op == "getitem" and f.args[1] is const("func") and len(t.args) == 3:
        s = pw.shape(t.args[2])
        return s[:-1] + [N("n_latent")]
    return None


ROWFN = [_transition_rows]


def periods():
    i = fresh("i")
    return seq("list", [tm.mk_for(i, NP, [it(i)])])


def labels():
    return D(latent_factors=LF, observed_factors=OF, controls=seq("list", [it(const("constant")), raw("sp", CTRL)]),
             periods=periods(), stagemap=SM, stages=STAGES, all_factors=seq("list", [raw("sp", LF), raw("sp", OF)]),
             transition_names=TN)


def dimensions():
    return D(n_latent_factors=length(LF), n_observed_factors=length(OF), n_periods=NP,
             n_controls=add(length(CTRL), ONE), n_mixtures=NM, n_all_factors=add(length(LF), length(OF)))


def model_dict():
    return IN("model_dict", "dict")


ATTACHED = {
    "labels": labels, "dimensions": dimensions, "model_dict": model_dict,
    "update_info": lambda: IN("update_info", "df"),
    "factors": lambda: LF, "controls": lambda: seq("list", [it(const("constant")), raw("sp", CTRL)]),
    "periods": periods, "n_mixtures": lambda: NM,
    "stagemap": lambda: SM, "stages": lambda: STAGES,
    "anchoring_info": lambda: TY("anchoring_info", ("dict", None, {"factors": ("list", "str"), "outcomes": ("dict", "str"), "ignore_constant_when_anchoring": "bool"})),
    "normalizations": lambda: TY("normalizations", ("dict", ("dict", ("list", ("dict", "float"))))),
    "transition_info": lambda: TY("transition_info", ("dict", None, {"param_names": ("dict", ("list", "str")), "individual_functions": ("dict", None)})),
    "params": lambda: IN("params", "df"), "params_df": lambda: IN("params_df", "df"),
    "data": lambda: IN("data", "df"), "df": lambda: IN("df", "df"),
}


def build(spec):
    """spec: iterable of names, or dict name -> term / None (schema default)."""
    out = {}
    if spec is None:
        return out
    if not isinstance(spec, dict):
        spec = {n: None for n in spec}
    for n, v in spec.items():
        if v is None:
            f = ATTACHED.get(n)
            v = f() if f else IN(n, None)
        elif callable(v):
            v = v()
        out[n] = v
    return out


def drop_keys(t, keys, memo=None):
    """remove dictionary entries with the given constant keys everywhere"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in BIND or t.op == "lam":
        vs, args = unbind(t)
        r = rebind(t, vs, [drop_keys(a, keys, memo) if isinstance(a, T) else a for a in args])
    elif t.op in ("upd", "body", "seqbody"):
        its = [a if not isinstance(a, T) else drop_keys(a, keys, memo) for a in t.args
               if not (isinstance(a, T) and a.op == "pair" and a.args[0].op == "const" and a.args[0].args[0] in keys)]
        r = upd(its[0], its[1:]) if t.op == "upd" else tm.mk(t.op, *its)
    elif any(isinstance(a, T) for a in t.args):
        r = tm.mk(t.op, *[drop_keys(a, keys, memo) if isinstance(a, T) else a for a in t.args])
    else:
        r = t
    memo[t.id] = r
    return r


def tmap(t, f, memo=None):
    """bottom-up rewriting"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in BIND or t.op == "lam":
        vs, args = unbind(t)
        r = rebind(t, vs, [tmap(a, f, memo) if isinstance(a, T) else a for a in args])
    elif any(isinstance(a, T) for a in t.args):
        r = tm.mk(t.op, *[tmap(a, f, memo) if isinstance(a, T) else a for a in t.args])
    else:
        r = t
    r = f(r)
    memo[t.id] = r
    return r


def blind(**ops):
    """replace stub calls by projections: name -> list of positions kept ([] = none)"""
    def f(t):
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("U."):
            n = t.args[0][2:]
            for k, keep in ops.items():
                if n == k or k.endswith("_") and n.startswith(k):
                    return raw("call", t.args[0], *[t.args[1 + i] for i in keep if 1 + i < len(t.args)])
        return t
    return lambda t: tmap(t, f)


# ---- lengths of the parameter blocks selected by label
def _blocks():
    n_lat, n_all = length(LF), add(length(LF), length(OF))
    u = N("n_updates")
    return {"initial_states": tm.mul(NM, n_lat), "mixture_weights": NM,
            "initial_cholcovs": tm.mul(NM, raw("tri_", n_lat)),
            "controls": tm.mul(u, add(length(CTRL), ONE)), "meas_sds": u, "shock_sds": tm.mul(add(NP, const(-1)), n_lat),
            "loadings": raw("count_", raw("in_", "FREE_LOADINGS", "arr"))}


def _block_leaf(pw, t):
    """params[positions of a category]: as many entries as the index has labels of that category (C12, index side)"""
    if t.op == "getitem" and t.args[0].op == "in_" and t.args[0].args[0] == "params":
        ks = set()
        consts(t.args[1], ks, set())
        ks &= set(_blocks())
        if len(ks) == 1:
            return [_blocks()[ks.pop()]]
    if t.op == "call" and t.args[0] == "np.array" and len(t.args) == 2 and t.args[1].op == "getitem":
        df, k = t.args[1].args
        if df.op == "in_" and df.args[0] == "update_info" and k is LF:
            return [N("n_updates"), length(LF)]
    if t.op == "call" and t.args[0] == "np.array" and len(t.args) == 2 and t.args[1].op == "eq":
        for x in t.args[1].args:
            if x.op == "getitem" and x.args[0].op == "in_" and x.args[0].args[0] == "update_info" and x.args[1].op == "const":
                return [N("n_updates")]
    if t.op == "anyof" and any(isinstance(a, T) and a.op == "kw" and a.args[0] == "axis" and a.args[1] is ZERO for a in t.args) and "update_info" in show(t, 8) and "LATENT" in show(t, 8):
        return [length(LF)]
    return None


def consts(t, out, seen):
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op == "const" and isinstance(t.args[0], str):
        out.add(t.args[0])
    for a in t.args:
        if isinstance(a, T):
            consts(a, out, seen)


from . import pw as _pw  # noqa: E402
_pw.LEAFSHAPES.append(_block_leaf)
_pw.BOOLLEAVES.append(lambda t: t.op == "getitem" and t.args[0].op == "in_" and t.args[0].args[0] == "update_info" and t.args[1] is LF)
