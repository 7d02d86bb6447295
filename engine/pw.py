"""Pointwise (index form) normal form of array code.

An array valued term is replaced by its element at symbolic indices: reshapes,
repeats, slices, concatenations, broadcasting, dot products, functional updates
and reductions become index arithmetic on the inputs, so that differently
written but equal array programs get the same scalar term.  Dimensions of the
inputs are declared by the obligation.
"""
from .terms import *
from . import terms as tm
from .lib import seq_of

ELEMENTWISE = {"np.exp", "np.log", "np.abs", "np.sqrt", "np.sin", "np.cos", "np.tanh", "np.sign", "np.log1p", "np.expm1",
               "np.nan_to_num", "np.round", "np.floor", "np.float64"}
ELEM2 = {"np.maximum", "np.minimum", "np.logaddexp", "norm.logpdf"}
BOOLATOM = {"eq", "gt0", "isnan", "isfinite", "mask", "startswith", "endswith"}
REDUCE = {"np.sum", "np.mean", "np.max", "np.min", "np.prod", "np.std", "np.var", "scipy.logsumexp", "anyof"}
FULL = None


class NoPW(Exception):
    pass


BOOLLEAVES = []  # f(term) -> True for boolean leaves
LEAFSHAPES = []  # f(pw, term) -> dims if the term is an atomic array of known shape


def cint(t):
    return t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool)


def kw_of(t, name, default=None):
    for a in t.args[1:]:
        if isinstance(a, T) and a.op == "kw" and a.args[0] == name:
            return a.args[1]
    return default


def pos_of(t):
    return [a for a in t.args[1:] if not (isinstance(a, T) and a.op in ("kw", "kwsp"))]


def plain_items(s):
    return s.op == "seq" and all(i.op == "it" for i in s.args[1:])


def tri_of(k):
    """np.tril_indices(n, k) -> (name, n)"""
    if k.op == "call" and k.args[0] in ("np.tril_indices", "np.triu_indices"):
        p = pos_of(k)
        off = kw_of(k, "k", p[1] if len(p) > 1 else ZERO)
        if kw_of(k, "m") is not None or len(p) > 2 or not cint(off):
            raise NoPW("tri arguments")
        return k.args[0] + ("" if off is ZERO else f"{off.args[0]:+d}"), p[0], off.args[0]
    return None


def tri_axis(x):
    """rows (0) or columns (1) of tril_indices"""
    if x.op == "call" and x.args[0] == "np.array" and len(x.args) == 2:
        x = x.args[1]
    if x.op == "getitem" and cint(x.args[1]) and x.args[1].args[0] in (0, 1):
        t = tri_of(x.args[0])
        if t is not None:
            return t, x.args[1].args[0]
    return None


def scalar_kind(t):
    return kind(t) in ("int", "float", "bool") or t.op in ("len", "sum_", "nan")


def exactdiv(a, b):
    """a / b for polynomials with integer exponents, or None"""
    if a is b:
        return ONE
    if b is ONE:
        return a
    pa, pb = tm.to_poly(a), tm.to_poly(b)
    if not pb:
        return None
    if not pa:
        return ZERO
    vs = sorted({v for m in list(pa) + list(pb) for v, _ in m})
    key = lambda m: (sum(x for _, x in m), tuple(dict(m).get(v, 0) for v in vs))
    lead = max(pb, key=key)
    quo = {}
    for _ in range(40):
        if not pa:
            return tm.from_poly(quo)
        m = max(pa, key=key)
        d = dict(m)
        for v, x in lead:
            d[v] = d.get(v, 0) - x
        if any(x < 0 for x in d.values()):
            return None
        q = tuple(sorted((v, x) for v, x in d.items() if x != 0))
        c = pa[m] / pb[lead]
        quo = tm.padd(quo, {q: c})
        pa = tm.padd(pa, tm.pmul({q: c}, pb), -1)
    return None


class PW:
    def __init__(self, shapes=None, funcs=None):
        """shapes: input term -> list of dims; funcs: predicate(term) -> result shape function"""
        self.sh = {k.id: list(v) for k, v in (shapes or {}).items()}
        self.keep = [k for k in (shapes or {})]
        self.funcs = funcs or []
        self.smemo, self.ememo, self.dmemo, self.nmemo = {}, {}, {}, {}
        self.prune_on = True
        self.fails = set()

    # ------------------------------------------------------------- dimensions
    def dim(self, t):
        """integer term with array sizes resolved"""
        if t.op in ("const", "in_", "var"):
            return t
        r = self.dmemo.get(t.id)
        if r is not None:
            return r
        m = {}
        for x in walk(t):
            if x.op == "getitem" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and cint(x.args[1]):
                s = self.shape_or_none(x.args[0].args[0])
                if s is not None:
                    try:
                        m[x.id] = s[x.args[1].args[0]]
                    except IndexError:
                        pass
            elif x.op == "len":
                s = self.shape_or_none(x.args[0])
                if s:
                    m[x.id] = s[0]
            elif x.op == "attr" and x.args[1] in ("size", "ndim"):
                s = self.shape_or_none(x.args[0])
                if s is not None:
                    m[x.id] = self.prod(s) if x.args[1] == "size" else const(len(s))
            elif x.op == "attr" and x.args[1] == "shape":
                s = self.shape_or_none(x.args[0])
                if s is not None:
                    m[x.id] = seq("tuple", [it(d) for d in s])
        r = tm.replace(t, m) if m else t
        self.dmemo[t.id] = r
        return r

    def prod(self, ds):
        r = ONE
        for d in ds:
            r = mul(r, d)
        return r

    def shape_or_none(self, t):
        try:
            return self.shape(t)
        except NoPW:
            return None

    def shape(self, t):
        r = self.smemo.get(t.id)
        if r is None:
            try:
                r = self._shape(t)
            except NoPW as e:
                self.smemo[t.id] = e
                raise
            self.smemo[t.id] = r
        if isinstance(r, NoPW):
            raise r
        return list(r)

    def bcast(self, shapes):
        n = max((len(s) for s in shapes), default=0)
        out = []
        for k in range(n):
            d = ONE
            for s in shapes:
                j = k - (n - len(s))
                if j >= 0 and s[j] is not ONE:
                    d = s[j]
            out.append(d)
        return out

    def _shape(self, t):
        if t.id in self.sh:
            return self.sh[t.id]
        op = t.op
        if op in ("getitem", "call", "meth", "anyof"):
            for f in LEAFSHAPES:
                s = f(self, t)
                if s is not None:
                    self.sh[t.id] = s
                    self.keep.append(t)
                    return s
        if op in ("const", "nan", "len", "var", "bv", "in", "isnone", "truth", "isinstance", "throws", "any", "el", "at"):
            return []
        if op == "in_":
            if kind(t) in ("int", "float", "bool", "num"):
                return []
            raise NoPW("shape of " + show(t, 2))
        if op == "lib":
            if t.args[0] in ("np.pi",):
                return []
            raise NoPW("shape of " + show(t, 2))
        if op == "poly":
            ss = []
            for m in t.args:
                for i in range(1, len(m.args), 2):
                    ss.append(self.shape(m.args[i]))
            return self.bcast(ss)
        if op == "sum":
            vs, (n, e) = unbind(t)
            return self.shape(e)
        if op == "ite":
            ss = [self.shape(t.args[1]), self.shape(t.args[2])]
            for a in [t.args[0]]:
                s = self.shape_or_none(a)
                if s:
                    ss.append(s)
            return self.bcast(ss)
        if op in BOOLATOM:
            return self.bcast([self.shape(a) for a in t.args if isinstance(a, T)])
        if op == "pow":
            return self.bcast([self.shape(t.args[0]), self.shape(t.args[1])])
        if op == "seq" and t.args[0] in ("list", "tuple"):
            return self.seq_shape(t)
        if op == "upd":
            if t.args[0].op == "emptydict":
                raise NoPW("dict")
            return self.shape(t.args[0])
        if op == "rows":
            b, m = self.shape(t.args[0]), self.shape(t.args[1])
            return [self.count(t.args[1], len(m))] + b[len(m):]
        if op == "getitem":
            return self.get_shape(t)
        if op == "call":
            return self.call_shape(t)
        if op == "app":
            for f in self.funcs:
                s = f(self, t)
                if s is not None:
                    return s
        if op == "draw":
            rg = t.args[0]
            if rg.op == "rng":
                sz = [a.args[1] for a in rg.args if isinstance(a, T) and a.op == "kw" and a.args[0] == "size"]
                if sz:
                    s = self.dim(sz[0])
                    if plain_items(s):
                        return [i.args[0] for i in s.args[1:]]
                    return [s]
        raise NoPW("shape of " + show(t, 2)[:80])

    def seq_shape(self, t):
        items = t.args[1:]
        if all(i.op == "it" for i in items) and items:
            inner = self.bcast([self.shape(i.args[0]) for i in items])
            return [const(len(items))] + inner
        if len(items) == 1 and items[0].op == "for":
            vs, (n, *its) = unbind(items[0])
            if len(its) == 1 and its[0].op == "it":
                return [self.dim(n)] + self.shape(its[0].args[0])
        raise NoPW("sequence as array")

    def count(self, m, rank):
        vs = [fresh("i") for _ in range(rank)]
        return raw("count_", bind("lam", vs, [self.el(m, vs)]))

    # ------------------------------------------------------------- indexing
    def parse_key(self, k, nd):
        """-> list of ('int',k) ('slice',a,b) ('new',) ('arr',t) per base axis / new axis"""
        ks = [i.args[0] for i in k.args[1:]] if k.op == "seq" and k.args[0] == "tuple" and plain_items(k) else [k]
        if k.op == "const" and isinstance(k.args[0], tuple):
            ks = [const(x) for x in k.args[0]]
        used = sum(1 for x in ks if x is not NONE and x.op != "ellipsis")
        out = []
        seen = False
        for x in ks:
            if x.op == "ellipsis" or x.op == "const" and x.args[0] is Ellipsis:
                out += [("slice", NONE, NONE)] * (nd - used)
                seen = True
            elif x is NONE:
                out.append(("new",))
            elif x.op == "slice":
                if x.args[2] is not NONE and x.args[2] is not ONE:
                    raise NoPW("slice step")
                out.append(("slice", self.dim(x.args[0]), self.dim(x.args[1])))
            else:
                s = self.shape(x)
                if x.op == "call" and x.args[0] in ("np.tril_indices", "np.triu_indices"):
                    raise NoPW("tri")
                out.append(("int", self.el(x, [])) if not s else ("arr", x))
        if not seen:
            n = sum(1 for o in out if o[0] != "new")
            out += [("slice", NONE, NONE)] * (nd - n)
        if sum(1 for o in out if o[0] != "new") != nd:
            raise NoPW("rank")
        return out

    def bounds(self, a, b, d):
        """resolved slice bounds in a dimension of size d"""
        def res(x, dflt):
            if x is NONE:
                return dflt
            if cint(x) and x.args[0] < 0:
                return add(d, x)
            if x.op == "poly" and not tm.nonneg_expr(x):
                # could be negative: only accept symbolic sizes
                p = tm.to_poly(x)
                if all(c < 0 for c in p.values()):
                    return add(d, x)
            return x
        return res(a, ZERO), res(b, d)

    def key_shape(self, key, bs):
        out, ax, advpos, advs = [], 0, None, []
        for s in key:
            if s[0] == "new":
                out.append(ONE)
                continue
            d = bs[ax]
            ax += 1
            if s[0] == "int":
                continue
            if s[0] == "slice":
                a, b = self.bounds(s[1], s[2], d)
                out.append(sub(b, a))
            else:
                if self.is_boolarr(s[1]):
                    sh = [self.count(s[1], 1)]
                else:
                    sh = self.shape(s[1])
                if advpos is None:
                    advpos = len(out)
                    out += sh
                elif len(sh) == 1:
                    pass  # paired advanced index
                advs.append(sh)
        if sum(1 for s in key if s[0] == "arr") > 1:
            # only adjacent, equal-rank advanced indices are modelled
            pos = [i for i, s in enumerate(key) if s[0] == "arr"]
            if pos != list(range(pos[0], pos[-1] + 1)):
                raise NoPW("advanced indices")
        return out

    def get_shape(self, t):
        b, k = t.args
        if b.op == "attr" and b.args[1] == "shape":
            return []
        q = self.as_qr(t)
        if q is not None:
            xs = self.shape(q)
            p, c = xs[-2], xs[-1]
            if tm.nonneg_expr(sub(p, c)):
                return xs[:-2] + [c, c]
            if tm.nonneg_expr(sub(c, p)):
                return xs[:-2] + [p, c]
            raise NoPW("qr shape")
        if tri_of(k) is not None:
            bs = self.shape(b)
            return [self.tri_len(tri_of(k))] + bs[2:]
        if tri_axis(t) is not None:
            return [self.tri_len(tri_of(b))]
        bs = self.shape(b)
        if k.op != "seq" and self.is_boolarr(k):
            ms = self.shape(k)
            return [self.count(k, len(ms))] + bs[len(ms):]
        return self.key_shape(self.parse_key(k, len(bs)), bs)

    def tri_len(self, tr):
        name, n, off = tr
        n = self.dim(n)
        if off == 0:
            return raw("tri_", n)
        if name in ("np.triu_indices+1", "np.tril_indices-1"):
            return raw("tri_", sub(n, ONE))
        return raw("tri_", n, const(off))

    def tri_pos(self, tr, r, c):
        name, n, off = tr
        d = sub(c, r) if "triu" in name else sub(r, c)
        k = const(off if "triu" in name else -off)
        return self.ge_(d, k), raw("tripos", const(name), self.dim(n), r, c)

    def as_qr(self, t):
        if t.op == "getitem" and t.args[1] is ONE:
            b = t.args[0]
            if b.op == "app":
                f, n = b.args[0], 0
                while f.op == "call" and f.args[0] == "jax.vmap" and len(f.args) == 2:
                    f, n = f.args[1], n + 1
                if f.op == "lib" and f.args[0] == "np.linalg.qr" and len(b.args) == 2:
                    return b.args[1]
            if b.op == "call" and b.args[0] == "np.linalg.qr" and kw_of(b, "mode") is None:
                return pos_of(b)[0]
        if t.op == "call" and t.args[0] == "np.linalg.qr" and kw_of(t, "mode") is const("r"):
            return pos_of(t)[0]
        return None

    def resolve(self, shape, total):
        """replace -1"""
        neg_ = [i for i, d in enumerate(shape) if cint(d) and d.args[0] == -1]
        if not neg_:
            return list(shape)
        if len(neg_) > 1:
            raise NoPW("reshape")
        other = self.prod([d for i, d in enumerate(shape) if i != neg_[0]])
        out = list(shape)
        q = exactdiv(total, other)
        if q is None:
            q = raw("idiv", self.dim(total), other)
        out[neg_[0]] = q
        return out

    def reshape_to(self, t):
        x, s = pos_of(t)[0], pos_of(t)[1]
        s = self.dim(s)
        if plain_items(s):
            s = [i.args[0] for i in s.args[1:]]
        elif s.op == "const" and isinstance(s.args[0], tuple):
            s = [const(v) for v in s.args[0]]
        elif s.op == "const" or s.op in ("in_", "poly"):
            s = [s]
        else:
            raise NoPW("reshape target")
        xs = self.shape(x)
        return self.resolve(s, self.prod(xs))

    def shape_arg(self, s):
        s = self.dim(s)
        if plain_items(s):
            return [i.args[0] for i in s.args[1:]]
        if s.op == "const" and isinstance(s.args[0], tuple):
            return [const(v) for v in s.args[0]]
        if tm.is_intval(s) or s.op in ("in_", "poly", "const", "count_"):
            return [s]
        raise NoPW("shape argument")

    def axis(self, t, nd, default=NONE):
        a = kw_of(t, "axis", default)
        if a is NONE or a is None:
            return None
        if cint(a):
            return [a.args[0] % nd] if nd else []
        if plain_items(a) and all(cint(i.args[0]) for i in a.args[1:]):
            return [i.args[0].args[0] % nd for i in a.args[1:]]
        raise NoPW("axis")

    def one_for(self, x):
        return x.op == "seq" and len(x.args) == 2 and x.args[1].op == "for"

    def parts(self, x):
        """list of array terms of a concatenation argument"""
        if plain_items(x):
            return [i.args[0] for i in x.args[1:]]
        raise NoPW("concatenation of unknown parts")

    def cat_norm(self, t):
        """(parts with shapes, axis) for concatenate-like calls"""
        f = t.args[0]
        ps = self.parts(pos_of(t)[0])
        shp = [self.shape(p) for p in ps]
        view = [None] * len(ps)
        if f == "np.concatenate":
            ax = self.axis(t, len(shp[0]), ZERO)
            if ax is None:
                raise NoPW("axis None")
            return ps, shp, [None] * len(ps), ax[0]
        if f == "np.hstack":
            return ps, shp, view, 0 if len(shp[0]) == 1 else 1
        if f == "np.vstack":
            v = ["row" if len(s) == 1 else None for s in shp]
            return ps, [[ONE] + s if w else s for s, w in zip(shp, v)], v, 0
        if f == "np.column_stack":
            v = ["col" if len(s) == 1 else None for s in shp]
            return ps, [s + [ONE] if w else s for s, w in zip(shp, v)], v, 1
        raise NoPW(f)

    def call_shape(self, t):
        f = t.args[0]
        p = pos_of(t)
        q = self.as_qr(t)
        if q is not None:
            xs = self.shape(q)
            return xs[:-2] + [xs[-1], xs[-1]]
        if f in ELEMENTWISE:
            return self.shape(p[0])
        if f == "np.clip":
            return self.bcast([self.shape(p[0])] + [self.shape(x) for x in (kw_of(t, "a_min", NONE), kw_of(t, "a_max", NONE)) if x is not NONE])
        if f in ELEM2:
            return self.bcast([self.shape(x) for x in p] + [self.shape(a.args[1]) for a in t.args[1:] if isinstance(a, T) and a.op == "kw"])
        if f == "np.where":
            if len(p) != 3:
                raise NoPW("where")
            return self.bcast([self.shape(x) for x in p])
        if f == "np.reshape":
            return self.reshape_to(t)
        if f in ("np.zeros", "np.ones", "np.full", "np.empty"):
            return self.shape_arg(p[0])
        if f in ("np.zeros_like", "np.ones_like", "np.full_like"):
            return self.shape(p[0])
        if f == "np.eye":
            return [self.dim(p[0])] * 2
        if f == "np.arange":
            if len(p) == 1 and not [a for a in t.args[1:] if isinstance(a, T) and a.op == "kw" and a.args[0] in ("stop", "step")]:
                return [self.dim(p[0])]
            st = kw_of(t, "stop")
            if st is not None and kw_of(t, "step") is None:
                return [sub(self.dim(st), self.dim(p[0]))]
            raise NoPW("arange")
        if f == "np.diag":
            s = self.shape(p[0])
            if kw_of(t, "k") is not None:
                raise NoPW("diag k")
            return [s[0], s[0]] if len(s) == 1 else [s[0]]
        if f == "np.transpose":
            s = self.shape(p[0])
            pm = self.perm(t, len(s))
            return [s[i] for i in pm]
        if f == "np.swapaxes":
            s = self.shape(p[0])
            pm = self.perm(t, len(s))
            return [s[i] for i in pm]
        if f == "np.dot":
            a, b = self.shape(p[0]), self.shape(p[1])
            if not a or not b:
                return a or b
            if len(b) == 1:
                return a[:-1]
            if len(a) == 1:
                return b[:-2] + b[-1:]
            if len(b) == 2:
                return a[:-1] + b[-1:]
            return a[:-1] + b[:-2] + b[-1:]
        if f in REDUCE and f != "anyof":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            kd = kw_of(t, "keepdims") is TRUE
            if ax is None:
                return [] if not kd else [ONE] * len(s)
            return [ONE if i in ax else d for i, d in enumerate(s) if kd or i not in ax]
        if f == "np.cumsum":
            s = self.shape(p[0])
            return s if self.axis(t, len(s)) is not None or len(s) == 1 else [self.prod(s)]
        if f == "np.repeat":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            r = self.dim(p[1])
            if self.shape_or_none(p[1]) not in ([], None) and self.shape_or_none(p[1]):
                raise NoPW("repeat counts")
            if ax is None:
                return [mul(self.prod(s), r)]
            s[ax[0]] = mul(s[ax[0]], r)
            return s
        if f == "np.tile":
            s = self.shape(p[0])
            reps = self.shape_arg(p[1])
            n = max(len(s), len(reps))
            s = [ONE] * (n - len(s)) + s
            reps = [ONE] * (n - len(reps)) + reps
            return [mul(a, b) for a, b in zip(s, reps)]
        if f in ("np.concatenate", "np.hstack", "np.vstack", "np.column_stack"):
            ps, shp, v, ax = self.cat_norm(t)
            out = list(shp[0])
            d = ZERO
            for s in shp:
                d = add(d, s[ax])
            out[ax] = d
            return out
        if f == "np.stack":
            if self.one_for(p[0]):
                s = self.seq_shape(p[0])
                ax = self.axis(t, len(s), ZERO)[0]
                return s[1:ax + 1] + [s[0]] + s[ax + 1:]
            ps = self.parts(p[0])
            s = self.shape(ps[0])
            ax = self.axis(t, len(s) + 1, ZERO)[0]
            return s[:ax] + [const(len(ps))] + s[ax:]
        if f == "np.expand_dims":
            s = self.shape(p[0])
            a = p[1]
            if not cint(a):
                raise NoPW("axis")
            i = a.args[0] % (len(s) + 1)
            return s[:i] + [ONE] + s[i:]
        if f == "np.squeeze":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            if ax is None:
                return [d for d in s if d is not ONE]
            return [d for i, d in enumerate(s) if i not in ax]
        if f == "np.broadcast_to":
            return self.shape_arg(p[1])
        if f in ("np.array",):
            return self.shape(p[0])
        if f == "np.take":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            ks = self.shape(p[1])
            if ax is None:
                return ks
            return s[:ax[0]] + ks + s[ax[0] + 1:]
        raise NoPW("shape of call " + f)

    def perm(self, t, nd):
        p = pos_of(t)
        if t.args[0] == "np.swapaxes":
            if not (cint(p[1]) and cint(p[2])):
                raise NoPW("axes")
            i, j = p[1].args[0] % nd, p[2].args[0] % nd
            pm = list(range(nd))
            pm[i], pm[j] = pm[j], pm[i]
            return pm
        ax = p[1] if len(p) > 1 else kw_of(t, "axes")
        if ax is None or ax is NONE:
            return list(range(nd))[::-1]
        if ax.op == "const" and isinstance(ax.args[0], tuple):
            return [v % nd for v in ax.args[0]]
        if plain_items(ax) and all(cint(i.args[0]) for i in ax.args[1:]):
            return [i.args[0].args[0] % nd for i in ax.args[1:]]
        raise NoPW("axes")

    # ------------------------------------------------------------- flat indices
    def flatten_idx(self, idx, dims):
        ps = []
        for i, d in zip(idx, dims):
            if d is ONE:
                continue
            if i.op == "mix":
                ps += [(i.args[k], i.args[k + 1]) for k in range(0, len(i.args), 2)]
            else:
                ps.append((i, d))
        return ps

    def regroup(self, ps, dims):
        """ps: mixed radix digits [(idx, dim)] -> index for each dim of dims (no ONE)"""
        ps = list(ps)
        out = []
        for n in range(len(dims) - 1, -1, -1):
            d = dims[n]
            if d is ONE:
                out.append(ZERO)
                continue
            rest = [x for x in dims[:n] if x is not ONE]
            if not rest:
                out.append(self.mix(ps))
                ps = []
                continue
            acc, take = ONE, []
            while ps and acc is not d:
                q = exactdiv(d, acc)
                i, k = ps[-1]
                if q is None:
                    raise NoPW("reshape regrouping")
                if self.divides(k, q):
                    take.insert(0, ps.pop())
                    acc = mul(acc, k)
                elif self.divides(q, k):
                    ps.pop()
                    ps.append((self.divmod_(i, q, k, 0), exactdiv(k, q)))
                    take.insert(0, (self.divmod_(i, q, k, 1), q))
                    acc = d
                else:
                    # incompatible: keep opaque digits of the flat position
                    if take:
                        raise NoPW("reshape regrouping")
                    flat = self.mix(ps)
                    tot = self.prod([k for _, k in ps])
                    q2 = exactdiv(tot, d)
                    if q2 is None:
                        raise NoPW("reshape regrouping")
                    ps = [(raw("idiv", flat, d), q2)]
                    take = [(raw("imod", flat, d), d)]
                    acc = d
            if acc is not d:
                raise NoPW("reshape regrouping")
            out.append(self.mix(take))
        return out[::-1]

    def divides(self, a, b):
        """a divides b as monomials"""
        q = exactdiv(b, a)
        if q is None:
            return False
        if q.op == "const":
            return isinstance(q.args[0], int) and q.args[0] >= 1
        return tm.is_intval(q)

    def divmod_(self, i, q, k, mod):
        return raw("imod" if mod else "idiv", i, q)

    def mix(self, ps):
        ps = [(i, d) for i, d in ps if d is not ONE]
        if not ps:
            return ZERO
        # idiv/imod recombination
        out = []
        for i, d in ps:
            if out and i.op == "imod" and out[-1][0].op == "idiv" and out[-1][0].args == i.args:
                pi, pd = out.pop()
                i, d = i.args[0], mul(pd, d)
            out.append((i, d))
        if len(out) == 1:
            return out[0][0]
        if all(i is ZERO for i, _ in out):
            return ZERO
        return raw("mix", *[x for p in out for x in p])

    # ------------------------------------------------------------- elements
    def el(self, t, idx):
        key = (t.id,) + tuple(i.id for i in idx)
        r = self.ememo.get(key)
        if r is None:
            r = self._el(t, list(idx))
            self.ememo[key] = r
        return r

    def bel(self, t, idx):
        """element of t broadcast to rank len(idx)"""
        s = self.shape(t)
        ix = idx[len(idx) - len(s):] if s else []
        return self.el(t, [ZERO if d is ONE else i for d, i in zip(s, ix)])

    def _el(self, t, idx):
        op = t.op
        if t.id in self.sh or op in ("getitem", "call", "meth", "anyof") and self.shape_or_none(t) is not None and t.id in self.sh:
            return raw("el", t, *idx) if idx else t
        if op in ("const", "nan", "in_", "var", "bv", "lib"):
            if idx:
                raise NoPW("index of scalar")
            return t
        if op in ("el", "at"):
            return t
        if not idx and (op in ("len", "in", "isnone", "truth", "isinstance") or op == "getitem" and t.args[0].op == "attr"):
            return self.dim(t)
        if op == "poly":
            acc = ZERO
            for m in t.args:
                e = from_frac(m.args[0])
                for i in range(1, len(m.args), 2):
                    ee = self.bel(m.args[i], idx)
                    x = m.args[i + 1]
                    if x != 1:
                        ee = self.powfrac(ee, x)
                    e = lmul(e, ee)
                acc = ladd(acc, e)
            return acc
        if op == "sum":
            vs, (n, e) = unbind(t)
            return self.msum(vs[0], self.dim(n), self.bel(e, idx))
        if op == "ite":
            return ite(self.cond(t.args[0], idx), self.bel(t.args[1], idx), self.bel(t.args[2], idx))
        if op == "eq":
            return lift(eq, self.bel(t.args[0], idx), self.bel(t.args[1], idx))
        if op == "gt0":
            return lift1(gt0, self.bel(t.args[0], idx))
        if op in ("startswith", "endswith") and len(t.args) == 2:
            return lift(lambda y, z: raw(op, y, z), self.bel(t.args[0], idx), self.bel(t.args[1], idx))
        if op in ("isnan", "isfinite"):
            return lift1(lambda z: raw(op, z), self.bel(t.args[0], idx))
        if op == "mask":
            return truth(self.bel(t.args[0], idx)) if tm.is_boolterm(self.bel(t.args[0], idx)) else self.boolean(self.bel(t.args[0], idx))
        if op == "pow":
            return lift(tm.power, self.bel(t.args[0], idx), self.bel(t.args[1], idx))
        if op == "seq":
            items = t.args[1:]
            if all(i.op == "it" for i in items):
                k = idx[0]
                if cint(k):
                    return self.bel(items[k.args[0]].args[0], idx[1:])
                r = None
                for n in range(len(items) - 1, -1, -1):
                    e = self.bel(items[n].args[0], idx[1:])
                    r = e if r is None else ite(self.lt_(k, const(n + 1)), e, r)
                return r
            vs, (n, *its) = unbind(items[0])
            return self.el(subst(its[0].args[0], {vs[0].args[0]: idx[0]}), idx[1:])
        if op == "upd":
            return self.upd_el(t, idx)
        if op == "rows":
            m = t.args[1]
            rank = len(self.shape(m))
            pos = self.nth(m, rank, idx[0])
            return self.el(t.args[0], pos + idx[1:])
        if op == "getitem":
            return self.get_el(t, idx)
        if op == "call":
            return self.call_el(t, idx)
        if op == "app":
            return self.app_el(t, idx)
        if op == "draw":
            return raw("el", self.nf(t), *idx) if idx else t
        raise NoPW("element of " + show(t, 2)[:80])

    def boolean(self, e):
        return raw("mask", e) if not tm.is_boolterm(e) else e

    def cond(self, c, idx):
        s = self.shape_or_none(c)
        if s is None:
            return self.nf(c)
        e = self.bel(c, idx)
        return e if tm.is_boolterm(e) else self.boolean(e)

    def nth(self, m, rank, k):
        vs = [fresh("i") for _ in range(rank)]
        lam = bind("lam", vs, [self.el(m, vs)])
        if k.op == "rank_" and k.args[0] is lam:
            return list(k.args[1:])
        return [raw("nth_", lam, k, const(j)) for j in range(rank)]

    def rank_of(self, m, ix):
        vs = [fresh("i") for _ in ix]
        lam = bind("lam", vs, [self.el(m, vs)])
        if all(x.op == "nth_" and x.args[0] is lam and x.args[2] is const(j) for j, x in enumerate(ix)) and len({x.args[1].id for x in ix}) == 1:
            return ix[0].args[1]
        return raw("rank_", lam, *ix)

    def powfrac(self, e, x):
        if e.op == "ite":
            return lift1(lambda z: self.powfrac(z, x), e)
        return from_pp(tm.ppow(tm.to_poly(e), x, e))

    # thresholds on index variables -------------------------------------------------
    def lt_(self, i, b):
        """i < b"""
        return gt0(sub(b, i))

    def ge_(self, i, a):
        return bnot(gt0(sub(a, i)))

    def eqi(self, i, k):
        """index equality; against integers as thresholds"""
        if i is k:
            return TRUE
        if cint(i) and cint(k):
            return FALSE
        if cint(k) or cint(i):
            if cint(i):
                i, k = k, i
            if k is ZERO:
                return self.lt_(i, ONE)
            return band(self.ge_(i, k), self.lt_(i, add(k, ONE)))
        return eq(i, k)

    def in_slice(self, i, a, b, d):
        c = TRUE
        if a is not ZERO:
            c = band(c, self.ge_(i, a))
        if b is not d:
            c = band(c, self.lt_(i, b))
        return c

    def upd_el(self, t, idx):
        base = t.args[0]
        e = self.el(base, idx)
        bs = self.shape(base)
        for p in t.args[1:]:
            if p.op != "pair":
                if p.op == "for":
                    e = self.upd_for(p, e, bs, idx)
                    continue
                raise NoPW("update")
            c, v = self.upd_pair(p, bs, idx)
            e = ite(c, v, e)
        return e

    def upd_for(self, p, e, bs, idx):
        """for i < n: base.at[.., i, ..].set(val(i)): the last write with i == index"""
        vs, (n, *its) = unbind(p)
        if len(its) != 1 or its[0].op != "pair":
            raise NoPW("update loop")
        k = its[0].args[0]
        key = self.parse_key(k, len(bs))
        ax = 0
        for s in key:
            if s[0] == "new":
                raise NoPW("key")
            if s[0] == "int" and s[1] is vs[0]:
                sub_ = subst(p.args[2] if False else its[0], {vs[0].args[0]: idx[ax]})
                c, v = self.upd_pair(sub_, bs, idx)
                if self.dim(n) is not bs[ax]:
                    c = band(c, self.lt_(idx[ax], self.dim(n)))
                return ite(c, v, e)
            ax += 1
        raise NoPW("update loop")

    def upd_pair(self, p, bs, idx):
        k, v = p.args
        vs = self.shape(v)
        if tri_of(k) is not None:
            cond, pos = self.tri_pos(tri_of(k), idx[0], idx[1])
            return cond, self.place(v, vs, [pos] + idx[2:])
        if tm.is_boolterm(k) or k.op == "mask" or (self.shape_or_none(k) and self.is_boolarr(k)):
            ks = self.shape(k)
            ix = idx[:len(ks)]
            e = self.boolean(self.el(k, ix))
            return e, self.place(v, vs, [self.rank_of(k, ix)] + idx[len(ks):])
        key = self.parse_key(k, len(bs))
        cond, vix, ax, skip = TRUE, [], 0, None
        if sum(1 for s in key if s[0] == "arr" and tri_axis(s[1]) is None) > 1:
            raise NoPW("several index arrays")
        for s in key:
            if s[0] == "new":
                raise NoPW("key")
            i, d = idx[ax], bs[ax]
            ax += 1
            if s[0] == "int":
                kk = s[1]
                if cint(kk) and kk.args[0] < 0:
                    kk = add(d, kk)
                cond = band(cond, self.eqi(i, kk))
            elif s[0] == "slice":
                a, b = self.bounds(s[1], s[2], d)
                cond = band(cond, self.in_slice(i, a, b, d))
                vix.append((sub(i, a), sub(b, a)))
            else:
                kt = s[1]
                if tri_axis(kt) is not None:
                    if ax < len(bs) and key[ax] [0] == "arr" and tri_axis(key[ax][1]) is not None:
                        (t1, a1), (t2, a2) = tri_axis(kt), tri_axis(key[ax][1])
                        if t1 != t2 or a1 == a2 or any(x[0] == "new" for x in key):
                            raise NoPW("triangle keys")
                        r, c_ = (i, idx[ax]) if a1 == 0 else (idx[ax], i)
                        c2, pos = self.tri_pos(t1, r, c_)
                        cond = band(cond, c2)
                        vix.append((pos, None))
                        skip = ax
                        continue
                    if skip is not None and ax - 1 == skip:
                        continue
                    raise NoPW("triangle keys")
                if self.is_boolarr(kt):
                    cond = band(cond, self.boolean(self.el(kt, [i])))
                    vix.append((self.rank_of(kt, [i]), None))
                    continue
                inv = self.inverse(kt, i, d)
                if inv is None:
                    raise NoPW("index array update")
                c, j = inv
                cond = band(cond, c)
                vix.append((j, self.shape(kt)[0]))
        return cond, self.place(v, vs, [x[0] for x in vix])

    def is_boolarr(self, k):
        if tm.is_boolterm(k) or k.op in ("mask", "anyof") or any(f(k) for f in BOOLLEAVES):
            return True
        if k.op == "getitem":
            return self.is_boolarr(k.args[0])
        if k.op == "ite":
            return all(x in (TRUE, FALSE) or self.is_boolarr(x) for x in k.args[1:])
        return k.op == "call" and k.args[0] in ("np.array", "np.reshape", "np.transpose", "np.squeeze") and self.is_boolarr(k.args[1])

    def inverse(self, kt, i, d):
        """kt is an index array; (condition that i occurs, position)"""
        if kt.op == "call" and kt.args[0] == "np.array":
            kt = pos_of(kt)[0]
        if kt.op == "rows" or kt.op == "getitem" and kt.args[1].op != "seq" and self.is_boolarr(kt.args[1]):
            # arange(size).reshape(shape)[mask]: positions of the True entries
            b, m = kt.args
            ms = self.shape(m)
            vs = [fresh("i") for _ in ms]
            e = self.el(b, vs)
            flat = self.mix([(v, q) for v, q in zip(vs, ms)])
            if e is flat:
                pos = self.regroup(self.flatten_idx([i], [d]), ms)
                return self.boolean(self.el(m, pos)), self.rank_of(m, pos)
        if kt.op == "call" and kt.args[0] == "np.arange":
            n = self.shape(kt)[0]
            return (TRUE if n is d else self.lt_(i, n)), i
        return None

    def place(self, v, vs, ix):
        """value at update position ix (numpy assignment broadcasting)"""
        if len(vs) > len(ix):
            vs2 = [d for d in vs]
            extra = len(vs) - len(ix)
            if any(d is not ONE for d in vs2[:extra]):
                raise NoPW("assignment rank")
            return self.el(v, [ZERO] * extra + [ZERO if d is ONE else i for d, i in zip(vs2[extra:], ix)])
        ix = ix[len(ix) - len(vs):]
        return self.el(v, [ZERO if d is ONE else i for d, i in zip(vs, ix)])

    def get_el(self, t, idx):
        b, k = t.args
        q = self.as_qr(t)
        if q is not None:
            return self.qr_el(q, idx)
        if tri_of(k) is not None:
            name, n, _ = tri_of(k)
            n = self.dim(n)
            r, c = (raw("trirow", const(name), n, idx[0]), raw("tricol", const(name), n, idx[0]))
            return self.el(b, [r, c] + idx[1:])
        if tri_axis(t) is not None:
            (name, n, _), a = tri_axis(t)
            return raw("tricol" if a else "trirow", const(name), self.dim(n), idx[0])
        bs = self.shape(b)
        if k.op != "seq" and self.is_boolarr(k):
            n = len(self.shape(k))
            return self.el(b, self.nth(k, n, idx[0]) + idx[1:])
        key = self.parse_key(k, len(bs))
        out, ax, j = [], 0, 0
        adv = None
        for s in key:
            if s[0] == "new":
                j += 1
                continue
            d = bs[ax]
            ax += 1
            if s[0] == "int":
                kk = s[1]
                if cint(kk) and kk.args[0] < 0:
                    kk = add(d, kk)
                out.append(kk)
            elif s[0] == "slice":
                a, _ = self.bounds(s[1], s[2], d)
                out.append(add(idx[j], a))
                j += 1
            else:
                ks = [None] if self.is_boolarr(s[1]) else self.shape(s[1])
                if adv is None:
                    adv = idx[j:j + len(ks)]
                    j += len(ks)
                if self.is_boolarr(s[1]):
                    out += self.nth(s[1], 1, adv[0])
                else:
                    out.append(self.bel(s[1], adv))
        return self.el(b, out)

    def qr_el(self, x, idx):
        i, j = fresh("i"), fresh("i")
        e = self.el(x, idx[:-2] + [i, j])
        lam = bind("lam", [i, j], [self.prune(e)])
        xs = self.shape(x)
        return raw("qrR", lam, xs[-2], xs[-1], idx[-2], idx[-1])

    def app_el(self, t, idx):
        f = t.args[0]
        self.shape(t)
        k = fresh("i")
        arr_ = t.args[-1]
        nd = len(self.shape(arr_))
        # row-wise vectorised function: (coefficients, rows) -> rows
        lam = bind("lam", [k], [self.prune(self.el(arr_, idx[:nd - 1] + [k]))])
        return raw("rowfn", self.nf(f), *[self.nf(a) for a in t.args[1:-1]], lam, *idx[nd - 1:])

    def msum(self, v, n, e):
        """linear normal form of a sum"""
        if e.op == "ite":
            c = e.args[0]
            if not contains(c, v):
                return ite(c, self.msum(v, n, e.args[1]), self.msum(v, n, e.args[2]))
            if c.op == "eq" and e.args[2] is ZERO and v in c.args:
                w = c.args[1] if c.args[0] is v else c.args[0]
                if not contains(w, v):
                    return subst(e.args[1], {v.args[0]: w})
            return tm.mk_sum(v, n, e)
        p = tm.to_poly(e)
        acc = ZERO
        rest = {}
        for m, c in p.items():
            out = from_frac(c)
            inner = {}
            ip_ = []
            for a, x in m:
                at = tm._atoms[a]
                if contains(at, v):
                    ip_.append((a, x))
                else:
                    out = mul(out, from_pp({((a, x),): tm.Fraction(1)}))
            if not ip_:
                acc = ladd(acc, mul(out, n))
            else:
                ie = from_pp({tuple(ip_): tm.Fraction(1)})
                s = tm.mk_sum(v, n, ie)
                if ie.op == "ite":
                    s = self.msum(v, n, ie)
                acc = ladd(acc, lmul(out, s))
        return acc

    def call_el(self, t, idx):
        f = t.args[0]
        p = pos_of(t)
        q = self.as_qr(t)
        if q is not None:
            return self.qr_el(q, idx)
        if f == "np.log":
            e = self.el(p[0], idx)
            return self.log(e)
        if f == "np.abs":
            e = self.el(p[0], idx)
            return lift1(lambda z: raw("call", f, z), e)
        if f == "np.float64" or f == "np.array":
            return self.el(p[0], idx)
        if f in ELEMENTWISE:
            return lift1(lambda z: tm.raw("call", f, z, *[a for a in t.args[1:] if isinstance(a, T) and a.op == "kw"]), self.el(p[0], idx))
        if f == "norm.logpdf":
            x = self.bel(p[0], idx)
            loc = self.bel(kw_of(t, "loc", ZERO), idx)
            sc = self.bel(kw_of(t, "scale", ONE), idx)
            return self.logpdf(x, loc, sc)
        if f == "np.logaddexp":
            return self.lse([self.bel(p[0], idx), self.bel(p[1], idx)])
        if f == "np.clip":
            e = self.bel(p[0], idx)
            for k, g in (("a_min", "np.maximum"), ("a_max", "np.minimum")):
                b = kw_of(t, k, NONE)
                if b is not NONE:
                    a, b = e, self.bel(b, idx)
                    if a.id > b.id:
                        a, b = b, a
                    e = raw("call", g, a, b)
            return e
        if f in ELEM2:
            a, b = self.bel(p[0], idx), self.bel(p[1], idx)
            if f in ("np.maximum", "np.minimum") and a.id > b.id:
                a, b = b, a
            return raw("call", f, a, b)
        if f == "np.where":
            c = self.cond(p[0], idx)
            return ite(c, self.bel(p[1], idx), self.bel(p[2], idx))
        if f == "np.reshape":
            s = self.shape(t)
            xs = self.shape(p[0])
            if [d for d in s if d is not ONE] == [d for d in xs if d is not ONE]:
                ix = [i for i, d in zip(idx, s) if d is not ONE]
                out = []
                for d in xs:
                    out.append(ZERO if d is ONE else ix.pop(0))
                return self.el(p[0], out)
            return self.el(p[0], self.regroup(self.flatten_idx(idx, s), xs))
        if f == "np.zeros":
            return ZERO
        if f == "np.ones":
            return ONE
        if f == "np.full":
            return self.bel(p[1], idx)
        if f == "np.zeros_like":
            return ZERO
        if f == "np.ones_like":
            return ONE
        if f == "np.full_like":
            return self.bel(p[1], idx)
        if f == "np.eye":
            return ite(self.eqi(idx[0], idx[1]), ONE, ZERO)
        if f == "np.arange":
            if kw_of(t, "stop") is not None:
                return add(idx[0], self.dim(p[0]))
            return idx[0]
        if f == "np.diag":
            s = self.shape(p[0])
            if len(s) == 1:
                return ite(self.eqi(idx[0], idx[1]), self.el(p[0], [idx[0]]), ZERO)
            return self.el(p[0], [idx[0], idx[0]])
        if f in ("np.transpose", "np.swapaxes"):
            pm = self.perm(t, len(idx))
            out = [None] * len(idx)
            for o, i in zip(idx, pm):
                out[i] = o
            return self.el(p[0], out)
        if f == "np.dot":
            a, b = self.shape(p[0]), self.shape(p[1])
            if not a or not b:
                return lmul(self.bel(p[0], idx), self.bel(p[1], idx))
            v = fresh("i")
            if len(b) == 1:
                ea, eb = self.el(p[0], idx + [v]), self.el(p[1], [v])
            elif len(a) == 1:
                ea, eb = self.el(p[0], [v]), self.el(p[1], idx[:-1] + [v, idx[-1]])
            else:
                na = len(a) - 1
                ea = self.el(p[0], idx[:na] + [v])
                rb = idx[na:]
                eb = self.el(p[1], rb[:-1] + [v, rb[-1]])
            return self.msum(v, a[-1], lmul(ea, eb))
        if f in REDUCE:
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            kd = kw_of(t, "keepdims") is TRUE
            if ax is None:
                ax = list(range(len(s)))
            vs = {i: fresh("i") for i in ax}
            full, j = [], 0
            for i in range(len(s)):
                if i in vs:
                    full.append(vs[i])
                    if kd:
                        j += 1
                else:
                    full.append(idx[j])
                    j += 1
            for a in t.args[1:]:
                if isinstance(a, T) and a.op == "kw" and a.args[0] not in ("axis", "keepdims"):
                    if a.args[0] == "dtype":
                        continue
                    raise NoPW("reduction option")
            if f in ("np.sum", "np.mean"):
                e = self.el(p[0], full)
                for i in ax:
                    e = self.msum(vs[i], s[i], e)
                    if f == "np.mean":
                        e = ldiv(e, s[i])
                return e
            if len(ax) == 1 and cint(s[ax[0]]) and s[ax[0]].args[0] <= 6:
                n = s[ax[0]].args[0]
                es = [self.el(p[0], [const(k) if i == ax[0] else x for i, x in enumerate(full)]) for k in range(n)]
                if f == "scipy.logsumexp":
                    return self.lse(es)
                return raw("red", const(f), *sorted(es, key=lambda x: x.id))
            e = self.el(p[0], full)
            lam = bind("lam", [vs[i] for i in ax], [e])
            return raw("redl", const(f), lam, *[s[i] for i in ax])
        if f == "np.cumsum":
            s = self.shape(p[0])
            ax = self.axis(t, len(s)) or [0]
            v = fresh("i")
            full = [v if i == ax[0] else x for i, x in enumerate(idx)]
            return self.msum(v, add(idx[ax[0]], ONE), self.el(p[0], full))
        if f == "np.repeat":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            r = self.dim(p[1])
            if ax is None:
                pos = self.regroup(self.flatten_idx([idx[0]], [mul(self.prod(s), r)]), s + [r])
                return self.el(p[0], pos[:-1])
            a = ax[0]
            pos = self.regroup(self.flatten_idx([idx[a]], [mul(s[a], r)]), [s[a], r])
            return self.el(p[0], idx[:a] + [pos[0]] + idx[a + 1:])
        if f == "np.tile":
            s = self.shape(p[0])
            reps = self.shape_arg(p[1])
            n = len(idx)
            s2 = [ONE] * (n - len(s)) + s
            reps = [ONE] * (n - len(reps)) + reps
            out = []
            for i, d, r in zip(idx, s2, reps):
                if r is ONE:
                    out.append(i)
                elif d is ONE:
                    out.append(ZERO)
                else:
                    out.append(self.regroup(self.flatten_idx([i], [mul(d, r)]), [r, d])[1])
            return self.el(p[0], out[n - len(s):])
        if f in ("np.concatenate", "np.hstack", "np.vstack", "np.column_stack"):
            ps, shp, view, ax = self.cat_norm(t)
            i = idx[ax]
            starts, d = [], ZERO
            for s in shp:
                starts.append(d)
                d = add(d, s[ax])
            r = None
            for n in range(len(ps) - 1, -1, -1):
                if shp[n][ax] is ZERO:
                    continue
                loc = sub(i, starts[n])
                if shp[n][ax] is ONE:
                    loc = ZERO
                ix = [loc if q == ax else (ZERO if shp[n][q] is ONE else idx[q]) for q in range(len(idx))]
                if view[n] == "row":
                    ix = ix[1:]
                elif view[n] == "col":
                    ix = ix[:1]
                if cint(i) and cint(starts[n]) and not cint(add(starts[n], shp[n][ax])) and i.args[0] < starts[n].args[0]:
                    continue
                e = self.el(ps[n], ix)
                end = add(starts[n], shp[n][ax])
                r = e if r is None else ite(self.lt_(i, end), e, r)
            return r
        if f == "np.stack":
            if self.one_for(p[0]):
                ax = self.axis(t, len(idx), ZERO)[0]
                return self.el(p[0], [idx[ax]] + idx[:ax] + idx[ax + 1:])
            ps = self.parts(p[0])
            s = self.shape(ps[0])
            ax = self.axis(t, len(s) + 1, ZERO)[0]
            i = idx[ax]
            rest = idx[:ax] + idx[ax + 1:]
            r = None
            for n in range(len(ps) - 1, -1, -1):
                e = self.bel(ps[n], rest)
                if cint(i):
                    if i.args[0] == n:
                        return e
                    continue
                r = e if r is None else ite(self.lt_(i, const(n + 1)), e, r)
            return r
        if f == "np.expand_dims":
            n = p[1].args[0] % len(idx)
            return self.el(p[0], idx[:n] + idx[n + 1:])
        if f == "np.squeeze":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            drop = [i for i, d in enumerate(s) if d is ONE] if ax is None else ax
            it_ = iter(idx)
            return self.el(p[0], [ZERO if i in drop else next(it_) for i in range(len(s))])
        if f == "np.broadcast_to":
            return self.bel(p[0], idx)
        if f == "np.take":
            s = self.shape(p[0])
            ax = self.axis(t, len(s))
            if ax is None:
                raise NoPW("take")
            ks = len(self.shape(p[1]))
            a = ax[0]
            return self.el(p[0], idx[:a] + [self.el(p[1], idx[a:a + ks])] + idx[a + ks:])
        raise NoPW("element of call " + f)

    def log(self, e):
        if e.op == "ite":
            return ite(e.args[0], self.log(e.args[1]), self.log(e.args[2]))
        if e is ONE:
            return ZERO
        return raw("call", "np.log", e)

    def logpdf(self, x, loc, sc):
        z = ldiv(lsub(x, loc), sc)
        z2 = lmul(z, z)
        c = raw("call", "np.log", mul(const(2), raw("lib", "np.pi")))
        half = from_frac(tm.Fraction(1, 2))
        return lsub(lsub(lmul(neg(half), z2), self.log(sc)), mul(half, c))

    def lse(self, es):
        return raw("lse", *sorted(es, key=lambda x: x.id))

    # ------------------------------------------------------------- pruning by index facts
    def prune(self, t, facts=()):
        if t.op != "ite" or not self.prune_on:
            return t
        c = t.args[0]
        if c.op == "gt0":
            p = c.args[0]
            v = implied(p, facts)
            if v is True:
                return self.prune(t.args[1], facts)
            if v is False:
                return self.prune(t.args[2], facts)
            pos, ng = facts + (sub(p, ONE),), facts + (neg(p),)
            x = t.args[1]
            y = t.args[2]
            one = sub(const(2), p)
            if one.op == "in_" and tm.is_intval(one):
                x = tm.replace(x, {one.id: ONE})   # a size below 2 is 1
            one = add(p, ONE)
            if one.op == "in_" and tm.is_intval(one):
                y = tm.replace(y, {one.id: ONE})
            x = self.prune(x, pos)
            y = self.prune(y, ng)
            if x is y:
                return x
            return ite(c, x, y)
        if c.op == "eq" and (tm.is_intval(c.args[0]) and tm.is_intval(c.args[1])):
            d_ = sub(c.args[0], c.args[1])
            if implied(d_, facts) is True or implied(neg(d_), facts) is True:
                return self.prune(t.args[2], facts)
            x = self.prune(t.args[1], facts + (d_, neg(d_)))
            a, b = c.args
            if a.op == "var":
                x = tm.replace(x, {a.id: b}) if not contains(b, a) else x
            y = self.prune(t.args[2], facts)
            return x if x is y else ite(c, x, y)
        x, y = self.prune(t.args[1], facts), self.prune(t.args[2], facts)
        return x if x is y else ite(c, x, y)

    # ------------------------------------------------------------- structures
    def nf(self, t):
        r = self.nmemo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.nmemo[t.id] = r
        return r

    def _nf(self, t):
        if t.op in ("const", "var", "bv", "lib", "nan", "emptydict", "ellipsis", "fn", "mod"):
            return t
        if t.op == "in_" and t.id not in self.sh:
            return t
        structural = t.op == "seq" or t.op == "upd" and t.args[0].op == "emptydict"
        if not structural:
            try:
                s = self.shape(t)
                vs = [fresh("i") for _ in s]
                idx = [ZERO if d is ONE else v for v, d in zip(vs, s)]
                e = self.prune(self.el(t, idx))
                if not s:
                    return e
                return raw("arr", seq("tuple", [it(d) for d in s]), bind("lam", vs, [e]))
            except NoPW as ex:
                if t.op not in ("lam", "kw", "it", "pair", "for", "if", "body", "sp", "slice", "effect", "fn", "partial", "m"):
                    self.fails.add((t.op, t.args[0] if t.op in ("call", "meth") else "", str(ex)[:60]))
        return self.rebuild(t)

    def rebuild(self, t):
        if t.op in tm.BIND or t.op == "lam":
            vs, args = unbind(t)
            return tm.rebind(t, vs, [self.nf(a) if isinstance(a, T) else a for a in args])
        if t.op == "m":
            return t
        if t.op == "poly":
            m = {}
            for x in t.args:
                for i in range(1, len(x.args), 2):
                    a = x.args[i]
                    n = self.nf(a)
                    if n is not a:
                        m[a.id] = n
            return tm.replace(t, m) if m else t
        args = [self.nf(a) if isinstance(a, T) else a for a in t.args]
        if t.op == "getitem":
            return getitem(*args)
        return tm.mk(t.op, *args)


@tm.simp("idiv")
def _idiv(i, d):
    if d is ONE:
        return i
    return tm.raw("idiv", i, d)


@tm.simp("imod")
def _imod(i, d):
    if d is ONE:
        return ZERO
    return tm.raw("imod", i, d)


def lift(f, a, b):
    """apply a binary scalar operation inside conditionals"""
    at = None
    for x in (a, b):
        if x.op == "ite" and (at is None or x.args[0].id < at.id):
            at = x.args[0]
    if at is None:
        return f(a, b)
    hi = lift(f, tm._cof(a, at, True), tm._cof(b, at, True))
    lo = lift(f, tm._cof(a, at, False), tm._cof(b, at, False))
    return ite(at, hi, lo)


def lmul(a, b):
    return lift(mul, a, b)


def ladd(a, b):
    return lift(add, a, b)


def lsub(a, b):
    return lift(sub, a, b)


def ldiv(a, b):
    return lift(tm.div, a, b)


def lift1(f, a):
    if a.op == "ite":
        return ite(a.args[0], lift1(f, a.args[1]), lift1(f, a.args[2]))
    return f(a)


def from_frac(c):
    return tm.from_poly({(): tm.Fraction(c)}) if c else ZERO


def from_pp(p):
    return tm.from_poly(p)


def implied(p, facts):
    """p > 0 over the integers under facts (each >= 0): True / False / None"""
    if tm.nonneg_expr(sub(p, ONE)):
        return True
    if tm.nonneg_expr(neg(p)):
        return False
    for f in facts:
        if tm.nonneg_expr(sub(sub(p, ONE), f)):
            return True
        if tm.nonneg_expr(sub(neg(p), f)):
            return False
    for i, f in enumerate(facts):
        for g in facts[i + 1:]:
            s = add(f, g)
            if tm.nonneg_expr(sub(sub(p, ONE), s)):
                return True
            if tm.nonneg_expr(sub(neg(p), s)):
                return False
    return None
