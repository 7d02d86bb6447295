"""Hash-consed value-graph terms with alpha-canonical binders and normalising constructors.

A term is the static description of a value (global value numbering).  Two
program fragments that compute the same value by different syntax are meant to
end up with the *same* term.  Nothing here executes analysed code.
"""
from fractions import Fraction
import math

_tab = {}
_ctr = [0]
_fresh = [0]

# binder op -> number of bound variables
BIND = {"for": 1, "sum": 1, "any": 1, "find": 1, "fold": 2, "recur": 1, "argsel": 1}


class T:
    __slots__ = ("op", "args", "id", "free", "ht", "flags", "_key")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.id < o.id


def _k(a):
    if isinstance(a, T):
        return a.id
    return (type(a).__name__, repr(a))


EMPTY = frozenset()


def raw(op, *args):
    key = (op,) + tuple([_k(a) for a in args])
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    _ctr[0] += 1
    t.id = _ctr[0]
    fr = EMPTY
    ht = 0
    flags = EMPTY
    if op == "var":
        fr = frozenset((args[0],))
    elif op == "bv":
        pass
    for a in args:
        if isinstance(a, T):
            if a.free:
                fr = fr | a.free
            if a.ht > ht:
                ht = a.ht
            if a.flags:
                flags = flags | a.flags
    if op in BIND or op == "lam":
        nb = BIND.get(op) or args[1]
        ht = args[0] + nb - 1
    if op == "opaque":
        flags = flags | {"opaque"}
    elif op in ("ref", "fn", "bound"):
        flags = flags | {"ref"}
    elif op == "hole":
        flags = flags | {"hole"}
    t.free, t.ht, t.flags = fr, ht, flags
    _tab[key] = t
    return t


def const(v):
    if isinstance(v, float):
        if v == v and abs(v) != math.inf and v == int(v):
            v = int(v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
        else:
            return raw("poly", raw("m", v))
    if isinstance(v, float) and v == v and abs(v) != math.inf:
        return raw("poly", raw("m", Fraction(repr(v))))
    return raw("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def fresh(hint="v"):
    _fresh[0] += 1
    return raw("var", f"{hint}#{_fresh[0]}")


def opaque(reason, *args):
    return raw("opaque", reason, *args)


# ----------------------------------------------------------------- binders
def bind(op, vars_, args, nb_arg=False):
    """Build binder `op` over vars_; args may mention the vars."""
    h = 0
    for a in args:
        if isinstance(a, T) and a.ht > h:
            h = a.ht
    lvl = h + 1
    m = {v.args[0]: raw("bv", lvl + i) for i, v in enumerate(vars_)}
    new = [_close(a, m) if isinstance(a, T) else a for a in args]
    if op == "lam":
        return raw(op, lvl, len(vars_), *new)
    return raw(op, lvl, *new)


def _close(t, m, memo=None):
    # var -> bv replacement without re-normalisation (ids change, so poly order may too)
    return subst(t, m)


def unbind(t):
    """Open binder t: returns (vars, args)."""
    op = t.op
    if op == "lam":
        lvl, nb = t.args[0], t.args[1]
        rest = t.args[2:]
    else:
        lvl, nb = t.args[0], BIND[op]
        rest = t.args[1:]
    vs = [fresh("i") for _ in range(nb)]
    m = {lvl + i: v for i, v in enumerate(vs)}
    out = []
    for a in rest:
        out.append(_open(a, m) if isinstance(a, T) else a)
        if len(out) == 1 and op != "lam" and isinstance(a, T):
            RANGE[vs[0].args[0]] = out[0]
    return vs, out


RANGE = {}      # number of iterations of an opened loop index


_HASBV = {}


def _bvs(t):
    """Set of free bv levels of t (memo)."""
    r = _HASBV.get(t.id)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.args[0],))
    else:
        r = EMPTY
        for a in t.args:
            if isinstance(a, T):
                r = r | _bvs(a)
        if t.op in BIND or t.op == "lam":
            lvl = t.args[0]
            nb = BIND.get(t.op) or t.args[1]
            r = r - frozenset(range(lvl, lvl + nb))
    _HASBV[t.id] = r
    return r


def _open(t, m, memo=None):
    if memo is None:
        memo = {}
    if not (_bvs(t) & m.keys()):
        return t
    if t.id in memo:
        return memo[t.id]
    if t.op == "bv":
        r = m[t.args[0]]
    elif t.op in BIND or t.op == "lam":
        # nested binder: open it, recurse, rebind
        vs, args = unbind(t)
        new = [_open(a, m) if isinstance(a, T) else a for a in args]
        r = rebind(t, vs, new)
    else:
        r = mk(t.op, *[_open(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t.id] = r
    return r


def rebind(t, vs, args):
    f = BINDMK.get(t.op)
    if f:
        return f(vs, *args)
    return bind(t.op, vs, args)


BINDMK = {}


def subst(t, m, memo=None):
    """Replace var-name -> term (capture free), renormalising."""
    if not t.free or not (t.free & m.keys()):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m[t.args[0]]
    elif t.op in BIND or t.op == "lam":
        vs, args = unbind(t)
        r = rebind(t, vs, [subst(a, m) if isinstance(a, T) else a for a in args])
    else:
        r = mk(t.op, *[subst(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t.id] = r
    return r


def replace(t, m, memo=None):
    """Replace closed sub-terms: dict term-id -> term (renormalising)."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.id in m:
        r = m[t.id]
    elif not any(isinstance(a, T) for a in t.args):
        r = t
    elif t.op in BIND or t.op == "lam":
        if not _contains_any(t, m):
            r = t
        else:
            vs, args = unbind(t)
            r = rebind(t, vs, [replace(a, m) if isinstance(a, T) else a for a in args])
    else:
        new = [replace(a, m, memo) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(new, t.args)):
            r = t
        else:
            r = mk(t.op, *new)
    memo[t.id] = r
    return r


def _contains_any(t, m, seen=None):
    if seen is None:
        seen = set()
    if t.id in m:
        return True
    if t.id in seen:
        return False
    seen.add(t.id)
    for a in t.args:
        if isinstance(a, T) and _contains_any(a, m, seen):
            return True
    return False


def contains(t, x):
    return _contains_any(t, {x.id: 1})


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


# ----------------------------------------------------------------- smart constructors
SIMP = {}


def simp(op):
    def deco(f):
        SIMP[op] = f
        return f
    return deco


def mk(op, *args):
    f = SIMP.get(op)
    if f is None:
        return raw(op, *args)
    return f(*args)


# ---- kinds
STR_OPS = {"cat", "str", "repr", "join", "fmt"}
BOOL_OPS = {"eq", "gt0", "truth", "isnone", "isinstance", "in", "any", "callable", "hasattr", "bool",
            "throws", "isscalar", "subset", "same_object", "set_le"}
NUM_OPS = {"poly", "len", "sum", "idx", "int", "floordiv", "mod", "abs", "el", "qrR", "rowfn", "red", "redl", "lse"} | {
    "mix", "idiv", "imod", "rank_", "nth_", "tripos", "trirow", "tricol", "count_", "tri_"}
INT_OPS = {"len", "floordiv", "mix", "idiv", "imod", "rank_", "nth_", "tripos", "trirow", "tricol", "count_", "tri_"}
_KCALL = {"pd.DataFrame": "df", "pd.concat": "df", "np.zeros": "arr", "np.ones": "arr", "np.arange": "arr",
          "np.array": "arr", "np.where": "arr", "pd.Series": "series"}


VARKIND = {}        # placeholders of loop-carried objects keep the kind of the object


def kind(t):
    op = t.op
    if op == "const":
        v = t.args[0]
        if v is None:
            return "none"
        return type(v).__name__
    if op == "seq":
        return t.args[0]
    if op == "upd":
        return kind(t.args[0])
    if op == "emptydict":
        return "dict"
    if op in STR_OPS:
        return "str"
    if op in BOOL_OPS:
        return "bool"
    if op in NUM_OPS:
        return "num"
    if op == "in_":
        return t.args[1] or None
    if op == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        return None
    if op == "range":
        return "range"
    if op == "lam" or op == "fn" or op == "lib":
        return "func"
    if op == "sorted":
        return "list"
    if op == "setof":
        return "set"
    if op == "var":
        n = t.args[0]
        if n.startswith("i#") or n.startswith("idx#"):
            return "int"
        return VARKIND.get(n)
    if op == "bv":
        return "int"
    if op == "call":
        return _KCALL.get(t.args[0])
    if op == "deriv":
        return "arr"
    if op == "getitem":
        k = t.args[1]
        if k.op == "slice":
            return kind(t.args[0])
        ek = ELEMKIND.get(t.args[0].id)
        if ek:
            return ek
        ty = typ(t)
        return ty if ty is None or isinstance(ty, str) else ty[0]
    return None


ELEMKIND = {}  # term id -> kind of its elements (declared by harnesses)
TYPES = {}     # term id -> declared type: "str" | ("list", T) | ("dict", T, {key: T}) | ("df",) ...
NONUNIQUE = set()  # ids of list terms that may repeat elements
LENALIAS = {}  # term id -> term with the same length


def typ(t):
    r = TYPES.get(t.id)
    if r is not None:
        return r
    if t.op == "getitem":
        b = typ(t.args[0])
        if b is None or isinstance(b, str):
            return "str" if b == "str" else None
        k = t.args[1]
        if k.op == "slice":
            return b
        if len(b) > 2 and k.op == "const" and k.args[0] in b[2]:
            return b[2][k.args[0]]
        return b[1] if len(b) > 1 else None
    if t.op == "keys":
        return ("list", "str")
    if t.op == "ite":
        a, b = typ(t.args[1]), typ(t.args[2])
        return a if a == b else None
    return None


def nonunique(k, i):
    """key k(i) may take the same value in different iterations i"""
    if k.op == "getitem" and k.args[1] is i:
        return k.args[0].id in NONUNIQUE
    return False


def is_num(t):
    k = kind(t)
    return k in ("int", "float", "num", "idx")


def is_intval(t):
    """t is surely an integer."""
    if t.op == "const":
        return isinstance(t.args[0], int) and not isinstance(t.args[0], bool)
    if t.op in INT_OPS:
        return True
    if t.op in ("var", "bv"):
        return kind(t) == "int"
    if t.op == "in_":
        return t.args[1] == "int"
    if t.op == "poly":
        for m in t.args:
            if m.args[0].denominator != 1:
                return False
            for i in range(1, len(m.args), 2):
                e = m.args[i + 1]
                if e.denominator != 1 or e < 0 or not is_intval(m.args[i]):
                    return False
        return True
    if t.op == "ite":
        return is_intval(t.args[1]) and is_intval(t.args[2])
    if t.op == "call" and t.args[0] in ("np.max", "np.min", "np.maximum", "np.minimum", "np.sum") or t.op == "redl":
        return all(_intitems(a) for a in t.args[1:] if isinstance(a, T))
    return False


def _intitems(t):
    """t is an integer or a collection of integers."""
    if t.op in ("seq", "seqbody"):
        return all(_intitems(i) for i in t.args if isinstance(i, T))
    if t.op == "it":
        return is_intval(t.args[0])
    if t.op == "for":
        return all(_intitems(i) for i in unbind(t)[1][1:])
    if t.op == "if":
        return _intitems(t.args[1]) and _intitems(t.args[2])
    if t.op == "lam":
        return is_intval(unbind(t)[1][-1])
    return is_intval(t)


# ---- polynomials
MAXTERMS = 400
_atoms = {}


def to_poly(t):
    """dict: mono (tuple of (atomid, exp)) -> Fraction"""
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, int):
            v = int(v)
            return {(): Fraction(v)} if v else {}
    if t.op == "poly":
        d = {}
        for m in t.args:
            mono = []
            for i in range(1, len(m.args), 2):
                a = m.args[i]
                _atoms[a.id] = a
                mono.append((a.id, m.args[i + 1]))
            mono.sort()
            d[tuple(mono)] = d.get(tuple(mono), 0) + m.args[0]
        return d
    _atoms[t.id] = t
    return {((t.id, Fraction(1)),): Fraction(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            if c.denominator == 1:
                return const(int(c))
        elif c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    items.sort(key=lambda x: x[0])
    ms = []
    for m, c in items:
        a = [c]
        for aid, e in m:
            a += [_atoms[aid], e]
        ms.append(raw("m", *a))
    return raw("poly", *ms)


@simp("m")
def _m(c, *rest):
    return raw("mm", c, *rest)  # rebuilt inside poly


@simp("mm")
def _mm(c, *rest):
    return raw("mm", c, *rest)


@simp("poly")
def _poly(*ms):
    # args are raw 'm' or rebuilt 'mm' (with substituted atoms); renormalise
    acc = {}
    for m in ms:
        p = {(): m.args[0]}
        for i in range(1, len(m.args), 2):
            p = pmul(p, ppow(to_poly(m.args[i]), m.args[i + 1], m.args[i]))
        acc = padd(acc, p)
    return from_poly(acc)


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        n = d.get(m, 0) + s * c
        if n == 0:
            d.pop(m, None)
        else:
            d[m] = n
    return d


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return tuple(sorted(d.items()))


def _renorm(p):
    """Expand atoms that are polys with positive integer exponent (after exponent merging)."""
    return p


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS:
        ta, tb = from_poly(a), from_poly(b)
        _atoms[ta.id] = ta
        _atoms[tb.id] = tb
        return {tuple(sorted(((ta.id, Fraction(1)), (tb.id, Fraction(1))))): Fraction(1)} if ta is not tb else {
            ((ta.id, Fraction(2)),): Fraction(1)}
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            n = d.get(m, 0) + c1 * c2
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
    # re-expand poly atoms that now carry positive integer powers
    for m in list(d):
        for aid, e in m:
            at = _atoms[aid]
            if at.op == "poly" and e.denominator == 1 and e > 0 and len(at.args) <= 8 and e <= 4:
                c = d.pop(m)
                rest = tuple(x for x in m if x[0] != aid)
                d = padd(d, pmul({rest: c}, ppow(to_poly(at), e, at)))
                break
    return d


def ppow(p, e, t):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return {(): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 or (e.denominator == 1 and c != 0):
            if e.denominator == 1 or c == 1:
                cc = c ** int(e) if e.denominator == 1 else Fraction(1)
                return {tuple((a, x * e) for a, x in m): cc}
        if c > 0 and e.denominator == 2:
            n, dn = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and dn * dn == c.denominator:
                return {tuple((a, x * e) for a, x in m): Fraction(n, dn) ** int(e * 2)}
    if e.denominator == 1 and 0 < e <= 4 and len(p) <= 12:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        return r
    # factor out common scaling for canonical sign/scale when inverse
    if e.denominator == 1 and e < 0 and p:
        lead = p[min(p)]
        if lead != 1:
            q = {m: c / lead for m, c in p.items()}
            tq = from_poly(q)
            _atoms[tq.id] = tq
            return {((tq.id, e),): lead ** int(e)}
    tt = from_poly(p)
    _atoms[tt.id] = tt
    return {((tt.id, e),): Fraction(1)}


def _numok(*ts):
    for t in ts:
        if t.op == "const" and (not isinstance(t.args[0], int) or isinstance(t.args[0], bool)):
            if isinstance(t.args[0], float):  # inf / nan stay atoms
                continue
            if isinstance(t.args[0], bool):
                continue
            return False
    return True


def add(a, b):
    return mk("add", a, b)


@simp("add")
def _add(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "str" or kb == "str":
        return cat(a, b)
    if ka in ("list", "tuple", "gen") or kb in ("list", "tuple"):
        return concat(a, b)
    if a.op == "ite" and kind(a) is None and (b.op != "ite"):
        pass
    if not _numok(a, b):
        return raw("add_", a, b)
    return from_poly(padd(to_poly(a), to_poly(b)))


def sub(a, b):
    if not _numok(a, b):
        return raw("sub_", a, b)
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def neg(a):
    if not _numok(a):
        return raw("neg_", a)
    return from_poly({m: -c for m, c in to_poly(a).items()})


@simp("mul")
def _mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "seq" and x.args[0] in ("list", "tuple"):
            return repeat_seq(x, y)
        if kind(x) == "str":
            return raw("strmul", x, y)
    if not _numok(a, b):
        return raw("mul_", a, b)
    return from_poly(pmul(to_poly(a), to_poly(b)))


def mul(a, b):
    return mk("mul", a, b)


def div(a, b):
    if not _numok(a, b) or b is ZERO:
        return raw("div_", a, b)
    return from_poly(pmul(to_poly(a), ppow(to_poly(b), -1, b)))


def power(a, b):
    if b.op == "const" and isinstance(b.args[0], int) and abs(b.args[0]) <= 6 and not (a is ZERO):
        return from_poly(ppow(to_poly(a), b.args[0], a))
    if b.op == "poly" and len(b.args) == 1 and len(b.args[0].args) == 1 and b.args[0].args[0].denominator == 2:
        return from_poly(ppow(to_poly(a), b.args[0].args[0], a))
    return raw("pow", a, b)


def repeat_seq(s, n):
    if n.op == "const" and isinstance(n.args[0], int) and n.args[0] <= 64:
        return seq(s.args[0], list(s.args[1:]) * max(0, n.args[0]))
    v = fresh("i")
    return seq(s.args[0], [mk_for(v, n, list(s.args[1:]))])


# ---- strings
def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str":
                q = q.args[0]
            if q.op == "const" and not isinstance(q.args[0], str):
                q = const(str(q.args[0]))
            if q.op == "const" and q.args[0] == "":
                continue
            if out and out[-1].op == "const" and q.op == "const":
                out[-1] = const(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        if out[0].op == "const" or kind(out[0]) == "str":
            return out[0]
        return raw("str", out[0])
    return raw("cat", *out)


SIMP["cat"] = cat


@simp("str")
def _str(x):
    if x.op == "const":
        return const(str(x.args[0]))
    if kind(x) == "str":
        return x
    return raw("str", x)


# ---- booleans / decision trees
def _isatom_true(t):
    return t is TRUE


def ite(c, a, b):
    return mk("ite", c, a, b)


_ITE = {}


def _top(t):
    return t.args[0].id if t.op == "ite" else None


def _cof(t, atom, val):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    if t is atom:
        return TRUE if val else FALSE
    return t


def is_boolterm(t):
    return t is TRUE or t is FALSE or t.op in BOOL_OPS or (
        t.op == "ite" and is_boolterm(t.args[1]) and is_boolterm(t.args[2]))


@simp("ite")
def _ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    r = _ITE.get(key)
    if r is not None:
        return r
    # candidate top atoms
    catom = c.args[0] if c.op == "ite" else c
    best = catom
    for x in (a, b):
        if x.op == "ite":
            if x.args[0].id < best.id:
                best = x.args[0]
        elif x.op in BOOL_OPS and x.id < best.id:
            best = x
    hi = _ite3(_cof(c, best, True), _cof(a, best, True), _cof(b, best, True))
    lo = _ite3(_cof(c, best, False), _cof(a, best, False), _cof(b, best, False))
    r = _mknode(best, hi, lo)
    _ITE[key] = r
    return r


def _ite3(c, a, b):
    return _ite(c, a, b)


def _mknode(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if hi.op == lo.op == "seq" and hi.args[0] == lo.args[0] == "list":
        return seq("list", mk_if(atom, hi.args[1:], lo.args[1:]))
    # domain facts linking atoms: isnone vs truth/eq
    if atom.op == "isnone" :
        lo2 = lo
        hi2 = assume_none(hi, atom.args[0])
        if hi2 is not hi:
            return _mknode(atom, hi2, lo2)
    return raw("ite", atom, hi, lo)


def assume_none(t, x):
    """simplify top-level tree of t knowing x is None"""
    if t.op == "truth" and t.args[0] is x:
        return FALSE
    if t.op == "ite":
        at = t.args[0]
        if at.op == "truth" and at.args[0] is x:
            return assume_none(t.args[2], x)
        if at.op == "isnone" and at.args[0] is x:
            return assume_none(t.args[1], x)
        if at.op == "isinstance" and at.args[0] is x and at.args[1] != "NoneType":
            return assume_none(t.args[2], x)
        if at.op == "eq" and x in at.args:
            o = at.args[0] if at.args[1] is x else at.args[1]
            if is_const(o) and o is not NONE:
                return assume_none(t.args[2], x)
        hi, lo = assume_none(t.args[1], x), assume_none(t.args[2], x)
        if hi is not t.args[1] or lo is not t.args[2]:
            return _mknode(at, hi, lo)
    return t


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def truth(x):
    return mk("truth", x)


@simp("truth")
def _truth(x):
    if x.op == "const":
        return TRUE if x.args[0] else FALSE
    if is_boolterm(x):
        return x
    if x.op == "ite":
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x.op == "emptydict":
        return FALSE
    if x.op == "upd" and kind(x) == "dict" and any(i.op == "pair" for i in x.args[1:]):
        return TRUE
    if x.op == "seq":
        if len(x.args) == 1:
            return FALSE
        if any(i.op == "it" for i in x.args[1:]):
            return TRUE
        if len(x.args) == 2 and x.args[1].op == "sp":
            return truth(x.args[1].args[0])
        if all(i.op in ("for", "if", "sp") for i in x.args[1:]):
            r = FALSE
            for i in x.args[1:]:
                r = bor(r, _item_nonempty(i))
            return r
    if x.op in ("setof", "sorted"):
        return truth(x.args[0])
    if x.op == "set_diff" or x.op == "meth" and x.args[0] == "difference" and len(x.args) == 3:
        a, b = x.args[-2:]
        return bnot(set_le(a, b))
    if x.op == "meth" and x.args[0] == "tolist" and len(x.args) == 2:
        return truth(x.args[1])
    if x.op in ("fn", "lib", "lam"):
        return TRUE
    if x.op == "len":
        return truth(x.args[0])
    if x.op == "poly" or x.op == "sum":
        return bnot(eq(x, ZERO))
    if x.op == "cat":
        if any(p.op == "const" and p.args[0] for p in x.args):
            return TRUE
    if x.op == "join" and x.args[1].op == "seq" and all(_nonempty_strings(i) for i in x.args[1].args[1:]):
        return truth(x.args[1])
    if x.op == "meth" and x.args[0] in ("to_string", "to_latex") and len(x.args) == 2:
        return TRUE
    return raw("truth", x)


def _nonempty_strings(i):
    if i.op == "it":
        return kind(i.args[0]) == "str" and truth(i.args[0]) is TRUE
    if i.op == "if":
        return all(_nonempty_strings(j) for j in i.args[1].args + i.args[2].args)
    if i.op == "for":
        vs, (n, *items) = unbind(i)
        return all(_nonempty_strings(j) for j in items)
    return False


def _item_nonempty(i):
    if i.op == "it" or i.op == "pair":
        return TRUE
    if i.op == "sp":
        return truth(i.args[0])
    if i.op == "if":
        return ite(i.args[0], _seq_nonempty(i.args[1]), _seq_nonempty(i.args[2]))
    if i.op == "for":
        vs, (n, *items) = unbind(i)
        c = FALSE
        for j in items:
            c = bor(c, _item_nonempty(j))
        return mk_any(vs[0], n, c)
    return raw("truth", raw("seq", "list", i))


def _seq_nonempty(s):
    r = FALSE
    for i in s.args:
        r = bor(r, _item_nonempty(i))
    return r


def mk_any(v, n, c):
    if c is FALSE:
        return FALSE
    if v.args[0] not in c.free:
        return band(gt(n, ZERO), c)
    if n is ZERO:
        return FALSE
    at = _invariant_atom(n, v) or _invariant_atom(c, v)
    if at is not None:
        no = bnot(at)
        return ite(at, mk_any(v, given(n, at), given(c, at)), mk_any(v, given(n, no), given(c, no)))
    return bind("any", [v], [n, c])


def _invariant_atom(t, v):
    """the smallest condition in the decision tree t that does not depend on v"""
    best, seen, todo = None, set(), [t]
    while todo:
        x = todo.pop()
        if x.op != "ite" or x.id in seen:
            if x.op != "ite" and x.op in BOOL_OPS and v.args[0] not in x.free and (best is None or x.id < best.id):
                best = x
            continue
        seen.add(x.id)
        a = x.args[0]
        if v.args[0] not in a.free and (best is None or a.id < best.id):
            best = a
        todo += [x.args[1], x.args[2]]
    return best


BINDMK["any"] = lambda vs, n, c: mk_any(vs[0], n, c)


def gt(a, b):
    return gt0(sub(a, b))


def lt(a, b):
    return gt0(sub(b, a))


def ge(a, b):
    d = sub(a, b)
    if is_intval(d):
        return gt0(add(d, ONE))
    return bnot(gt0(neg(d)))


def le(a, b):
    return ge(b, a)


def gt0(p):
    return mk("gt0", p)


NONNEG = {"len"}


@simp("gt0")
def _gt0(p):
    if p.op == "const" and isinstance(p.args[0], (int, float)):
        return TRUE if p.args[0] > 0 else FALSE
    if p.op == "ite":
        return ite(p.args[0], gt0(p.args[1]), gt0(p.args[2]))
    if p.op == "len":
        return truth(p.args[0])
    if p.op == "sum" and nonneg(p):
        vs, (n, e) = unbind(p)
        return mk_any(vs[0], n, gt0(e))
    if p.op == "poly":
        pp = to_poly(p)
        if len(pp) == 1 and () in pp:
            return TRUE if pp[()] > 0 else FALSE
        # sign rule for nonneg atoms
        if all(c >= 0 for c in pp.values()) and pp.get((), 0) > 0 and all(
                nonneg(_atoms[a]) for m in pp for a, _ in m):
            return TRUE
        if all(c <= 0 for c in pp.values()) and all(nonneg(_atoms[a]) for m in pp for a, _ in m):
            return FALSE
        if () not in pp and all(c > 0 for c in pp.values()) and all(nonneg(_atoms[a]) for m in pp for a, _ in m):
            r = FALSE
            for m in pp:
                b_ = TRUE
                for a, _ in m:
                    b_ = band(b_, gt0(_atoms[a]))
                r = bor(r, b_)
            return r
        lead = min(m for m in pp if m != ())
        if is_intval(p):
            # divide content
            if pp[lead] < 0:
                return bnot(gt0(add(neg(p), ONE)))
            # single len atom:  len > 0 handled above (poly len-0);  k*len + c
            nz = [m for m in pp if m != ()]
            if len(nz) == 1 and pp[nz[0]] == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1:
                at = _atoms[nz[0][0][0]]
                c = pp.get((), 0)
                if nonneg(at) and c >= 1:
                    return TRUE
        else:
            s = abs(pp[lead])
            if s != 1:
                return gt0(from_poly({m: c / s for m, c in pp.items()}))
    return raw("gt0", p)


def nonneg(t):
    if t.op in ("len", "bv", "idx", "mix", "idiv", "imod", "rank_", "nth_", "tripos", "trirow", "tricol", "count_", "tri_"):
        return True
    if t.op == "var":
        return kind(t) == "int"
    if t.op == "in_" and t.args[1] == "int":
        return True
    if t.op == "const":
        return isinstance(t.args[0], (int, float)) and t.args[0] >= 0
    if t.op == "sum":
        return nonneg_expr(t.args[2])
    if t.op == "ite":
        return nonneg_expr(t.args[1]) and nonneg_expr(t.args[2])
    return False


def nonneg_expr(t):
    if nonneg(t):
        return True
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(_atoms[a]) for a, _ in m) for m, c in to_poly(t).items())
    return False


def eq(a, b):
    return mk("eq", a, b)


def is_empty_lit(t):
    return (t.op == "seq" and len(t.args) == 1) or t.op == "emptydict" or t is const("")


def distinct_const(a, b):
    return a.op == "const" and b.op == "const" and a is not b


@simp("eq")
def _eq(a, b):
    if a is b:
        return TRUE
    if distinct_const(a, b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x.op == "seq" and len(x.args) <= 4 and y.op != "const":
            for k, i in enumerate(x.args[1:], 1):
                if i.op == "if":
                    c, no = i.args[0], bnot(i.args[0])
                    pre, post = list(x.args[1:k]), list(x.args[k + 1:])
                    return ite(c, eq(seq(x.args[0], pre + list(i.args[1].args) + post), given(y, c)),
                               eq(seq(x.args[0], pre + list(i.args[2].args) + post), given(y, no)))
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            return isnone(x)
        if y is TRUE and is_boolterm(x):
            return x
        if (y is TRUE or y is FALSE) and kind(x) == "bool":
            return truth(x) if y is TRUE else bnot(truth(x))
        if y is FALSE and is_boolterm(x):
            return bnot(x)
        if is_empty_lit(y) and not x.op == "const":
            return bnot(truth(x))
        if y is ZERO and x.op == "len":
            return bnot(truth(x.args[0]))
    if a.op == "poly" or b.op == "poly" or (a.op == "len" or b.op == "len"):
        if _numok(a, b) and kind(a) != "str" and kind(b) != "str":
            d = to_poly(sub(a, b))
            if not d:
                return TRUE
            if list(d) == [()]:
                return FALSE
            lead = d[min(m for m in d if m != ())]
            p = {m: c / lead for m, c in d.items()}
            # p == 0 as  pos == neg
            l = {m: c for m, c in p.items() if c > 0}
            r = {m: -c for m, c in p.items() if c < 0}
            x, y = from_poly(l), from_poly(r)
            if y is ZERO and x.op == "len":
                return bnot(truth(x.args[0]))
            return raw("eq", *sorted((x, y), key=lambda t: t.id))
    if a.op == "seq" and b.op == "seq" and a.args[0] == b.args[0]:
        if all(i.op == "it" for i in a.args[1:] + b.args[1:]):
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for i, j in zip(a.args[1:], b.args[1:]):
                r = band(r, eq(i.args[0], j.args[0]))
            return r
    if a.op == b.op == "setof":
        return band(set_le(a, b), set_le(b, a))
    if a.op == "cat" and b.op == "cat":
        r = _cat_eq(a, b)
        if r is not None:
            return r
    return raw("eq", *sorted((a, b), key=lambda t: t.id))


def _cat_eq(a, b):
    x, y = list(a.args), list(b.args)
    while x and y and x[0] is y[0]:
        x.pop(0), y.pop(0)
    while x and y and x[-1] is y[-1]:
        x.pop(), y.pop()
    if len(x) < len(a.args):
        return eq(cat(*x) if x else const(""), cat(*y) if y else const(""))
    return None


def set_le(a, b):
    """every element of a is an element of b"""
    a, b = [strip_seqwrap(x.args[0]) if x.op == "setof" else x for x in (a, b)]
    return TRUE if a is b else raw("set_le", a, b)


def isnone(x):
    return mk("isnone", x)


OPTIONAL_NUMBERS = set()        # ids of inputs that are a number or None
NOTNONE_OPS = {"seq", "upd", "emptydict", "poly", "cat", "lam", "fn", "lib", "call", "meth", "sum", "len", "rows",
               "setof", "sorted", "partial", "obj"}


@simp("isnone")
def _isnone(x):
    if x.op == "const":
        return TRUE if x.args[0] is None else FALSE
    if x.op == "ite":
        return ite(x.args[0], isnone(x.args[1]), isnone(x.args[2]))
    if x.op in NOTNONE_OPS or kind(x) not in (None, "none"):
        return FALSE
    return raw("isnone", x)


KINDTYPES = {"list": {"list", "object"}, "tuple": {"tuple", "object"}, "dict": {"dict", "object"},
             "str": {"str", "object"}, "int": {"int", "object"}, "bool": {"bool", "int", "object"},
             "float": {"float", "object"}, "set": {"set"}, "none": {"NoneType"}, "df": {"pd.DataFrame"},
             "series": {"pd.Series"}, "arr": {"np.ndarray"}, "func": {"function"}}


UNCHECKED = set()      # ids of inputs whose declared types are themselves to be checked by the code


def _unchecked(x):
    while x.op == "getitem":
        x = x.args[0]
    return x.id in UNCHECKED


@simp("isinstance")
def _isinstance(x, tn):
    if x.op == "ite":
        return ite(x.args[0], mk("isinstance", x.args[1], tn), mk("isinstance", x.args[2], tn))
    k = kind(x)
    if k in KINDTYPES and not _unchecked(x):
        return TRUE if tn in KINDTYPES[k] else FALSE
    return raw("isinstance", x, tn)


@simp("in")
def _in(x, s):
    s = strip_seqwrap(s)
    if s.op == "ite":
        return ite(s.args[0], mk("in", x, s.args[1]), mk("in", x, s.args[2]))
    if s.op == "emptydict":
        return FALSE
    if s.op == "seq" or s.op == "upd":
        r = FALSE
        items = s.args[1:]
        if s.op == "upd":
            r = mk("in", x, s.args[0])
        ok = True
        for it in items:
            e = _item_in(x, it)
            r = bor(r, e)
        return r
    if kind(s) == "str" and kind(x) == "str" and s.op == "const" and x.op == "const":
        return TRUE if x.args[0] in s.args[0] else FALSE
    # element of the very sequence: x = s[i] with bound index -> member
    if x.op == "getitem" and x.args[0] is s and x.args[1].op in ("var", "bv"):
        return TRUE
    return raw("in", x, s)


def _item_in(x, it):
    if it.op in ("it", "pair"):
        return eq(x, it.args[0])
    if it.op == "sp":
        return mk("in", x, it.args[0])
    if it.op == "if":
        a = b = FALSE
        for j in it.args[1].args:
            a = bor(a, _item_in(x, j))
        for j in it.args[2].args:
            b = bor(b, _item_in(x, j))
        return ite(it.args[0], a, b)
    if it.op == "for":
        vs, (n, *items) = unbind(it)
        c = FALSE
        for j in items:
            c = bor(c, _item_in(x, j))
        # x is one of the generated elements syntactically?
        if len(items) == 1 and items[0].op in ("it", "pair"):
            m = match_var(items[0].args[0], x, vs[0])
            if m is not None:
                k = RANGE.get(m.args[0]) if m.op == "var" else None
                d = sub(n, k) if k is not None else ZERO
                if d.op != "const" or d.args[0] >= 0:
                    return TRUE
                if items[0].args[0] is vs[0]:
                    return lt(m, n)
        return mk_any(vs[0], n, c)
    return raw("in", x, raw("seq", "list", it))


def match_var(pat, t, v):
    """if pat[v:=s] is t for some s that is an open index var, return s."""
    if v.args[0] not in pat.free:
        return None
    if pat is v:
        return t if t.op in ("var", "bv") else None
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    got = None
    for a, b in zip(pat.args, t.args):
        if isinstance(a, T):
            if not isinstance(b, T):
                return None
            if a is b:
                continue
            m = match_var(a, b, v)
            if m is None or (got is not None and got is not m):
                return None
            got = m
        elif a != b:
            return None
    return got


def match_any(pat, t, v):
    """if pat[v:=s] is t for some term s, return s (s arbitrary)."""
    if v.args[0] not in pat.free:
        return None
    if pat is v:
        return t
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    got = None
    for a, b in zip(pat.args, t.args):
        if isinstance(a, T):
            if not isinstance(b, T):
                return None
            if a is b:
                continue
            m = match_any(a, b, v)
            if m is None or (got is not None and got is not m):
                return None
            got = m
        elif a != b:
            return None
    return got


def strip_seqwrap(s):
    """Remove wrappers that do not change membership/iteration content."""
    while True:
        if s.op == "seq" and len(s.args) == 2 and s.args[1].op == "sp":
            s = s.args[1].args[0]
        elif s.op in ("setof", "keys", "sorted"):
            s = s.args[0]
        else:
            return s


# ---- sequences and keyed updates
EMPTYDICT = raw("emptydict")


def it(v):
    return raw("it", v)


def pair(k, v):
    return mk("pair", k, v)


def norm_items(items):
    out = []
    for i in items:
        if i.op == "seqbody":
            out += norm_items(i.args)
            continue
        if i.op == "sp":
            s = i.args[0]
            if s.op == "seq":
                out += list(s.args[1:])
                continue
            if s.op == "ite":
                a = norm_items([raw("sp", s.args[1])])
                b = norm_items([raw("sp", s.args[2])])
                out += mk_if(s.args[0], a, b)
                continue
            if s.op == "emptydict":
                continue
        if i.op == "for" and False:
            continue
        out.append(i)
    return out


def seq(kind_, items):
    return raw("seq", kind_, *norm_items(items))


SIMP["seq"] = lambda k, *items: seq(k, items)


@simp("sp")
def _sp(s):
    return raw("sp", s)


def body(items):
    return raw("body", *norm_items(items))


SIMP["body"] = lambda *items: body(items)


def given(t, c):
    """the decision tree t simplified for the case that c holds"""
    if t.op in BOOL_OPS:
        return FALSE if band(c, t) is FALSE else TRUE if band(c, bnot(t)) is FALSE else t
    if t.op != "ite":
        return t
    at = t.args[0]
    if band(c, at) is FALSE:
        return given(t.args[2], c)
    if band(c, bnot(at)) is FALSE:
        return given(t.args[1], c)
    hi, lo = given(t.args[1], c), given(t.args[2], c)
    return t if hi is t.args[1] and lo is t.args[2] else ite(at, hi, lo)


def _given_item(i, c):
    if i.op == "it" and i.args[0].op == "ite":
        return it(given(i.args[0], c))
    if i.op == "pair" and (i.args[0].op == "ite" or i.args[1].op == "ite"):
        return pair(given(i.args[0], c), given(i.args[1], c))
    return i


def mk_if(c, a, b):
    """items (list) for conditional a/b lists; returns list of items."""
    a, b = list(a), list(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = [_given_item(x, c) for x in a], [_given_item(x, bnot(c)) for x in b]
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    post = []
    while a and b and a[-1] is b[-1]:
        post.insert(0, a.pop())
        b.pop()
    if not a and not b:
        return pre + post
    if len(a) == len(b) and all(x.op == y.op == "it" for x, y in zip(a, b)):
        return pre + [it(ite(c, x.args[0], y.args[0])) for x, y in zip(a, b)] + post
    if len(a) == len(b) and all(x.op == y.op == "pair" and x.args[0] is y.args[0] for x, y in zip(a, b)):
        return pre + [pair(x.args[0], ite(c, x.args[1], y.args[1])) for x, y in zip(a, b)] + post
    # a loop without iterations needs no guard
    for g, x, y in ((c, a, b), (bnot(c), b, a)):
        if not y and len(x) == 1 and x[0].op == "for":
            n = unbind(x[0])[1][0]
            if is_intval(n) and band(gt0(n), bnot(g)) is FALSE:
                return pre + x + post
    nc = bnot(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    # nested: if(c, [if(d, X, [])], []) -> if(c&d, X, [])
    if not b and len(a) == 1 and a[0].op == "if" and not a[0].args[2].args:
        return pre + mk_if(band(c, a[0].args[0]), a[0].args[1].args, []) + post
    if not a and len(b) == 1 and b[0].op == "if" and not b[0].args[2].args:
        return pre + mk_if(band(nc if nc.id != c.id else bnot(c), b[0].args[0]), b[0].args[1].args, []) + post
    return pre + [raw("if", c, body(a), body(b))] + post


@simp("if")
def _if(c, a, b):
    l = mk_if(c, a.args, b.args)
    if len(l) == 1:
        return l[0]
    return raw("seqbody", *l)


SIMP["seqbody"] = lambda *items: raw("seqbody", *norm_items(items))


def mk_for(v, n, items):
    items = norm_items(items)
    if not items:
        return raw("seqbody")
    if n.op == "const" and isinstance(n.args[0], int) and n.args[0] <= 0:
        return raw("seqbody")
    if len(items) == 1 and items[0].op == "it":
        e = items[0].args[0]
        if e.op == "getitem" and e.args[1] is v and v.args[0] not in e.args[0].free and length(e.args[0]) is n:
            return raw("sp", e.args[0])
    # bounded prefix: for v < len(X[:b]): body(X[:b][v])  ->  for v < len(X): if v < b: body(X[v])
    if n.op == "len" and n.args[0].op == "getitem" and n.args[0].args[1].op == "slice":
        X = n.args[0].args[0]
        a_, b_, s_ = n.args[0].args[1].args
        if a_ is NONE and s_ is NONE and b_ is not NONE and nonneg_expr(b_):
            return mk_for(v, length(X), mk_if(lt(v, b_), items, []))
    # triangular loops:  for v < n: for w < n: if w < v + c: X   ->  for w < v + c: X     (c <= 1)
    if any(j.op == "for" and j.args[1] is n for j in items):
        items = [_triangular(v, n, j) for j in items]
    # hoist loop-invariant guard:  for i: if c: X   (c independent of i) -> if c: for i: X
    if len(items) == 1 and items[0].op == "if" and v.args[0] not in items[0].args[0].free:
        c = items[0].args[0]
        a = [mk_for(v, n, items[0].args[1].args)]
        b = [mk_for(v, n, items[0].args[2].args)]
        l = mk_if(c, norm_items(a), norm_items(b))
        return l[0] if len(l) == 1 else raw("seqbody", *l)
    # const trip count
    if n.op == "const" and isinstance(n.args[0], int) and n.args[0] <= 16:
        out = []
        for k in range(n.args[0]):
            out += [subst(i, {v.args[0]: const(k)}) for i in items]
        return raw("seqbody", *norm_items(out))
    return bind("for", [v], [n] + items)


def _triangular(v, n, j):
    if j.op != "for" or j.args[1] is not n:
        return j
    vs, (n2, *its) = unbind(j)
    w = vs[0]
    if len(its) != 1 or its[0].op != "if":
        return j
    c, a, b = its[0].args
    inv = False
    if not a.args:
        a, b, c, inv = b, a, bnot(c), True
    if b.args or c.op != "gt0" and not (c.op == "ite" and c.args[0].op == "gt0"):
        return j
    for bound in (add(v, ONE), v):
        if gt(bound, w) is c:
            return mk_for(w, bound, list(a.args))
    return j


BINDMK["for"] = lambda vs, n, *items: mk_for(vs[0], n, list(items))


@simp("pair")
def _pair(k, v):
    return raw("pair", k, v)


def concat(a, b):
    ka = kind(a) if kind(a) in ("list", "tuple", "gen") else kind(b)
    ia = list(a.args[1:]) if a.op == "seq" else [raw("sp", a)]
    ib = list(b.args[1:]) if b.op == "seq" else [raw("sp", b)]
    return seq(ka, ia + ib)


SHAPES = {}        # id of an array input -> declared dimensions


def static_shape(t):
    d = SHAPES.get(t.id)
    if d is not None:
        return d
    if t.op == "getitem" and t.args[1].op in ("var", "bv", "const", "poly") and (t.args[1].op != "const" or isinstance(t.args[1].args[0], int)):
        d = static_shape(t.args[0])
        return d[1:] if d else None
    return None


def length(x):
    return mk("len", x)


@simp("len")
def _len(x):
    d = static_shape(x)
    if d:
        return d[0]
    if x.op == "const" and isinstance(x.args[0], (str, tuple)):
        return const(len(x.args[0]))
    if x.op in ("keys", "sorted", "reversed"):
        return length(x.args[0])
    if x.op == "emptydict":
        return ZERO
    if x.op == "seq":
        tot = ZERO
        for i in x.args[1:]:
            l = _item_len(i)
            if l is None:
                return raw("len", x)
            tot = add(tot, l)
        return tot
    if x.op == "upd" and kind(x) == "dict":
        tot = ZERO
        for i in x.args[1:]:
            l = _item_len(i)
            if l is None or x.args[0] is not EMPTYDICT:
                return raw("len", x)
            tot = add(tot, l)
        return tot
    if x.op == "ite":
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == "range":
        return x.args[0]
    if x.op == "attr" and x.args[1] == "data" and x.args[0].op == "call" and x.args[0].args == ("go.Figure",):
        return ZERO     # a new figure has no traces
    if x.op == "call" and x.args[0] == "np.arange" and len(x.args) == 2 and is_intval(x.args[1]):
        return x.args[1]
    if x.op == "upd":
        return length(x.args[0])
    if x.op == "getitem" and x.args[1].op == "slice":
        a, b, s = x.args[1].args
        if a is NONE and b is NONE and s.op == "const" and s.args[0] == -1:
            return length(x.args[0])
        if s is NONE:
            lo = ZERO if a is NONE else a
            n = length(x.args[0])
            if b is NONE and lo.op == "const" and lo.args[0] >= 0:
                return sub(n, lo)
            if b.op == "const" and isinstance(b.args[0], int) and b.args[0] < 0 and lo.op == "const" and lo.args[0] >= 0:
                return sub(add(n, b), lo)
    al = LENALIAS.get(x.id)
    if al is not None:
        return length(al)
    return raw("len", x)


def _item_len(i):
    if i.op in ("it", "pair"):
        return ONE
    if i.op == "sp":
        return length(i.args[0])
    if i.op == "for":
        vs, (n, *items) = unbind(i)
        tot = ZERO
        for j in items:
            l = _item_len(j)
            if l is None or vs[0].args[0] in l.free:
                return None
            tot = add(tot, l)
        return mul(n, tot)
    if i.op == "if":
        a = b = ZERO
        for j in i.args[1].args:
            l = _item_len(j)
            if l is None:
                return None
            a = add(a, l)
        for j in i.args[2].args:
            l = _item_len(j)
            if l is None:
                return None
            b = add(b, l)
        return ite(i.args[0], a, b)
    return None


def slice_(a, b, s=NONE):
    if a is ZERO:
        a = NONE
    if s is ONE:
        s = NONE
    return raw("slice", a, b, s)


SIMP["slice"] = slice_


def getitem(b, k):
    return mk("getitem", b, k)


def _plain(items):
    return all(i.op == "it" for i in items)


@simp("getitem")
def _getitem(b, k):
    if b.op == "ite" and is_boolterm(b):
        return raw("getitem", b, k)
    if b.op == "ite":
        return ite(b.args[0], getitem(b.args[1], k), getitem(b.args[2], k))
    if k.op == "ite" and b.op in ("seq", "upd"):
        return ite(k.args[0], getitem(b, k.args[1]), getitem(b, k.args[2]))
    if b.op == "const" and isinstance(b.args[0], (str, tuple)) and k.op == "const" and isinstance(k.args[0], int):
        try:
            return const(b.args[0][k.args[0]])
        except IndexError:
            return opaque("indexerror")
    if b.op == "seq":
        items = b.args[1:]
        if k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
            i = k.args[0]
            if i >= 0:
                if len(items) > i and _plain(items[: i + 1]):
                    return items[i].args[0]
                # skip leading plain, go into next
                j = 0
                while j < len(items) and items[j].op == "it":
                    j += 1
                if j == len(items):
                    return opaque("indexerror")
            else:
                n = -i
                if len(items) >= n and _plain(items[len(items) - n:]):
                    return items[len(items) - n].args[0]
                if _plain(items):
                    return opaque("indexerror")
        if k.op == "slice":
            r = _slice_seq(b, k)
            if r is not None:
                return r
        if len(items) == 1 and items[0].op == "if":
            x = items[0]
            return ite(x.args[0], getitem(seq(b.args[0], x.args[1].args), k), getitem(seq(b.args[0], x.args[2].args), k))
        if len(items) == 1 and items[0].op == "sp":
            return getitem(items[0].args[0], k)
        if len(items) == 1 and items[0].op == "for" and k.op != "slice":
            vs, (n, *its) = unbind(items[0])
            if len(its) == 1 and its[0].op == "it":
                kk = k
                if k.op == "const" and isinstance(k.args[0], int) and k.args[0] < 0:
                    kk = add(n, k)
                return subst(its[0].args[0], {vs[0].args[0]: kk})
        if k.op != "slice" and len(items) == 2 and items[0].op in ("for", "sp") and items[1].op == "it":
            # [... for i in n] + [x] : index n -> x
            l = _item_len(items[0])
            if l is not None and (k is l or k is const(-1)):
                return items[1].args[0]
        if k.op == "poly" and len(items) > 1 and items[0].op == "it":
            # [x, *l] at a position surely after x
            j = 0
            while j < len(items) - 1 and items[j].op == "it":
                j += 1
            kk = sub(k, const(j))
            if is_intval(k) and nonneg_expr(kk):
                return getitem(seq(b.args[0], items[j:]), kk)
    if b.op == "upd" and k.op != "slice":
        r = _lookup(b, k)
        if r is not None:
            return r
    if b.op == "getitem" and b.args[1].op == "slice" and k.op != "slice":
        a, e, s = b.args[1].args
        if s is NONE and k.op in ("var", "bv", "poly") or (k.op == "const" and isinstance(k.args[0], int) and k.args[0] >= 0 and s is NONE):
            if a is NONE:
                return getitem(b.args[0], k)
            if a.op == "const" and isinstance(a.args[0], int) and a.args[0] >= 0:
                return getitem(b.args[0], add(k, a))
        if s is const(-1) and a is NONE and e is NONE:
            n = length(b.args[0])
            if k.op in ("var", "bv"):
                return getitem(b.args[0], sub(sub(n, k), ONE))
    if b.op == "range":
        return raw("getitem", b, k)
    if b.op == "call" and b.args[0] == "np.arange" and len(b.args) == 2 and is_intval(b.args[1]) and \
            (k.op in ("var", "bv") or k.op == "const" and isinstance(k.args[0], int) and k.args[0] >= 0):
        return k
    if b.op == "attr" and b.args[1] == "shape" and k.op == "const" and isinstance(k.args[0], int):
        d = static_shape(b.args[0])
        if d is not None and -len(d) <= k.args[0] < len(d):
            return d[k.args[0]]
        if k is ZERO:
            return length(b.args[0])
    if b.op == "keys":
        if b.args[0].op == "upd":
            its = b.args[0].args[1:]
            if b.args[0].args[0] is EMPTYDICT:
                ks = _keys_items(its)
                if ks is not None:
                    return getitem(seq("list", ks), k)
    return raw("getitem", b, k)


def _keys_items(items):
    out = []
    for i in items:
        if i.op == "pair":
            out.append(it(i.args[0]))
        elif i.op == "for":
            vs, (n, *its) = unbind(i)
            x = _keys_items(its)
            if x is None:
                return None
            out.append(mk_for(vs[0], n, x))
        elif i.op == "if":
            a, b = _keys_items(i.args[1].args), _keys_items(i.args[2].args)
            if a is None or b is None:
                return None
            out += mk_if(i.args[0], a, b)
        elif i.op == "sp":
            out.append(raw("sp", mk("keys", i.args[0])))
        else:
            return None
    return out


@simp("keys")
def _keys(d):
    if d.op == "upd" and d.args[0] is EMPTYDICT:
        ks = _keys_items(d.args[1:])
        if ks is not None:
            return seq("list", ks)
    if d.op == "emptydict":
        return seq("list", [])
    if d.op == "ite":
        return ite(d.args[0], mk("keys", d.args[1]), mk("keys", d.args[2]))
    if kind(d) in ("list", "tuple"):
        return d
    if d.op == "upd":
        # updates at keys surely present keep the key list
        return raw("keys", d)
    return raw("keys", d)


def definitely_distinct(a, b):
    if a is b:
        return False
    if a.op == "const" and b.op == "const":
        return a.args[0] != b.args[0]
    if a.op == "loc" or b.op == "loc":
        return a.op != b.op and False
    # cat with const prefix/suffix conflicts
    if a.op == "cat" and b.op == "cat":
        x, y = list(a.args), list(b.args)
        if x[0].op == "const" and y[0].op == "const":
            p, q = x[0].args[0], y[0].args[0]
            if not (p.startswith(q) or q.startswith(p)):
                return True
        if x[-1].op == "const" and y[-1].op == "const":
            p, q = x[-1].args[0], y[-1].args[0]
            if not (p.endswith(q) or q.endswith(p)):
                return True
    if a.op == "cat" and b.op == "const" or a.op == "const" and b.op == "cat":
        c, s = (a, b) if a.op == "cat" else (b, a)
        if isinstance(s.args[0], str):
            f = c.args[0]
            if f.op == "const" and not s.args[0].startswith(f.args[0]):
                return True
            f = c.args[-1]
            if f.op == "const" and not s.args[0].endswith(f.args[0]):
                return True
        else:
            return True
    if a.op == "attr_" and b.op != "attr_" or b.op == "attr_" and a.op != "attr_":
        return True
    if a.op == "attr_" and b.op == "attr_":
        return a is not b
    return False


def _lookup(b, k, isdict=False):
    """Look k up in upd(b). None if undecided."""
    if k.op == "slice" or k.op == "seq" and k.args[0] == "list":
        # column selection: commutes if all plain pair keys distinct
        return None
    for i in reversed(b.args[1:]):
        if i.op == "pair":
            kk, v = i.args
            if kk is k:
                return v
            if definitely_distinct(kk, k):
                continue
            if kk.op in ("var", "bv") or k.op in ("var", "bv"):
                return None
            # symbolic keys with different terms: assume an index/elem of distinct form may alias
            return None
        if i.op == "for":
            vs, (n, *its) = unbind(i)
            if len(its) == 1 and its[0].op == "pair":
                m = match_any(its[0].args[0], k, vs[0])
                if m is not None:
                    return subst(its[0].args[1], {vs[0].args[0]: m})
                if definitely_distinct(its[0].args[0], k):
                    continue
            return None
        if i.op == "sp":
            if (isdict or kind(b) == "dict") and k.op == "const":
                idx = b.args.index(i)
                return ite(mk("in", k, i.args[0]), getitem(i.args[0], k), getitem(upd(b.args[0], list(b.args[1:idx])), k))
            return None
        if i.op == "if":
            isdict = isdict or kind(b) == "dict"
            a = _lookup(raw("upd", raw("hole", "base"), *i.args[1].args), k, isdict) if i.args[1].args else getitem(raw("hole", "base"), k)
            c = _lookup(raw("upd", raw("hole", "base"), *i.args[2].args), k, isdict) if i.args[2].args else getitem(raw("hole", "base"), k)
            if a is None or c is None:
                return None
            hb = getitem(raw("hole", "base"), k)
            idx = b.args.index(i)
            rest = getitem(upd(b.args[0], list(b.args[1:idx])), k)
            a, c = replace(a, {hb.id: rest}), replace(c, {hb.id: rest})
            return ite(i.args[0], a, c)
    if b.args[0] is EMPTYDICT:
        if k.op == "const":
            return opaque("keyerror:" + repr(k.args[0]))
        return None
    return getitem(b.args[0], k)


def _slice_seq(b, k):
    a, e, s = k.args
    items = b.args[1:]
    knd = b.args[0]

    def ci(x):
        return None if x is NONE else x.args[0] if x.op == "const" else "?"
    ca, ce, cs = ci(a), ci(e), ci(s)
    if "?" not in (ca, ce, cs) and _plain(items):
        return seq(knd, list(items)[slice(ca, ce, cs)])
    if cs is None and ce is None and isinstance(ca, int) and 0 <= ca <= len(items) and _plain(items[:ca]):
        return seq(knd, items[ca:])
    if cs is None and ca is None and isinstance(ce, int):
        if ce >= 0 and len(items) >= ce and _plain(items[:ce]):
            return seq(knd, items[:ce])
        if ce < 0 and len(items) >= -ce and _plain(items[ce:]):
            return seq(knd, items[:ce])
    if len(items) == 1 and items[0].op == "for" and cs is None:
        vs, (n, *its) = unbind(items[0])
        if len(its) == 1 and its[0].op == "it":
            lo = ZERO if ca is None else a
            if lo.op == "const" and lo.args[0] < 0:
                return None
            if e is NONE:
                hi = n
            elif e.op == "const" and e.args[0] < 0:
                hi = add(n, e)
            else:
                return None
            return seq(knd, [mk_for(vs[0], sub(hi, lo),
                                    [it(subst(its[0].args[0], {vs[0].args[0]: add(vs[0], lo)}))])])
    if cs == -1 and ca is None and ce is None and len(items) == 1 and items[0].op == "for":
        return None
    return None


def upd(base, items):
    return mk("upd", base, *items)


@simp("upd")
def _upd(base, *items):
    items = norm_items(items)
    out = []
    if base.op == "upd":
        out = list(base.args[1:])
        base = base.args[0]
    for i in items:
        if i.op == "pair":
            k, v = i.args
            # overwrite an earlier identical key if everything after is distinct
            j = len(out) - 1
            hit = None
            while j >= 0:
                o = out[j]
                if o.op == "pair":
                    if o.args[0] is k:
                        hit = j
                        break
                    if not definitely_distinct(o.args[0], k) and not (
                            o.args[0].op not in ("const",) and False):
                        break
                    j -= 1
                    continue
                break
            if hit is not None:
                out[hit] = pair(k, v)
                continue
        out.append(i)
    # set-to-itself is a no-op
    if base is not EMPTYDICT:
        out2 = []
        for n_, i in enumerate(out):
            if i.op == "pair" and getitem(base, i.args[0]) is i.args[1] and not out2 and base.op != "emptydict":
                continue
            out2.append(i)
        out = out2
    if not out:
        return base
    if base is EMPTYDICT and out[0].op == "sp" and (out[0].args[0].op in ("var", "bv") or kind(out[0].args[0]) == "dict"):
        return upd(out[0].args[0], out[1:])
    # full elementwise replacement of a list:  upd(S, for i<len S: pair(i, f))
    if len(out) == 1 and out[0].op == "for" and kind(base) in ("list", "tuple", None):
        vs, (n, *its) = unbind(out[0])
        if len(its) == 1 and its[0].op == "pair" and its[0].args[0] is vs[0] and n is length(base):
            return seq("list", [mk_for(vs[0], n, [it(its[0].args[1])])])
    if base.op == "seq" and base.args[0] == "list":
        if all(i.op == "pair" and i.args[0].op == "const" and isinstance(i.args[0].args[0], int) for i in out):
            its = list(base.args[1:])
            ok = True
            for i in out:
                kk = i.args[0].args[0]
                if -len(its) <= kk < len(its) and _plain(its):
                    its[kk] = it(i.args[1])
                else:
                    ok = False
            if ok:
                return seq("list", its)
    return raw("upd", base, *out)


def mk_sum(v, n, e):
    if e is ZERO or n is ZERO:
        return ZERO
    if v.args[0] not in e.free:
        return mul(n, e)
    return bind("sum", [v], [n, e])


BINDMK["sum"] = lambda vs, n, e: mk_sum(vs[0], n, e)
BINDMK["find"] = lambda vs, n, c, val, d: bind("find", vs, [n, c, val, d])


# ----------------------------------------------------------------- printing
def show(t, depth=5):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op in ("var", "bv"):
        return f"{'%' if op == 'bv' else ''}{a[0]}"
    if op == "in_":
        return str(a[0])
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if op == "poly":
        out = []
        for m in a:
            fs = [] if m.args[0] == 1 and len(m.args) > 1 else [str(m.args[0]) if m.args[0].denominator < 10**9 else repr(float(m.args[0]))]
            for i in range(1, len(m.args), 2):
                e = m.args[i + 1]
                fs.append(s(m.args[i]) + ("" if e == 1 else f"^{e}"))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "getitem":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a[:2])
    if op == "seq":
        o, c = {"tuple": "()", "list": "[]"}.get(a[0], "<>")
        return o + ", ".join(s(x) for x in a[1:]) + c
    if op == "it":
        return s(a[0])
    if op == "sp":
        return "*" + s(a[0])
    if op == "for":
        return f"{{{', '.join(show(x, depth - 1) for x in a[2:])} for %{a[0]}<{s(a[1])}}}"
    if op == "if":
        e = f" else {', '.join(s(x) for x in a[2].args)}" if a[2].args else ""
        return f"{{{', '.join(s(x) for x in a[1].args)} if {s(a[0])}{e}}}"
    if op == "pair":
        return f"{s(a[0])}: {s(a[1])}"
    if op == "upd":
        b = "" if a[0] is EMPTYDICT else s(a[0]) + " | "
        return "{" + b + ", ".join(s(x) for x in a[1:]) + "}"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "cat":
        return 'f"' + "".join(x.args[0] if x.op == "const" else "{" + s(x) + "}" for x in a) + '"'
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "call":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "meth":
        return f"{s(a[1])}.{a[0]}({', '.join(s(x) for x in a[2:])})"
    if op == "kw":
        return f"{a[0]}={s(a[1])}"
    if op == "truth":
        return f"bool({s(a[0])})"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "gt0":
        return f"({s(a[0])} > 0)"
    if op == "in":
        return f"({s(a[0])} in {s(a[1])})"
    if op == "isnone":
        return f"({s(a[0])} is None)"
    return f"{op}({', '.join(s(x) if isinstance(x, T) else str(x) for x in a)})"
