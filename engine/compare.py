"""Static comparison of two value-graph terms (code vs reference).

EQ      the normal forms coincide (proved).
DIFF    a rigid mismatch: at an aligned position the two sides are different
        interpreted values that no library identity can reconcile.
UNK     the terms are spelled differently and the normaliser cannot decide.
"""
from .terms import *
from . import terms as tm
from .terms import is_intval

EQ, DIFF, UNK = "EQ", "DIFF", "UNK"
BUDGET = 60000

# functions that (may) return their argument unchanged up to representation
IDLIKE = {"np.array", "tolist", "astype", "builtins.float", "int", "str", "reset_index", "copy", "dictof", "droplevel",
          "np.reshape", "builtins.type", "np.transpose", "sort_index", "np.float64", "fillna", "mask"}
# distinct members of a family are never the same value on the same arguments
FAMILIES = [
    {"np.zeros", "np.ones", "np.empty"}, {"np.sum", "np.mean", "np.max", "np.min", "np.prod", "np.std", "np.cumsum"},
    {"np.hstack", "np.vstack"}, {"np.exp", "np.log", "np.abs"}, {"np.maximum", "np.minimum"},
    {"np.tril_indices", "np.triu_indices"}, {"np.tril_indices_from", "np.triu_indices_from"},
    {"scipy.logsumexp", "np.log", "np.sum"}, {"mean", "max", "min", "sum", "std", "median", "quantile", "corr", "cov"},
    {"go.Contour", "go.Surface", "go.Heatmap", "go.Scatter"}, {"ValueError", "KeyError", "TypeError"},
    {"np.std", "np.var"}, {"np.repeat", "np.tile"},
]
INTERP = {"const", "in_", "var", "bv", "poly", "len", "getitem", "eq", "gt0", "in", "isnone", "truth", "cat", "seq",
          "upd", "it", "pair", "emptydict", "keys", "range", "isinstance", "attr", "lib", "slice", "qvar", "nan",
          "if", "for", "body", "any", "sum", "ite", "sorted", "setof", "loc"}


def leafish(t):
    return t.op in ("const", "in_", "var", "bv", "lib", "nan", "emptydict", "ellipsis", "qvar")


def rigid_leaf(a, b):
    if a.op == "lib" and b.op == "lib":
        x, y = a.args[0], b.args[0]
        return any(x in f and y in f for f in FAMILIES)
    if a.op == "lib" or b.op == "lib":
        return a.op == "const" or b.op == "const"
    return True


class Result:
    def __init__(self, v, why=None):
        self.v, self.why = v, why

    def __repr__(self):
        return f"{self.v}: {self.why}"


def piece(t):
    """the string a fixed piece between separators is taken from"""
    if t.op == "getitem" and t.args[1].op == "const" and t.args[0].op == "meth" and t.args[0].args[0] in ("split", "rsplit", "partition", "rpartition"):
        return t.args[0].args[1]
    return None


def half(t):
    return t.args[0] if t.op == "getitem" and t.args[1].op == "slice" else None


def user_dict(t):
    """a dictionary given by the user (it may be empty)"""
    if t.op == "ite":
        return user_dict(t.args[1]) and user_dict(t.args[2])
    return t.op in ("in_", "emptydict") or t.op == "getitem" and t.args[1].op == "const" and user_dict(t.args[0])


def rational_in_one_length(pa, pb):
    """two rational functions of one number of elements that are nowhere equal from 2 to 12 elements"""
    ls = set()

    def ev(p, n):
        from fractions import Fraction
        tot = Fraction(0)
        for m, c in p.items():
            v = Fraction(c)
            for k, e in m:
                x = tm._atoms[k]
                if x.op == "len" and is_free(x.args[0]):
                    ls.add(k)
                    z = Fraction(n)
                elif x.op in ("poly", "pow") or len(tm.to_poly(x)) > 1:
                    z = ev(tm.to_poly(x), n)
                else:
                    raise ValueError
                if e != int(e) or z == 0 and e < 0:
                    raise ValueError
                v *= z ** int(e)
            tot += v
        return tot
    try:
        ok = all(ev(pa, n) != ev(pb, n) for n in range(2, 13))
    except (ValueError, TypeError, OverflowError, RecursionError):
        return False
    return ok and len(ls) == 1


def at_least(x, y):
    """more than k > 0 selected elements, against any selected element"""
    if x.op != "gt0" or y.op != "any":
        return False
    p = tm.to_poly(x.args[0])
    k = p.get((), 0)
    ls = [m for m in p if m]
    if k >= 0 or len(ls) != 1 or len(ls[0]) != 1 or ls[0][0][1] != 1 or p[ls[0]] != 1:
        return False
    l = tm._atoms[ls[0][0][0]]
    if l.op != "len" or l.args[0].op != "seq" or len(l.args[0].args) != 2 or l.args[0].args[1].op != "for":
        return False
    vs, (n, *its) = unbind(l.args[0].args[1])
    yb = open_with(y, vs)
    if yb is None or yb[0] is not n or n.op != "len" or not is_free(n.args[0]) or len(its) != 1 or its[0].op != "if":
        return False
    c, t, f = its[0].args
    if len(t.args) + len(f.args) != 1 or (t.args + f.args)[0].op != "it":
        return False
    return yb[1] is (c if t.args else bnot(c)) and all(interpreted(z) and feasible(z) for z in atoms(c))


def default_wins(x):
    """the user's dictionary D of a loop `for k, v in D.items(): base.setdefault(k, v)`"""
    if x.op != "fold":
        return None
    vs, xs = unbind(x)
    if len(vs) != 2 or len(xs) != 3 or xs[0].op != "len" or not user_dict(xs[0].args[0]):
        return None
    dd, w = xs[0].args[0], xs[1]
    if w.op != "upd" or w.args[0] is not vs[1] or len(w.args) != 2 or w.args[1].op != "pair":
        return None
    k, v = w.args[1].args[:2]
    if k is getitem(mk("keys", dd), vs[0]) and v.op == "ite" and v.args[0].op == "in" and v.args[0].args[0] is k and v.args[0].args[1] is vs[1] \
            and v.args[1].op == "getitem" and v.args[1].args[0] is vs[1] and v.args[1].args[1] is k:
        return dd
    return None


def entries(x):
    return [i for i in unbind(x)[1][2].args if isinstance(i, T)]


def given(i):
    """`if d: {**d}` and `{**d}` are the same entries"""
    if i.op == "if" and not i.args[2].args and len(i.args[1].args) == 1 and i.args[1].args[0].op == "sp" and i.args[0].op in ("bool", "truth") \
            and i.args[0].args[0] is i.args[1].args[0].args[0]:
        return i.args[1].args[0]
    return i


def leaves_of(i):
    if i.op == "if":
        return [z for b in i.args[1:] for x in b.args for z in leaves_of(x)]
    return [i]


def single_atom(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return tm._atoms[m[0][0]]
    return None


class Cmp:
    def __init__(self, ordered_effects=True):
        self.memo = {}
        self.steps = 0
        self.path = []
        self.facts = ()
        self.nsplit = 0
        self.bounds = {}            # loop index -> number of iterations, the same on both sides
        self.unordered = set()      # indices whose order of iteration does not matter

    def diff(self, a, b, depth=0):
        """a: code, b: reference."""
        if a is b:
            return Result(EQ)
        key = (a.id, b.id, self.facts)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > BUDGET or depth > 120:
            return Result(UNK, "budget")
        self.memo[key] = Result(UNK, "cycle")
        r = self._diff(a, b, depth)
        self.memo[key] = r
        return r

    def combine(self, rs):
        """conjunction over positions"""
        unk = None
        for r in rs:
            if r.v == DIFF:
                return r
            if r.v == UNK and unk is None:
                unk = r
        return unk or Result(EQ)

    def D(self, why, a, b):
        return Result(DIFF, f"{why}: code has {show(a, 5)[:400]}  —  reference has {show(b, 5)[:400]}")

    def U(self, why, a, b):
        m = self.missing_input(a, b)
        if m is not None:
            return self.D(f"does not depend on {m}", a, b)
        return Result(UNK, f"{why}: {show(a, 3)[:160]} vs {show(b, 3)[:160]}")

    def _diff(self, a, b, d):
        if a.op == "opaque" or b.op == "opaque":
            # a lookup that must fail is rigidly different from a value
            if a.op == "opaque" and str(a.args[0]).split(":")[0] in ("indexerror", "keyerror") and b.op != "opaque":
                return self.D("lookup fails", a, b)
            return self.U("not analysable", a, b)
        if a.op == "ite" or b.op == "ite":
            return self.diff_ite(a, b, d)
        if is_boolterm(a) and is_boolterm(b):
            return self.diff_bool(a, b, d)
        if leafish(a) and leafish(b):
            if rigid_leaf(a, b):
                return self.D("value", a, b)
            return self.U("symbol", a, b)
        na, nb = is_arith(a), is_arith(b)
        if na != nb:
            for x, y, txt in ((a, b, "dropped"), (b, a, "added")):
                r = filled(x, y) if is_arith(x) else None
                if r:
                    return self.D(f"{r} {txt}", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "nan" and (is_arith(y) and y.op != "len" or y.op == "el") and not any(z.op in ("nan", "opaque") for z in walk(y)):
                return self.D("missing value" if x is b else "missing value instead of a formula", a, b)
        if a.op == b.op == "sum":
            return self.d_sum(a, b, d)
        if na or nb:
            r = self.diff_poly(a, b, d)
            if r is not None:
                return r
        if a.op == b.op:
            f = getattr(self, "d_" + a.op, None)
            if f:
                return f(a, b, d)
            return self.generic(a, b, d)
        if {a.op, b.op} == {"fold", "upd"}:
            r = self.running(a, b, d)
            if r is not None:
                return r
        if a.op == "call" and str(a.args[0]).startswith("U.") and b.op not in ("app", "fold", "getitem", "find") and "opaque" not in b.flags:
            if b.op != "call" or str(b.args[0]).startswith("U."):
                return self.D("result of " + a.args[0][2:] + " in a different place", a, b)
        # missing / extra wrapper
        w = self.wrapper(a, b)
        if w is not None:
            return w
        for x, y in ((a, b), (b, a)):
            if x.op == "scanfinal" and (y.op == "scanout" or y.op == "call" and y.args[0] == "np.array" and y.args[1].op == "scanout"):
                return self.D("final state instead of the values of all iterations" if x is a else "values of all iterations instead of the final state", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "join" and y.op in ("set_diff", "setof", "set_union", "set_inter", "keys"):
                return self.D("a text instead of a collection of names" if x is a else "a collection of names instead of a text", a, b)
        if a.op in ("seq", "upd", "emptydict") and b.op in ("seq", "upd", "emptydict"):
            if a.op == "emptydict" and b.op == "upd" and b.args[0] is EMPTYDICT:
                return self.D("entries missing", a, b)
            if a.op == "upd" or b.op == "upd":
                return self.d_upd(a, b, d)
        if (a.op == "upd") != (b.op == "upd"):
            x, y = (a, b) if a.op == "upd" else (b, a)
            if x.args[0] is y:
                return self.D("update of container", a, b)
            if x.args[0] is not EMPTYDICT:
                r = self.diff(x.args[0], y, d + 1) if x is a else self.diff(y, x.args[0], d + 1)
                if r.v == DIFF:
                    return r
        for x, y in ((a, b), (b, a)):
            if y.op == "seq" and x.op in ("in_", "getitem") and kind(x) in ("list", "tuple", None) and "opaque" not in x.flags and len(y.args) > 2:
                # one definite element more than a copy
                if any(i.op == "sp" and i.args[0] is x for i in y.args[1:]) and any(i.op == "it" for i in y.args[1:]):
                    return self.D("elements missing" if x is a else "additional elements", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "upd" and x.args[0] is EMPTYDICT and all(i.op == "pair" and i.args[0].op == "const" for i in x.args[1:]) and user_dict(y) and kind(y) in ("dict", None):
                return self.D("a fixed set of entries instead of the user's" if x is a else "the user's entries instead of a fixed set", a, b)
            if x.op == "getitem" and x.args[0].op == "boundmeth" and x.args[0].args[0] == "codes" and y.op == "meth" and y.args[0] == "get_level_values" and x.args[0].args[1] is y.args[1]:
                return self.D("positions instead of labels of a level", a, b)
            if x.op == "call" and x.args[0] in ("np.max", "np.min") and x.args[1].op == "meth" and x.args[1].args[0] == "get_level_values" \
                    and (y.op == "len" or y.op in ("poly", "int") and any(z.op == "len" for z in walk(y))):
                return self.D("largest label instead of a number of elements", a, b)
            if x.op == "in_" and x.args[0].isupper() and y.op == "len" and any(z.op == "in_" and z.args[0] in ("df", "data") for z in walk(y)):
                return self.D("size of the model instead of the size of the data", a, b)
            if x.op == "var" and str(x.args[0]).startswith("i#") and x.args[0] not in self.unordered and y.op == "getitem" and y.args[1].op == "const" \
                    and isinstance(y.args[1].args[0], str) and y.args[0].op == "getitem" and y.args[0].args[1] is x and y.args[0].args[0].op == "seq" \
                    and any(z.op == "pair" and z.args[0] is y.args[1] for z in walk(y.args[0].args[0])):
                return self.D("entry of the element instead of a running number", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "var" and str(x.args[0]).startswith("i#") and y.op == "getitem" and y.args[1].op == "const" and y.args[0].op == "getitem" \
                    and y.args[0].args[0].op == "attr" and y.args[0].args[0].args[1] == "index" and x.args[0] not in self.unordered:
                return self.D("running number instead of a label", a, b)
        if leafish(a) or leafish(b):
            x, y = (a, b) if leafish(a) else (b, a)
            if x.op == "const" and y.op in ("cat", "seq", "upd", "call", "getitem", "poly", "meth", "rows") and y.op not in ("getitem",):
                if kind(x) != kind(y) and kind(y) is not None and not (kind(x) in ("int", "float", "bool") and kind(y) in ("num", "int", "float", "arr")):
                    return self.D("kind", a, b)
                if y.op == "cat" and kind(x) == "str":
                    if definitely_distinct(x, y):
                        return self.D("string", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "const" and isinstance(x.args[0], str) and y.op == "getitem" and y.args[0].op == "in_" and kind(y) == "str" and y.args[1].op == "var":
                return self.D("fixed text instead of a name" if x is a else "name instead of a fixed text", a, b)
        if {a.op, b.op} <= {"call", "meth"}:
            x, y = str(a.args[0]).split(".")[-1], str(b.args[0]).split(".")[-1]
            if x != y and {x, y} <= STATISTICS and len(a.args) == len(b.args) and a.args[1:] == b.args[1:]:
                return self.D("statistic", a, b)
            for p, q in ((a, b), (b, a)):
                # numbers of entries and of nonzero entries
                if p.op == "meth" and p.args[0] in ("count", "size") and str(q.args[0]).split(".")[-1] == "sum" and all(z.args[1].op == "meth" and z.args[1].args[0] == "groupby" for z in (p, q)):
                    g, h = p.args[1].args[1], q.args[1].args[1]
                    if h.op == "meth" and h.args[0] == "astype" and h.args[1] is g and any(z.op == "lib" and z.args[0] == "builtins.bool" for z in h.args[2:]):
                        return self.D("number of entries instead of nonzero entries" if p is a else "number of nonzero entries instead of entries", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] in REDUCTIONS and len(x.args) >= 2 and x.args[1].op == "seq" and one_element(y, x.args[1]):
                return self.D("one element instead of a reduction over all", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op in ("imod", "idiv") and x.args[0].op == "mix" and y.op == "var" and not any(z.op == "ite" for z in walk(x)):
                vs, ns = x.args[0].args[0::2], x.args[0].args[1::2]
                # only the innermost index is one
                if y in vs and (y is not vs[-1]) == (x.op == "imod") and not any(z.op == "const" for z in ns + x.args[1:]):
                    return self.D("elements repeated in another order", a, b)
            z = x.args[0] if x.op == "getitem" and x.args[1].op == "slice" else x
            if z.op == "sorted" and isinstance(z.args[0], T) and y.op == "seq" and y.args[0] in ("list", "tuple") and len(y.args) == 2 and y.args[1].op == "for" \
                    and not any(q.op == "sorted" for q in walk(y)):
                vs, (n, *its) = unbind(y.args[1])
                if len(its) == 1 and its[0].op == "it" and any(q.op == "getitem" and q.args[1] is vs[0] and q.args[0].op in ("in_", "keys", "getitem") for q in walk(its[0])):
                    return self.D("alphabetical order instead of the user's", a, b)
            if x.op == "getitem" and x.args[0].op == "scanout" and x.args[1].op == "const" and y.op == "call" and str(y.args[0]).startswith("U.") \
                    and any(z is y for z in walk(x.args[0])):
                return self.D("value of an iteration instead of its start", a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "poly" and is_running(y) and any(z.op == "attr" and z.args[1] == "levels" for m in tm.to_poly(x) for k, _ in m for z in walk(tm._atoms[k])):
                return self.D("values of labels instead of running numbers" if x is a else "running numbers instead of values of labels", a, b)
            if x.op in ("setof", "call") and y.op in ("setof", "call"):
                u, v = unique_of(x), unique_of(y)
                if u is not None and v is not None and u is not v and "opaque" not in x.flags | y.flags:
                    for p, q, txt in ((u, v, "left out"), (v, u, "added")):
                        if fewer(p, q):
                            return self.D("elements " + txt, a, b)
        t = self.other_operation(a, b, d)
        if t:
            return self.D(t, a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "upd" and user_dict(y) and (x.args[0] is y or x.args[0].op == "dictof" and x.args[0].args[0] is y) and not self.facts \
                    and any(i.op == "pair" and i.args[0].op == "const" and not any(z is y for z in walk(i.args[1])) for i in x.args[1:]):
                return self.D("an entry of the user's dictionary replaced", a, b)
            dflt = default_wins(x)
            if dflt is not None and y.op == "upd" and not self.facts and mk("sp", dflt) in [given(z) for z in y.args[1:]] \
                    and any(i.op == "pair" and i.args[0].op == "const" and any(i is z for z in y.args[1:[given(z) for z in y.args].index(mk("sp", dflt))]) for i in entries(x)):
                return self.D("defaults override the user's entries", a, b)
        return self.U("shape", a, b)

    # -------------------------------------------------- other operations
    def other_operation(self, a, b, d):
        """a reason why two different operations on the same things give different results for some input"""
        if "opaque" in a.flags or "opaque" in b.flags:
            return None
        ka, kb = numbering(a), numbering(b)
        if ka and kb:
            if "data" in (ka[0], kb[0]):
                if ka[0] != kb[0]:
                    return "positions that depend on the values instead of a running number" if ka[0] == "data" else "running number instead of positions that depend on the values"
            elif ka[0] != kb[0] and "id" not in (ka[0], kb[0]):
                return "elements repeated in another order"
            elif ka[0] == kb[0] and None not in (ka[1], kb[1]) and self.diff(ka[1], kb[1], d + 1).v == DIFF:
                return "numbered in groups of another size"
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "np.where" and len(x.args) == 4 and interpreted(x.args[1]) and feasible(x.args[1]):
                for keep, other in ((x.args[2], x.args[3]), (x.args[3], x.args[2])):
                    if keep is y and y.op != "const" and (other.op == "const" or other is not y and "opaque" not in x.flags and (not any(z is y for c in atoms(x.args[1]) for z in walk(c)) or x.args[1].op == "isfinite" and x.args[1].args[0] is other)
                                                          and other.op in ("call", "getitem", "in_", "el", "var")):
                        return "values replaced under a condition " + ("added" if x is a else "dropped")
            if x.op == "rows" and x.args[1].op == "isin" and y.op == "getitem" and y.args[0].op == "attr" and y.args[0].args[1] == "loc" \
                    and y.args[0].args[0] is x.args[0] and x.args[1].args[0].op == "attr" and x.args[1].args[0].args == (x.args[0], "index") \
                    and self.diff(x.args[1].args[1], y.args[1], d + 1).v == EQ:
                return "rows in the order of the table instead of the labels" if x is a else "rows in the order of labels instead of the table"
            if x.op == "gt0" and y.op == "meth" and y.args[0] == "astype" and x.args[0] is y.args[1] and any(z.op == "lib" and z.args[0] == "builtins.bool" for z in y.args[2:]) \
                    and is_free(y.args[1]):
                return "positive instead of nonzero values" if x is a else "nonzero instead of positive values"
            wx, wy = where_of(x), where_of(y)
            if wx and wy and wx[0] is wy[0] and wx[1] is not None and wy[1] is None and feasible(wx[0]):
                return "a number instead of a missing value" if x is a else "a missing value instead of a number"
            sx, sy = stat_of(x), stat_of(y)
            if sx and y.op in ("const", "inf") and sx[0] not in ("count", "sum") and not self.facts:
                return "a summary of the data instead of a constant" if x is a else "a constant instead of a summary of the data"
            if sx and sy and sx[0] != sy[0] and sx[1] is sy[1]:
                return "statistic"
            if x.op == "meth" and x.args[0] in ("fillna", "ffill", "bfill", "interpolate") and y.op in ("meth", "getitem", "in_") and not self.facts and paths(x) == paths(y) \
                    and all(z.op in ("meth", "getitem", "attr", "in_", "const", "kw", "lib") and not (z.op == "meth" and z.args[0] not in LABELS_ONLY) for z in spine(x.args[1])) \
                    and all(not (z.op == "meth" and z.args[0] not in LABELS_ONLY) for z in spine(y)):
                return "missing values replaced" if x is a else "missing values not replaced"
            if x.op == y.op == "call" and x.args[0] == "np.transpose" and len(x.args) == 2 and y.args[0] == "np.reshape" and x.args[1].op == "call" and x.args[1].args[0] == "np.reshape":
                u = x.args[1]
                if len(u.args) == len(y.args) == 4 or len(u.args) == len(y.args) == 3:
                    su, sy = [[i.args[0] for i in z.args[2].args[1:] if i.op == "it"] if z.args[2].op == "seq" else None for z in (u, y)]
                    if su and sy and len(su) == len(sy) == 2 and u.args[3:] == y.args[3:] and all(p is q or self.diff(p, q, d + 1).v == EQ for p, q in zip(su[::-1], sy)) \
                            and not any(z is ONE for z in su) and (u.args[1] is y.args[1] or self.diff(u.args[1], y.args[1], d + 1).v == EQ) and "opaque" not in u.flags:
                        return "elements of an array in another order"
            if x.op == "meth" and x.args[0] == "clip" and any(z.op == "kw" and z.args[1] is y for z in x.args[2:] if isinstance(z, T)) and paths(x.args[1]) - paths(y) and not self.facts \
                    and not any(z.op == "opaque" for z in walk(x)):
                return "existing values kept beyond a bound" if x is a else "bound instead of existing values"
            if x.op == "meth" and x.args[0] == "fillna" and y.op == "upd" and x.args[1] is y:
                return "missing values replaced" if x is a else "missing values not replaced"
            if x.op == "emptydict" and y.op == "getitem" and y.args[1].op == "const" and isinstance(y.args[1].args[0], int) and not isinstance(y.args[1].args[0], bool) \
                    and all(z.op in ("getitem", "in_", "const", "var", "keys") for z in walk(y)) and not self.facts:
                return "an empty entry instead of the user's" if x is a else "the user's entry instead of an empty one"
            if x.op == "getitem" and x.args[0].op == "sorted" and x.args[1] is y and len(x.args[0].args) > 1 and y.op == "var" and str(y.args[0]).startswith("i#") \
                    and x.args[0].args[0].op == "seq" and len(x.args[0].args[0].args) == 2 and x.args[0].args[0].args[1].op == "for" \
                    and any(z.op == "lib" and z.args[0] == "builtins.str" for z in walk(x.args[0])):
                return "numbers sorted as text" if x is a else "numbers in their order"
            if x.op == "sum" and y.op == "el" and not self.facts:
                vs, (n, body) = unbind(x)
                if n.op != "const" and body.op == "el" and vs[0].args[0] in body.free and len(body.args) == len(y.args) and tm.to_poly(n).keys() != {()} \
                        and "opaque" not in x.flags | y.flags and self.diff(body.args[0], y.args[0], d + 1).v == EQ:
                    return "sum over elements instead of one of them" if x is a else "one element instead of the sum"
            if x.op == "getitem" and x.args[0].op == "meth" and x.args[0].args[0] in ("split", "rsplit", "partition", "rpartition") and x.args[0].args[1] is y \
                    and all(z.op in ("getitem", "in_", "const", "var", "keys", "attr", "index") for z in walk(y)) and not self.facts:
                return "part of a text instead of the whole text" if x is a else "the whole text instead of a part"
            if x.op == "meth" and x.args[0] in ("lower", "upper", "title", "capitalize", "strip", "replace", "swapcase", "lstrip", "rstrip", "casefold") and x.args[1] is y and kind(y) in ("str", None) \
                    and all(z.op in ("getitem", "in_", "const", "var", "keys", "attr") for z in walk(y)) and not self.facts and not (x.args[0] == "replace" and len(x.args) != 4):
                return "a changed text instead of the text" if x is a else "the text instead of a changed one"
            if x.op == "getitem" and y.op == "sorted" and x.args[1].op == "slice" and len(y.args) == 1 and x.args[0] is y.args[0] and x.args[1].args[0].op == "const" \
                    and x.args[1].args[0].args[0] is None and x.args[1].args[2:] and tm.to_poly(x.args[1].args[2]) == {(): -1} and not self.facts:
                return "reversed instead of sorted" if x is a else "sorted instead of reversed"
            if x.op == y.op == "call" and x.args[0] == "U.soft_clipping" and y.args[0] == "np.sum" and y.args[1].op == "call" and y.args[1].args[0] == x.args[0] and not self.facts \
                    and x.args[1].op == "call" and x.args[1].args[0] == "np.sum" and "opaque" not in x.flags | y.flags:
                return "clipped after the sum instead of before" if x is a else "clipped before the sum instead of after"
            if x.op == y.op == "call" and x.args[0] == "np.outer" and y.args[0] == "np.diag" and y.args[1].op == "poly" and len(x.args) == 3 and not self.facts \
                    and paths(x) == paths(y) and "opaque" not in x.flags | y.flags:
                return "a full matrix instead of a diagonal one" if x is a else "a diagonal matrix instead of a full one"
            if x.op == "scanfinal" and y.op in ("call", "el", "in_", "getitem") and x.args[0].op == "scan" and any(z is y or z.op == "call" and y.op == "call" and z.args[0] in ("np.array",) and z.args[1] is y
                                                                                                     or y.op == "call" and y.args[0] == "np.array" and z is y.args[1] for z in x.args[0].args[2:]):
                return "the last value of an iteration instead of its start" if x is a else "the start of an iteration instead of its last value"
            if (y.op == "inf" or y.op == "const" and y.args[0] == float("inf")) and x.op == "poly" and not self.facts and paths(x) and "opaque" not in x.flags \
                    and not any(z.op == "inf" or z.op == "const" and isinstance(z.args[0], float) and z.args[0] in (float("inf"), float("-inf")) for z in walk(x)) \
                    and all(e > 0 for m in tm.to_poly(x) for _, e in m) and all(tm._atoms[k].op not in ("ite", "sum") for m in tm.to_poly(x) for k, _ in m):
                return "a number instead of infinity" if x is a else "infinity instead of a number"
            if x.op == "meth" and isinstance(x.args[1], T) and x.args[1].op == "meth" and x.args[1].args[0] == "groupby" and x.args[1].args[1] is y and not self.facts and "opaque" not in x.flags \
                    and (x.args[0] in ("ffill", "bfill", "cummax", "cummin", "cumsum", "shift", "diff", "rank") or x.args[0] == "transform" and len(x.args) == 3 and x.args[2].op == "const" and x.args[2].args[0] in
                         ("last", "first", "mean", "max", "min", "sum", "median", "std", "count", "ffill", "bfill")):
                return "values of groups instead of the values" if x is a else "the values instead of values of groups"
            # one element chosen by its weight against a weighted mean
            if selects(x) and y.op in ("call", "meth") and str(y.args[0]).split(".")[-1] in ("sum", "mean", "average", "einsum", "dot"):
                return "one element chosen by its value instead of a sum" if x is a else "sum instead of one element chosen by its value"
        return None

    # -------------------------------------------------- dependence
    def missing_input(self, a, b):
        """an input (or loop index) the reference depends on and the code does not mention at all"""
        if "opaque" in a.flags or "opaque" in b.flags:
            return None
        pb = paths(b)
        if not pb:
            return None
        pa = paths(a, True)
        for p in sorted(pb):
            if p.split("[")[0] in NODEP:
                continue
            if p.startswith("i#"):
                if p not in pa:
                    return "the iteration (loop index)"
                continue
            if not any(p == q or p.startswith(q + "[") or p.startswith(q + ".") or q.startswith(p + "[") or q.startswith(p + ".") for q in pa):
                return p
        return None

    # -------------------------------------------------- wrappers
    def wrapper(self, a, b):
        for x, y, txt in ((a, b, "dropped"), (b, a, "added")):
            # y = f(x)
            nm = None
            if y.op == "call" and y.args[0] in ("np.minimum", "np.maximum") and len(y.args) == 3 and x.op in ("var", "in_", "getitem") and x in y.args and is_intval(x) \
                    and any(z.op == "const" and (z.args[0] >= 2 or y.args[0] == "np.minimum" and z.args[0] >= 1) for z in y.args[1:] if isinstance(z, T) and z is not x) \
                    and not any(z.op == "gt0" for z in self.facts):
                return self.D(f"limit {txt}", a, b)
            if y.op == "sorted" and isinstance(y.args[0], T) and len(y.args) == 1:
                z = x
                if z.op == "seq" and len(z.args) == 2 and z.args[1].op == "sp":
                    z = z.args[1].args[0]
                src = y.args[0].args[0] if y.args[0].op == "keys" else y.args[0]
                if (z.args[0] if z.op == "keys" else z) is src and "opaque" not in src.flags and src.op not in ("setof", "range"):
                    return self.D(f"order: sorted {txt}", a, b)
            if y.op == "call" and y.args[0] in ("np.minimum", "np.maximum", "builtins.min", "builtins.max") and len(y.args) == 3 and "opaque" not in y.flags and "opaque" not in x.flags:
                for p, q in (y.args[1:], y.args[:0:-1]):
                    off = sub(p, x)
                    if off.op == "const" and off is not ZERO and {v for v in x.free if str(v).startswith("i#")} - set(q.free):
                        return self.D(f"offset and limit {txt}", a, b)
            r = filled(x, y)
            if r:
                return self.D(f"{r} {txt}", a, b)
            if y.op == "call" and y.args[0] in CHANGING and not is_intval(x) and not is_intval(y):
                plain = lambda t: plain(t.args[1]) if t.op == "call" and t.args[0] in ("np.array", "np.asarray", "builtins.float") and len(t.args) == 2 else t
                for z in y.args[1:]:
                    if isinstance(z, T) and z.op != "kw" and z.op != "const" and not (x.op == "call" and x.args[0] == y.args[0]) and (plain(z) is plain(x) or self.diff(plain(z), plain(x)).v == EQ):
                        return self.D(f"operation {y.args[0]} {txt}", a, b)
            if y.op == "call" and y.args[0] == "dags.concatenate_functions" and x.op == "getitem" and len(y.args) > 2 and x.args[0] is y.args[1] and x.args[1] is y.args[2]:
                return self.D(f"combination of functions {txt}", a, b)
            if y.op == "call" and x in y.args[1:2]:
                nm = y.args[0]
            elif y.op == "meth" and len(y.args) > 1 and y.args[1] is x:
                nm = y.args[0]
            elif y.op in ("rows", "sorted", "getitem", "isnan") and y.args[0] is x:
                nm = y.op
            elif y.op == "getitem" and y.args[0].op == "attr" and y.args[0].args[1] == "iloc" and y.args[0].args[0] is x and y.args[1].op == "slice" \
                    and any(z.op == "const" and isinstance(z.args[0], int) and z.args[0] != 0 for z in y.args[1].args if isinstance(z, T)):
                nm = "selection of rows"
            if nm is not None:
                if nm == "fillna" and not self.facts and paths(x) and all(z.op in ("getitem", "in_", "const", "var", "keys", "attr") for z in walk(x)):
                    return self.D(f"missing values replaced {txt}", a, b)
                if nm in IDLIKE and not (nm == "np.transpose" and x.op == "call" and x.args[0] == "np.reshape"):
                    return self.U("wrapper " + nm, a, b)
                if nm == "getitem" and (y.args[1].op == "slice" or kind(y.args[1]) is None):
                    pass
                return self.D(f"operation {nm} {txt}", a, b)
        return None

    # -------------------------------------------------- conditions
    def diff_ite(self, a, b, d):
        if is_boolterm(a) and is_boolterm(b):
            return self.diff_bool(a, b, d)
        for x, y in ((a, b), (b, a)):
            if last_only(x, y):
                return self.D("only the last iteration counts instead of all", a, b)
            if y.op == "const" and x.op == "ite" and x.args[2] is y and x.args[0].op == "in" and x.args[1].op == "getitem" and x.args[1].args[1] is x.args[0].args[0] \
                    and x.args[1].args[1].op == "const" and x.args[1].args[0] is x.args[0].args[1] and panel(x) \
                    and not any(z.op == "pair" and z.args[0] is x.args[1].args[1] for z in walk(x)) and "opaque" not in x.flags:
                return self.D("column of the data instead of a constant" if x is a else "constant instead of a column of the data", a, b)
        ta = a.args[0] if a.op == "ite" else None
        tb = b.args[0] if b.op == "ite" else None
        # common or one-sided top atom
        if ta is not None and tb is not None and ta is not tb:
            in_b = occurs_atom(b, ta)
            in_a = occurs_atom(a, tb)
            if not in_b and not in_a:
                # conditions replaced: same branches, different test?
                for s in (False, True):
                    b1, b2 = (b.args[1], b.args[2]) if not s else (b.args[2], b.args[1])
                    if a.args[1] is b1 and a.args[2] is b2:
                        cb = tb if not s else bnot(tb)
                        r = self.diff_bool(ta, cb, d + 1)
                        if r.v == DIFF:
                            return r
                        if r.v == EQ:
                            return r
                        return self.U("condition", ta, cb)
                rel = combinations(ta, tb, self.bounds) if not self.facts else None
                if rel is not None:
                    rs = [self.diff(*(zero_value(cof(z, t, v), ta, tb, p, q) for z, t, v in ((a, ta, p), (b, tb, q))), d + 1) for p, q in rel]
                    if all(r.v == EQ for r in rs):
                        return Result(EQ)
                    r = next((r for r in rs if r.v == DIFF), None)
                    if r is not None:
                        return Result(DIFF, r.why + f"   [{show(ta, 4)[:120]} instead of {show(tb, 4)[:120]}]")
                # same phi shape on related atoms
                r = self.diff_bool(ta, tb, d + 1)
                if r.v == DIFF:
                    r2 = self.combine([self.diff(a.args[1], b.args[1], d + 1), self.diff(a.args[2], b.args[2], d + 1)])
                    if r2.v == EQ:
                        return r
                    x1 = self.diff(a.args[1], b.args[2], d + 1)
                    if ta.op == tb.op == "in" and ta.args[1] is tb.args[1] and user_dict(ta.args[1]) and ta.args[0].op == tb.args[0].op == "const":
                        # different keys of the same user dictionary: each may be there without the other
                        for z in (self.diff(assume(a.args[1], ta, True), assume(b.args[2], tb, False), d + 1),
                                  self.diff(assume(a.args[2], ta, False), assume(b.args[1], tb, True), d + 1)):
                            if z.v == DIFF:
                                return self.D("other key: " + z.why, a, b)
                    return self.U("condition and branches", a, b) if r2.v != DIFF else r2 if x1.v == DIFF else self.U("cond", a, b)
                if ta.op == tb.op == "throws" and ta.args[0] == tb.args[0]:
                    # operations that may fail: compared where neither of them does
                    r = self.diff(assume(a.args[2], ta, False), assume(b.args[2], tb, False), d + 1)
                    if r.v == DIFF:
                        return r
                for t, z in ((tb, a), (ta, b)):
                    if t.op in ("isinstance", "isnone") and t.args[0].op == "in_" and d < 60 and any(y is t for y in walk(z)):
                        # a test of an argument that the other side makes further inside
                        rs = [self.diff(*(assume(cof(w, t, v), t, v) for w in (a, b)), d + 1) for v in (True, False)]
                        r = self.combine(rs)
                        if r.v != UNK:
                            return r
                return self.U("unrelated conditions", ta, tb)
            atom = ta if in_b else tb
        else:
            atom = ta if ta is not None else tb
        onlyone = not (occurs_atom(a, atom) and occurs_atom(b, atom))
        rs = []
        old = self.facts
        index_atom = atom.op == "gt0" and is_intval(atom.args[0])
        for v in (True, False):
            x, y = cof(a, atom, v), cof(b, atom, v)
            x2, y2 = assume(x, atom, v), assume(y, atom, v)
            if index_atom:
                from .pw import implied
                if implied(atom.args[0], old) is (not v):
                    rs.append(Result(EQ))   # this case cannot occur
                    continue
                if len(old) < 8:
                    self.facts = old + (sub(atom.args[0], ONE) if v else neg(atom.args[0]),)
            r = self.diff(x2, y2, d + 1)
            self.facts = old
            if r.v == UNK and not v and atom.op == "isnone" and atom.args[0].op == "in_" and "opaque" not in x2.flags | y2.flags:
                for p, q in ((x2, y2), (y2, x2)):
                    if p is atom.args[0] and not any(z is p for z in walk(q)):
                        r = self.D("optional argument instead of a value that does not depend on it", a, b)
            rs.append(r)
        r = self.combine(rs)
        if r.v == DIFF:
            if onlyone and not interpreted(atom):
                return self.U("condition not interpreted: " + show(atom, 3), a, b)
            if onlyone and not feasible(atom):
                return self.U("condition feasibility unknown: " + show(atom, 3), a, b)
            return Result(DIFF, r.why + f"   [when condition {show(atom, 4)[:160]} is {'true' if rs[0].v == DIFF else 'false'}]"
                          if len(r.why) < 1500 else r.why)
        return r

    def diff_bool(self, a, b, d):
        if a is b:
            return Result(EQ)
        if {z.op for z in atoms(a) | atoms(b)} >= {"mask", "truth"}:
            a, b = unmask(a), unmask(b)
            if a is b:
                return Result(EQ)
        r = self.diff_bool0(a, b, d)
        if r.v == UNK and not self.facts and (free_tests(atoms(a) | atoms(b)) and differ_given(a, b) or by_value(a, b) or by_index(a, b)):
            return self.D("condition", a, b)
        return r

    def diff_bool0(self, a, b, d):
        A, B = atoms(a), atoms(b)
        oa, ob = A - B, B - A
        ea, eb = at_the_end(a), at_the_end(b)
        if ea is not None and eb is not None and ea != eb and oa | ob:
            return self.D("the row without a neighbour treated differently", a, b)
        if len(oa) + len(ob) > 2 and oa and ob and A & B:
            top = next((x for x in self.order(a) if x in B), None)
            if top is not None:
                rs = [self.diff_bool(assume(cof(a, top, v), top, v), assume(cof(b, top, v), top, v), d + 1) for v in (True, False)]
                r = self.combine(rs)
                if r.v == EQ or r.v == DIFF and interpreted(top) and feasible(top):
                    return r
        if not oa and not ob:
            if all(interpreted(x) for x in A):
                # functions over the same atoms differ; relations between atoms could still reconcile
                return self.bool_same_atoms(a, b, A)
            return self.U("condition", a, b)
        if len(oa) == 1 and len(ob) == 1:
            x, y = next(iter(oa)), next(iter(ob))
            rel = combinations(x, y, self.bounds) if not self.facts else None
            if rel is not None:
                rs = []
                for p, q in rel:
                    u, v = zero_value(cof(a, x, p), x, y, p, q), zero_value(cof(b, y, q), x, y, p, q)
                    rs.append(self.D("condition", u, v) if u is not v and atoms(u) | atoms(v) <= A & B else self.diff_bool(u, v, d + 1))
                if all(r.v == EQ for r in rs) or any(r.v == DIFF for r in rs) and all(interpreted(z) for z in A | B):
                    return self.combine(rs) if not any(r.v == DIFF for r in rs) else self.D("comparison", x, y)
            for neg_ in (False, True):
                m = bnot(y) if neg_ else y
                if subst_atom(a, x, m) is b:
                    if not neg_:
                        return self.diff_atom(x, y, d)
                    t = other_test(x, y) or other_test(y, x) or other_test(m, x) if x.op != y.op or x.op == "eq" else None
                    if x.op == y.op == "in" and not self.facts and x.args[0] is y.args[0] and foreign(x.args[0], x.args[1], y.args[1]):
                        t = "names of another list"
                    if t:
                        return self.D(t, a, b)
                    r = self.diff_atom(x, y, d)
                    # x should equal not y
                    if x.op == y.op and x.op in ("any", "anyof") and interpreted(x) and interpreted(y):
                        return self.D("some element instead of all elements", a, b)
                    if x.op == y.op == "gt0":
                        # x>0 vs not(y>0)
                        s = tm.add(x.args[0], y.args[0])
                        if s.op == "const":
                            return self.D("comparison boundary", a, b) if s is not ZERO or True else None
                    return self.U("negated condition", a, b)
            return self.U("conditions", a, b)
        for p, q, u, v in ((oa, ob, a, b), (ob, oa, b, a)):
            if len(p) == 1 and next(iter(p)).op == "gt0" and not self.facts:
                # the number of elements compared with one instead of zero
                x = next(iter(p))
                y = x.args[0]
                pr = tm.to_poly(y)
                c = pr.get((), 0)
                if c == -1 and len(pr) == 2 and all(tm._atoms[k].op in ("len", "in_") for m in pr for k, _ in m) and any(tm._atoms[k].op == "len" for m in pr for k, _ in m) \
                        and all(n > 0 for m, n in pr.items() if m) and subst_atom(u, x, tm.gt0(add(y, ONE))) is v:
                    return self.D("more than one element instead of any", a, b)
        for p, q in ((oa, ob), (ob, oa)):
            if len(p) == 1 and len(q) == 2 and all(z.op == "set_le" for z in q):
                e, (f, g) = next(iter(p)), q
                if e.op == "eq" and f.args == g.args[::-1] and set(f.args) == set(e.args) and all(kind(z) in ("str", "list", "tuple") or z.op == "getitem" and z.args[1].op == "slice" for z in e.args) \
                        and "opaque" not in e.flags:
                    return self.D("compared as sets" if p is ob else "compared as sequences", a, b)
            if len(p) == 1 and len(q) > 1 and not A & B and all(lengths_instead(next(iter(p)), z) for z in q):
                return self.D("numbers of elements compared instead of the elements", a, b)
        if not oa and ob:
            y = next(iter(ob))
            if len(ob) == 1 and interpreted(y) and feasible(y) and all(interpreted(x) for x in A):
                hi, lo = cof(b, y, True), cof(b, y, False)
                r1, r2 = self.diff(assume(a, y, True), assume(hi, y, True), d + 1), self.diff(assume(a, y, False), assume(lo, y, False), d + 1)
                if DIFF in (r1.v, r2.v):
                    return self.D("condition no longer tested", a, b)
            return self.U("condition", a, b)
        if oa and not ob:
            y = next(iter(oa))
            if len(oa) == 1 and interpreted(y) and feasible(y) and all(interpreted(x) for x in B):
                r1 = self.diff(assume(cof(a, y, True), y, True), assume(b, y, True), d + 1)
                r2 = self.diff(assume(cof(a, y, False), y, False), assume(b, y, False), d + 1)
                if r1.v == EQ and r2.v == EQ:
                    return Result(EQ)
                if DIFF in (r1.v, r2.v):
                    return self.D("additional condition", a, b)
            return self.U("condition", a, b)
        return self.U("conditions", a, b)

    def order(self, t):
        """tests of a decision tree from the root downwards"""
        out, todo = [], [t]
        while todo:
            x = todo.pop(0)
            if x.op == "ite":
                if x.args[0] not in out:
                    out.append(x.args[0])
                todo += x.args[1:]
        return out

    def bool_same_atoms(self, a, b, A):
        return self.D("condition", a, b)

    def diff_atom(self, x, y, d):
        if x.op == y.op:
            if x.op == "gt0":
                r = self.diff_poly(x.args[0], y.args[0], d + 1) or self.diff(x.args[0], y.args[0], d + 1)
                return r if r.v != UNK else self.U("comparison", x, y)
            if x.op == "eq":
                p, q = set(x.args), set(y.args)
                com = p & q
                if len(com) == 1:
                    u, v = next(iter(p - com), next(iter(com))), next(iter(q - com), next(iter(com)))
                    return self.diff(u, v, d + 1)
                for u, v in ((x, y), (y, x)):
                    s = [piece(z) for z in u.args]
                    if None not in s and len(set(s)) == 1 and [half(z) for z in v.args] == s:
                        return self.D("pieces between separators instead of halves (they differ if a name contains the separator)", x, y)
                if any(is_arith(z) for z in x.args + y.args):
                    # difference of the two sides: one term in another variable
                    px, py = (tm.to_poly(sub(*z.args)) for z in (x, y))
                    ax, ay = ({i for m in p for i, _ in m} for p in (px, py))
                    if len(ax - ay) == len(ay - ax) == 1:
                        u, v = (tm._atoms[next(iter(z))] for z in (ax - ay, ay - ax))
                        if u.op == v.op == "meth" and u.args[0] == v.args[0] == "shift" and u.args[1] is v.args[1] and self.diff(u, v, d + 1).v == DIFF:
                            return self.D("shifted by another number of rows", x, y)
                r = other_test(x, y) or other_test(y, x)
                if r:
                    return self.D(r, x, y)
                return self.U("equality", x, y)
            if x.op == "any":
                return self.d_binder(x, y, d)
            if x.op in ("isinstance",):
                if x.args[0] is y.args[0]:
                    return self.D("type test", x, y)
                return self.diff(x.args[0], y.args[0], d + 1)
            if x.op == "throws":
                return self.d_throws(x, y, d)
            return self.combine([self.diff(p, q, d + 1) for p, q in zip(x.args, y.args) if isinstance(p, T) and isinstance(q, T)]
                                + ([Result(UNK, "arity")] if len(x.args) != len(y.args) else []))
        r = other_test(x, y) or other_test(y, x)
        if r:
            return self.D(r, x, y)
        if not self.facts and (at_least(x, y) or at_least(y, x)):
            return self.D("several elements instead of at least one", x, y)
        return self.U("different tests", x, y)

    # -------------------------------------------------- arithmetic
    def diff_poly(self, a, b, d):
        if not (is_arith(a) or is_arith(b)):
            return None
        if kind(a) == "str" or kind(b) == "str" or a.op in ("seq", "upd") or b.op in ("seq", "upd"):
            return None
        for t in (a, b):
            if t.op == "const" and (not isinstance(t.args[0], int) or isinstance(t.args[0], bool)):
                return self.D("value", a, b) if leafish(a) and leafish(b) else None
        pa, pb = tm.to_poly(a), tm.to_poly(b)
        ra = {m: c for m, c in pa.items() if pb.get(m) != c}
        rb = {m: c for m, c in pb.items() if pa.get(m) != c}
        at = lambda p: {x for m in p for x, _ in m}
        if not ra and not rb:
            return Result(EQ)
        alla, allb = atoms_deep(a), atoms_deep(b)
        if any(tm._atoms[x].op == "opaque" for x in at(ra) | at(rb)):
            return self.U("not analysable", a, b)
        xa, xb = at(ra), at(rb)
        if xa <= at(pb) and xb <= at(pa):
            return self.D("formula", a, b)
        if not ra or not rb:
            rest = ra or rb
            if list(rest) == [()]:
                return self.D("formula (constant term)", a, b)
            # a whole addend is missing
            if all(interp_num(tm._atoms[x]) for x in at(rest)):
                return self.D("formula (missing or additional term)", a, b)
            return self.U("formula", a, b)
        sa, sb = summarised_draws(a), summarised_draws(b)
        if sa != sb and not (sa and sb):
            return self.D("formula (a summary of the random draws)", a, b)
        for p, q in ((ra, rb), (rb, ra)):
            if len(q) == 1 and q is not ra or len(q) == 1:
                (m, c), = q.items()
                y = tm._atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                if y is not None and c == 1:
                    y = bare(y)
                    for x in (bare(tm._atoms[k]) for k in at(p)):
                        if x.op == "meth" and any(z.op == "meth" and z.args[0] in RANKING for z in spine(x)) and any(z is y for z in spine(x)):
                            return self.D("positions or ranks instead of the values" if p is ra else "values instead of positions or ranks", a, b)
        for p, q in ((pa, pb), (pb, pa)):
            z = single_atom(p)
            st = stat_of(z) if z is not None and set(q) <= {()} and not self.facts else None
            if st and st[0] in ("mean", "median", "max", "min", "std", "var") and raw_data(st[1]):
                return self.D("a summary of the data instead of a constant" if p is pa else "a constant instead of a summary of the data", a, b)
        for p, q in ((pa, pb), (pb, pa)):
            z = single_atom(p)
            if z is not None and set(q) <= {()} and z.op == "getitem" and z.args[1] is ONE and z.args[0].op == "attr" and z.args[0].args[1] == "shape" \
                    and z.args[0].args[0].op == "call" and z.args[0].args[0].args[0] in ("U.pd_controls", "U.pd_observed", "U.pd_measurements"):
                return self.D("a constant instead of the number of observations", a, b)
            if z is not None and set(q) <= {()} and z.op == "meth" and z.args[0] == "astype" and not self.facts and z.args[1].op in ("isnan", "ite", "gt0") and kind(z.args[1]) == "bool" \
                    and all(y.op == "isnan" for y in atoms(z.args[1])) and "opaque" not in z.flags:
                return self.D("depends on missing values", a, b)
        if list(ra) == [()] or list(rb) == [()]:
            other = rb if list(ra) == [()] else ra
            if all(leafish(tm._atoms[x]) or tm._atoms[x].op in ("len",) for x in at(other)) and len(other) >= 1:
                return self.D("formula", a, b)
        if not self.facts and all(tm._atoms[x].op in ("var", "len") or tm._atoms[x].op == "in_" and is_intval(tm._atoms[x]) for x in xa | xb):
            # integer indices: an unrestricted running index moves differently
            dv = dict(ra)
            for m, c in rb.items():
                dv[m] = dv.get(m, 0) - c
            if any(len(m) == 1 and c != 0 and tm._atoms[m[0][0]].op == "var" and str(tm._atoms[m[0][0]].args[0]).startswith("i#") and m[0][0] not in self.unordered
                   for m, c in dv.items()) and all(len(m) <= 1 for m in dv):
                return self.D("position", a, b)
        if not self.facts and xa ^ xb and xa and xb and all(self.free_leaf(tm._atoms[x]) or tm._atoms[x].op == "rowfn" and x in xa & xb for x in xa | xb) \
                and separate([tm._atoms[x] for x in xa | xb]):
            return self.D("formula (elements)", a, b)
        els = [tm._atoms[x].args[0].id for x in xa | xb if tm._atoms[x].op == "el"]
        if all(self.free_leaf(tm._atoms[x]) for x in xa | xb) and xa and xb and (xa ^ xb) and len(els) == len(set(els)):
            return self.D("formula", a, b)      # distinct monomials of independent variables
        if len(ra) == len(rb) == 1:
            (ma, ca), (mb, cb) = next(iter(ra.items())), next(iter(rb.items()))
            da, db = dict(ma), dict(mb)
            q = {k: da.get(k, 0) - db.get(k, 0) for k in set(da) | set(db)}
            q = {k: e for k, e in q.items() if e != 0}
            els = [tm._atoms[x].args[0].id for x in q if tm._atoms[x].op == "el"]
            if q and len(q) < len(set(da) | set(db)) and len(els) == len(set(els)) and all(self.free_leaf(tm._atoms[k]) for k in q):
                return self.D("formula (factor)", a, b)
            if q and ca == cb and all(abs(e) == 1 and stat_of(tm._atoms[k]) and stat_of(tm._atoms[k])[0] in ("max", "min", "std", "var")
                                      and "opaque" not in tm._atoms[k].flags for k, e in q.items()) and len(q) == 1 and not self.facts:
                return self.D("formula (scaled by a summary of the values)", a, b)
            if len(q) == 2 and not self.facts:
                (k1, e1), (k2, e2) = q.items()
                for (k, e), (l, g) in (((k1, e1), (k2, e2)), ((k2, e2), (k1, e1))):
                    u = tm._atoms[k]
                    if u.op == "call" and u.args[0] == "np.abs" and u.args[1] is tm._atoms[l] and is_free(u.args[1]) and e == -g and e.denominator == 1 and e % 2:
                        return self.D("formula (absolute value)", a, b)
            for m, mo in ((ma, mb), (mb, ma)):
                # |x| and another power of x
                if len(m) == len(mo) == 1 and m[0][1] == 1 and tm._atoms[m[0][0]].op == "call" and tm._atoms[m[0][0]].args[0] == "np.abs" \
                        and mo[0][1] != 1 and tm._atoms[m[0][0]].args[1] is tm._atoms[mo[0][0]] and is_free(tm._atoms[mo[0][0]]):
                    return self.D("formula (absolute value and power)", a, b)
            if q and ca == cb and all(is_boolterm(tm._atoms[k]) and feasible(tm._atoms[k]) and interpreted(tm._atoms[k]) for k in q):
                return self.D("formula (factor that is zero or one)", a, b)
            es = [e for _, e in ma + mb]
            den = max((e.denominator for e in es), default=1)
            if den in (2, 3, 4) and all(e * den == int(e * den) and e > 0 for e in es) and ca > 0 and cb > 0 and not (pa.keys() - ra.keys()):
                # roots: compared by their powers
                up = lambda m, c: tm.mul(tm.from_poly({(): c ** den}), self.product(m, den))
                r = self.diff(up(ma, ca), up(mb, cb), d + 1)
                if r.v == DIFF:
                    return self.D("formula", a, b)
        u, v = root_factor(ra), root_factor(rb)
        if u is not None and v is not None and u is not v and not (pa.keys() - ra.keys()) and apart(self.facts, u, v):
            return self.D("formula (root of another element)", a, b)
        if index_only(self.facts):
            for p, q in ((ra, rb), (rb, ra)):
                w = weights_summed(p)
                if w and w - weights_summed(q) and not any("sum" == z.op or any(y.op == "sum" for y in walk(z)) for m in q for z in (tm._atoms[k] for k, _ in m)) \
                        and "opaque" not in a.flags | b.flags:
                    return self.D("formula (sum over all elements instead of one of them)" if p is ra else "formula (one element instead of the sum over all)", a, b)
        if single_atom(pa) is a and single_atom(pb) is b:
            return None         # compared by structure
        if len(ra) == len(rb) == len(pa) == len(pb) > 1:
            for p, q in ((ra, rb), (rb, ra)):
                f = quotient(p, q)
                if f and all(statistic(tm._atoms[k]) for k, _ in f):
                    return self.D("formula (common factor)", a, b)
                f = quotient(p, q, 2)
                if f and all(self.free_leaf(tm._atoms[k]) and tm._atoms[k].op == "el" for k, _ in f) and sum(e for _, e in f) == 0 and len(f) == 2 and apart(self.facts, *[tm._atoms[k] for k, _ in f]):
                    return self.D("formula (common factor)", a, b)
        if len(ra) == len(rb) and len(ra) <= 6:
            # align monomials with equal coefficients that differ in exactly one factor
            rs = self.align(ra, rb, d)
            if rs is not None:
                return rs
        r = self.split_sum(a, b, ra, rb, d)
        if r is not None:
            return r
        if all(z.op in ("var", "len") or z.op == "in_" and is_intval(z) for f in self.facts for m in tm.to_poly(f) for z in (tm._atoms[k] for k, _ in m)):
            for p, q, txt in ((ra, b, "additional"), (rb, a, "missing")):
                have = paths(q, True)
                for m in p:
                    for k, _ in m:
                        for z in scaled_by(tm._atoms[k]):
                            if "opaque" not in a.flags | b.flags and z.args[0].op == "in_" and z.args[0].args[0] not in NODEP \
                                    and not any(n.split("[")[0].split(".")[0] == z.args[0].args[0] for n in have):
                                return self.D(f"formula ({txt} dependence on {z.args[0].args[0]})", a, b)
        if index_only(self.facts) and all(c > 0 for f in self.facts for m, c in tm.to_poly(f).items() if m) and all(tm.to_poly(f).get((), 0) >= -2 for f in self.facts):
            r = rational_in_one_length(pa, pb)
            if r:
                return self.D("formula (of the number of elements)", a, b)
        return self.U("formula", a, b)

    def split_sum(self, a, b, ra, rb, d):
        """sums with conditional terms: case by case"""
        if self.nsplit >= 6 or self.facts:
            return None
        ites = [[tm._atoms[k] for m in p for k, _ in m if tm._atoms[k].op == "ite"] for p in (ra, rb)]
        ites = [z for side in sorted(ites, key=len) for z in side]
        atom = next((z.args[0] for z in ites if simple_test(z.args[0])), None)
        if atom is None or not (interpreted(atom) and feasible(atom)):
            return None
        rs = []
        self.nsplit += 1
        try:
            for v in (True, False):
                x, y = assume(a, atom, v), assume(b, atom, v)
                z = Result(EQ) if x is y else self.diff(x, y, d + 1)
                if z.v == DIFF:
                    return Result(DIFF, z.why + f"   [when condition {show(atom, 4)[:160]} is {'true' if v else 'false'}]") if independent(atom, a, b) else None
                rs.append(z)
        finally:
            self.nsplit -= 1
        return Result(EQ) if all(z.v == EQ for z in rs) else None

    def product(self, m, den):
        r = ONE
        for k, e in m:
            r = tm.mul(r, tm.power(tm._atoms[k], const(int(e * den))))
        return r

    def free_leaf(self, t):
        """a number that can be chosen independently of the others"""
        if t.op == "el":
            return t.args[0].op == "in_" and all(isinstance(k, T) and not any(z.op in ("ite", "opaque") for z in walk(k)) for k in t.args[1:])
        if t.op == "in_":
            return t.args[0] not in NODEP
        if t.op == "getitem":
            return t.args[1].op == "const" and isinstance(t.args[1].args[0], str) and t.args[0].op == "call" and t.args[0].args[0] == "U.pm_options"
        return False

    def align(self, ra, rb, d):
        used = set()
        out = []
        for m, c in sorted(ra.items(), key=lambda x: str(x)):
            best = None
            for m2, c2 in rb.items():
                if m2 in used:
                    continue
                da, db = dict(m), dict(m2)
                ua = {k: v for k, v in da.items() if db.get(k) != v}
                ub = {k: v for k, v in db.items() if da.get(k) != v}
                if len(ua) == 1 and len(ub) == 1:
                    (x, ex), (y, ey) = next(iter(ua.items())), next(iter(ub.items()))
                    r = self.diff(tm._atoms[x], tm._atoms[y], d + 1)
                    if ex == ey and c == c2:
                        sc = {"EQ": 0, "DIFF": 1, "UNK": 2}[r.v]
                        if best is None or sc < best[0]:
                            best = (sc, m2, r)
                    elif r.v == EQ:
                        best = best or (1, m2, Result(DIFF, "coefficient or exponent differs"))
                elif not ua and not ub and c != c2:
                    best = (1, m2, Result(DIFF, f"coefficient {c} instead of {c2}"))
            if best is None:
                return None
            used.add(best[1])
            out.append(best[2])
        return self.combine(out)

    # -------------------------------------------------- structure
    def generic(self, a, b, d):
        if len(a.args) != len(b.args):
            return self.U("arity", a, b)
        rs = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                rs.append(self.diff(x, y, d + 1))
            elif isinstance(x, T) or isinstance(y, T) or x != y:
                if a.op == "attr":
                    return self.D("attribute", a, b) if isinstance(x, str) and isinstance(y, str) and a.args[0] is b.args[0] else self.U("attribute", a, b)
                if a.op == "modattr":
                    return self.D("module attribute", a, b)
                return self.U("symbol", a, b)
        return self.combine(rs)

    def d_binder(self, a, b, d):
        vs, xa = unbind(a)
        xb = open_with(b, vs)
        if xb is None or len(xa) != len(xb):
            return self.U("arity", a, b)
        rs = []
        if a.op != "lam":
            self.unordered |= {v.id for v in vs}
        for x, y in zip(xa, xb):
            if isinstance(x, T):
                rs.append(self.diff(x, y, d + 1))
        if a.op in ("any", "sum") and len(xa) == 2 and not self.facts and "opaque" not in a.flags and "opaque" not in b.flags:
            # the same test or addend for the elements from another one on
            off = sub(xb[0], xa[0])
            if off.op == "const" and isinstance(off.args[0], int) and off is not ZERO:
                x, y, k = (xa[1], xb[1], off.args[0]) if off.args[0] > 0 else (xb[1], xa[1], -off.args[0])
                if subst(y, {vs[0].args[0]: add(vs[0], const(k))}) is x and (a.op == "sum" or all(interpreted(z) and feasible(z) for z in atoms(x))):
                    return self.D("first elements left out" if off.args[0] > 0 else "additional first elements", a, b)
        if a.op != "lam" and rs and rs[0].v != EQ and any(r.v != EQ for r in rs[1:]):
            return self.U("loop", a, b)     # another iteration space with another body can be the same computation
        return self.combine(rs)

    def d_arr(self, a, b, d):
        la, lb = a.args[1], b.args[1]
        if la.op != "lam" or lb.op != "lam" or a.args[0].op != "seq" or any(i.op != "it" for i in a.args[0].args[1:]):
            return self.generic(a, b, d)
        rs = [self.diff(a.args[0], b.args[0], d + 1)]
        vs, xa = unbind(la)
        xb = open_with(lb, vs)
        if xb is None or len(xa) != len(xb) or len(a.args[0].args) != len(vs) + 1:
            return self.generic(a, b, d)
        for v, i in zip(vs, a.args[0].args[1:]):
            tm.RANGE[v.args[0]] = i.args[0]
        rs += [self.diff(x, y, d + 1) for x, y in zip(xa, xb)]
        return self.combine(rs)

    d_sum = d_any = d_lam = d_fold = d_find = d_binder

    def d_for(self, a, b, d):
        vs, (na, *ia) = unbind(a)
        xb = open_with(b, vs)
        nb, ib = xb[0], list(xb[1:])
        r1 = self.diff(na, nb, d + 1)
        if r1.v == EQ:
            self.bounds[vs[0].id] = nb
        r2 = self.items(ia, ib, d + 1, a, b)
        if r1.v == EQ and r2.v == EQ:
            return Result(EQ)
        if r1.v != EQ and not self.facts and ia and all(i.op == "it" for i in ia + ib) and len(ia) == len(ib):
            dn = sub(na, nb)
            if dn.op == "const" and dn is not ZERO:
                return self.D("number of elements", a, b)
        # a different iteration space with a different body can still be the same sequence
        if r1.v == DIFF and r2.v == EQ:
            return r1
        if r1.v == EQ:
            return r2
        dn = sub(nb, na)
        if dn.op == "const" and isinstance(dn.args[0], int) and dn.args[0] and not self.facts:
            # the same body for other elements
            x, y, k = (ia, ib, dn.args[0]) if dn.args[0] > 0 else (ib, ia, -dn.args[0])
            m = {vs[0].args[0]: add(vs[0], const(k))}
            if all(subst(q, m) is p for p, q in zip(x, y)) and len(x) == len(y) and all(self.nonempty_possible(i) for i in x):
                return self.D("first elements left out" if dn.args[0] > 0 else "additional first elements", a, b)
        if len(ia) == len(ib) == 1 and not self.facts:
            # one side filters, the other iterates over fewer elements
            for f, g, n in ((ia[0], ib[0], nb), (ib[0], ia[0], na)):
                if f.op == "if" and (g.op == "it" or g.op == "pair" and vs[0].args[0] in g.args[0].free) and [list(f.args[1].args), list(f.args[2].args)] in ([[g], []], [[], [g]]) and f.args[0].op == "gt0":
                    sgn = 1 if f.args[1].args else -1
                    k = next((m for m in tm.to_poly(sub(n, vs[0])) if len(m) == 1 and tm._atoms[m[0][0]] is vs[0]), None)
                    c = tm.to_poly(f.args[0].args[0]).get(k)
                    if k and c and c * sgn > 0 and all(len(m) <= 1 for m in tm.to_poly(f.args[0].args[0])):
                        return self.D("last instead of first elements", a, b)
        if by_position(a, b) or by_position(b, a):
            return self.D("only some of the elements, by their position", a, b)
        if r1.v == DIFF and r2.v == DIFF and not any(i.op != "it" and i.op != "pair" and i.op != "mutop" for i in ia + ib) \
                and self.same_shape(na, nb):
            return r1
        return self.U("loop", a, b)

    def same_shape(self, x, y, d=0):
        """the same operations on other variables"""
        if x is y:
            return True
        if x.op != y.op or d > 40 or x.op in ("opaque", "ite", "for", "fold"):
            return False
        if x.op in ("const", "in_", "var"):
            return True
        xs, ys = [a for a in x.args if isinstance(a, T)], [a for a in y.args if isinstance(a, T)]
        return len(xs) == len(ys) and [a for a in x.args if not isinstance(a, T)] == [a for a in y.args if not isinstance(a, T)] \
            and all(self.same_shape(a, b, d + 1) for a, b in zip(xs, ys))

    def d_seq(self, a, b, d):
        if a.args[0] != b.args[0]:
            if {a.args[0], b.args[0]} <= {"list", "tuple", "gen"}:
                r = self.items(list(a.args[1:]), list(b.args[1:]), d, a, b)
                return r if r.v == DIFF else self.U("list/tuple", a, b)
            return self.U("container", a, b)
        return self.items(list(a.args[1:]), list(b.args[1:]), d, a, b)

    def d_body(self, a, b, d):
        return self.items(list(a.args), list(b.args), d, a, b)

    def items(self, ia, ib, d, a, b):
        ia, ib = until_raise(ia), until_raise(ib)
        r = self.items0(ia, ib, d, a, b)
        if r.v == DIFF and len(ia) != len(ib) and any(i.op == "if" and raises(i) for i in ia + ib):
            r = Result(UNK, r.why)      # what follows an error does not happen: decided case by case
        if r.v == UNK and a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and not self.facts:
            n = self.counts(ia, ib, d)
            if n is not None:
                return n
        if r.v != UNK or self.nsplit >= 7:
            return r
        atom = None
        for x in [i for i in ia if not any(i is j for j in ib)] + [i for i in ib if not any(i is j for j in ia)]:
            if x.op == "if":
                atom = x.args[0].args[0] if x.args[0].op == "ite" else x.args[0]
                break
        if atom is None or not is_boolterm(atom):
            return r
        sa, sb = tm.seq("list", ia), tm.seq("list", ib)
        rs, old = [], self.facts
        self.nsplit += 1
        try:
            for v in (True, False):
                if atom.op == "gt0" and is_intval(atom.args[0]):
                    from .pw import implied
                    if implied(atom.args[0], old) is (not v):
                        continue
                    if len(old) < 8:
                        self.facts = old + (sub(atom.args[0], ONE) if v else neg(atom.args[0]),)
                x, y = assume(sa, atom, v), assume(sb, atom, v)
                if x.op != "seq" or y.op != "seq":
                    return r
                z = Result(EQ) if x is y else self.items(list(x.args[1:]), list(y.args[1:]), d + 1, a, b)
                self.facts = old
                rs.append((v, z))
        finally:
            self.facts = old
            self.nsplit -= 1
        c = self.combine([z for _, z in rs])
        if c.v == EQ:
            return c
        if c.v == DIFF and interpreted(atom) and feasible(atom) and independent(atom, sa, sb):
            v = next(v for v, z in rs if z.v == DIFF)
            return Result(DIFF, c.why + (f"   [when condition {show(atom, 4)[:160]} is {'true' if v else 'false'}]" if len(c.why) < 1500 else ""))
        return r

    def counts(self, ia, ib, d):
        """lists of a different length are different"""
        if any("opaque" in i.flags for i in ia + ib):
            return None
        from .rules import count_items
        na, nb = count_items(ia), count_items(ib)
        if "opaque" in na.flags | nb.flags:
            return None
        r = self.diff(na, nb, d + 1)
        return Result(DIFF, "number of elements: " + r.why) if r.v == DIFF else None

    def items0(self, ia, ib, d, a, b):
        ia, ib = list(ia), list(ib)
        while ia and ib and ia[0] is ib[0]:
            ia.pop(0), ib.pop(0)
        while ia and ib and ia[-1] is ib[-1]:
            ia.pop(), ib.pop()
        if not ia and not ib:
            return Result(EQ)
        if len(ia) == len(ib):
            rs = [self.item(x, y, d + 1) for x, y in zip(ia, ib)]
            r = self.combine(rs)
            if r.v == UNK and a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and nested_order(ia, ib):
                return self.D("order of nested iterations", a, b)
            if r.v == UNK and self.in_sorted_order(ia, ib):
                return self.D("numbered in sorted order instead of the order of the inputs", a, b)
            if len(ia) > 1 and {x.id for x in ia} == {y.id for y in ib}:
                if all(i.op == "it" for i in ia) or a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and self.segments(ia):
                    return self.D("order of elements", a, b)
                if self.precedence(ia, ib):
                    return self.D("precedence of the user's entries", a, b)
                return self.U("order of elements", a, b)
            if r.v == DIFF and any(x.v == DIFF and "of the user's entries" in x.why for x in rs):
                return r
            if len(ia) > 1 and r.v == DIFF and sum(x.v != EQ for x in rs) > 1 and any(x.op in ("for", "if", "sp") for x in ia + ib):
                return self.U("elements", a, b)
            return r
        sa, sb = {x.id for x in ia}, {y.id for y in ib}
        if all(x.op in ("it", "pair") for x in ia + ib):
            return self.D("number of elements", a, b)
        if a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and nested_order(ia, ib):
            return self.D("order of nested iterations", a, b)
        if a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and self.interleaved(ia, ib):
            return self.D("elements interleaved instead of one group after the other", a, b)
        if a.op == b.op == "seq" and a.args[0] == b.args[0] in ("list", "tuple") and self.partitioned(ia, ib):
            return self.D("elements grouped by a property instead of in their order", a, b)
        if self.in_sorted_order(ia, ib):
            return self.D("numbered in sorted order instead of the order of the inputs", a, b)
        if not ia or not ib or sa < sb or sb < sa:
            rest = [x for x in (ia + ib) if not (x.id in sa and x.id in sb)]
            if all(self.nonempty_possible(x) for x in rest):
                return self.D("elements missing" if len(ia) < len(ib) else "additional elements", a, b)
        return self.U("elements", a, b)

    def precedence(self, ia, ib):
        """a user's dictionary spread before an entry on one side and after it on the other"""
        ia, ib = [[given(i) for i in its] for its in (ia, ib)]
        ifs = [i for i in ia if i.op == "if"]
        if not all(i.op == "pair" and i.args[0].op == "const" or i.op == "sp" or i.op == "if" for i in ia) or not all(z.op == "pair" and z.args[0].op == "const" for i in ifs for z in leaves_of(i)):
            return False
        other = {z.args[0] for i in ifs for z in leaves_of(i)}
        order = lambda its, x, y: [i for i in its if i is x or i is y][0] is x
        return any(order(ia, u, p) != order(ib, u, p) for u in ia if u.op == "sp" and user_dict(u.args[0]) for p in ia
                   if p.op == "pair" and p.args[0].op == "const" and p.args[0] not in other)

    def partitioned(self, ia, ib):
        """elements with a property first and the others after them, against the elements in their order"""
        for one, many in ((ia, ib), (ib, ia)):
            if len(one) == 1 and len(many) == 2 and all(i.op == "for" for i in one + many) and not any("opaque" in i.flags for i in one + many):
                vs, (n, *its) = unbind(one[0])
                parts = []
                for h in many:
                    x = open_with(h, vs)
                    if x is None or x[0] is not n or len(x) != 2 or x[1].op != "if":
                        return False
                    parts.append(x[1])
                p, q = parts
                if p.args[0] is q.args[0]:
                    pass
                elif p.args[0] is bnot(q.args[0]):
                    q = mk("if", p.args[0], q.args[2], q.args[1])
                else:
                    return False
                for u, v in ((1, 2), (2, 1)):
                    if not p.args[v].args and not q.args[u].args and p.args[u].args and q.args[v].args \
                            and all(interpreted(z) and feasible(z) for z in atoms(p.args[0])) and any(vs[0].args[0] in z.free for z in atoms(p.args[0])):
                        return True
        return False

    def in_sorted_order(self, ia, ib):
        """entries numbered in sorted order against entries in the order of the inputs"""
        for p, q in ((ia, ib), (ib, ia)):
            if any(z.op in ("sorted", "setof", "opaque") or z.op in ("call", "meth") and any(w in str(z.args[0]) for w in ("sort", "unique", "groupby")) for i in q for z in walk(i)):
                continue
            for i in p:
                if i.op != "for":
                    continue
                vs, (n, *its) = unbind(i)
                if not its or any(z.op != "pair" for z in its) or len(its) != 1 and its[0].args[0].op != "loc":
                    continue
                k, v = its[0].args[:2]
                if k.op == "loc" and any(z.op == "getitem" and z.args[0].op == "sorted" and z.args[1] is vs[0] and len(z.args[0].args) == 1 and free_order(z.args[0].args[0]) for z in walk(k)):
                    return True
                if k.op == "getitem" and k.args[0].op == "sorted" and k.args[1] is vs[0] and len(k.args[0].args) == 1 and free_order(k.args[0].args[0]) \
                        and outside(v, vs[0], k):
                    return True
        return False

    def interleaved(self, ia, ib):
        """one loop that makes several elements against one loop for each of them"""
        for one, many in ((ia, ib), (ib, ia)):
            f = [i for i in one if i.op == "for"]
            g = [i for i in many if i.op in ("for", "sp")]
            if len(f) != 1 or any(i.op not in ("it", "for") for i in one) or any(i.op not in ("it", "for", "sp") for i in many):
                continue
            vs, (n, *its) = unbind(f[0])
            k = len(its)
            if k < 2 or len(g) != k or any(i.op != "it" for i in its) or any("opaque" in i.flags for i in ia + ib):
                continue
            els = []
            for h in g:
                if h.op == "sp":
                    els.append((length(h.args[0]), getitem(h.args[0], vs[0])))
                else:
                    ws, (m, *e) = unbind(h)
                    if len(e) != 1 or e[0].op != "it":
                        return False
                    els.append((m, tm.subst(e[0].args[0], {ws[0].args[0]: vs[0]})))
            here = [i.args[0] for i in its]
            if all(m is n for m, _ in els) and len({e.id for e in here}) == k and {e.id for e in here} == {e.id for _, e in els}:
                return True
        return False

    def segments(self, its):
        """pieces of a list that can be non-empty at the same time and come from different inputs"""
        if not all(self.nonempty_possible(i) for i in its):
            return False
        ps = []
        for i in its:
            if any(not (interpreted(z) and feasible(z)) for c in walk(i) if c.op == "if" for z in atoms(c.args[0])):
                return False
            if i.op not in ("sp", "if", "it"):
                return False
            parts = [i] if i.op != "if" else [z for k in (1, 2) for z in i.args[k].args]
            ps.append({p for z in parts for p in paths(z, True) if not p.startswith("i#")})
        return all(p and q and not (p & q) and not any(u.startswith(v) or v.startswith(u) for u in p for v in q) for k, p in enumerate(ps) for q in ps[:k])

    def nonempty_possible(self, x):
        if "opaque" in x.flags:
            return False
        if x.op == "for":
            n = unbind(x)[1][0]
            if is_intval(n):
                from .pw import implied
                if implied(n, self.facts) is False:
                    return False
        return True

    def item(self, x, y, d):
        if x is y:
            return Result(EQ)
        if x.op == y.op:
            if x.op in ("it", "sp"):
                return self.diff(x.args[0], y.args[0], d + 1)
            if x.op == "pair":
                rk = self.diff(x.args[0], y.args[0], d + 1)
                rv = self.diff(x.args[1], y.args[1], d + 1)
                return self.combine([rk, rv])
            if x.op == "if":
                x, y = one_if(x), one_if(y)
                if x is y:
                    return Result(EQ)
                if x.args[0] is y.args[0]:
                    return self.combine([self.items(x.args[1].args, y.args[1].args, d + 1, x, y),
                                         self.items(x.args[2].args, y.args[2].args, d + 1, x, y)])
                if x.args[1] is y.args[1] and x.args[2] is y.args[2]:
                    return self.diff_bool(x.args[0], y.args[0], d + 1)
                if x.args[1] is y.args[2] and x.args[2] is y.args[1]:
                    return self.diff_bool(x.args[0], bnot(y.args[0]), d + 1)
                if all(i.op != "throws" for z in (x, y) for i in atoms(z.args[0])):
                    # one side has elements where the other has none
                    for p, q in ((1, 2), (2, 1)):
                        for u, v in ((1, 2), (2, 1)):
                            if not x.args[q].args and not y.args[v].args and surely_nonempty(x.args[p]) and surely_nonempty(y.args[u]):
                                r = self.diff_bool(x.args[0] if p == 1 else bnot(x.args[0]), y.args[0] if u == 1 else bnot(y.args[0]), d + 1)
                                if r.v == DIFF:
                                    return r
                                if r.v == EQ:
                                    return self.items(x.args[p].args, y.args[u].args, d + 1, x, y)
                if x.args[0].op == y.args[0].op == "throws" and x.args[0].args[0] == y.args[0].args[0]:
                    # operations that may fail: compared where neither of them does
                    r = self.items(x.args[2].args, y.args[2].args, d + 1, x, y)
                    if r.v == DIFF:
                        return r
                if not self.facts and x.args[1].args and y.args[1].args and not x.args[2].args and not y.args[2].args and all("opaque" not in z.args[0].flags for z in (x, y)):
                    # where both have elements
                    r = self.items(x.args[1].args, y.args[1].args, d + 1, x, y)
                    if r.v == DIFF:
                        return r
                return self.U("conditional elements", x, y)
            return self.diff(x, y, d + 1)
        # guard dropped / added
        for p, q in ((x, y), (y, x)):
            if p.op == "if" and len(p.args[1].args) + len(p.args[2].args) == 1:
                inner = (p.args[1].args or p.args[2].args)[0]
                c = p.args[0]
                if inner is q:
                    if all(interpreted(z) and feasible(z) for z in atoms(c)):
                        return self.D("condition on elements " + ("dropped" if p is y else "added"), x, y)
                    return self.U("condition on elements", x, y)
                r = self.item(inner, q, d + 1) if p is x else self.item(q, inner, d + 1)
                if r.v == DIFF:
                    return r
                for f, g in ((inner, q), (q, inner)):
                    if f.op == "sp" and f.args[0].op == "keys" and g.op == "for":
                        # the same names, listed in the order of another object
                        vs, (n, *its) = unbind(g)
                        src = f.args[0].args[0]
                        if len(its) == 1 and its[0].op == "if" and len(its[0].args[1].args) == 1 and not its[0].args[2].args:
                            nm = its[0].args[1].args[0]
                            if nm.op == "it" and nm.args[0].op == "getitem" and nm.args[0].args[1] is vs[0] and any(
                                    z.op == "in" and z.args[0] is nm.args[0] and z.args[1] is src for z in atoms(its[0].args[0])) \
                                    and independent_paths(src, nm.args[0].args[0]):
                                return self.D("names in the order of another object", x, y)
        if x.op == "sp" and y.op == "for" or x.op == "for" and y.op == "sp":
            s, f = (x, y) if x.op == "sp" else (y, x)
            v = fresh("i")
            vs, (n, *its) = unbind(f)
            if user_dict(s.args[0]) and len(its) == 1 and n is length(s.args[0]):
                k = getitem(mk("keys", s.args[0]), vs[0])
                t = tm.pair(k, getitem(s.args[0], k))
                if its[0] is t:
                    return Result(EQ)
                if its[0].op == "if" and its[0].args[0].op in ("isnone", "truth") and [list(its[0].args[1].args), list(its[0].args[2].args)] in ([[t], []], [[], [t]]) \
                        and any(z is t.args[1] for z in walk(its[0].args[0])):
                    return self.D("only some of the user's entries" if f is x else "all of the user's entries", x, y)
            s2_its = [it(getitem(s.args[0], vs[0]))]
            rn = self.diff(length(s.args[0]), n, d + 1) if s is x else self.diff(n, length(s.args[0]), d + 1)
            ri = self.items(s2_its, its, d + 1, x, y) if s is x else self.items(its, s2_its, d + 1, x, y)
            if rn.v == EQ or (rn.v == DIFF and ri.v == EQ):
                return self.combine([rn, ri])
            return self.U("iteration", x, y)
        if x.op == "it" and y.op == "for" or x.op == "for" and y.op == "it":
            return self.D("one element instead of one per iteration", x, y)
        for p, q in ((x, y), (y, x)):
            if first_of(p, q):
                return self.D("only the first instead of all" if p is x else "all instead of only the first", x, y)
        return self.U("elements", x, y)

    def d_pair(self, a, b, d):
        return self.item(a, b, d)

    d_it = d_sp = d_if = d_pair

    def running(self, a, b, d):
        """a loop that reads what it has built so far against one that only adds to it"""
        x, y = (a, b) if a.op == "fold" else (b, a)
        if len(y.args) != 2 or y.args[1].op != "for":
            return None
        vs, (n, step, *rest) = unbind(x)
        ws, (m, *its) = unbind(y.args[1])
        if n is not m or not rest or rest[-1] is not y.args[0]:
            return None
        other = upd(vs[-1], [subst(i, {ws[0].args[0]: vs[0]}) for i in its])
        r = self.diff(step, other, d + 1) if x is a else self.diff(other, step, d + 1)
        return r if r.v == DIFF else None

    def d_upd(self, a, b, d):
        ba, bb = (a.args[0] if a.op == "upd" else a), (b.args[0] if b.op == "upd" else b)
        ia, ib = (list(a.args[1:]) if a.op == "upd" else []), (list(b.args[1:]) if b.op == "upd" else [])
        if (ba.op == "fold") != (bb.op == "fold"):
            k = 0
            while k < min(len(ia), len(ib)) and ia[-1 - k] is ib[-1 - k]:
                k += 1
            ca, cb = (upd(z, its[:len(its) - k]) if its[:len(its) - k] else z for z, its in ((ba, ia), (bb, ib)))
            if {ca.op, cb.op} == {"fold", "upd"}:
                r = self.running(ca, cb, d)
                if r is not None:
                    return r
        plain = lambda its: all(i.op == "pair" and i.args[0].op in ("const", "attr_") for i in its)
        rbase = self.diff(ba, bb, d + 1)
        if plain(ia) and plain(ib):
            da = {i.args[0]: i.args[1] for i in ia}
            db = {i.args[0]: i.args[1] for i in ib}
            rs = [rbase]
            for k in db:
                if k in da:
                    r = self.diff(da[k], db[k], d + 1)
                    if r.v == DIFF:
                        r = Result(DIFF, f"[{show(k)}] " + r.why)
                    rs.append(r)
                elif rbase.v == EQ:
                    rs.append(self.D(f"entry {show(k)} missing", a, b))
            extra = [k for k in da if k not in db]
            if extra and rbase.v == EQ:
                if ba is EMPTYDICT:
                    rs.append(self.U(f"additional entry {show(extra[0])}", a, b))
                else:
                    rs.append(self.D(f"additional assignment {show(extra[0])}", a, b))
            if set(da) == set(db) and ba is bb and all(r.v == EQ for r in rs):
                if [k for k in da] != [k for k in db]:
                    return Result(EQ)
            return self.combine(rs)
        r2 = self.items(ia, ib, d + 1, a, b)
        if rbase.v == EQ:
            if r2.v == UNK:
                return self.by_key(ia, ib, d, a, b) or r2
            return r2
        if r2.v == DIFF and ba.op == bb.op == "call" and ba.args[0] == bb.args[0] == "np.zeros" and len(ia) == len(ib):
            return r2           # whatever the sizes of the two arrays
        return self.combine([rbase, r2]) if rbase.v == DIFF and r2.v == EQ else (
            rbase if rbase.v == DIFF and ia and [x.id for x in ia] == [x.id for x in ib] else self.U("update", a, b))

    def by_key(self, ia, ib, d, a, b):
        """entries of constant keys that only users' dictionaries can replace"""
        sets = []
        for its in (ia, ib):
            m = {}
            for i in its:
                if i.op == "pair" and i.args[0].op == "const":
                    m[i.args[0]] = i.args[1]
                elif i.op in ("sp", "if") and all(z.op == "pair" and z.args[0].op == "const" or z.op == "sp" and user_dict(z.args[0])
                                                 for z in leaves_of(i)):
                    for z in leaves_of(i):
                        if z.op == "pair":
                            m[z.args[0]] = None
                else:
                    return None
            sets.append(m)
        ma, mb = sets
        for k in mb:
            if k not in ma and mb[k] is not None:
                return self.D(f"entry {show(k)} missing", a, b)
            if ma.get(k) is not None and mb[k] is not None:
                r = self.diff(ma[k], mb[k], d + 1)
                if r.v == DIFF:
                    return Result(DIFF, f"[{show(k)}] " + r.why)
        return None

    def d_getitem(self, a, b, d):
        (x, k), (y, l) = a.args, b.args
        if x is y:
            r = self.diff(k, l, d + 1)
            return r
        r1, r2 = self.diff(x, y, d + 1), self.diff(k, l, d + 1)
        if r1.v == DIFF and r2.v == EQ:
            return r1
        if r1.v == EQ:
            return r2
        if r1.v == DIFF and r2.v == DIFF and k.op == l.op == "const" and x.op == y.op:
            return self.U("access path", a, b)
        t = self.other_operation(a, b, d)
        if t:
            return self.D(t, a, b)
        if r1.v != EQ and r2.v == EQ and k.op == "seq" and k.args[0] == "list" and not self.facts:
            for i in k.args[1:]:
                if i.op == "it" and i.args[0].op == "const":
                    u, v = column(x, i.args[0]), column(y, i.args[0])
                    if u is None or v is None:
                        continue
                    if u[0] != v[0]:
                        return self.D(f"column {show(i.args[0])} replaced only under a condition", a, b)
                    if not u[0]:
                        r = self.diff(u[1], v[1], d + 1)
                        if r.v == DIFF:
                            return Result(DIFF, f"[{show(i.args[0])}] " + r.why)
        return self.U("access", a, b)

    def d_rows(self, a, b, d):
        (x, k), (y, l) = a.args, b.args
        return self.combine([self.diff(x, y, d + 1), self.diff(k, l, d + 1)])

    def d_cat(self, a, b, d):
        x, y = list(a.args), list(b.args)
        while x and y and x[0] is y[0]:
            x.pop(0), y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop(), y.pop()
        if len(x) == len(y):
            if len(x) == 1:
                if leafish(x[0]) and leafish(y[0]) and x[0].op != "qvar":
                    return self.D("string", a, b)
                return self.diff(x[0], y[0], d + 1)
            rs = [self.diff(p, q, d + 1) for p, q in zip(x, y)]
            return self.combine(rs)
        if not x or not y or all(leafish(p) for p in x + y):
            return self.D("string", a, b)
        return self.U("string", a, b)

    def _call(self, a, b, d, isname):
        fa, fb = a.args[0], b.args[0]
        if fa != fb:
            if [x for x in a.args[1:]] == [y for y in b.args[1:]] or len(a.args) == len(b.args):
                if any(fa in f and fb in f for f in FAMILIES):
                    return self.D("operation", a, b)
            if self.labels_(a, b):
                return self.D("repetition", a, b)
            if fa.startswith("U.") and fb.startswith("U."):
                return self.D("result of " + fa[2:] + " instead of " + fb[2:], a, b)
            w = self.wrapper(a, b)
            if w is None:
                t = self.other_operation(a, b, d)
                w = self.D(t, a, b) if t else None
            return w if w is not None else self.U("operation", a, b)
        w = self.wrapper(a, b)
        if w is not None:
            return w
        if fa == "pd.concat" and all(any(x.op == "kw" and x.args[0] == "axis" and x.args[1] is ONE for x in z.args[1:]) for z in (a, b)):
            ka, kb = relabelled(a.args[1]), relabelled(b.args[1])
            if None not in (ka, kb) and ka != kb:
                return self.D("row labels " + ("kept" if kb else "dropped") + " before tables are placed side by side", a, b)
        if fa in ("np.dot", "np.matmul") and len(a.args) == len(b.args) == 3 and a.args[1] is b.args[2] and a.args[2] is b.args[1]:
            x, y = a.args[1:]
            if self.free_matrix(x) and self.free_matrix(y):
                return self.D("order of the factors of a matrix product", a, b)
        pa = [x for x in a.args[1:] if x.op != "kw"]
        pb = [x for x in b.args[1:] if x.op != "kw"]
        ka = {x.args[0]: x.args[1] for x in a.args[1:] if x.op == "kw"}
        kb = {x.args[0]: x.args[1] for x in b.args[1:] if x.op == "kw"}
        if len(pa) != len(pb):
            return self.U("arguments", a, b)
        rs = [self.diff(x, y, d + 1) for x, y in zip(pa, pb)]
        from .lib import SIG, MSIG
        known = fa in SIG or fa in MSIG or fa.split(".")[0] in ("go", "px", "ff")
        for k in kb:
            if k in ka:
                r = self.diff(ka[k], kb[k], d + 1)
                if r.v == DIFF:
                    r = Result(DIFF, f"argument {k} of {fa}: " + r.why)
                rs.append(r)
            else:
                rs.append(self.D(f"argument {k} of {fa} missing", a, b) if kb[k] is not NONE else self.U("argument", a, b))
        for k in ka:
            if k not in kb:
                rs.append(self.D(f"argument {k} of {fa} added", a, b) if fa in SIG or fa in MSIG else self.U(f"argument {k}", a, b))
        return self.combine(rs)

    def d_call(self, a, b, d):
        return self._call(a, b, d, True)

    d_meth = d_call

    def labels_(self, a, b):
        """columns that repeat or number individuals and mixture elements in different ways"""
        kinds = []
        for t in (a, b):
            if t.op != "call" or t.args[0] not in ("np.repeat", "np.tile", "np.arange"):
                return False
            x = t.args[1] if t.args[0] != "np.arange" else t
            if x.op != "call" or x.args[0] != "np.arange" or len(x.args) != 2:
                return False
            kinds.append(t.args[0])
        return kinds[0] != kinds[1]

    def free_matrix(self, t):
        """a matrix without structure, or its transpose"""
        while t.op == "call" and t.args[0] == "np.transpose" and len(t.args) == 2:
            t = t.args[1]
        while t.op == "getitem" and (t.args[1].op in ("const", "var") or is_intval(t.args[1])):
            t = t.args[0]
        return t.op == "in_" or t.op == "call" and str(t.args[0]).startswith("U.")

    def d_rng(self, a, b, d):
        """a draw from a distribution"""
        if a.args[0] != b.args[0] or a.args[1] is not b.args[1]:
            return self.U("draw", a, b)
        f = lambda t: raw("call", str(a.args[0]), *t.args[2:])
        r = self._call(f(a), f(b), d, True)
        if r.v == UNK and len(a.args) == len(b.args) - 1 and [x for x in b.args if x not in a.args and x.op == "kw"]:
            return self.D("argument of a draw missing", a, b)
        return r

    def d_throws(self, a, b, d):
        r = self.diff(a.args[1], b.args[1], d + 1)
        if r.v == EQ and a.args[0] != b.args[0]:
            return self.D("exceptions caught", a, b)
        return r if r.v == EQ else self.U("protected operations", a, b)

    def d_effect(self, a, b, d):
        if a.args[0] != b.args[0]:
            return self.U("effect", a, b)
        if a.args[0] == "raise":
            if a.args[1] != b.args[1] and "?" not in (a.args[1], b.args[1]):
                return self.D("exception type", a, b)
            return Result(EQ)  # messages are not compared
        return self.generic(a, b, d)


REDUCTIONS = {"np.max", "np.min", "np.sum", "np.mean", "np.any", "np.all"}


def flattened(its, loops, out):
    """the elements with the iterations they are in, whatever the order of these"""
    for i in its:
        if i.op == "for":
            vs, (n, *sub_) = unbind(i)
            if n.op == "const" or not flattened(sub_, loops + [(vs[0], n)], out):
                return False
        elif i.op in ("it", "if"):
            m, left = {}, []
            for z in walk(i):
                if z.op == "var" and z not in m and any(z is v for v, _ in loops):
                    m[z] = tm.raw("var", f"fl{len(m)}")
            if len(m) != len(loops):
                return False
            r = {v.args[0]: w for v, w in m.items()}
            out.append((subst(i, r).id, tuple(sorted((m[v].id, subst(n, r).id) for v, n in loops))))
        else:
            return False
    return True


def nested_order(ia, ib):
    """the same elements, but iterated over in another order"""
    fa, fb = [], []
    if not flattened(ia, [], fa) or not flattened(ib, [], fb) or not any(len(l) > 1 for _, l in fa + fb):
        return False
    return sorted(fa) == sorted(fb)


def is_raise(i):
    if i.op == "it":
        i = i.args[0]
    return i.op == "effect" and i.args[0] == "raise"


def raises(i):
    return is_raise(i) or i.op == "if" and any(raises(z) for k in (1, 2) for z in i.args[k].args)


def until_raise(its):
    """nothing happens after an error"""
    for k, i in enumerate(its):
        if is_raise(i):
            return list(its[:k + 1])
    return its


# functions that change (some of) the values they are applied to
CHANGING = {"np.abs", "np.exp", "np.log", "np.maximum", "np.minimum", "np.nan_to_num", "np.clip", "np.sign", "np.square", "np.cumsum", "np.round", "np.flip"}
STATISTICS = {"sum", "mean", "max", "min", "std", "var", "median", "prod", "first", "last"}
ALTERING = {"ffill", "bfill", "interpolate", "pad", "backfill"}


def filled(x, y):
    """y passes x through an operation that replaces missing values (or keeps one level of its labels)"""
    found = []

    def strip(t):
        if t is x:
            return t
        if t.op == "meth" and len(t.args) >= 2:
            if t.args[0] in ALTERING or t.args[0] == "fillna" and panel(x):
                found.append("filling of missing values")
                return strip(t.args[1])
            if t.args[0] == "get_level_values" and panel(x):
                found.append("restriction to one level of the labels")
                return strip(t.args[1])
            if t.args[0] in ("groupby", "unique"):
                return strip(t.args[1])
        if t.op == "getitem" and t.args[0].op == "meth":
            return tm.getitem(strip(t.args[0]), t.args[1])
        return t
    if y.op != "meth":
        return None
    t = strip(y)
    return found[0] if found and t is x else None


def arange_of(t):
    """number of elements of 0, 1, 2, ...; None if it is something else"""
    if t.op == "call" and t.args[0] == "np.arange" and len(t.args) == 2:
        return t.args[1]
    if t.op == "attr" and t.args[1] == "index" and t.args[0].op == "meth" and t.args[0].args[0] == "reset_index":
        return tm.length(t)
    return None


def flat_elements(s):
    """elements of a list that is built in loops"""
    out = []

    def go(its):
        for i in its:
            if i.op == "it":
                out.append(i.args[0])
            elif i.op == "for":
                go(unbind(i)[1][1:])
            elif i.op == "if":
                go(i.args[1].args)
                go(i.args[2].args)
            else:
                out.append(i)
    if s.op == "seq":
        go(s.args[1:])
    return out


def numbering(t):
    """how a column numbers its elements: (div, k) if k neighbours share a number, (mod, k) if numbers start again after k"""
    if t.op == "call" and t.args[0] in ("np.repeat", "np.tile") and len(t.args) == 3 and arange_of(t.args[1]) is not None:
        return ("div", t.args[2]) if t.args[0] == "np.repeat" else ("mod", arange_of(t.args[1]))
    if t.op in ("mod", "floordiv") and len(t.args) == 2 and arange_of(t.args[0]) is not None:
        return ("div" if t.op == "floordiv" else "mod", t.args[1])
    if t.op == "meth" and t.args[0] in ("flatten", "ravel") and t.args[1].op == "call" and t.args[1].args[0] == "np.full":
        f = t.args[1]
        if len(f.args) == 3 and f.args[1].op == "seq" and len(f.args[1].args) == 3 and arange_of(f.args[2]) is not None:
            fortran = any(z.op == "const" and z.args[0] == "F" for z in t.args[2:] + tuple(q.args[1] for q in t.args[2:] if q.op == "kw"))
            n = f.args[1].args[1]
            return ("div", n.args[0] if n.op == "it" else None) if fortran else ("mod", arange_of(f.args[2]))
    if t.op == "attr" and t.args[1] == "index" and t.args[0].op == "call" and t.args[0].args[0] == "pd.concat" \
            and not any(z.op == "kw" and z.args[0] in ("ignore_index", "keys", "axis") and z.args[1] is not ZERO for z in t.args[0].args[1:]):
        frames = []
        for z in flat_elements(t.args[0].args[1]):
            while z.op == "upd":
                z = z.args[0]
            frames.append(z)
        if frames and all(z.op == "call" and z.args[0] == "pd.DataFrame" and not any(k.op == "kw" and k.args[0] == "index" for k in z.args[1:])
                          and len([k for k in z.args[1:] if k.op != "kw"]) <= 1 for z in frames):
            return ("mod", None)
        return None
    if t.op == "call" and t.args[0] == "np.arange" and len(t.args) == 2:
        return ("id", None)
    if t.op == "call" and t.args[0] in ("np.argsort", "np.random.permutation"):
        return ("data", None)
    return None


def stat_of(t):
    """(name, what) of a summary of the same elements"""
    if t.op not in ("call", "meth") or len(t.args) < 2 or not isinstance(t.args[1], T):
        return None
    n = str(t.args[0]).split(".")[-1]
    rest = [z for z in t.args[2:] if not (z.op == "kw" and z.args[0] in ("axis", "level", "numeric_only", "keepdims"))]
    if n == "quantile":
        q = [z.args[1] if z.op == "kw" else z for z in rest]
        v = tm.to_poly(q[0]) if len(q) == 1 and (q[0].op == "poly" or q[0].op == "const" and isinstance(q[0].args[0], (int, float))) else None
        if v is not None and set(v) <= {()}:
            v = v.get((), 0)
            return ({0: "min", 1: "max", tm.Fraction(1, 2): "median"}.get(v, f"quantile {v}"), t.args[1])
        return None
    if n in STATISTICS | {"min", "max", "mean", "median", "std", "var", "sum", "first", "last", "count"} and not rest:
        return (n, t.args[1])
    return None


def where_of(t):
    """(condition, replacement) of x.where(condition, replacement), also if rounded"""
    while t.op == "meth" and t.args[0] == "round":
        t = t.args[1]
    if t.op != "meth" or t.args[0] != "where" or len(t.args) not in (3, 4):
        return None
    o = t.args[3].args[1] if len(t.args) == 4 and t.args[3].op == "kw" else t.args[3] if len(t.args) == 4 else None
    if o is not None and (o.op != "const" or o.args[0] is None):
        return None
    return t.args[2], o


def selects(t):
    """an element at the place where something is largest or smallest"""
    while t.op == "getitem" and t.args[0].op in ("call", "meth", "getitem"):
        if any(z.op in ("call", "meth") and str(z.args[0]).split(".")[-1] in ("argmax", "argmin") for z in walk(t.args[1])):
            return True
        t = t.args[0]
    return t.op == "call" and t.args[0] == "np.take_along_axis" and any(
        z.op in ("call", "meth") and str(z.args[0]).split(".")[-1] in ("argmax", "argmin") for z in walk(t.args[2]))


def is_free(t):
    """a number or array that depends on the input and takes any value"""
    return "opaque" not in t.flags and t.op in ("in_", "el", "getitem") and not any(z.op in ("ite", "opaque") for z in walk(t))


def relabelled(t):
    """whether the tables of a list are renumbered (True), keep the labels of selected rows (False), or cannot be told (None)"""
    out = set()

    def go(x):
        if x.op in ("seq", "it", "sp", "if", "for", "body", "ite"):
            for z in unbind(x)[1][1:] if x.op == "for" else x.args[1:] if x.op in ("if", "ite", "seq") else x.args:
                if isinstance(z, T):
                    go(z)
        elif x.op == "meth" and x.args[0] == "reset_index":
            out.add(True if any(z.op == "kw" and z.args[0] == "drop" and z.args[1] is TRUE for z in x.args[2:]) else None)
        elif x.op == "meth" and x.args[0] in ("add_suffix", "rename", "add_prefix"):
            go(x.args[1])
        elif x.op == "getitem" and kind(x.args[1]) in ("list", "str"):
            go(x.args[0])
        else:
            out.add(False if x.op == "rows" else None)
    go(t)
    return next(iter(out)) if len(out) == 1 else None


def panel(x):
    return any(z.op == "in_" and z.args[0] in ("df", "data") for z in walk(x))


def last_only(x, y):
    """x is the value of the last iteration, where y accumulates over all iterations"""
    if x.op != "ite" or y.op != "fold":
        return False
    vs, body = unbind(y)
    n, step, init = body[0], body[1], body[-1]
    if x.args[2] is not init or not isinstance(step, T):
        return False
    i, acc = vs[0], vs[-1]
    if step.op != "meth" or step.args[0] not in ("union", "append") or len(step.args) < 3 or step.args[1] is not acc:
        return False
    g = tm.subst(step.args[2], {i.args[0]: sub(n, ONE)})
    if acc.args[0] in g.free:
        return False
    return g is x.args[1] or tm.subst(step.args[2], {i.args[0]: tm.const(-1)}) is x.args[1] or same_last(step.args[2], x.args[1], i)


def same_last(g, v, i):
    """v is g with 'the last element' in place of the element of the iteration"""
    if g is v:
        return True
    if g.op == "getitem" and g.args[1] is i:
        return v.op == "getitem" and v.args[0] is g.args[0] and v.args[1].op in ("const", "poly")
    if g.op != v.op or len(g.args) != len(v.args):
        return False
    return all(same_last(p, q, i) if isinstance(p, T) and isinstance(q, T) else p == q for p, q in zip(g.args, v.args))


def by_position(x, y):
    """x iterates over the first (or last) of the selected elements y iterates over"""
    js, (n, *its) = unbind(x)
    if n.op != "len" or len(its) != 1 or its[0].op != "if" or its[0].args[0].op != "gt0":
        return False
    F, j, c = n.args[0], js[0], its[0].args[0]
    p = tm.to_poly(c.args[0])
    if {tm._atoms[k] for m in p for k, _ in m} != {j} or F.op != "seq" or len(F.args) != 2 or F.args[1].op != "for":
        return False
    inner = [z for z in (its[0].args[1].args, its[0].args[2].args) if z]
    if len(inner) != 1:
        return False
    ks, (m, *jts) = unbind(F.args[1])
    if len(jts) != 1 or jts[0].op != "if" or len(jts[0].args[1].args) + len(jts[0].args[2].args) != 1:
        return False
    g = (jts[0].args[1].args or jts[0].args[2].args)[0]
    if g.op != "it":
        return False
    got = [subst(replace(z, {getitem(F, j).id: g.args[0]}), {j.args[0]: ks[0]}) for z in inner[0]]
    ws, (o, *kts) = unbind(y)
    kts = [subst(z, {ws[0].args[0]: ks[0]}) for z in kts]
    if o is not m or len(kts) != 1 or kts[0].op != "if":
        return False
    branches = (got, []) if jts[0].args[1].args else ([], got)
    return all([a.id for a in p.args] == [b.id for b in q] for p, q in zip(kts[0].args[1:], branches)) and jts[0].args[0] is kts[0].args[0]


def independent_paths(s, t):
    ps, pt = paths(s, True), paths(t, True)
    return bool(ps and pt) and not any(u == v or u.startswith(v) or v.startswith(u) for u in ps for v in pt)


def one_element(e, s):
    """e is one fixed element of the comprehension s"""
    if len(s.args) != 2 or s.args[1].op != "for":
        return False
    vs, (n, *its) = unbind(s.args[1])
    if len(its) != 1 or its[0].op != "it":
        return False
    t = its[0].args[0]
    return any(subst(t, {vs[0].args[0]: k}) is e for k in (ZERO, ONE, const(-1), sub(n, ONE)))


# inputs that carry the same information as others: no claim about dependence on them
NODEP = {"labels", "dimensions", "n_obs", "update_info", "anchoring_info", "params_index", "model", "debug", "self"}
_PATHS = {}
STRUCT = {"len", "isnone", "truth", "isinstance", "hasattr", "callable", "isscalar", "in", "keys"}


def _path(t):
    """access path of constant keys on an input"""
    if t.op == "in_":
        return str(t.args[0])
    if t.op == "getitem" and t.args[1].op == "const" and isinstance(t.args[1].args[0], str):
        p = _path(t.args[0])
        return None if p is None else f"{p}[{t.args[1].args[0]}]"
    return None


def paths(t, everything=False):
    """inputs and loop indices the value of t depends on (not counting sizes and type tests, unless everything)"""
    k = (t.id, everything)
    r = _PATHS.get(k)
    if r is not None:
        return r
    p = _path(t)
    if p is not None:
        r = frozenset([p])
    elif t.op == "var" and str(t.args[0]).startswith("i#"):
        r = frozenset([t.args[0]])
    elif not everything and (t.op in STRUCT or t.op == "attr" and t.args[1] in ("shape", "ndim", "size", "dtype", "index", "columns")):
        r = frozenset()
    else:
        r = set()
        for x in t.args:
            if isinstance(x, T):
                r |= paths(x, everything)
        r = frozenset(r)
    _PATHS[k] = r
    return r


def quotient(p, q, most=1):
    """the monomial by which every monomial of p is multiplied in q, or None"""
    fs = set()
    for m, c in p.items():
        best = None
        for n, e in q.items():
            dm, dn = dict(m), dict(n)
            f = {k: dn.get(k, 0) - dm.get(k, 0) for k in set(dm) | set(dn)}
            f = tuple(sorted((k, v) for k, v in f.items() if v))
            if e == c and 0 < len(f) <= most and (best is None or len(f) < len(best)):
                best = f
        if not best:
            return None
        fs.add(best)
    return next(iter(fs)) if len(fs) == 1 else None


def is_running(t):
    """0, 1, 2, …"""
    if t.op == "seq" and len(t.args) == 2 and t.args[1].op == "for":
        vs, (n, *its) = unbind(t.args[1])
        return len(its) == 1 and its[0].op == "it" and its[0].args[0] is vs[0]
    return t.op == "range"


def unique_of(t):
    if t.op == "setof":
        return t.args[0]
    if t.op == "call" and t.args[0] == "np.unique" and len(t.args) == 2:
        return t.args[1]
    return None


def fewer(p, q):
    """p has all elements of the list q but the first or last ones"""
    if p.op == "getitem" and p.args[1].op == "slice" and p.args[0] is q:
        return any(z.op == "const" and isinstance(z.args[0], int) and z.args[0] != 0 for z in p.args[1].args)
    if p.op == "ite" and q.op == "ite" and p.args[0] is q.args[0]:
        return any(fewer(u, v) and (x is y or fewer(x, y)) for u, v, x, y in ((p.args[1], q.args[1], p.args[2], q.args[2]), (p.args[2], q.args[2], p.args[1], q.args[1])))
    if p.op == "seq" and len(p.args) == 2 and p.args[1].op in ("if", "sp"):
        i = p.args[1]
        if i.op == "sp":
            return fewer(i.args[0], q)
        if q.op == "ite" and q.args[0] is i.args[0]:
            ps = [tm.seq("list", list(i.args[k].args)) for k in (1, 2)]
            return any(fewer(ps[k], q.args[k + 1]) and (ps[1 - k] is q.args[2 - k] or fewer(ps[1 - k], q.args[2 - k])) for k in (0, 1))
        if i.op == "if" and q.op == "seq":
            return False
    if p.op == "seq" and q.op == "seq" and len(p.args) == len(q.args) == 2 and p.args[1].op == q.args[1].op == "for":
        vs, (n, *its) = unbind(p.args[1])
        x = open_with(q.args[1], vs)
        k = x and sub(x[0], n)
        return bool(x) and [i.id for i in its] == [i.id for i in x[1:]] and k.op == "const" and k.args[0] > 0 \
            and len(its) == 1 and its[0].op == "it" and its[0].args[0] is vs[0]
    return False


def scaled_by(t):
    """elements of inputs in the addends of a sum"""
    if t.op == "el":
        return [t]
    if t.op == "sum":
        body = unbind(t)[1][1]
        return [z for m in tm.to_poly(body) for k, _ in m for z in scaled_by(tm._atoms[k])] if is_arith(body) or body.op == "el" else []
    return []


RANKING = {"rank", "cumsum", "cumcount", "cummax", "cummin", "diff", "shift", "argsort", "pct_change", "ngroup"}
LABELS_ONLY = {"reindex", "sort_index", "set_index", "reset_index", "astype", "copy", "rename", "to_frame", "droplevel"}


def bare(t):
    """a column itself for the array of its values"""
    while t.op == "call" and t.args[0] == "np.array" and len(t.args) == 2 and isinstance(t.args[1], T):
        t = t.args[1]
    return t


def spine(t):
    """the operations through which a value is taken from an input"""
    out = [t]
    while t.op in ("meth", "getitem", "attr") and isinstance(t.args[1 if t.op == "meth" else 0], T):
        t = t.args[1 if t.op == "meth" else 0]
        out.append(t)
    return out


def summarised_draws(t):
    return any(stat_of(z) and stat_of(z)[0] in ("mean", "median", "std", "var", "max", "min") and any(y.op == "draw" for y in walk(stat_of(z)[1]))
               or z.op in ("call", "meth") and str(z.args[0]).split(".")[-1] in ("clip", "abs", "round", "sort", "floor", "ceil", "rint", "sign", "square", "tanh")
               and len(z.args) > 1 and isinstance(z.args[1], T) and is_draw(z.args[1]) for z in walk(t))


def weights_summed(p):
    """inputs all of whose elements a formula contains as weights of a sum"""
    r = set()
    for m in p:
        for k, e in m:
            t = tm._atoms[k]
            if t.op != "sum" or e <= 0:
                continue
            vs, (n, body) = unbind(t)
            if n.op == "const" or len(vs) != 1:
                continue
            for bm in tm.to_poly(body):
                for l, f in bm:
                    z = tm._atoms[l]
                    if z.op == "el" and z.args[0].op == "in_" and z.args[1:] == (vs[0],) and z.args[0].args[0] not in NODEP and f > 0:
                        r.add(z.args[0].args[0])
    return r


def is_draw(t):
    while t.op in ("getitem", "el") or t.op in ("call", "meth") and str(t.args[0]).split(".")[-1] in ("reshape", "astype", "array", "asarray"):
        t = t.args[0] if t.op in ("getitem", "el") else t.args[1]
    return t.op == "draw" and any("normal" in str(z.args) for z in walk(t) if z.op in ("rng", "lib"))


def raw_data(t):
    """a column of the data of the user, without arithmetic on it"""
    return bool(paths(t)) and all(z.op in ("getitem", "in_", "el", "rows", "attr", "upd", "fold", "mask") or z.op == "meth" and (z.args[0] in LABELS_ONLY or z.args[0] in ("reindex", "dropna", "fillna"))
                                  for z in spine(t)) and "opaque" not in t.flags


def statistic(t):
    """a summary of data, which takes any positive value"""
    return t.op in ("meth", "call") and str(t.args[0]).split(".")[-1] in ("std", "var") and "opaque" not in t.flags


def is_arith(t):
    return t.op in ("poly", "sum", "len") or t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def interp_num(t):
    return t.op != "opaque" and "opaque" not in t.flags


def atoms_deep(t):
    return set()


def lengths_instead(x, y):
    """x only compares numbers of elements of what y compares the elements of"""
    if x.op != "eq":
        return False
    ls, es = [], []

    def go(z):
        if z.op == "len":
            ls.append(z)
        elif z.op == "getitem" and z.args[1].op == "const":
            es.append(z)
        elif z.op == "poly":
            return all(go(tm._atoms[k]) for m in tm.to_poly(z) for k, _ in m)
        elif z.op != "const":
            return False
        return True

    if not all(go(z) for z in x.args) or not ls:
        return False
    base = lambda t: base(t.args[0]) if t.op in ("attr", "setof", "keys", "sorted") else t
    bs = {base(z.args[0]).id for z in ls + es}
    if y.op == "set_le" or y.op == "eq" and not any(is_arith(z) for z in y.args):
        return bs <= {base(z).id for z in y.args} | {z.id for z in y.args} | {z.args[0].id for z in y.args if z.op == "sorted"} | {base(q.args[0]).id for z in y.args for q in walk(z) if q.op == "len"}
    return False


def at_the_end(t):
    """truth value of a test in a row whose shifted neighbour does not exist (None: it depends)"""
    if t.op == "ite":
        c = at_the_end(t.args[0])
        return at_the_end(t.args[1] if c else t.args[2]) if c is not None else None
    if t.op == "const":
        return bool(t.args[0])
    if t.op in ("truth", "bool") and len(t.args) == 1 or t.op == "getitem" or t.op == "call" and t.args[0] in ("np.array", "np.asarray") and len(t.args) == 2:
        return at_the_end(t.args[1 if t.op == "call" else 0])
    if t.op in ("eq", "gt0") and any(z.op == "meth" and z.args[0] == "shift" for a in t.args for z in walk(a)):
        return False
    return None


STRTEST = {"startswith", "endswith"}


def sizelike(t):
    return t.op == "len" or t.op in ("call", "meth") and str(t.args[0]).split(".")[-1] == "size"


def other_test(x, y):
    """a reason why the tests x and y of the same thing have different outcomes for some input"""
    if x.op == "mask" and y.op not in ("mask", "eq") or y.op == "mask" and x.op not in ("mask", "eq"):
        x, y = (z.args[0] if z.op == "mask" and isinstance(z.args[0], T) else z for z in (x, y))
    if {x.op, y.op} == {"isnan", "isfinite"} and x.args[0] is y.args[0]:
        return "infinite values treated differently"
    if lengths_instead(x, y):
        return "numbers of elements compared instead of the elements"
    if x.op == "in" and y.op == "eq" and x.args[0].op == "const" and isinstance(x.args[0].args[0], str) and x.args[1] in y.args and kind(x.args[1]) == "str":
        return "part of a text instead of the whole text"
    if x.op == "in" and y.op == "eq" and kind(x.args[0]) == kind(x.args[1]) == "str" and set(x.args) == set(y.args):
        return "part of a text instead of the whole text"
    if x.op == "mask" and x.args[0].op in ("startswith", "endswith", "in"):
        x = x.args[0]
        if x.op == "in" and y.op == "eq" and set(x.args) == set(y.args) and any(z.op == "qvar" for z in x.args):
            return "part of a text instead of the whole text"
    if x.op in ("startswith", "endswith") and y.op == "eq" and x.args[0] in y.args:
        return "beginning or end of a text instead of the whole text"
    if x.op == "meth" and x.args[0] in STRTEST and y.op == "eq" and len(x.args) == 3 and x.args[1] in y.args and kind(x.args[1]) == "str":
        return "beginning or end of a text instead of the whole text"
    if x.op == y.op == "eq":
        # an element against all elements
        for p in x.args:
            if p.op == "getitem" and p.args[1].op == "const" and isinstance(p.args[1].args[0], int) and p.args[0] in y.args \
                    and any(z.op == "seq" and z.args[0] == "list" for z in y.args) and not any(z is p for q in y.args for z in walk(q) if z is not p.args[0]):
                return "one element compared instead of all"
        # no variation: by the standard deviation, or by counting values
        for p, q in (x.args, x.args[::-1]):
            if p is ZERO and q.op == "meth" and q.args[0] in ("std", "var") and any(z.op == "len" and "unique" in repr(z) for z in y.args) and ONE in y.args:
                return "no variation also for a single observation"
    if x.op == "gt0" and y.op == "anyof" and len(x.args) == 1:
        p = tm.to_poly(x.args[0])
        c = p.get((), 0)
        z = tm._atoms[max(p)[0][0]] if len(p) == 2 and c <= -1 and () in p and len(max(p)) == 1 and max(p)[0][1] == 1 and p[max(p)] == 1 else None
        if z is not None and z.op == "call" and z.args[0] == "np.sum" and z.args[1] is y.args[0] and z.args[2:] == y.args[1:]:
            return "several elements instead of any"
    if x.op == "anyof" and y.op == "set_le" and x.args[0].op == "gt0" and y.args[1].op == "seq" and all(z.op == "it" and z.args[0].op == "const" for z in y.args[1].args[1:]) and len(x.args) == 1:
        p, q = tm.to_poly(x.args[0].args[0]), tm.to_poly(y.args[0])
        c = p.get((), 0)
        vs_ = [z.args[0].args[0] for z in y.args[1].args[1:]]
        if all(isinstance(v, int) for v in vs_) and vs_ and {m: n for m, n in p.items() if m} in ({m: n for m, n in q.items() if m}, {m: -n for m, n in q.items() if m}) and () not in q:
            return "only one bound instead of both"
    if x.op == "any" and y.op == "in" and "opaque" not in x.flags:
        vs, (n, c) = unbind(x)
        if c.op in STRTEST | {"in"} and n is length(y.args[1]) and any(z.op == "getitem" and z.args[0] is y.args[1] and z.args[1] is vs[0] for z in c.args) \
                and any(z is y.args[0] or z.op in ("str", "call") and y.args[0] in z.args for z in c.args):
            return "part of a text instead of the whole text"
    if x.op == "gt0" and y.op == "truth":
        p, q = tm.to_poly(x.args[0]), y.args[0]
        if len(p) == 2 and sorted(p.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and tm._atoms[m[0][0]].op == "len" for m in p):
            big, small = (tm._atoms[next(m for m, c in p.items() if c == s)[0][0]].args[0] for s in (1, -1))
            if small is q and filtered(small, big):
                return "some are left out instead of all"
    if x.op == "gt0" and y.op == "eq" and ONE in y.args and any(z.op == "len" and "unique" in repr(z) for z in y.args):
        pr = tm.to_poly(x.args[0])
        ms = [tm._atoms[m[0][0]] for m in pr if len(m) == 1]
        if len(pr) == 2 and len(ms) == 1 and pr.get((), 0) > 0 and statistic(ms[0]):
            return "small variation regarded as none"
    if x.op == "gt0" and y.op in ("anyof", "allof"):
        pr = tm.to_poly(x.args[0])
        ks = [tm._atoms[k] for m in pr for k, _ in m]
        part = lambda z: z.op == "floordiv" and z.args[0].op in ("len", "in_", "attr", "getitem") and tm.to_poly(z.args[1]).keys() == {()} and tm.to_poly(z.args[1])[()] > 1
        if len(pr) == len(ks) == 2 and any(z.op == "call" and z.args[0] == "np.sum" and (kind(z.args[1]) == "bool" or z.args[1].op in ("isnan", "ite")) for z in ks) and any(part(z) for z in ks):
            return "a share instead of all or any"
    if x.op == "any" and y.op == "truth" and "opaque" not in x.flags:
        vs, (n, c) = unbind(x)
        if n is length(y.args[0]) and c.op == "truth" and c.args[0].op == "getitem" and vs[0].args[0] in c.args[0].args[1].free and c.args[0].args[0] is y.args[0]:
            return "a non-zero element instead of any element"
    if x.op == "same_object" and y.op == "eq" and set(x.args) == set(y.args):
        return "identity of the object instead of equality"
    if x.op == "gt0" and y.op == "eq" and any(sizelike(z) for z in y.args) and any(z.op == "const" for z in y.args):
        ks = [tm._atoms[k] for m in tm.to_poly(x.args[0]) for k, _ in m]
        v = next(z for z in y.args if sizelike(z)).args
        v = v[0] if isinstance(v[0], T) else v[1]
        if ks and all(k.op in ("call", "meth") and str(k.args[0]).split(".")[-1] in ("max", "min", "sum", "mean", "std") and k.args[1] is v for k in ks):
            return "the values tested instead of their number"
    if x.op == "gt0" and y.op in ("anyof", "allof"):
        pr = tm.to_poly(x.args[0])
        ms = [tm._atoms[m[0][0]] for m in pr if len(m) == 1]
        c = pr.get((), 0)
        if len(pr) == 2 and len(ms) == 1 and ms[0].op in ("meth", "call") and str(ms[0].args[0]).split(".")[-1] == "mean" and 0 < abs(c) < 1:
            return "a share instead of all or any"
    return None


_ATOMS = {}


def atoms(t):
    """test atoms of a decision tree (boolean)"""
    r = _ATOMS.get(t.id)
    if r is None:
        if t.op == "ite":
            r = {t.args[0]} | atoms(t.args[1]) | atoms(t.args[2])
        elif t.op == "const":
            r = set()
        else:
            r = {t}
        _ATOMS[t.id] = r
    return r


def _zero_set(x, number=False):
    """a test of one number against constants: (number, kind, threshold) with kind gt, lt or eq"""
    if x.op == "gt0":
        p = tm.to_poly(x.args[0])
    elif x.op == "eq" and (number or any(is_arith(z) for z in x.args)) and all(kind(z) != "str" and z.op not in ("seq", "upd", "pair") for z in x.args):
        p = tm.to_poly(sub(*x.args))
    else:
        return None
    c = p.pop((), 0)
    if not p:
        return None
    lead = p[min(p)]
    t = tm.from_poly({m: v / lead for m, v in p.items()})
    kd = "eq" if x.op == "eq" else "gt" if lead > 0 else "lt"
    return t, kd, -c / lead


def lower_bound(t):
    p = single_atom(tm.to_poly(t))
    if p is None:
        return None
    if p.op == "len":
        return 0
    if p.op == "in_":
        return 1
    return None


def two_loops(t, bounds):
    """the difference of the running numbers of two loops that do not restrict each other, both of which can have three iterations"""
    p = tm.to_poly(t)
    vs = [tm._atoms[m[0][0]] for m in p if len(m) == 1 and m[0][1] == 1]
    if len(vs) != 2 or len(p) != 2 or sorted(p.values()) != [-1, 1] or any(v.op != "var" or v.id not in bounds for v in vs):
        return False
    for v in vs:
        n = bounds[v.id]
        if any(z.op in ("var", "bv", "opaque", "poly", "const") for z in walk(n)) or n.op not in ("len", "in_", "getitem"):
            return False
    return True


def zero_value(t, x, y, p, q):
    """t where the number or string tested by 'is it true' and 'is it None' is neither"""
    if {x.op, y.op} == {"truth", "isnone"} and not p and not q:
        return replace(t, {x.args[0].id: const("") if kind(x.args[0]) == "str" else ZERO})
    return t


def combinations(x, y, bounds=()):
    """truth values which two tests of the same number can take together, or None"""
    for u, v in ((x, y), (y, x)):
        if u.op == "truth" and v.op == "isnone" and u.args[0] is v.args[0] and (
                u.args[0].id in tm.OPTIONAL_NUMBERS or kind(u.args[0]) in ("int", "float", "num", "str", "bool")):
            return {(False, True), (True, False), (False, False)}
    if x.op == "truth" and y.op == "gt0":
        x = tm.raw("gt0", length(x.args[0]))
    elif y.op == "truth" and x.op == "gt0":
        y = tm.raw("gt0", length(y.args[0]))
    zx, zy = _zero_set(x, y.op == "gt0"), _zero_set(y, x.op == "gt0")
    if zx is None or zy is None or zx[0] is not zy[0]:
        return None
    t = zx[0]
    ops = {tm._atoms[i].op for m in tm.to_poly(t) for i, _ in m}
    if ops & {"var", "bv"} and "getitem" not in ops and not two_loops(t, bounds) or "opaque" in t.flags:
        return None
    step = 1 if is_intval(t) or single_atom(tm.to_poly(t)) is None and all(is_intval(tm._atoms[i]) for m in tm.to_poly(t) for i, _ in m) else tm.Fraction(1, 3)
    lo = lower_bound(t) if is_intval(t) else None
    pts = {c + k * step for c in (zx[2], zy[2]) for k in (-1, 0, 1)}
    if step == 1:
        pts = {int(v // 1) + k for v in pts for k in (0, 1)}
    pts = [v for v in pts if lo is None or v >= lo]
    truth = lambda z, v: v > z[2] if z[1] == "gt" else v < z[2] if z[1] == "lt" else v == z[2]
    return {(truth(zx, v), truth(zy, v)) for v in pts}


def existential(t):
    """(atom, negated) of an 'is there an element with' test"""
    n = t.op == "ite" and t.args[1] is FALSE and t.args[2] is TRUE
    z = t.args[0] if n else t
    return (z, n) if z.op in ("anyof", "any") else (None, None)


def occurs_atom(t, atom):
    if t is atom:
        return True
    if t.op == "ite":
        return t.args[0] is atom or occurs_atom(t.args[1], atom) or occurs_atom(t.args[2], atom)
    return False


def cof(t, atom, v):
    if t is atom:
        return TRUE if v else FALSE
    if t.op == "ite":
        if t.args[0] is atom:
            return t.args[1] if v else t.args[2]
        x, y = cof(t.args[1], atom, v), cof(t.args[2], atom, v)
        if x is t.args[1] and y is t.args[2]:
            return t
        return ite(t.args[0], x, y)
    return t


def assume(t, atom, v):
    """simplify t under the assumption atom == v"""
    m = {}
    if atom.op == "eq" and v:
        x, y = atom.args
        if y.op == "const":
            m[x.id] = y
        elif x.op == "const":
            m[y.id] = x
        elif leafish(x) or x.op == "getitem":
            m[y.id if y.op != "poly" else x.id] = x if y.op != "poly" else y
    elif atom.op == "isnone" and v:
        m[atom.args[0].id] = NONE
    elif atom.op == "truth" and not v:
        m[length(atom.args[0]).id] = ZERO
    m[atom.id] = TRUE if v else FALSE
    implications(t, atom, v, m)
    return replace(t, m)


EXCLUSIVE = {"str", "int", "float", "list", "tuple", "dict", "set", "DataFrame", "Series", "Index", "MultiIndex", "bool", "ndarray"}


def halves(t):
    """the string whose text before and after its middle character is compared (equality implies an odd length)"""
    if t.op == "eq" and all(half(z) is not None for z in t.args) and len({half(z) for z in t.args}) == 1:
        s = half(t.args[0])
        if any("floordiv" in repr(z.args[1]) for z in t.args):
            return s
    return None


def parity(t):
    if t.op == "eq":
        for z in t.args:
            if z.op == "mod" or z.op == "call" and z.args[0] == "mod":
                return z
            if "mod(len(" in repr(z)[:40]:
                return z
    return None


def implications(t, atom, v, m):
    """other tests in t whose outcome follows"""
    if v and atom.op == "eq" and (halves(atom) is not None or parity(atom) is not None):
        for o in walk(t):
            if o is not atom and o.op == "eq" and (halves(atom) is not None and parity(o) is not None and ZERO in o.args or parity(atom) is not None and halves(o) is not None):
                m[o.id] = FALSE
    x = atom.args[0] if atom.args and isinstance(atom.args[0], T) else None
    if atom.op == "in":
        x = atom.args[1]
    if x is None or atom.op not in ("isnone", "truth", "isinstance", "in"):
        return
    for o in alltests(t):
        if o is atom or o.id in m or not o.args or not isinstance(o.args[0], T):
            continue
        if v and o.op in ("isnone", "truth", "isinstance") and o.args[0] is x:
            if atom.op in ("truth", "isinstance", "in") and o.op == "isnone":
                m[o.id] = FALSE
            elif atom.op == "in" and o.op == "truth":
                m[o.id] = TRUE
            elif atom.op == "isnone":
                m[o.id] = FALSE
            elif atom.op == "isinstance" and o.op == "isinstance" and disjoint_types(atom, o):
                m[o.id] = FALSE
        elif not v and atom.op == "truth" and o.op == "in" and o.args[1] is x:
            m[o.id] = FALSE
        elif not v and atom.op == "isnone" and False:
            pass
        elif v and atom.op == "isnone" and o.op == "in" and o.args[1] is x:
            m[o.id] = FALSE


def disjoint_types(a, b):
    def names(y):
        out = set()
        for z in walk(y.args[1]) if isinstance(y.args[1], T) else [y.args[1]]:
            if isinstance(z, T) and z.op == "lib":
                out.add(str(z.args[0]).split(".")[-1])
            elif not isinstance(z, T):
                out.add(str(z).split(".")[-1])
        return out
    p, q = names(a), names(b)
    return bool(p) and bool(q) and not p & q and p | q <= EXCLUSIVE and not ({"int", "bool"} <= p | q)


_TESTS = {}


def alltests(t):
    r = _TESTS.get(t.id)
    if r is None:
        r = _TESTS[t.id] = [x for x in walk(t) if x.op in ("isnone", "truth", "isinstance", "in")]
    return r


def interpreted(t):
    if "opaque" in t.flags:
        return False
    if t.op == "hasattr":
        return t.args[1].op != "const"
    if t.op in ("throws", "callable"):
        return False
    return True


def feasible(t):
    """both truth values of the atom are plausible for some input"""
    return t.op in ("eq", "gt0", "in", "isnone", "truth", "any", "isinstance", "isnan", "isfinite", "isin", "anyof", "mask",
                    "allof", "startswith", "endswith", "set_le", "isscalar") or t.op == "hasattr" and t.args[1].op != "const"


_ALL = {}
TESTOPS = {"eq", "gt0", "in", "isnone", "truth", "any", "isinstance", "isnan", "isfinite", "isin", "anyof", "mask",
           "allof", "startswith", "endswith", "set_le", "isscalar", "throws"}


def tests_in(t):
    r = _ALL.get(t.id)
    if r is None:
        r = _ALL[t.id] = {x.id: x for x in walk(t) if x.op in TESTOPS and not any(str(v)[:1] == "%" for v in x.free)}
    return r


def simple_test(x):
    """a test of inputs or their components, without iteration or library calls"""
    return all(y.op in ("eq", "gt0", "in", "isnone", "truth", "isinstance", "in_", "const", "getitem", "poly", "len", "var", "lib", "keys", "attr") for y in walk(x))


def outside(t, v, k):
    """whether v occurs in t not only as part of k"""
    if t is k:
        return False
    return t is v or any(outside(z, v, k) for z in t.args if isinstance(z, T) and v.args[0] in z.free)


def separate(ts):
    """elements at positions that differ by a number that is not always zero"""
    els = [t for t in ts if t.op == "el"]
    for j, x in enumerate(els):
        for y in els[:j]:
            if x.args[0] is not y.args[0]:
                continue
            if len(x.args) != len(y.args):
                return False
            for p, q in zip(x.args[1:], y.args[1:]):
                if is_arith(p) or p.op in ("var", "const", "in_", "len"):
                    w = sub(p, q)
                    if w is not ZERO and all(z.op in ("var", "len") or z.op == "in_" and is_intval(z) for m in tm.to_poly(w) for z in (tm._atoms[k] for k, _ in m)) \
                            and not any(z.op == "var" for m in tm.to_poly(w) for z in (tm._atoms[k] for k, _ in m)):
                        break
            else:
                return False
    return True


def first_of(x, y):
    """x: the first element if there is one; y: all elements"""
    if x.op != "if" or y.op != "for" or x.args[1].args and x.args[2].args:
        return False
    vs, (n, *body) = unbind(y)
    if n.op == "const" or tm.to_poly(n).keys() == {()}:
        return False
    arm = x.args[1] if x.args[1].args else x.args[2]
    c = x.args[0] if x.args[1].args else bnot(x.args[0])
    if not (c is tm.gt0(n) or n.op == "len" and c.op == "truth" and c.args[0] is n.args[0]):
        return False
    return len(arm.args) == len(body) and all(tm.subst(q, {vs[0].args[0]: ZERO}) is p for p, q in zip(arm.args, body))


def root_factor(p):
    """the element whose root is a factor of every monomial, if there is one such element"""
    r = None
    for m in p:
        f = {k for k, e in m if e.denominator == 2 and tm._atoms[k].op == "el" and tm._atoms[k].args[0].op == "in_"}
        r = f if r is None else r & f
    if not r or len(r) > 1 or any(e.denominator == 2 and k not in r for m in p for k, e in m):
        return None
    return tm._atoms[next(iter(r))]


def index_only(facts):
    """whether facts are only about positions and sizes"""
    return all(z.op in ("var", "len") or z.op == "in_" and is_intval(z) for f in facts for m in tm.to_poly(f) for z in (tm._atoms[k] for k, _ in m))


def apart(facts, x, y):
    """two elements of an array that are different ones at some position allowed by the facts"""
    if x.op != "el" or y.op != "el" or x.args[0] is not y.args[0] or len(x.args) != len(y.args) or len(facts) > 6:
        return False
    ws = [tm.to_poly(sub(p, q)) for p, q in zip(x.args[1:], y.args[1:]) if p is not q]
    ps = [tm.to_poly(f) for f in facts]
    ks = sorted({k for p in ps + ws for m in p for k, _ in m})
    if len(ks) > 4 or any(e < 0 or e.denominator != 1 for p in ps + ws for m in p for _, e in m):
        return False
    if not index_only(tuple(facts)) or any(not (tm._atoms[k].op == "var" and str(tm._atoms[k].args[0]).startswith("i#") or tm._atoms[k].op == "in_" and is_intval(tm._atoms[k])) for k in ks):
        return False
    rs = []
    for k in ks:
        if tm._atoms[k].op == "var":
            n = tm.RANGE.get(tm._atoms[k].args[0])
            n = tm.to_poly(n) if n is not None and is_intval(n) else None
            if n is None and any(c < 0 and m == ((k, 1),) for p in ps for m, c in p.items()):
                continue        # a fact bounds it
            if n is None or any(j not in ks for m in n for j, _ in m):
                return False
            rs.append((k, n))

    def value(p, env):
        tot = 0
        for m, c in p.items():
            for k, e in m:
                c = c * env[k] ** int(e)
            tot += c
        return tot
    import itertools
    for vals in itertools.product(*[range(8) if tm._atoms[k].op == "var" else (2, 3) for k in ks]):
        env = dict(zip(ks, vals))
        if all(env[k] < value(n, env) for k, n in rs) and all(value(p, env) >= 0 for p in ps) and any(value(w, env) != 0 for w in ws):
            return True
    return False


def column(t, k):
    """(whether only if the user's data lack it, value) of the assignment to a column of constant name"""
    while True:
        if t.op == "rows":
            t = t.args[0]
        elif t.op == "fold":
            vs, (n, step, *init) = unbind(t)
            if len(init) != 1:
                return None
            t = init[0]
        elif t.op == "upd":
            for i in t.args[:0:-1]:
                if i.op == "pair" and i.args[0] is k:
                    return False, i.args[1]
                if i.op == "if" and any(z.op == "pair" and z.args[0] is k for z in leaves_of(i)):
                    c = i.args[0]
                    if c.op == "in" and c.args[0] is k and i.args[2].args and not i.args[1].args and c.args[1] is t.args[0]:
                        return True, None
                    c = single(c) if c.op != "in" else None
                    return (True, None) if c is not None and c.op == "in" and c.args[0] is k and paths(c.args[1]) else None
                if i.op in ("pair", "if") and all(z.op == "pair" and z.args[0].op in ("const", "loc", "attr_") for z in leaves_of(i)):
                    continue
                return None
            t = t.args[0]
        else:
            return None


def single(c):
    """the only test a condition consists of"""
    s = atoms(c)
    return next(iter(s)) if len(s) == 1 else None


def filtered(x, y):
    """x: the elements of y that fulfil a condition"""
    i = x
    while i.op in ("seq", "upd", "seqbody") and len([z for z in i.args if isinstance(z, T) and z.op != "emptydict"]) == 1:
        i = [z for z in i.args if isinstance(z, T) and z.op != "emptydict"][0]
    if i.op != "for":
        return False
    vs, (n, *its) = unbind(i)
    return n is length(y) and len(its) == 1 and its[0].op == "if" and bool(its[0].args[1].args) != bool(its[0].args[2].args)


def some_labels(i):
    """labels of the user that fulfil a condition"""
    while i.op == "if" and (not i.args[1].args or not i.args[2].args):
        b = (i.args[1].args or i.args[2].args)
        if len(b) != 1:
            return False
        i = b[0]
    if i.op != "for":
        return False
    vs, (n, *its) = unbind(i)
    while len(its) == 1 and its[0].op == "if" and (not its[0].args[1].args or not its[0].args[2].args):
        its = list(its[0].args[1].args or its[0].args[2].args)
    return len(its) == 1 and its[0].op == "it" and its[0].args[0].op == "getitem" and its[0].args[0].args[0].op == "keys" and its[0].args[0].args[1] is vs[0] and n.op == "len"


def free_order(t):
    """a list of labels in an order the user chooses"""
    if t.op == "keys":
        return True
    if t.op == "seq":
        return any(i.op == "sp" and free_order(i.args[0]) or some_labels(i) for i in t.args[1:])
    return t.op in ("getitem", "in_") and kind(t) in ("list", None) and all(z.op in ("getitem", "in_", "const", "var", "keys") for z in walk(t))


def foreign(x, p, q):
    """x, a column of the data, can be in one of two lists of the user, in both or in none"""
    p_, q_ = (paths(z, True) for z in (p, q))
    return x.op == "getitem" and x.args[0].op == "attr" and x.args[0].args[1] == "columns" and not p_ & q_ and p_ and q_ \
        and not paths(x) & (p_ | q_) and all(z.op not in ("ite", "opaque") for t in (p, q) for z in walk(t))


def differ_given(a, b):
    """whether tests differ if all optional entries are present"""
    for x in atoms(a) | atoms(b):
        if x.op == "in":
            a, b = cof(a, x, True), cof(b, x, True)
    return a is not b


def free_tests(ts):
    """tests of different components of the inputs: every combination of outcomes is possible"""
    subj = []
    ts = set(ts)
    for x in ts:
        if x.op == "in" and x.args[0].op == "const" and all(y.op in ("in_", "getitem", "const", "var", "keys") for y in walk(x.args[1])) \
                and (not any(x.args[1] is z for w in ts if w is not x for z in walk(w)) or any(w.op == "truth" and w.args[0].op == "getitem" and w.args[0].args == (x.args[1], x.args[0]) for w in ts)):
            continue
        if x.op not in ("truth", "isnone", "isnan") or not all(y.op in ("in_", "getitem", "el", "const", "var", "keys") for y in walk(x.args[0])):
            return False
        y = x.args[0]
        while y.op in ("getitem", "el", "keys"):
            y = y.args[0]
        if y.op != "in_" or y.args[0] in NODEP or x.args[0].op == "in_" and x.op == "truth" and is_intval(x.args[0]):
            return False
        subj.append(x.args[0])
    return len(set(subj)) == len(subj) and not any(p is not q and any(z is p for z in walk(q)) for p in subj for q in subj)


def unmask(t):
    """tests of single elements of boolean arrays as tests of their truth"""
    for x in atoms(t):
        if x.op == "mask" and isinstance(x.args[0], T) and x.args[0].op == "getitem" and x.args[0].args[1].op == "var":
            t = subst_atom(t, x, tm.truth(x.args[0]))
    return t


def by_index(a, b):
    """tests of one loop index against sizes: some iteration passes one and fails the other"""
    ts = atoms(a) | atoms(b)
    names, polys = {}, {}
    for x in ts:
        if x.op == "gt0":
            p = tm.to_poly(x.args[0])
        elif x.op == "eq" and all(is_intval(z) for z in x.args):
            p = tm.to_poly(sub(*x.args))
        else:
            return False
        for m in p:
            for k, e in m:
                z = tm._atoms[k]
                if e.denominator != 1 or e < 0 or not (z.op == "var" and str(z.args[0]).startswith("i#") or z.op == "in_" and is_intval(z)):
                    return False
                names[k] = z
        polys[x] = p
    idx = [k for k, z in names.items() if z.op == "var"]
    sizes = [k for k, z in names.items() if z.op == "in_"]
    if len(idx) != 1 or len(sizes) > 3:
        return False
    n = tm.RANGE.get(names[idx[0]].args[0])
    if n is None or not is_intval(n):
        return False
    pn = tm.to_poly(n)
    for m in pn:
        for k, e in m:
            z = tm._atoms[k]
            if z.op != "in_" or not is_intval(z) or e < 0 or e.denominator != 1:
                return False
            if k not in names:
                names[k] = z
                sizes.append(k)

    def value(p, env):
        tot = 0
        for m, c in p.items():
            for k, e in m:
                c = c * env[k] ** int(e)
            tot += c
        return tot
    import itertools
    for vals in itertools.product((2, 3), repeat=len(sizes)):
        env = dict(zip(sizes, vals))
        for i in range(int(value(pn, env))):
            env[idx[0]] = i
            out = {x: (value(p, env) > 0 if x.op == "gt0" else value(p, env) == 0) for x, p in polys.items()}

            def run(t):
                while t.op == "ite":
                    t = t.args[1] if out[t.args[0]] else t.args[2]
                return out[t] if t in out else t is TRUE
            if run(a) != run(b):
                return True
    return False


WITNESSES = (0, 0.0, 1, 1.0, 0.5)


def by_value(a, b):
    """tests of one number: some number passes one and fails the other"""
    ts = atoms(a) | atoms(b)
    subj = {z for x in ts if x.op in ("truth", "isinstance") for z in x.args[:1]}
    if len(subj) != 1:
        return False
    s = next(iter(subj))
    if s.op not in ("getitem", "el", "in_") or "opaque" in s.flags or not any(x.op == "eq" and ZERO in x.args and s in x.args for x in ts):
        return False
    for v in WITNESSES:
        out = {}
        for x in ts:
            if x.op == "truth":
                out[x] = bool(v)
            elif x.op == "eq" and s in x.args:
                o = [z for z in x.args if z is not s]
                if len(o) != 1 or o[0].op != "const" or not isinstance(o[0].args[0], (int, float, Fraction)):
                    return False
                out[x] = o[0].args[0] == v
            elif x.op == "isinstance":
                n = x.args[1] if isinstance(x.args[1], str) else x.args[1].args[0] if x.args[1].op == "lib" else None
                n = str(n).split(".")[-1]
                if n not in ("int", "float", "str", "list", "dict", "tuple", "NoneType"):
                    return False
                out[x] = type(v).__name__ == n
            elif x.op == "isnone":
                out[x] = False
            else:
                return False

        def run(t):
            while t.op == "ite":
                t = t.args[1] if out[t.args[0]] else t.args[2]
            return out[t] if t in out else t
        x, y = run(a), run(b)
        x, y = (z.args[0] if isinstance(z, T) and z.op == "const" else z for z in (x, y))
        if isinstance(x, bool) and isinstance(y, bool) and x != y:
            return True
    return False


def one_if(x):
    """nested conditions for the same elements as one condition"""
    for p, q in ((1, 2), (2, 1)):
        if not x.args[q].args and len(x.args[p].args) == 1 and x.args[p].args[0].op == "if":
            y = one_if(x.args[p].args[0])
            for u, v in ((1, 2), (2, 1)):
                if not y.args[v].args:
                    c = tm.band(x.args[0] if p == 1 else bnot(x.args[0]), y.args[0] if u == 1 else bnot(y.args[0]))
                    return mk("if", c, y.args[u], y.args[v])
    return x


def surely_nonempty(body):
    return any(i.op in ("it", "pair") for i in body.args)


def independent(atom, a, b):
    """assuming atom on both sides says nothing about the tests that only the other side makes"""
    ta, tb = tests_in(a), tests_in(b)
    if atom.id in ta and atom.id in tb:
        return True
    other = [x for k, x in (tb if atom.id in ta else ta).items() if k not in (ta if atom.id in ta else tb)]
    if not other:
        return True
    if simple_test(atom):
        other = [x for x in other if not simple_test(x)]
    pa = paths(atom, True)
    return not any(related(pa, paths(x, True)) for x in other)


def related(pa, pb):
    return any(p == q or p.startswith(q + "[") or q.startswith(p + "[") for p in pa for q in pb)


def subst_atom(t, x, m):
    if t is x:
        return m
    if t.op == "ite":
        return ite(subst_atom(t.args[0], x, m), subst_atom(t.args[1], x, m), subst_atom(t.args[2], x, m))
    return t


def open_with(t, vs):
    op = t.op
    if op == "lam":
        lvl, nb, rest = t.args[0], t.args[1], t.args[2:]
    else:
        lvl, nb, rest = t.args[0], BIND[op], t.args[1:]
    if nb != len(vs):
        return None
    m = {lvl + i: v for i, v in enumerate(vs)}
    return [tm._open(a, m) if isinstance(a, T) else a for a in rest]
