"""Deciding inequality of two normal forms that are one context with different holes.

The two terms are anti-unified: t_code = C[x, .., x] and t_ref = C[y, .., y] for one
pair (x, y), which may occur at several places (a loop bound and the loop body, a
container and the key looked up in it).  Where two different mismatches meet, the
smallest term that contains both becomes the pair.  If x and y are definitely
different and at least one of the places is sensitive to the difference, the terms
are different.  Differences in order only count where order is observable, and a
name that is merely spelled differently only counts where it is seen.
"""
import os

from . import terms as tm
from .terms import T, BIND, kind, walk
from .compare import Cmp, Result, DIFF, EQ, open_with, atoms, subst_atom

STRUCT = {"len", "isnone", "truth", "isinstance", "hasattr", "callable", "isscalar", "minlen"}
UNORDERED = {"sum", "any", "fold", "find", "recur", "argsel", "setof"}
TRACE = bool(os.environ.get("AU_TRACE"))


class TooMany(Exception):
    pass


def canon(x, y):
    """key of the pair, with its bound variables named by first occurrence"""
    m = {}
    for t in (x, y):
        for z in walk(t):
            if z.op == "var" and str(z.args[0]).startswith("i#") and z.args[0] not in m:
                m[z.args[0]] = tm.raw("var", f"au{len(m)}")
    x, y = (tm.subst(x, m), tm.subst(y, m)) if m else (x, y)
    return x.id, y.id


class AU:
    def __init__(self):
        self.memo = {}
        self.n = 0

    def one(self, a, b, ctx):
        return {canon(a, b): (a, b, {ctx})}

    def join(self, a, b, ctx, parts):
        out = {}
        for p in parts:
            for k, (x, y, cs) in p.items():
                if k in out:
                    out[k] = (*out[k][:2], out[k][2] | cs)
                else:
                    out[k] = (x, y, cs)
        if TRACE and len(out) > 1:
            print("    joined at", a.op, [(tm.show(x, 4)[:90], tm.show(y, 4)[:90]) for x, y, _ in out.values()])
        return out if len(out) <= 1 else self.one(a, b, ctx)

    def go(self, a, b, ctx=frozenset()):
        """{pair: (x, y, contexts)}: empty for equal terms, otherwise one pair"""
        if a is b:
            return {}
        k = a.id, b.id, ctx
        if k not in self.memo:
            self.n += 1
            if self.n > 20000:
                raise TooMany
            self.memo[k] = self.step(a, b, ctx)
        return self.memo[k]

    def step(self, a, b, ctx):
        op = a.op
        if op != b.op or op in ("const", "in_", "var", "bv", "lib", "opaque"):
            return self.one(a, b, ctx)
        if op == "poly":
            return self.poly(a, b, ctx)
        if op == "ite":
            return self.ite(a, b, ctx)
        if op in BIND or op == "lam":
            return self.binder(a, b, ctx)
        if op in ("seq", "upd", "body"):
            return self.items(a, b, ctx)
        if op == "eq":
            (p, q), (r, s) = a.args, b.args
            com = {p.id, q.id} & {r.id, s.id}
            if len(com) == 1:
                return self.go(q if p.id in com else p, s if r.id in com else r, ctx)
        if len(a.args) != len(b.args):
            return self.one(a, b, ctx)
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) != isinstance(y, T) or not isinstance(x, T) and x != y:
                return self.one(a, b, ctx)
        c = ctx
        if op in STRUCT:
            c = c | {"struct"}
        elif op in ("in", "isin", "set_le", "set_and", "set_or", "sorted", "red", "redl", "lse"):
            c = c | {"unordered"}
        elif op in ("call", "meth", "rows"):
            c = c | {"call"}
        key = {"key"}
        if op == "getitem" and a.args[0] is b.args[0] and given(a.args[0]):
            key = {"key", "api"}        # a key of an object that is given: not a matter of spelling
        return self.join(a, b, ctx, [self.go(x, y, c | key if op == "getitem" and k == 1 else c)
                                     for k, (x, y) in enumerate(zip(a.args, b.args)) if isinstance(x, T)])

    def poly(self, a, b, ctx):
        pa, pb = tm.to_poly(a), tm.to_poly(b)
        ra = {m: c for m, c in pa.items() if pb.get(m) != c}
        rb = {m: c for m, c in pb.items() if pa.get(m) != c}
        if len(ra) == len(rb) == 1:
            (m, c), (m2, c2) = next(iter(ra.items())), next(iter(rb.items()))
            if c == c2:
                da, db = dict(m), dict(m2)
                ua = {k: v for k, v in da.items() if db.get(k) != v}
                ub = {k: v for k, v in db.items() if da.get(k) != v}
                if len(ua) == len(ub) == 1:
                    (x, ex), (y, ey) = next(iter(ua.items())), next(iter(ub.items()))
                    if ex == ey:
                        return self.go(tm._atoms[x], tm._atoms[y], ctx)
        pairs, left = [], dict(rb)
        for m, c in ra.items():
            cand = []
            for m2, c2 in left.items():
                da, db = dict(m), dict(m2)
                ua = {k: v for k, v in da.items() if db.get(k) != v}
                ub = {k: v for k, v in db.items() if da.get(k) != v}
                if c == c2 and len(ua) == len(ub) == 1:
                    (x, ex), (y, ey) = next(iter(ua.items())), next(iter(ub.items()))
                    x, y = tm._atoms[x], tm._atoms[y]
                    if ex == ey and x.op == y.op and (isinstance(x.args[0], T) or x.args[0] == y.args[0]):
                        cand.append((m2, x, y))
            if len(cand) != 1:
                return self.one(a, b, ctx)
            del left[cand[0][0]]
            pairs.append(cand[0][1:])
        if left or not pairs:
            return self.one(a, b, ctx)
        return self.join(a, b, ctx, [self.go(x, y, ctx) for x, y in pairs])

    def ite(self, a, b, ctx):
        if a.args[0] is b.args[0]:
            return self.join(a, b, ctx, [self.go(a.args[1], b.args[1], ctx), self.go(a.args[2], b.args[2], ctx)])
        A, B = atoms(a), atoms(b)
        oa, ob = A - B, B - A
        bools = tm.is_boolterm(a) and tm.is_boolterm(b)
        if len(oa) == len(ob) == 1 and bools:
            x, y = next(iter(oa)), next(iter(ob))
            return self.go(x, y, ctx) if subst_atom(a, x, y) is b else self.one(a, b, ctx)
        ta, tb = a.args[0], b.args[0]
        if bools and (not oa or not ob) or ta.op != tb.op or ta in B or tb in A:
            return self.one(a, b, ctx)
        return self.join(a, b, ctx, [self.go(x, y, ctx) for x, y in zip(a.args, b.args)])

    def binder(self, a, b, ctx):
        vs, xa = tm.unbind(a)
        xb = open_with(b, vs)
        if xb is None or len(xa) != len(xb):
            return self.one(a, b, ctx)
        for x, y in zip(xa, xb):
            if isinstance(x, T) != isinstance(y, T) or not isinstance(x, T) and x != y:
                return self.one(a, b, ctx)
        u = frozenset() if "rows" in ctx else frozenset({"unordered"})
        if a.op == "for" and len(xa) == 2 and xa[1].op == xb[1].op == "pair":
            # a mapping: its order is not observable, which value belongs to which key is
            (k, v), (l, w) = xa[1].args, xb[1].args
            c = ctx | u
            return self.aligned(vs, xa[1:], self.join(a, b, ctx, [self.go(xa[0], xb[0], ctx | u), self.go(k, l, c), self.go(v, w, c)]))
        c = ctx
        if a.op in UNORDERED:
            c = c | {"unordered"}
        elif a.op == "for" and any(isinstance(i, T) and i.op == "pair" for i in xa[1:]):
            c = c | u
        r = self.join(a, b, ctx, [self.go(x, y, c) for x, y in zip(xa, xb) if isinstance(x, T)])
        return self.aligned(vs, xa[1:], r) if a.op == "for" else r

    def aligned(self, vs, body, r):
        """mark pairs next to which the loop index is used otherwise: their order cannot be changed alone"""
        out = {}
        for k, (x, y, cs) in r.items():
            m = {x.id: tm.NONE if x.op != "body" else tm.body([])}
            for v in vs:
                m[tm.getitem(x, v).id] = tm.NONE
            names = {v.args[0] for v in vs}
            if any(names & tm.replace(t, m).free for t in body if isinstance(t, T)):
                cs = {c | {"aligned"} for c in cs}
            out[k] = (x, y, cs)
        return out

    def items(self, a, b, ctx):
        ia, ib = [list(t.args[1:]) if t.op != "body" else list(t.args) for t in (a, b)]
        if a.op == "seq" and a.args[0] != b.args[0]:
            return self.one(a, b, ctx)
        c = ctx | {"unordered"} if a.op == "seq" and a.args[0] in ("set", "frozenset") else ctx
        parts = []
        if a.op == "upd":
            parts.append(self.go(a.args[0], b.args[0], ctx))
            if a.args[0].op == b.args[0].op == "call" and a.args[0].args[0] == b.args[0].args[0] == "pd.DataFrame":
                c = c | {"rows"}       # rows are created in this order
        while ia and ib and ia[0] is ib[0]:
            ia.pop(0), ib.pop(0)
        while ia and ib and ia[-1] is ib[-1]:
            ia.pop(), ib.pop()
        if len(ia) != len(ib):
            return self.one(a, b, ctx)
        return self.join(a, b, ctx, parts + [self.go(x, y, c) for x, y in zip(ia, ib)])


def given(t):
    while t.op == "getitem":
        t = t.args[0]
    return t.op == "in_" or t.op == "call" and str(t.args[0]).startswith("U.")


def order_pair(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op in ("sorted", "reversed") or p.op == "call" and str(p.args[0]).split(".")[-1] in ("sorted", "reversed", "flip", "roll"):
            return True
        if p.op == "meth" and p.args[0].startswith("sort"):
            return True
        if p.op == "getitem" and p.args[1].op == "slice":
            return True
    if all(t.op == "poly" or t.op == "var" or t.op == "const" and isinstance(t.args[0], int) for t in (x, y)) and any(z.op == "var" for t in (x, y) for z in walk(t)):
        return True
    if x.op == y.op == "seq" and {i.id for i in x.args[1:] if isinstance(i, T)} == {i.id for i in y.args[1:] if isinstance(i, T)}:
        return True
    return False


def spelling(x, y):
    """two fixed texts, or texts with the same variable parts"""
    for t in (x, y):
        if not (t.op == "cat" or t.op == "const" and isinstance(t.args[0], str)):
            return False
    var = lambda t: [z.id for z in t.args if isinstance(z, T) and z.op != "const"] if t.op == "cat" else []
    return var(x) == var(y)


def different(a, b):
    """a Result with verdict DIFF, or None"""
    try:
        pairs = AU().go(a, b)
    except (TooMany, RecursionError):
        return None
    for x, y, ctxs in pairs.values():
        if TRACE and not (x is a and y is b):
            print("    pair", tm.show(x, 6)[:230], " <> ", tm.show(y, 6)[:230], [sorted(c) for c in ctxs][:4], Cmp().diff(x, y).v)
        if x is a and y is b or "opaque" in x.flags or "opaque" in y.flags:
            return None
        ctxs = [c for c in ctxs if "struct" not in c]
        if order_pair(x, y):
            ctxs = [c for c in ctxs if "aligned" in c or "unordered" not in c and ("call" not in c or "rows" in c)]
        if spelling(x, y):
            ctxs = [c for c in ctxs if "api" in c or not c & {"call", "key"}] if len(ctxs) > 1 or any("call" in c for c in ctxs) else ctxs
        if not ctxs:
            return None
        r = Cmp().diff(x, y)
        return r if r.v == DIFF else None
    return None
