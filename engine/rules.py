"""Obligations that are rules on one analysed value instead of a comparison with a reference."""
from . import terms as tm
from .terms import *
from .check import Obligation, Result, EQ, DIFF, UNK
from . import schema as S
from .interp import EFF

SHAPE_ONLY = {"np.reshape", "np.array", "np.transpose", "np.expand_dims", "np.broadcast_to", "np.squeeze", "np.repeat", "np.tile",
              "np.swapaxes", "np.float64", "np.take", "np.atleast_1d", "np.atleast_2d", "np.stack", "np.concatenate", "np.ravel"}
TESTS = {"np.isfinite", "np.isnan"}


def is_test(t):
    return t.op in ("isfinite", "isnan") or t.op == "call" and t.args[0] in TESTS


class NanTaint(Obligation):
    """Possibly missing inputs pass a selection on isfinite before any arithmetic, so neither values nor derivatives see NaN."""

    def __init__(self, name, code, inputs, sources, guard, **kw):
        super().__init__(name, code, None, inputs, **kw)
        self.sources, self.guard = sources, guard

    def decide(self, ctx):
        values = S.build(self.inputs)
        c, _, _ = ctx.run(self.code, values)
        src = {values[n].id: n for n in self.sources}
        g = values[self.guard]
        state, found, unknown = {}, [], []

        def has_guard(t):
            return any(is_test(x) and any(y is g for y in tm.walk(x)) for x in tm.walk(t))

        def taint(t):
            """names of unguarded sources flowing into t"""
            r = state.get(t.id)
            if r is not None:
                return r
            state[t.id] = frozenset()
            if t.id in src:
                r = frozenset([src[t.id]])
            elif is_test(t):
                r = frozenset()
            elif t.op == "call" and t.args[0] == "np.where" or t.op == "ite":
                k = 1 if t.op == "call" else 0
                cond, x, y = t.args[k], t.args[k + 1], t.args[k + 2]
                taint(cond)
                tx, ty = taint(x), taint(y)
                if has_guard(cond):
                    pos = self.polarity(cond, g)
                    sel, other = (x, y) if pos is True else (y, x) if pos is False else (None, None)
                    if sel is None:
                        unknown.append("selection with a mixed condition")
                        r = tx | ty
                    else:
                        nanny = any(z.op == "nan" or z.op == "lib" and z.args[0] == "np.nan" for z in tm.walk(other))
                        r = (taint(sel) if nanny else frozenset()) | taint(other)
                        if nanny:
                            r |= {"nan"}
                else:
                    r = tx | ty
            elif t.op == "call" and t.args[0] == "np.nan_to_num":
                r = frozenset()
            elif t.op in ("attr", "len", "isnone", "isinstance"):
                r = frozenset()
            else:
                ts = [a for a in t.args if isinstance(a, T)]
                sub_ = frozenset().union(*[taint(a) for a in ts]) if ts else frozenset()
                if not sub_:
                    r = sub_
                elif t.op == "call" and t.args[0] in SHAPE_ONLY or t.op in ("seq", "body", "seqbody", "emptydict", "if", "it", "upd", "pair", "getitem", "for", "lam", "sp", "kw", "rows"):
                    r = sub_
                elif t.op in ("poly", "m") or t.op == "call" and t.args[0].startswith("np.") or t.op in ("sum", "pow", "gt0", "eq"):
                    if t.op == "m":
                        r = sub_
                    elif t.op == "poly" and len(t.args) == 1 and False:
                        r = sub_
                    else:
                        found.append((sorted(sub_), show(t, 3)[:160]))
                        r = frozenset()
                else:
                    unknown.append(show(t, 2)[:80])
                    r = frozenset()
            state[t.id] = r
            return r

        taint(c)
        if found:
            return Result(DIFF, "; ".join(f"{', '.join(n)} enters arithmetic before being replaced where missing: {w}" for n, w in found[:3]))
        if unknown:
            return Result(UNK, "; ".join(unknown[:3]))
        return Result(EQ)

    def polarity(self, cond, g):
        """True if cond is isfinite(guard) (up to shape), False if its negation"""
        t = cond
        sign = True
        for _ in range(20):
            if t.op == "call" and t.args[0] in SHAPE_ONLY:
                t = t.args[1]
            elif t.op == "getitem":
                t = t.args[0]
            elif t.op == "truth" or t.op == "mask":
                t = t.args[0]
            elif t.op == "not":
                sign, t = not sign, t.args[0]
            elif t.op == "ite" and t.args[1] is FALSE and t.args[2] is TRUE:
                sign, t = not sign, t.args[0]
            elif t.op == "ite" and t.args[1] is TRUE and t.args[2] is FALSE:
                t = t.args[0]
            elif t.op == "call" and t.args[0] in ("np.logical_not", "np.invert"):
                sign, t = not sign, t.args[1]
            elif t.op == "isfinite" or t.op == "call" and t.args[0] == "np.isfinite":
                return sign if any(y is g for y in tm.walk(t)) else None
            elif t.op == "isnan" or t.op == "call" and t.args[0] == "np.isnan":
                return (not sign) if any(y is g for y in tm.walk(t)) else None
            else:
                return None
        return None


def _reported(msg):
    """values mentioned in a message, independent of its wording"""
    out = []

    def word(t):
        return const("text") if t.op == "const" and isinstance(t.args[0], str) else t

    def walk(t):
        if t.op in ("cat", "join", "str", "repr", "fmt") or t.op == "meth" and t.args[0] == "to_string":
            for a in t.args:
                if isinstance(a, T):
                    walk(a)
        elif t.op in ("seq", "seqbody") and t.op == "seq" and t.args[0] in ("tuple",):
            for a in t.args[1:]:
                if a.op == "it":
                    walk(a.args[0])
                else:
                    out.append(a)
        elif t.op == "const":
            pass
        elif t.op == "ite":
            walk(t.args[1])
            walk(t.args[2])
        else:
            out.append(t)
    walk(msg)
    return sorted({S.tmap(t, word) for t in out}, key=lambda t: t.id)


class Message(Obligation):
    """The error or warning mentions the values the reference message mentions (wording and order are free)."""

    def decide(self, ctx):
        values = S.build(self.inputs)
        cstubs = {k: ctx.fn(v) for k, v in (self.stubs or {}).items()}
        _, ce, _ = ctx.run(self.code, values, cstubs)
        _, se, _ = ctx.run(self.spec, values, cstubs)

        def mentioned(eff):
            found = []

            def walk(items):
                for i in items:
                    if i.op == "it" and i.args[0].op == "effect" and (i.args[0].args[0] in self.effects or f"{i.args[0].args[0]}:{i.args[0].args[1]}" in self.effects):
                        e = i.args[0]
                        found.append(e.args[1] if e.args[0] == "warn" else e.args[2])
                    elif i.op == "it" and i.args[0].op == "ite":
                        walk([tm.it(i.args[0].args[1]), tm.it(i.args[0].args[2])])
                    elif i.op == "if":
                        walk(i.args[1].args)
                        walk(i.args[2].args)
                    elif i.op == "for":
                        walk([j for j in i.args[1:] if isinstance(j, T)])
            walk(eff.args[1:])
            return [_reported(m) for m in found if isinstance(m, T)]
        c, s = mentioned(ce), mentioned(se)
        if len(c) != len(s):
            return Result(UNK, f"{len(c)} messages, reference has {len(s)}")
        rs = []
        for a, b in zip(c, s):
            if all(y in a for y in b):
                rs.append(Result(EQ))
            elif len(a) == len(b) == 1:
                rs.append(self.verdict([(a[0], b[0])]))
            else:
                rs.append(Result(UNK, "message mentions other values"))
        from .compare import Cmp
        return Cmp().combine(rs)


class Listed(Message):
    """The error lists as many problems as the reference finds, so that none hides another one."""

    def decide(self, ctx):
        values = S.build(self.inputs)
        cstubs = {k: ctx.fn(v) for k, v in (self.stubs or {}).items()}
        counts = []
        for f in (self.code, self.spec):
            _, eff, _ = ctx.run(f, values, cstubs)
            found = {}
            for g, e in _effects_of_kind(eff, self.effects):
                for n in listed(e.args[2]):
                    found[n.id] = n
            if len(found) != 1:
                return Result(UNK, f"{len(found)} lists of problems in {f}")
            counts.append(count_items(next(iter(found.values())).args[1:]))
        r = self.verdict([tuple(counts)])
        return Result(r.v, "number of listed problems: " + (r.why or "")) if r.v != EQ else r


def _effects_of_kind(eff, kinds):
    for g, e in effects_of(eff):
        if e.op == "effect" and (e.args[0] in kinds or f"{e.args[0]}:{e.args[1]}" in kinds) and len(e.args) > 2 and isinstance(e.args[2], T):
            yield g, e


def _sum(v, n, its):
    if n.op == "ite":
        from .compare import assume
        body = tm.seq("list", its)
        hi, lo = assume(body, n.args[0], True), assume(body, n.args[0], False)
        return tm.ite(n.args[0], _sum(v, n.args[1], hi.args[1:]), _sum(v, n.args[2], lo.args[1:]))
    k = tm.ZERO
    for j in its:
        k = tm.add(k, tm.mk_sum(v, n, count_items([j])))
    return k


def count_items(its):
    n = tm.ZERO
    for i in its:
        if i.op == "it":
            k = tm.ONE
        elif i.op == "if":
            k = tm.ite(i.args[0], count_items(i.args[1].args), count_items(i.args[2].args))
        elif i.op == "for":
            vs, (m, *sub) = tm.unbind(i)
            k = _sum(vs[0], m, sub)
        elif i.op == "sp" and i.args[0].op == "fold":
            vs, (m, step, start) = tm.unbind(i.args[0])
            if start.op == "seq" and step.op == "seq" and len(step.args) > 1 and step.args[1].op == "sp" and step.args[1].args[0] is vs[1]:
                sub = [tm.subst(j, {vs[1].args[0]: raw("in_", "problems found before", "list")}) for j in step.args[2:]]
                k = tm.add(count_items(start.args[1:]), tm.mk_sum(vs[0], m, count_items(sub)))
            else:
                k = tm.length(i.args[0])
        elif i.op == "sp":
            k = tm.length(i.args[0])
        else:
            return tm.opaque("count", tm.fresh("missing"))
        n = tm.add(n, k)
    return n


def listed(t):
    """the list a message is built from"""
    if t.op == "seq" and t.args[0] in ("list", "tuple"):
        return [t]
    if t.op in ("cat", "join", "str", "repr", "fmt"):
        return [x for a in t.args if isinstance(a, T) for x in listed(a)]
    if t.op == "ite":
        return listed(t.args[1]) + listed(t.args[2])
    return []


class Defect(Obligation):
    """A construct that is equal to the reference of a recorded defect."""

    def __init__(self, *a, why="", **kw):
        super().__init__(*a, **kw)
        self.text = why

    def decide(self, ctx):
        r = super().decide(ctx)
        return Result(DIFF, self.text) if r.v == EQ else Result(UNK, r.why)


def effects_of(eff, guard=TRUE):
    """(path condition, effect) pairs of an effect list; loops contribute their body's effects"""
    for i in eff.args[1:] if eff.op == "seq" else [raw("sp", eff)]:
        yield from _effects(i, guard)


def _effects(i, g):
    if i.op == "it":
        e = i.args[0]
        if e.op == "ite":
            yield from _effects(tm.it(e.args[1]), band(g, e.args[0]))
            yield from _effects(tm.it(e.args[2]), band(g, bnot(e.args[0])))
        else:
            yield g, e
    elif i.op == "if":
        for x in i.args[1].args:
            yield from _effects(x, band(g, i.args[0]))
        for x in i.args[2].args:
            yield from _effects(x, band(g, bnot(i.args[0])))
    elif i.op == "for":
        vs, (n, *its) = tm.unbind(i)
        for x in its:
            yield from _effects(x, g)
    elif i.op == "sp":
        x = i.args[0]
        if x.op == "seq":
            yield from effects_of(x, g)
        elif x.op == "ite":
            yield from _effects(raw("sp", x.args[1]), band(g, x.args[0]))
            yield from _effects(raw("sp", x.args[2]), band(g, bnot(x.args[0])))
        else:
            yield g, x
    else:
        yield g, i


def owners(t):
    """arguments t may be a part of"""
    if t.op in ("getitem", "attr", "upd", "meth"):
        return owners(next(a for a in t.args if isinstance(a, T)))
    if t.op == "ite":
        return owners(t.args[1]) | owners(t.args[2])
    return {x.args[0] for x in tm.walk(t) if x.op == "in_"}


class Pure(Obligation):
    """No store, deletion or mutating method call reaches an object that belongs to an argument."""

    def decide(self, ctx):
        values = S.build(self.inputs)
        _, eff, _ = ctx.run(self.code, values, {k: ctx.fn(v) for k, v in (self.stubs or {}).items()})
        bad, unknown = [], []
        for g, e in effects_of(eff):
            if g is FALSE:
                continue
            if e.op == "effect" and e.args[0] == "mutate":
                bad.append(e.args[1])
            elif e.op == "effect" and e.args[0] == "mutate?":
                pass    # a copy of unknown depth: deep copies own everything they contain
            elif e.op == "effect" and e.args[0] == "lost-mutation":
                if any(n not in ctx.ip.deepcopied for n in owners(e.args[2])):
                    unknown.append(f"{e.args[1]} on an object that may belong to an argument: {show(e.args[2], 5)[:200]}")
            elif e.op == "opaque":
                unknown.append("effects of " + show(e, 2)[:80])
        if bad:
            return Result(DIFF, "modifies its argument " + ", ".join(sorted(set(bad))))
        if unknown:
            return Result(UNK, "; ".join(sorted(set(unknown))[:3]))
        return Result(EQ)


OUTSIDE = ("time.", "datetime.", "random.", "uuid.", "secrets.", "os.environ", "os.getenv", "os.urandom", "os.getpid", "os.listdir", "os.getcwd",
           "os.times", "sys.argv", "socket.", "platform.", "glob.", "tempfile.", "threading.", "getpass.", "np.random.", "np.load",
           "pd.read_", "open", "builtins.id", "builtins.hash", "builtins.open", "builtins.input", "builtins.globals")
UNORDERED_USE = {"sorted", "setof", "len", "any", "member", "in", "isin", "eq", "sum", "max", "min", "set_diff", "set_union", "set_inter", "in_seq"}


def lossy(t):
    """a summary from which its argument cannot be recovered"""
    if t.op in ("call", "meth"):
        return str(t.args[0]).split(".")[-1] in {"sum", "mean", "max", "min", "round", "size", "norm", "prod", "any", "all", "id", "median", "std", "var", "argmax",
                                                 "argmin", "rint", "floor", "ceil", "type", "count_nonzero", "nanmean", "nansum"}
    return t.op in ("sum", "anyof", "allof", "any") or t.op == "attr" and t.args[1] in ("shape", "size", "dtype", "ndim")


class Deterministic(Obligation):
    """The result depends on nothing but the arguments: no random draw, clock, environment, file, object identity, set order or module state."""

    def __init__(self, name, code, inputs, draws=False, earlier=None, **kw):
        super().__init__(name, code, None, inputs, **kw)
        self.draws = draws
        self.earlier = earlier

    def decide(self, ctx):
        values = S.build(self.inputs)
        if self.earlier:
            return self.second(ctx, dict(values, earlier=S.tmap(values[self.earlier], lambda t: raw("in_", t.args[0] + "'", *t.args[1:]) if t.op == "in_" else t)))
        names, _, f = ctx.params(ctx.fn(self.code))
        for n, d in zip(names[len(names) - len(f.defaults):] if not f.node.args.kwonlyargs else [], f.defaults):
            if d.op == "ref" and n in values:
                del values[n]       # a mutable default keeps what earlier calls stored in it
        stubs = {k: ctx.fn(v) for k, v in (self.stubs or {}).items()}
        res, eff, _ = ctx.run(self.code, values, stubs)
        st = ctx.state
        bad, unknown = set(), set()
        guards = [g for g, e in effects_of(eff) if e.op == "effect" and e.args[0] in ("raise", "warn")]
        for root in [res, *guards]:
            self.outside(root, bad)
        self.order(res, bad, unknown)
        changed = [a for a, c in ctx.ip.modstate.store.items() if a != EFF and st.store.get(a) is not c]
        for fid, d in ctx.ip.modstate.frames.items():
            now = st.frames.get(fid, {})
            changed += [n for n, v in d.items() if n in now and now[n][0] is not v[0]]
        if changed:
            self.history(ctx, res, values, stubs, st, bad, unknown)
        if bad:
            return Result(DIFF, "; ".join(sorted(bad)[:4]))
        if unknown:
            return Result(UNK, "; ".join(sorted(unknown)[:3]))
        return Result(EQ)

    def outside(self, root, bad):
        for t in tm.walk(root):
            n = t.args[0] if t.op in ("call", "lib", "rng", "meth") and t.args and isinstance(t.args[0], str) else None
            if t.op == "rng":
                if not self.draws:
                    bad.add("random numbers: " + n)
            elif n is not None and any(n == o or n.startswith(o) for o in OUTSIDE) and not (self.draws and n.startswith("np.random.")):
                bad.add("value from outside: " + n)

    def history(self, ctx, res, values, stubs, st, bad, unknown):
        """the call is analysed again after a call with other arguments"""
        other = {n: S.tmap(v, lambda t: raw("in_", t.args[0] + "'", *t.args[1:]) if t.op == "in_" else t) for n, v in values.items()}
        ctx.run(self.code, other, stubs)
        again, _, _ = ctx.run(self.code, values, stubs, state=ctx.state)
        if again is res:
            return
        self.outside(again, bad)
        from .compare import Cmp
        r = Cmp().diff(again, res)
        if r.v == EQ:
            return
        if r.v == DIFF or any(t.op == "in_" and t.args[0].endswith("'") for t in tm.walk(again)):
            (bad if self.direct(again) else unknown).add("result depends on earlier calls through state of the module")
        else:
            unknown.add("module state: " + (r.why or ""))

    def direct(self, t):
        """not selected by a comparison with arguments of the earlier call, or by one that ignores an argument the value depends on
        (a cache with a complete key is no violation)"""
        def earlier(x):
            return x.op == "in_" and x.args[0].endswith("'")

        for x in tm.walk(t):
            if x.op == "ite" and x.args[0].op not in ("isscalar", "isinstance", "hasattr", "callable") and any(earlier(y) for y in tm.walk(x.args[0])) and any(y.op == "in_" and not earlier(y) for y in tm.walk(x.args[0])):
                key = set()

                def leaves(y):
                    if y.op == "in_":
                        key.add(y.args[0].rstrip("'"))
                    elif y.op != "len" and not lossy(y):
                        for a in y.args:
                            if isinstance(a, T):
                                leaves(a)
                leaves(x.args[0])
                used = {y.args[0].rstrip("'") for b in x.args[1:] for y in tm.walk(b) if y.op == "in_"}
                if self.earlier:
                    used &= {self.earlier}
                if used <= key:
                    return False
        return True

    def second(self, ctx, values):
        """a function that was already called with other arguments (inputs whose name ends with a prime)"""
        res, _, _ = ctx.run(self.code, values, {k: ctx.fn(v) for k, v in (self.stubs or {}).items()})
        if not any(t.op == "in_" and t.args[0].endswith("'") for t in tm.walk(res)):
            return Result(EQ)
        if "opaque" not in res.flags and self.direct(res):
            return Result(DIFF, "result depends on the arguments of an earlier call")
        return Result(UNK, "state kept between calls" + ("" if "opaque" not in res.flags else "; " + "; ".join(tm.show(t, 6)[:300] for t in tm.walk(res) if t.op == "opaque")))

    def order(self, root, bad, unknown):
        seen = set()

        def is_set(t):
            return t.op in ("setof", "set_diff", "set_union", "set_inter") or kind(t) == "set"

        def visit(t):
            """t in a position where its order is observable"""
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op == "seq" and t.args[0] in ("list", "tuple"):
                visit_items(t.args[1:])
            elif t.op == "seqbody" or t.op == "body":
                visit_items(t.args)
            elif t.op == "upd":
                visit(t.args[0])
                visit_items(t.args[1:])
            elif t.op == "ite":
                visit(t.args[1])
                visit(t.args[2])
            elif t.op == "join":
                visit(t.args[1])
            elif t.op == "getitem" and kind(t.args[0]) in ("df",):
                visit(t.args[0])
                if is_list(t.args[1]):
                    visit(t.args[1])
            elif t.op == "call" and (t.args[0] in ("pd.DataFrame", "np.array", "pd.concat", "np.stack", "np.concatenate", "pd.MultiIndex.from_tuples", "pd.Index",
                                                   "np.vstack", "np.hstack", "np.column_stack", "pd.Series", "pd.MultiIndex.from_product")
                                     or t.args[0].split(".")[0] in ("go", "px", "ff", "plotly")):
                for a in t.args[1:]:
                    if isinstance(a, T):
                        visit(a.args[1] if a.op == "kw" else a)
            elif t.op == "meth" and t.args[0] not in UNORDERED_METHODS and isinstance(t.args[1], T):
                visit(t.args[1])
            elif t.op == "mutop":
                for a in t.args[1:]:
                    if isinstance(a, T):
                        visit(a.args[1] if a.op == "kw" else a)
            elif t.op == "next" and is_set(t.args[0]):
                bad.add("an arbitrary element of a set")

        def is_list(t):
            return t.op == "seq" and t.args[0] == "list"

        def visit_items(its):
            for i in its:
                if not isinstance(i, T):
                    continue
                if i.op == "it":
                    visit(i.args[0])
                elif i.op == "sp":
                    if is_set(i.args[0]):
                        bad.add("order of a set: " + show(i.args[0], 2)[:80])
                    else:
                        visit(i.args[0])
                elif i.op == "pair":
                    visit(i.args[1])
                elif i.op == "if":
                    visit_items(i.args[1].args)
                    visit_items(i.args[2].args)
                elif i.op == "for":
                    vs, (n, *body) = tm.unbind(i)
                    if n.op == "len" and is_set(n.args[0]) and any(x.op in ("it", "pair", "sp", "for", "if") for x in body):
                        if any(y.op == "getitem" and y.args[0] is n.args[0] for x in body for y in tm.walk(x)) and \
                                not all(x.op == "pair" and x.args[1] is tm.NONE for x in body):
                            bad.add("order of a set: " + show(n.args[0], 2)[:80])
                    visit_items(body)
                elif i.op == "loc":
                    for a in i.args:
                        if isinstance(a, T):
                            visit(a)
        visit(root)


UNORDERED_METHODS = {"sum", "mean", "max", "min", "std", "any", "all", "count", "nunique", "sort_index", "sort_values", "union", "difference", "intersection",
                     "symmetric_difference", "issubset", "issuperset", "isin", "isdisjoint", "get", "keys", "items", "values"}
LOOKUP = {"KeyError", "IndexError", "LookupError", "AttributeError", "StopIteration"}
BROAD = {"Exception", "BaseException"}
INTERRUPTS = {"BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit"}


class ErrorsSurface(Obligation):
    """Broad exception handlers warn or raise again, silent ones only cover lookups, warning filters are scoped and name one message."""

    message = "indexing past lexsort depth may impact performance."

    def __init__(self, name, code, inputs, public=(), **kw):
        super().__init__(name, code, None, inputs, **kw)
        self.public = set(public)

    def decide(self, ctx):
        values = S.build(self.inputs)
        _, eff, _ = ctx.run(self.code, values, {k: ctx.fn(v) for k, v in (self.stubs or {}).items()})
        bad, unknown = set(), set()
        for module, node, h, names, silent, scopes in ctx.ip.handlers:
            if module.name.startswith("spec."):
                continue
            where = f"{module.path.rsplit('/', 1)[-1]}:{h.lineno}"
            for g, effects in silent:
                if g is not FALSE and set(names) & INTERRUPTS and not self.conditional(g):
                    bad.add(f"{', '.join(sorted(set(names) & INTERRUPTS))} (an interrupt or exit of the interpreter as well) is suppressed at {where}")
                    continue
                if g is FALSE or any(e.op == "effect" and e.args[0] == "warn" for i in effects for _, e in _effects(i, TRUE)):
                    continue
                if self.conditional(g):
                    unknown.add(f"handler at {where} selects exceptions by a condition")
                elif set(names) & BROAD:
                    bad.add(f"every exception of the block at {where} is suppressed without a warning")
                elif set(names) & LOOKUP and set(names) - LOOKUP:
                    bad.add(f"{', '.join(sorted(set(names) - LOOKUP))} is suppressed at {where} without a warning")
                elif not set(names) <= LOOKUP:
                    called = self.calls(ctx, module, node, scopes)
                    if called:
                        bad.add(f"{', '.join(names)} of {called} is suppressed at {where}")
                    else:
                        unknown.add(f"{', '.join(names)} is suppressed at {where}")
                else:
                    called = self.calls(ctx, module, node, scopes)
                    if called:
                        bad.add(f"errors of {called} are suppressed at {where}")
        for n in self.finally_exits(ctx):
            bad.add(n)
        self.filters(eff.args[1:], 0, bad)
        if bad:
            return Result(DIFF, "; ".join(sorted(bad)[:4]))
        if unknown:
            return Result(UNK, "; ".join(sorted(unknown)[:3]))
        return Result(EQ)

    @staticmethod
    def conditional(g):
        """a guard that looks at the exception"""
        return any(x.op == "isinstance" or x.op == "eq" for x in tm.walk(g))

    def calls(self, ctx, module, node, scopes):
        """a public function of the package called in a try block"""
        import ast
        for b in node.body:
            for c in ast.walk(b):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                    v = ctx.ip.modstate.frames[module.env].get(c.func.id)
                    if v is not None and v[0].op == "fn":
                        q = ctx.ip.fns[v[0].args[0]].qual
                        if q in self.public or q.startswith("skillmodels.") and self.substantial(ctx.ip.fns[v[0].args[0]].node):
                            return q
        return None

    def substantial(self, fn):
        """more than a lookup: a function with a loop, or with several statements of its own"""
        import ast
        body = [b for b in fn.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        return len(body) > 3 or any(isinstance(x, (ast.For, ast.While, ast.Raise, ast.With)) for b in body for x in ast.walk(b))

    def finally_exits(self, ctx):
        import ast
        done = {}
        for q, (path, line) in ctx.ip.analysed.items():
            if not q or not q.startswith("skillmodels"):
                continue
            m = [m for m in ctx.ip.modules.values() if m.path == path]
            if not m:
                continue
            if path not in done:
                done[path] = {f.lineno: f for f in ast.walk(m[0].tree) if isinstance(f, ast.FunctionDef)}
            if line not in done[path]:
                continue
            for t in ast.walk(done[path][line]):
                if isinstance(t, ast.Try):
                    for b in t.finalbody:
                        if any(isinstance(x, ast.Return) for x in ast.walk(b)):
                            yield f"return in a finally block discards exceptions at {path.rsplit('/', 1)[-1]}:{b.lineno}"

    def filters(self, items, depth, bad):
        """-> depth of catch_warnings blocks after the effects"""
        stack = [False] * depth
        for i in items:
            if i.op == "it" and i.args[0].op == "effect":
                e = i.args[0]
                if e.args[0] == "with":
                    c = e.args[1]
                    n = c.args[0] if c.op == "call" else ""
                    catch = n == "warnings.catch_warnings"
                    if catch and any(x.op == "kw" and x.args[0] == "record" and x.args[1] is TRUE for x in c.args if isinstance(x, T)):
                        bad.add("warnings are recorded and dropped")
                    if catch and any(x.op == "kw" and x.args[0] == "action" and x.args[1] is const("ignore") for x in c.args if isinstance(x, T)):
                        bad.add("a warning filter without a message suppresses other warnings")
                    if n == "contextlib.suppress" and any(x.op == "lib" and x.args[0].split(".")[-1] in BROAD for x in tm.walk(c)):
                        bad.add("every exception of a with block is suppressed")
                    stack.append(catch)
                elif e.args[0] == "endwith" and stack:
                    stack.pop()
                elif e.args[0] == "filter":
                    self.one(e, any(stack), bad)
            elif i.op == "if":
                self.filters(i.args[1].args, sum(stack), bad)
                self.filters(i.args[2].args, sum(stack), bad)
            elif i.op == "for":
                self.filters([x for x in tm.unbind(i)[1][1:]], sum(stack), bad)
            elif i.op == "it" and i.args[0].op == "ite":
                for x in i.args[0].args[1:]:
                    self.filters([tm.it(x)], sum(stack), bad)

    def one(self, e, scoped, bad):
        import re
        pos = [x for x in e.args[1:] if isinstance(x, T) and x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in e.args[1:] if isinstance(x, T) and x.op == "kw"}
        for n, v in zip(("action", "message", "category"), pos):
            kw.setdefault(n, v)
        if not scoped:
            bad.add("a warning filter is installed outside of catch_warnings and stays in force")
        if kw.get("action") is not None and kw["action"].op == "const" and kw["action"].args[0] != "ignore":
            return
        m = kw.get("message")
        if m is None or m is const(""):
            bad.add("a warning filter without a message suppresses other warnings")
        elif m.op == "const" and isinstance(m.args[0], str):
            try:
                if re.match(m.args[0], "unrelated warning") or re.match(m.args[0], "Some controls are missing"):
                    bad.add("the message pattern of a warning filter matches other warnings")
            except re.error:
                pass


NARROW = {"float32", "float16", "bfloat16", "half", "single", "complex64", "csingle", "float8_e4m3fn", "float8_e5m2"}
NARROW_TXT = NARROW | {"f4", "<f4", ">f4", "=f4", "f2", "<f2", "e", "c8"} - {"e"}


class Precision(Obligation):
    """Importing the package switches jax to 64-bit floats before any jax array is created, nothing switches back, and no code asks for a narrower type."""

    def __init__(self, name, **kw):
        super().__init__(name, "skillmodels.likelihood_function.get_maximization_inputs", None, [], **kw)

    def decide(self, ctx):
        import ast
        self.ctx, self.mods = ctx, {n: m for n, m in ctx.ip.modules.items() if not n.startswith("spec.")}
        self.events, self.seen, self.unknown = [], set(), set()
        bad = set()
        if "skillmodels" not in self.mods:
            return Result(UNK, "package not found")
        self.alias = {n: self.aliases(m.tree) for n, m in self.mods.items()}
        self.module("skillmodels", False)
        on = False
        for ev, cond, where in self.events:
            if ev == "on" and not cond:
                on = True
            elif ev == "on" and not on:
                if cond == "unrelated":
                    bad.add(f"64-bit floats are only enabled under a condition at {where}")
                on = True
            elif ev == "off":
                bad.add(f"64-bit floats are switched off at {where}")
                on = True
            elif ev == "compute" and not on:
                bad.add(f"a jax array is created at import before 64-bit floats are enabled, at {where}")
        if not on and not self.unknown:
            bad.add("importing the package does not enable 64-bit floats")
        for n, m in self.mods.items():
            self.narrow(n, m, bad)
            for node in ast.walk(m.tree):
                if isinstance(node, ast.FunctionDef):
                    for c in ast.walk(node):
                        ev = self.switch(n, c)
                        if ev == "off":
                            bad.add(f"64-bit floats are switched off in {node.name} at {self.place(m, c)}")
        if bad:
            return Result(DIFF, "; ".join(sorted(bad)[:4]))
        if self.unknown:
            return Result(UNK, "; ".join(sorted(self.unknown)[:3]))
        return Result(EQ)

    def place(self, m, node):
        return f"{m.path.rsplit('/', 1)[-1]}:{getattr(node, 'lineno', 0)}"

    def aliases(self, tree):
        import ast
        out = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    out[a.asname or a.name] = n.module + "." + a.name
        return out

    def dotted(self, mod, node):
        import ast
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        return ".".join([self.alias[mod].get(node.id, node.id)] + parts[::-1])

    def value(self, mod, node):
        """True / False / None of a switch value"""
        import ast
        if isinstance(node, ast.Constant):
            v = node.value
            return v if isinstance(v, bool) else bool(v) if isinstance(v, int) else str(v).lower() in ("1", "true") if isinstance(v, str) else None
        if isinstance(node, ast.Name):
            for s in self.mods[mod].tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in s.targets):
                    return self.value(mod, s.value)
        return None

    def switch(self, mod, node):
        """'on', 'off', 'unknown' or None"""
        import ast
        if isinstance(node, ast.Call):
            d = self.dotted(mod, node.func)
            if d in ("jax.config.update", "jax._src.config.update", "jax.config.config.update") and node.args:
                k = node.args[0]
                if not isinstance(k, ast.Constant):
                    if isinstance(k, ast.Name):
                        for s in self.mods[mod].tree.body:
                            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k.id for t in s.targets) and isinstance(s.value, ast.Constant):
                                k = s.value
                    if not isinstance(k, ast.Constant):
                        return "unknown"
                val = node.args[1] if len(node.args) > 1 else next((w.value for w in node.keywords if w.arg == "val"), None)
                if k.value == "jax_enable_x64":
                    v = self.value(mod, val) if val is not None else None
                    return "unknown" if v is None else "on" if v else "off"
                if k.value == "jax_default_dtype_bits":
                    return "off" if isinstance(val, ast.Constant) and str(val.value) == "32" else None
            if d and d.rsplit(".", 1)[-1] == "disable_x64":
                return "off"
            if d and d.endswith("experimental.enable_x64") and node.args and self.value(mod, node.args[0]) is False:
                return "off"
        if isinstance(node, ast.Assign):
            for t in node.targets:
                d = self.dotted(mod, t) if isinstance(t, ast.Attribute) else None
                if d in ("jax.config.jax_enable_x64", "jax.config.x64_enabled"):
                    v = self.value(mod, node.value)
                    return "unknown" if v is None else "on" if v else "off"
                if isinstance(t, ast.Subscript) and self.dotted(mod, t.value) == "os.environ" and isinstance(t.slice, ast.Constant) and t.slice.value == "JAX_ENABLE_X64":
                    v = self.value(mod, node.value)
                    return "unknown" if v is None else "on" if v else "off"
        return None

    def module(self, name, cond):
        if name in self.seen or name not in self.mods:
            return
        self.seen.add(name)
        self.block(name, self.mods[name].tree.body, cond, 0)

    def imported(self, name, cond):
        parts = name.split(".")
        for k in range(1, len(parts) + 1):
            self.module(".".join(parts[:k]), cond)

    def block(self, mod, body, cond, depth):
        import ast
        m = self.mods[mod]
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imported(a.name, cond)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = mod.split(".")
                    pk = pk if m.path.endswith("__init__.py") else pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([s.module] if s.module else []))
                self.imported(base, cond)
                for a in s.names:
                    if f"{base}.{a.name}" in self.mods:
                        self.imported(f"{base}.{a.name}", cond)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for e in [*s.decorator_list, *s.args.defaults, *[d for d in s.args.kw_defaults if d is not None]]:
                    self.expr(mod, e, cond, depth)
            elif isinstance(s, ast.ClassDef):
                self.block(mod, s.body, cond, depth)
            elif isinstance(s, ast.If):
                self.expr(mod, s.test, cond, depth)
                txt = ast.dump(s.test)
                main = "__main__" in txt
                c = cond or ("related" if "x64" in txt.lower() else "unrelated")
                if not main:
                    self.block(mod, s.body, c, depth)
                self.block(mod, s.orelse, c, depth)
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    self.expr(mod, s.iter, cond, depth)
                self.block(mod, s.body, cond, depth)
            elif isinstance(s, ast.With):
                for i in s.items:
                    self.expr(mod, i.context_expr, cond, depth)
                self.block(mod, s.body, cond, depth)
            elif isinstance(s, ast.Try):
                self.block(mod, s.body, cond, depth)
                for h in s.handlers:
                    self.block(mod, h.body, cond or "unrelated", depth)
                self.block(mod, s.orelse + s.finalbody, cond, depth)
            else:
                ev = self.switch(mod, s)
                if ev == "unknown":
                    self.unknown.add(f"switch of precision with an unknown value at {self.place(m, s)}")
                elif ev:
                    self.events.append((ev, cond, self.place(m, s)))
                self.expr(mod, s, cond, depth)

    def expr(self, mod, e, cond, depth):
        import ast
        m = self.mods[mod]

        def visit(n):
            if isinstance(n, ast.Lambda):
                return
            for c in ast.iter_child_nodes(n):
                visit(c)
            if not isinstance(n, ast.Call):
                return
            ev = self.switch(mod, n)
            if ev == "unknown":
                self.unknown.add(f"switch of precision with an unknown value at {self.place(m, n)}")
            elif ev:
                self.events.append((ev, cond, self.place(m, n)))
            d = self.dotted(mod, n.func)
            if d and (d.startswith("jax.numpy.") or d.startswith("jax.random.") or d.startswith("jax.scipy.")) and d.rsplit(".", 1)[-1] not in ("dtype", "vectorize", "finfo", "iinfo"):
                self.events.append(("compute", cond, self.place(m, n)))
            elif d and depth < 4:
                tm_, fn = (mod, d) if "." not in d else d.rsplit(".", 1)
                if tm_ in self.mods:
                    for s in self.mods[tm_].tree.body:
                        if isinstance(s, ast.FunctionDef) and s.name == fn:
                            self.block(tm_, s.body, cond, depth + 1)
        visit(e)

    def narrow(self, name, m, bad):
        import ast
        skip = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare):
                skip |= {id(x) for x in ast.walk(n)}
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass"):
                skip |= {id(x) for x in ast.walk(n)}
            elif isinstance(n, ast.arg) or isinstance(n, (ast.FunctionDef,)) and n.returns is not None:
                a = n.annotation if isinstance(n, ast.arg) else n.returns
                if a is not None:
                    skip |= {id(x) for x in ast.walk(a)}
        for n in ast.walk(m.tree):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Attribute) and n.attr in NARROW or isinstance(n, ast.Name) and n.id in NARROW and isinstance(n.ctx, ast.Load) and n.id in self.alias[name]:
                bad.add(f"narrower floating point type {n.attr if isinstance(n, ast.Attribute) else n.id} at {self.place(m, n)}")
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in NARROW_TXT and not (isinstance(n.value, str) and n.value in ("half", "single")):
                bad.add(f"narrower floating point type {n.value!r} at {self.place(m, n)}")


class Defaults(Obligation):
    """An optional argument that is left out takes its documented value."""

    def __init__(self, code, expected, **kw):
        super().__init__("defaults of " + code.rsplit(".", 1)[1], "skillmodels." + code, None, [], **kw)
        self.expected = expected

    def decide(self, ctx):
        import ast
        fn = ctx.fn(self.code)
        while fn.op == "partial":
            fn = fn.args[0]
        if fn.op != "fn":
            return Result(UNK, "decorated function")
        node = ctx.ip.fns[fn.args[0]].node
        frame = ctx.ip.modstate.frames[ctx.ip.modules[self.code.rsplit(".", 1)[0]].env]
        a = node.args
        pos = a.posonlyargs + a.args
        have = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        have |= {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        names = {x.arg for x in pos + a.kwonlyargs}

        def value(n):
            try:
                return ast.literal_eval(n)
            except (ValueError, TypeError, SyntaxError):
                pass
            if isinstance(n, ast.Name) and n.id in frame and frame[n.id][0].op == "const":
                return frame[n.id][0].args[0]
            return Ellipsis
        bad, unknown = [], []
        for k, v in self.expected.items():
            if k not in names:
                (unknown if a.kwarg else bad).append(f"argument {k} does not exist")
            elif k not in have:
                bad.append(f"argument {k} has no default instead of {v!r}")
            else:
                w = value(have[k])
                if isinstance(w, list):
                    w = tuple(w)
                num = lambda z: isinstance(z, (int, float)) and not isinstance(z, bool)
                if w == v and (type(w) is type(v) or num(w) and num(v)):
                    continue
                if w is Ellipsis or w is None or v is None and not (num(w) or isinstance(w, str) and w or w is True):
                    unknown.append(f"default of {k}")
                else:
                    bad.append(f"default of argument {k} is {w!r} instead of {v!r}")
        if bad:
            return Result(DIFF, "; ".join(bad[:4]))
        return Result(UNK, "; ".join(unknown[:4])) if unknown else Result(EQ)
