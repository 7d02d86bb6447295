"""Abstract interpreter: Python source (AST) -> value-graph terms.

Every expression is mapped to a term describing the value; branches are joined
with gated (phi) terms, loops are summarised in index form, user functions are
inlined, library calls stay uninterpreted but canonicalised.  No analysed code
is executed and no path is enumerated or handed to a solver.
"""
import ast
import os
import re
from .terms import *
from . import terms as tm

MAXDEPTH = 45


class AnalysisError(Exception):
    pass


class Undecided(Exception):
    pass


class State:
    __slots__ = ("frames", "store", "ext", "rooted")

    def __init__(self):
        self.frames, self.store, self.ext = {}, {}, {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.store = dict(self.store)
        s.ext = dict(self.ext)
        return s


class Func:
    def __init__(self, node, module, scopes, name, defaults, kwdefaults, qual):
        self.node, self.module, self.scopes, self.name = node, module, scopes, name
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.wrapped = None
        self.py = None


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None


EFF = ("eff",)


def of_data(loc):
    return loc[0] != "name" and any(k.op == "attr_" and k.args[0] == "data" for k in loc[1])


def stores(node, n):
    return any(isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Load)
               or isinstance(x, (ast.Global, ast.Nonlocal)) and n in x.names for x in ast.walk(node))


def unread_positions(tree):
    """`for i, x in enumerate(y)` where i is never read iterates over y itself."""
    names = [n for n in ast.walk(tree) if isinstance(n, ast.Name)]
    if any(n.id == "enumerate" and not isinstance(n.ctx, ast.Load) for n in names) \
            or any(isinstance(n, ast.FunctionDef) and n.name == "enumerate" or isinstance(n, ast.arg) and n.arg == "enumerate"
                   or isinstance(n, ast.alias) and (n.asname or n.name) in ("enumerate", "*") for n in ast.walk(tree)):
        return tree

    def visit(node, scope):
        for c in ast.iter_child_nodes(node):
            visit(c, c if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else scope)
        if isinstance(node, ast.For):
            drop(node, scope)
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in node.generators:
                drop(g, node)

    def drop(loop, scope):
        e, t = loop.iter, loop.target
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and e.args \
                and not isinstance(e.args[0], ast.Starred) and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2 \
                and isinstance(t.elts[0], ast.Name) \
                and not any(isinstance(n, ast.Name) and n.id == t.elts[0].id and not (n is t.elts[0]) for n in ast.walk(scope)) \
                and not any(isinstance(n, (ast.Global, ast.Nonlocal)) and t.elts[0].id in n.names for n in ast.walk(scope)):
            loop.iter, loop.target = e.args[0], t.elts[1]

    visit(tree, tree)
    return tree


class Out:
    """Outcomes of a block: at most one per kind; guards are exclusive."""
    __slots__ = ("fall", "ret", "brk", "cont", "exc")

    def __init__(self):
        self.fall = self.ret = self.brk = self.cont = self.exc = None


class Interp:
    def __init__(self, repo="/repo", pkg="skillmodels"):
        self.repo, self.pkg = repo, pkg
        self.modules = {}
        self.fns = {}
        self.views = {}     # shallow copies: address -> locations with the same elements
        self.lost = []      # mutations whose effect on shared objects is not tracked
        self.next_addr = 1
        self.next_fid = 1
        self.depth = 0
        self.stubs = {}
        self.loopvars = []
        self.analysed = {}
        self.callsites = 0
        self.deepcopied = set()
        self.handlers = []      # exception handlers met: (module, try, handler, types, [(condition, effects) of paths that do not raise], scopes)
        self.origin = {}        # loop placeholder -> value before the loop
        self.callstack = []
        self.callframes = []
        self.reify_names = False
        self.builtin_py = {}
        self.steps = 0
        self.modstate = State()
        self.modstate.store[EFF] = seq("list", [])
        self.reify_depth = 0
        from . import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ program
    def load(self, name, path):
        src = getattr(self, "overlay", {}).get(path) or open(path).read()
        tree = unread_positions(ast.parse(src))
        m = Module(name, path, tree, src)
        self.modules[name] = m
        return m

    def load_package(self):
        d = os.path.join(self.repo, self.pkg)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                n = self.pkg if f == "__init__.py" else f"{self.pkg}.{f[:-3]}"
                self.load(n, os.path.join(d, f))
        # any subpackages that are not tests
        for sub_ in sorted(os.listdir(d)):
            p = os.path.join(d, sub_)
            if os.path.isdir(p) and sub_ not in ("tests", "__pycache__"):
                for f in sorted(os.listdir(p)):
                    if f.endswith(".py"):
                        n = f"{self.pkg}.{sub_}" if f == "__init__.py" else f"{self.pkg}.{sub_}.{f[:-3]}"
                        self.load(n, os.path.join(p, f))

    def init_module(self, m):
        if m.env is not None:
            return
        fid = self.new_fid()
        m.env = fid
        self.modstate.frames[fid] = {}
        fr = Frame(self, m, fid, (fid,), "<module>")
        st = self.modstate
        for node in m.tree.body:
            if isinstance(node, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Assign, ast.AnnAssign, ast.If,
                                 ast.Try, ast.ClassDef, ast.Expr, ast.With, ast.For)):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    continue
                out = fr.exec_block([node], st, TRUE)
                if out.fall:
                    st2 = out.fall[1]
                    if st2 is not st:
                        self.modstate = st = st2

    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    def alloc(self, st, content):
        a = self.next_addr
        self.next_addr += 1
        st.store[a] = content
        return raw("ref", a)

    def new_fn(self, f):
        i = len(self.fns) + 1
        self.fns[i] = f
        return raw("fn", i)

    def module_attr(self, modname, attr, st):
        """value of attribute of a (possibly library) module"""
        m = self.modules.get(modname)
        if m is None:
            sub_ = f"{modname}.{attr}"
            if sub_ in self.modules:
                return raw("mod", sub_)
            return raw("lib", self.lib.canon(f"{modname}.{attr}"))
        self.init_module(m)
        v = self.modstate.frames[m.env].get(attr)
        if v is not None:
            return v[0]
        sub_ = f"{modname}.{attr}"
        if sub_ in self.modules:
            return raw("mod", sub_)
        if attr == "__name__":
            return const(modname)
        return opaque(f"no attribute {modname}.{attr}")

    # ------------------------------------------------------------ freezing
    def val(self, v, st, depth=0):
        """Resolve refs to contents (pure term)."""
        if "ref" not in v.flags:
            return v
        return self._val(v, st, (), {})

    def _val(self, v, st, seen, memo):
        if "ref" not in v.flags:
            return v
        r = memo.get(v.id)
        if r is not None:
            return r
        if v.op == "ref":
            a = v.args[0]
            if a in seen:
                return opaque("cyclic")
            c = st.store.get(a)
            if c is None:
                c = self.modstate.store.get(a)
                if c is None:
                    return opaque("dangling")
            r = self._val(c, st, seen + (a,), memo)
        elif v.op == "fn":
            r = self.reify(v, st)
        elif v.op == "partial" and self.py_fn(v.args[0]):
            r = self.reify(v.args[0], st, v)
        elif v.op == "bound":
            r = raw("boundmeth", v.args[0], self._val(v.args[1], st, seen, memo))
        elif v.op in BIND or v.op == "lam":
            vs, args = unbind(v)
            r = rebind(v, vs, [self._val(a, st, seen, memo) if isinstance(a, T) else a for a in args])
        else:
            r = mk(v.op, *[self._val(a, st, seen, memo) if isinstance(a, T) else a for a in v.args])
        memo[v.id] = r
        return r

    def py_fn(self, v):
        return v.op == "fn" and self.fns[v.args[0]].py is None

    def reify(self, v, st, part=None):
        f = self.fns[v.args[0]]
        if f.py is not None:
            return raw("lib", "py." + f.name)
        if self.reify_depth >= 3 or self.depth > MAXDEPTH - 8:
            return raw("fnname", f.qual)
        self.reify_depth += 1
        try:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            kwo = [x.arg for x in a.kwonlyargs]
            vs, args, kwargs = [], [], {}
            if part is not None:
                args = [i.args[0] for i in part.args[1].args]
                kwargs = {k.args[0]: k.args[1] for k in part.args[2].args}
                names = [n for n in names[len(args):] if n not in kwargs]
                kwo = [n for n in kwo if n not in kwargs]
            for n in names:
                x = fresh("a")
                vs.append(x)
                if part is not None:
                    kwargs[n] = x
                else:
                    args.append(x)
            for n in kwo:
                x = fresh("a")
                vs.append(x)
                kwargs[n] = x
            extra = None
            if a.kwarg:
                x = fresh("k")
                vs.append(x)
                extra = x
            st2 = st.copy()
            vx = None
            if a.vararg:
                vx = fresh("a")
                vs.append(vx)
            r = self.call_fn(v, args, kwargs, st2, kwsplat=extra, varsplat=vx)
            r = self.val(r, st2)
            spec = ",".join(names + ["*" + n for n in kwo] + (["**"] if a.kwarg else []) + (["*"] if a.vararg else []))
            res = bind("lam", vs, [r]) if vs else raw("lam", 1, 0, r)
            if f.wrapped is not None:
                return raw("wraps", res, self.val(f.wrapped, st))
            if "wraps_t" in f.__dict__:
                return raw("wraps", res, f.wraps_t)
            if self.reify_names:
                return raw("named", spec, res)
            return res
        except RecursionError:
            return raw("fnname", f.qual)
        finally:
            self.reify_depth -= 1

    def fn_name(self, v, st):
        if v.op == "fn":
            f = self.fns[v.args[0]]
            if f.wrapped is not None:
                return self.fn_name(f.wrapped, st)
            return const(f.name)
        if v.op == "lib":
            return const(v.args[0].split(".")[-1])
        return raw("attr", self.val(v, st), "__name__")

    # ------------------------------------------------------------ state merge
    def merge(self, g, s1, s2):
        """State that is s1 if g else s2."""
        if s1 is s2:
            return s1
        s = State()
        for fid in s1.frames.keys() | s2.frames.keys():
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                s.frames[fid] = dict(f1 if f2 is None else f2)
                continue
            d = {}
            for n in f1.keys() | f2.keys():
                v1, v2 = f1.get(n), f2.get(n)
                if v1 is None or v2 is None:
                    d[n] = v1 or v2
                elif v1[0] is v2[0]:
                    d[n] = v1 if v1[1] == v2[1] else (v1[0], None)
                else:
                    d[n] = (self.phi(g, v1[0], v2[0], s1, s2), None)
            s.frames[fid] = d
        s.store = dict(s1.store)
        for a, c2 in s2.store.items():
            c1 = s1.store.get(a)
            if c1 is None:
                s.store[a] = c2
            elif c1 is not c2:
                s.store[a] = self.merge_content(g, c1, c2)
        s.ext = dict(s1.ext)
        for k, v in s2.ext.items():
            s.ext.setdefault(k, v)
        return s

    def phi(self, g, a, b, s1, s2):
        return ite(g, a, b)

    def merge_content(self, g, c1, c2):
        if c1 is c2:
            return c1
        for x, y in ((c1, c2), (c2, c1)):
            if x.op == "seq" and y.op in ("seq", "var", "in_", "emptydict", "call", "getitem", "meth") and y.op != "emptydict":
                i1 = list(c1.args[1:]) if c1.op == "seq" else [raw("sp", c1)]
                i2 = list(c2.args[1:]) if c2.op == "seq" else [raw("sp", c2)]
                if (i1 and i2 and i1[0] is i2[0]) or not i1 or not i2 or c1.op == c2.op == "seq":
                    return seq(x.args[0], mk_if(g, i1, i2))
        if c1.op == "upd" or c2.op == "upd":
            b1 = c1.args[0] if c1.op == "upd" else c1
            b2 = c2.args[0] if c2.op == "upd" else c2
            if b1 is b2:
                i1 = c1.args[1:] if c1.op == "upd" else []
                i2 = c2.args[1:] if c2.op == "upd" else []
                return upd(b1, mk_if(g, i1, i2))
        return ite(g, c1, c2)

    # ------------------------------------------------------------ effects
    def effect(self, st, *args):
        old = st.store[EFF]
        items = list(old.args[1:]) if old.op == "seq" else [raw("sp", old)]
        st.store[EFF] = seq("list", items + [it(raw("effect", *args))])

    def note_mut(self, st, name, sure=True):
        self.effect(st, "mutate" if sure or name not in self.deepcopied else "mutate?", name)

    # ------------------------------------------------------------ calling
    def bind_args(self, f, args, kwargs, st, kwsplat=None, varsplat=None):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        if a.vararg:
            items = [it(x) for x in rest]
            if varsplat is not None:
                items.append(raw("sp", varsplat))
            env[a.vararg.arg] = seq("tuple", items)
        elif rest:
            raise Undecided(f"too many arguments for {f.qual}")
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise Undecided(f"duplicate argument {n} for {f.qual}")
                env[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in env:
                env[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env and d is not None:
                env[x.arg] = d
        if a.kwarg:
            items = [pair(const(k), v) for k, v in kw.items()]
            base = EMPTYDICT
            if kwsplat is not None:
                base = kwsplat
            env[a.kwarg.arg] = self.alloc(st, upd(base, items))
        elif kw:
            raise Undecided(f"unexpected keyword arguments {sorted(kw)} for {f.qual}")
        elif kwsplat is not None:
            for n in (names if varsplat is None else []) + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    env[n] = getitem(kwsplat, const(n))
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        if missing:
            if varsplat is not None:
                for k, n in enumerate(missing):
                    env[n] = opaque("argument", varsplat, kwsplat) if kwsplat is not None else getitem(varsplat, const(k))
            else:
                raise Undecided(f"missing arguments {missing} for {f.qual}")
        return env

    def call_fn(self, fn, args, kwargs, st, kwsplat=None, varsplat=None, locs=None):
        """Call user function; mutates st in place to post-state. Returns value."""
        f = self.fns[fn.args[0]]
        if f.py is not None:
            return f.py(self, st, list(args), dict(kwargs))
        stub = self.stubs.get(f.qual)
        if stub is not None and stub is not fn:
            return self.call(stub, args, kwargs, st, kwsplat, varsplat)
        if self.depth > MAXDEPTH or f.qual is not None and self.callstack.count(f.node) > 3:
            return opaque("recursion", *[self.val(x, st) for x in args])
        self.analysed[f.qual] = (f.module.path, f.node.lineno)
        env = self.bind_args(f, args, kwargs, st, kwsplat, varsplat)
        fid = self.new_fid()
        fr = Frame(self, f.module, fid, f.scopes + (fid,), f.name)
        st.frames[fid] = {}
        for n, v in env.items():
            lc = None
            if locs:
                lc = locs.get(n)
                if lc is not None and lc[0] == "name":
                    if not stores(f.node, n):
                        fr.alias[n] = lc[1:]
                    lc = None
            st.frames[fid][n] = (v, lc)
        self.depth += 1
        self.callstack.append(f.node)
        self.callframes.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return fr.eval(f.node.body, st)
            isgen = has_yield(f.node)
            if isgen:
                acc = self.alloc(st, seq("list", []))
                st.frames[fid]["<yield>"] = (acc, None)
            out = fr.exec_block(f.node.body, st, TRUE)
            rv, rs = None, None
            # fallthrough returns None
            parts = []
            if out.ret:
                parts.append(out.ret)
            if out.fall:
                parts.append((out.fall[0], out.fall[1], NONE))
            if not parts:
                # always raises
                s = out.exc[1] if out.exc else st
                self.assign_state(st, s)
                return opaque("never")
            g, s, v = parts[0]
            if len(parts) == 2:
                g2, s2, v2 = parts[1]
                v = ite(g, v, v2)
                s = self.merge(g, s, s2)
            if out.exc:
                ge, se, _ = out.exc
                eff = self.merge_content(ge, se.store[EFF], s.store[EFF])
                s.store[EFF] = eff
            self.assign_state(st, s)
            if isgen:
                return acc
            return v
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.callframes.pop()

    def assign_state(self, st, s):
        if st is not s:
            st.frames, st.store, st.ext = s.frames, s.store, s.ext

    def call(self, fn, args, kwargs, st, kwsplat=None, varsplat=None, locs=None, obj_loc=None):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Undecided("step budget")
        op = fn.op
        if op == "ref":
            c = st.store.get(fn.args[0])
            if c is None:
                c = self.modstate.store.get(fn.args[0])
            return self.call(c, args, kwargs, st, kwsplat, varsplat)
        if op == "fn":
            return self.call_fn(fn, args, kwargs, st, kwsplat, varsplat, locs)
        if op == "partial":
            pargs = [i.args[0] for i in fn.args[1].args]
            pk = {p.args[0]: p.args[1] for p in fn.args[2].args}
            for n in pk:
                if n in kwargs:
                    pass
            pk.update(kwargs)
            return self.call(fn.args[0], pargs + list(args), pk, st, kwsplat, varsplat)
        if op == "ite":
            s1, s2 = st.copy(), st.copy()
            v1 = self.call(fn.args[1], args, kwargs, s1, kwsplat, varsplat)
            v2 = self.call(fn.args[2], args, kwargs, s2, kwsplat, varsplat)
            self.assign_state(st, self.merge(fn.args[0], s1, s2))
            return ite(fn.args[0], v1, v2)
        if op == "wraps":
            return self.call(fn.args[0], args, kwargs, st, kwsplat, varsplat)
        if op == "named":
            names = [n for n in fn.args[0].split(",") if n and not n.startswith("*")]
            if len(args) < len(names) and all(n in kwargs for n in names[len(args):]) and not kwsplat and not varsplat:
                args = list(args) + [kwargs.pop(n) for n in names[len(args):]]
            return self.call(fn.args[1], args, kwargs, st, kwsplat, varsplat)
        if op == "lam":
            vs, bodyargs = unbind(fn)
            if len(args) == len(vs) and not kwargs:
                return subst(bodyargs[0], {v.args[0]: self.val(a, st) for v, a in zip(vs, args)})
        if op == "lib":
            self.callsites += 1
            return self.lib.call_lib(self, fn.args[0], list(args), dict(kwargs), st, kwsplat, varsplat)
        if op == "bound":
            self.callsites += 1
            return self.lib.call_method(self, fn.args[0], fn.args[1], list(args), dict(kwargs), st, kwsplat,
                                        varsplat, obj_loc)
        if op == "const" or op == "seq":
            return opaque("call of non-function")
        d = self.derivative(fn, args, kwargs, st)
        if d is not None:
            return d
        # unknown function value: uninterpreted application
        a = [self.val(x, st) for x in args]
        if varsplat is not None:
            a.append(raw("sp", self.val(varsplat, st)))
        ks = [raw("kw", k, self.val(x, st)) for k, x in sorted(kwargs.items())]
        if kwsplat is not None:
            ks.append(raw("kwsp", self.val(kwsplat, st)))
        return self.alloc(st, raw("app", self.val(fn, st), *a, *ks))

    def derivative(self, fn, args, kwargs, st):
        """Calls of jax.grad(f)(x) and friends: deriv(kind, f, argnum, x...) and the auxiliary output f(x)[1]."""
        if fn.op == "call" and fn.args[0] in ("jax.grad", "jax.jac", "jax.value_and_grad"):
            k, rest = fn.args[0], list(fn.args[1:])
        elif fn.op == "app" and fn.args[0].op == "modattr" and fn.args[0].args[0] == "jax":
            k, rest = fn.args[0].args[1], list(fn.args[1:])
        else:
            return None
        kws = {x.args[0]: x.args[1] for x in rest if x.op == "kw"}
        pos = [x for x in rest if x.op != "kw"]
        if len(pos) != 1 or kwargs or set(kws) - {"has_aux", "argnums"} or any(x.op in ("sp", "kwsp") for x in rest):
            return None
        aux = kws.get("has_aux", FALSE)
        argnum = kws.get("argnums", ZERO)
        if aux not in (TRUE, FALSE):
            return None
        f = pos[0]
        value = k == "jax.value_and_grad"
        xs = [self.val(x, st) for x in args]
        if f.op in ("fn", "partial"):
            vs = [tm.fresh("a") for _ in xs]
            st2 = st.copy()
            self.reify_depth += 1
            try:
                if self.reify_depth > 3:
                    return None
                f = tm.bind("lam", vs, [self.val(self.call(f, vs, {}, st2), st2)])
            finally:
                self.reify_depth -= 1
        d = raw("deriv", "jax.grad" if value else k, f, argnum, aux, *xs)
        if aux == FALSE and not value:
            return self.alloc(st, d)
        y = self.val(self.call(pos[0], list(args), {}, st), st)
        d = self.alloc(st, d)
        if not value:
            return tm.seq("tuple", [tm.it(d), tm.it(tm.getitem(y, ONE))])
        return tm.seq("tuple", [tm.it(y), tm.it(d)])

    # ------------------------------------------------------------ paths
    def getpath(self, content, path):
        for k in path:
            content = self.stepget(content, k)
        return content

    def stepget(self, c, k):
        if k.op == "attr_":
            return mk("attr", c, k.args[0])
        if k.op == "loc":
            return getitem(mk("attr", c, "loc"), k.args[0])
        return getitem(c, k)

    def setpath(self, content, path, v):
        if len(path) == 0:
            return v
        if len(path) == 1:
            return upd(content, [pair(path[0], v)])
        sub_ = self.stepget(content, path[0])
        return upd(content, [pair(path[0], self.setpath(sub_, path[1:], v))])

    def content(self, a, st):
        c = st.store.get(a)
        if c is None:
            c = self.modstate.store.get(a)
        return c

    def norm_loc(self, loc, st):
        """follow refs stored inside contents"""
        a, path = loc
        out = []
        for k in path:
            out.append(k)
            c = self.content(a, st)
            v = self.getpath(c, out) if c is not None else None
            if v is not None and v.op == "ref":
                a, out = v.args[0], []
        return a, tuple(out)

    def refs_only(self, v):
        return v.op == "ref" or v.op == "ite" and self.refs_only(v.args[1]) and self.refs_only(v.args[2])

    def mutate_phi(self, v, g, st, f):
        """the mutation f applied to each object v may denote, under the condition that it does"""
        if v.op == "ite":
            self.mutate_phi(v.args[1], band(g, v.args[0]), st, f)
            self.mutate_phi(v.args[2], band(g, bnot(v.args[0])), st, f)
        else:
            self.mutate((v.args[0], ()), st, lambda o: self.merge_content(g, f(o), o))

    def mutate(self, loc, st, fnew):
        """content at loc := fnew(old). loc = (addr, path)"""
        a, path = self.norm_loc(loc, st)
        c = self.content(a, st)
        if c is None:
            c = opaque("unknown-object")
        old = self.getpath(c, path)
        if a in self.views:
            if not path:
                # positions of the copies no longer correspond
                for x in self.views.pop(a):
                    if x is not None and x[0] in self.views:
                        del self.views[x[0]]
            else:
                for x in self.views[a]:
                    if x is None:
                        continue
                    o = (x[0], x[1] + path)
                    if self.content(x[0], st) is not None and self.getpath(self.content(x[0], st), o[1]) is old:
                        v, self.views = self.views, {}
                        self.mutate(o, st, fnew)
                        self.views = v
                    else:
                        self.lost.append("element of a copied container")
        new = fnew(old)
        self.check_ext(a, path, c, st)
        nc = self.setpath(c, path, new)
        st.store[a] = nc
        # refresh aliases strictly above/at
        for fid, d in st.frames.items():
            for n, (v, lc) in list(d.items()):
                if lc is not None and lc[0] == a and v.op != "ref" and len(lc[1]) <= len(path) and \
                        tuple(x.id for x in path[:len(lc[1])]) == tuple(x.id for x in lc[1]):
                    d[n] = (self.getpath(nc, lc[1]), lc)

    def check_ext(self, a, path, c, st, extra=1):
        e = st.ext.get(a)
        if e is None:
            if path and c.op in ("upd", "seq") and self.owner(c) is None:
                # a new container around (parts of) an argument
                for k in range(1, len(path) + 1):
                    sub_ = self.getpath(c, path[:k])
                    if sub_.op in ("getitem", "in_") and kind(sub_) in ("dict", "list", None):
                        nm = self.ext_rooted(sub_)
                        if nm and nm not in self.deepcopied:
                            self.note_mut(st, nm)
                        return
            return
        name, own = e
        if own is None:
            return
        plen = len(path) + extra
        if plen > own:
            # path goes through shared parts unless locally replaced
            if own >= 1 and len(path) >= 1:
                sub_ = self.getpath(c, path[:own])
                if not self.ext_rooted(sub_):
                    return
            self.note_mut(st, name)

    def owner(self, t):
        while t.op == "upd":
            t = t.args[0]
        return self.ext_rooted(t)

    def new_object(self, base, k):
        """base[k] is a new object, not a part of base"""
        kb, kk = kind(base), kind(k)
        if k.op == "slice" or kk in ("list", "arr", "series", "index", "df", "bool", "set") or is_boolterm(k):
            return True
        if k.op == "seq" and k.args[0] == "list" or k.op == "seq" and any(x.op == "it" and x.args[0].op == "slice" for x in k.args[1:]):
            return True
        if kb in ("df", "series", "arr"):
            return kk not in ("str", "int")
        return base.op == "attr" and base.args[1] in ("loc", "iloc", "at", "iat") or k.op in ("mask", "not", "and", "or")

    def ext_rooted(self, t):
        while True:
            if t.op == "in_":
                return t.args[0]
            if t.op == "var":
                t = self.origin.get(t.id)
                if t is None:
                    return None
                continue
            if t.op in ("getitem", "attr", "keys"):
                if t.op == "getitem" and self.new_object(*t.args):
                    return None
                t = t.args[0]
            elif t.op == "upd":
                t = t.args[0]
            elif t.op == "ite":
                return self.ext_rooted(t.args[1]) or self.ext_rooted(t.args[2])
            else:
                return None


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def as_items(v):
    return list(v.args[1:]) if v.op == "seq" else [raw("sp", v)]


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.MatMult: "matmul",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor",
          ast.LShift: "shl", ast.RShift: "shr"}


class Frame:
    def __init__(self, ip, module, fid, scopes, name):
        self.ip, self.module, self.fid, self.scopes, self.name = ip, module, fid, scopes, name
        self.outer = {}     # names declared global or nonlocal -> frame they live in
        self.elems = set()  # loop variables bound to elements whose container is not known
        self.iters = {}     # variable -> location of the container it iterates over
        self.alias = {}     # parameter -> (frame, variable) of the caller naming the same object

    # ------------------------------------------------------- names
    def lookup(self, n, st):
        for fid in reversed(self.scopes) if n not in self.outer else (self.outer[n],):
            d = st.frames.get(fid)
            if d is None:
                d = self.ip.modstate.frames.get(fid)
            if d is not None and n in d:
                return d[n]
        m = self.module
        if m.env is not None:
            d = self.ip.modstate.frames.get(m.env)
            if d and n in d:
                return d[n]
        if n in self.ip.builtin_py:
            return (self.ip.builtin_py[n], None)
        if n in self.ip.lib.BUILTINS:
            return (raw("lib", "builtins." + n), None)
        return (opaque("undefined name " + n), None)

    def setvar(self, n, v, st, loc=None):
        if v.op == "ref":
            loc = None
        fid = self.outer.get(n, self.fid)
        if fid not in st.frames:
            st.frames[fid] = dict(self.ip.modstate.frames.get(fid, {}))
        st.frames[fid][n] = (v, loc)
        self.elems.discard(n)
        self.iters.pop(n, None)

    def val(self, v, st):
        return self.ip.val(v, st)

    # ------------------------------------------------------- blocks
    def exec_block(self, stmts, st, g):
        """Execute; returns Out with guards relative to entry (all exclusive & exhaustive)."""
        out = Out()
        cur = st
        guard = TRUE
        for s in stmts:
            o = self.exec_stmt(s, cur)
            for kind_ in ("ret", "brk", "cont", "exc"):
                x = getattr(o, kind_)
                if x is not None:
                    self.add_out(out, kind_, (band(guard, x[0]), x[1], x[2]))
            if o.fall is None:
                out.fall = None
                return out
            guard = band(guard, o.fall[0])
            cur = o.fall[1]
        out.fall = (guard, cur, NONE)
        return out

    def add_out(self, out, kind_, x):
        old = getattr(out, kind_)
        if old is None:
            setattr(out, kind_, x)
            return
        g1, s1, v1 = old
        g2, s2, v2 = x
        setattr(out, kind_, (bor(g1, g2), self.ip.merge(g1, s1, s2), ite(g1, v1, v2)))

    def fall(self, st):
        o = Out()
        o.fall = (TRUE, st, NONE)
        return o

    def exec_stmt(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            st.store[EFF] = seq("list", list(st.store[EFF].args[1:]) + [it(opaque("stmt " + type(s).__name__))])
            return self.fall(st)
        return m(s, st)

    def x_Pass(self, s, st):
        return self.fall(st)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self.fall(st)
        self.eval(s.value, st)
        return self.fall(st)

    def x_Global(self, s, st):
        for n in s.names:
            self.outer[n] = self.module.env
        return self.fall(st)

    def x_Nonlocal(self, s, st):
        for n in s.names:
            for fid in reversed(self.scopes[:-1]):
                if n in st.frames.get(fid, {}):
                    self.outer[n] = fid
                    break
        return self.fall(st)

    def x_Import(self, s, st):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, self.modval(a.name), st)
            else:
                top = a.name.split(".")[0]
                self.setvar(top, self.modval(top), st)
        return self.fall(st)

    def modval(self, name):
        if name in self.ip.modules:
            self.ip.init_module(self.ip.modules[name])
            return raw("mod", name)
        return raw("lib", self.ip.lib.canon(name))

    def x_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            base = self.module.name.split(".")
            if not self.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                m = self.ip.modules.get(mod)
                if m:
                    self.ip.init_module(m)
                    for n, v in self.ip.modstate.frames[m.env].items():
                        st.frames[self.fid][n] = v
                continue
            if mod in self.ip.modules:
                v = self.ip.module_attr(mod, a.name, st)
            elif f"{mod}.{a.name}" in self.ip.modules:
                v = self.modval(f"{mod}.{a.name}")
            else:
                v = raw("lib", self.ip.lib.canon(f"{mod}.{a.name}"))
            self.setvar(a.asname or a.name, v, st)
        return self.fall(st)

    def x_ClassDef(self, s, st):
        self.setvar(s.name, opaque("class " + s.name), st)
        return self.fall(st)

    def make_fn(self, node, st, name):
        defaults = [self.eval(d, st) for d in node.args.defaults]
        kwd = [self.eval(d, st) if d is not None else None for d in node.args.kw_defaults]
        qual = f"{self.module.name}.{name}" if self.name == "<module>" else f"{self.module.name}.{self.name}.{name}"
        f = Func(node, self.module, self.scopes if self.name != "<module>" else self.scopes, name, defaults, kwd, qual)
        return self.ip.new_fn(f)

    def x_FunctionDef(self, s, st):
        v = self.make_fn(s, st, s.name)
        fnv = v
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            v = self.ip.call(dv, [v], {}, st)
        self.setvar(s.name, v, st)
        return self.fall(st)

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if v.op != "ref" and s.value is not None and "ref" not in v.flags:
            lc = self.eval_loc(s.value, st, quiet=True)
            if lc is not None:
                self.ip.retlocs = getattr(self.ip, "retlocs", {})
        o = Out()
        o.ret = (TRUE, st, v)
        return o

    def x_Raise(self, s, st):
        name, msg = "?", NONE
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                fv = self.eval(e.func, st)
                name = fv.args[0].split(".")[-1] if fv.op == "lib" else "?"
                if e.args:
                    msg = self.val(self.eval(e.args[0], st), st)
            else:
                fv = self.eval(e, st)
                name = fv.args[0].split(".")[-1] if fv.op == "lib" else "?"
                if fv.op != "lib":
                    v = self.val(fv, st)
                    if v.op == "excobj":
                        name, msg = v.args[0], v.args[1]
        else:
            name = "reraise"
        self.ip.effect(st, "raise", name, msg)
        o = Out()
        o.exc = (TRUE, st, raw("excobj", name, msg))
        return o

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.fall(st)
        st2 = st.copy()
        self.ip.effect(st2, "raise", "AssertionError", NONE)
        o = Out()
        o.exc = (bnot(c), st2, NONE)
        if c is not FALSE:
            o.fall = (c, st, NONE)
        return o

    def x_Break(self, s, st):
        o = Out()
        o.brk = (TRUE, st, NONE)
        return o

    def x_Continue(self, s, st):
        o = Out()
        o.cont = (TRUE, st, NONE)
        return o

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[self.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                k = self.val(self.eval_index(t.slice, st), st)
                lc = self.loc_of(t.value, base, st)
                self.ip.mutate(lc, st, lambda o: upd(o, [raw("del", k)]))
        return self.fall(st)

    def cond(self, e, st):
        return truth(self.val(self.eval(e, st), st))

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.exec_block(s.body, st, TRUE)
        if c is FALSE:
            return self.exec_block(s.orelse, st, TRUE)
        s1, s2 = st.copy(), st.copy()
        o1 = self.exec_block(s.body, s1, TRUE)
        o2 = self.exec_block(s.orelse, s2, TRUE)
        return self.join(c, o1, o2)

    def join(self, c, o1, o2):
        o = Out()
        nc = bnot(c)
        for k in ("fall", "ret", "brk", "cont", "exc"):
            a, b = getattr(o1, k), getattr(o2, k)
            if a is not None and b is not None:
                setattr(o, k, (ite(c, a[0], b[0]), self.ip.merge(c, a[1], b[1]), ite(c, a[2], b[2])))
            elif a is not None:
                setattr(o, k, (band(c, a[0]), a[1], a[2]))
            elif b is not None:
                setattr(o, k, (band(nc, b[0]), b[1], b[2]))
        return o

    def x_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            self.ip.effect(st, "with", self.val(v, st))
            if i.optional_vars is not None:
                w = self.val(v, st)
                self.assign(i.optional_vars, getitem(w, ZERO) if w.op == "seq" else raw("call", "enter", w), st)
        o = self.exec_block(s.body, st, TRUE)
        for x in (o.fall, o.ret, o.brk, o.cont, o.exc):
            if x is not None:
                for _ in s.items:
                    self.ip.effect(x[1], "endwith")
        return o

    def x_Try(self, s, st):
        pre = st.copy()
        n0 = len(st.store[EFF].args)
        o = self.exec_block(s.body, st, TRUE)
        # describe when the body throws
        for h in s.handlers:
            if h.type is None:
                names = ["BaseException"]
            else:
                tv = self.eval(h.type, pre)
                tv = self.val(tv, pre)
                if tv.op == "seq":
                    names = [i.args[0].args[0].split(".")[-1] for i in tv.args[1:] if i.args[0].op == "lib"]
                else:
                    names = [tv.args[0].split(".")[-1] if tv.op == "lib" else "?"]
            hs = pre.copy()
            if h.name:
                hs.frames[self.fid][h.name] = (raw("in_", "<exception>", None), None)
            c = self.throws(names, s.body, o, pre)
            if c is FALSE:
                continue
            old = set(hs.store[EFF].args) if hs.store[EFF].op == "seq" else set()
            ho = self.exec_block(h.body, hs, TRUE)
            silent = [(x[0], [i for i in x[1].store[EFF].args if isinstance(i, T) and i not in old]) for x in (ho.fall, ho.ret, ho.brk, ho.cont) if x is not None]
            self.ip.handlers.append((self.module, s, h, names, silent, self.scopes))
            # bare re-raise of unrelated exceptions: nothing observable to add
            if ho.fall is None and ho.ret is None and ho.brk is None and ho.cont is None and \
                    len(h.body) == 1 and isinstance(h.body[0], ast.Raise) and h.body[0].exc is None:
                continue
            # explicit raises of the body caught here
            if o.exc is not None and o.exc[2].op == "excobj" and (o.exc[2].args[0] in names or "Exception" in names or "BaseException" in names):
                c = bor(c, o.exc[0])
                o.exc = None
            o = self.join(c, ho, o)
        if s.orelse and o.fall:
            g, s1, _ = o.fall
            o.fall = None
            o2 = self.exec_block(s.orelse, s1, TRUE)
            for k in ("ret", "brk", "cont", "exc", "fall"):
                x = getattr(o2, k)
                if x is not None:
                    self.add_out(o, k, (band(g, x[0]), x[1], x[2]))
        if s.finalbody and o.fall:
            g, s1, _ = o.fall
            o.fall = None
            o2 = self.exec_block(s.finalbody, s1, TRUE)
            for k in ("ret", "brk", "cont", "exc", "fall"):
                x = getattr(o2, k)
                if x is not None:
                    self.add_out(o, k, (band(g, x[0]), x[1], x[2]))
        return o

    def throws(self, names, body, o, pre):
        """Boolean term: the try body throws one of names."""
        vals = []
        st = None
        if o.ret is not None:
            vals.append(self.val(o.ret[2], o.ret[1]))
        st = o.fall[1] if o.fall else (o.ret[1] if o.ret else None)
        if st is None:
            return FALSE
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    v = st.frames[self.fid].get(n.id)
                    pv = pre.frames[self.fid].get(n.id)
                    if v is not None and (pv is None or pv[0] is not v[0]):
                        vals.append(self.val(v[0], st))
            if isinstance(b, ast.Expr):
                pass
        nm = "|".join(sorted(names))
        if not vals:
            return raw("throws", nm, NONE)
        v = vals[0]
        if names == ["KeyError"]:
            while v.op in ("call", "arr") and v.args:
                nxt = [a for a in v.args if isinstance(a, T)]
                if not nxt:
                    break
                v = nxt[0]
            if v.op == "getitem":
                if v.args[0].op == "attr" and v.args[0].args[1] == "loc":
                    return raw("throws", nm, v)
                return bnot(mk("in", v.args[1], v.args[0]))
            return raw("throws", nm, v)
        if names == ["KeyError"] or len(names) == 1 and names[0].endswith("Warning"):
            vals = sorted(set(vals), key=lambda t: t.id)
            return raw("throws", nm, seq("tuple", [it(x) for x in vals]) if len(vals) > 1 else vals[0])
        return raw("throws", nm, seq("tuple", [it(x) for x in self.operations(vals, st, pre)]))

    def operations(self, vals, st, pre):
        """the outermost operations performed between two states (what a broad handler protects)"""
        vals = list(vals)
        old = [self.val(v[0], pre) for v in pre.frames[self.fid].values() if isinstance(v[0], T)]
        for a, c in st.store.items():
            p = pre.store.get(a)
            if p is not c and a != EFF:
                vals.append(self.val(c, st))
                if p is not None:
                    old.append(self.val(p, pre))
        seen = {t.id for v in old for t in walk(v)}
        done, out = set(), {}

        def go(t):
            if t.id in done or t.id in seen:
                return
            done.add(t.id)
            if t.op in ("call", "meth", "app") and not (t.op == "call" and t.args[0] == "kwsp"):
                out[t.id] = t
                return
            for x in t.args:
                if isinstance(x, T):
                    go(x)
        for v in vals:
            go(v)
        inner = {x.id for t in out.values() for y in t.args if isinstance(y, T) for x in walk(y)}
        key = lambda t: re.sub(r"#\d+", "#", tm.show(t, 7))
        return sorted((t for t in out.values() if t.id not in inner), key=key)

    # ------------------------------------------------------- assignment
    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        loc = self.eval_loc(s.value, st, quiet=True)
        for t in s.targets:
            self.assign(t, v, st, loc)
            if isinstance(t, ast.Name) and isinstance(s.value, ast.Call) and not (
                    v.op == "ref" and isinstance(s.value.func, ast.Name) and s.value.func.id in ("list", "tuple", "sorted")):
                il = self.iter_call_loc(s.value, st)
                if il is not None:
                    self.iters[t.id] = il
        return self.fall(st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return self.fall(st)

    def x_AugAssign(self, s, st):
        t = s.target
        opn = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            old, lc = self.lookup(t.id, st)
            rv = self.eval(s.value, st)
            ov = self.val(old, st)
            if old.op == "ref" and opn == "add" and kind(ov) in ("list",):
                c = self.ip.content(old.args[0], st)
                r = self.iter_items(rv, st)
                self.ip.mutate((old.args[0], ()), st, lambda o: seq("list", as_items(o) + r))
                return self.fall(st)
            if old.op == "ref" and kind(ov) in ("df", "arr", "series", "set", "dict"):
                self.ip.mutate((old.args[0], ()), st, lambda o: self.binop(opn, self.val(o, st), self.val(rv, st), st))
                return self.fall(st)
            if lc is not None and opn == "add" and (kind(ov) == "list" or kind(ov) is None and kind(self.val(rv, st)) == "list"):
                r = self.iter_items(rv, st)
                self.ip.mutate(lc, st, lambda o: seq("list", as_items(o) + r))
                return self.fall(st)
            nv = self.binop(opn, ov, self.val(rv, st), st)
            self.setvar(t.id, nv, st)
        else:
            rv = self.val(self.eval(s.value, st), st)
            loc = self.target_loc(t, st)
            old = self.val(self.eval(ast_load(t), st), st)
            nv = self.binop(opn, old, rv, st)
            self.store_target(t, nv, st)
        return self.fall(st)

    def assign(self, t, v, st, loc=None):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, loc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = v
            if v.op == "ref":
                vv = self.ip.content(v.args[0], st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                si = star[0]
                after = n - si - 1
                for i, e in enumerate(t.elts[:si]):
                    self.assign(e, getitem(vv, const(i)), st)
                self.assign(t.elts[si].value,
                            getitem(self.val(vv, st), slice_(const(si), const(-after) if after else NONE)), st)
                for j, e in enumerate(t.elts[si + 1:]):
                    self.assign(e, getitem(vv, const(j - after)), st)
                return
            for i, e in enumerate(t.elts):
                lc = None
                x = getitem(vv, const(i))
                if loc is not None:
                    lc = (loc[0], loc[1] + (const(i),))
                elif v.op == "ref":
                    lc = (v.args[0], (const(i),))
                # locations of tuple elements carried by iteration helpers
                el = getattr(self, "_elemlocs", {}).get(x.id)
                self.assign(e, x, st, el or lc)
        else:
            self.store_target(t, v, st)

    def target_loc(self, t, st):
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            return self.loc_of(t.value, base, st)
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            return self.loc_of(t.value, base, st)

    def store_target(self, t, v, st):
        if isinstance(t, ast.Subscript):
            # X.loc[k] = v / X.iloc / X[k] = v
            k = self.val(self.eval_index(t.slice, st), st)
            tv = t.value
            if isinstance(tv, ast.Attribute) and tv.attr in ("loc", "iloc", "at", "iat"):
                base = self.eval(tv.value, st)
                loc = self.loc_of(tv.value, base, st)
                at = "loc" if tv.attr in ("loc", "at") else "iloc"
                self.ip.mutate(loc, st, lambda o: upd(o, [self.lib_locset(o, at, k, self.val(v, st))]))
                return
            base = self.eval(tv, st)
            if base.op == "ite" and self.ip.refs_only(base):
                self.ip.mutate_phi(base, TRUE, st, lambda o: upd(o, [pair(k, v)]))
                return
            loc = self.loc_of(tv, base, st)
            self.ip.mutate(loc, st, lambda o: upd(o, [pair(k, v)]))
            return
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            if base.op == "fn":
                f = self.ip.fns[base.args[0]]
                f.__dict__.setdefault("attrs", {})[t.attr] = v
                return
            loc = self.loc_of(t.value, base, st)
            self.ip.mutate(loc, st, lambda o: upd(o, [pair(raw("attr_", t.attr), v)]))
            return
        raise Undecided("assignment target " + type(t).__name__)

    def lib_locset(self, o, at, k, v):
        # df.loc[:, 'c'] = v  is column assignment
        if at == "loc" and k.op == "seq" and k.args[0] == "tuple" and len(k.args) == 3:
            a, b = k.args[1].args[0], k.args[2].args[0]
            if a.op == "slice" and a.args[0] is NONE and a.args[1] is NONE:
                return pair(b, v)
        return pair(raw("loc" if at == "loc" else "iloc_", k), v)

    def loc_of(self, expr, base, st):
        """location (addr, path) of the object `base` that expr denotes."""
        if base.op == "ref":
            return (base.args[0], ())
        lc = self.eval_loc(expr, st, quiet=True)
        if lc is not None:
            return lc
        b = base
        nm = self.ip.ext_rooted(self.val(b, st))
        if nm and not (b.op == "in_" and b.args[1] in ("int", "str")):
            self.ip.note_mut(st, nm, False)
        if isinstance(expr, ast.Name) and expr.id in self.elems:
            self.ip.lost.append(f"{expr.id} in {self.name}")  # the container it is taken from is not updated
        r = self.ip.alloc(st, base)
        if isinstance(expr, ast.Name):
            self.rebind(expr.id, r, st)
        return (r.args[0], ())

    def rebind(self, n, v, st):
        for fid in reversed(self.scopes):
            d = st.frames.get(fid)
            if d is not None and n in d:
                d[n] = (v, None)
                if fid == self.scopes[-1] and n in self.alias:
                    # a variable of the caller names the same object
                    fr, m = self.alias[n]
                    fr.rebind(m, v, st)
                return

    def arg_loc(self, a, v, st):
        if v.op == "ref":
            return None
        lc = self.eval_loc(a, st, quiet=True)
        return ("name", self, a.id) if isinstance(a, ast.Name) and (lc is None or of_data(lc)) else lc

    def eval_loc(self, e, st, quiet=False):
        """(addr, path) for Name/Subscript/Attribute chains rooted in a ref, else None."""
        if isinstance(e, ast.Name):
            v, lc = self.lookup(e.id, st)
            if v.op == "ref":
                return (v.args[0], ())
            return lc
        if isinstance(e, ast.Subscript):
            b = self.eval_loc(e.value, st, quiet)
            if b is None:
                return None
            if isinstance(e.slice, ast.Slice) or (isinstance(e.slice, ast.Tuple)):
                return None
            n = self.ip.steps
            k = self.val(self.eval_index(e.slice, st), st)
            c = self.ip.content(b[0], st)
            if c is None or self.ip.new_object(self.ip.getpath(c, b[1]), k):
                return None
            if isinstance(e.value, ast.Attribute) and e.value.attr in ("loc", "iloc", "at"):
                return None
            return self.ip.norm_loc((b[0], b[1] + (k,)), st)
        if isinstance(e, ast.Attribute):
            b = self.eval_loc(e.value, st, quiet)
            if b is None:
                return None
            if e.attr in self.ip.lib.FRESH_ATTRS:
                return None
            return (b[0], b[1] + (raw("attr_", e.attr),))
        return None

    # ------------------------------------------------------- loops
    def x_While(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, opaque("while", self.cond(s.test, st)), st)
        st.store[EFF] = seq("list", list(st.store[EFF].args[1:]) + [it(opaque("while"))])
        return self.fall(st)

    def x_For(self, s, st):
        itv = self.eval(s.iter, st)
        iloc = self.eval_loc(s.iter, st, quiet=True)
        if isinstance(s.iter, ast.Call):
            iloc = self.iter_call_loc(s.iter, st)
        elif isinstance(s.iter, ast.Name) and s.iter.id in self.iters:
            iloc = self.iters[s.iter.id]
        segs = self.segments(itv, st, iloc)

        body = s.body
        if isinstance(body[-1], ast.Break) and len(body) > 1 and len(segs) == 1 and segs[0][0] in ("for", "unit") and not s.orelse \
                and not any(isinstance(z, (ast.Break, ast.Continue)) for b in body[:-1] for z in ast.walk(b)):
            # only the first element is visited
            body = body[:-1]
            if segs[0][0] == "for":
                v0 = segs[0][2](ZERO)
                segs = [("if", tm.gt0(segs[0][1]), [("unit", *v0)], [])]

        def bindv(stx, val_, loc):
            self.assign(s.target, val_, stx, loc)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    x, lc = self.lookup(n.id, stx)
                    if lc is None and x.op != "ref":
                        self.elems.add(n.id)

        def run(stx, val_, loc):
            bindv(stx, val_, loc)
            return self.exec_block(body, stx, TRUE)
        return self.run_segments(segs, st, run, s.orelse)

    def iter_call_loc(self, call, st):
        """X.items()/X.values()/enumerate(X): location info for elements."""
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in ("items", "values", "keys") and not call.args:
            b = self.eval_loc(f.value, st, quiet=True)
            return (f.attr, b) if b else None
        if isinstance(f, ast.Name) and f.id == "enumerate" and call.args:
            a0 = call.args[0]
            if isinstance(a0, ast.Call):
                b = self.iter_call_loc(a0, st)
            else:
                b = self.eval_loc(a0, st, quiet=True)
            return ("enumerate", b) if b else None
        if isinstance(f, ast.Name) and f.id == "zip":
            bs = []
            for a0 in call.args:
                if isinstance(a0, ast.Call):
                    bs.append(self.iter_call_loc(a0, st))
                elif isinstance(a0, ast.Starred):
                    return None
                else:
                    bs.append(self.eval_loc(a0, st, quiet=True))
            return ("zip", tuple(bs)) if any(bs) else None
        if isinstance(f, ast.Name) and f.id in ("list", "tuple", "reversed", "iter") and call.args and f.id != "reversed":
            a0 = call.args[0]
            if isinstance(a0, ast.Call):
                return self.iter_call_loc(a0, st)
            return self.eval_loc(a0, st, quiet=True)
        return None

    def elem_locs(self, iloc, idx, key, st):
        """structure of locs for the loop target"""
        if iloc is None:
            return None
        if isinstance(iloc[0], str):
            tag, b = iloc
            if tag == "items":
                return ("T", [None, (b[0], b[1] + (key,))]) if key is not None else None
            if tag == "values":
                return (b[0], b[1] + (key,)) if key is not None else None
            if tag == "keys":
                return None
            if tag == "enumerate":
                return ("T", [None, self.elem_locs(b, idx, key, st)])
            if tag == "zip":
                return ("T", [self.elem_locs(x, idx, key, st) for x in b])
        if idx is None:
            return None
        return (iloc[0], iloc[1] + (idx,))

    def segments(self, v, st, iloc=None):
        """Iteration structure of value v: list of ('unit', value, idx) / ('for', n, f) / ('if', c, a, b)."""
        if v.op == "ref":
            v = self.ip.content(v.args[0], st)
        return self._segs(v, st, ZERO, iloc)

    def _segs(self, v, st, off, iloc=None):
        ip = self.ip
        if v.op == "ref":
            v = ip.content(v.args[0], st)
        if v.op == "emptydict":
            return []
        if v.op == "ite":
            return [("if", v.args[0], self._segs(v.args[1], st, off), self._segs(v.args[2], st, off))]
        if v.op == "seq":
            segs = []
            o = off
            for i in v.args[1:]:
                segs += self._item_segs(i, st, o, iloc)
                l = tm._item_len(i)
                o = add(o, l) if l is not None else opaque("offset")
            return segs
        if v.op == "upd" and kind(v) == "dict":
            ks = mk("keys", v)
            if ks.op == "seq":
                return self._segs(ks, st, off, iloc)
            v = ks
        if v.op == "const" and isinstance(v.args[0], str):
            return [("unit", const(c), add(off, const(i)), self.elem_locs(iloc, add(off, const(i)), None, st))
                    for i, c in enumerate(v.args[0])]
        if v.op == "const":
            return [("unit", opaque("iterate constant"), off, None)]
        if kind(v) == "dict":
            v = mk("keys", v)
        vf = self.val(v, st)

        def f(i, v=vf):
            e = getitem(v, i)
            return e, add(off, i), self.elem_locs(iloc, add(off, i), e, st)
        return [("for", length(vf), f)]

    def _item_segs(self, i, st, o, iloc):
        if i.op == "it":
            x = i.args[0]
            return [("unit", x, o, self.elem_locs(iloc, o, self._key_of(x), st))]
        if i.op == "pair":
            return [("unit", i.args[0], o, None)]
        if i.op == "sp":
            return self._segs(i.args[0], st, o, iloc)
        if i.op == "if":
            a, b = [], []
            oo = o
            for j in i.args[1].args:
                a += self._item_segs(j, st, oo, iloc)
                l = tm._item_len(j)
                oo = add(oo, l) if l is not None else opaque("offset")
            oo = o
            for j in i.args[2].args:
                b += self._item_segs(j, st, oo, iloc)
                l = tm._item_len(j)
                oo = add(oo, l) if l is not None else opaque("offset")
            return [("if", i.args[0], a, b)]
        if i.op == "for":
            vs, (n, *its) = unbind(i)
            if len(its) == 1 and its[0].op == "it":
                e, v0 = its[0].args[0], vs[0]

                def f(idx, e=e, v0=v0):
                    x = subst(e, {v0.args[0]: idx})
                    return x, add(o, idx), self.elem_locs(iloc, add(o, idx), self._key_of(x), st)
                return [("for", n, f)]
            # nested structure
            v0 = vs[0]

            def nest(idx, its=its, v0=v0):
                out = []
                for j in its:
                    out += self._item_segs(subst(j, {v0.args[0]: idx}), st, opaque("offset"), None)
                return out
            return [("nest", n, nest)]
        return [("unit", opaque("iter-item"), o, None)]

    def _key_of(self, x):
        # for items(): element is tuple (k, v)
        if x.op == "seq" and len(x.args) == 3 and x.args[1].op == "it":
            return x.args[1].args[0]
        return x

    def iter_items(self, v, st):
        """Items describing iteration over v (for list(), extend, *splat)."""
        c = v
        if v.op == "ref":
            c = self.ip.content(v.args[0], st)
        if c.op == "seq":
            return list(c.args[1:])
        if c.op == "emptydict":
            return []
        if c.op == "ite":
            return mk_if(c.args[0], self.iter_items(c.args[1], st), self.iter_items(c.args[2], st))
        if kind(c) == "dict" or c.op == "upd" and kind(c) == "dict":
            k = mk("keys", c)
            if k.op == "seq":
                return list(k.args[1:])
            return [raw("sp", self.val(k, st))]
        if c.op == "const" and isinstance(c.args[0], str):
            return [it(const(x)) for x in c.args[0]]
        return [raw("sp", self.val(c, st))]

    def run_segments(self, segs, st, run, orelse=()):
        """run(st, value, loc) -> Out. Sequentially process the segments."""
        out = Out()
        cur, guard = st, TRUE
        brk = None
        for sg in segs:
            if sg[0] == "unit":
                o = run(cur, sg[1], sg[3])
            elif sg[0] == "for":
                o = self.summarise(sg[1], cur, lambda s, i, f=sg[2]: run(s, f(i)[0], f(i)[2]))
            elif sg[0] == "nest":
                o = self.summarise(sg[1], cur, lambda s, i, f=sg[2]: self.run_segments(f(i), s, run))
            elif sg[0] == "if":
                s1, s2 = cur.copy(), cur.copy()
                o = self.join(sg[1], self.run_segments(sg[2], s1, run), self.run_segments(sg[3], s2, run))
            # continue == fall for the iteration
            if o.cont is not None:
                c = o.cont
                o.cont = None
                self.add_out(o, "fall", c)
            for k in ("ret", "exc"):
                x = getattr(o, k)
                if x is not None:
                    self.add_out(out, k, (band(guard, x[0]), x[1], x[2]))
            if o.brk is not None:
                b = (band(guard, o.brk[0]), o.brk[1], NONE)
                if brk is None:
                    brk = b
                else:
                    brk = (bor(brk[0], b[0]), self.ip.merge(brk[0], brk[1], b[1]), NONE)
            if o.fall is None:
                cur = None
                break
            guard = band(guard, o.fall[0])
            cur = o.fall[1]
        if cur is not None:
            out.fall = (guard, cur, NONE)
            if orelse:
                o = self.exec_block(orelse, cur, TRUE)
                out.fall = None
                for k in ("ret", "exc", "brk", "cont", "fall"):
                    x = getattr(o, k)
                    if x is not None:
                        self.add_out(out, k, (band(guard, x[0]), x[1], x[2]))
        if brk is not None:
            self.add_out(out, "fall", brk)
        return out

    def summarise(self, n, st, run):
        """Loop `for i < n: run(st,i)` in index form."""
        ip = self.ip
        if n.op == "const" and isinstance(n.args[0], int) and n.args[0] <= 16:
            out = Out()
            cur, guard = st, TRUE
            brk = None
            for k in range(n.args[0]):
                o = run(cur, const(k))
                if o.cont is not None:
                    c = o.cont
                    o.cont = None
                    self.add_out(o, "fall", c)
                for kk in ("ret", "exc", "brk"):
                    x = getattr(o, kk)
                    if x is not None:
                        self.add_out(out, kk, (band(guard, x[0]), x[1], x[2]))
                if o.fall is None:
                    return out
                guard = band(guard, o.fall[0])
                cur = o.fall[1]
            out.fall = (guard, cur, NONE)
            return out
        i = fresh("i")
        tm.RANGE[i.args[0]] = n
        ip.loopvars.append(i)
        try:
            mod_v, mod_a = set(), set()
            ph = {}
            for attempt in range(5):
                s0 = st.copy()
                ph = {}
                for (fid, nm) in mod_v:
                    p = fresh("P")
                    ph[("v", fid, nm)] = p
                    init = st.frames[fid][nm][0]
                    ip.origin[p.id] = init
                    if init.op in ("ref", "seq", "upd", "emptydict"):
                        self.typed_placeholder(p, self.val(init, st))   # a variable holding a list keeps its kind
                    cell = p
                    if init.op == "ref" and p.args[0] in tm.VARKIND:
                        cell = ip.alloc(s0, p)
                        if init.args[0] in st.ext:
                            s0.ext[cell.args[0]] = st.ext[init.args[0]]
                    s0.frames[fid][nm] = (cell, None)
                for a in mod_a:
                    p = fresh("P")
                    ph[("a", a)] = p
                    s0.store[a] = self.typed_placeholder(p, st.store.get(a))
                    ip.origin[p.id] = st.store.get(a)
                base = s0.copy()
                o = run(s0, i)
                if o.cont is not None:
                    c = o.cont
                    o.cont = None
                    self.add_out(o, "fall", c)
                states = [x[1] for x in (o.fall, o.brk, o.ret, o.exc) if x is not None]
                nv, na = set(mod_v), set(mod_a)
                for s1 in states:
                    for fid, d in st.frames.items():
                        for nm, v in d.items():
                            w = s1.frames.get(fid, {}).get(nm)
                            b = base.frames[fid].get(nm)
                            if w is not None and b is not None and w[0] is not b[0]:
                                nv.add((fid, nm))
                    for a in st.store:
                        if s1.store.get(a) is not base.store.get(a):
                            na.add(a)
                if nv == mod_v and na == mod_a:
                    break
                mod_v, mod_a = nv, na
            return self.close_loop(n, i, st, o, ph)
        finally:
            ip.loopvars.pop()

    def typed_placeholder(self, p, c):
        k = kind(c) if c is not None else None
        if k in ("list", "dict", "df", "series", "set"):
            tm.VARKIND[p.args[0]] = k
        return p

    def local_val(self, v, s, st):
        """Freeze refs allocated inside the loop (not in st)."""
        if "ref" not in v.flags:
            return v
        return self._lv(v, s, st, ())

    def _lv(self, v, s, st, seen):
        if "ref" not in v.flags:
            return v
        if v.op == "ref":
            a = v.args[0]
            if a in st.store or a in self.ip.modstate.store and a not in s.store or a in seen:
                return v
            return self._lv(s.store[a], s, st, seen + (a,))
        if v.op == "fn":
            return self.ip.reify(v, s) if self.fn_local(v, s, st) else v
        if v.op in BIND or v.op == "lam":
            vs, args = unbind(v)
            return rebind(v, vs, [self._lv(a, s, st, seen) if isinstance(a, T) else a for a in args])
        return mk(v.op, *[self._lv(a, s, st, seen) if isinstance(a, T) else a for a in v.args])

    def fn_local(self, v, s, st):
        f = self.ip.fns[v.args[0]]
        if f.py is not None:
            return False
        return any(x not in st.frames and x in s.frames for x in f.scopes)

    def close_loop(self, n, i, st, o, ph):
        ip = self.ip
        phs = {p.args[0]: k for k, p in ph.items()}
        res = st.copy()
        anyret = FALSE
        out = Out()
        if o.fall is None and o.brk is None and o.ret is None and o.exc is not None:
            # body always raises
            sE = o.exc[1]
            effN = self.local_val(sE.store[EFF], sE, st)
            res.store[EFF] = self.loop_content(n, i, st.store[EFF], effN, ph.get(("a", EFF)), phs)
            out.fall = (TRUE, res, NONE)
            return out
        main = o.fall or o.cont
        if main is None:
            main = (FALSE, (o.brk or o.ret or o.exc)[1], NONE)
        s1 = main[1]
        # effects of raising iterations are merged into the log
        effn = s1.store[EFF]
        for x in (o.exc,):
            if x is not None:
                effn = ip.merge_content(x[0], x[1].store[EFF], effn)
        ind = self.induction(i, st, s1, ph)

        def LV(v, s, st):
            v = self.local_val(v, s, st)
            return subst(v, ind) if ind else v
        gret = subst(o.ret[0], ind) if o.ret else FALSE
        gbrk = subst(o.brk[0], ind) if o.brk else FALSE
        early = bor(gret, gbrk)
        for (key, p) in ph.items():
            if p.args[0] in ind:
                _, fid, nm = key
                init = st.frames[fid][nm][0]
                w = s1.frames[fid][nm][0]
                d = subst(sub(self.local_val(w, s1, st), p), ind)
                newv = add(self.val(init, st), mk_sum(i, n, d))
                if o.brk is not None:
                    newv = opaque("break", newv)
                res.frames[fid][nm] = (newv, None)
                continue
            if key[0] == "v":
                _, fid, nm = key
                init = st.frames[fid][nm][0]
                w = s1.frames.get(fid, {}).get(nm)
                N = LV(w[0], s1, st) if w else p
                newv = self.loop_value(n, i, init, N, p, phs, st)
                if o.brk is not None:
                    wb = o.brk[1].frames.get(fid, {}).get(nm)
                    NB = LV(wb[0], o.brk[1], st)
                    newv = self.break_value(n, i, gbrk, N, NB, p, init, newv, phs)
                res.frames[fid][nm] = (newv, None)
            else:
                a = key[1]
                init = st.store[a]
                c = effn if a == EFF else s1.store[a]
                N = LV(c, s1, st)
                newc = self.loop_content(n, i, init, N, p, phs)
                if o.brk is not None and a != EFF:
                    NB = LV(o.brk[1].store[a], o.brk[1], st)
                    newc = self.break_value(n, i, gbrk, N, NB, p, init, newc, phs)
                elif early is not FALSE and a != EFF and not (N is p):
                    newc = opaque("early-exit-mutation", newc)
                res.store[a] = newc
        # variables first assigned in the loop
        for fid, d in s1.frames.items():
            if fid in st.frames:
                for nm, (w, lc) in d.items():
                    if nm not in st.frames[fid]:
                        N = self.val(w, s1) if w.op == "ref" else self.local_val(w, s1, st)
                        N = subst(N, ind) if ind else N
                        res.frames[fid][nm] = (self.last_value(n, i, N, phs), None)
            else:
                pass
        # keep allocated objects reachable by frozen values only; frames of inlined calls dropped
        anyret = mk_any(i, n, gret)
        if o.ret is not None:
            rv = subst(self.val(o.ret[2], o.ret[1]), ind)
            if i.args[0] in rv.free or any(p.args[0] in rv.free for p in ph.values()):
                rv = bind("find", [i], [n, gret, rv, NONE])
            rs = st.copy()
            rs.store[EFF] = res.store[EFF]
            if anyret is not FALSE:
                out.ret = (anyret, rs, rv)
        g = bnot(anyret)
        if g is not FALSE:
            out.fall = (g, res, NONE)
        return out

    def induction(self, i, st, s1, ph):
        """variables changed by the same rule in every iteration: placeholder -> value at the start of iteration i"""
        steps = {}
        names = {p.args[0] for p in ph.values()}
        for key, p in ph.items():
            if key[0] != "v":
                continue
            w = s1.frames.get(key[1], {}).get(key[2])
            if w is None:
                continue
            N = self.local_val(w[0], s1, st)
            if N.op != "poly":
                continue
            d = sub(N, p)
            if names & d.free or "ref" in d.flags:
                continue
            steps[p.args[0]] = (key, d)
        out = {}
        for nm, (key, d) in steps.items():
            init = self.val(st.frames[key[1]][key[2]][0], st)
            if i.args[0] in d.free:
                j = fresh("i")
                out[nm] = add(init, mk_sum(j, i, subst(d, {i.args[0]: j})))
            else:
                out[nm] = add(init, mul(i, d))
        return out

    def break_value(self, n, i, gbrk, N, NB, p, init, normal, phs):
        anyb = mk_any(i, n, gbrk)
        if N is p:
            if not any(q in NB.free for q in phs if q != p.args[0]) and p.args[0] not in NB.free:
                if i.args[0] in NB.free:
                    NB = bind("find", [i], [n, gbrk, NB, NONE])
                return ite(anyb, NB, init)
            if NB is p:
                return init
        return opaque("break", N, NB, init)

    def last_value(self, n, i, N, phs):
        if i.args[0] not in N.free and not any(q in N.free for q in phs):
            return N
        if any(q in N.free for q in phs):
            return opaque("loopvar-after", subst_all(N, phs))
        return subst(N, {i.args[0]: sub(n, ONE)})

    def loop_value(self, n, i, init, N, p, phs, st):
        if N is p:
            return init
        others = [q for q in phs if q != p.args[0] and q in N.free]
        if p.args[0] not in N.free and not others:
            # plain overwrite: last iteration wins (init if none)
            lv = subst(N, {i.args[0]: sub(n, ONE)})
            return ite(gt(n, ZERO), lv, init) if init.op not in ("ref",) else lv
        initv = self.val(init, st)
        if not others:
            d = sub(N, p) if N.op in ("poly",) else None
            if d is not None and p.args[0] not in d.free:
                return add(initv, mk_sum(i, n, d))
            if N.op == "ite":
                # conditional overwrite / conditional sum
                e = self.cond_sum(N, p)
                if e is not None:
                    return add(initv, mk_sum(i, n, e))
            if N.op == "seq" or N.op == "ite" and self.appended(N, p) is not None:
                r = self.loop_content(n, i, initv, N, p, phs)
                return r
            if N.op == "upd" and N.args[0] is p and all(x.op == "pair" and p.args[0] not in x.free for x in N.args[1:]):
                return upd(initv, [mk_for(i, n, list(N.args[1:]))])
            return bind("fold", [i, p], [n, N, initv])
        return opaque("loop", n, subst_all(N, phs), initv)

    def cond_sum(self, N, p):
        if N is p:
            return ZERO
        if N.op == "ite":
            a, b = self.cond_sum(N.args[1], p), self.cond_sum(N.args[2], p)
            if a is None or b is None or p.args[0] in N.args[0].free:
                return None
            return ite(N.args[0], a, b)
        if N.op == "poly":
            d = sub(N, p)
            if p.args[0] not in d.free:
                return d
        return None

    def loop_content(self, n, i, init, N, p, phs):
        if p is None or N is p:
            return init if p is not None else N
        others = {q for q in phs if q != p.args[0]}
        if others & N.free:
            return opaque("loop", n, subst_all(N, phs), self_noref(init))
        if N.op == "ite":
            its = self.appended(N, p)
            if its is not None:
                N = raw("seq", init.args[0] if init.op == "seq" else "list", raw("sp", p), *its)
        if N.op == "seq":
            items = N.args[1:]
            if items and items[0].op == "sp" and items[0].args[0] is p and any(p.args[0] in x.free for x in items[1:]) \
                    and all(x.op == "it" for x in items[1:]) and init.op == "seq":
                # the length of the growing list counts the iterations
                k = tm.add(tm.length(init), tm.mul(const(len(items) - 1), i))
                items = (items[0], *[tm.replace(x, {tm.length(p).id: k}) for x in items[1:]])
            if items and items[0].op == "sp" and items[0].args[0] is p and not any(p.args[0] in x.free for x in items[1:]):
                base = list(init.args[1:]) if init.op == "seq" else [raw("sp", init)]
                return seq(init.args[0] if init.op == "seq" else "list", base + [mk_for(i, n, list(items[1:]))])
            if items and items[-1].op == "sp" and items[-1].args[0] is p and not any(p.args[0] in x.free for x in items[:-1]):
                # prepend loop: reversed order
                return opaque("prepend-loop", n, N, init)
        if N.op == "upd" and N.args[0] is p:
            items = N.args[1:]
            r = self.close_items(n, i, init, items, p)
            if r is not None:
                return r
        if p.args[0] not in N.free:
            lv = subst(N, {i.args[0]: sub(n, ONE)})
            return ite(gt(n, ZERO), lv, init)
        d = sub(N, p) if N.op == "poly" else None
        if d is not None and p.args[0] not in d.free:
            return add(init, mk_sum(i, n, d))
        return bind("fold", [i, p], [n, N, init])

    def appended(self, N, p):
        """items appended to p by a decision tree of p ++ items, or None"""
        if N is p:
            return []
        if N.op == "ite":
            if p.args[0] in N.args[0].free:
                return None
            a, b = self.appended(N.args[1], p), self.appended(N.args[2], p)
            if a is None or b is None:
                return None
            return mk_if(N.args[0], a, b)
        if N.op == "seq" and len(N.args) > 1 and N.args[1].op == "sp" and N.args[1].args[0] is p \
                and not any(p.args[0] in x.free for x in N.args[2:]):
            return list(N.args[2:])
        return None

    def group_append(self, n, i, init, k, v, p):
        """d[k(i)].append(..) with repeated keys: per key of d, the items of the iterations with that key."""
        sub0 = self.ip.stepget(p, k)
        p2 = fresh("P")
        v2 = replace(v, {sub0.id: p2})
        if p.args[0] in v2.free:
            return None
        its = self.appended(v2, p2)
        if its is None:
            return None
        if not (init.op == "upd" and init.args[0] is EMPTYDICT and len(init.args) == 2 and init.args[1].op == "for"):
            return opaque("group", n, init)
        vs, (m, *prs) = unbind(init.args[1])
        if len(prs) != 1 or prs[0].op != "pair":
            return opaque("group", n, init)
        kj, vj = prs[0].args
        new = concat(vj, seq("list", [mk_for(i, n, mk_if(eq(k, kj), its, []))]))
        return upd(EMPTYDICT, [mk_for(vs[0], m, [pair(kj, new)])])

    def close_items(self, n, i, init, items, p):
        """upd(P, items) per iteration -> upd(init, for i: items)"""
        if not any(p.args[0] in x.free for x in items):
            return upd(init, [mk_for(i, n, list(items))])
        if len(items) == 1 and items[0].op == "pair" and tm.nonunique(items[0].args[0], i):
            return self.group_append(n, i, init, *items[0].args, p)
        out_const = []
        loop_items = []
        for x in items:
            if p.args[0] not in x.free:
                loop_items.append(x)
                continue
            if x.op == "pair" and x.args[0].op in ("const", "attr_") and p.args[0] not in x.args[0].free:
                k, v = x.args
                sub0 = self.ip.stepget(p, k)
                p2 = fresh("P")
                v2 = replace(v, {sub0.id: p2})
                if p.args[0] in v2.free:
                    return None
                nv = self.loop_content(n, i, self.ip.stepget(init, k), v2, p2, {p2.args[0]: 1})
                out_const.append(pair(k, nv))
                continue
            if x.op == "pair" and i.args[0] in x.args[0].free and p.args[0] not in x.args[0].free:
                k, v = x.args
                sub0 = self.ip.stepget(p, k)
                v2 = replace(v, {sub0.id: self.ip.stepget(init, k)})
                if p.args[0] in v2.free:
                    return None
                loop_items.append(pair(k, v2))
                continue
            if x.op == "for":
                # nested loop updating own keys: rewrite self references
                m = {}
                for t in walk(x):
                    if t.op == "getitem" and t.args[0] is p:
                        m[t.id] = getitem(init, t.args[1]) if not tm._bvs(t) else None
                vs, (n2, *its) = unbind(x)
                its2 = []
                ok = True
                for y in its:
                    if y.op == "pair" and p.args[0] not in y.args[0].free:
                        sub0 = self.ip.stepget(p, y.args[0])
                        v2 = replace(y.args[1], {sub0.id: self.ip.stepget(init, y.args[0])})
                        if p.args[0] in v2.free:
                            ok = False
                        its2.append(pair(y.args[0], v2))
                    else:
                        ok = ok and p.args[0] not in y.free
                        its2.append(y)
                if not ok or p.args[0] in n2.free:
                    return None
                loop_items.append(mk_for(vs[0], n2, its2))
                continue
            if x.op == "if":
                a = self.close_items_list(x.args[1].args, init, p, i)
                b = self.close_items_list(x.args[2].args, init, p, i)
                if a is None or b is None or p.args[0] in x.args[0].free:
                    return None
                loop_items += mk_if(x.args[0], a, b)
                continue
            return None
        return upd(init, out_const + ([mk_for(i, n, loop_items)] if loop_items else []))

    def close_items_list(self, items, init, p, i):
        out = []
        for x in items:
            if p.args[0] not in x.free:
                out.append(x)
            elif x.op == "pair" and p.args[0] not in x.args[0].free and i.args[0] in x.args[0].free:
                sub0 = self.ip.stepget(p, x.args[0])
                v2 = replace(x.args[1], {sub0.id: self.ip.stepget(init, x.args[0])})
                if p.args[0] in v2.free:
                    return None
                out.append(pair(x.args[0], v2))
            else:
                return None
        return out

    # ------------------------------------------------------- expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return opaque("expr " + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        if isinstance(e.value, complex):
            return opaque("complex")
        if e.value is Ellipsis:
            return raw("ellipsis")
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)[0]

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Tuple(self, e, st):
        return seq("tuple", self.elts(e.elts, st))

    def elts(self, elts, st):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items += self.iter_items(self.eval(x.value, st), st)
            else:
                items.append(it(self.eval(x, st)))
        return items

    def e_List(self, e, st):
        return self.ip.alloc(st, seq("list", self.elts(e.elts, st)))

    def e_Set(self, e, st):
        return raw("setof", seq("list", [it(self.val(i.args[0], st)) if i.op == "it" else i for i in self.elts(e.elts, st)]))

    def e_Dict(self, e, st):
        items = []
        cur = EMPTYDICT
        ext = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.eval(v, st)
                if c.op == "ref":
                    if c.args[0] in st.ext:
                        ext = st.ext[c.args[0]]
                    c = self.ip.content(c.args[0], st)
                elif self.ip.ext_rooted(c):
                    ext = (self.ip.ext_rooted(c), 0)
                cur = self.ip.lib.dict_merge(cur, c)
            else:
                cur = upd(cur, [pair(self.val(self.eval(k, st), st), self.eval(v, st))])
        r = self.ip.alloc(st, cur)
        if ext and ext[1] is not None:
            st.ext[r.args[0]] = (ext[0], ext[1] + 1)
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(self.eval(v.value, st), st)
                if v.conversion == 114:
                    x = raw("repr", x)
                elif v.format_spec is not None:
                    x = raw("fmt", x, self.eval(v.format_spec, st))
                parts.append(x)
        return cat(*parts)

    def e_Lambda(self, e, st):
        return self.make_fn(e, st, f"<lambda>")

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        a, b = self.eval(e.body, s1), self.eval(e.orelse, s2)
        self.ip.assign_state(st, self.ip.merge(c, s1, s2))
        return ite(c, a, b)

    def e_BoolOp(self, e, st):
        vals = [e.values[0]]
        acc = self.eval(e.values[0], st)
        for x in e.values[1:]:
            c = truth(self.val(acc, st))
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return acc
                if c is TRUE:
                    acc = self.eval(x, st)
                    continue
                s1 = st.copy()
                b = self.eval(x, s1)
                bv = b
                av = self.val(acc, st)
                if is_boolterm(av) or True:
                    a_else = FALSE if is_boolterm(av) else acc
                self.ip.assign_state(st, self.ip.merge(c, s1, st.copy()))
                acc = ite(c, bv, a_else)
            else:
                if c is TRUE:
                    return acc
                if c is FALSE:
                    acc = self.eval(x, st)
                    continue
                s1 = st.copy()
                b = self.eval(x, s1)
                av = self.val(acc, st)
                a_then = TRUE if is_boolterm(av) else acc
                self.ip.assign_state(st, self.ip.merge(c, st.copy(), s1))
                acc = ite(c, a_then, b)
        return acc

    def e_UnaryOp(self, e, st):
        v = self.val(self.eval(e.operand, st), st)
        if isinstance(e.op, ast.Not):
            return bnot(truth(v))
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(v.args[0], float):
                return const(-v.args[0])
            if v.op == "lib" and v.args[0] == "np.inf":
                return const(float("-inf"))
            return tm.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_boolterm(v):
                return bnot(v)
            return self.ip.lib.invert(v)
        return opaque("unary")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        opn = BINOPS[type(e.op)]
        if opn == "add":
            ca, cb = self.shallow(a, st), self.shallow(b, st)
            if (kind(ca) in ("list", "tuple") or kind(cb) in ("list", "tuple")) and ca.op != "const" and cb.op != "const":
                k = kind(ca) if kind(ca) in ("list", "tuple") else kind(cb)
                r = seq(k, as_items(ca) + as_items(cb))
                return self.ip.alloc(st, r) if k == "list" else r
        v = self.binop(opn, self.val(a, st), self.val(b, st), st)
        if kind(v) in ("list", "dict", "set"):
            return self.ip.alloc(st, v)
        return v

    def shallow(self, v, st):
        """content of the object v refers to, keeping references to its elements"""
        if v.op == "ref":
            return self.ip.content(v.args[0], st)
        if v.op == "ite" and "ref" in v.flags and not is_boolterm(v):
            return self.ip.merge_content(v.args[0], self.shallow(v.args[1], st), self.shallow(v.args[2], st))
        return v

    def binop(self, opn, a, b, st):
        if opn == "add":
            return add(a, b)
        if opn == "sub":
            if kind(a) == "set" or a.op == "setof":
                return self.ip.lib.set_difference(a, b)
            return tm.sub(a, b)
        if opn == "mul":
            return mul(a, b)
        if opn == "div":
            return tm.div(a, b)
        if opn == "pow":
            return tm.power(a, b)
        if opn == "matmul":
            return self.ip.lib.np_dot(a, b)
        if opn in ("floordiv", "mod"):
            if opn == "mod" and kind(a) == "str":
                return raw("strfmt", a, b)
            if is_const(a) and is_const(b) and isinstance(a.args[0], int) and isinstance(b.args[0], int) and b.args[0]:
                return const(a.args[0] // b.args[0] if opn == "floordiv" else a.args[0] % b.args[0])
            if opn == "floordiv" and is_const(b) and isinstance(b.args[0], int) and b.args[0] > 0 and a.op == "poly" and tm.is_intval(a):
                p, k = tm.to_poly(a), b.args[0]
                whole = {m: c / k for m, c in p.items() if c.denominator == 1 and c % k == 0}
                if whole:
                    rest = tm.from_poly({m: c for m, c in p.items() if m not in whole})
                    r = const(rest.args[0] // k) if is_const(rest) else raw(opn, rest, b)
                    return tm.add(tm.from_poly(whole), r)
            return raw(opn, a, b)
        if opn == "band":
            if kind(a) == "set" or a.op == "setof":
                return raw("set_and", *sorted((a, b), key=lambda t: t.id))
            return band(self.ip.lib.maskify(a), self.ip.lib.maskify(b))
        if opn == "bor":
            if kind(a) == "dict" or kind(b) == "dict" or a.op == "upd":
                return self.ip.lib.dict_merge(a, b)
            if kind(a) == "set" or a.op == "setof":
                return raw("set_or", *sorted((a, b), key=lambda t: t.id))
            return bor(self.ip.lib.maskify(a), self.ip.lib.maskify(b))
        return raw(opn, a, b)

    def e_Compare(self, e, st):
        l = self.val(self.eval(e.left, st), st)
        acc = TRUE
        for op, r in zip(e.ops, e.comparators):
            rv = self.val(self.eval(r, st), st)
            acc = band(acc, self.compare(op, l, rv))
            l = rv
        return acc

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and y.args[0] is not None and not isinstance(y.args[0], bool) and x.op != "const" or y.op == "cat":
                    r = raw("same_object", x, y)        # equal numbers and texts need not be the same object
                    return r if isinstance(op, ast.Is) else bnot(r)
            return eq(a, b) if isinstance(op, ast.Is) else bnot(eq(a, b))
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return bnot(eq(a, b))
        if isinstance(op, ast.In):
            return mk("in", a, b)
        if isinstance(op, ast.NotIn):
            return bnot(mk("in", a, b))
        if a.op == b.op == "setof" and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            x, y = (a, b) if isinstance(op, (ast.Lt, ast.LtE)) else (b, a)
            r = tm.set_le(x, y)
            return r if isinstance(op, (ast.LtE, ast.GtE)) else band(r, bnot(tm.set_le(y, x)))
        if isinstance(op, ast.Lt):
            return tm.lt(a, b)
        if isinstance(op, ast.LtE):
            return tm.le(a, b)
        if isinstance(op, ast.Gt):
            return tm.gt(a, b)
        if isinstance(op, ast.GtE):
            return tm.ge(a, b)

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.val(self.eval(x, st), st)
        return slice_(f(e.lower), f(e.upper), f(e.step))

    def eval_index(self, s, st):
        return self.eval(s, st)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        k = self.val(self.eval_index(e.slice, st), st)
        c = b
        if b.op == "ref":
            c = self.ip.content(b.args[0], st)
        if c.op == "seq" and k.op == "slice" and kind(c) == "list":
            return self.ip.alloc(st, getitem(c, k))
        if "ref" in c.flags and c.op in ("upd", "seq"):
            v = getitem(c, k)
            if v.op == "getitem" and "ref" in v.flags:
                v = self.val(v, st)
            return v
        r = self.ip.lib.index(self.val(c, st), k)
        return r

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st, e.value)

    def getattr(self, b, attr, st, expr=None):
        ip = self.ip
        if b.op == "mod":
            return ip.module_attr(b.args[0], attr, st)
        if b.op == "lib":
            return ip.lib.lib_attr(b.args[0], attr)
        if b.op == "fn":
            f = ip.fns[b.args[0]]
            if attr in getattr(f, "attrs", {}):
                return f.attrs[attr]
            if attr in ("__name__", "__qualname__"):
                return ip.fn_name(b, st)
            if f.wrapped is not None:
                return self.getattr(f.wrapped, attr, st)
            return opaque(f"attribute {attr} of function {f.name}")
        c = b
        if b.op == "ref":
            c = ip.content(b.args[0], st)
        if c.op in ("mod", "lib", "fn"):
            return self.getattr(c, attr, st, expr)
        if c.op == "partial" and attr == "func":
            return c.args[0]
        if c.op == "upd" and any(i.op == "pair" and i.args[0].op == "attr_" and i.args[0].args[0] == attr for i in c.args[1:]):
            for i in reversed(c.args[1:]):
                if i.op == "pair" and i.args[0].op == "attr_" and i.args[0].args[0] == attr:
                    return i.args[1]
        r = ip.lib.attr(ip, c, attr, st)
        if r is not None:
            return r
        # method reference bound to object
        return raw("bound", attr, b)

    def e_Call(self, e, st):
        ip = self.ip
        f = e.func
        obj_loc = None
        if isinstance(f, ast.Attribute):
            ob = self.eval(f.value, st)
            fn = self.getattr_call(ob, f.attr, st, f.value)
            if fn.op == "bound":
                if ob.op == "ref":
                    obj_loc = (ob.args[0], ())
                else:
                    obj_loc = self.eval_loc(f.value, st, quiet=True)
                    if isinstance(f.value, ast.Name) and (obj_loc is None or f.attr == "update" and of_data(obj_loc)):
                        # (traces of a figure: the figure itself is not updated)
                        obj_loc = ("name", self, f.value.id)
        else:
            fn = self.eval(f, st)
        args, kwargs, kwsplat, varsplat = [], {}, None, None
        arglocs = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                its = self.iter_items(v, st)
                if all(x.op == "it" for x in its):
                    args += [x.args[0] for x in its]
                    arglocs += [None] * len(its)
                else:
                    its2 = norm_items(its)
                    while its2 and its2[0].op == "it":
                        args.append(its2.pop(0).args[0])
                    varsplat = seq("tuple", its2) if not (len(its2) == 1 and its2[0].op == "sp") else its2[0].args[0]
            else:
                if varsplat is not None:
                    varsplat = concat(varsplat, seq("tuple", [it(self.val(self.eval(a, st), st))]))
                    continue
                v = self.eval(a, st)
                args.append(v)
                arglocs.append(self.arg_loc(a, v, st))
        kwlocs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                c = ip.content(v.args[0], st) if v.op == "ref" else v
                if c.op == "upd" and c.args[0] is EMPTYDICT and all(
                        i.op == "pair" and i.args[0].op == "const" for i in c.args[1:]):
                    for i in c.args[1:]:
                        kwargs[i.args[0].args[0]] = i.args[1]
                elif c.op == "emptydict":
                    pass
                else:
                    cv = c
                    kwsplat = cv if kwsplat is None else ip.lib.dict_merge(kwsplat, cv)
            else:
                v = self.eval(k.value, st)
                kwargs[k.arg] = v
                if v.op != "ref":
                    kwlocs[k.arg] = self.arg_loc(k.value, v, st)
        locs = None
        if fn.op == "fn":
            fo = ip.fns[fn.args[0]]
            if fo.py is None:
                names = [x.arg for x in fo.node.args.posonlyargs + fo.node.args.args]
                locs = dict(zip(names, arglocs))
                locs.update(kwlocs)
        ip.curnode = (self.module, e.lineno)
        if fn.op == "lib" and fn.args[0] in ("np.fill_diagonal", "np.copyto", "np.put", "np.place", "np.putmask"):
            # writes into its first argument
            vals = dict(zip(("a", "val"), args), **kwargs)
            target = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "a"), None)
            if target is not None and "a" in vals and kwsplat is None and varsplat is None:
                loc = (vals["a"].args[0], ()) if vals["a"].op == "ref" else self.eval_loc(target, st, quiet=True)
                name = fn.args[0]
                rest = [ip.val(v, st) for k, v in vals.items() if k != "a"]
                if name == "np.fill_diagonal" and len(rest) == 1 and "val" in vals:
                    f = lambda o: upd(ip.val(o, st), [pair(raw("call", "diagonal"), rest[0])])
                else:
                    f = lambda o: raw("upd", ip.val(o, st), raw("mutop", name, *rest))
                if loc is not None:
                    ip.mutate(loc, st, f)
                    return NONE
            ip.effect(st, "lost-mutation", fn.args[0], ip.val(args[0] if args else NONE, st))
            return NONE
        r = ip.call(fn, args, kwargs, st, kwsplat, varsplat, locs, obj_loc)
        if r.op == "ref" and (fn.op == "lib" and fn.args[0] in ("builtins.list", "builtins.tuple", "copy.copy") and len(e.args) == 1
                              or fn.op == "bound" and isinstance(f, ast.Attribute) and f.attr == "copy" and not e.args):
            src = self.eval_loc(e.args[0] if e.args else f.value, st, quiet=True)
            if src is not None and src[0] != "name" and src[0] != r.args[0] and kind(self.val(r, st)) in ("list", "dict", None):
                ip.views.setdefault(r.args[0], []).append(src)
                ip.views.setdefault(src[0], []).append((r.args[0], ()) if not src[1] else None)
        return r

    def getattr_call(self, ob, attr, st, expr):
        c = ob
        if ob.op == "ref":
            c = self.ip.content(ob.args[0], st)
        if c.op in ("mod", "lib", "fn"):
            return self.getattr(c, attr, st, expr)
        return raw("bound", attr, ob)

    # ------------------------------------------------------- comprehensions
    def comp(self, gens, st, emit):
        """Run nested generators; emit(frame, st) at innermost."""
        fid = self.ip.new_fid()
        fr = Frame(self.ip, self.module, fid, self.scopes + (fid,), self.name + ".<comp>")
        st.frames[fid] = {}

        def level(k, stx):
            if k == len(gens):
                emit(fr, stx)
                return fr.fall(stx)
            g = gens[k]
            ev = (self if k == 0 else fr)
            itv = ev.eval(g.iter, stx)
            iloc = ev.iter_call_loc(g.iter, stx) if isinstance(g.iter, ast.Call) else ev.eval_loc(g.iter, stx, quiet=True)
            segs = fr.segments(itv, stx, iloc)

            def run(s, v, loc):
                if loc is not None and isinstance(loc[0], str):
                    loc = loc
                fr.assign(g.target, v, s, loc)

                def filt(j, s2):
                    if j == len(g.ifs):
                        return level(k + 1, s2)
                    c = fr.cond(g.ifs[j], s2)
                    if c is TRUE:
                        return filt(j + 1, s2)
                    if c is FALSE:
                        return fr.fall(s2)
                    a, b = s2.copy(), s2.copy()
                    return fr.join(c, filt(j + 1, a), fr.fall(b))
                return filt(0, s)
            return fr.run_segments(segs, stx, run)
        o = level(0, st)
        s = o.fall[1]
        self.ip.assign_state(st, s)

    def e_ListComp(self, e, st, kind_="list"):
        acc = self.ip.alloc(st, seq(kind_, []))
        a = acc.args[0]

        def emit(fr, s):
            v = fr.eval(e.elt, s)
            c = s.store[a]
            s.store[a] = seq(kind_, as_items(c) + [it(v)])
        self.comp(e.generators, st, emit)
        c = st.store[a]
        if c.op != "seq":
            c = seq(kind_, as_items(c))
        st.store[a] = c
        return acc

    def e_GeneratorExp(self, e, st):
        r = self.e_ListComp(e, st)
        return r

    def e_SetComp(self, e, st):
        r = self.e_ListComp(e, st)
        return raw("setof", self.val(r, st))

    def e_DictComp(self, e, st):
        acc = self.ip.alloc(st, EMPTYDICT)
        a = acc.args[0]

        def emit(fr, s):
            k = fr.val(fr.eval(e.key, s), s)
            v = fr.eval(e.value, s)
            s.store[a] = upd(s.store[a], [pair(k, v)])
        self.comp(e.generators, st, emit)
        return acc

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else NONE
        acc = self.lookup("<yield>", st)[0]
        if acc.op == "ref":
            c = st.store[acc.args[0]]
            st.store[acc.args[0]] = seq("list", as_items(c) + [it(v)])
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        acc = self.lookup("<yield>", st)[0]
        c = st.store[acc.args[0]]
        st.store[acc.args[0]] = seq("list", as_items(c) + self.iter_items(v, st))
        return NONE


def subst_all(N, phs):
    return subst(N, {q: raw("hole", "carry") for q in phs})


def self_noref(t):
    return t


def ast_load(t):
    import copy
    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t2


# tuple-target location support: loc may be ("T", [locs])
_orig_assign = Frame.assign


def _assign(self, t, v, st, loc=None):
    if loc is not None and loc[0] == "T":
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
            vv = self.ip.content(v.args[0], st) if v.op == "ref" else v
            for i, e in enumerate(t.elts):
                lc = loc[1][i] if i < len(loc[1]) else None
                x = getitem(vv, const(i))
                _assign(self, e, x, st, lc)
            return
        loc = None
    if loc is not None and isinstance(loc[0], str):
        loc = None
    _orig_assign(self, t, v, st, loc)


Frame.assign = _assign
