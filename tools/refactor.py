"""Systematic behaviour-preserving edits of one module, checked in memory (development aid).

usage: refactor.py MODULE [-f FUNCTION] [-o OUT] [-j 8] [-k KINDS] [-v]
Every edit that an obligation reports (DIFF) is a false alarm to be looked at; UNK is a loss of reach.
"""
import argparse
import ast
import copy
import os
import sys
import time
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from engine import check as C, obligations as OB  # noqa: E402

NUMERIC = {"kalman_filters", "clipping", "transition_functions", "likelihood_function", "likelihood_function_debug", "qr", "parse_params"}


def names(node, ctx):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ctx):
            out.add(n.id)
    return out


def comp_vars(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            out |= names(n.target, ast.Store)
        if isinstance(n, ast.Lambda):
            out |= {a.arg for a in n.args.args}
    return out


def loads(nodes):
    out = set()
    for n in nodes:
        cv = comp_vars(n)
        out |= names(n, ast.Load)
        out |= {y.target.id for y in ast.walk(n) if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)}
    return out


def stores(nodes):
    out = set()

    def go(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            return
        if isinstance(n, ast.FunctionDef):
            out.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            go(c)
    for n in nodes:
        go(n)
    return out


def blocks(fn):
    """(list of statements) of fn, nested function bodies excluded"""
    stack = [fn.body]
    while stack:
        b = stack.pop()
        yield b
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                x = getattr(s, f, None)
                if x:
                    stack.append(x)
            for h in getattr(s, "handlers", []):
                stack.append(h.body)


def exits(s):
    return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break))


def has(node, types):
    return any(isinstance(n, types) for n in ast.walk(node))


def pure_assign(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(s.value, (ast.Yield, ast.Await, ast.NamedExpr))


FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
NEGC = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
L, S = ast.Load(), ast.Store()


def nm(x, ctx=L):
    return ast.Name(x, ctx)


def is_stringy(n):
    return isinstance(n, (ast.JoinedStr, ast.List, ast.ListComp, ast.Tuple)) or isinstance(n, ast.Constant) and isinstance(n.value, str) or \
        isinstance(n, ast.BinOp) and (is_stringy(n.left) or is_stringy(n.right)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "str", "tuple")


def toplevel_exprs(s):
    """expressions of statement s that are evaluated exactly once and unconditionally: (parent, field, index, node)"""
    out = []

    def go(parent):
        for f, v in ast.iter_fields(parent):
            for i, n in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(n, ast.keyword):
                    go(n)
                    continue
                if not isinstance(n, ast.expr):
                    continue
                if isinstance(parent, ast.BoolOp) and i > 0 or isinstance(parent, ast.IfExp) and f != "test" or isinstance(parent, ast.Compare) and f == "comparators" and i > 0:
                    continue
                ctx = getattr(n, "ctx", L)
                if isinstance(ctx, ast.Load):
                    out.append((parent, f, i if isinstance(v, list) else None, n))
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                go(n)
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
        go(s)
    elif isinstance(s, (ast.If,)):
        w = ast.Expr(s.test)
        go(w)
        out = [(s, "test", None, n) if p is w else (p, f, i, n) for p, f, i, n in out]
    elif isinstance(s, ast.For):
        w = ast.Expr(s.iter)
        go(w)
        out = [(s, "iter", None, n) if p is w else (p, f, i, n) for p, f, i, n in out]
    return out


def setf(p, f, i, new):
    if i is None:
        setattr(p, f, new)
    else:
        getattr(p, f)[i] = new


def variants(tree, mod):
    """yield (function, line, kind, text, apply); apply() edits tree in place and returns nothing"""
    sigs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
        local = params | stores([fn])
        fdefs = {z.name for z in ast.walk(fn) if isinstance(z, ast.FunctionDef) and z is not fn}
        nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]

        def m(kind, node, text, apply):
            return fn.name, getattr(node, "lineno", 0), kind, text, apply

        for b in blocks(fn):
            doc = b is fn.body and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant)
            lo = 1 if doc else 0
            for k, s in enumerate(b):
                if k < lo:
                    continue
                src = ast.unparse(s).split("\n")[0][:80]
                # --- if / else
                if isinstance(s, ast.If) and s.orelse:
                    def ap(s=s):
                        s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
                    yield m("negif", s, src, ap)
                if isinstance(s, ast.If) and not s.orelse and s.body and exits(s.body[-1]) and k + 1 < len(b):
                    def ap(s=s, b=b, k=k):
                        s.orelse = b[k + 1:]
                        del b[k + 1:]
                    yield m("elsify", s, src, ap)
                if isinstance(s, ast.If) and s.orelse and exits(s.body[-1]):
                    def ap(s=s, b=b, k=k):
                        b[k + 1:k + 1] = s.orelse
                        s.orelse = []
                    yield m("unelse", s, src, ap)
                if isinstance(s, ast.If) and s.orelse and len(s.body) == len(s.orelse) == 1 and all(
                        isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) for x in (s.body[0], s.orelse[0])) and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                    def ap(s=s, b=b, k=k):
                        b[k] = ast.Assign([s.body[0].targets[0]], ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                    yield m("ifexp", s, src, ap)
                    def ap(s=s, b=b, k=k):
                        t = s.orelse[0]
                        s.orelse = []
                        b.insert(k, t)
                    if s.body[0].targets[0].id not in loads([s.test, s.body[0].value]):
                        yield m("default-first", s, src, ap)
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    def ap(s=s):
                        c = s.test.values
                        s.body = [ast.If(ast.BoolOp(ast.And(), c[1:]) if len(c) > 2 else c[1], s.body, [])]
                        s.test = c[0]
                    yield m("nestif", s, src, ap)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                    def ap(s=s, b=b, k=k):
                        e = s.value
                        x, y = copy.deepcopy(s), copy.deepcopy(s)
                        x.value, y.value = e.body, e.orelse
                        b[k] = ast.If(e.test, [x], [y])
                    yield m("unifexp", s, src, ap)
                # --- loops
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) and isinstance(s.iter.func.value, ast.Name):
                    def ap(s=s):
                        d = s.iter.func.value
                        kk, vv = s.target.elts
                        s.iter, s.target = d, nm("key_", S)
                        s.body[:0] = [ast.Assign([kk], nm("key_")), ast.Assign([vv], ast.Subscript(copy.deepcopy(d), nm("key_"), L))]
                    yield m("items", s, src, ap)
                if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("enumerate", "zip", "range")):
                    def ap(s=s):
                        s.target = ast.Tuple([nm("pos_", S), s.target], S)
                        s.iter = ast.Call(nm("enumerate"), [s.iter], [])
                    yield m("enumerate", s, src, ap)
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and isinstance(s.target, ast.Tuple) and not s.orelse and len(s.iter.args) == 1 and not has(s, (ast.Continue, ast.Break)):
                    def ap(s=s, b=b, k=k):
                        i, x = s.target.elts
                        s.target, s.iter = x, s.iter.args[0]
                        s.body.append(ast.AugAssign(copy.deepcopy(i), ast.Add(), ast.Constant(1)))
                        b.insert(k, ast.Assign([copy.deepcopy(i)], ast.Constant(0)))
                    yield m("counter", s, src, ap)
                    def ap(s=s, b=b, k=k):
                        i, x = s.target.elts
                        s.target = i
                        seqn = s.iter.args[0]
                        s.iter = ast.Call(nm("range"), [ast.Call(nm("len"), [nm("seq_")], [])], [])
                        s.body.insert(0, ast.Assign([x], ast.Subscript(nm("seq_"), nm(i.id), L)))
                        b.insert(k, ast.Assign([nm("seq_", S)], ast.Call(nm("list"), [seqn], [])))
                    if isinstance(s.target.elts[0], ast.Name):
                        yield m("rangelen", s, src, ap)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and k + 1 < len(b) and isinstance(b[k + 1], ast.For) and isinstance(s.targets[0], ast.Name):
                    f = b[k + 1]
                    body = f.body
                    cond = []
                    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                        cond.append(body[0].test)
                        body = body[0].body
                    x = s.targets[0].id
                    if isinstance(f.target, (ast.Name, ast.Tuple)) and len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and isinstance(body[0].value.func, ast.Attribute) and body[0].value.func.attr == "append" and ast.unparse(body[0].value.func.value) == x:
                        def ap(b=b, k=k, f=f, cond=cond, body=body, x=x):
                            b[k] = ast.Assign([nm(x, S)], ast.ListComp(body[0].value.args[0], [ast.comprehension(f.target, f.iter, cond, 0)]))
                            del b[k + 1]
                        yield m("compify", s, src, ap)
                # --- statement-level comprehension to loop
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)) and not (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)):
                    def ap(s=s, b=b, k=k):
                        c = s.value
                        ren = {v: v + "_c" for g in c.generators for v in names(g.target, ast.Store)}
                        c = copy.deepcopy(c)
                        for n in ast.walk(c):
                            if isinstance(n, ast.Name) and n.id in ren:
                                n.id = ren[n.id]
                        out = "out_"
                        if isinstance(c, ast.ListComp):
                            init, body = ast.List([], L), ast.Expr(ast.Call(ast.Attribute(nm(out), "append", L), [c.elt], []))
                        elif isinstance(c, ast.SetComp):
                            init, body = ast.Call(nm("set"), [], []), ast.Expr(ast.Call(ast.Attribute(nm(out), "add", L), [c.elt], []))
                        else:
                            init, body = ast.Dict([], []), ast.Assign([ast.Subscript(nm(out), c.key, S)], c.value)
                        for g in reversed(c.generators):
                            for t in reversed(g.ifs):
                                body = ast.If(t, [body], [])
                            body = ast.For(g.target, g.iter, [body], [])
                        s.value = nm(out)
                        b[k:k] = [ast.Assign([nm(out, S)], init), body]
                    yield m("loopify", s, src, ap)
                # --- reorder
                if k + 1 < len(b) and pure_assign(s) and pure_assign(b[k + 1]):
                    t = b[k + 1]
                    if not (stores([s]) & (loads([t]) | stores([t]))) and not (stores([t]) & loads([s])):
                        def ap(b=b, k=k):
                            b[k], b[k + 1] = b[k + 1], b[k]
                        yield m("reorder", s, src, ap)
                # --- inline variable
                if pure_assign(s) and k + 1 < len(b) and not has(s.value, (ast.Lambda,)):
                    x = s.targets[0].id
                    t = b[k + 1]
                    uses = [(p, f, i, n) for p, f, i, n in toplevel_exprs(t) if isinstance(n, ast.Name) and n.id == x]
                    total = sum(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load) for n in ast.walk(fn))
                    if len(uses) == 1 and total == 1:
                        def ap(b=b, k=k, s=s, use=uses[0]):
                            setf(*use[:3], s.value)
                            del b[k]
                        yield m("inline", s, src, ap)
                # --- hoist
                for p, f, i, n in toplevel_exprs(s):
                    if isinstance(n, (ast.Call, ast.BinOp, ast.ListComp, ast.DictComp, ast.Subscript, ast.IfExp, ast.Dict, ast.Compare, ast.BoolOp)) and not (isinstance(s, ast.Assign) and p is s and f == "value") and not (isinstance(s, ast.Expr) and p is s) \
                            and not (isinstance(p, ast.Attribute) and isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "at"):
                        def ap(b=b, k=k, p=p, f=f, i=i, n=n):
                            setf(p, f, i, nm("hoisted_"))
                            b.insert(k, ast.Assign([nm("hoisted_", S)], n))
                        yield m("hoist", n, ast.unparse(n)[:80], ap)
                # --- helper extraction of expression
                for p, f, i, n in toplevel_exprs(s):
                    if isinstance(n, (ast.Call, ast.BinOp, ast.ListComp, ast.DictComp, ast.IfExp)) and not (isinstance(n, ast.Call) and len(ast.unparse(n)) < 14):
                        args = sorted(names(n, ast.Load) & local - comp_vars(n))
                        if any(x in comp_vars(n) for x in local if x in names(n, ast.Load)):
                            continue
                        if nested and any(isinstance(z, ast.FunctionDef) and z.name in args for z in nested):
                            continue
                        def ap(p=p, f=f, i=i, n=n, args=args):
                            setf(p, f, i, ast.Call(nm("_extracted_"), [nm(a) for a in args], []))
                            tree.body.append(ast.FunctionDef("_extracted_", ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(n)], []))
                        yield m("extract", n, ast.unparse(n)[:80], ap)
                # --- helper extraction of a block of statements
                for j in range(k + 1, min(len(b), k + 6) + 1):
                    blk = b[k:j]
                    if j - k < 2 and not isinstance(blk[0], (ast.For, ast.If, ast.With)):
                        continue
                    if any(has(x, (ast.Return, ast.Continue, ast.Break, ast.Yield, ast.FunctionDef, ast.Global)) for x in blk):
                        continue
                    cv = set().union(*[comp_vars(x) for x in blk])
                    w = stores(blk)
                    if cv & local:
                        continue
                    args = sorted((loads(blk) & local) - cv)
                    # names certainly assigned in the block before being read need not be passed; pass only if assigned before the block
                    before = params | {x for q in ast.walk(fn) if isinstance(q, (ast.Name,)) and isinstance(q.ctx, ast.Store) and q.lineno < blk[0].lineno for x in [q.id]}
                    args = [a for a in args if a in before]
                    inloop = b is not fn.body
                    after = set()
                    for q in ast.walk(fn):
                        if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load) and (inloop or q.lineno > (blk[-1].end_lineno or 0)):
                            after.add(q.id)
                    inside = {id(q) for x in blk for q in ast.walk(x)}
                    if inloop:
                        after = {q.id for q in ast.walk(fn) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load) and id(q) not in inside}
                        # loop carried
                        after |= {a for a in args if a in w}
                    outs = sorted(w & after)
                    if not outs and not any(isinstance(x, (ast.Expr, ast.For)) for x in blk):
                        continue
                    # outs must be surely assigned
                    sure = set()
                    for x in blk:
                        if isinstance(x, (ast.Assign, ast.AugAssign)):
                            sure |= stores([x])
                        if isinstance(x, ast.If) and x.orelse:
                            sure |= stores([y for y in x.body if isinstance(y, ast.Assign)]) & stores([y for y in x.orelse if isinstance(y, ast.Assign)])
                        if isinstance(x, ast.If):
                            pass
                    if not set(outs) <= sure | set(args) or loads(blk) & fdefs:
                        continue
                    def ap(b=b, k=k, j=j, args=args, outs=outs):
                        blk = b[k:j]
                        call = ast.Call(nm("_extracted_"), [nm(a) for a in args], [])
                        body = list(blk)
                        if len(outs) == 0:
                            b[k:j] = [ast.Expr(call)]
                        elif len(outs) == 1:
                            b[k:j] = [ast.Assign([nm(outs[0], S)], call)]
                            body.append(ast.Return(nm(outs[0])))
                        else:
                            b[k:j] = [ast.Assign([ast.Tuple([nm(o, S) for o in outs], S)], call)]
                            body.append(ast.Return(ast.Tuple([nm(o) for o in outs], L)))
                        tree.body.append(ast.FunctionDef("_extracted_", ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, []))
                    yield m("extract-block", s, f"{src} .. {j-k} statements", ap)
                # --- dict display to assignments
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Dict) and s.value.keys and all(kx is not None for kx in s.value.keys) and s.targets[0].id not in loads([s.value]):
                    def ap(s=s, b=b, k=k):
                        x = s.targets[0].id
                        new = [ast.Assign([nm(x, S)], ast.Dict([], []))] + [ast.Assign([ast.Subscript(nm(x), kk, S)], v) for kk, v in zip(s.value.keys, s.value.values)]
                        b[k:k + 1] = new
                    yield m("undict", s, src, ap)
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                    def ap(s=s, b=b, k=k):
                        b.insert(k, ast.Assign([nm("result_", S)], s.value))
                        s.value = nm("result_")
                    yield m("named-return", s, src, ap)
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    def ap(s=s, b=b, k=k):
                        b[k] = ast.Assign([s.target], ast.BinOp(nm(s.target.id), s.op, s.value))
                    yield m("unaug", s, src, ap)
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name):
                    def ap(s=s, b=b, k=k):
                        b[k] = ast.AugAssign(nm(s.value.func.value.id, S), ast.Add(), ast.List([s.value.args[0]], L))
                    yield m("unappend", s, src, ap)
                if pure_assign(s) and isinstance(s.value, ast.Lambda):
                    def ap(s=s, b=b, k=k):
                        b[k] = ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [])
                    yield m("undef-lambda", s, src, ap)
        # --- expression-level rewrites anywhere
        for parent in ast.walk(fn):
            for f, v in ast.iter_fields(parent):
                for i, n in enumerate(v if isinstance(v, list) else [v]):
                    if not isinstance(n, ast.expr):
                        continue
                    ii = i if isinstance(v, list) else None
                    src = ast.unparse(n)[:80]

                    def put(new, parent=parent, f=f, ii=ii):
                        setf(parent, f, ii, new)
                    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
                        yield m("flip", n, src, lambda n=n, put=put: put(ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])))
                    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEGC and not (mod in NUMERIC and isinstance(n.ops[0], (ast.Eq, ast.NotEq))):
                        yield m("notcmp", n, src, lambda n=n, put=put: put(ast.UnaryOp(ast.Not(), ast.Compare(n.left, [NEGC[type(n.ops[0])]()], n.comparators))))
                    if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                        yield m("demorgan", n, src, lambda n=n, put=put: put(ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), [ast.UnaryOp(ast.Not(), x) for x in n.values]))))
                    if isinstance(n, ast.IfExp):
                        yield m("negifexp", n, src, lambda n=n, put=put: put(ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)))
                    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and mod in NUMERIC and not is_stringy(n.left) and not is_stringy(n.right):
                        yield m("commute", n, src, lambda n=n, put=put: put(ast.BinOp(n.right, n.op, n.left)))
                    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and mod in NUMERIC:
                        yield m("subneg", n, src, lambda n=n, put=put: put(ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)))
                    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and (isinstance(n.left, (ast.List, ast.ListComp)) or isinstance(n.right, (ast.List, ast.ListComp))):
                        yield m("unpack", n, src, lambda n=n, put=put: put(ast.List([ast.Starred(n.left, L), ast.Starred(n.right, L)], L)))
                    if isinstance(n, ast.JoinedStr) and all(isinstance(x, ast.Constant) or x.format_spec is None and x.conversion == -1 for x in n.values) and n.values and any(isinstance(x, ast.FormattedValue) for x in n.values):
                        def ap(n=n, put=put):
                            parts = [x if isinstance(x, ast.Constant) else ast.Call(nm("str"), [x.value], []) for x in n.values]
                            e = parts[0]
                            for q in parts[1:]:
                                e = ast.BinOp(e, ast.Add(), q)
                            put(e)
                        yield m("fstring", n, src, ap)
                        def ap(n=n, put=put):
                            fmt = "".join(x.value.replace("{", "{{").replace("}", "}}") if isinstance(x, ast.Constant) else "{}" for x in n.values)
                            put(ast.Call(ast.Attribute(ast.Constant(fmt), "format", L), [x.value for x in n.values if not isinstance(x, ast.Constant)], []))
                        yield m("format", n, src, ap)
                    if isinstance(n, ast.Dict) and n.keys and all(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier() for x in n.keys):
                        yield m("dictcall", n, src, lambda n=n, put=put: put(ast.Call(nm("dict"), [], [ast.keyword(x.value, y) for x, y in zip(n.keys, n.values)])))
                    if isinstance(n, ast.Call):
                        fnm = ast.unparse(n.func)
                        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.func.value, ast.Name):
                            yield m("get", n, src, lambda n=n, put=put: put(ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(copy.deepcopy(n.func.value), copy.deepcopy(n.args[0]), L), n.args[1])))
                        if fnm == "isinstance" and isinstance(n.args[1], ast.Tuple):
                            yield m("isinst", n, src, lambda n=n, put=put: put(ast.BoolOp(ast.Or(), [ast.Call(nm("isinstance"), [copy.deepcopy(n.args[0]), y], []) for y in n.args[1].elts])))
                        if isinstance(n.func, ast.Attribute) and n.func.attr == "reshape" and n.args and mod in NUMERIC:
                            yield m("npreshape", n, src, lambda n=n, put=put: put(ast.Call(ast.Attribute(nm("jnp"), "reshape", L), [n.func.value, n.args[0] if len(n.args) == 1 else ast.Tuple(n.args, L)], [])))
                        if fnm == "jnp.dot":
                            yield m("matmul", n, src, lambda n=n, put=put: put(ast.BinOp(n.args[0], ast.MatMult(), n.args[1])))
                        if fnm in ("jnp.where",) and len(n.args) == 3:
                            yield m("notwhere", n, src, lambda n=n, put=put: put(ast.Call(n.func, [ast.Call(ast.Attribute(nm("jnp"), "logical_not", L), [n.args[0]], []), n.args[2], n.args[1]], [])))
                        if isinstance(n.func, ast.Attribute) and n.func.attr in ("sum", "mean", "max", "min") and mod in NUMERIC and not isinstance(n.func.value, ast.Name):
                            yield m("npsum", n, src, lambda n=n, put=put: put(ast.Call(ast.Attribute(nm("jnp"), n.func.attr, L), [n.func.value] + n.args, n.keywords)))
                        if fnm in sigs and n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and all(kk.arg for kk in n.keywords) and not sigs[fnm].decorator_list:
                            ar = [a.arg for a in sigs[fnm].args.args]
                            kws = {kk.arg: kk.value for kk in n.keywords}
                            rest = ar[len(n.args):len(n.args) + len(kws)]
                            if set(rest) == set(kws):
                                yield m("positional", n, src, lambda n=n, rest=rest, kws=kws: (n.args.extend(kws[r] for r in rest), n.keywords.clear()))
                        if fnm in sigs and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and not sigs[fnm].decorator_list:
                            ar = [a.arg for a in sigs[fnm].args.args]
                            yield m("keyword", n, src, lambda n=n, ar=ar: (n.keywords.extend(ast.keyword(ar[q], x) for q, x in enumerate(n.args)), n.args.clear()))
                        if fnm in ("functools.partial", "partial"):
                            def ap(n=n, put=put):
                                put(ast.Lambda(ast.arguments([], [], ast.arg("a_"), [], [], ast.arg("k_"), []), ast.Call(n.args[0], n.args[1:] + [ast.Starred(nm("a_"), L)], n.keywords + [ast.keyword(None, nm("k_"))])))
                            yield m("unpartial", n, src, ap)
                        if fnm == "sorted" and len(n.args) == 1 and not n.keywords:
                            yield m("sortedlist", n, src, lambda n=n: n.args.__setitem__(0, ast.Call(nm("list"), [n.args[0]], [])))
                    if isinstance(n, ast.ListComp) and not isinstance(parent, ast.Call):
                        yield m("listgen", n, src, lambda n=n, put=put: put(ast.Call(nm("list"), [ast.GeneratorExp(n.elt, n.generators)], [])))
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id in ("cols", "columns", "keys", "labels"):
                        yield m("loc", n, src, lambda n=n, put=put: put(ast.Subscript(ast.Attribute(n.value, "loc", L), ast.Tuple([ast.Slice(), n.slice], L), L)))
        # rename locals
        loc = stores([fn]) - params
        if loc:
            def ap(fn=fn, loc=loc):
                for q in ast.walk(fn):
                    if isinstance(q, ast.Name) and q.id in loc:
                        q.id += "_r"
                    if isinstance(q, ast.FunctionDef) and q is not fn and q.name in loc:
                        q.name += "_r"
            if not any(set(names(z, ast.Load)) & loc & {a.arg for a in z.args.args} for z in nested):
                yield m("rename", fn, "locals", ap)
        # rename private function
        if fn.name.startswith("_"):
            def ap(fn=fn):
                old = fn.name
                for q in ast.walk(tree):
                    if isinstance(q, ast.Name) and q.id == old:
                        q.id = old + "_renamed"
                fn.name = old + "_renamed"
            yield m("rename-fn", fn, fn.name, ap)
        # loop variables of comprehensions
        if any(isinstance(q, ast.ListComp) for q in ast.walk(fn)):
            def ap(fn=fn):
                class R(ast.NodeTransformer):
                    def visit_ListComp(self, n):
                        self.generic_visit(n)
                        ren = {v: v + "_q" for g in n.generators for v in names(g.target, ast.Store)}
                        for j, part in enumerate([n.elt] + n.generators):
                            for q in ast.walk(part):
                                if isinstance(q, ast.Name) and q.id in ren and not (j == 1 and False):
                                    q.id = ren[q.id]
                        return n
                first = [q for q in ast.walk(fn) if isinstance(q, ast.ListComp)]
                if all(not (names(q.generators[0].iter, ast.Load) & names(q.generators[0].target, ast.Store)) for q in first):
                    R().visit(fn)
            yield m("rename-comp", fn, "comprehension variables", ap)


def work(job):
    mod, k, rel, repo = job
    p = f"{repo}/skillmodels/{mod}.py"
    tree = ast.parse(open(p).read())
    vs = list(variants(tree, mod))
    fn, line, kind, text, apply = vs[k]
    try:
        apply()
        src = ast.unparse(ast.fix_missing_locations(tree))
        compile(src, "x", "exec")
    except Exception as e:
        return k, "INVALID", str(e)
    out = []
    try:
        ctx = C.Ctx(repo, overlay={p: src})
    except Exception as e:
        return k, "INVALID", f"ctx {e}"
    for pid, name in rel.get(fn, []):
        for o in OB.get(pid):
            if o.name != name:
                continue
            try:
                r = o.decide(ctx)
                out.append((pid, name, r.v, (r.why or "")[:400]))
            except C.Missing as e:
                out.append((pid, name, "MISSING" if o.anchor == "stable" else "UNK", str(e)))
            except Exception as e:
                out.append((pid, name, "UNK", f"{type(e).__name__} {str(e)[:100]}"))
    for v in ("DIFF", "MISSING", "UNK"):
        bad = [x for x in out if x[2] == v]
        if bad:
            return k, v, " || ".join(f"{x[0]} {x[1]}: {x[3]}" for x in bad[:3]) + f"  ({len(bad)} of {len(out)})"
    return k, "EQ", ""


def touched(job):
    pid, k, repo = job
    o = OB.get(pid)[k]
    ctx = C.Ctx(repo)
    ctx.ip.analysed.clear()
    try:
        r = o.decide(ctx)
    except Exception:
        return pid, o.name, []
    return pid, o.name, [q for q in ctx.ip.analysed if q] if r.v == "EQ" else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mod")
    ap.add_argument("-f")
    ap.add_argument("-p")
    ap.add_argument("-o")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-k")
    ap.add_argument("-s", action="store_true", help="show the edited source of DIFF")
    ap.add_argument("--show", type=int)
    ap.add_argument("--repo", default="/repo")
    A = ap.parse_args()
    if A.show is not None:
        p = f"{A.repo}/skillmodels/{A.mod}.py"
        tree = ast.parse(open(p).read())
        vs = list(variants(tree, A.mod))
        vs[A.show][4]()
        ast.fix_missing_locations(tree)
        for f in tree.body:
            if isinstance(f, ast.FunctionDef) and f.name in (vs[A.show][0], vs[A.show][0] + "_renamed", "_extracted_"):
                print(ast.unparse(f))
        return
    pids = A.p.split(",") if A.p else [p for p in sorted(OB.TABLE) if p not in ("C31", "C32", "C34")]
    rel = {}
    with Pool(A.j, maxtasksperchild=8) as pool:
        for pid, name, qs in pool.imap_unordered(touched, [(pid, k, A.repo) for pid in pids for k in range(len(OB.get(pid)))]):
            for q in qs:
                if q and q.startswith(f"skillmodels.{A.mod}."):
                    rel.setdefault(q.split(".")[2].split(".<")[0], []).append((pid, name))
    rel = {k: sorted(set(v)) for k, v in rel.items()}
    tree = ast.parse(open(f"{A.repo}/skillmodels/{A.mod}.py").read())
    vs = list(variants(tree, A.mod))
    jobs = [(A.mod, k, rel, A.repo) for k, x in enumerate(vs) if (not A.f or x[0] in A.f.split(",")) and (not A.k or x[2] in A.k.split(",")) and x[0] in rel]
    t = time.time()
    cnt, bykind, rows = {}, {}, []
    with Pool(A.j, maxtasksperchild=4) as pool:
        for k, v, why in pool.imap_unordered(work, jobs):
            cnt[v] = cnt.get(v, 0) + 1
            bykind.setdefault(vs[k][2], {}).setdefault(v, 0)
            bykind[vs[k][2]][v] += 1
            if v != "EQ":
                rows.append((k, v, why))
    out = open(A.o, "w") if A.o else sys.stdout
    for k, v, why in sorted(rows, key=lambda r: (r[1] != "DIFF", r[0])):
        fn, line, kind, text, _ = vs[k]
        print(f"[{v}] #{k} {fn}:{line} {kind}: {text}\n        {why}", file=out)
    print(A.mod, cnt, f"{time.time()-t:.0f}s", {k: v for k, v in sorted(bykind.items()) if set(v) != {"EQ"}}, file=out)
    if A.o:
        out.close()
        print(A.mod, cnt, f"{time.time()-t:.0f}s")


main()
