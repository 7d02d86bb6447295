"""Systematic single-edit mutants of one module, checked in memory (development aid).

usage: mutate.py MODULE [-f FUNCTION] [-p PIDS] [-o OUT] [-j 8] [-k KINDS]
Prints every mutant that no obligation reports (EQ everywhere or only undecided).
"""
import argparse
import ast
import copy
import os
import sys
import time
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from engine import check as C, obligations as OB  # noqa: E402

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutants(tree):
    """yield (function name, line, description, apply) ; apply mutates the tree in place"""
    for fn in tree.body:
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
        intext = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and ast.unparse(n.func).endswith("warn"):
                intext |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.JoinedStr):
                intext |= {id(x) for x in n.values if isinstance(x, ast.Constant)}
        for parent in ast.walk(fn):
            for field, val in ast.iter_fields(parent):
                kids = val if isinstance(val, list) else [val]
                for i, n in enumerate(kids):
                    if not isinstance(n, ast.AST) or n is doc or id(n) in intext:
                        continue

                    def put(new, parent=parent, field=field, i=i, isl=isinstance(val, list)):
                        if isl:
                            getattr(parent, field)[i] = new
                        else:
                            setattr(parent, field, new)
                    line = getattr(n, "lineno", 0)
                    src = ast.unparse(n)[:90].replace("\n", " / ")

                    def m(kind, new, text, put=put, line=line, src=src):
                        return fn.name, line, kind, f"{src}  =>  {text}", (lambda: put(new))
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, bool):
                            yield m("const", ast.Constant(not v), str(not v))
                        elif isinstance(v, (int, float)):
                            yield m("const", ast.Constant(v + 1), str(v + 1))
                        elif isinstance(v, str) and not isinstance(parent, (ast.Expr, ast.JoinedStr)) and v:
                            yield m("str", ast.Constant(v + "x"), repr(v + "x"))
                        elif v is None and not isinstance(parent, (ast.arguments, ast.Compare)):
                            yield m("const", ast.Constant(0), "0")
                    elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                        c = copy.deepcopy(n)
                        c.ops[0] = CMP[type(n.ops[0])]()
                        yield m("cmp", c, ast.unparse(c)[:90])
                    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.List, ast.JoinedStr)) and not isinstance(n.right, (ast.List, ast.JoinedStr)):
                        c = copy.deepcopy(n)
                        c.op = BIN[type(n.op)]()
                        yield m("bin", c, ast.unparse(c)[:90])
                        yield m("left", copy.deepcopy(n.left), ast.unparse(n.left)[:90])
                        yield m("right", copy.deepcopy(n.right), ast.unparse(n.right)[:90])
                    elif isinstance(n, ast.BinOp):
                        yield m("left", copy.deepcopy(n.left), ast.unparse(n.left)[:90])
                        yield m("right", copy.deepcopy(n.right), ast.unparse(n.right)[:90])
                    elif isinstance(n, ast.BoolOp):
                        c = copy.deepcopy(n)
                        c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                        yield m("bool", c, ast.unparse(c)[:90])
                    elif isinstance(n, ast.UnaryOp):
                        yield m("unary", copy.deepcopy(n.operand), ast.unparse(n.operand)[:90])
                    elif isinstance(n, (ast.If, ast.IfExp)):
                        for t in (True, False):
                            c = copy.deepcopy(n)
                            c.test = ast.Constant(t)
                            yield m("if", c, f"if {t}")
                    elif isinstance(n, ast.comprehension) and n.ifs:
                        c = copy.deepcopy(n)
                        c.ifs = []
                        yield m("filter", c, "no filter")
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
                        yield m("slice", copy.deepcopy(n.value), ast.unparse(n.value)[:90])
                    elif isinstance(n, ast.Dict) and len(n.keys) > 1:
                        c = copy.deepcopy(n)
                        c.keys, c.values = c.keys[:-1], c.values[:-1]
                        yield m("dict", c, "without last entry")
                    if isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name) or \
                                isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in ("np", "pd", "jnp", "go", "px", "ff", "jax", "itertools", "warnings", "functools"):
                            if not isinstance(parent, ast.Expr):
                                yield m("meth", copy.deepcopy(n.func.value), ast.unparse(n.func.value)[:90])
                        elif len(n.args) == 1 and not n.keywords:
                            yield m("unwrap", copy.deepcopy(n.args[0]), ast.unparse(n.args[0])[:90])
                        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                            for k in range(len(n.args) - 1):
                                c = copy.deepcopy(n)
                                c.args[k], c.args[k + 1] = c.args[k + 1], c.args[k]
                                if ast.unparse(c) != ast.unparse(n):
                                    yield m("swap", c, ast.unparse(c)[:90])
                        for k, kw in enumerate(n.keywords):
                            if kw.arg:
                                c = copy.deepcopy(n)
                                del c.keywords[k]
                                yield m("kw", c, "without " + kw.arg)
                        for k in range(len(n.keywords) - 1):
                            c = copy.deepcopy(n)
                            c.keywords[k].value, c.keywords[k + 1].value = c.keywords[k + 1].value, c.keywords[k].value
                            if c.keywords[k].arg and c.keywords[k + 1].arg and ast.unparse(c) != ast.unparse(n):
                                yield m("swapkw", c, f"swapped {c.keywords[k].arg} {c.keywords[k+1].arg}")
                    if isinstance(n, ast.stmt) and isinstance(val, list) and (
                            isinstance(n, (ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)
                            or isinstance(n, ast.Assign) and (isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) or isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)))):
                        yield m("del", ast.Pass(), "deleted")


def work(job):
    mod, k, pids, rel, repo = job
    p = f"{repo}/skillmodels/{mod}.py"
    tree = ast.parse(open(p).read())
    ms = list(mutants(tree))
    fn, line, kind, text, apply = ms[k]
    apply()
    try:
        src = ast.unparse(ast.fix_missing_locations(tree))
        compile(src, "x", "exec")
    except Exception as e:
        return k, "INVALID", str(e)
    out = []
    try:
        ctx = C.Ctx(repo, overlay={p: src})
    except Exception as e:
        return k, "INVALID", f"ctx {e}"
    for pid, name in rel.get(fn, []):
        for o in OB.get(pid):
            if o.name != name:
                continue
            try:
                r = o.decide(ctx)
                out.append((pid, name, r.v, (r.why or "")[:200]))
            except Exception as e:
                out.append((pid, name, "UNK", f"{type(e).__name__} {str(e)[:100]}"))
            if out[-1][2] == "DIFF":
                return k, "DIFF", f"{pid} {name}: {out[-1][3]}"
    bad = [x for x in out if x[2] != "EQ"]
    if bad:
        return k, "UNK", " || ".join(f"{x[0]} {x[1]}: {x[3]}" for x in bad[:2])
    return k, "EQ", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mod")
    ap.add_argument("-f")
    ap.add_argument("-p")
    ap.add_argument("-o")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-k")
    ap.add_argument("--repo", default="/repo")
    A = ap.parse_args()
    pids = A.p.split(",") if A.p else [p for p in sorted(OB.TABLE) if p not in ("C31", "C32", "C34")]
    rel = {}
    known = set()
    for pid in pids:
        for o in OB.get(pid):
            ctx = C.Ctx(A.repo)
            ctx.ip.analysed.clear()
            try:
                r = o.decide(ctx)
            except Exception:
                continue
            if r.v != "EQ":
                known.add((pid, o.name))
                continue
            for q in ctx.ip.analysed:
                if q and q.startswith(f"skillmodels.{A.mod}."):
                    rel.setdefault(q.split(".")[2].split(".<")[0], []).append((pid, o.name))
    tree = ast.parse(open(f"{A.repo}/skillmodels/{A.mod}.py").read())
    ms = list(mutants(tree))
    jobs = [(A.mod, k, pids, rel, A.repo) for k, x in enumerate(ms) if (not A.f or x[0] in A.f.split(",")) and (not A.k or x[2] in A.k.split(","))]
    t = time.time()
    cnt = {}
    rows = []
    with Pool(A.j, maxtasksperchild=4) as pool:
        for k, v, why in pool.imap_unordered(work, jobs):
            cnt[v] = cnt.get(v, 0) + 1
            if v != "DIFF":
                rows.append((k, v, why))
    out = open(A.o, "w") if A.o else sys.stdout
    for k, v, why in sorted(rows):
        fn, line, kind, text, _ = ms[k]
        print(f"[{v}] {fn}:{line} {kind}: {text}\n        {why}", file=out)
    fs = sorted({x[0] for x in ms} - set(rel))
    print(A.mod, cnt, f"{time.time()-t:.0f}s; functions never analysed: {fs}", file=out)
    if A.o:
        print(A.mod, cnt, f"{time.time()-t:.0f}s")


main()
