"""Run the checks on an in-memory variant of one source file (development aid).

usage: try_variant.py MODULE PIDS < edited functions
Functions on stdin replace the functions of the same name in skillmodels/MODULE.py (new ones are added).
"""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from engine import check as C  # noqa: E402


def replace(src, new):
    t, n = ast.parse(src), ast.parse(new)
    defs = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}
    out = []
    for x in t.body:
        if isinstance(x, ast.FunctionDef) and x.name in defs:
            out.append(defs.pop(x.name))
        else:
            out.append(x)
    k = max([i for i, x in enumerate(out) if isinstance(x, (ast.Import, ast.ImportFrom))], default=0) + 1
    out[k:k] = [x for x in n.body if not isinstance(x, ast.FunctionDef)]
    t.body = out + list(defs.values())
    return ast.unparse(ast.fix_missing_locations(t))


def main(mod, pids, new, repo="/repo"):
    p = f"{repo}/skillmodels/{mod}.py"
    src = replace(open(p).read(), new)
    worst = {}
    for pid in pids:
        _, res, _ = C.run_property(pid, repo, "quick", verbose=False, overlay={p: src})
        for o, r, _t in res:
            if r.v != "EQ":
                print(f"  {pid} [{r.v}] {o.name}: {(r.why or '')[:400]}")
        worst[pid] = [r.v for _, r, _ in res]
        print(pid, {v: worst[pid].count(v) for v in sorted(set(worst[pid]))})
    return worst


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2].split(","), sys.stdin.read())
