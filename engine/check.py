"""Decide the obligations of one property on the current source of /repo.

usage: check.py <ID> [--tier quick|thorough] [--repo DIR] [--verbose]
"""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(30000)

from engine import terms as tm          # noqa: E402
from engine.terms import *              # noqa: E402,F403
from engine.interp import Interp, EFF, AnalysisError, Undecided   # noqa: E402
from engine.compare import Cmp, EQ, DIFF, UNK, Result   # noqa: E402


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, repo="/repo", specdir=None, overlay=None):
        self.repo = repo
        self.ip = Interp(repo)
        self.ip.overlay = overlay or {}
        self.ip.load_package()
        sd = specdir or os.path.join(ROOT, "specs")
        for f in sorted(os.listdir(sd)):
            if f.endswith(".py"):
                self.ip.load("spec." + f[:-3], os.path.join(sd, f))
        for m in list(self.ip.modules.values()):
            self.ip.init_module(m)

    def fn(self, qual):
        """function term of module.name; for spec.* errors are internal."""
        mod, name = qual.rsplit(".", 1)
        m = self.ip.modules.get(mod)
        if m is None:
            raise Missing(f"module {mod} not found")
        v = self.ip.modstate.frames[m.env].get(name)
        if v is None or v[0].op not in ("fn", "partial", "ref"):
            raise Missing(f"function {qual} not found")
        return v[0]

    def params(self, fn):
        while fn.op == "partial":
            fn = fn.args[0]
        f = self.ip.fns[fn.args[0]]
        a = f.node.args
        req = [x.arg for x in a.posonlyargs + a.args]
        return req + [x.arg for x in a.kwonlyargs], len(f.defaults), f

    def alloc_inputs(self, st, values):
        """values: name -> frozen term. Containers are allocated as external objects."""
        out = {}
        for n, v in values.items():
            if kind(v) in ("dict", "list", "df", "series", "arr", None) and v.op not in ("fn", "lib", "partial", "lam", "const", "mod"):
                r = self.ip.alloc(st, v)
                st.ext[r.args[0]] = (n, 0)
                v = r
            out[n] = v
        return out

    def run(self, qual, values, stubs=None, state=None):
        """Analyse qual on symbolic inputs. -> (value, effects term, post-inputs)"""
        ip = self.ip
        fn = self.fn(qual)
        st = (state or ip.modstate).copy()
        names, nd, f = self.params(fn)
        vals = self.alloc_inputs(st, values)
        kw = {}
        for n in names:
            if n in vals:
                kw[n] = vals[n]
        pos = []
        if f.node.args.vararg and "*" in vals:
            pos = vals["*"]
        if f.node.args.kwarg:
            for n in vals:
                if n not in kw and n != "*":
                    kw[n] = vals[n]
        old = ip.stubs
        ip.stubs = dict(stubs or {})
        ip.steps = 0
        ip.deepcopied = set()
        ip.handlers = []
        ip.lost, ip.views = [], {}
        ip.callstack, ip.callframes, ip.depth, ip.loopvars = [], [], 0, []
        try:
            r = ip.call(fn, pos, kw, st)
            r = ip.val(r, st)
        finally:
            ip.stubs = old
        eff = ip.val(st.store[EFF], st)
        self.state = st
        post = {n: ip.val(v, st) for n, v in vals.items() if isinstance(v, T)}
        return r, eff, post


def paths_to_true(g, path=()):
    """the assignments of tests under which the condition g holds"""
    if g is tm.TRUE:
        yield path
    elif g.op == "ite":
        yield from paths_to_true(g.args[1], path + ((g.args[0], True),))
        yield from paths_to_true(g.args[2], path + ((g.args[0], False),))
    elif g is not tm.FALSE:
        yield path + ((g, True),)


def under(t, case):
    from engine.compare import assume
    for atom, v in case:
        t = assume(t, atom, v)
    return t


def select_effects(eff, names):
    def keep(items):
        out = []
        for i in items:
            if i.op == "it":
                e = i.args[0]
                if e.op == "ite":
                    out += tm.mk_if(e.args[0], keep([tm.it(e.args[1])]), keep([tm.it(e.args[2])]))
                elif e.op == "effect" and e.args[0] == "raise" and ("raise" in names or f"raise:{e.args[1]}" in names):
                    out.append(tm.it(tm.raw("effect", "raise", e.args[1], tm.NONE)))
                elif e.op == "effect" and e.args[0] == "warn" and "warning" in names:
                    out.append(tm.it(tm.raw("effect", "warn", tm.NONE)))
                elif e.op == "opaque" or e.op == "effect" and (e.args[0] in names or f"{e.args[0]}:{e.args[1]}" in names):
                    out.append(i)
            elif i.op == "if":
                out += tm.mk_if(i.args[0], keep(i.args[1].args), keep(i.args[2].args))
            elif i.op == "for":
                vs, (n, *its) = tm.unbind(i)
                k = keep(its)
                if k:
                    out.append(tm.mk_for(vs[0], n, k))
            else:
                out.append(i)
        return out
    return tm.seq("list", keep(eff.args[1:]))


class Obligation:
    """code function must compute the reference value."""

    def __init__(self, name, code, spec=None, inputs=None, select=None, effects=None, anchor="stable", stubs=None,
                 arrays=None, rowfn=None, where=None, given=None):
        self.given = given      # spec function: precondition on the inputs (paths outside it are not compared)
        self.where = where or code
        self.name, self.code, self.spec, self.inputs = name, code, spec, inputs
        self.select, self.effects, self.anchor, self.stubs = select, effects, anchor, stubs
        self.arrays, self.rowfn = arrays, rowfn

    def decide(self, ctx):
        import engine.schema as schema
        values = schema.build(self.inputs)
        cstubs = {k: ctx.fn(v) for k, v in (self.stubs or {}).items() if not callable(v)}
        c, ce, cp = ctx.run(self.code, values, cstubs)
        lost = list(ctx.ip.lost)
        s, se, sp_ = ctx.run(self.spec, values, cstubs)
        pairs = []
        if self.effects:
            pairs.append((select_effects(ce, self.effects), select_effects(se, self.effects)))
        if self.select == "none":
            pass
        elif self.select is not None:
            pairs.append((self.select(c, cp), self.select(s, sp_)))
        else:
            pairs.append((c, s))
        if self.given:
            g, _, _ = ctx.run("spec." + self.given, values, cstubs)
            cases = list(paths_to_true(tm.truth(g)))
            if not cases:
                raise Undecided("precondition cannot be met")
            pairs = [(under(a, case), under(b, case)) for case in cases for a, b in pairs]
        r = self.verdict(pairs)
        if r.v == DIFF and lost:
            return Result(UNK, f"mutation of a shared object not tracked ({lost[0]}); " + (r.why or ""))
        return r

    def verdict(self, pairs):
        cmp = Cmp()
        r = cmp.combine([cmp.diff(a, b) for a, b in pairs])
        if r.v == UNK:
            r = self.holes(pairs) or r
        if r.v == EQ or self.arrays is None or r.v == DIFF and "elements of an array in another order" in (r.why or ""):
            return r
        from engine.pw import PW
        import engine.schema as schema
        pa, pb = (PW(schema.shapes(), self.rowfn or schema.ROWFN) for _ in range(2))
        cmp = Cmp()
        r = cmp.combine([cmp.diff(pa.nf(a), pb.nf(b)) for a, b in pairs])
        if r.v == UNK:
            r = self.holes([(pa.nf(a), pb.nf(b)) for a, b in pairs]) or r
        if r.v == DIFF and not pa.fails <= pb.fails:
            return Result(UNK, f"array code not in index form: {sorted(map(str, pa.fails - pb.fails))[:2]}; " + (r.why or ""))
        return r


    @staticmethod
    def holes(pairs):
        from engine.antiunify import different
        for a, b in pairs:
            r = different(a, b)
            if r is not None:
                return r
        return None


def location(ctx, qual):
    try:
        fn = ctx.fn(qual)
        _, _, f = ctx.params(fn)
        return f"{os.path.relpath(f.module.path, ctx.repo)}:{f.node.lineno} ({qual.rsplit('.', 1)[1]})"
    except Missing:
        return qual


def run_property(pid, repo, tier, verbose=False, overlay=None, out=sys.stdout):
    from engine import obligations as OB
    t0 = time.time()
    obls = OB.get(pid)
    ctx = Ctx(repo, overlay=overlay)
    results = []
    for o in obls:
        t = time.time()
        try:
            r = o.decide(ctx)
        except Missing as e:
            r = Result("MISSING" if o.anchor == "stable" else UNK, str(e))
        except (Undecided, AnalysisError, RecursionError) as e:
            r = Result(UNK, f"{type(e).__name__}: {str(e)[:300]}")
        except Exception as e:  # engine limitation on unusual code: undecided, never an alarm
            r = Result(UNK, "engine: " + "".join(traceback.format_exception_only(type(e), e))[:300])
            if verbose:
                traceback.print_exc()
        results.append((o, r, time.time() - t))
    return ctx, results, time.time() - t0


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    ctx, results, wall = run_property(pid, a.repo, a.tier, a.verbose)
    known = load_known()
    kf = {(k["property"], k["obligation"]): k for k in known["findings"]}
    bad, und, ok, missing, kfound = [], [], [], [], []
    for o, r, t in results:
        if a.verbose:
            print(f"  [{r.v}] {o.name} ({t:.2f}s) {r.why or ''}")
        if r.v == EQ:
            ok.append(o)
        elif r.v == DIFF:
            k = kf.get((pid, o.name))
            if k:
                kfound.append((o, k))
            else:
                bad.append((o, r))
        elif r.v == "MISSING":
            missing.append((o, r))
        else:
            und.append((o, r))
    for o, k in kfound:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    sens = None
    if a.tier == "thorough":
        try:
            from engine import sensitivity
            sens = sensitivity.run(pid, a.repo, results)
        except Exception as e:
            sens = {"error": str(e)[:200]}
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "wall_s": round(wall, 2),
        "coverage": {
            "explanation": "static: value-graph abstract interpretation of the current source, normal form compared with a reference model; no analysed code is executed",
            "obligations": len(results), "proved": len(ok), "undecided": len(und), "violated": len(bad),
            "known": len(kfound), "missing_anchors": len(missing),
            "functions_analysed": sorted(f"{q} ({os.path.relpath(p, a.repo)}:{l})" for q, (p, l) in ctx.ip.analysed.items() if q and q.startswith("skillmodels")),
            "library_call_sites": ctx.ip.callsites,
            "decided": [{"obligation": o.name, "anchor": location(ctx, o.where) if o.where else "", "rule": o.__doc__.strip().splitlines()[0], "result": "equal"} for o in ok],
            "undecided_obligations": [{"obligation": o.name, "reason": (r.why or "")[:300]} for o, r in und],
        },
        "violations": [{"obligation": o.name, "anchor": location(ctx, o.where) if o.where else "", "why": (r.why or "")[:1500]} for o, r in bad],
    }
    if sens is not None:
        ev["coverage"]["sensitivity"] = sens
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for o, r in bad:
        rp = os.path.join(ROOT, "evidence", f"{pid}.violation.{hashlib.sha1(o.name.encode()).hexdigest()[:8]}.txt")
        if not a.no_evidence:
            with open(rp, "w") as f:
                f.write(f"property {pid}\nobligation {o.name}\nconstruct {location(ctx, o.where) if o.where else ''}\n\n{r.why}\n")
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {o.name} at {location(ctx, o.where) if o.where else ''}: {(r.why or '')[:700]}")
    print(f"{pid}: {len(ok)} proved, {len(und)} undecided, {len(bad)} violated, {len(kfound)} known, {len(missing)} anchors missing; {wall:.1f}s")
    if bad:
        sys.exit(1)
    if missing and not ok and not kfound:
        for o, r in missing:
            print("  missing:", r.why)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
