"""Projections of figure terms: what a plot shows, and the options it is drawn with."""
from . import terms as tm
from .terms import raw, upd, unbind, rebind, mk_for, mk_if, norm_items, seq, it, BIND, T

# calls that build a trace or figure from data: arguments that carry the data
DATA = {
    "px.line": ("data_frame", "x", "y", "color"),
    "ff.create_distplot": ("hist_data", "group_labels"),
    "go.Contour": ("x", "y", "z"), "go.Surface": ("x", "y", "z"), "go.Heatmap": ("x", "y", "z"),
    "plotly.subplots.make_subplots": ("rows", "cols"),
}
TITLES = {"xaxis_title", "yaxis_title", "scene"}
OPTION_OPS = {"update_layout", "update_traces", "update_scenes"}


def kwargs_of(args):
    """keyword terms of a call, those of a splatted dictionary literal included; None if they cannot be listed"""
    out = {}
    for a in args:
        if a.op == "kw":
            out[a.args[0]] = a.args[1]
        elif a.op == "kwsp":
            d = a.args[0]
            if d.op != "upd" or d.args[0] is not tm.EMPTYDICT:
                return None
            for i in d.args[1:]:
                if i.op == "pair" and i.args[0].op == "const":
                    out[i.args[0].args[0]] = i.args[1]
    return out


def without(args, names):
    out = []
    for a in args:
        if a.op == "kw" and a.args[0] in names:
            continue
        if a.op == "kwsp" and a.args[0].op == "upd":
            d = a.args[0]
            its = [i for i in d.args[1:] if not (i.op == "pair" and i.args[0].op == "const" and i.args[0].args[0] in names)]
            a = raw("kwsp", upd(d.args[0], its))
        out.append(a)
    return out


def traces(n):
    """number of traces of a figure"""
    return n.op == "len" and n.args[0].op == "attr" and n.args[0].args[1] == "data"


def after_user(its):
    """titles of the whole figure that are set after the user's layout options and so replace them are marked"""
    seen, out = False, []
    for i in its:
        if i.op == "mutop" and i.args[0] == "update_layout" and any(a.op == "kwsp" for a in i.args[1:]):
            seen = True
        elif seen and i.op == "mutop" and (i.args[0] == "update_layout" or i.args[0] in ("update_xaxes", "update_yaxes") and not any(
                a.op == "kw" and a.args[0] in ("row", "col") for a in i.args[1:])) and any(
                a.op == "kw" and a.args[0] in ("xaxis_title", "yaxis_title", "title", "title_text", "scene") for a in i.args[1:]):
            i = raw("mutop", "update_traces", raw("kw", "titles_after_user", tm.TRUE))
        out.append(i)
    return out


def project(t, keep, call, loop=lambda n: n, before=list):
    memo = {}

    def items(its):
        its, out = before(its), []
        for i in its:
            if i.op == "for":
                vs, (n, *sub) = unbind(i)
                out.append(mk_for(vs[0], loop(walk(n)), items(sub)))
            elif i.op == "if":
                out += mk_if(walk(i.args[0]), items(i.args[1].args), items(i.args[2].args))
            else:
                i = keep(walk(i))
                if i is not None:
                    out.append(i)
        return norm_items(out)

    def walk(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "upd":
            r = upd(walk(t.args[0]), items(t.args[1:]))
        elif t.op in BIND or t.op == "lam":
            vs, args = unbind(t)
            r = rebind(t, vs, [walk(a) if isinstance(a, T) else a for a in args])
        elif any(isinstance(a, T) for a in t.args):
            r = tm.mk(t.op, *[walk(a) if isinstance(a, T) else a for a in t.args])
        else:
            r = t
        if r.op in ("call", "throws"):
            r = call(r)
        memo[t.id] = r
        return r

    return walk(t)


def only(its, key):
    """the entries of one key, without their fonts and angles"""
    out = []
    for i in its:
        if i.op == "pair" and i.args[0].op == "const" and i.args[0].args[0] == key:
            out.append(raw("pair", i.args[0], plain(i.args[1])))
        elif i.op == "if":
            out += mk_if(i.args[0], only(i.args[1].args, key), only(i.args[2].args, key))
    return out


def plain(t):
    if t.op == "upd" and t.args[0] is tm.EMPTYDICT:
        return upd(t.args[0], [i for i in t.args[1:] if not (i.op == "pair" and i.args[0].op == "const" and i.args[0].args[0] in ("font", "textangle", "showarrow"))])
    if t.op == "for":
        vs, (n, *sub) = unbind(t)
        return mk_for(vs[0], n, [plain(x) for x in sub])
    if t.op in ("seq", "it", "if", "body"):
        return tm.mk(t.op, *[plain(a) if isinstance(a, T) and k >= (1 if t.op == "if" else 0) else a for k, a in enumerate(t.args)])
    return t


def shown(r, post=None):
    """the data, its place and its titles"""
    def keep(i):
        if i.op == "mutop" and i.args[0] == "update_layout" and len(i.args) == 2 and i.args[1].op == "kwsp" and i.args[1].args[0].op == "upd":
            its = only(i.args[1].args[0].args[1:], "annotations")
            return raw("mutop", "update_layout", raw("kwsp", upd(tm.EMPTYDICT, its))) if its else None
        if i.op == "mutop" and i.args[0] in OPTION_OPS:
            if i.args[0] != "update_layout" or any(a.op == "kwsp" for a in i.args[1:]):
                return None
            kw = [a for a in i.args[1:] if a.op != "kw" or a.args[0] in TITLES]
            return raw("mutop", i.args[0], *kw) if kw else None
        return i

    def call(c):
        if c.op == "call" and c.args[0] in DATA and len(c.args) > 1:
            kw = kwargs_of(c.args[1:])
            if kw is not None:
                pos = [a for a in c.args[1:] if a.op not in ("kw", "kwsp")]
                return raw("call", c.args[0], *pos, *[raw("kw", k, kw[k]) for k in sorted(kw) if k in DATA[c.args[0]]])
        return c
    return project(r, keep, call)


def options(r, post=None):
    """the options figures are built and updated with, without the data"""
    def keep(i):
        if i.op == "mutop":
            if i.args[0] == "add_trace":
                a = [x for x in i.args[1:] if x.op not in ("kw", "kwsp")]
                return raw("mutop", "add_trace", *a) if a and a[0].op == "call" else None
            if i.args[0] == "update_layout":
                a = without(i.args[1:], {"xaxis_title", "yaxis_title"} if not any(x.op == "kwsp" for x in i.args[1:]) else ())
                a = [x for x in a if not (x.op == "kw" and x.args[0] == "scene")]
                return raw("mutop", i.args[0], *a) if a else None
        return i

    def call(c):
        if c.op == "throws":
            return raw("throws", *[a for a in c.args[:1]])
        if c.args[0] in DATA and c.args[0] != "plotly.subplots.make_subplots":
            return raw("call", c.args[0], *[a for a in without(c.args[1:], DATA[c.args[0]]) if a.op in ("kw", "kwsp")])
        return c
    r = project(r, keep, call, lambda n: raw("in_", "n_traces", "int") if traces(n) else n, after_user)
    if r.op == "upd" and r.args[0] is tm.EMPTYDICT:
        r = seq("list", values(r.args[1:]))
    return r


def values(its):
    out = []
    for i in its:
        if i.op == "for":
            vs, (n, *sub) = unbind(i)
            out.append(mk_for(vs[0], n, values(sub)))
        elif i.op == "if":
            out += mk_if(i.args[0], values(i.args[1].args), values(i.args[2].args))
        elif i.op == "pair":
            out.append(it(i.args[1]))
        else:
            out.append(i)
    return norm_items(out)
