import re
from .c12 import Fields
from .ops import *
from .c15 import assigned

TECHNIQUE = "static analysis: abstract interpretation of the export functions and of the edge count (clang AST), with the function passed to the " \
            "edge enumeration inlined, comparing per visited edge what each export writes"
EXPLAIN = ("Every bound function that exports edges, and the function that counts them when a graph is loaded, is interpreted with the edge enumeration "
           "inlined. The loops around each write must visit every position of the neighbour lists on one side of the vertex itself, and per visited edge "
           "the matrix gets both cells, the adjacency list both entries, the edge list and the file one row, and the counter one. Rows start at 0 "
           "and move by one, the array has the shape given by the counted edges, and the neighbour query takes the list of the vertex asked for "
           "without the vertex itself.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("visit", "the enumeration reaches every edge of every vertex, each edge once")
    ctx.rule("entry", "what is written for an edge is that edge, in the positions the format asks for")
    ctx.rule("rows", "rows start at the first and move by one per edge")
    ctx.rule("shape", "an export has as many rows, columns and lists as the graph has edges and vertices")
    ctx.rule("blank", "cells without an edge are false")
    ctx.rule("count", "the number of edges reported is the number of edges visited on the new graph")
    ctx.rule("query", "a neighbour query gives the list of the vertex asked for, without the vertex itself")
    ctx.rule("reported", "the reported numbers are those fields, which nothing else changes")
    todo = []
    for cls, nat in nats.items():
        for m, b in sorted(w.graphs[cls]["methods"].items()):
            t = b["target"]
            f = w.fns.get(t[1]) if t and t[0] == "fn" else None
            if f is None or not f.get("body"):
                continue
            rt = strip(f["rt"])
            kind = None
            if rt.startswith("pybind11::array_t<"):
                kind = "matrix" if targs(rt)[0] == "bool" else "rows"
            elif is_vec(rt) and strip(targs(rt)[0]).startswith("std::set<"):
                kind = "lists"
            elif "std::set<" in rt and len(f["params"]) == 1:
                kind = "query"
            elif rt == "void" and len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"]:
                kind = "file"
            elif rt.startswith("std::basic_string") and not f["params"] and m == "__repr__":
                kind = "show"
            if kind:
                todo.append((kind, cls, nat, "%s.%s" % (cls.split("::")[-1], m), f))
        h = w.handle(cls)[0]
        for f in w.fns.values():
            if f.get("class") == cls and f.get("body") and not f.get("ctor") and h in assigned(f["body"], cls):
                todo.append(("load", cls, nat, "%s::%s" % (cls.split("::")[-1], f["n"]), f))
    pmap(ctx, todo, lambda c, t: one(c, w, *t))
    for cls in nats:
        reported(ctx, w, cls)
    if not todo:
        ctx.skip("visit", "", "no export found")
    ctx.assume += ["neighbour lists are sorted and hold the vertex itself at its recorded position (C05, C19)", "the neighbour relation is symmetric (C05)"]


def one(ctx, w, kind, cls, nat, name, f):
    def stop(g):
        return g.get("class") == nat.cls and bool(g.get("ctor"))
    I = interp(w, stop)
    I.cap = 200
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    site = I.where(f["L"])
    me = (("g", "self"),)
    nv, ne_ = w.prop(cls, "n_vertices"), w.prop(cls, "n_edges")
    V, E = [I.rd(empty_state(), (me + ("." + n,), ()), "unsigned long") if n else None for n in (nv, ne_)]
    if not res:
        ctx.skip("visit", site, name)
    for s, v in res:
        ctx.count("paths")
        base = me + ("." + w.handle(cls)[0], "#p", "*")
        if kind == "load":
            base = loaded(ctx, I, nat, name, s, me + ("." + w.handle(cls)[0],), nv, site)
            if base is None:
                continue
        if kind == "query":
            query(ctx, I, nat, name, base, f, s, v, site)
            continue
        if kind == "show":
            show(ctx, I, name, s, site, V, E)
            continue
        cp = me + ("." + (ne_ or ""),)
        if kind == "load":
            cp = counter(s, cp)
        lv = emissions(I, nat, base, s, kind, cp)
        if not lv:
            if any(e.k in ("ucall", "umcall", "bulk") for e in flat(trace(s.ev)) if e.d.get("n") not in ("is_open", "close")):
                ctx.skip("visit", site, name)
            elif kind == "load":
                counted_else(ctx, I, name, s, me, ne_, site)
            else:
                ctx.bad("visit", name, site, "%s: there is a path that writes no edges" % name)
            continue
        for eo, ei in lv:
            ctx.count("edge loops")
            half = visit(ctx, I, nat, base, s, name, eo, ei, V)
            if half is None:
                continue
            entries(ctx, I, nat, base, s, name, kind, eo, ei, half, V, E, cp)
        if len(lv) > 1:
            ctx.bad("visit", name, site, "%s: the edges are gone through %d times" % (name, len(lv))) if kind in ("rows", "file", "load") else None
        if kind == "matrix":
            blank(ctx, I, name, s, lv, V, site)
        if kind == "rows":
            sh = [e.d["shape"] for e in flat(trace(s.ev)) if e.k == "arrindex" and e.d.get("shape") and len(e.d["shape"]) == 2]
            if sh:
                check(ctx, "shape", name, site, s.facts, sh[0][0], E, "rows", "edges")
                check(ctx, "shape", name, site, s.facts, sh[0][1], num(2), "columns", "ends")
            else:
                ctx.skip("shape", site, name)
        if kind == "lists":
            if isinstance(v, tuple) and v and v[0] == "obj":
                n = I.vsize(s, I.resolve(s, v[1]))
                check(ctx, "shape", name, site, s.facts, n, add(V, ONE), "lists are returned", "vertices and the unused 0")
        if kind == "file":
            header(ctx, I, name, s, lv, V, E, site)


def check(ctx, rule, name, site, fs, got, want, what, why):
    if not isinstance(got, Poly) or not isinstance(want, Poly):
        ctx.skip(rule, site, name)
    elif entails(fs, eq(sub(got, want))):
        ctx.ok(rule, site, "%s: %s %s" % (name, got, what))
    elif precise(fs, got):
        ctx.bad(rule, name, site, "%s: %s %s, there are %s %s" % (name, got, what, want, why))
    else:
        ctx.skip(rule, site, name)


# ---- finding the loops over the edges

def writes(kind, e, cp):
    if kind == "matrix" or kind == "rows":
        return e.k == "store" and e.d["loc"][0][-2:] == ("[]", "[]") and len(e.d["loc"][0]) == 3
    if kind == "lists":
        return e.k == "setins"
    if kind == "file":
        return e.k == "out"
    if kind == "load":
        return e.k == "store" and e.d["loc"][0] == cp
    return False


def counter(s, field):
    """where the number of edges is counted: the field, or a local whose final value is stored there"""
    v = s.mem.get(field)
    if not isinstance(v, Poly) or v.single() is None or tm.info(v.single())[0][0] == "init":
        return field
    if any(e.k == "loop" and field in e.d["mod"] for e in trace(s.ev)):
        return field
    for p, x in s.mem.items():
        if p != field and isinstance(x, Poly) and x == v and p[0][0] == "v" and any(e.k == "loop" and p in e.d["mod"] for e in trace(s.ev)):
            return p
    return field


def straight(tr):
    return [e for e in tr if e.k != "loop"]


def emissions(I, nat, base, s, kind, cp):
    """(loop over vertices, loop over positions) around writes of the export"""
    out = []
    for e in trace(s.ev):
        if e.k != "loop":
            continue
        for _, tr, _ in e.d["iters"]:
            for x in tr:
                if x.k == "loop":
                    for _, t2, s2 in x.d["iters"]:
                        if any(writes(kind, y, cp) for y in straight(t2)) and touches(t2, nat, base):
                            if not any(x is b for _, b in out):
                                out.append((e, x))
    return out


def touches(tr, nat, base):
    for e in flat(tr):
        l = e.d.get("vec") or e.d.get("loc") or e.d.get("ptr")
        if e.k in ("access", "index", "deref"):
            p = l[0] if isinstance(l, tuple) and l and isinstance(l[0], tuple) else (l[1] if isinstance(l, tuple) and len(l) > 1 and isinstance(l[1], tuple) else ())
            if p[:len(base)] == base and len(p) > len(base) and p[len(base)][1:] in nat.words:
                return True
    return False


def field(I, st, nat, base, fld, i):
    return I.rd(st, (base + ("." + nat.vec, "[]", "." + fld), (i,)), "unsigned long")


def visit(ctx, I, nat, base, s, name, eo, ei, V):
    """ranges of the two loops; returns ('up'|'down'|'full', vertex, position) or None"""
    fl = Fields(nat)
    at = I.where(ei.L)
    st0 = eo.d["pre"]
    ro = loop_range(eo)
    n = I.rd(st0, (base + (".n_vert",), ()), "unsigned long") if "n_vert" in nat.fields else None
    sz = I.vsize(st0, (base + ("." + nat.vec,), ()))
    used = {a for _, tr, _ in ei.d["iters"] for e in flat(tr) if e.k == "access" and e.d["vec"][0] == base + ("." + nat.vec,) for a in deep_atoms(e.d["idx"])}
    ro = [r for r in ro if r[0].single() in used] or ro
    if len(ro) != 1:
        ctx.skip("visit", at, name)
        return None
    i, lo, hi, complete, p = ro[0]
    fs = st0.facts
    bad = None
    if not entails(fs, ge(sub(ONE, lo))):
        bad = "starts with vertex %s" % lo if precise(fs, lo) else None
    elif not complete:
        bad = "stops before the last vertex"
    elif not any(isinstance(y, Poly) and entails(fs, ge(sub(hi, y))) for y in (n, sz, add(V, ONE) if V is not None else None)):
        bad = "ends before vertex %s, there are %s" % (hi, n) if precise(fs, hi) else None
        if bad is None:
            ctx.skip("visit", at, name)
            return None
    if bad:
        ctx.bad("visit", name, at, "%s: the loop over the vertices %s" % (name, bad))
        return None
    # every vertex: the inner loop runs
    for k, tr, st in eo.d["iters"]:
        if k == "end" and not any(x is ei or (x.k == "loop" and x.L == ei.L) for x in tr):
            N, sp = field(I, st, nat, base, fl.N, i), field(I, st, nat, base, fl.spos, i)
            if entails(st.facts, ge(sub(ONE, N))) or entails(st.facts, ge(sub(add(sp, ONE), N))):
                continue            # no edges in that direction
            if i.single() is not None and entails(st.facts, ge(neg(i))):
                continue            # the unused vertex 0
            if precise(st.facts, N):
                ctx.bad("visit", name, at, "%s: there are vertices whose edges are left out" % name)
            else:
                ctx.skip("visit", at, name)
            return None
    ri = loop_range(ei)
    st1 = ei.d["pre"]
    N, sp = field(I, st1, nat, base, fl.N, i), field(I, st1, nat, base, fl.spos, i)
    elo = field(I, st1, nat, base, fl.elo, i)
    spos_used = {a for _, tr, _ in ei.d["iters"] for e in flat(tr) if e.k == "access" and e.d["vec"][0][len(base):len(base) + 1] and
                 e.d["vec"][0][len(base)][1:] in nat.words for a in deep_atoms(e.d["idx"])}
    ri = [r for r in ri if r[0].single() in spos_used] or ri
    if len(ri) != 1:
        ctx.skip("visit", at, name)
        return None
    k, lo, hi, complete, p = ri[0]
    fs = st1.facts
    if not complete:
        ctx.bad("visit", name, at, "%s: the loop over the neighbours of a vertex can stop before the last" % name)
        return None
    # positions may be counted from the start of the list or of the whole array
    for off in (ZERO, elo):
        def is_(a, b):
            return entails(fs, eq(sub(a, add(b, off))))
        if is_(lo, add(sp, ONE)) and is_(hi, N):
            ctx.ok("visit", at, "%s: every vertex, positions behind its own" % name)
            return ("up", i, k, off)
        if is_(lo, ZERO) and is_(hi, sp):
            ctx.ok("visit", at, "%s: every vertex, positions before its own" % name)
            return ("down", i, k, off)
        if is_(lo, ZERO) and is_(hi, N):
            ctx.ok("visit", at, "%s: every vertex, all positions" % name)
            return ("full", i, k, off)
    if precise(fs, lo, hi) and not (deep_atoms(lo) | deep_atoms(hi)) - deep_atoms(sp) - deep_atoms(N) - deep_atoms(elo) - deep_atoms(i):
        ctx.bad("visit", name, at, "%s: of the list of a vertex the positions from %s up to, not including, %s are gone through; its own is %s and the end %s" %
                (name, lo, hi, sp, N))
    else:
        ctx.skip("visit", at, name)
    return None


# ---- what is written per edge

def entries(ctx, I, nat, base, s, name, kind, eo, ei, half, V, E, cp):
    way, i, k, off = half
    fl = Fields(nat)
    site = I.where(ei.L)
    moved = {}
    for kd, tr, st in ei.d["iters"]:
        if kd != "end":
            continue
        elo = field(I, st, nat, base, fl.elo, i)
        pos = k if off is not ZERO else add(elo, k)
        js = [I.rd(st, (base + ("." + w_, "[]"), (pos,)), "unsigned long") for w_ in nat.words]
        ws = [e for e in straight(tr) if writes(kind, e, cp)]
        fs = st.facts
        at = I.where(ws[0].L) if ws else site
        if way == "full":
            up = any(entails(fs, gt(sub(j, i))) for j in js)
            down = any(entails(fs, gt(sub(i, j))) for j in js)
            other = any(entails(fs, tm.negate(eq(sub(i, j)))) for j in js)
            if not ws:
                if up or (kind in ("matrix", "lists") and other):
                    # all greater neighbours must be written, unless the smaller ones are
                    moved.setdefault("none", set()).add("up" if up else "down" if down else "any")
                continue
            if not (up or down or other):
                if precise(fs, *js[:1]):
                    ctx.bad("entry", name, at, "%s: the vertex itself is written as its own neighbour" % name)
                else:
                    ctx.skip("entry", at, name)
                continue
            moved.setdefault("some", set()).add("up" if up else "down" if down else "any")
        elif not ws:
            if precise(fs, *js[:1]):
                ctx.bad("entry", name, site, "%s: there is a path on which an edge is left out" % name)
            else:
                ctx.skip("entry", site, name)
            continue
        ok = written(ctx, I, name, kind, ws, fs, i, js, way, V, E, at)
        if kind == "rows":
            rows(ctx, I, name, ws, st, eo, ei, s, at)
        if kind == "load":
            step(ctx, I, name, cp, st, eo, ei, s, at)
    if way == "full":
        some, none = moved.get("some", set()), moved.get("none", set())
        if kind in ("rows", "file", "load"):
            if "any" in some or {"up", "down"} <= some:
                ctx.bad("visit", name, site, "%s: every edge is visited from both ends and written twice" % name)
            elif some & none:
                ctx.bad("visit", name, site, "%s: there are edges that are left out" % name)
            elif not some:
                ctx.skip("visit", site, name)
            else:
                ctx.ok("visit", site, "%s: each edge from one end" % name)
        elif some & none or not some:
            ctx.bad("visit", name, site, "%s: there are edges that are left out" % name) if some else ctx.skip("visit", site, name)


def same(fs, a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and entails(fs, eq(sub(a, b)))


def written(ctx, I, name, kind, ws, fs, i, js, way, V, E, at):
    def judge(good, what, vals):
        if good:
            ctx.ok("entry", at, "%s: %s" % (name, what))
        elif all(isinstance(x, Poly) and precise(fs, x) for x in vals):
            ctx.bad("entry", name, at, "%s: written for the edge between %s and %s: %s" % (name, i, js[0] if len(js) == 1 else "its neighbour", what))
        else:
            ctx.skip("entry", at, name)
    if kind == "matrix":
        cells = [(e.d["loc"][1], e.d["val"]) for e in ws]
        I1 = sub(i, ONE)
        for j in js:
            J1 = sub(j, ONE)
            a = any(same(fs, c[0], I1) and same(fs, c[1], J1) for c, _ in cells)
            b = any(same(fs, c[0], J1) and same(fs, c[1], I1) for c, _ in cells)
            others = [c for c, _ in cells if not ((same(fs, c[0], I1) and same(fs, c[1], J1)) or (same(fs, c[0], J1) and same(fs, c[1], I1)))]
            vals = all(isinstance(x, Poly) and entails(fs, tm.truth(x)) for _, x in cells)
            if (a and b or (way == "full" and (a or b))) and not others and vals:
                judge(True, "both cells of the edge", ())
                return True
        judge(False, "; ".join("cell (%s, %s) = %s" % (c[0], c[1], x) for c, x in cells), [y for c, x in cells for y in c])
    elif kind == "lists":
        ins = [(e.d["set"], e.d["val"]) for e in ws]
        for j in js:
            def at_(l, x):
                return len(l[1]) == 1 and same(fs, l[1][0], x)
            a = any(at_(l, i) and same(fs, x, j) for l, x in ins)
            b = any(at_(l, j) and same(fs, x, i) for l, x in ins)
            others = [1 for l, x in ins if not ((at_(l, i) and same(fs, x, j)) or (at_(l, j) and same(fs, x, i)))]
            if (a and b or (way == "full" and (a or b))) and not others:
                judge(True, "the edge in the lists of both ends", ())
                return True
        judge(False, "; ".join("%s in the list of %s" % (x, l[1][0] if l[1] else "?") for l, x in ins), [y for l, x in ins for y in tuple(l[1]) + (x,)])
    elif kind == "rows":
        cells = {}
        for e in ws:
            c = e.d["loc"][1]
            cc = c[1].const() if isinstance(c[1], Poly) else None
            cells[cc] = (c[0], e.d["val"])
        vals = [cells.get(n, (None, None))[1] for n in (0, 1)]
        for j in js:
            if (same(fs, vals[0], i) and same(fs, vals[1], j)) or (same(fs, vals[0], j) and same(fs, vals[1], i)):
                if same(fs, cells[0][0], cells[1][0]):
                    judge(True, "one row with both ends", ())
                else:
                    judge(False, "the ends in rows %s and %s" % (cells[0][0], cells[1][0]), [cells[0][0], cells[1][0]])
                return True
        judge(False, "columns %s" % ", ".join("%s = %s" % (n, x[1]) for n, x in cells.items()), [x[1] for x in cells.values()])
    elif kind == "file":
        parts = text([e.d["val"] for e in ws])
        if parts is None:
            ctx.skip("entry", at, name)
            return False
        vals = [x for x in parts if isinstance(x, Poly)]
        shape = "".join("#" if isinstance(x, Poly) else x for x in parts)
        for j in js:
            if len(vals) == 2 and ((same(fs, vals[0], i) and same(fs, vals[1], j)) or (same(fs, vals[0], j) and same(fs, vals[1], i))):
                judge(bool(re.fullmatch(r"[ \t]*#[ \t]+#[ \t]*\n", shape)), "one line '%s'" % shape.replace("\n", "\\n"), vals)
                return True
        judge(False, "a line with %s" % ", ".join(map(str, vals)), vals)
    elif kind == "load":
        return True
    return False


def text(vals):
    out = []
    for v in vals:
        if isinstance(v, Poly):
            c = v.const()
            if c in (9, 10, 32):
                out.append(chr(int(c)))
            else:
                out.append(v)
        elif isinstance(v, tuple) and v and v[0] == "str":
            out.append(v[1])
        elif "endl" in str(v):
            out.append("\n")
        else:
            return None
    return out


def rows(ctx, I, name, ws, st, eo, ei, s, at):
    e = ws[0]
    k = e.d["loc"][1][0]
    a = k.single() if isinstance(k, Poly) else None
    H = ei.d["head"]
    src = [p for p in ei.d["mod"] if isinstance(H.mem.get(p), Poly) and H.mem[p].single() == a and a is not None]
    pre = None
    if not src and isinstance(k, Poly):
        # the row may be used after it was moved
        for p in ei.d["mod"]:
            h = H.mem.get(p)
            if isinstance(h, Poly) and sub(k, h).const() == 1:
                src, pre = [p], -1
    if len(src) != 1:
        if isinstance(k, Poly) and precise(e.facts, k):
            ctx.bad("rows", name, at, "%s: row %s does not move with the edges" % (name, k))
        else:
            ctx.skip("rows", at, name)
        return
    step(ctx, I, name, src[0], st, eo, ei, s, at, pre)


def step(ctx, I, name, p, st, eo, ei, s, at, start=0):
    h, v = ei.d["head"].mem.get(p), st.mem.get(p)
    o, o0 = eo.d["head"].mem.get(p), eo.d["pre"].mem.get(p)
    i0 = ei.d["pre"].mem.get(p)
    if not all(isinstance(x, Poly) for x in (h, v, o, o0, i0)):
        if isinstance(h, Poly) and not isinstance(v, Poly):
            ctx.skip("rows", at, name)
        elif o0 is None and isinstance(v, Poly):
            ctx.bad("rows", name, at, "%s: the counter is not set before the first edge" % name)
        else:
            ctx.skip("rows", at, name)
        return
    fs = st.facts
    if not entails(fs, eq(sub(sub(v, h), ONE))):
        ctx.bad("rows", name, at, "%s: the counter moves by %s per edge" % (name, sub(v, h))) if precise(fs, v) else ctx.skip("rows", at, name)
        return
    if not same(ei.d["pre"].facts, i0, o):
        ctx.bad("rows", name, at, "%s: the counter starts from %s at each vertex" % (name, i0)) if precise(ei.d["pre"].facts, i0) else ctx.skip("rows", at, name)
        return
    for kd, tr, y in eo.d["iters"]:
        x = y.mem.get(p)
        inner = [z for z in tr if z.k == "loop" and z.L == ei.L]
        after = False
        for z in straight(tr):
            if z.k == "store" and z.d["loc"][0] == p and not z.d["loc"][1]:
                after = True
        if after:
            ctx.bad("rows", name, at, "%s: the counter also moves per vertex" % name)
            return
    c = o0.const()
    if c == (start or 0):
        ctx.ok("rows", at, "%s: counted from the first, one per edge" % name)
    elif c is not None or precise(eo.d["pre"].facts, o0):
        ctx.bad("rows", name, at, "%s: the counter starts at %s" % (name, o0))
    else:
        ctx.skip("rows", at, name)
    # nothing changes it afterwards
    seen = False
    for e in trace(s.ev):
        if e is eo or (e.k == "loop" and e.L == eo.L):
            seen = True
        elif seen and e.k == "store" and e.d["loc"][0] == p and p[0] == ("g", "self"):
            ctx.bad("count", name, I.where(e.L), "%s: the number of edges is changed after counting" % name)


def blank(ctx, I, name, s, lv, V, site):
    """every cell is set to false before the edges are written, and the shape is vertices x vertices"""
    first = min(n for n, e in enumerate(trace(s.ev)) if any(e is a for a, _ in lv))
    t = trace(s.ev)
    shapes = [e.d.get("shape") for e in flat(t) if e.k == "arrindex" and e.d.get("shape")]
    for sh in shapes[:1]:
        if len(sh) == 2 and all(isinstance(x, Poly) for x in sh):
            check(ctx, "shape", name, site, s.facts, sh[0], V, "rows", "vertices")
            check(ctx, "shape", name, site, s.facts, sh[1], V, "columns", "vertices")
    done = False
    seen = False
    for n, e in enumerate(t):
        if e.k == "bulk" and n < first:
            ctx.skip("blank", site, name)
            return
        if e.k != "loop":
            continue
        for kd, tr, st in e.d["iters"]:
            for x in tr:
                if x.k != "loop":
                    continue
                for kd2, t2, s2 in x.d["iters"]:
                    for y in straight(t2):
                        if writes("matrix", y, None) and isinstance(y.d["val"], Poly) and y.d["val"].const() == 0:
                            seen = True
                            if n > first:
                                ctx.bad("blank", name, I.where(y.L), "%s: cells are cleared after edges were written" % name)
                                return
                            a, b = y.d["loc"][1]
                            rs = loop_range(e) + loop_range(x)

                            def whole(z):
                                r = [q for q in rs if q[0] == z]
                                return r and r[0][3] and entails(e.d["pre"].facts, ge(neg(r[0][1]))) and entails(e.d["pre"].facts, ge(sub(r[0][2], V)))
                            if whole(a) and whole(b) and a != b:
                                done = True
                            elif precise(y.facts, a, b) and len(rs) >= 2:
                                ctx.bad("blank", name, I.where(y.L), "%s: not every cell is cleared" % name)
                                return
    if done:
        ctx.ok("blank", site, "%s: every cell is cleared first" % name)
    elif seen or any(e.k in ("ucall", "umcall", "bulk", "store") for e in t[:first]):
        ctx.skip("blank", site, name)
    else:
        ctx.bad("blank", name, site, "%s: cells without an edge are never cleared" % name)


def header(ctx, I, name, s, lv, V, E, site):
    t = trace(s.ev)
    first = min(n for n, e in enumerate(t) if any(e is a for a, _ in lv))
    parts = text([e.d["val"] for e in t[:first] if e.k == "out"])
    if parts is None:
        ctx.skip("shape", site, name)
        return
    shape = "".join("#" if isinstance(x, Poly) else x for x in parts)
    vals = [x for x in parts if isinstance(x, Poly)]
    lines = [l for l in shape.split("\n") if l and not l.startswith("%")]
    if len(vals) == 3 and len(lines) == 1 and re.fullmatch(r"[ \t]*#[ \t]+#[ \t]+#[ \t]*", lines[0]) and shape.endswith("\n"):
        for n, (v, wnt, what) in enumerate(zip(vals, (V, V, E), ("vertices", "vertices", "edges"))):
            check(ctx, "shape", name, site, s.facts, v, wnt, "in the header", what)
    elif all(precise(s.facts, v) for v in vals):
        ctx.bad("shape", name, site, "%s: the header is '%s'" % (name, shape.replace("\n", "\\n")))
    else:
        ctx.skip("shape", site, name)
    for e in t[first + 1:]:
        if e.k == "out":
            x = text([e.d["val"]])
            if x is None or not all(isinstance(y, str) and not y.strip() for y in x):
                ctx.bad("entry", name, I.where(e.L), "%s: something else is written after the edges" % name)


# ---- counting

def loaded(ctx, I, nat, name, s, h, nv, site):
    t = trace(s.ev)
    sets = [e for e in t if e.k == "sassign" and e.d["handle"][0] == h]
    if not sets:
        ctx.skip("count", site, name)
        return None
    v = sets[-1].d["val"]
    if not (isinstance(v, tuple) and v and v[0] == "ptr"):
        ctx.skip("count", site, name)
        return None
    made = [e for e in t if e.k == "icall" and e.d.get("this") and e.d["this"][0] == v[1]]
    n = s.mem.get((("g", "self"), "." + (nv or "")))
    if made and isinstance(n, Poly) and made[-1].d["args"]:
        a = made[-1].d["args"][0]
        if same(s.facts, a, n):
            ctx.ok("count", I.where(made[-1].L), "%s: the graph has the number of vertices reported" % name)
        elif isinstance(a, Poly) and precise(s.facts, a, n):
            ctx.bad("count", name, I.where(made[-1].L), "%s: a graph with %s vertices is made, %s are reported" % (name, a, n))
    return v[1]


def counted_else(ctx, I, name, s, me, cnt, site):
    v = s.mem.get(me + ("." + (cnt or ""),))
    if isinstance(v, Poly) and precise(s.facts, v):
        ctx.bad("count", name, site, "%s: the number of edges reported is %s, without regard to the edges the graph holds" % (name, v))
    elif v is None:
        ctx.bad("count", name, site, "%s: the number of edges reported is left as it was" % name)
    else:
        ctx.skip("count", site, name)


def reported(ctx, w, cls):
    I = interp(w, None)
    h = w.handle(cls)[0]
    for prop in ("n_vertices", "n_edges"):
        n = w.prop(cls, prop)
        if n is None:
            ctx.skip("reported", "", prop)
            continue
        for f in w.fns.values():
            if not f.get("body") or n not in assigned(f["body"], cls):
                continue
            site = I.where(f["L"])
            callers = [g for g in w.fns.values() if g.get("body") and f["id"] in called(g)]
            mine = f.get("class") == cls and (f.get("ctor") or h in assigned(f["body"], cls) or
                                              any(g.get("ctor") or h in assigned(g["body"], cls) for g in callers if g.get("class") == cls))
            if mine:
                ctx.ok("reported", site, "%s is set by %s" % (n, short(f["q"])))
            else:
                ctx.bad("reported", "%s:%s" % (short(f["q"]), n), site, "%s changes %s, reported as %s, without loading a graph" % (short(f["q"]), n, prop))


def show(ctx, I, name, s, site, V, E):
    last = None
    for e in flat(trace(s.ev)):
        if e.k != "out":
            continue
        v = e.d["val"]
        if isinstance(v, tuple) and v and v[0] == "str":
            last = v[1]
        elif isinstance(v, Poly) and last:
            for word, want in (("vert", V), ("edge", E)):
                if last.rstrip("=: ").split(",")[-1].strip().endswith(("vertices", "vert", "n_vertices") if word == "vert" else ("edges", "n_edges")):
                    if same(s.facts, v, want):
                        ctx.ok("reported", I.where(e.L), "%s: %s%s" % (name, last, v))
                    elif precise(s.facts, v):
                        ctx.bad("reported", name, I.where(e.L), "%s: '%s' is followed by %s" % (name, last, v))
            last = None


# ---- neighbour query

def query(ctx, I, nat, name, base, f, s, v, site):
    fl = Fields(nat)
    t = trace(s.ev)
    x = I.rd(empty_state(), (((("g", f["params"][0]["n"]),)), ()), "unsigned long")
    cp = [e for e in flat(t) if e.k == "rangecopy"]
    if len(cp) != 1 or not isinstance(x, Poly):
        ctx.skip("query", site, name)
        return
    e = cp[0]
    a, b = e.d["first"], e.d["last"]
    if not all(isinstance(y, tuple) and y and y[0] == "ptr" and y[2] for y in (a, b)):
        ctx.skip("query", site, name)
        return
    lo, hi = field(I, s, nat, base, fl.elo, x), field(I, s, nat, base, fl.N, x)
    at = I.where(e.L)
    la, lb = a[2][-1], b[2][-1]
    if same(s.facts, la, lo) and same(s.facts, sub(lb, la), hi):
        ctx.ok("query", at, "%s: the whole list of the vertex asked for" % name)
    elif precise(s.facts, la, lb):
        ctx.bad("query", name, at, "%s: the part of the lists from %s to %s is taken, the vertex has %s to %s" % (name, la, lb, lo, add(lo, hi)))
    else:
        ctx.skip("query", at, name)
    dels = [y for y in flat(t) if y.k == "setdel"]
    key = dels[0].d["val"] if len(dels) == 1 else None
    if isinstance(key, tuple) and key and key[0] == "setit":
        key = key[2]
    if len(dels) == 1 and isinstance(key, Poly):
        if same(s.facts, key, x):
            ctx.ok("query", I.where(dels[0].L), "%s: the vertex itself is taken out" % name)
        elif precise(s.facts, key):
            ctx.bad("query", name, I.where(dels[0].L), "%s: %s is taken out, the vertex itself is %s" % (name, key, x))
        else:
            ctx.skip("query", I.where(dels[0].L), name)
    elif len(dels) == 1 and isinstance(key, tuple) and key and key[0] == "setpos":
        ctx.bad("query", name, I.where(dels[0].L), "%s: an element is taken out by its place in the list, not the vertex itself" % name)
    elif not dels and not any(y.k in ("umcall", "ucall") for y in flat(t)):
        ctx.bad("query", name, at, "%s: the vertex itself is among its neighbours" % name)
    else:
        ctx.skip("query", at, name)
