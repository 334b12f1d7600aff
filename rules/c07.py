from .corr import *
from . import pywrap

EXPLAIN = ("Every end of every edge stored by a correspondence builder is split into (x, y) with vertex = x*D + y + 1, D "
           "being the length of the second set; x must be provably an index of the first set and y of the second. The "
           "decoding functions are interpreted with a symbolic clique: the two numbers returned for vertex c must satisfy "
           "x*D + y + 1 == c with y < D for the same D, for every member and in the same order. The Python wrappers must "
           "pass the lengths of the same two sets to builder and decoder.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("one-vertex-per-pair", "the vertex count handed over is the product of the two set lengths")
    ctx.rule("encode", "each edge end is x*D + y + 1 with x an index of the first and y of the second set")
    ctx.rule("decode", "decoding inverts the encoding for every vertex of the clique, in both result lists")
    ctx.rule("every-member", "every member of the clique is decoded")
    ts = [t for t in one_per_source(w, targets(w), ctx.tier == "thorough") if t[1] is None]
    pmap(ctx, ts, lambda c, t: builder(c, w, t))
    for cls in w.pyg:
        b = w.graphs[cls]["methods"].get("_get_correspondence")
        if b is None:
            ctx.skip("decode", cls, "no _get_correspondence binding")
            continue
        decoder(ctx, w, cls, b, "%s._get_correspondence" % cls.split("::")[-1])
    for cls in w.iters:
        b = w.graphs[cls]["methods"]["__next__"]
        f = w.fns.get(b["target"][1]) if b["target"] and b["target"][0] == "fn" else None
        if f and strip(f["rt"]).startswith("std::pair"):
            decoder(ctx, w, cls, b, "%s.__next__" % cls.split("::")[-1])
    pywrap.lengths(ctx, w)
    ctx.assume += ["template instances of one definition behave alike (the thorough tier analyses all of them)"]


def in_range(C, tabs, p, hi, facts):
    """True / False / None (not understood): 0 <= p < hi"""
    ts = table_sel(C.I, p)
    if ts is not None:
        t = tabs.get(ts[0])
        if t is None:
            return None
        for fields, idx, call, around, e, s in t.rows:
            v = fields.get(ts[1])
            if not isinstance(v, Poly):
                return None
            r = in_range(C, {}, v, hi, e.facts)
            if r is not True:
                return r
        return True if t.rows else None
    if not isinstance(p, Poly):
        return None
    if entails(facts, ge(p)) and entails(facts, gt(sub(hi, p))):
        return True
    return False if precise(facts, p, hi) else None


def builder(ctx, w, t):
    label, cls, b = t
    B = run_build(w, label, b)
    I = B.I
    ctx.used(I)
    ctx.count("builders")
    C = Corr(w, B)
    if not C.ok or not B.hand:
        ctx.skip("encode", B.site, label + ": parameters or hand-over not recognised")
        return
    lv = list(levels(B))
    tabs = tables(C, lv)
    done = set()
    seen = {}
    for h in B.hand:
        if (h.first, h.second, h.n) in done:
            continue
        done.add((h.first, h.second, h.n))
        sz = C.sizes(h)
        if sz is None:
            ctx.skip("one-vertex-per-pair", B.site, "%s: vertex count %s" % (label, h.n))
            continue
        M, D = sz
        if entails(h.facts, eq(sub(h.n, mul(M, D)))):
            ctx.ok("one-vertex-per-pair", B.site, "%s: %s" % (label, h.n))
        elif precise(h.facts, h.n):
            ctx.bad("one-vertex-per-pair", label, B.site, "%s hands over %s vertices for %s x %s pairs" % (label, h.n, M, D))
        else:
            ctx.skip("one-vertex-per-pair", B.site, "%s: %s" % (label, h.n))
        for around, kind, tr, s in lv:
            if kind == "throw":
                continue
            for p in pairs_of(tr, h)[0]:
                if not (isinstance(p.a, Poly) and isinstance(p.b, Poly)):
                    seen.setdefault((I.where(p.ev.L), "?"), []).append(None)
                    continue
                if p.a == p.b or entails(p.facts, eq(sub(p.a, p.b))):
                    continue
                ctx.count("edges on paths")
                for v in (p.a, p.b):
                    k = (I.where(p.ev.L), "%s" % v)
                    xy = decode(v, D)
                    if xy is None:
                        seen.setdefault(k, []).append(False if precise(p.facts, v) else None)
                        continue
                    r = in_range(C, tabs, xy[0], M, p.facts)
                    if r is True:
                        r = in_range(C, tabs, xy[1], D, p.facts)
                    seen.setdefault(k, []).append(r)
    for (site, v), rs in seen.items():
        if False in rs:
            ctx.bad("encode", label, site, "%s stores an edge to %s, which is not (index in the first set)*(length of the "
                    "second set) + (index in the second set) + 1" % (label, v))
        elif None in rs:
            ctx.skip("encode", site, "%s: %s" % (label, v))
        else:
            ctx.ok("encode", site, "%s: %s" % (label, v))
    if not seen:
        ctx.skip("encode", B.site, label + ": no edges seen")


def vec_result(I, f, s, v):
    """locations of the two result lists"""
    if isinstance(v, tuple) and v and v[0] in ("obj", "ref"):
        l = I.resolve(s, v[1])
        return (l[0] + (".first",), l[1]), (l[0] + (".second",), l[1])
    return None


def decoder(ctx, w, cls, b, label):
    """interpret with the clique left symbolic"""
    nat = {w.native(c) for c in w.pyg}
    cl = {}

    def stop(f):
        if f.get("class") in nat or (strip(f["rt"]).startswith("std::vector") and f.get("class") in w.pyg):
            return give
        return f.get("class") is not None and f["class"].endswith("Enumerator")

    def give(I, f, this, vals, st, node):
        if strip(f["rt"]).startswith("std::vector<unsigned long") or strip(f["rt"]).startswith("std::vector<u64"):
            l = gl("clique")
            I.event(st, "icall", node, fn=f["id"], q=f["q"], this=this, args=vals)
            return [(st, ("obj", l))]
        I.event(st, "icall", node, fn=f["id"], q=f["q"], this=this, args=vals)
        if strip(f["rt"]) == "void":
            return [(st, ("unk", 0))]
        return [(st, I.opaque({"t": f["rt"]}, False))]

    I = interp(w, stop)
    st = empty_state()
    res, thr = run_target(I, w, b, st)
    ctx.used(I)
    ctx.count("decoders")
    f = w.fns[b["target"][1]]
    site = I.where(f["L"])
    # length of the second set: second u64 parameter, or the field initialised from it
    ps = [p for p in f["params"] if I.kind(p["t"]) in ("u", "i")]
    if len(ps) >= 2:
        len2 = I.rd(empty_state(), gl(ps[1]["n"]), ps[1]["t"])
    else:
        len2 = iter_len2(ctx, w, I, cls)
    if len2 is None:
        ctx.skip("decode", site, label + ": length of the second set not found")
        return
    cpath = (("g", "clique"), "[]")
    n = 0
    for s, v in res:
        lists = vec_result(I, f, s, v)
        if lists is None:
            continue
        bufs = [I.vbuf(s, l) for l in lists]
        loops = {}
        for around, kind, tr, st2 in walk_levels(trace(s.ev)):
            fs = values(tr, bufs[0])
            ss = values(tr, bufs[1])
            if around:
                loops.setdefault(id(around[-1]), (around, []))[1].append((kind, fs, ss, tr, st2))
            if not fs and not ss:
                continue
            n += 1
            if len(fs) != len(ss):
                e = (fs + ss)[0][0]
                ctx.bad("decode", label, I.where(e.L), "%s adds to one result list only" % label)
                continue
            for (e1, i1, x), (e2, i2, y) in zip(fs, ss):
                fa = later(e1, e2).facts
                where = I.where(e1.L)
                if not (isinstance(x, Poly) and isinstance(y, Poly)):
                    ctx.skip("decode", where, "%s: value not understood" % label)
                    continue
                c = clique_atoms(x, cpath) | clique_atoms(y, cpath)
                if len(c) != 1:
                    if precise(fa, x, y) and c:
                        ctx.bad("decode", label, where, "%s decodes two different members (%s, %s) as one pair" % (label, x, y))
                    elif precise(fa, x, y):
                        ctx.bad("decode", label, where, "%s returns (%s, %s), not derived from a member" % (label, x, y))
                    else:
                        ctx.skip("decode", where, "%s: (%s, %s)" % (label, x, y))
                    continue
                cv = Poly((((next(iter(c)),), 1),))
                enc = add(add(mul(x, len2), y), ONE)
                fa2 = fa.add(ge(sub(len2, ONE)))
                if entails(fa2, eq(sub(enc, cv))) and entails(fa2, gt(sub(len2, y))) and entails(fa2, ge(y)):
                    ctx.ok("decode", where, "%s: (%s, %s) for vertex %s" % (label, x, y, cv))
                elif precise(fa, x, y):
                    ctx.bad("decode", label, where, "%s decodes vertex %s as (%s, %s), which does not give %s*%s + %s + 1 back" % (
                        label, cv, x, y, "x", len2, "y"))
                else:
                    ctx.skip("decode", where, "%s: (%s, %s)" % (label, x, y))
        for around, its in loops.values():
            if not any(fs for _, fs, _, _, _ in its):
                continue
            size = I.vsize(s, gl("clique"))
            rs = [r for r in loop_range(around[-1])]
            # the position read must run over the whole clique
            pos = set()
            for _, fs, ss, tr, _ in its:
                for e, i, x in fs:
                    for a in clique_atoms(x, cpath) if isinstance(x, Poly) else ():
                        pos.add(tm.info(a)[0][2][-1] if tm.info(a)[0][0] == "sel" else None)
            where = I.where(around[-1].L)
            good = None
            for hd, lo, hi, complete, path in rs:
                for q in pos:
                    if q is None or not isinstance(q, Poly):
                        continue
                    k = sub(q, hd).const()
                    if k is None:
                        continue
                    fa = around[-1].facts
                    cover = entails(fa, eq(add(lo, num(k)))) and entails(fa, eq(sub(add(hi, num(k)), size)))
                    allput = all(fs for kind, fs, ss, tr, st2 in its if kind == "end")
                    if cover and complete and allput:
                        good = True
                    elif good is None:
                        good = False
            if good:
                ctx.ok("every-member", where, label)
            elif good is False and precise(around[-1].facts, size):
                ctx.bad("every-member", label, where, "%s does not decode every member of the clique" % label)
            else:
                ctx.skip("every-member", where, label)
    if not n:
        ctx.skip("decode", site, label + ": results not understood")


def walk_levels(tr):
    def rec(evs, around):
        for e in evs:
            if e.k == "loop":
                for kind, t2, s in e.d["iters"]:
                    yield (around + (e,), kind, t2, s)
                    yield from rec(t2, around + (e,))
    yield ((), "end", tr, None)
    yield from rec(tr, ())


def values(tr, buf):
    out = []
    for e in tr:
        if e.k == "push" and e.d["buf"] == buf:
            out.append((e, e.d["idx"], e.d["val"]))
        elif e.k == "store" and e.d.get("buf") is not None and e.d["buf"] == buf:
            out.append((e, e.d["loc"][1][-1], e.d["val"]))
    return out


def clique_atoms(p, cpath):
    out = set()
    for a in deep_atoms(p):
        t = tm.info(a)[0]
        if t[0] == "sel" and t[1] == ("ai", cpath):
            out.add(a)
        elif t[0] == "init" and t[1][:2] == cpath:
            out.add(a)
    return out


def iter_len2(ctx, w, I, cls):
    """value of the iterator's field that its constructor fills from the second length"""
    for c in w.fns.values():
        if c.get("class") == cls and c.get("ctor"):
            ps = [p for p in c["params"] if I.kind(p["t"]) == "u"]
            if len(ps) < 2:
                continue
            for ini in c.get("inits", []):
                if "n" in ini and refers(ini.get("x"), ps[1]):
                    return I.rd(empty_state(), ((("g", "self"), "." + ini["n"]), ()), "unsigned long")
    return None


def refers(x, p):
    if isinstance(x, dict):
        if x.get("e") == "var" and x.get("id") == p["id"]:
            return True
        return any(refers(v, p) for v in x.values())
    if isinstance(x, list):
        return any(refers(v, p) for v in x)
    return False
