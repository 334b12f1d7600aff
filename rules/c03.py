from .front import *

EXPLAIN = ("Every constructor and edge builder is interpreted abstractly. Each read of a caller's array, list or mask is "
           "an obligation: on its path the index must be provably below the extent of that dimension. At the hand-over "
           "to the native graph the extents must provably agree with the number of vertices, so that input of the wrong "
           "shape cannot get there; what is thrown instead must be std::runtime_error.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("in-bounds", "every element of a caller's array, list or mask is read at an index below its extent")
    ctx.rule("shape-fits", "only input whose extents agree with the number of vertices reaches the native graph")
    ctx.rule("raises", "input that does not fit ends in std::runtime_error")
    ts = one_per_source(w, targets(w), ctx.tier == "thorough")
    ts.sort(key=lambda t: t[1] is not None)
    pmap(ctx, ts, lambda c, t: one(c, w, t))
    ctx.assume += ["point coordinates are read at rows taken from the distance table, whose entries are below the length "
                   "passed next to the point set; that the wrappers pass the true length is decided with C07",
                   "pybind11 checks the number of dimensions in unchecked<N>()"]


def caller_root(p):
    """name of the caller's object if p is one of its extents"""
    a = p.single() if isinstance(p, Poly) else None
    if a is None:
        return None
    t = tm.info(a)[0]
    if t[0] == "init" and t[1][0][0] == "g" and t[1][-1] in ("#shape0", "#shape1", "#size"):
        return t[1][0][1]
    if t[0] == "sel" and t[1][0] == "ai" and t[1][1][0][0] == "g" and t[1][1][-1] in ("#size",):
        return t[1][1][0][1]
    return None


def one(ctx, w, t):
    label, cls, b = t
    B = run_build(w, label, b)
    I = B.I
    ctx.used(I)
    ctx.count("builders")
    res = {}
    for e in B.events:
        if e.k == "arrindex":
            root = caller_root(e.d["shape"][0])
            if root is None:
                continue
            strict = not e.d["cls"].startswith("Eigen::") or "bool" in e.d["cls"]
            for k, (i, n) in enumerate(zip(e.d["idx"], e.d["shape"])):
                ok = entails(e.facts, ge(i)) and entails(e.facts, gt(sub(n, i)))
                if not strict and not ok:
                    ctx.count("coordinate reads left to the length passed with the set")
                    continue
                r = ok or (False if precise(e.facts, i, n) else None)
                res.setdefault((I.where(e.L), root, k), []).append((r, i, n, e))
        elif e.k in ("access", "back", "front"):
            n = e.d["size"]
            root = caller_root(n)
            if root is None:
                continue
            i = e.d.get("idx", ZERO)
            ok = entails(e.facts, ge(i)) and entails(e.facts, gt(sub(n, i)))
            r = ok or (False if precise(e.facts, i, n) else None)
            res.setdefault((I.where(e.L), root, 0), []).append((r, i, n, e))
    for (site, root, k), lst in sorted(res.items()):
        ctx.count("reads of caller data on paths", len(lst))
        bad = [x for x in lst if x[0] is False]
        if bad:
            r, i, n, e = bad[0]
            ctx.bad("in-bounds", "%s:%s" % (label, root), site,
                    "%s reads %s at %s in dimension %d without knowing it is below %s" % (label, root, i, k, n),
                    stack_str(I, e.stack) + [tm.show_cond(c) for c in e.facts.all() if share_atoms(c, deep_atoms(i) | deep_atoms(n))][:8])
        elif any(x[0] is None for x in lst):
            ctx.skip("in-bounds", site, "%s: index into %s not understood" % (label, root))
        else:
            ctx.ok("in-bounds", site, "%s reads %s, dimension %d" % (label, root, k))
    if cls is None:
        lengths(ctx, w, B, label, b)
        return
    for th in B.thr:
        if th.tt != "std::runtime_error" and "std::runtime_error" not in th.bases:
            ctx.bad("raises", label + ":type", I.where(th.L), "%s throws %s" % (label, th.tt))
        else:
            ctx.ok("raises", I.where(th.L), label)
    ps = params_of(w, b)
    st0 = empty_state()
    for h in B.hand:
        for p in ps:
            tt = strip(p["t"])
            want = []
            g = gl(p["n"])[0]
            if is_arr(tt) and "double" in tt:
                want = [(I.rd(st0, (g + ("#shape0",), ()), "unsigned long"), h.n)]
            elif is_arr(tt) and "bool" in tt:
                want = [(I.rd(st0, (g + ("#shape%d" % k,), ()), "unsigned long"), h.n) for k in (0, 1)]
            elif is_vec(tt) and "std::set" in tt:
                want = [(I.rd(st0, (g + ("#size",), ()), "unsigned long"), add(h.n, ONE))]
            elif is_vec(tt) and targs(tt)[0] == "double":
                want = [(I.rd(st0, (g + ("#size",), ()), "unsigned long"), h.n)]
            for have, need in want:
                if entails(h.facts, eq(sub(have, need))):
                    ctx.ok("shape-fits", I.where(h.ev.L), "%s: %s = %s" % (label, have, need))
                elif precise(h.facts, have, need):
                    ctx.bad("shape-fits", "%s:%s" % (label, p["n"]), B.site,
                            "%s accepts %s although it need not equal %s" % (label, have, need))
                else:
                    ctx.skip("shape-fits", B.site, label + ": number of vertices not understood")


def set_lengths(w, b):
    """{name of a set parameter: its length parameter}"""
    ps = params_of(w, b)
    out = {}
    for p, q in zip(ps, ps[1:]):
        if strip(p["t"]) not in w.pyg and (p.get("ref") or not strip(p["t"]).endswith(("long", "int", "double", "bool"))) \
                and strip(q["t"]) in ("unsigned long", "unsigned long long"):
            out[p["n"]] = q["n"]
    return out


def set_uses(B):
    """(event, set name, index) for every index passed with a caller's set to a metric, condition or row access"""
    for e in B.events:
        if e.k == "fncall":
            cur = None
            for a in e.d["args"]:
                if isinstance(a, tuple) and a and a[0] in ("obj", "ref") and a[1][0][0][0] == "g":
                    cur = a[1][0][0][1]
                elif isinstance(a, Poly) and cur is not None:
                    yield e, cur, a
        elif e.k == "umcall" and e.d.get("n") == "row" and e.d["args"] and isinstance(e.d["args"][0], Poly):
            r = e.d["recv"][0][0]
            if r[0] == "g":
                yield e, r[1], e.d["args"][0]


def lengths(ctx, w, B, label, b):
    I = B.I
    lens = set_lengths(w, b)
    st0 = empty_state()
    res = {}
    for e, name, i in set_uses(B):
        if name not in lens:
            continue
        n = I.rd(st0, gl(lens[name]), "unsigned long")
        if entails(e.facts, ge(i)) and entails(e.facts, gt(sub(n, i))):
            r = True
        elif from_table(i) or not precise(e.facts, i, n):
            r = None
        else:
            r = False
        res.setdefault((I.where(e.L), name), []).append((r, i, n, e))
    for (site, name), lst in sorted(res.items()):
        ctx.count("set elements named on paths", len(lst))
        bad = [x for x in lst if x[0] is False]
        if bad:
            r, i, n, e = bad[0]
            ctx.bad("in-bounds", "%s:%s" % (label, name), site, "%s uses element %s of %s without knowing it is below the length %s" % (
                label, i, name, n), stack_str(I, e.stack))
        elif all(x[0] for x in lst):
            ctx.ok("in-bounds", site, "%s uses elements of %s below its length" % (label, name))
        else:
            ctx.count("element numbers taken from the distance table", sum(1 for x in lst if x[0] is None))
    # what goes into the distance table
    for e in B.events:
        if e.k == "store" and len(e.d["loc"][0]) > 2 and e.d["loc"][0][-2] == "[]" and e.d["loc"][0][-1] in (".first", ".second") \
                and isinstance(e.d["val"], Poly):
            v = e.d["val"]
            cand = [I.rd(st0, gl(x), "unsigned long") for x in lens.values()]
            hit = [n for n in cand if entails(e.facts, gt(sub(n, v)))]
            if hit and entails(e.facts, ge(v)):
                ctx.ok("in-bounds", I.where(e.L), "%s: table entry %s is below %s" % (label, v, hit[0]))
            elif precise(e.facts, v):
                ctx.bad("in-bounds", "%s:table" % label, I.where(e.L),
                        "%s puts element number %s into the distance table without knowing it is below the length" % (label, v))


def from_table(i):
    return any(tm.info(a)[0][0] == "sel" for a in deep_atoms(i))
