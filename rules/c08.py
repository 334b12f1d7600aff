from .corr import *

EXPLAIN = ("Every edge stored by a correspondence builder is split into the two element pairs it joins. The facts known on "
           "the path to the store must imply that the elements differ and that the rule holds for exactly this mapping: "
           "distances within epsilon (through the table of distances, whose filling is checked as well), the condition "
           "function called with these elements in this order, or an edge of the first graph for an edge of the second. "
           "An iteration that stores nothing must know that the rule fails, and the loops must run over all combinations.")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("different-elements", "the two pairs joined use different elements of both sets")
    ctx.rule("rule-holds", "distance, condition and adjacency requirements are implied at the store, for this mapping")
    ctx.rule("table", "each table entry holds two different elements and the metric of the right set for them")
    ctx.rule("sorted", "the whole table is sorted by distance, smallest first, before it is searched")
    ctx.rule("all-combinations", "loops cover all combinations and skip one only when the rule fails for it")
    ts = [t for t in one_per_source(w, targets(w), ctx.tier == "thorough") if t[1] is None]
    pmap(ctx, ts, lambda c, t: one(c, w, t))
    ctx.assume += ["template instances of one definition behave alike (the thorough tier analyses all of them)",
                   "the wrappers pass the metric, symmetry flag and length of a set together with that set (C18, C07)",
                   "real arithmetic for distances"]


def scoring(w, f):
    """a function of two elements of each of two sets that gives a number"""
    if "std::function" in str([p["t"] for p in f["params"]]) or f.get("ctor") or not f.get("body"):
        return False
    ints = [p for p in f["params"] if strip(p["t"]).replace("const ", "") in ("unsigned long", "u64") and not p.get("ref")]
    return len(ints) == 4 and strip(f["rt"]) in ("double", "float")


class Results:
    def __init__(self):
        self.d = {}

    def put(self, rule, site, what, r, why=None):
        self.d.setdefault((rule, site, what), []).append((r, why))

    def report(self, ctx, label):
        for (rule, site, what), rs in self.d.items():
            bad = [why for r, why in rs if r is False]
            if bad:
                ctx.bad(rule, label, site, "%s: %s: %s" % (label, what, bad[0] or "not implied by what is known there"))
            elif any(r is None for r, _ in rs):
                ctx.skip(rule, site, "%s: %s %s" % (label, what, [why for r, why in rs if r is None][0] or ""))
            else:
                ctx.ok(rule, site, "%s: %s" % (label, what))


def one(ctx, w, t):
    label, cls, b = t
    B = run_build(w, label, b, lambda f: scoring(w, f))
    I = B.I
    ctx.used(I)
    ctx.count("builders")
    C = Corr(w, B)
    C.scores = [e for e in B.events if e.k == "icall" and isinstance(e.d.get("ret"), Poly) and scoring(w, w.fns[e.d["fn"]])]
    C.limits = [I.rd(empty_state(), gl(p["n"]), p["t"]) for p in params_of(w, b) if I.kind(strip(p["t"])) == "f"]
    C.limits = [x for x in C.limits if x != C.eps]
    if not C.ok or not B.hand:
        ctx.skip("rule-holds", B.site, label + ": parameters or hand-over not recognised")
        return
    lv = list(levels(B))
    C.tabs = tables(C, lv)
    C.orient = {}
    R = Results()
    if C.tabs:
        for t in C.tabs.values():
            fill(ctx, C, R, t)
        for t in C.tabs.values():
            order(C, R, t)
    n = 0
    seen = set()
    for h in B.hand:
        if (h.first, h.second) in seen:
            continue
        seen.add((h.first, h.second))
        sz = C.sizes(h)
        if sz is None:
            ctx.skip("rule-holds", B.site, label + ": set sizes not recognised")
            continue
        C.M, C.D = sz
        by_loop = {}
        for around, kind, tr, s in lv:
            if kind == "throw":
                continue
            es = edges(C, tr, h)
            if around:
                by_loop.setdefault(id(around[-1]), (around, []))[1].append((kind, es, s, tr))
            for E in es:
                n += 1
                ctx.count("edges on paths")
                judge(C, R, E, tr, around)
        for around, its in by_loop.values():
            if any(es for _, es, _, _ in its):
                combos(C, R, around, its)
    if not n:
        ctx.skip("rule-holds", B.site, label + ": no edges seen")
    R.report(ctx, label)


class Edge:
    pass


def edges(C, tr, h):
    out = []
    seen = set()
    for p in pairs_of(tr, h)[0]:
        if not (isinstance(p.a, Poly) and isinstance(p.b, Poly)) or p.a == p.b or entails(p.facts, eq(sub(p.a, p.b))):
            continue
        if (p.b, p.a) in seen:
            continue
        seen.add((p.a, p.b))
        E = Edge()
        E.p = p
        E.site = C.I.where(p.ev.L)
        a, b = decode(p.a, C.D), decode(p.b, C.D)
        E.ok = a is not None and b is not None
        if E.ok:
            E.x1, E.y1 = a
            E.x2, E.y2 = b
            E.t = [table_sel(C.I, v) for v in (E.x1, E.y1, E.x2, E.y2)]
            E.key = frozenset([(E.x1, E.y1), (E.x2, E.y2)])
            E.name = "edge (%s, %s)-(%s, %s)" % tuple(nice(C, v, k) for v, k in zip((E.x1, E.y1, E.x2, E.y2), E.t))
        out.append(E)
    return out


def nice(C, v, t):
    return "%s of entry %s" % (".".join(t[1]).lstrip("."), t[2]) if t else str(v)


def table_of(C, k):
    """paths of the tables whose entries come from set k"""
    return [p for p, t in C.tabs.items() if t.set == C.sets[k]]


def fill(ctx, C, R, t):
    """one distance table"""
    I = C.I
    t.set = None
    t.A = t.B = t.D = None
    where = {}
    for fields, idx, call, around, e, s in t.rows:
        site = I.where(e.L)
        if call is None:
            R.put("table", site, "entry", None, "no metric call found")
            continue
        root = obj_root(I, call.d["args"][0])
        a, b = call.d["args"][1:]
        if root not in C.sets:
            R.put("table", site, "entry", None, "elements of an unknown set")
            continue
        k = C.sets.index(root)
        if t.set not in (None, root):
            R.put("table", site, "entry", None, "elements of both sets")
            continue
        t.set = root
        fa = [f for f, v in fields.items() if v == a]
        fb = [f for f, v in fields.items() if v == b]
        rest = [f for f in fields if f not in fa and f not in fb]
        if len(fa) == 1 and len(fb) == 1 and len(rest) == 1 and a != b:
            A, B_, Dd = fa[0], fb[0], rest[0]
            if t.A not in (None, A) or t.D not in (None, Dd):
                R.put("table", site, "entry", None, "filled in different ways")
                continue
            t.A, t.B, t.D = A, B_, Dd
            r = True if entails(e.facts, ne(sub(a, b))) else (False if precise(e.facts, a, b) else None)
            R.put("table", site, "elements of an entry differ", r, "%s and %s may be the same element" % (a, b))
        elif precise(e.facts, a, b) and len(fields) == 3 and all(isinstance(fields[f], Poly) for f in fields):
            R.put("table", site, "entry", False, "the metric is evaluated for (%s, %s), which are not the two elements stored" % (a, b))
            continue
        else:
            R.put("table", site, "entry", None, "fields not understood")
            continue
        # which metric
        if call.k == "fncall" and len(C.metrics) > 0:
            f = call.d["f"]
            key = fn_root(f)
            want = ("g", C.metrics[k]["n"]) if k < len(C.metrics) else None
            others = [("g", m["n"]) for m in C.metrics]
            if key in others:
                R.put("table", site, "metric of set %d" % (k + 1), key == want, "the metric of the other set is used")
        # coverage
        cov = cover_table(C, t, k, around, a, b)
        R.put("table", site, "all pairs of set %d" % (k + 1), cov[0], cov[1])


def order(C, R, t):
    """how the table is sorted"""
    I, w = C.I, C.w
    if t.D is None:
        return
    evs = [e for e in C.B.events if e.k == "sort" and e.d["args"] and isinstance(e.d["args"][0], tuple)
           and e.d["args"][0][:1] == ("ptr",) and e.d["args"][0][1][:len(t.path)] == t.path]
    site = I.where(t.rows[0][4].L)
    if not evs:
        if not any(e.k in ("bulk", "swap", "ucall") for e in C.B.events):
            R.put("sorted", site, "table", False, "the table is searched but never sorted")
        return
    for e in evs:
        site = I.where(e.L)
        a, b = e.d["args"][:2]
        if a[2][-1].const() is not None and a[2][-1].const() != 0:
            R.put("sorted", site, "range", False, "starts at entry %s" % a[2][-1])
        hi = b[2][-1] if isinstance(b, tuple) and b[0] == "ptr" else None
        full = full_sizes(C, t)
        if hi is not None and full:
            if any(entails(e.facts, ge(sub(hi, x))) for x in full):
                R.put("sorted", site, "range", True)
            elif precise(e.facts, hi):
                R.put("sorted", site, "range", False, "ends at %s, the table has %s entries" % (hi, " or ".join(map(str, full))))
        if e.d.get("cmp") is not None:
            R.put("sorted", site, "order", None, "comparison not understood")
            continue
        rec = None
        for r in w.recs:
            fl = w.recs[r].get("fields") or []
            if {"." + f["n"] for f in fl} == {f[0] for f in (t.A, t.B, t.D)} and less(w, r):
                rec = r
        f = less(w, rec) if rec else None
        if f is None:
            R.put("sorted", site, "order", None, "comparison not found")
            continue
        I2 = interp(w)
        res, thr = run_fn(I2, f, empty_state())
        st = empty_state()
        ft = [x["t"] for x in w.recs[rec]["fields"] if "." + x["n"] == t.D[0]][0]
        x = I2.rd(st, (gl("self")[0] + t.D, ()), ft)
        y = I2.rd(st, (gl(f["params"][0]["n"] or "arg0")[0] + t.D, ()), ft)
        for s, v in res:
            if not isinstance(v, Poly):
                R.put("sorted", site, "order", None, "comparison not understood")
                continue
            c = tm.truth(v)
            ok = entails(s.facts.add(c), gt(sub(y, x))) and entails(s.facts.add(tm.negate(c)), ge(sub(x, y)))
            r = True if ok else (False if not tm.cond_tainted(c) else None)
            R.put("sorted", site, "order", r, "%s orders entries by %s" % (short(f["q"]), tm.show_cond(c)))


def less(w, rec):
    for f in w.fns.values():
        if f.get("class") == rec and f["q"].endswith("operator<") and strip(f["params"][0]["t"]).replace("const ", "") == rec:
            return f
    return None


def full_sizes(C, t):
    out = set()
    for e in C.B.events:
        if e.k == "resize" and e.d["loc"][0] == t.path and isinstance(e.d["size"], Poly):
            out.add(e.d["size"])
    return sorted(out, key=str)


def fn_root(f):
    if isinstance(f, tuple) and f and f[0] in ("alias", "obj", "loc", "ref"):
        return f[1][0][0]
    return None


def cover_table(C, t, k, around, a, b):
    """every pair of different elements gets an entry (unordered pairs when the metric is symmetric)"""
    if len(around) < 2 or C.iso:
        return None, "loops not understood"
    N = C.lens[k]
    inner, outer = around[-1], around[-2]
    ro = [r for r in loop_range(outer) if r[0] in (a, b)]
    ri = [r for r in loop_range(inner) if r[0] in (a, b)]
    if not ro or not ri or ro[0][0] == ri[0][0]:
        return None, "loop ranges not understood"
    (u, lo, hi, c1, _), (v, lo2, hi2, c2, _) = ro[0], ri[0]
    fo, fi = outer.facts, inner.facts
    if not (c1 and c2):
        return None, "loop may stop early"
    if not (entails(fo, eq(lo)) and entails(fo, eq(sub(hi, N))) and entails(fi, eq(sub(hi2, N)))):
        if precise(fo, lo, hi) and precise(fi, hi2):
            return False, "the loops run over [%s, %s) and up to %s, not over all %s elements" % (lo, hi, hi2, N)
        return None, "loop ranges not understood"
    # iterations that store nothing
    for kind, tr, s in inner.d["iters"]:
        if kind != "end":
            continue
        stored = any(e.k == "store" and e.d.get("buf") is not None and e.d["loc"][0][:len(t.path)] == t.path for e in tr)
        if not stored and not entails(s.facts, eq(sub(u, v))):
            if not any(tm.cond_tainted(c) for c in s.facts.all()):
                return False, "a pair of different elements is left out"
            return None, "skipped pairs not understood"
    if entails(fi, eq(lo2)):
        return True, None
    sym = C.syms[k] if k < len(C.syms) else None
    if entails(fi, eq(sub(lo2, add(u, ONE)))):
        if sym is None or entails(fi, ne(sym)):
            return True, None
        if precise(fi, sym):
            return False, "only one order of each pair is entered although the metric may be asymmetric"
        return None, "symmetry not known"
    if entails(fi, gt(sub(lo2, add(u, ONE)))) and precise(fi, lo2):
        return False, "pairs of neighbouring elements are left out"
    return None, "start %s not understood" % lo2


def pos_atom(C, like, fld, pos):
    """term for another field of the table entries the term belongs to"""
    n = tm.info(like.single())[0][1][2]
    src, grp = C.I.arr_src[n], C.I.arr_grp[n]
    k = len(src) - 1 - src[::-1].index("[]")
    ids = [m for m, p in C.I.arr_src.items() if p == src[:k + 1] + tuple(fld) and C.I.arr_grp[m] == grp]
    if len(ids) != 1:
        return None
    return tm.var(("sel", ("as", "elems", ids[0]), (pos,)), "f")


def judge(C, R, E, tr, around):
    f = E.p.facts
    if not E.ok:
        R.put("rule-holds", E.site, "edge", None, "ends not understood")
        return
    if all(E.t):
        return judge_table(C, R, E, tr)
    if any(E.t):
        R.put("rule-holds", E.site, "edge", None, "ends come from different places")
        return
    for p, q, k in ((E.x1, E.x2, 1), (E.y1, E.y2, 2)):
        d = sub(p, q)
        if entails(f, ne(d)):
            r = True
        else:
            r = False if precise(f, d) else None
        R.put("different-elements", E.site, E.name, r, "the same element of set %d may be used twice" % k)
    R.put("rule-holds", E.site, E.name, *holds(C, E, f, tr))


def holds(C, E, f, tr):
    if C.iso:
        adj = iso_facts(C, tr)
        a1 = adj.get((0, frozenset([E.x1, E.x2])))
        a2 = adj.get((1, frozenset([E.y1, E.y2])))
        if not a1 and a2 and precise(f, E.x1, E.x2) and adj:
            return False, "adjacency of the two elements of the first graph is not looked at"
        if not a2 and precise(f, E.y1, E.y2) and adj:
            return False, "adjacency of the two elements of the second graph is not looked at"
        if not a1 or not a2:
            return None, "neighbour tests not found"
        if any(entails(f, eq(sub(r, ONE))) for r in a1) or any(entails(f, ne(sub(r, ONE))) for r in a2):
            return True, None
        return False, "an edge of the second graph may be mapped to vertices of the first that are not joined"
    if C.cond is not None:
        return cond_known(C, E, f, (E.x1, E.y1), (E.x2, E.y2))
    return None, "no rule recognised"


def iso_facts(C, tr):
    """(set, elements) -> results of the neighbour tests made"""
    out = {}
    for e in C.B.events:
        if e.k != "icall" or not isinstance(e.d.get("ret"), Poly) or e.d.get("this") is None:
            continue
        args = [v for v in e.d["args"] if isinstance(v, Poly)]
        root = e.d["this"][0][0]
        root = iso_root(C, root)
        if root in C.sets and len(args) >= 2:
            k = C.sets.index(root)
            # numbered from 1 inside the graph
            out.setdefault((k, frozenset(sub(a, ONE) for a in args[:2])), []).append(e.d["ret"])
    return out


def iso_root(C, root):
    """the parameter behind a dereferenced handle"""
    if isinstance(root, tuple) and root and root[0] == "D":
        t = tm.info(root[1])[0]
        if t[0] == "init":
            return iso_root(C, t[1][0])
    return root


def cond_calls(C, facts):
    """calls of the condition function whose result is known: (args, truth)"""
    name = C.cond["n"]
    out = []
    for c in facts.all():
        if c[0] not in ("ne", "eq"):
            continue
        a = c[1].single()
        if a is None:
            continue
        t = tm.info(a)[0]
        if t[0] == "app" and t[1] == "fv" and name in str(t[2]):
            out.append((t[3:], c[0] == "ne"))
    return out


def split_cond(C, args):
    """((a1, a2), (b1, b2)) given as elements of the two sets"""
    ps = [a for a in args if isinstance(a, Poly)]
    roots = [a for a in args if isinstance(a, tuple) and a and a[0] == "at"]
    if len(ps) != 4 or len(roots) != 2:
        return None
    names = [tm.show_path((s,)) for s in C.sets]
    if [r[1] for r in roots] != names:
        return None
    return (ps[0], ps[2]), (ps[1], ps[3])


def cond_known(C, E, f, p, q):
    want = frozenset([p, q])
    seen = []
    for args, truth in cond_calls(C, f):
        s = split_cond(C, args)
        if s is None:
            return None, "condition call not understood"
        seen.append(frozenset(s))
        if truth and frozenset(s) == want:
            return True, None
    if precise(f, *[v for x in (p, q) for v in x]):
        return False, "the condition function has not been found true for these elements in this order"
    return None, "condition calls not understood"


def score_known(C, E, f):
    """a scoring function stands in for the condition: (True/False/None, why), and whether it is known to fail"""
    want = frozenset([(E.x1, E.y1), (E.x2, E.y2)])
    other = False
    for e in C.scores:
        roots = [obj_root(C.I, v) for v in e.d["args"]]
        roots = [r for r in roots if r in C.sets]
        ps = [v for v in e.d["args"] if isinstance(v, Poly)]
        if roots != C.sets or len(ps) != 4:
            return None, "scoring call not understood", False
        if frozenset([(ps[0], ps[2]), (ps[1], ps[3])]) != want:
            other = True
            continue
        for x in C.limits:
            if entails(f, ge(sub(e.d["ret"], x))):
                return True, None, False
            if entails(f, gt(sub(x, e.d["ret"]))):
                return False, "the score is below the limit", True
    if precise(f, E.x1, E.x2, E.y1, E.y2) and (other or C.scores):
        return False, "the score of these elements in this order has not been found sufficient", False
    return None, "scoring calls not understood", False


def judge_table(C, R, E, tr):
    f = E.p.facts
    (tx1, fx1, i1), (ty1, fy1, j1), (tx2, fx2, i2), (ty2, fy2, j2) = E.t
    T1, T2 = C.tabs.get(tx1), C.tabs.get(ty1)
    if tx1 != tx2 or ty1 != ty2 or T1 is None or T2 is None or None in (T1.A, T2.A):
        R.put("rule-holds", E.site, E.name, None, "tables not understood")
        return
    if T1.set != C.sets[0] or T2.set != C.sets[1]:
        R.put("rule-holds", E.site, E.name, None, "elements of the wrong set (C07)")
        return
    if i1 != i2 or j1 != j2:
        R.put("rule-holds", E.site, E.name, False, "the two ends come from different entries")
        return
    for a, b, T, k in ((fx1, fx2, T1, 1), (fy1, fy2, T2, 2)):
        if {a, b} <= {T.A, T.B}:
            R.put("different-elements", E.site, E.name, a != b, "the same element of set %d is used twice" % k)
    d1, d2 = pos_atom(C, E.x1, T1.D, i1), pos_atom(C, E.y1, T2.D, j1)
    if d1 is None or d2 is None or C.eps is None:
        R.put("rule-holds", E.site, E.name, None, "distances not understood")
        return
    for c in (ge(add(sub(d2, d1), C.eps)), ge(add(sub(d1, d2), C.eps))):
        r = True if entails(f, c) else (False if precise(f, d1, d2, C.eps) else None)
        R.put("rule-holds", E.site, E.name, r, "%s is not known where the edge is stored" % tm.show_cond(c))
    direct = (fx1 == T1.A) == (fy1 == T2.A)
    if not direct:
        s = [C_sym(C, k) for k in (0, 1)]
        if None in s:
            R.put("rule-holds", E.site, E.name, True)
        else:
            if any(entails(f, ne(x)) for x in s):
                R.put("rule-holds", E.site, E.name, True)
            else:
                R.put("rule-holds", E.site, E.name, False if precise(f, *s) else None,
                      "the swapped mapping is used without a symmetric metric")
    if C.cond is not None:
        R.put("rule-holds", E.site, E.name, *cond_known(C, E, f, (E.x1, E.y1), (E.x2, E.y2)))
    elif C.scores:
        R.put("rule-holds", E.site, E.name, *score_known(C, E, f)[:2])


def C_sym(C, k):
    """symmetry flag given for set k; None when it is not a parameter (metrics that come with the library are symmetric)"""
    return C.syms[k] if k < len(C.syms) else None


def no_symmetry(C, f):
    """neither metric is symmetric: each mapping and its reverse come from entries of their own"""
    s = [C_sym(C, k) for k in (0, 1)]
    return None not in s and all(entails(f, eq(x)) for x in s)


def combos(C, R, around, its):
    """iterations that leave an edge out, and the ranges of the loops"""
    lev = around[-1]
    site = C.I.where(lev.L)
    pats = {}
    for kind, es, s, tr in its:
        for E in es:
            if E.ok:
                pats.setdefault(E.key, E)
    if not pats:
        return
    for kind, es, s, tr in its:
        if kind != "end":
            continue
        have = {E.key for E in es if E.ok}
        for key, E in pats.items():
            if key in have:
                continue
            r, why = excused(C, E, s.facts, tr)
            R.put("all-combinations", site, "left out only if the rule fails: " + E.name, r, why)
    E = next(iter(pats.values()))
    if all(E.t):
        T1, T2 = C.tabs.get(E.t[0][0]), C.tabs.get(E.t[1][0])
        if T1 is None or T2 is None or T1.A is None or T2.A is None:
            return
        dirs = {(p.t[0][1] == T1.A) == (p.t[1][1] == T2.A) for p in pats.values() if all(p.t)}
        if dirs == {True, False}:
            R.put("all-combinations", site, "both mappings of an entry pair", True)
        elif no_symmetry(C, lev.facts):
            # both tables hold both orders of their pairs
            R.put("all-combinations", site, "both mappings of an entry pair", True)
        elif all(precise(s.facts) for _, _, s, _ in its):
            R.put("all-combinations", site, "both mappings of an entry pair", False, "one of the two mappings is never stored")
        window(C, R, around, E, T1, T2)
    else:
        ranges(C, R, around, pats)


def excused(C, E, f, tr):
    """the rule fails for this edge on this path"""
    bad = None
    if all(E.t):
        (tx1, fx1, i1), (ty1, fy1, j1), (tx2, fx2, i2), (ty2, fy2, j2) = E.t
        T1, T2 = C.tabs.get(tx1), C.tabs.get(ty1)
        if T1 is None or T2 is None or T1.D is None or T2.D is None or C.eps is None:
            return None, "tables not understood"
        d1, d2 = pos_atom(C, E.x1, T1.D, i1), pos_atom(C, E.y1, T2.D, j1)
        if d1 is None or d2 is None:
            return None, "distances not understood"
        if entails(f, gt(sub(sub(d1, d2), C.eps))) or entails(f, gt(sub(sub(d2, d1), C.eps))):
            return True, None
        if (fx1 == T1.A) != (fy1 == T2.A) and no_symmetry(C, f):
            return True, None
        bad = (d1, d2)
    if C.iso:
        adj = iso_facts(C, tr)
        a1 = adj.get((0, frozenset([E.x1, E.x2])))
        a2 = adj.get((1, frozenset([E.y1, E.y2])))
        if a1 and a2:
            if any(entails(f, ne(sub(r, ONE))) for r in a1) and any(entails(f, eq(sub(r, ONE))) for r in a2):
                return True, None
            return False, "left out although the rule may hold"
        return None, "neighbour tests not found"
    if C.cond is not None:
        for args, truth in cond_calls(C, f):
            s = split_cond(C, args)
            if s is None:
                return None, "condition call not understood"
            if not truth and frozenset(s) == E.key:
                return True, None
    elif C.scores:
        r, why, fails = score_known(C, E, f)
        if fails:
            return True, None
        if r is None:
            return None, why
    if any(tm.cond_tainted(c) for c in f.all()):
        return None, "reason not understood"
    if entails(f, eq(sub(E.x1, E.x2))) or entails(f, eq(sub(E.y1, E.y2))):
        return True, None
    return False, "left out although the rule may hold"


def ranges(C, R, around, pats):
    """index loops: both orders of one set, or one order of each plus the swapped mapping"""
    site = C.I.where(around[-1].L)
    # loop variables by what the ends are made of
    rng = []
    for lev in around:
        for r in loop_range(lev):
            rng.append((lev,) + r)
    E = next(iter(pats.values()))
    half = []
    for k, (p, q, N) in enumerate(((E.x1, E.x2, C.M), (E.y1, E.y2, C.D))):
        rp = [r for r in rng if sub(p, r[1]).const() is not None]
        rq = [r for r in rng if sub(q, r[1]).const() is not None]
        if not rp or not rq or rp[0][1] == rq[0][1]:
            R.put("all-combinations", site, "elements of set %d" % (k + 1), None, "loop ranges not understood")
            return
        if around.index(rp[0][0]) > around.index(rq[0][0]):
            p, q, rp, rq = q, p, rq, rp
        lo, hi, comp = shift(rp[0], p)
        lo2, hi2, comp2 = shift(rq[0], q)
        f, f2 = rp[0][0].facts, rq[0][0].facts
        if not (comp and comp2):
            R.put("all-combinations", site, "elements of set %d" % (k + 1), None, "loop may stop early")
            return
        ok1 = entails(f, eq(lo)) and entails(f, eq(sub(hi, N)))
        ok2 = entails(f2, eq(sub(hi2, N)))
        full = entails(f2, eq(lo2))
        hlf = entails(f2, eq(sub(lo2, add(p, ONE))))
        if ok1 and ok2 and (full or hlf):
            R.put("all-combinations", site, "elements of set %d" % (k + 1), True)
            half.append(hlf and not full)
        else:
            r = False if precise(f, lo, hi) and precise(f2, lo2, hi2, p) else None
            R.put("all-combinations", site, "elements of set %d" % (k + 1), r,
                  "the loops run over [%s, %s) and [%s, %s), not over all pairs of %s elements" % (lo, hi, lo2, hi2, N))
            return
    if half == [True, True]:
        dirs = {(sub(p.x1, E.x1).const() == 0) == (sub(p.y1, E.y1).const() == 0) for p in pats.values()}
        R.put("all-combinations", site, "both mappings of two pairs", dirs == {True, False}, "one of the two mappings is never stored")


def shift(r, p):
    lev, hd, lo, hi, comp, path = r
    k = sub(p, hd)
    return add(lo, k), add(hi, k), comp


def window(C, R, around, E, T1, T2):
    """scan of the second table: starts at or before the first entry in reach, ends after the last"""
    lev = around[-1]
    site = C.I.where(lev.L)
    (tx1, fx1, i1), (ty1, fy1, j1) = E.t[:2]
    d1 = pos_atom(C, E.x1, T1.D, i1)
    d2 = pos_atom(C, E.y1, T2.D, j1)
    if d1 is None or d2 is None or C.eps is None:
        return
    a = j1.single()
    steps = {h.single(): (v0, st) for p, (h, v0, st) in scalar_steps(lev).items()}
    if a not in steps or steps[a][1] != 1 or steps[a][0] is None:
        R.put("all-combinations", site, "range of the second table", None, "scan not understood")
        return
    v0 = steps[a][0]
    pre = lev.d["pre"].facts
    prev = pos_atom(C, E.y1, T2.D, sub(v0, ONE))
    if entails(pre, eq(v0)) or entails(pre, gt(sub(sub(d1, C.eps), prev))):
        R.put("all-combinations", site, "start of the scan of the second table", True)
    else:
        ok = None
        # zero or a smaller entry before it, on each of the paths joined here
        if v0.single() is not None:
            for c in pre.all():
                if c[0] == "or" and all(one_of(pre, x, v0, prev, d1, C.eps) for x in c[1:]):
                    ok = True
        why = "start %s" % v0
        for k in range(4):
            # steps back from an entry equal to the lower end; sorted, so the ones before may be equal too
            here = pos_atom(C, E.y1, T2.D, add(v0, tm.num(k)))
            if ok is not None or here is None or not precise(pre, here, d1, C.eps):
                break
            if entails(pre, eq(sub(add(here, C.eps), d1))):
                ok, why = False, "starts at any one of several entries equal to the lower end of the window, the ones before it are left out"
            if not entails(pre, ge(sub(add(here, C.eps), d1))):
                break
        R.put("all-combinations", site, "start of the scan of the second table", ok, why)
    # the loop condition may stop only beyond the window or at the end of the table
    size = table_size(C, lev, ty1)
    base = lev.d["head"].facts.all()
    allow = Facts(None, (ge(add(sub(d1, d2), C.eps)),))
    if size is not None:
        allow = allow.add(gt(sub(size, j1)))
    for hs in lev.d["heads"]:
        for c in hs.facts.all() - base:
            if any(x in deep_atoms(p) for p in tm.cond_polys(c) for x in (a,)):
                if entails(allow, c):
                    R.put("all-combinations", site, "end of the scan of the second table", True)
                elif tm.cond_tainted(c) or size is None or not all(precise(allow, p) for p in tm.cond_polys(c)):
                    R.put("all-combinations", site, "end of the scan of the second table", None, tm.show_cond(c))
                else:
                    R.put("all-combinations", site, "end of the scan of the second table", False,
                          "the scan stops unless %s, which may fail inside the window" % tm.show_cond(c))
    if len(around) < 2:
        return
    outer = around[-2]
    osite = C.I.where(outer.L)
    n1 = table_size(C, outer, tx1)
    for r in loop_range(outer):
        if r[0] == i1:
            ok = n1 is not None and entails(outer.facts, eq(r[1])) and entails(outer.facts, eq(sub(r[2], n1)))
            bad = n1 is not None and precise(outer.facts, r[1], r[2], n1)
            R.put("all-combinations", osite, "range of the first table", True if ok else (False if bad else None),
                  "the loop runs over [%s, %s), the table has %s entries" % (r[1], r[2], n1))
    last = pos_atom(C, E.y1, T2.D, sub(size, ONE)) if size is not None else None
    for kind, tr, s in outer.d["iters"]:
        if kind == "break":
            if last is None:
                R.put("all-combinations", osite, "early end of the scan of the first table", None, "table size unknown")
            elif entails(s.facts, eq(size)) or entails(s.facts, gt(sub(sub(d1, C.eps), last))):
                R.put("all-combinations", osite, "early end of the scan of the first table", True)
            else:
                r = False if not any(tm.cond_tainted(c) for c in s.facts.all()) else None
                R.put("all-combinations", osite, "early end of the scan of the first table", r,
                      "stops before an entry that may be in reach of the second table")
        elif kind in ("return",):
            R.put("all-combinations", osite, "early end of the scan of the first table", None, "returns")
        elif kind == "end" and not any(e is lev for e in tr) and not any(e.k == "loop" and e.L == lev.L for e in tr):
            # nothing scanned for this entry
            if last is not None and (entails(s.facts, eq(size)) or entails(s.facts, gt(sub(sub(d1, C.eps), last)))):
                continue
            first = pos_atom(C, E.y1, T2.D, ZERO)
            if entails(s.facts, gt(sub(sub(first, d1), C.eps))):
                continue
            ok = None
            if last is not None:
                # decided by nothing but the ends of the table: entries in between may be in reach
                known = set()
                for p in (d1, C.eps, size, first, last, C.M, C.D):
                    deep_atoms(p, known)
                new = s.facts.all() - outer.d["head"].facts.all()
                if new and all(deep_atoms(p) <= known for c in new for p in tm.cond_polys(c)):
                    ok = False
            R.put("all-combinations", osite, "entries of the first table skipped", ok,
                  "an entry is passed over although entries of the second table may be in reach" if ok is False else "not understood")


def one_of(pre, x, v0, prev, d1, eps):
    f = pre.add(x)
    return entails(f, eq(v0)) or entails(f, gt(sub(sub(d1, eps), prev)))


def table_size(C, lev, path):
    s = lev.d["pre"]
    try:
        v = C.I.vsize(s, (path, ()))
    except Exception:
        return None
    return v if isinstance(v, Poly) else None
