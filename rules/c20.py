from .c12 import same
from .ops import *
from . import search as S
from .c14 import arg_terms, stop as c14stop, where

TECHNIQUE = "static analysis: call graph reachability of clock reads, and abstract interpretation of the entry points and of the timed search (clang AST) " \
            "with every clock reading as a separate symbol"
EXPLAIN = ("Every entry point that runs a search is interpreted up to the search calls. On paths where no time limit was given only searches that "
           "cannot reach a clock read may run and no branch, stored value or result may depend on a clock reading. On paths with a limit the "
           "exhaustive search must be one that reads the clock, after the start time was noted. In that search every recursive call and "
           "every root must lie behind a comparison of a new reading with the limit, the vertex counter must start where it was told, move by one, and "
           "be returned such that no vertex that was not finished is skipped.")


def run(ctx, prog):
    w = World(prog)
    ss = S.searchers(w)
    ctx.rule("untimed", "without a time limit only searches that never read the clock run")
    ctx.rule("unaffected", "without a time limit nothing depends on a clock reading")
    ctx.rule("timed", "with a time limit the exhaustive search is one that checks the deadline")
    ctx.rule("started", "the start time is noted before the timed search")
    ctx.rule("poll", "every recursive call and every root of the timed search lies behind a check of the deadline")
    ctx.rule("stop", "nothing is recorded once the deadline has passed")
    ctx.rule("resume", "the timed search starts at the vertex given and returns the first one not finished")
    ctx.rule("kept", "the vertex returned is where the next call continues")
    todo = []
    for cls in w.pyg:
        for m, b in sorted(w.graphs[cls]["methods"].items()):
            ns = [a[0] for a in b["args"] if a]
            if params_of(w, b) is not None and ("use_dfs" in ns or "use_heuristic" in ns):
                todo.append(("entry", cls, m, b, ns))
    nats = natives(w)
    names = {s.cls for s in ss if s.kind == "timed"}
    for o in operators(w, nats):
        if o.cls in names:
            for f in o.units:
                todo.append(("op", o, f))
    pmap(ctx, todo, lambda c, t: (entry if t[0] == "entry" else unit)(c, w, ss, *t[1:]))
    quiet(ctx, w, ss)
    if not todo:
        ctx.skip("untimed", "", "no search found")
    ctx.assume += ["the steady clock does not go backwards", "a time limit that is zero or negative means none, as documented"]


def quiet(ctx, w, ss):
    """iterators have no time limit: nothing they reach reads the clock"""
    I = interp(w, None)
    for s in ss:
        if s.kind != "enum":
            continue
        site = I.where(s.entry["L"])
        hit = [x for x in S.reach(w, s.entry) if S.is_clock(w, x)]
        if hit:
            ctx.bad("untimed", s.name, site, "%s reaches a clock read in %s, it has no time limit" % (short(s.entry["q"]), short(w.fns[hit[0]]["q"])))
        else:
            ctx.ok("untimed", site, "%s reads no clock" % short(s.entry["q"]))


def clocks(p):
    """clock readings a value depends on"""
    return {a for a in deep_atoms(p) if "clock" in str(tm.info(a)[0])} if isinstance(p, Poly) else set()


def entry(ctx, w, ss, cls, m, b, ns):
    I = interp(w, c14stop(w, ss, cls))
    I.cap = 5000
    name = "%s.%s" % (cls.split("::")[-1], m)
    A = arg_terms(w, I, b, ns)
    site = where(w, I, b)
    if A is None:
        ctx.skip("untimed", site, name + ": argument names do not fit the parameters")
        return
    by = {s.entry["id"]: s for s in ss}
    reads = {s.entry["id"]: any(S.is_clock(w, x) for x in S.reach(w, s.entry)) for s in ss}
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    ctx.count("entry points")
    tl = A.get("time_limit")
    for s, v in res:
        t = trace(s.ev)
        ctx.count("paths")
        free = tl is None or entails(s.facts, ge(neg(tl)))
        timed = tl is not None and entails(s.facts, gt(tl))
        calls = [(n, e) for n, e in enumerate(t) if e.k == "icall" and e.d["fn"] in by]
        ctx.count("search calls on paths", len(calls))
        for n, e in calls:
            sr = by[e.d["fn"]]
            at = I.where(e.L)
            if not reads[e.d["fn"]]:
                if timed and sr.kind == "dfs":
                    ctx.bad("timed", name, at, "%s: %s, which never checks the deadline, runs although there is a time limit" % (name, sr.name))
                else:
                    ctx.ok("timed" if timed else "untimed", at, "%s: %s reads no clock" % (name, sr.name))
                continue
            if free:
                ctx.bad("untimed", name, at, "%s: %s, which reads the clock, runs although there is no time limit" % (name, sr.name))
                continue
            if not timed:
                if tl is not None and precise(e.facts, tl):
                    ctx.bad("untimed", name, at, "%s: %s, which reads the clock, runs whether or not there is a time limit" % (name, sr.name))
                else:
                    ctx.skip("untimed", at, name)
                continue
            ctx.ok("timed", at, "%s: %s runs under a time limit" % (name, sr.name))
            begun = [x for x in t[:n] if x.k == "clock"]
            if begun:
                ctx.ok("started", at, "%s: the start time is noted at %s" % (name, I.where(begun[-1].L)))
            else:
                ctx.bad("started", name, at, "%s: %s runs without the start time having been noted" % (name, sr.name))
            kept(ctx, w, I, name, sr, s, e, cls, at)
        if free:
            bad = None
            for c in s.facts.all():
                if any(clocks(p) for p in tm.cond_polys(c)):
                    bad = "a branch"
            for x in flat(t):
                if x.k == "store" and clocks(x.d["val"]) and not timefield(w, x.d["loc"]):
                    bad = "the value stored at %s" % I.where(x.L)
            if clocks(v):
                bad = "the result"
            if bad:
                ctx.bad("unaffected", name, site, "%s: without a time limit %s depends on the clock" % (name, bad))
            else:
                ctx.ok("unaffected", site, "%s: a path without time limit" % name)


def timefield(w, loc):
    n = next((p[1:] for p in reversed(loc[0]) if isinstance(p, str) and p.startswith(".")), None)
    return any(f["n"] == n and ("chrono" in f["t"] or "time" in f["t"]) for r in w.recs.values() for f in r["fields"])


def kept(ctx, w, I, name, sr, s, e, cls, at):
    """the field of the graph object given to the search holds what it returned"""
    ints = [v for k, v in e.d["own"].values() if k in ("u", "i") and isinstance(v, Poly)]
    ret = e.d["ret"]
    fs = [x["n"] for x in w.recs[cls]["fields"] if I.kind(strip(x["t"])) in ("u", "i")]
    e0 = empty_state()
    src = [n for n in fs if any(v == I.rd(e0, (((("g", "self"), "." + n)), ()), "unsigned long") for v in ints)]
    if not src:
        src = [n for n in fs if isinstance(s.mem.get((("g", "self"), "." + n)), Poly) and s.mem[(("g", "self"), "." + n)] == ret]
        if not src:
            ctx.skip("kept", at, name)
            return
    v = I.rd(s, (((("g", "self"), "." + src[0])), ()), "unsigned long")
    if isinstance(v, Poly) and isinstance(ret, Poly) and entails(s.facts, eq(sub(v, ret))):
        ctx.ok("kept", at, "%s: %s holds the vertex the search returned" % (name, src[0]))
    elif isinstance(v, Poly) and precise(s.facts, v):
        ctx.bad("kept", name, at, "%s: %s is %s after the search, which returned %s" % (name, src[0], v, ret))
    else:
        ctx.skip("kept", at, name)


# ---- inside the timed search

def limits(I, w, op):
    e0 = empty_state()
    return [I.rd(e0, ((("g", "self"), "." + f["n"]), ()), f["t"]) for c in op.lineage() for f in w.recs[c]["fields"] if I.kind(strip(f["t"])) == "f"]


def within(fs, cs, ls):
    """is some reading known not to be past the limit?"""
    return any(entails(fs, ge(sub(l, c))) for c in cs for l in ls)


def past(fs, cs, ls):
    return any(entails(fs, ge(sub(c, l))) for c in cs for l in ls)


def unit(ctx, w, ss, op, f):
    I, res, thr = op.run(f)
    ctx.used(I)
    ctx.count("methods of timed searches")
    name, site = short(f["q"]), I.where(f["L"])
    ls = limits(I, w, op)
    base = (("g", op.graph_param(f)),)
    wr = sorted({n for m in op.methods.values() for n in fields_written(m)} & set(op.nat.fields) - {op.nat.cursor})
    seen = set()

    def walk_(t, cs):
        """cs: readings taken on this path in this call and this round of every loop"""
        cs = list(cs)
        for e in t:
            if e.k == "clock":
                cs.append(e.d["ret"])
                ctx.count("clock readings on paths")
            elif e.k == "reccall" or (e.k == "icall" and e.d["fn"] in op.cut and e.d["fn"] != f["id"] and e.d["fn"] in rec):
                deadline(e, cs)
            elif e.k == "store" and e.d["loc"][0][:1] == base and len(e.d["loc"][0]) > 1 and e.d["loc"][0][1][1:] in wr:
                if past(e.facts, cs, ls):
                    ctx.bad("stop", name, I.where(e.L), "%s records a result after it found the deadline passed" % name)
            elif e.k == "loop" and id(e) not in seen:
                seen.add(id(e))
                for kind, t2, s2 in e.d["iters"]:
                    walk_(t2, cs)
                    if kind == "end" and any(x.k in ("push", "pop") and vecof(x) == op.states() for x in t2) and op.states():
                        n = [x.d["ret"] for x in t2 if x.k == "clock"]
                        if within(s2.facts, n, ls):
                            ctx.ok("poll", I.where(e.L), "%s: a round over the stacked states checks the deadline" % name)
                        else:
                            ctx.bad("poll", name + ":stack", I.where(e.L), "%s: a round over the stacked states goes on without checking the deadline" % name)
    rec = {i for i, g in op.cut.items() if i in called(g)}

    def deadline(e, cs):
        at = I.where(e.L)
        if within(e.facts, cs, ls):
            ctx.ok("poll", at, "%s: behind a check of the deadline" % name)
        elif e.k == "icall" and not loops_round(f, e):
            # the recursion checks the deadline itself
            ctx.ok("poll", at, "%s: %s checks the deadline" % (name, short(e.d["q"])))
        elif precise(e.facts, *ls):
            ctx.bad("poll", name, at, "%s: the search goes deeper without having checked the deadline" % name)
        else:
            ctx.skip("poll", at, name)

    def loops_round(g, e):
        return False
    for s, v in res:
        walk_(trace(s.ev), [])
    # a path on which the deadline was found passed does nothing more
    for s, v in res:
        cs = [x.d["ret"] for x in trace(s.ev) if x.k == "clock"]
        if cs and past(s.facts, cs, ls) and not within(s.facts, cs, ls):
            last = max(n for n, x in enumerate(trace(s.ev)) if x.k == "clock")
            more = [x for x in flat(trace(s.ev)[last:]) if x.k in ("reccall", "icall")]
            if more:
                ctx.bad("stop", name, I.where(more[0].L), "%s goes on searching after it found the deadline passed" % name)
            else:
                ctx.ok("stop", site, "%s: stops once the deadline has passed" % name)
    if f in op.roots:
        resume(ctx, w, op, f, I, res, ls, name, site, base)


def vecof(e):
    l = e.d.get("vec") or e.d.get("loc")
    return next((p[1:] for p in l[0] if isinstance(p, str) and p.startswith(".")), None) if l else None


def resume(ctx, w, op, f, I, res, ls, name, site, base):
    e0 = empty_state()
    starts = [(q["n"], I.rd(e0, ((("g", "self"), "." + q["n"]), ()), q["t"])) for c in [op.cls] for q in w.recs[c]["fields"]
              if I.kind(strip(q["t"])) == "u"]
    ul = [n for n, t in op.nat.fields.items() if strip(t).replace("const ", "") == "unsigned long"]
    heads = []
    seen = set()
    for s, v in res:
        for e in trace(s.ev):
            if e.k != "loop" or id(e) in seen or not any(x.k == "icall" for _, t2, _ in e.d["iters"] for x in t2):
                continue
            seen.add(id(e))
            roots(ctx, op, I, e, ls, starts, name, heads)
    if not heads:
        ctx.skip("resume", site, "%s: loop over the vertices not found" % name)
        return
    for s, v in res:
        at = next((I.where(x.L) for x in reversed(trace(s.ev)) if x.k == "clock"), site)
        if not isinstance(v, Poly):
            ctx.skip("resume", at, name)
            continue
        ns = [I.rd(s, (base + ("." + n,), ()), "unsigned long") for n in ul]
        cs = [x.d["ret"] for x in trace(s.ev) if x.k == "clock"]
        late = past(s.facts, cs, ls) and not within(s.facts, cs, ls)
        if not late and any(isinstance(n, Poly) and entails(s.facts, ge(sub(v, n))) for n in ns if n is not None and "n_vert" in str(n)):
            ctx.ok("resume", at, "%s: went through every vertex" % name)
            continue
        hit = [(h, p) for h, p in heads if h.single() in v.atoms()]
        if hit and entails(s.facts, ge(sub(hit[0][0], v))):
            ctx.ok("resume", at, "%s: returns the vertex it had reached" % name)
        elif precise(s.facts, v):
            ctx.bad("resume", name + ":returned", at, "%s: returns %s on a path where it had reached %s" % (name, v, hit[0][0] if hit else "another vertex"))
        else:
            ctx.skip("resume", at, name)


def roots(ctx, op, I, e, ls, starts, name, heads):
    at = I.where(e.L)
    H, pre = e.d["head"], e.d["pre"]
    arg = None
    for kind, t2, s2 in e.d["iters"]:
        for x in t2:
            if x.k == "icall":
                for a in x.d["args"]:
                    if isinstance(a, Poly) and a.single() is not None:
                        arg = arg or a
    p = next((q for q in e.d["mod"] if isinstance(I.scal(H, q), Poly) and arg is not None and I.scal(H, q) == arg), None)
    if p is None:
        # the counter may have moved within the round
        p = next((q for q in e.d["mod"] if isinstance(I.scal(H, q), Poly) and I.scal(H, q).single() is not None and
                  any(isinstance(a, Poly) and I.scal(H, q).single() in a.atoms() for _, t2, _ in e.d["iters"] for x in t2 if x.k == "icall" for a in x.d["args"])), None)
    if p is None:
        ctx.skip("resume", at, "%s: which variable counts the vertices" % name)
        return
    h, first = I.scal(H, p), I.scal(pre, p)
    heads.append((h, p))
    if isinstance(first, Poly) and any(entails(pre.facts, ge(sub(v, first))) for n, v in starts):
        ctx.ok("resume", at, "%s: begins at the vertex it was told" % name)
    elif isinstance(first, Poly) and precise(pre.facts, first):
        ctx.bad("resume", name + ":first", at, "%s: begins at %s, not at the vertex it was told" % (name, first))
    else:
        ctx.skip("resume", at, name)
    for kind, t2, s2 in e.d["iters"]:
        if kind != "end":
            continue
        v = I.scal(s2, p)
        x = next((y for y in t2 if y.k == "icall"), None)
        here = I.where(x.L) if x else at
        if not isinstance(v, Poly) or sub(v, h).const() != 1:
            ctx.skip("resume", here, "%s: step of the vertex counter" % name)
            continue
        if x is None:
            cs = [y.d["ret"] for y in t2 if y.k == "clock"]
            if past(s2.facts, cs, ls) and not within(s2.facts, cs, ls):
                ctx.bad("resume", name + ":skipped", next(I.where(y.L) for y in t2 if y.k == "clock"), "%s: a vertex is passed over because the deadline has passed" % name)
            else:
                ctx.ok("resume", here, "%s: a vertex is passed over only because of the sizes" % name)
            continue
        k = t2.index(x)
        before = [y.d["ret"] for y in t2[:k] if y.k == "clock"]
        after = [y.d["ret"] for y in t2[k:] if y.k == "clock"]
        if within(s2.facts, before, ls):
            ctx.ok("poll", here, "%s: a vertex is taken up only before the deadline" % name)
        elif within(s2.facts, after, ls):
            ctx.ok("poll", here, "%s: the deadline is checked after every vertex" % name)
        elif precise(s2.facts, *ls):
            ctx.bad("poll", name + ":root", here, "%s: vertices are taken up without the deadline having been checked" % name)
        else:
            ctx.skip("poll", here, name)
        if within(s2.facts, after, ls):
            ctx.ok("resume", here, "%s: a vertex counts as finished only if the deadline had not passed when its search ended" % name)
        else:
            ctx.bad("resume", name + ":cut-short", here, "%s: a vertex whose search was cut short by the deadline counts as finished" % name)
