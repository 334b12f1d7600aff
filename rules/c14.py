from .search import *
from .pywrap import Py, PyInterp, SELF, show, refs, has_unknown, Cls

TECHNIQUE = "static analysis: abstract interpretation of the bound entry points (clang AST) up to the search calls, and of the " \
            "wrappers' Python AST, with the binding table as the link between argument names and parameters"
EXPLAIN = ("Each public entry point that takes search options is interpreted with one symbol per named argument of its binding. "
           "At every call of a search class the facts on the path and the fields set must show that this search was asked for, "
           "that the bounds, deadline and starting point are the caller's, and every path must run the searches asked for. "
           "The Python wrappers are interpreted to see which option arrives under which name, and with which default.")

OPTIONS = ("lower_bound", "upper_bound", "time_limit", "use_heuristic", "use_dfs", "continue_search")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("asked-for", "a search runs only if its option asks for it")
    ctx.rule("not-skipped", "every path runs the searches asked for")
    ctx.rule("bounds", "the bounds in force during a search are those of the caller (or tighter ones the graph already has)")
    ctx.rule("deadline", "the time-limited search gets the caller's time limit")
    ctx.rule("start", "a search continues where the previous one stopped exactly when asked to")
    ctx.rule("size", "an iterator asks for cliques of the caller's size")
    ctx.rule("wrapper-options", "the wrappers pass each option on under its own name")
    ctx.rule("wrapper-defaults", "options left out mean the same through the wrappers as at the compiled entry point")
    ss = searchers(w)
    todo = []
    for cls in w.pyg:
        for m, b in sorted(w.graphs[cls]["methods"].items()):
            ns = [a[0] for a in b["args"] if a]
            if params_of(w, b) is None:
                continue
            if "use_dfs" in ns or "use_heuristic" in ns:
                todo.append(("search", cls, m, b, ns))
            elif "size" in ns:
                todo.append(("iter", cls, m, b, ns))
    pmap(ctx, todo, lambda c, t: (entry if t[0] == "search" else iterator)(c, w, ss, *t[1:]))
    wrappers(ctx, w)
    ctx.assume += ["pybind11 passes arguments by the names and positions of the binding"]


def stop(w, ss, cls):
    nat = w.native(cls)
    ent = {s.entry["id"]: s for s in ss}
    keep = {}

    def f(fn):
        if fn["id"] in ent:
            return snapshot
        if fn.get("class") == nat:
            k = fn["id"]
            if k not in keep:
                keep[k] = bool(reach(w, fn) & set(ent))
            return not keep[k]
        return False
    return f


def snapshot(I, f, this, vals, st, node):
    """event of a search call with the fields of the search object and of the graph; neither is changed"""
    def fields(loc, cls):
        out = {}
        for x in I.recs.get(cls, {}).get("fields", ()):
            if I.kind(strip(x["t"])) in ("u", "i", "b", "f"):
                out[x["n"]] = (I.kind(strip(x["t"])), I.rd(st, (loc[0] + ("." + x["n"],), loc[1]), x["t"]))
        return out
    own = fields(I.resolve(st, this), f["class"]) if this is not None else {}
    g = {}
    for p, v in zip(f["params"], vals):
        if isinstance(v, tuple) and v and v[0] in ("ref", "obj"):
            g = fields(I.resolve(st, v[1]), strip(p["t"]))
    I.event(st, "icall", node, fn=f["id"], q=f["q"], this=this, args=vals, own=own, graph=g)
    ev = st.ev[1]
    ev.d["ret"] = I.opaque({"t": f["rt"]}, False)
    return [(st, ev.d["ret"])]


def written(w, ss):
    """fields of the native graphs that the searches store to"""
    out = set()

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "asg" and isinstance(n.get("a"), dict) and n["a"].get("e") == "field":
                out.add((n["a"].get("c"), n["a"]["n"]))
            for v in n.values():
                rec(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                rec(v)
    for s in ss:
        for x in reach(w, s.entry):
            rec(w.fns[x].get("body"))
    return out


def arg_terms(w, I, b, ns):
    """{argument name: term} by position"""
    ps = params_of(w, b)
    if b["target"][0] == "lambda":
        ps = ps[1:]
    if len(ps) != len(ns):
        return None
    st = empty_state()
    return {n: I.rd(st, gl(p["n"]), p["t"]) for n, p in zip(ns, ps) if not p.get("ref") and not I.is_obj(p["t"])}


def entry(ctx, w, ss, cls, m, b, ns):
    I = interp(w, stop(w, ss, cls))
    I.cap = 5000
    name = "%s.%s" % (cls.split("::")[-1], m)
    nat = w.native(cls)
    A = arg_terms(w, I, b, ns)
    site = where(w, I, b)
    if A is None:
        ctx.skip("asked-for", site, name + ": argument names do not fit the parameters")
        return
    ctx.count("entry points")
    by = {s.entry["id"]: s for s in ss}
    wr = written(w, ss)
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    R = {}
    for s, v in res:
        ctx.count("paths")
        calls = [e for e in flat(trace(s.ev)) if e.k == "icall" and e.d["fn"] in by]
        kinds = {by[e.d["fn"]].kind for e in calls}
        f = s.facts
        h = A.get("use_heuristic")
        if h is not None and "heuristic" not in kinds:
            ok = entails(f, eq(h)) or ("continue_search" in A and entails(f, ne(A["continue_search"])))
            put(R, "not-skipped", site, name + ": heuristic", ok, f, h, "a path leaves out the heuristic although it was asked for")
        elif h is not None:
            put(R, "not-skipped", site, name + ": heuristic", True, f)
        d = A.get("use_dfs")
        if d is not None and not kinds & {"dfs", "timed"}:
            put(R, "not-skipped", site, name + ": exhaustive search", entails(f, eq(d)), f, d,
                "a path leaves out the exhaustive search although it was asked for")
        elif d is not None:
            put(R, "not-skipped", site, name + ": exhaustive search", True, f)
    for e in all_events(I, res, thr):
        if e.k == "icall" and e.d["fn"] in by:
            ctx.count("search calls on paths")
            call(w, I, R, name, A, e, by[e.d["fn"]])
            limits(w, I, R, name, A, e, by[e.d["fn"]], nat, wr)
    report(ctx, R)
    if not any(r[0] == "asked-for" for r in R):
        ctx.skip("asked-for", site, name + ": no search call found")


def where(w, I, b):
    t = b["target"]
    return I.where(w.fns[t[1]]["L"] if t[0] == "fn" else t[1].get("L"))


def put(R, rule, site, what, ok, facts, *rest):
    if ok:
        r = (True, None)
    else:
        polys = [x for x in rest if isinstance(x, Poly)]
        why = [x for x in rest if isinstance(x, str)]
        r = (False if precise(facts, *polys) else None, why[0] if why else "")
    R.setdefault((rule, site, what), []).append(r)


def report(ctx, R):
    for (rule, site, what), rs in R.items():
        bad = [why for r, why in rs if r is False]
        if bad:
            ctx.bad(rule, what.split(":")[0], site, "%s: %s" % (what, bad[0]))
        elif any(r is None for r, _ in rs):
            ctx.skip(rule, site, what)
        else:
            ctx.ok(rule, site, what)


def call(w, I, R, name, A, e, s):
    site = I.where(e.L)
    f = e.facts
    what = "%s: %s" % (name, s.name)
    opt = A.get("use_heuristic" if s.kind == "heuristic" else "use_dfs")
    if opt is not None and s.kind != "enum":
        put(R, "asked-for", site, what, entails(f, ne(opt)), f, opt, "runs although it was turned off")
    tl = A.get("time_limit")
    if tl is not None and s.kind == "dfs":
        put(R, "asked-for", site, what + ", no time limit", entails(f, ge(neg(tl))), f, tl, "the search without deadline runs although there is a time limit")
    if s.kind == "timed" and tl is not None:
        put(R, "asked-for", site, what + ", time limit", entails(f, gt(tl)), f, tl, "the search with deadline runs although there is no time limit")
    own = e.d["own"]
    if s.kind == "timed":
        if tl is not None:
            fl = [v for k, v in own.values() if k == "f"]
            put(R, "deadline", site, what, tl in fl, f, tl, *[v for v in fl] + ["the search gets %s" % ", ".join(map(str, fl))])
        c = A.get("continue_search")
        ints = [v for k, v in own.values() if k in ("u", "i")]
        kept = [v for v in ints if isinstance(v, Poly) and v.single() is not None and tm.info(v.single())[0][0] == "init"
                and tm.info(v.single())[0][1][0] == ("g", "self")]
        own_init = [I.rd(empty_state(), (((("g", "self"),) + ("." + x["n"],)), ()), x["t"]) for pc in w.pyg if w.native(pc) == s.native
                    for x in w.recs[pc]["fields"] if I.kind(strip(x["t"])) in ("u", "i")]
        same = [v for v in ints if isinstance(v, Poly) and any(entails(f, eq(sub(v, t))) for t in own_init)]
        kept = [v for v in kept if not entails(f, eq(v))]
        if c is not None and entails(f, eq(c)):
            put(R, "start", site, what + ", new search", not kept, f, c, "starts at %s of the previous search" % ", ".join(map(str, kept)))
        elif c is not None and entails(f, ne(c)):
            put(R, "start", site, what + ", continued search", bool(same), f, c, "does not start where the previous search stopped")
        elif c is not None:
            put(R, "start", site, what, False, f, c, "the start does not depend on whether the search is to be continued")


def limits(w, I, R, name, A, e, s, nat, wr):
    site = I.where(e.L)
    f = e.facts
    what = "%s: %s" % (name, s.name)
    g = {n: v for n, (k, v) in e.d["graph"].items() if isinstance(v, Poly)}
    fresh = {n: tm.info(v.single())[0][0] == "init" for n, v in g.items() if v.single() is not None}
    for opt, rec, text in (("lower_bound", True, "lower bound"), ("upper_bound", False, "upper bound")):
        x = A.get(opt)
        if x is None:
            continue
        a = x.single()
        has = [n for n, v in g.items() if a in deep_atoms(v)]
        wrong = [n for n in has if ((nat, n) in wr) != rec]
        if wrong:
            put(R, "bounds", site, "%s: %s" % (what, text), False, f, g[wrong[0]], "it is stored in %s" % wrong[0])
            continue
        # a bound that does not show up may be weaker than what the graph has
        mine = [n for n in g if ((nat, n) in wr) == rec]
        good = False
        for n in mine:
            d = sub(g[n], x) if rec else sub(x, g[n])
            if entails(f, ge(d)) and (g[n] == x or fresh.get(n) or g[n].single() is None or
                                      tm.info(g[n].single())[0][0] not in ("init",)):
                if g[n] == x or fresh.get(n) or not precise(f, g[n]):
                    good = True
        put(R, "bounds", site, "%s: %s" % (what, text), good, f, x, *[g[n] for n in has] +
            ["the search runs with %s" % (", ".join("%s = %s" % (n, g[n]) for n in has) or "a bound that does not depend on it")])


def iterator(ctx, w, ss, cls, m, b, ns):
    I = interp(w, stop(w, ss, cls))
    I.cap = 5000
    name = "%s.%s" % (cls.split("::")[-1], m)
    A = arg_terms(w, I, b, ns)
    site = where(w, I, b)
    if A is None or not isinstance(A.get("size"), Poly):
        ctx.skip("size", site, name + ": argument names do not fit the parameters")
        return
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    ctx.count("entry points")
    cs = {s.cls: s for s in ss if s.kind == "enum"}
    R = {}
    for s, v in res:
        ctx.count("paths")
        for e in flat(trace(s.ev)):
            if e.k == "enter" and e.d.get("this") and I.fns.get(e.d["fn"], {}).get("ctor") and I.fns[e.d["fn"]].get("class") in cs:
                c = I.fns[e.d["fn"]]["class"]
                l = I.resolve(s, e.d["this"])
                vals = [I.rd(s, (l[0] + ("." + x["n"],), l[1]), x["t"]) for x in w.recs[c]["fields"]
                        if I.kind(strip(x["t"])) in ("u", "i", "f")]
                x = A["size"]
                got = [v for v in vals if isinstance(v, Poly) and x.single() in deep_atoms(v)]
                put(R, "size", I.where(e.L), name, x in vals, s.facts, x, *got + ["the size arrives as %s" % (", ".join(map(str, got)) or "nothing")])
    report(ctx, R)
    if not R:
        ctx.skip("size", site, name + ": enumerator not found")


# ------------------------------------------------------------------ Python
def wrappers(ctx, w):
    py = Py(w)
    for c in py.cls:
        for m in py.methods(c):
            I = PyInterp(py.P)
            k, node = I.find(c, m)
            if node is None:
                continue
            ps = [a.arg for a in node.args.args + node.args.kwonlyargs]
            if not set(ps) & set(OPTIONS + ("size",)):
                continue
            ctx.count("wrapper methods")
            seen = {}
            for s, v in I.run(c, m):
                for e in s.events:
                    if e[0] != "call":
                        continue
                    n, a = py.bound(e[1], e[2], dict(e[3]))
                    if n is None or not set(a) & set(OPTIONS + ("size",)):
                        continue
                    site = "%s:%d" % e[4]
                    names = [x[0] for x in w.graphs[py.cpp]["methods"][n]["args"] if x]
                    for o in OPTIONS + ("size",):
                        if o not in names or o not in ps:
                            continue
                        what = "%s.%s to %s: %s" % (c.name, m, n, o)
                        if o not in a:
                            seen[(what, site)] = (False, "not passed on")
                            continue
                        val = I.freeze(s, a[o])
                        if val == ("p", o):
                            seen.setdefault((what, site), (True, None))
                        elif has_unknown(val):
                            seen[(what, site)] = (None, None)
                        elif ("p", o) not in refs(val):
                            seen[(what, site)] = (False, "gets %s" % show(val))
                        elif val[0] == "p" or val[0] in ("bin", "off", "cmp", "not"):
                            seen[(what, site)] = (False, "gets %s" % show(val))
                        else:
                            seen[(what, site)] = (None, None)
            for x in I.seen:
                ctx.functions.add("%s %s" % x)
            for (what, site), (r, why) in seen.items():
                if r:
                    ctx.ok("wrapper-options", site, what)
                elif r is False:
                    ctx.bad("wrapper-options", "%s.%s" % (c.name, m), site, what + ": " + why)
                else:
                    ctx.skip("wrapper-options", site, what)
            if seen:
                defaults(ctx, w, py, c, m, k, node)


def defaults(ctx, w, py, c, m, k, node):
    ref = {x[0]: x[1] for x in w.graphs[py.cpp]["methods"]["get_max_clique"]["args"] if x}
    a = node.args
    pairs = list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + \
        [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    site = "%s:%d" % (k.mod.rel, node.lineno)
    for x, d in pairs:
        if x.arg not in OPTIONS or x.arg not in ref:
            continue
        got, want = pyconst(d), cconst(ref[x.arg])
        what = "%s.%s: %s" % (c.name, m, x.arg)
        if got is None or want is None:
            ctx.skip("wrapper-defaults", site, what)
        elif got == want or (x.arg == "time_limit" and got <= 0 and want <= 0):
            ctx.ok("wrapper-defaults", site, what)
        else:
            ctx.bad("wrapper-defaults", "%s.%s" % (c.name, m), site, "%s is %s, %s by default at the compiled entry point" % (what, got, want))


def pyconst(n):
    import ast
    try:
        v = ast.literal_eval(n)
        return float(v) if isinstance(v, (int, float, bool)) else None
    except Exception:
        return None


def cconst(n):
    if isinstance(n, dict):
        if n.get("e") in ("int", "float", "bool", "num", "lit"):
            for k in ("v", "val", "value"):
                if k in n:
                    try:
                        return float(n[k])
                    except (TypeError, ValueError):
                        return None
        for k in ("a", "args"):
            if k in n:
                return cconst(n[k])
    if isinstance(n, list) and len(n) == 1:
        return cconst(n[0])
    if isinstance(n, (int, float)):
        return float(n)
    return None
