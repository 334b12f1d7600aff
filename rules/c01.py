from .common import *

EXPLAIN = ("Every Python entry point of the graph classes is interpreted with a receiver that has no vertices: once "
           "with an empty handle and once with a handle to a graph of zero vertices. Every path must end in a throw of "
           "std::runtime_error, and no path may dereference the handle before it is known to be set. Functions that "
           "write the handle or the vertex count must leave a set handle whenever the count can be non-zero.")

QUIET = ("__repr__", "__str__", "__init__")


def run(ctx, prog):
    w = World(prog)
    ctx.rule("raises", "an entry point called on an unbuilt graph ends in std::runtime_error on every path")
    ctx.rule("no-touch", "the graph handle is dereferenced only where it is known to be set")
    ctx.rule("built-iff-handle", "whoever sets the vertex count also sets the handle")
    native = {w.native(c) for c in w.pyg}

    def stop(f):
        return f["q"].startswith("cliquematch::detail::")

    for cls in w.pyg:
        hf, nat = w.handle(cls)
        nv = w.prop(cls, "n_vertices")
        if hf is None or nv is None:
            ctx.skip("raises", cls, "no handle field found")
            continue
        for name, b in sorted(w.graphs[cls]["methods"].items()):
            if name in QUIET or b["target"] is None:
                continue
            for case in ("no handle", "zero vertices"):
                check_entry(ctx, w, cls, hf, nv, name, b, case, stop, "self")
        # class invariant
        ctor = None
        for f in w.methods_of(cls):
            if f.get("ctor") and f.get("ck") not in ("copy", "move"):
                ctor = f
                I = interp(w, stop)
                st = empty_state()
                res, thr = run_fn(I, f, st)
                ctx.used(I)
                for s, _ in res:
                    v = I.rd(s, (gl("self")[0] + ("." + nv,), ()), "unsigned long")
                    p = I.rd(s, (gl("self")[0] + ("." + hf, "#p"), ()), "void *")
                    judge_inv(ctx, I, s, v, p, f, cls)
            elif not f.get("ctor") and not f.get("dtor") and writes(f, {hf, nv}, cls):
                I = interp(w, stop)
                st = empty_state()
                p0 = I.rd(st, (gl("self")[0] + ("." + hf, "#p"), ()), nat + " *")
                n0 = I.rd(st, (gl("self")[0] + ("." + nv,), ()), "unsigned long")
                for base in ([ne(p0[3])], [eq(p0[3]), eq(n0)]):
                    st = empty_state(base)
                    res, thr = run_fn(I, f, st)
                    ctx.used(I)
                    for s, _ in res:
                        v = I.rd(s, (gl("self")[0] + ("." + nv,), ()), "unsigned long")
                        p = I.rd(s, (gl("self")[0] + ("." + hf, "#p"), ()), nat + " *")
                        judge_inv(ctx, I, s, v, p, f, cls)
    # correspondence builders given unbuilt graphs
    for b in w.module:
        ps = params_of(w, b)
        if not ps:
            continue
        for i, p in enumerate(ps):
            t = strip(p["t"])
            if t in w.pyg and p["t"].startswith("const "):
                hf, nat = w.handle(t)
                nv = w.prop(t, "n_vertices")
                for case in ("no handle", "zero vertices"):
                    check_entry(ctx, w, t, hf, nv, b["name"], b, case, stop, p["n"])
    ctx.assume += ["graph classes and their entry points are those registered with pybind11",
                   "native (detail::) functions are not entered: the throw has to happen before them"]


def check_entry(ctx, w, cls, hf, nv, name, b, case, stop, who):
    I = interp(w, stop)
    st = empty_state()
    t = b["target"]
    root = gl(who)
    if t[0] == "lambda":
        p0 = t[1]["params"][0]
        if strip(p0["t"]).startswith("pybind11::object"):
            root = (gl(p0["n"])[0] + ("#cast",), ())
        elif strip(p0["t"]) == cls and who == "self":
            root = gl(p0["n"])
    nat = w.native(cls)
    hp = I.rd(st, (root[0] + ("." + hf, "#p"), ()), nat + " *")
    n = I.rd(st, (root[0] + ("." + nv,), ()), "unsigned long")
    base = [eq(n), eq(hp[3]) if case == "no handle" else ne(hp[3])]
    # other graphs that are only read may or may not be built
    st = empty_state(base)
    res, thr = run_target(I, w, b, st)
    ctx.used(I)
    ctx.count("entry points x cases")
    site = I.where(w.fns[t[1]]["L"] if t[0] == "fn" else t[1].get("L"))
    label = "%s.%s (%s)" % (cls.split("::")[-1] if who == "self" else who, name, case)
    evs = all_events(I, res, thr)
    touched = False
    for e in evs:
        if e.k == "sderef" and e.d["handle"][0][:len(root[0])] == root[0] and e.d["handle"][0][-1] == "." + hf:
            ctx.count("handle dereferences")
            if case == "no handle":
                ctx.bad("no-touch", name + ":" + fname(I, e), I.where(e.L),
                        "%s dereferences the handle of an unbuilt graph" % label, stack_str(I, e.stack))
                touched = True
    if not touched:
        ctx.ok("no-touch", site, label)
    # iterators may raise at the first step instead
    final = []
    for s, v in res:
        if isinstance(v, tuple) and v and v[0] == "obj" and w.iters:
            itcls = None
            for c in w.iters:
                if any((c.split("::")[-1]) == strip(x).split("::")[-1] for x in [ret_type(w, b)]):
                    itcls = c
            if itcls:
                nb = w.graphs[itcls]["methods"]["__next__"]
                I.sinks = [[]]
                r2 = I.call(w.fns[nb["target"][1]], v[1], [], s, {"L": nb["L"]})
                final += r2
                thr = thr + I.sinks[0]
                continue
        final.append((s, v))
    ok = True
    for s, v in final:
        ok = False
        if any(tm.cond_tainted(c) for c in s.facts.all()):
            ctx.skip("raises", site, label + ": path condition not understood")
        else:
            ctx.bad("raises", name, site, "%s returns normally instead of raising" % label,
                    [tm.show_cond(c) for c in list(s.facts.all())[:6]])
    for t2 in thr:
        if t2.tt != "std::runtime_error" and "std::runtime_error" not in t2.bases:
            ok = False
            ctx.bad("raises", name + ":type", I.where(t2.L), "%s throws %s, not RuntimeError" % (label, t2.tt))
    if ok:
        ctx.ok("raises", site, label)


def ret_type(w, b):
    t = b["target"]
    if t[0] == "fn":
        return w.fns[t[1]]["rt"]
    return t[1].get("rt", "")


def judge_inv(ctx, I, s, v, p, f, cls):
    site = I.where(f["L"])
    if isinstance(v, Poly) and entails(s.facts, eq(v)):
        ctx.ok("built-iff-handle", site, "%s leaves zero vertices" % short(f["q"]))
        return
    c = I.ptr_cond(p) if isinstance(p, tuple) else None
    if c is not None and entails(s.facts, c):
        ctx.ok("built-iff-handle", site, "%s leaves a set handle" % short(f["q"]))
        return
    ctx.bad("built-iff-handle", short(f["q"]), site,
            "%s can leave a non-zero vertex count without a graph (count %s)" % (short(f["q"]), v))


def writes(f, names, cls):
    hit = [False]

    def walk(x):
        if isinstance(x, dict):
            k = x.get("e")
            tgt = None
            if k == "asg":
                tgt = x["a"]
            elif k == "un" and x["op"] in ("++", "--"):
                tgt = x["a"]
            elif k == "call" and x.get("opc") == "=":
                tgt = x["args"][0]
            elif k == "mcall" and x.get("n") in ("reset", "swap"):
                tgt = x["b"]
            while isinstance(tgt, dict) and tgt.get("e") == "cast":
                tgt = tgt["a"]
            if isinstance(tgt, dict) and tgt.get("e") == "field" and tgt.get("n") in names and tgt.get("c") == cls:
                hit[0] = True
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(f.get("body"))
    return hit[0]
