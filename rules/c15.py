from .c12 import Fields
from .ops import *
from . import search as S
from .c14 import arg_terms, stop as c14stop, where

TECHNIQUE = "static analysis: write sets over the call graph of the searches, and abstract interpretation of reset, rebuild and the search entry points (clang AST) " \
            "comparing the state they leave with the state a graph is built with"
EXPLAIN = ("The fields that anything reachable from a search stores to are collected from the clang AST. The function that resets a graph, the functions "
           "that replace the graph of an object and the search entry points are interpreted on all paths. After a reset each of those fields must have "
           "a value no search can influence, equal to the one it is built with. After a rebuild the object must hold a new graph and its own "
           "fields must be as constructed. Limits set for one call must be back to their old value on every path out of the call, and a path on which the "
           "finished flag can be true must carry the fact that the exhaustive search returned a vertex past the last one.")


def run(ctx, prog):
    w = World(prog)
    ss = S.searchers(w)
    nats = natives(w)
    ctx.rule("reset", "everything a search writes and a later search reads has the value of a freshly built graph after a reset")
    ctx.rule("members", "a reset puts the recorded members of every vertex back to the vertex itself")
    ctx.rule("rebuild", "building edges again gives a new graph and puts the state of the object back")
    ctx.rule("built", "everything a search writes has a value when a graph is built")
    ctx.rule("limit", "what a call sets for its own search is put back when the call ends")
    ctx.rule("finished", "the finished flag is set only if the exhaustive search went past the last vertex")
    ctx.rule("through", "an exhaustive search returns a vertex past the last one only after going through all of them")
    ops = operators(w, nats)
    todo = []
    for cls, nat in nats.items():
        sets = writes(w, cls, nat, ops)
        todo.append(("built", cls, nat, sets))
        for m, b in sorted(w.graphs[cls]["methods"].items()):
            ns = [a[0] for a in b["args"] if a]
            if params_of(w, b) is None:
                continue
            if "use_dfs" in ns or "use_heuristic" in ns:
                todo.append(("entry", cls, nat, sets, m, b, ns))
            elif m.startswith("reset"):
                todo.append(("reset", cls, nat, sets, m, b))
        for f in w.fns.values():
            if f.get("class") == cls and f.get("body") and not f.get("ctor") and w.handle(cls)[0] in assigned(f["body"], cls):
                todo.append(("load", cls, nat, sets, f))
    for o in ops:
        if any(s.cls == o.cls and s.kind in ("dfs", "timed") for s in ss):
            for f in o.roots:
                todo.append(("root", o, f))
    go = {"entry": entry, "reset": reset, "load": load, "root": root, "built": built}
    pmap(ctx, todo, lambda c, t: go[t[0]](c, w, ss, *t[1:]))
    if not todo:
        ctx.skip("reset", "", "no graph found")
    ctx.assume += ["the scratch memory is balanced (C09)", "the start time is noted anew by every search (C20)"]


# ---- what the searches write

def assigned(n, cls, out=None):
    """names of fields of a class that are stored to"""
    out = set() if out is None else out

    def tgt(e):
        while isinstance(e, dict) and e.get("e") in ("cast", "sub"):
            e = e.get("a") or e.get("b")
        if isinstance(e, dict) and e.get("e") == "field" and e.get("c") == cls:
            out.add(e["n"])
    if isinstance(n, dict):
        if n.get("e") == "asg" or (n.get("e") == "un" and n.get("op") in ("++", "--")):
            tgt(n["a"])
        if n.get("e") in ("call", "mcall") and n.get("n") in ("operator=", "reset", "swap"):
            tgt(n.get("b") or (n.get("args") or [None])[0])
        if n.get("e") in ("call", "mcall") and n.get("opc") == "=" and n.get("args"):
            tgt(n["args"][0])
        for v in n.values():
            assigned(v, cls, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            assigned(v, cls, out)
    return out


def by_ref(w, n, cls, out):
    """fields of the class handed to a parameter that is a non-const reference"""
    if isinstance(n, dict):
        if n.get("e") in ("call", "mcall") and n.get("id") in w.fns:
            for p, a in zip(w.fns[n["id"]]["params"], n.get("args") or ()):
                while isinstance(a, dict) and a.get("e") == "cast":
                    a = a.get("a")
                if p.get("ref") and not p["t"].startswith("const ") and isinstance(a, dict) and a.get("e") == "field" and a.get("c") == cls:
                    out.add(a["n"])
        for v in n.values():
            by_ref(w, v, cls, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            by_ref(w, v, cls, out)
    return out


class Sets:
    pass


def timelike(t):
    return "chrono" in t or "time_point" in t


def writes(w, cls, nat, ops):
    z = Sets()
    fs = set()
    for m, b in w.graphs[cls]["methods"].items():
        ns = [a[0] for a in b["args"] if a]
        if "use_dfs" in ns or "use_heuristic" in ns or "size" in ns:
            f = target(w, b)
            if f is not None:
                fs |= S.reach(w, f)
    for o in ops:
        if o.nat is nat:
            for f in o.methods.values():
                fs |= S.reach(w, f)
    z.fns = {i for i in fs if i in w.fns and w.fns[i].get("body") and not w.fns[i].get("ctor")}
    z.py, z.nat, z.vert = set(), set(), set()
    for i in z.fns:
        body = w.fns[i]["body"]
        for c, s in ((cls, z.py), (nat.cls, z.nat), (nat.vcls, z.vert)):
            assigned(body, c, s)
            by_ref(w, body, c, s)
    z.nat -= {nat.cursor}
    z.nat = {n for n in z.nat if n in nat.fields and not timelike(nat.fields[n])}
    z.vert -= {nat.bits}
    return z


def target(w, b):
    t = b.get("target")
    if t and t[0] == "lambda":
        return {"id": "lambda", "body": t[1].get("body"), "inits": None}
    return w.fns.get(t[1]) if t else None


# ---- construction

def built(ctx, w, ss, cls, nat, z):
    I = interp(w, None)
    for c, names in ((nat.cls, z.nat), (cls, z.py)):
        ctors = [f for f in w.fns.values() if f.get("class") == c and f.get("ctor") and f.get("body") and not copying(f, c)]
        if not ctors:
            ctx.skip("built", "", "no constructor of " + c)
            continue
        for f in ctors:
            deleg = any(i.get("n") in (None, c.split("::")[-1]) for i in f.get("inits") or ())
            got = set()
            for i in S.reach(w, f) | {f["id"]}:
                if w.fns[i].get("body"):
                    assigned(w.fns[i]["body"], c, got)
                    got |= {x.get("n") for x in w.fns[i].get("inits") or ()} if w.fns[i].get("class") == c else set()
            rec = {x["n"]: x for x in w.recs[c]["fields"]}
            for n in sorted(names):
                if n in got or rec.get(n, {}).get("init") is not None:
                    ctx.ok("built", I.where(f["L"]), "%s::%s is set when built" % (c.split("::")[-1], n))
                elif deleg or I.kind(strip(rec.get(n, {}).get("t", ""))) not in ("u", "i", "b", "f"):
                    ctx.skip("built", I.where(f["L"]), n)
                else:
                    ctx.bad("built", "%s:%s" % (c.split("::")[-1], n), I.where(f["L"]),
                            "%s::%s, which the searches write and read, is not set when the graph is built" % (c.split("::")[-1], n))


def copying(f, c):
    return len(f["params"]) == 1 and strip(f["params"][0]["t"]).replace("const ", "") == c


def constructed(w, cls, n):
    """constant a field of the object has after default construction, or None"""
    for f in w.fns.values():
        if f.get("class") == cls and f.get("ctor") and f.get("body") is not None and not f["params"]:
            I = interp(w, None)
            try:
                res, thr = run_fn(I, f, empty_state(), this=gl("self"))
            except Exception:
                return None
            vs = {s.mem.get((("g", "self"), "." + n)) for s, _ in res}
            if len(vs) == 1:
                v = vs.pop()
                return v.const() if isinstance(v, Poly) else None
    return None


def start_value(w, nat, n):
    """constant stored to a field of the native graph by its constructors, or None"""
    out = set()
    for f in w.fns.values():
        if f.get("class") == nat.cls and f.get("ctor") and f.get("body") is not None and not copying(f, nat.cls):
            for x in f.get("inits") or ():
                if x.get("n") == n:
                    out.add(literal(x.get("a") or x.get("v") or x.get("init")))

            def rec(y):
                if isinstance(y, dict):
                    if y.get("e") == "asg" and y["a"].get("e") == "field" and y["a"]["n"] == n and y["a"].get("c") == nat.cls:
                        out.add(literal(y["b"]))
                    for v in y.values():
                        rec(v)
                elif isinstance(y, (list, tuple)):
                    for v in y:
                        rec(v)
            rec(f["body"])
    return out.pop() if len(out) == 1 else None


def literal(e):
    while isinstance(e, dict) and e.get("e") in ("cast", "asg"):
        e = e.get("a") if e["e"] == "cast" else e.get("b")
    if isinstance(e, dict) and e.get("e") in ("int", "float", "bool"):
        try:
            return float(e["v"])
        except (TypeError, ValueError, KeyError):
            return None
    return None


# ---- reset

def no_bits(w, nat):
    def f(fn):
        if fn.get("class") == nat.bcls and not fn.get("ctor"):
            return bits
        return False

    def bits(I, g, this, vals, st, node):
        I.event(st, "bits", node, op=g["n"], fn=g["id"], this=this, args=vals)
        if strip(g["rt"]) == "void":
            return [(st, ("unk", 0))]
        if g.get("rref"):
            return [(st, ("obj", this))]
        return [(st, I.opaque({"t": g["rt"]}, False))]
    return f


def reset(ctx, w, ss, cls, nat, z, m, b):
    I = interp(w, no_bits(w, nat))
    name = "%s.%s" % (cls.split("::")[-1], m)
    site = where(w, I, b)
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    root = (("g", "self"), "." + w.handle(cls)[0], "#p", "*")
    weighted = I.kind(strip(nat.fields.get(size_field(nat, z) or "", ""))) == "f"
    for s, v in res:
        ctx.count("reset paths")
        for n in sorted(z.nat):
            if restored(w, nat, n):
                ctx.count("fields put back by every call")
                continue
            x = s.mem.get(root + ("." + n,))
            key = "%s:%s" % (name, n)
            if x is None:
                ctx.bad("reset", key, site, "%s leaves %s::%s as the last search left it" % (name, nat.cls.split("::")[-1], n))
                continue
            if not isinstance(x, Poly):
                ctx.skip("reset", site, key)
                continue
            c = x.const()
            if c is not None:
                c0 = start_value(w, nat, n)
                if c0 is None:
                    if n == size_field(nat, z) or fresh_place(w, nat, n):
                        ctx.bad("reset", key, site, "%s sets %s::%s to %s, which is not the value it is built with" % (name, nat.cls.split("::")[-1], n, c))
                    else:
                        ctx.skip("reset", site, key)
                elif c == c0 or (not weighted and n == size_field(nat, z) and c in (0, 1)):
                    ctx.ok("reset", site, "%s: %s is %s, as built" % (name, n, c))
                else:
                    ctx.bad("reset", key, site, "%s sets %s::%s to %s, a new graph has %s" % (name, nat.cls.split("::")[-1], n, c, c0))
                continue
            src = sources(x)
            if src is None:
                ctx.skip("reset", site, key)
            elif src & (z.nat | z.py):
                ctx.bad("reset", key, site, "%s: %s::%s still depends on %s" % (name, nat.cls.split("::")[-1], n, ", ".join(sorted(src & (z.nat | z.py)))))
            else:
                kept = x.single() is not None and len(src) == 1 and copied(w, nat, src.copy().pop(), n)
                if kept:
                    ctx.ok("reset", site, "%s: %s is what was noted when the graph was built (%s)" % (name, n, x))
                elif precise(s.facts, x):
                    ctx.bad("reset", key, site, "%s sets %s::%s to %s, which is not the value it is built with" % (name, nat.cls.split("::")[-1], n, x))
                else:
                    ctx.skip("reset", site, key)
        own(ctx, w, I, cls, z, name, s, site, "reset", "the last search left it")
        for n in sorted(z.vert):
            ctx.bad("reset", "%s:%s" % (name, n), site, "%s: the searches write %s of a vertex, which a reset does not put back" % (name, n)) \
                if not any(e.k == "store" and ("." + n) in e.d["loc"][0] for e in flat(trace(s.ev))) else ctx.ok("reset", site, n)
        members(ctx, I, nat, name, root, s, site)


def own(ctx, w, I, cls, z, name, s, site, rule, how):
    kinds = {x["n"]: I.kind(strip(x["t"])) for x in w.recs[cls]["fields"]}
    for n in sorted(z.py):
        if kinds.get(n) not in ("u", "i", "b", "f"):
            continue
        x = s.mem.get((("g", "self"), "." + n))
        c0 = constructed(w, cls, n)
        key = "%s:%s" % (name, n)
        if x is None:
            ctx.bad(rule, key, site, "%s leaves %s::%s as %s" % (name, cls.split("::")[-1], n, how))
        elif not isinstance(x, Poly) or c0 is None:
            ctx.skip(rule, site, key)
        elif entails(s.facts, eq(sub(x, num(c0)))):
            ctx.ok(rule, site, "%s: %s is %s, as constructed" % (name, n, c0))
        elif precise(s.facts, x):
            ctx.bad(rule, key, site, "%s sets %s::%s to %s, a new object has %s" % (name, cls.split("::")[-1], n, x, c0))
        else:
            ctx.skip(rule, site, key)


def size_field(nat, z):
    """the field of the native graph holding the size recorded: written by searches, and not used as an index"""
    c = [n for n in z.nat if "SIZE" in n.upper()]
    return c[0] if len(c) == 1 else None


def fresh_place(w, nat, n):
    return "LOCATION" in n.upper()


def sources(x):
    """names of the fields a value is read from, None if something else is involved"""
    out = set()
    for a in deep_atoms(x):
        t = tm.info(a)[0]
        if t[0] == "init" and isinstance(t[1][-1], str) and t[1][-1].startswith("."):
            out.add(t[1][-1][1:])
        elif t[0] in ("b2i", "app"):
            continue
        else:
            return None
    return out


def restored(w, nat, n):
    """is the field one that entry points put back themselves? those are judged by 'limit'"""
    return "LIMIT" in n.upper()


def copied(w, nat, src, n):
    """is src, in functions building the graph, stored from the field n after its last change, and nowhere else?"""
    hits = []
    for f in w.fns.values():
        if not f.get("body"):
            continue

        def rec(y, loops):
            if isinstance(y, dict):
                if y.get("e") == "asg" and y["a"].get("e") == "field" and y["a"].get("c") == nat.cls and y["a"]["n"] in (src, n):
                    b = y["b"]
                    while isinstance(b, dict) and b.get("e") == "cast":
                        b = b.get("a")
                    hits.append((f, y["a"]["n"], isinstance(b, dict) and b.get("e") == "field" and b.get("n") == n, literal(b) is not None, loops))
                for k, v in y.items():
                    rec(v, loops + (id(y),) if y.get("s") in ("for", "while", "do", "rfor") else loops)
            elif isinstance(y, (list, tuple)):
                for v in y:
                    rec(v, loops)
        rec(f["body"], ())
    mine = [h for h in hits if h[1] == src]
    copies = [k for k, h in enumerate(hits) if h[1] == src and h[2]]
    if not copies or not all((h[2] or h[3]) and h[0].get("class") == nat.cls for h in mine):
        return False
    for k in copies:
        f, loops = hits[k][0], hits[k][4]
        if loops or any(h[0] is f and h[1] == n for h in hits[k + 1:]):
            return False
    return True


def members(ctx, I, nat, name, root, s, site):
    """every vertex: bits cleared, then its own place set"""
    fl = Fields(nat)
    base = root + ("." + nat.vec, "[]")
    found = []
    n_bits = 0
    for e in trace(s.ev):
        if e.k != "loop":
            continue
        for kind, tr, st in e.d["iters"]:
            bs = [x for x in flat(tr) if x.k == "bits" and x.d["this"] and x.d["this"][0][:len(base)] == base]
            n_bits += len(bs)
            if kind == "end":
                found.append((e, bs, tr, st))
    loops = {id(e) for e, bs, _, _ in found if bs}
    if not n_bits:
        if any(x.k in ("bulk", "umcall", "ucall") for x in flat(trace(s.ev))):
            ctx.skip("members", site, name)
        else:
            ctx.bad("members", name, site, "%s leaves the members recorded for the vertices as the last search left them" % name)
        return
    for e, bs, tr, st in found:
        if id(e) not in loops:
            continue
        at = I.where(e.L)
        ops = [x.d["op"] for x in bs]
        if not bs:
            ctx.bad("members", name, at, "%s: there are vertices whose members are not put back" % name)
            continue
        last = max((n for n, o in enumerate(ops) if o == "clear"), default=None)
        if last is None:
            if set(ops) <= {"set", "reset"}:
                ctx.bad("members", name, at, "%s: the members recorded before are not cleared" % name)
            else:
                ctx.skip("members", at, name)
            continue
        rest = bs[last + 1:]
        sets = [x for x in rest if x.d["op"] == "set"]
        if not sets or len(rest) != len(sets):
            if rest:
                ctx.skip("members", at, name)
            else:
                ctx.bad("members", name, at, "%s: the vertex itself is not put back among its members" % name)
            continue
        for x in sets:
            a = x.d["args"][0] if x.d["args"] else None
            want = I.rd(st, (x.d["this"][0][:len(base)] + ("." + fl.spos,), x.d["this"][1][:1]), "unsigned long")
            if isinstance(a, Poly) and isinstance(want, Poly) and entails(x.facts, eq(sub(a, want))):
                ctx.ok("members", I.where(x.L), "%s: the members become the vertex itself" % name)
            elif isinstance(a, Poly) and precise(x.facts, a):
                ctx.bad("members", name, I.where(x.L), "%s: place %s is put among the members of a vertex whose own place is %s" % (name, a, want))
            else:
                ctx.skip("members", I.where(x.L), name)
        # range
        idx = {x.d["this"][1][0] for x in bs}
        if any(x.k == "elem" for x in tr):
            ctx.ok("members", at, "%s: goes over all vertices" % name)
            continue
        rng = [r for r in loop_range(e) if r[0] in idx]
        if not rng:
            ctx.skip("members", at, name)
            continue
        h, lo, hi, complete, p = rng[0]
        n = I.scal(s, root + (".n_vert",)) if "n_vert" in nat.fields else None
        sz = I.vsize(s, (root + ("." + nat.vec,), ()))
        fs = e.d["pre"].facts
        if not entails(fs, ge(sub(ONE, lo))):
            ctx.bad("members", name, at, "%s: starts with vertex %s" % (name, lo)) if precise(fs, lo) else ctx.skip("members", at, name)
        elif not complete:
            ctx.bad("members", name, at, "%s: stops before the last vertex" % name)
        elif any(isinstance(y, Poly) and entails(fs, ge(sub(hi, y))) for y in (n, sz)):
            ctx.ok("members", at, "%s: goes over all vertices" % name)
        elif precise(fs, hi):
            ctx.bad("members", name, at, "%s: ends before vertex %s, there are %s" % (name, hi, n))
        else:
            ctx.skip("members", at, name)


# ---- rebuild

def load(ctx, w, ss, cls, nat, z, f):
    def stop(g):
        if g.get("class") == nat.cls:
            return True
        return False
    I = interp(w, stop)
    name = "%s::%s" % (cls.split("::")[-1], f["n"])
    site = I.where(f["L"])
    res, thr = run_fn(I, f, empty_state(), this=gl("self"))
    ctx.used(I)
    h = (("g", "self"), "." + w.handle(cls)[0])
    for s, v in res:
        ctx.count("rebuild paths")
        made = [e for e in flat(trace(s.ev)) if e.k in ("sassign", "new", "assignobj") or (e.k == "store" and e.d["loc"][0][:2] == h)]
        mine = [e for e in made if e.k == "sassign" or e.k == "store"]
        if not made:
            ctx.bad("rebuild", name + ":graph", site, "%s: there is a path on which the graph before stays" % name)
        elif mine:
            ctx.ok("rebuild", I.where(mine[-1].L), "%s: a new graph is stored" % name)
        else:
            ctx.skip("rebuild", site, name)
        own(ctx, w, I, cls, z, name, s, site, "rebuild", "it was for the graph before")


# ---- search entry points

def entry(ctx, w, ss, cls, nat, z, m, b, ns):
    I = interp(w, c14stop(w, ss, cls))
    I.cap = 5000
    name = "%s.%s" % (cls.split("::")[-1], m)
    site = where(w, I, b)
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    ctx.count("entry points")
    by = {s.entry["id"]: s for s in ss}
    root = (("g", "self"), "." + w.handle(cls)[0], "#p", "*")
    lim = sorted(n for n in z.nat if restored(w, nat, n))
    for st, how in [(s, "returns") for s, _ in res] + [(t.st, "throws") for t in thr]:
        ctx.count("paths")
        for n in lim:
            p = root + ("." + n,)
            x = st.mem.get(p)
            if x is None:
                continue
            x0 = I.rd(empty_state(), (p, ()), nat.fields[n])
            key = "%s:%s" % (name, n)
            if isinstance(x, Poly) and entails(st.facts, eq(sub(x, x0))):
                ctx.ok("limit", site, "%s: %s is as before on a path that %s" % (name, n, how))
            elif isinstance(x, Poly) and precise(st.facts, x):
                last = [e for e in flat(trace(st.ev)) if e.k == "store" and e.d["loc"][0] == p]
                ctx.bad("limit", key, I.where(last[-1].L) if last else site,
                        "%s: a path that %s leaves %s at %s for the calls that follow" % (name, how, n, x))
            else:
                ctx.skip("limit", site, key)
    kinds = {x["n"]: I.kind(strip(x["t"])) for x in w.recs[cls]["fields"]}
    flags = [n for n in sorted(z.py) if kinds.get(n) == "b"]
    last = last_vertex(w, I, cls)
    for s, _ in res:
        t = trace(s.ev)
        rets = [e.d["ret"] for e in t if e.k == "icall" and e.d["fn"] in by and by[e.d["fn"]].kind in ("dfs", "timed") and isinstance(e.d["ret"], Poly)]
        pos = [I.rd(empty_state(), ((("g", "self"), "." + n), ()), "unsigned long") for n in sorted(z.py) if kinds.get(n) in ("u", "i")]
        for n in flags:
            x = s.mem.get((("g", "self"), "." + n))
            key = "%s:%s" % (name, n)
            if x is None:
                continue
            if not isinstance(x, Poly) or last is None:
                ctx.skip("finished", site, key)
                continue
            on = s.facts.add(tm.truth(x))
            if tm.contradictory(on) or entails(s.facts, eq(x)):
                ctx.ok("finished", site, "%s: %s is not set on a path" % (name, n))
                continue
            if any(entails(on, gt(sub(r, last))) for r in rets + pos):
                ctx.ok("finished", site, "%s: %s is set only if the search returned a vertex past the last" % (name, n))
            elif precise(on, x):
                ev = [e for e in flat(t) if e.k == "store" and e.d["loc"][0] == (("g", "self"), "." + n)]
                ctx.bad("finished", key, I.where(ev[-1].L) if ev else site, "%s: %s can be set although the exhaustive search %s" %
                        (name, n, "returned a vertex that is not past the last" if rets else "did not run"))
            else:
                ctx.skip("finished", site, key)


def last_vertex(w, I, cls):
    fs = [x["n"] for x in w.recs[cls]["fields"]]
    n = next((x for x in fs if x == "nvert"), None) or next((x for x in fs if "vert" in x.lower() and "cur" not in x.lower()), None)
    return I.rd(empty_state(), ((("g", "self"), "." + n), ()), "unsigned long") if n else None


def root(ctx, w, ss, op, f):
    I, res, thr = op.run(f)
    ctx.used(I)
    nat = op.nat
    base = None
    gp = op.graph_param(f)
    name = short(f["q"])
    site = I.where(f["L"])
    for s, v in res:
        ctx.count("paths through exhaustive searches")
        n = I.rd(s, ((("g", gp), ".n_vert"), ()), "unsigned long") if "n_vert" in nat.fields else None
        if not isinstance(v, Poly) or n is None:
            ctx.skip("through", site, name)
            continue
        if entails(s.facts, gt(sub(n, v))):
            ctx.ok("through", site, "%s: a path that stopped early says so" % name)
            continue
        loops = [e for e in trace(s.ev) if e.k == "loop" and any(x.k in ("icall", "reccall") and x.d["fn"] in op.methods for _, tr, _ in e.d["iters"] for x in flat(tr))]
        if not loops:
            if precise(s.facts, v) and not any(x.k == "icall" for x in flat(trace(s.ev))):
                ctx.bad("through", name, site, "%s: returns %s without having gone through the vertices" % (name, v))
            else:
                ctx.skip("through", site, name)
            continue
        e = loops[-1]
        st = {p: x for p, x in scalar_steps(e).items() if abs(x[2]) == 1}
        past = s.facts.add(ge(sub(v, n)))
        if tm.contradictory(past):
            ctx.ok("through", site, "%s: a path that stopped early says so" % name)
            continue
        if any(isinstance(s.mem.get(p), Poly) and entails(past, ge(sub(s.mem[p], n))) for p in st):
            ctx.ok("through", I.where(e.L), "%s: past the last vertex only when the loop over the vertices has ended" % name)
        elif st and precise(past, v, *[s.mem[p] for p in st if isinstance(s.mem.get(p), Poly)]):
            ctx.bad("through", name, I.where(e.L), "%s: returns %s, past the last vertex, although the loop over the vertices can have ended before it" % (name, v))
        else:
            ctx.skip("through", I.where(e.L), name)
