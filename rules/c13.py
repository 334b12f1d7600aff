from .c12 import obj, same
from .ops import *

TECHNIQUE = "static analysis: ownership of the graph followed from the bindings through the iterator's constructor (clang AST), and abstract " \
            "interpretation of one step of every iterator and of the enumerators behind it"
EXPLAIN = ("Every iterator class that refers to a graph must own the Python object that graph came from: the owning field must be initialised "
           "from the same object the reference is cast from at every place an iterator is made, and nothing may give it up. Every path "
           "through a step must return the clique kept for the vertex the enumerator just returned, or raise StopIteration exactly when that "
           "is beyond the last vertex. Every path through an enumerator must return either a vertex whose members it has just written or, "
           "finished, a number beyond the last vertex, and must do the latter again when called once more.")


def run(ctx, prog):
    w = World(prog)
    nats = natives(w)
    ctx.rule("owner", "an iterator owns the Python object its graph belongs to")
    ctx.rule("made", "the object owned is the one the graph reference comes from, wherever an iterator is made")
    ctx.rule("kept", "the object and the enumerator are kept for the iterator's life")
    ctx.rule("step", "a step returns the clique of the vertex just found and stops exactly beyond the last vertex")
    ctx.rule("found", "the enumerator returns a vertex only right after writing the members found for it")
    ctx.rule("whole", "the members written include the vertex just tried")
    ctx.rule("over", "an exhausted enumerator stays exhausted")
    ctx.rule("first", "the first vertex returned is a vertex of the graph")
    ctx.rule("same", "iterating over an iterator continues it")
    ops = operators(w, nats)
    enums = {}
    for cls in w.iters:
        ctx.count("iterators")
        en = step(ctx, w, cls, nats, ops)
        if en:
            enums[en[1]["id"]] = en
        owner(ctx, w, cls)
        again(ctx, w, cls)
    pmap(ctx, list(enums.values()), lambda c, it: enum(c, w, *it))
    if not w.iters:
        ctx.skip("owner", "", "no iterator class found")
    ctx.assume += ["the vertex count shown to Python is one less than the native one, which counts the unused vertex 0 (C05)",
                   "the graph is not built anew while an iterator over it is in use"]


# ---- expressions

def peel(e):
    while isinstance(e, dict):
        if e.get("e") == "cast":
            e = e["a"]
        elif e.get("e") == "ctor" and len(e.get("args", [])) == 1 and e.get("k") in ("copy", "move"):
            e = e["args"][0]
        elif e.get("e") == "call" and e.get("q", "").split("<")[0] in ("std::move", "std::forward", "std::ref") and e.get("args"):
            e = e["args"][0]
        else:
            break
    return e


def decls(body):
    out = {}

    def rec(n):
        if isinstance(n, dict):
            if n.get("s") == "decl":
                for d in n.get("vars") or n.get("d") or []:
                    if isinstance(d, dict) and d.get("init") is not None:
                        out[d["id"]] = d["init"]
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(body)
    return out


def root(e, env, depth=0):
    """variable an expression is a view of, or None"""
    e = peel(e)
    if not isinstance(e, dict) or depth > 20:
        return None
    if e.get("e") == "var":
        i = e.get("id")
        if i in env:
            r = root(env[i], env, depth + 1)
            return r if r is not None else i
        return i
    if e.get("e") == "mcall" and e.get("n") in ("cast",):
        return root(e["b"], env, depth + 1)
    if e.get("e") == "call" and e.get("q", "").startswith("pybind11::") and e.get("args") and e["q"].split("::")[1].split("<")[0] in (
            "cast", "reinterpret_borrow"):
        return root(e["args"][0], env, depth + 1)
    if e.get("e") == "ctor" and (e.get("c") or "").startswith("pybind11::") and len(e.get("args", [])) >= 1:
        return root(e["args"][0], env, depth + 1)
    if e.get("e") == "un" and e.get("op") in ("*", "&"):
        return root(e["a"], env, depth + 1)
    return None


def bodies(w):
    """(parameters, body, id or None, label, binding or None) of every function, lambdas bound to Python first"""
    lam = {}
    for b in w.binds:
        if b["target"] and b["target"][0] == "lambda":
            n = b["target"][1]
            lam[id(n)] = True
            yield n["params"], n["body"], None, b["name"], b
    for f in w.fns.values():
        if f.get("body"):
            bs = [b for b in w.binds if b["target"] and b["target"] == ("fn", f["id"])]
            yield f["params"], f["body"], f["id"], short(f["q"]), bs[0] if len(bs) == 1 else None


def exprs(n, pred, stop=None):
    if isinstance(n, dict):
        if pred(n):
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)) and not (stop and isinstance(v, dict) and stop(v)):
                yield from exprs(v, pred, stop)
    elif isinstance(n, list):
        for v in n:
            if not (stop and isinstance(v, dict) and stop(v)):
                yield from exprs(v, pred, stop)


# ---- ownership

def holds(t, cls_set):
    """True: a field of this type keeps the graph alive on its own; None: not known; False: it does not"""
    t = t.replace("const ", "").strip()
    if t.endswith("&") or t.endswith("*"):
        return None if "PyObject" in t or "_object" in t else False
    if t.startswith("pybind11::"):
        n = t[len("pybind11::"):].split("<")[0]
        if n in ("handle", "weakref"):
            return False
        return True
    if is_sptr(t):
        return True if strip(targs(t)[0]) in cls_set else False
    return False


def keep_alive(b):
    for a in (b or {"node": {"args": []}})["node"].get("args", [])[2:]:
        for x in exprs(a, lambda n: "pybind11::keep_alive<" in str(n.get("t", "")) or "pybind11::keep_alive<" in str(n.get("c", ""))):
            t = str(x.get("t") or x.get("c"))
            v = t[t.index("keep_alive<") + 11:].split(">")[0].replace("UL", "").replace(" ", "").split(",")
            if v == ["0", "1"]:
                return True
    return False


def owner(ctx, w, cls):
    I = interp(w, None)
    name = short(cls)
    rec = w.recs[cls]
    pyg = set(w.pyg)
    site = I.where(rec.get("L")) if rec.get("L") else ""
    refs = [f for f in rec["fields"] if strip(f["t"]).replace("const ", "").rstrip("*& ") in pyg and (f.get("ref") or f["t"].rstrip().endswith(("*", "&")))]
    if not refs:
        ctx.ok("owner", site, "%s does not refer to a graph it does not hold itself" % name)
        return
    ctx.used(I)
    ctors = [f for f in w.fns.values() if f.get("class") == cls and f.get("ctor") and f.get("body")]
    kinds = {f["n"]: holds(f["t"] + (" &" if f.get("ref") and not f["t"].rstrip().endswith("&") else ""), pyg) for f in rec["fields"] if f not in refs}
    own = [n for n, k in kinds.items() if k is True]
    maybe = [n for n, k in kinds.items() if k is None]
    lent = [f["n"] for f in rec["fields"] if strip(f["t"]) == "pybind11::handle"]
    made = [(ps, body, i, lab, b, x) for ps, body, i, lab, b in bodies(w)
            for x in exprs(body, lambda n: n.get("e") == "ctor" and n.get("c") == cls and n.get("k") not in ("copy", "move"))]
    # a body that holds a bound lambda is seen twice
    uniq = {}
    for m in made:
        k = id(m[5])
        if k not in uniq or uniq[k][4] is None and m[4] is not None:
            uniq.setdefault(k, m)
            if m[4] is not None:
                uniq[k] = m
    made = list(uniq.values())
    ctx.count("places iterators are made", len(made))
    if not own:
        bare = [m for m in made if not keep_alive(m[4])]
        inc = any(x.get("n") == "inc_ref" or "Py_IncRef" in str(x.get("q")) for f in ctors for x in exprs(f["body"], lambda n: n.get("e") in ("call", "mcall")))
        if made and not bare:
            ctx.ok("owner", site, "%s: every binding that makes one keeps the graph alive" % name)
        elif maybe or lent and inc:
            ctx.skip("owner", site, "%s: ownership through %s" % (name, ", ".join(maybe + lent)))
        else:
            ctx.bad("owner", name, site, "%s refers to a graph through %s but no field of it owns the graph's Python object" %
                    (name, ", ".join(f["n"] for f in refs)))
        return
    ctx.ok("owner", site, "%s owns the object behind %s through %s" % (name, refs[0]["n"], ", ".join(own)))
    # which constructor parameters reach the two
    for f in ctors:
        pid = {p["id"]: k for k, p in enumerate(f["params"])}
        ini = {i["n"]: i for i in f.get("inits") or []}
        env = decls(f["body"])

        def param(n):
            i = ini.get(n)
            r = root(i.get("x"), env) if i else None
            if r is None:
                for x in exprs(f["body"], lambda m: m.get("e") in ("asg", "call") and (m.get("e") == "asg" or m.get("opc") == "=")):
                    a, b = (x["a"], x["b"]) if x["e"] == "asg" else (x["args"][0], x["args"][1]) if len(x.get("args", [])) == 2 else (None, None)
                    a = peel(a)
                    if isinstance(a, dict) and a.get("e") == "field" and a.get("n") == n:
                        r = root(b, env)
            return pid.get(r)
        g = param(refs[0]["n"])
        os_ = {n: param(n) for n in own}
        if all(v is None for v in os_.values()):
            un = [n for n in own if n not in ini or not (ini[n].get("x") or {}).get("args")]
            asg = any(isinstance(peel(x.get("a") or (x.get("args") or [None])[0]), dict) and peel(x.get("a") or x["args"][0]).get("n") in own
                      for x in exprs(f["body"], lambda m: m.get("e") == "asg" or m.get("opc") == "="))
            if len(un) == len(own) and not asg:
                ctx.bad("made", name + ":ctor", I.where(f["L"]), "%s: the constructor leaves %s empty" % (name, ", ".join(own)))
            else:
                ctx.skip("made", I.where(f["L"]), "%s: where %s comes from" % (name, ", ".join(own)))
            continue
        for ps, body, i, lab, b, x in made:
            if x.get("id") != f["id"]:
                continue
            s_ = I.where(x["L"])
            if keep_alive(b):
                ctx.ok("made", s_, "%s: the binding keeps the graph alive" % lab)
                continue
            res = []
            for n, k in os_.items():
                if k is None or g is None:
                    res.append(None)
                    continue
                res.append(match(w, x["args"][g], x["args"][k], ps, body, i))
            if True in res:
                ctx.ok("made", s_, "%s made in %s owns the object its graph was taken from" % (name, lab))
            elif res and all(r is False for r in res):
                ctx.bad("made", "%s:%s" % (name, lab), s_, "%s made in %s does not own the object its graph was taken from" % (name, lab))
            else:
                ctx.skip("made", s_, "%s made in %s" % (name, lab))
    # nothing gives them up
    for f in w.fns.values():
        if not f.get("body") or f.get("class") != cls or f.get("ctor") or f.get("dtor"):
            continue
        hit = None
        for x in exprs(f["body"], lambda m: m.get("e") in ("asg", "call", "mcall")):
            a = None
            if x["e"] == "asg":
                a = x["a"]
            elif x["e"] == "call" and (x.get("opc") == "=" or x.get("q", "").startswith("std::move") or x.get("q", "").startswith("std::swap")) and x.get("args"):
                a = x["args"][0]
            elif x["e"] == "mcall" and not x.get("const") and x.get("n") in ("release", "dec_ref", "reset", "swap", "operator="):
                a = x.get("b")
            elif x["e"] == "mcall" and x.get("n") == "dec_ref":
                a = x.get("b")
            a = peel(a)
            if isinstance(a, dict) and a.get("e") == "field" and a.get("n") in own:
                hit = x
        if hit:
            ctx.bad("kept", "%s:%s" % (name, f["n"]), I.where(hit["L"]), "%s gives up the graph's object" % short(f["q"]))
        else:
            ctx.ok("kept", I.where(f["L"]), "%s leaves the owned object alone" % short(f["q"]))


def match(w, ge_, oe, ps, body, fid, depth=0):
    """do the two expressions view one variable?"""
    env = decls(body)
    a, b = root(ge_, env), root(oe, env)
    if a is None or b is None:
        e = peel(oe)
        if a is not None and isinstance(e, dict) and (e.get("e") == "ctor" and not e.get("args") or e.get("e") == "call" and not e.get("args")):
            return False                # an object made from nothing
        return None
    if a == b:
        return True
    pid = {p["id"]: k for k, p in enumerate(ps)}
    if a in pid and b in pid and fid is not None and depth < 4:
        # decided where the function is called
        res = []
        for ps2, body2, i2, lab2, b2 in bodies(w):
            for x in exprs(body2, lambda n: n.get("e") in ("call", "mcall") and n.get("id") == fid):
                if len(x.get("args", [])) > max(pid[a], pid[b]):
                    res.append(match(w, x["args"][pid[a]], x["args"][pid[b]], ps2, body2, i2, depth + 1))
        if res and all(r is True for r in res):
            return True
        if False in res:
            return False
        return None
    return False


# ---- one step

def step(ctx, w, cls, nats, ops):
    name = short(cls)
    b = w.graphs[cls]["methods"]["__next__"]
    tgt = b["target"]
    finders = {}
    for o in ops:
        for f in o.roots:
            finders[f["id"]] = (o, f)
    natcls = {n.cls for n in nats.values()}

    def stop(f):
        if f["id"] in finders:
            return found
        if f.get("class") in natcls and strip(f["rt"]).startswith("std::vector") and len(f["params"]) == 1 and strip(f["params"][0]["t"]).replace("const ", "") == "unsigned long":
            return members
        if f.get("class") in natcls and strip(f["rt"]).startswith("std::vector") and not f["params"]:
            return members
        if f.get("class") in w.pyg and strip(f["rt"]).startswith("std::pair"):
            return convert
        return False

    def found(I, f, this, vals, st, node):
        I.event(st, "find", node, fn=f["id"], this=this, args=vals)
        st.ev[1].d["ret"] = r = I.opaque({"t": f["rt"]}, False)
        st.facts = st.facts.add(ge(r))
        return [(st, r)]

    def members(I, f, this, vals, st, node):
        I.event(st, "members", node, fn=f["id"], this=this, args=vals)
        l = I.tmp()
        st.ev[1].d["ret"] = l
        return [(st, ("obj", l))]

    def convert(I, f, this, vals, st, node):
        I.event(st, "convert", node, fn=f["id"], this=this, args=vals, params=f["params"])
        l = I.tmp()
        st.ev[1].d["ret"] = l
        return [(st, ("obj", l))]

    I = interp(w, stop)
    if not tgt:
        ctx.skip("step", "", "%s.__next__" % name)
        return None
    res, thr = run_target(I, w, b, empty_state())
    ctx.used(I)
    site = I.where((w.fns[tgt[1]] if tgt[0] == "fn" else tgt[1])["L"])
    gf = [f for f in w.recs[cls]["fields"] if strip(f["t"]).replace("const ", "").rstrip("*& ") in w.pyg]
    out = None
    seen = False
    for s, v in res:
        t = [e for e in flat(trace(s.ev))]
        fs = [e for e in t if e.k == "find"]
        ms = [e for e in t if e.k == "members"]
        seen = True
        if not fs:
            if ms:
                ctx.bad("step", name + ":search", I.where(ms[-1].L), "%s: a step returns a clique without searching for one" % name)
            else:
                ctx.skip("step", site, "%s: a path that does not search" % name)
            continue
        out = finders[fs[-1].d["fn"]]
        r = fs[-1].d["ret"]
        if not ms:
            ctx.skip("step", site, "%s: what is returned" % name)
            continue
        m = ms[-1]
        msite = I.where(m.L)
        if not m.d["args"]:
            ctx.bad("step", name + ":vertex", msite, "%s: a step returns the best clique of the graph, not the one just found" % name)
            continue
        a = m.d["args"][0]
        if not (isinstance(a, Poly) and same(s.facts, a, r)):
            if isinstance(a, Poly) and precise(s.facts, a, r):
                ctx.bad("step", name + ":vertex", msite, "%s: the members of %s are returned, but the clique was found for %s" % (name, a, r))
            else:
                ctx.skip("step", msite, "%s: vertex asked for" % name)
            continue
        if t.index(m) < t.index(fs[-1]):
            ctx.bad("step", name + ":order", msite, "%s: the clique is read before the search" % name)
            continue
        # one graph searched and read
        ga = [x for x in fs[-1].d["args"] if isinstance(x, tuple) and x and x[0] in ("ref", "obj")]
        if ga and m.d["this"] is not None and I.resolve(s, ga[0][1]) != I.resolve(s, m.d["this"]):
            ctx.skip("step", msite, "%s: the graph searched and the graph read" % name)
            continue
        # within the graph
        n = count_of(I, w, s, cls, gf)
        if n is None:
            ctx.skip("step", msite, "%s: number of vertices" % name)
            continue
        if not entails(s.facts, ge(sub(n, r))):
            if precise(s.facts, n, r):
                ctx.bad("step", name + ":beyond", msite, "%s: a clique is returned although the enumerator may be beyond the last vertex" % name)
            else:
                ctx.skip("step", msite, "%s: vertex in range" % name)
            continue
        # the value returned
        want = m.d["ret"]
        cs = [e for e in t if e.k == "convert"]
        if cs:
            c = cs[-1]
            mine = [x for x in c.d["args"] if isinstance(x, tuple) and x and x[0] in ("obj", "ref") and origin(I, s, t, x[1]) == want]
            if not mine:
                ctx.skip("step", I.where(c.L), "%s: clique converted" % name)
                continue
            want = c.d["ret"]
        if isinstance(v, tuple) and v and v[0] in ("obj", "ref", "loc") and origin(I, s, t, v[1]) == want:
            ctx.ok("step", msite, "%s: returns the clique just found" % name)
        else:
            ctx.skip("step", msite, "%s: value returned" % name)
    nothrow = True
    for x in thr:
        nothrow = False
        t = list(flat(trace(x.st.ev)))
        fs = [e for e in t if e.k == "find"]
        th = [e for e in t if e.k == "throw"]
        tsite = I.where(th[-1].L) if th else site
        tt = str(th[-1].d.get("tt")) if th else ""
        if not fs:
            ctx.skip("step", tsite, "%s: raises without searching" % name)
            continue
        n = count_of(I, w, x.st, cls, gf)
        r = fs[-1].d["ret"]
        if "stop_iteration" not in tt:
            if th and tt:
                ctx.bad("step", name + ":raise", tsite, "%s: ends with %s, not StopIteration" % (name, tt.split("::")[-1]))
            else:
                ctx.skip("step", tsite, "%s: exception" % name)
            continue
        if n is None:
            ctx.skip("step", tsite, "%s: number of vertices" % name)
        elif entails(x.st.facts, gt(sub(r, n))):
            ctx.ok("step", tsite, "%s: stops when the enumerator is beyond the last vertex" % name)
        elif precise(x.st.facts, n, r):
            ctx.bad("step", name + ":early", tsite, "%s: raises StopIteration although a clique may have been found for the last vertex" % name)
        else:
            ctx.skip("step", tsite, "%s: when it stops" % name)
    if nothrow and seen:
        ctx.bad("step", name + ":never", site, "%s: never raises StopIteration" % name)
    # the enumerator is kept
    silent = any(not [e for e in flat(trace(x.st.ev)) if e.k == "find"] for x in thr)
    en = [f["n"] for f in w.recs[cls]["fields"] if any(o.cls in f["t"] for o in ops)]
    for f in w.fns.values():
        if f.get("class") == cls and f.get("body") and not f.get("ctor") and not f.get("dtor"):
            for x in exprs(f["body"], lambda m: m.get("e") in ("asg", "call", "mcall")):
                a = x["a"] if x["e"] == "asg" else x["args"][0] if x["e"] == "call" and x.get("opc") == "=" and x.get("args") else \
                    x.get("b") if x["e"] == "mcall" and x.get("n") in ("reset", "swap", "release", "operator=") else None
                a = peel(a)
                if isinstance(a, dict) and a.get("e") == "field" and a.get("n") in en:
                    if silent:
                        ctx.skip("kept", I.where(x["L"]), "%s: enumerator replaced" % name)
                    else:
                        ctx.bad("kept", "%s:%s" % (name, a["n"]), I.where(x["L"]), "%s replaces or drops the enumerator, so asking again does not end with StopIteration" % short(f["q"]))
    return out


def origin(I, s, t, loc):
    """object a location was moved or copied from"""
    seen = set()
    loc = I.resolve(s, loc)
    while loc not in seen:
        seen.add(loc)
        for e in reversed(t):
            if e.k == "assignobj" and I.resolve(s, e.d["loc"]) == loc and e.d.get("src"):
                loc = I.resolve(s, e.d["src"])
                break
    return loc


def count_of(I, w, s, cls, gf):
    if not gf:
        return None
    pc = strip(gf[0]["t"]).replace("const ", "").rstrip("*& ")
    n = w.prop(pc, "n_vertices")
    l = gl("self")
    g = I.resolve(s, (l[0] + ("." + gf[0]["n"],), l[1]))
    if gf[0]["t"].rstrip().endswith("*"):
        return None
    r = I.rd(s, (g[0] + ("." + n,), g[1]), "unsigned long") if n else None
    return r if isinstance(r, Poly) else None


def again(ctx, w, cls):
    b = w.graphs[cls]["methods"].get("__iter__")
    I = interp(w, None)
    name = short(cls)
    if not b or not b["target"]:
        ctx.skip("same", "", "%s has no __iter__" % name)
        return
    t = b["target"]
    f = t[1] if t[0] == "lambda" else w.fns.get(t[1])
    if not f or not f.get("body"):
        ctx.skip("same", "", name)
        return
    env = decls(f["body"])
    rs = list(exprs(f["body"], lambda n: n.get("s") == "ret"))
    ps = {p["id"] for p in f["params"]}
    for r in rs:
        e = peel(r.get("a"))
        v = root(e, env)
        if t[0] == "lambda" and v in ps:
            shared = True
            if not f["rt"].rstrip().endswith(("&", "*")):
                for q in w.recs[cls]["fields"]:
                    if strip(q["t"]).split("::")[-1] and q["t"] in w.recs and not q.get("ref"):
                        shared = False
            if shared:
                ctx.ok("same", I.where(r["L"]), "%s: iterating continues the same enumeration" % name)
            else:
                ctx.skip("same", I.where(r["L"]), "%s: the enumerator is copied" % name)
        elif t[0] == "fn" and isinstance(e, dict) and (e.get("e") == "this" or e.get("e") == "un" and (peel(e.get("a")) or {}).get("e") == "this"):
            ctx.ok("same", I.where(r["L"]), "%s: iterating continues the same enumeration" % name)
        else:
            ctx.skip("same", I.where(r["L"]), name)


# ---- enumerators

def enum(ctx, w, op, f):
    nat = op.nat
    name = short(f["q"])
    gp = op.graph_param(f)
    base = (("g", gp),)
    I, res, thr = op.run(f)
    ctx.used(I)
    site = I.where(f["L"])
    mine = (("g", "self"),)
    ul = [n for n, t in nat.fields.items() if strip(t).replace("const ", "") == "unsigned long"]
    own = [q["n"] for q in w.recs[op.cls]["fields"] if strip(q["t"]).replace("const ", "") == "unsigned long"]
    mp = base + ("." + nat.vec, "[]", "." + nat.bits)

    def val(s, path):
        return I.rd(s.clone() if hasattr(s, "clone") else s, (path, ()), "unsigned long")

    # the bound and the cursor: on the path that finishes, cursor >= bound is returned
    pairs = {}
    for s, v in res:
        if not isinstance(v, Poly):
            continue
        for n in ul:
            nv = val(s, base + ("." + n,))
            if isinstance(nv, Poly) and entails(s.facts, ge(sub(v, nv))):
                for c in own:
                    cv = val(s, mine + ("." + c,))
                    if isinstance(cv, Poly) and same(s.facts, cv, v):
                        pairs[(n, c)] = pairs.get((n, c), 0) + 1
    if not pairs:
        ctx.skip("over", site, "%s: no path that finishes" % name)
        return
    (bn, cn), _ = max(pairs.items(), key=lambda x: x[1])
    cpath, npath = mine + ("." + cn,), base + ("." + bn,)
    for s, v in res:
        t = trace(s.ev)
        where = last_site(I, t) or site
        if not isinstance(v, Poly):
            ctx.skip("found", where, "%s: value returned" % name)
            continue
        n = val(s, npath)
        if entails(s.facts, ge(sub(v, n))):
            c = val(s, cpath)
            if isinstance(c, Poly) and entails(s.facts, ge(sub(c, n))):
                ctx.ok("over", where, "%s: finished, and stays so" % name)
            elif resumes(op, f, s, npath):
                ctx.ok("over", where, "%s: finished, and finished again when called again" % name)
            elif isinstance(c, Poly) and precise(s.facts, c, n):
                ctx.bad("over", name + ":resume", where, "%s returns a number beyond the last vertex but leaves %s at %s" % (name, cn, c))
            else:
                ctx.skip("over", where, name)
            continue
        ws = [e for e in last_level(t) if e.k == "bits" and e.d["op"] not in ("count", "next", "operator[]", "ctor") and obj(e.d["this"])[0] == mp]
        if not ws:
            if precise(s.facts, v, n):
                ctx.bad("found", name + ":stale", where, "%s may return %s, a vertex of the graph, without having written the members found for it" % (name, v))
            else:
                ctx.skip("found", where, name)
            continue
        whole(ctx, I, name, last_level(t), ws[-1], s)
        at = obj(ws[-1].d["this"])[1][-1]
        if same(s.facts, at, v):
            ctx.ok("found", I.where(ws[-1].L), "%s: returns the vertex it has just written the members of" % name)
        elif precise(s.facts, at, v):
            ctx.bad("found", name + ":vertex", I.where(ws[-1].L), "%s writes the members of %s but returns %s" % (name, at, v))
        else:
            ctx.skip("found", I.where(ws[-1].L), name)

    # called again after it finished
    def pre(I2, st):
        a = I2.rd(st, (cpath, ()), "unsigned long")
        b = I2.rd(st, (npath, ()), "unsigned long")
        st.facts = st.facts.add(ge(sub(a, b)))
        return st
    I2, res2, _ = op.run(f, pre=pre)
    ctx.used(I2)
    for s, v in res2:
        n = I2.rd(s, (npath, ()), "unsigned long")
        where = last_site(I2, trace(s.ev)) or site
        if isinstance(v, Poly) and entails(s.facts, ge(sub(v, n))):
            ctx.ok("over", where, "%s: finished again when called again" % name)
        elif isinstance(v, Poly) and precise(s.facts, v, n):
            ctx.bad("over", name + ":again", where, "%s may return %s although it had already gone through every vertex" % (name, v))
        else:
            ctx.skip("over", where, name)

    # the first call
    for k in [g for g in w.fns.values() if g.get("class") == op.cls and g.get("ctor") and g.get("body") and g["params"] and not
              (len(g["params"]) == 1 and op.cls in g["params"][0]["t"])]:
        box = []

        def pre2(I3, st):
            r, _ = run_fn(I3, k, st, this=gl("self"))
            box.append(len(r))
            return box_state(r)
        for i in range(8):
            pick = i
            got = []

            def box_state(r):
                got.append(len(r))
                return r[min(pick, len(r) - 1)][0]
            I3, res3, _ = op.run(f, pre=pre2)
            if i == 0:
                ctx.used(I3)
            for s, v in res3:
                t = trace(s.ev)
                if any(e.k == "loop" for e in t) or not isinstance(v, Poly):
                    continue
                n = I3.rd(s, (npath, ()), "unsigned long")
                if entails(s.facts, ge(sub(v, n))):
                    continue
                where = last_site(I3, t) or site
                if entails(s.facts, ge(sub(v, ONE))):
                    ctx.ok("first", where, "%s: the first vertex returned is not the unused vertex 0" % name)
                elif precise(s.facts, v):
                    ctx.bad("first", name, where, "%s may return %s at the first call, which is no vertex of the graph" % (name, v))
                else:
                    ctx.skip("first", where, name)
            if not got or pick >= got[0] - 1:
                break


def resumes(op, f, s, npath):
    """does a call in the state left behind finish on every path?"""
    mem = {p: v for p, v in s.mem.items() if p[0] in (("g", "self"), npath[0])}
    I, res, _ = op.run(f, pre=lambda I2, st: State(dict(mem), s.facts, None))
    return bool(res) and all(isinstance(v, Poly) and entails(x.facts, ge(sub(v, I.rd(x, (npath, ()), "unsigned long")))) for x, v in res)


def whole(ctx, I, name, t, cp, s):
    """the place taken from the candidates is among the members handed over"""
    if cp.d["op"] not in ("copy_data", "copy_from") or not cp.d["args"]:
        return
    site = I.where(cp.L)
    src = obj(cp.d["args"][0])
    k = t.index(cp)
    took = [e for e in t[:k] if e.k == "bits" and e.d["op"] == "reset" and obj(e.d["this"]) != src]
    if not took or not isinstance(took[-1].d["args"][0], Poly):
        ctx.skip("whole", site, "%s: candidate taken" % name)
        return
    j = took[-1].d["args"][0]
    on = None
    for e in t[t.index(took[-1]):k]:
        if e.k == "bits" and e.d["op"] in ("set", "reset") and obj(e.d["this"]) == src and isinstance(e.d["args"][0], Poly) and same(s.facts, e.d["args"][0], j):
            on = e.d["op"] == "set"
    if on:
        ctx.ok("whole", site, "%s: the candidate taken is a member" % name)
    elif any(e.k == "bits" and e.d["op"] == "set" and obj(e.d["this"])[0][-1] == src[0][-1] and not isinstance(e.d["args"][0], Poly) for e in t[:k]):
        ctx.skip("whole", site, name)
    else:
        ctx.bad("whole", name, site, "%s hands over the members without the candidate just taken (place %s)" % (name, j))


def last_level(t):
    """events of the path, ending with those of the loop iteration it returned from"""
    return [e for e in t if e.k != "loop"]


def last_site(I, t):
    for e in reversed(t):
        if e.L:
            return I.where(e.L)
    return None
