"""Helpers shared by the rules: entry points, symbolic arguments, event walks."""
import os
import pickle
import sys
import traceback

from engine import terms as tm
from engine.terms import Poly, num, ZERO, ONE, add, sub, mul, neg, ge, gt, eq, ne, Facts, entails, T, F
from engine.interp import Interp, State, Ev, trace, strip, targs, is_vec, is_sptr, is_arr, Thrown
from engine.bindings import bindings

GRAPH_CLASSES = ("pygraph", "pynwgraph")


def short(q):
    return q.replace("cliquematch::", "").split("(")[0]


def gl(name):
    return ((("g", name),), ())


class World:
    """program plus the names the rules anchor on, found through the Python bindings"""

    def __init__(self, prog):
        self.prog = prog
        self.fns = prog["functions"]
        self.recs = prog["records"]
        self.binds = bindings(prog)
        self.graphs = {}
        for b in self.binds:
            c = b["cls"] or ""
            if c.startswith("pybind11::class_<"):
                cls = targs(c)[0]
                d = self.graphs.setdefault(cls, {"methods": {}, "statics": {}, "props": {}})
                k = {"def": "methods", "def_static": "statics", "def_readonly": "props"}.get(b["kind"])
                if k:
                    d[k][b["name"]] = b
        self.pyg = [c for c, d in self.graphs.items() if "n_vertices" in d["props"]]
        self.iters = [c for c, d in self.graphs.items() if "__next__" in d["methods"]]
        self.module = [b for b in self.binds if (b["cls"] or "").startswith("pybind11::module_")]

    def handle(self, cls):
        """field of a graph class that owns the native graph"""
        for f in self.recs[cls]["fields"]:
            if is_sptr(strip(f["t"])):
                return f["n"], strip(targs(strip(f["t"]))[0])
        return None, None

    def native(self, cls):
        return self.handle(cls)[1]

    def prop(self, cls, name):
        b = self.graphs[cls]["props"].get(name)
        return b["target"][1] if b and b["target"] else None

    def fn_by_q(self, q):
        return [f for f in self.fns.values() if f["q"] == q]

    def methods_of(self, cls):
        return [f for f in self.fns.values() if f.get("class") == cls]


def interp(world, stop=None):
    """interpreter that does not enter functions for which stop(f) is true"""
    I = Interp(world.prog)
    if stop is not None:
        def ic(I, f, this, vals, st, node):
            r = stop(f)
            if not r:
                return None
            if callable(r):
                return r(I, f, this, vals, st, node)
            I.event(st, "icall", node, fn=f["id"], q=f["q"], this=this, args=vals)
            ev = st.ev[1]
            for p, v in zip(f["params"], vals):
                if p.get("ref") and not p["t"].startswith("const ") and isinstance(v, tuple) and v and v[0] == "ref":
                    I.havoc_path(st, I.resolve(st, v[1])[0])
            if f.get("ctor"):
                return [(st, ("obj", this))]
            if strip(f["rt"]) == "void":
                return [(st, ("unk", 0))]
            if f.get("rref"):
                return [(st, ("obj", I.tmp()))]
            ev.d["ret"] = I.opaque({"t": f["rt"]}, False)
            return [(st, ev.d["ret"])]
        I.intercept = ic
    return I


def sym_args(I, st, params, prefix=""):
    vals = []
    for i, p in enumerate(params):
        l = gl(prefix + (p["n"] or "arg%d" % i))
        if p.get("ref"):
            vals.append(("ref", l))
        elif I.is_obj(p["t"]):
            vals.append(("obj", l))
        elif strip(p["t"]).startswith(("std::function", "pybind11::", "std::set", "std::basic_string")):
            vals.append(("obj", l))
        else:
            vals.append(I.rd(st, l, p["t"]))
    return vals


def run_fn(I, f, st, this=None, vals=None, prefix=""):
    """[(state, value)], [Thrown]"""
    I.sinks = [[]]
    if vals is None:
        vals = sym_args(I, st, f["params"], prefix)
    if this is None and f.get("class") and not f.get("static"):
        this = gl(prefix + "self")
    res = I.call(f, this, vals, st, {"L": f["L"]})
    return res, I.sinks[0]


def run_lambda(I, node, st, vals=None, prefix=""):
    I.sinks = [[]]
    if vals is None:
        vals = sym_args(I, st, node["params"], prefix)
    fr = {"no": I.newid(), "this": None, "map": {}, "f": None}
    I.frames.append(fr)
    v2 = [("obj", v[1]) if isinstance(v, tuple) and v and v[0] == "ref" else v for v in vals]
    res = I.apply(("clo", node, {}, None), [], v2, st, {"L": node.get("L"), "t": node.get("rt", "void")})
    I.frames.pop()
    return res, I.sinks[0]


def run_target(I, world, b, st, this=None, vals=None, prefix=""):
    t = b["target"]
    if t[0] == "fn":
        return run_fn(I, world.fns[t[1]], st, this, vals, prefix)
    return run_lambda(I, t[1], st, vals, prefix)


def params_of(world, b):
    t = b["target"]
    if t is None:
        return None
    if t[0] == "fn":
        f = world.fns.get(t[1])
        return f["params"] if f else None
    if t[0] == "lambda":
        return t[1]["params"]
    return None


def empty_state(facts=()):
    return State({}, Facts(None, tuple(facts)), None)


def flat(events, depth=0):
    """all events, descending into loop iterations"""
    for e in events:
        yield e
        if e.k == "loop":
            for kind, tr, s in e.d["iters"]:
                yield from flat(tr, depth + 1)


def all_events(I, res, thr):
    """distinct events over all outcomes"""
    seen = set()
    out = []

    def rec(evs):
        for e in evs:
            if id(e) in seen:
                continue
            seen.add(id(e))
            out.append(e)
            if e.k == "loop":
                for kind, tr, s in e.d["iters"]:
                    rec(tr)
    for s, _ in res:
        rec(trace(s.ev))
    for t in thr:
        rec(trace(t.st.ev))
    return out


def stack_str(I, stack):
    out = []
    for s in stack:
        f = I.fns.get(s)
        out.append(short(f["q"]) if f else "lambda")
    return out


def fname(I, ev):
    """innermost named function of an event"""
    for s in reversed(ev.stack):
        f = I.fns.get(s)
        if f:
            return short(f["q"])
    return "lambda"


def share_atoms(c, atoms):
    return any(p.atoms() & atoms for p in tm.cond_polys(c))


def deep_atoms(p, out=None):
    """atoms of a polynomial and of the terms inside its atoms"""
    if out is None:
        out = set()
    for a in p.atoms():
        if a in out:
            continue
        out.add(a)
        _deep(tm.info(a)[0], out)
    return out


def _deep(t, out):
    for x in t:
        if isinstance(x, Poly):
            deep_atoms(x, out)
        elif isinstance(x, tuple):
            _deep(x, out)


def precise(facts, *polys):
    """no unknown value takes part in these terms or in what is known about them"""
    at = set()
    for p in polys:
        if not isinstance(p, Poly) or p.tainted():
            return False
        deep_atoms(p, at)
    return not any(tm.cond_tainted(c) and share_atoms(c, at) for c in facts.all())


def pmap(ctx, items, fn, jobs=None):
    """run fn(child_ctx, item) for every item in forked processes and merge what they report"""
    from engine.check import Ctx
    jobs = jobs or min(8, os.cpu_count() or 1)
    if len(items) <= 1 or jobs <= 1 or os.environ.get("VERIF_SERIAL"):
        for it in items:
            fn(ctx, it)
        return
    queue = list(enumerate(items))
    running = {}
    done = {}
    import selectors
    sel = selectors.DefaultSelector()

    def start():
        i, it = queue.pop(0)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                c = Ctx(ctx.prop, ctx.tier, ctx.seed)
                c.rules = dict(ctx.rules)
                try:
                    fn(c, it)
                    data = pickle.dumps((c.obl, c.scope, c.notes, c.assume, c.rules, c.functions, c.unknown))
                except Exception:
                    data = pickle.dumps(("error", traceback.format_exc()))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        sel.register(r, selectors.EVENT_READ, i)
        running[i] = (pid, r, [])

    while queue or running:
        while queue and len(running) < jobs:
            start()
        for key, _ in sel.select():
            i = key.data
            pid, r, buf = running[i]
            chunk = os.read(r, 1 << 16)
            if chunk:
                buf.append(chunk)
                continue
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            del running[i]
            done[i] = b"".join(buf)
    for i in range(len(items)):
        data = pickle.loads(done[i]) if done[i] else ("error", "no answer")
        if data[0] == "error":
            raise RuntimeError(data[1])
        obl, scope, notes, assume, rules, functions, unknown = data
        for o in obl:
            if o["status"] == "violated":
                ctx.bad(o["rule"], o["key"].split(":", 1)[1], o["site"], o["what"], o["path"])
            else:
                ctx.obl.append(o)
        for k, v in scope.items():
            ctx.count(k, v)
        ctx.notes += [n for n in notes if n not in ctx.notes]
        ctx.assume += [n for n in assume if n not in ctx.assume]
        ctx.functions |= functions
        for k, v in unknown.items():
            ctx.unknown[k] = ctx.unknown.get(k, 0) + v
