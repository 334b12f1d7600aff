"""Model shared by the rules about the clique searches."""
from .front import *


def just_reset(ev, this, place):
    """was the place removed from the set, and the set not changed since?"""
    while ev:
        x = ev[1]
        if x.k == "bits":
            if x.d["op"] == "reset" and x.d["this"] == this:
                return x.d["args"] == [place] or x.d["args"] == (place,)
            if x.d["op"] not in ("count", "next", "operator[]"):
                return False
        elif x.k not in ("store", "init", "find", "deref", "index", "access", "read"):
            return False
        ev = ev[0]
    return False


class Native:
    """a native graph class and the parts of it the searches use"""

    def __init__(self, w, cls):
        self.w, self.cls = w, cls
        rec = w.recs[cls]
        self.fields = {f["n"]: f["t"] for f in rec["fields"]}
        self.load = self.clear = None
        ms = [f for f in w.fns.values() if f.get("class") == cls and f.get("body")]
        for f in ms:
            ps = f["params"]
            if len(ps) == 1 and strip(ps[0]["t"]).replace("const ", "") == "unsigned long" and f["rt"].replace(" ", "") == "unsignedlong*":
                self.load = f
        self.cursor = None
        if self.load:
            wr = fields_written(self.load)
            self.cursor = wr[0] if len(wr) == 1 else None
            for f in ms:
                ps = f["params"]
                if len(ps) == 1 and strip(ps[0]["t"]).replace("const ", "") == "unsigned long" and f["rt"] == "void" and self.cursor in fields_written(f):
                    self.clear = f
        # vertex table: vector of records with a bitset
        self.vec = self.vcls = self.bits = self.bcls = None
        for n, t in self.fields.items():
            if is_vec(strip(t)):
                el = strip(targs(strip(t))[0])
                if el in w.recs:
                    for g in w.recs[el]["fields"]:
                        bt = strip(g["t"])
                        if bt in w.recs and any(m["n"] == "operator[]" for m in w.fns.values() if m.get("class") == bt):
                            self.vec, self.vcls, self.bits, self.bcls = n, el, g["n"], bt
        self.words = [n for n, t in self.fields.items() if is_vec(strip(t)) and strip(targs(strip(t))[0]) == "unsigned long"]
        self.lists = self.words

    def finders(self):
        """functions that look a value up in a sorted list"""
        out = {}
        for f in self.w.fns.values():
            ps = f["params"]
            if not f.get("class") and len(ps) == 4 and ps[0]["t"].replace(" ", "") == "constunsignedlong*" and ps[3].get("ref") and f.get("body"):
                out[f["id"]] = f
        return out


def fields_written(f):
    out = []

    def tgt(e):
        while isinstance(e, dict) and e.get("e") in ("cast", "sub"):
            e = e.get("a") or e.get("b")
        if isinstance(e, dict) and e.get("e") == "field":
            out.append(e["n"])

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") == "asg":
                tgt(n["a"])
            if n.get("e") == "un" and n.get("op") in ("++", "--"):
                tgt(n["a"])
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(f.get("body"))
    return sorted(set(out))


def called(f):
    out = []

    def rec(n):
        if isinstance(n, dict):
            if n.get("e") in ("call", "mcall") and n.get("id"):
                out.append(n["id"])
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(f.get("body"))
    rec(f.get("inits"))
    return out


def has_loop(w, f, seen=None):
    seen = set() if seen is None else seen
    if f["id"] in seen:
        return True                 # recursion
    seen.add(f["id"])

    def rec(n):
        if isinstance(n, dict):
            return n.get("s") in ("for", "while", "do", "rfor") or any(rec(v) for v in n.values())
        return isinstance(n, list) and any(rec(v) for v in n)
    if rec(f.get("body")):
        return True
    return any(has_loop(w, w.fns[i], seen) for i in called(f) if i in w.fns and w.fns[i].get("class") == f.get("class") and i != f["id"])


def reach(w, f):
    out, todo = set(), [f]
    while todo:
        g = todo.pop()
        for i in called(g):
            if i in w.fns and i not in out and w.fns[i].get("body"):
                out.add(i)
                todo.append(w.fns[i])
    return out


class Op:
    """a search class working on a native graph"""

    def __init__(self, w, nat, cls):
        self.w, self.nat, self.cls = w, nat, cls
        ms = {f["id"]: f for f in w.fns.values() if f.get("class") == cls and f.get("body") and not f.get("ctor") and not f.get("dtor")}
        inner = {i for f in ms.values() for i in called(f) if i != f["id"]}
        self.methods = ms
        self.roots = [f for i, f in ms.items() if i not in inner and self.graph_param(f)]
        # methods analysed on their own: those given a vertex that contain loops, called from a root; and recursive ones
        self.cut = {}
        for i, f in ms.items():
            rec = i in called(f)
            if not self.graph_param(f) or f in self.roots:
                continue
            if rec or (len(f["params"]) >= 2 and any(i in called(r) for r in self.roots) and has_loop(w, f)):
                self.cut[i] = f
        self.units = self.roots + list(self.cut.values())
        self.name = cls.split("::")[-1]

    def graph_param(self, f):
        for p in f["params"]:
            if strip(p["t"]).replace("const ", "") == self.nat.cls and p.get("ref"):
                return p["n"]
        return None

    def lineage(self):
        out, todo = [], [self.cls]
        while todo:
            c = todo.pop()
            if c in self.w.recs and c not in out:
                out.append(c)
                todo += [strip(b) for b in self.w.recs[c]["bases"]]
        return out

    def states(self):
        """the vector of search states of the class, if it has one"""
        for f in self.w.recs[self.cls]["fields"]:
            t = strip(f["t"])
            if is_vec(t) and strip(targs(t)[0]) in self.w.recs:
                el = self.w.recs[strip(targs(t)[0])]
                if any(strip(g["t"]) == self.nat.bcls for g in el["fields"]):
                    return f["n"]
        return None

    def run(self, f, inline=(), cap=3000, pre=None):
        """interpret one method; calls on bit sets, the arena and lookups become events; pre(I, state) prepares the state"""
        w, nat = self.w, self.nat
        finders = nat.finders()
        own = {q["n"] for c in self.lineage() for q in w.recs[c]["fields"]}
        written = sorted({n for m in self.methods.values() for n in fields_written(m)} & set(nat.fields))

        def stop(g):
            if g["id"] == f["id"]:
                return False
            if g.get("class") == nat.bcls:
                return bits
            if nat.load and g["id"] == nat.load["id"]:
                return load
            if nat.clear and g["id"] == nat.clear["id"]:
                return clear
            if g["id"] in finders:
                return find
            if g.get("class") == nat.cls and g["id"] not in (nat.load or {}).get("id", "") and any(i in finders for i in called(g)):
                return find
            if g.get("class") == nat.cls and g["rt"] == "double" and not g["params"]:
                return clock
            if g["id"] in self.cut and g["id"] not in inline:
                return cut
            return False

        def bits(I, g, this, vals, st, node):
            I.event(st, "bits", node, op=g["n"] if not g.get("ctor") else "ctor", fn=g["id"], this=this, args=vals)
            ev = st.ev[1]
            if g.get("ctor"):
                return [(st, ("obj", this))]
            if strip(g["rt"]) == "void":
                return [(st, ("unk", 0))]
            if g.get("rref"):
                return [(st, ("obj", this))]
            ev.d["ret"] = I.opaque({"t": g["rt"]}, False)
            if g["n"] == "next" and len(vals) == 1 and isinstance(vals[0], Poly):
                low = vals[0]
                if just_reset(st.ev[0], this, low):
                    low = add(low, ONE)
                st.facts = st.facts.add(ge(sub(ev.d["ret"], low)))          # C17
            return [(st, ev.d["ret"])]

        def load(I, g, this, vals, st, node):
            loc = (this[0] + ("." + nat.cursor,), this[1])
            c = I.rd(st, loc, "unsigned long")
            I.event(st, "mem", node, op="load", n=vals[0], at=c, this=this)
            I.wr(st, loc, add(c, vals[0]) if isinstance(c, Poly) and isinstance(vals[0], Poly) else I.opaque({"t": "unsigned long"}, True))
            return [(st, ("ptr", this[0] + ("#arena", "[]"), this[1] + (c,), ONE))]

        def clear(I, g, this, vals, st, node):
            loc = (this[0] + ("." + nat.cursor,), this[1])
            c = I.rd(st, loc, "unsigned long")
            I.event(st, "mem", node, op="clear", n=vals[0], at=c, this=this)
            I.wr(st, loc, sub(c, vals[0]) if isinstance(c, Poly) and isinstance(vals[0], Poly) else I.opaque({"t": "unsigned long"}, True))
            return [(st, ("unk", 0))]

        def find(I, g, this, vals, st, node):
            I.event(st, "find", node, fn=g["id"], this=this, args=vals)
            ev = st.ev[1]
            for p, v in zip(g["params"], vals):
                if p.get("ref") and not p["t"].startswith("const ") and isinstance(v, tuple) and v and v[0] == "ref":
                    I.havoc_path(st, I.resolve(st, v[1])[0])
            ev.d["ret"] = I.opaque({"t": g["rt"]}, False)
            return [(st, ev.d["ret"])]

        def clock(I, g, this, vals, st, node):
            I.event(st, "clock", node, fn=g["id"])
            ev = st.ev[1]
            ev.d["ret"] = I.opaque({"t": "double"}, False)
            return [(st, ev.d["ret"])]

        def cut(I, g, this, vals, st, node):
            I.event(st, "icall", node, fn=g["id"], q=g["q"], this=this, args=vals)
            ev = st.ev[1]
            for p, v in zip(g["params"], vals):
                if isinstance(v, tuple) and v and v[0] == "ref" and strip(p["t"]).replace("const ", "") == nat.cls:
                    for n in written:
                        if n != nat.cursor:
                            I.havoc_path(st, I.resolve(st, v[1])[0] + ("." + n,))
            ws = {x for i in reach(w, g) | {g["id"]} for x in fields_written(w.fns[i])} & own
            ws |= {self.states()} - {None}
            for n in sorted(ws):
                I.havoc_path(st, this[0] + ("." + n,))
            if strip(g["rt"]) == "void":
                return [(st, ("unk", 0))]
            ev.d["ret"] = I.opaque({"t": g["rt"]}, False)
            return [(st, ev.d["ret"])]

        I = interp(w, stop)
        I.cap = cap
        st = empty_state()
        if pre is not None:
            st = pre(I, st) or st
        res, thr = run_fn(I, f, st)
        return I, res, thr


def natives(w):
    return {c: Native(w, w.native(c)) for c in w.pyg if w.native(c) in w.recs}


def operators(w, nats=None):
    out = []
    for nat in (nats or natives(w)).values():
        cs = sorted({f["class"] for f in w.fns.values() if f.get("class") and f["class"] != nat.cls and f.get("body") and not f.get("ctor") and
                     any(strip(p["t"]).replace("const ", "") == nat.cls and p.get("ref") and not p["t"].startswith("const ") for p in f["params"])})
        for c in cs:
            if c in w.pyg or not c.rsplit("::", 1)[0].endswith("detail"):
                continue
            o = Op(w, nat, c)
            if o.roots:
                out.append(o)
    return out
