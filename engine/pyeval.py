"""Path-sensitive abstract interpreter for the Python wrappers (over Python's ast; nothing is imported or run).

Values are terms (nested tuples). Sequences are described position by position: ('seq', p, elem, over) has, at position p of
`over`, the element elem. Lists, dicts and sets built by the code live in a heap so that append and item stores are followed."""
import ast
import warnings
import copy
import os

from .load import REPO

PKG = "cliquematch"
ROOTS = ("src/cliquematch",)
MAXPATHS = 64


class Mod:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding="utf-8") as f:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.tree = ast.parse(f.read(), path)
        self.names = {}
        self.classes = {}
        self.funcs = {}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value


class PyProg:
    def __init__(self):
        self.mods = {}
        base = os.path.join(REPO, ROOTS[0])
        for d, _, fs in os.walk(base):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                    name = PKG + ("" if rel == "__init__" else "." + rel)
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.mods[name] = Mod(name, p, os.path.relpath(p, REPO))
        for m in self.mods.values():
            self.bind(m)

    def bind(self, m):
        for s in m.tree.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("glob", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.names[a.asname or a.name] = ("glob", base + "." + a.name)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = Cls(m, s)
            elif isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.Constant):
                m.names[s.targets[0].id] = ("c", s.value.value)

    def lookup(self, q, depth=0):
        """('class', Cls) | ('func', mod, node) | ('glob', q)"""
        mod, _, n = q.rpartition(".")
        m = self.mods.get(mod)
        if m is None or depth > 8:
            return ("glob", q)
        if n in m.classes:
            return ("class", m.classes[n])
        if n in m.funcs:
            return ("func", m, m.funcs[n])
        if n in m.names:
            v = m.names[n]
            return self.lookup(v[1], depth + 1) if v[0] == "glob" else v
        return ("glob", q)

    def mro(self, c):
        """classes in order, ending with a dotted name for the base outside the package"""
        out = [c]
        seen = {c.name}
        todo = list(c.node.bases)
        m = c.mod
        while todo:
            b = todo.pop(0)
            q = None
            if isinstance(b, ast.Name):
                q = resolve_name(self, m, b.id)
            elif isinstance(b, ast.Attribute):
                q = ("glob", dotted(self, m, b))
            if q is None:
                continue
            r = self.lookup(q[1]) if q[0] == "glob" else q
            if r[0] == "class":
                if r[1].name not in seen:
                    seen.add(r[1].name)
                    out.append(r[1])
                    m = r[1].mod
                    todo = list(r[1].node.bases) + todo
            elif r[0] == "glob":
                out.append(r[1])
        return out

    def classes(self):
        for m in self.mods.values():
            yield from m.classes.values()


def resolve_name(P, m, n):
    if n in m.classes:
        return ("class", m.classes[n])
    if n in m.funcs:
        return ("func", m, m.funcs[n])
    return m.names.get(n)


def dotted(P, m, node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        b = m.names.get(node.id)
        parts.append(b[1] if b and b[0] == "glob" else node.id)
    return ".".join(reversed(parts))


class St:
    """one path"""

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.events = []
        self.quant = ()

    def fork(self):
        s = St()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = copy.deepcopy(self.heap)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.quant = self.quant
        return s


class Frame:
    def __init__(self, no, mod, cls, parents=()):
        self.no, self.mod, self.cls, self.parents = no, mod, cls, parents


BUILTINS = {"len", "range", "list", "tuple", "set", "dict", "zip", "enumerate", "map", "sorted", "reversed", "super", "next", "iter",
            "int", "float", "bool", "isinstance", "min", "max", "sum", "abs", "print", "getattr", "setattr", "hasattr", "type",
            "frozenset", "object", "any", "all", "filter", "callable", "str", "repr"}
COPIES = {"list", "tuple", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.float64", "copy.copy",
          "copy.deepcopy", "iter"}


class PyInterp:
    def __init__(self, P):
        self.P = P
        self.n = 0
        self.depth = 0
        self.seen = set()
        self.unknown = {}
        self.lams = {}
        self.objcls = {}

    def cls_of(self, v):
        return self.recv if v[0] == "self" else self.objcls.get(v)

    def next_of(self, st, v):
        """what an iterator gives: [(state, value)]"""
        if v[0] == "obj":
            c, m = self.find(self.objcls[v], "__next__")
            if m is not None:
                return self.enter(c, m, v, (), {}, st, None, None)
        return [(st, ("next", self.freeze(st, v)))]

    def new(self):
        self.n += 1
        return self.n

    def unk(self, why=""):
        self.unknown[why] = self.unknown.get(why, 0) + 1
        return ("unk", self.new())

    # --- entry
    def run(self, cls, fn, selfv=("self",), args=None, st=None):
        """[(state, value or None when it raised)] of a method called on a symbolic object with symbolic arguments"""
        st = st or St()
        m, node = self.find(cls, fn)
        if node is None:
            return []
        if args is None:
            args = {a.arg: ("p", a.arg) for a in node.args.args[1:] + node.args.kwonlyargs}
        fr = Frame(self.new(), m.mod, m)
        env = {node.args.args[0].arg: selfv} if node.args.args else {}
        env.update(args)
        st.envs[fr.no] = env
        self.recv = cls
        return self.body(node, fr, st)

    def find(self, cls, name, after=None):
        ok = after is None
        for c in self.P.mro(cls):
            if ok and isinstance(c, Cls) and name in c.methods:
                return c, c.methods[name]
            if c is after:
                ok = True
        return None, None

    def body(self, node, fr, st):
        self.seen.add((fr.mod.rel, fr.cls.name + "." + node.name if fr.cls else node.name))
        self.depth += 1
        out = []
        for s, k, v in self.block(node.body, fr, st):
            out.append((s, v if k == "ret" else (("c", None) if k == "go" else None)))
        self.depth -= 1
        return out

    # --- statements: [(state, 'go'|'ret'|'raise'|'break'|'continue', value)]
    def block(self, stmts, fr, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, k, v in self.stmt(s, fr, c):
                    if k == "go":
                        nxt.append(s2)
                    else:
                        done.append((s2, k, v))
            cur = nxt[:MAXPATHS]
        return [(c, "go", None) for c in cur] + done

    def stmt(self, s, fr, st):
        if isinstance(s, ast.Expr):
            return [(x, "raise" if v is None else "go", None) for x, v in self.ev(s.value, fr, st)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, "ret", ("c", None))]
            return [(x, "ret" if v is not None else "raise", v) for x, v in self.ev(s.value, fr, st)]
        if isinstance(s, ast.Assign):
            out = []
            for x, v in self.ev(s.value, fr, st):
                if v is None:
                    out.append((x, "raise", None))
                    continue
                ss = [x]
                for t in s.targets:
                    ss = [z for y in ss for z in self.assign(t, v, fr, y)]
                out += [(y, "go", None) for y in ss]
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [(st, "go", None)]
            return [(y, "go", None) for x, v in self.ev(s.value, fr, st) for y in self.assign(s.target, v, fr, x)]
        if isinstance(s, ast.AugAssign):
            e = ast.copy_location(ast.BinOp(left=load_of(s.target), op=s.op, right=s.value), s)
            out = []
            for x, v in self.ev(e, fr, st):
                out += [(y, "go", None) for y in self.assign(s.target, v, fr, x)]
            return out
        if isinstance(s, ast.If):
            out = []
            for x, b in self.cond(s.test, fr, st):
                out += self.block(s.body if b else s.orelse, fr, x)
            return out
        if isinstance(s, ast.For):
            return self.for_(s, fr, st)
        if isinstance(s, ast.While):
            y = self.havoc_assigned(s, fr, st)
            return [(y, "go", None)]
        if isinstance(s, ast.Raise):
            return [(st, "raise", None)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert)):
            if isinstance(s, ast.Import):
                for a in s.names:
                    st.envs[fr.no][a.asname or a.name.split(".")[0]] = ("glob", a.name)
            return [(st, "go", None)]
        if isinstance(s, ast.FunctionDef):
            i = self.new()
            self.lams[i] = (s, fr)
            st.envs[fr.no][s.name] = ("lam", i)
            return [(st, "go", None)]
        if isinstance(s, ast.Try):
            out = self.block(s.body, fr, st.fork())
            res = []
            for x, k, v in out:
                if k == "go":
                    res += self.block(s.orelse + s.finalbody, fr, x)
                else:
                    res.append((x, k, v))
            return res
        if isinstance(s, ast.With):
            cur = [st]
            for it in s.items:
                nxt = []
                for c in cur:
                    for x, v in self.ev(it.context_expr, fr, c):
                        if it.optional_vars is not None:
                            nxt += self.assign(it.optional_vars, self.unk("with"), fr, x)
                        else:
                            nxt.append(x)
                cur = nxt
            return [r for c in cur for r in self.block(s.body, fr, c)]
        if isinstance(s, ast.Break):
            return [(st, "break", None)]
        if isinstance(s, ast.Continue):
            return [(st, "continue", None)]
        return [(self.havoc_assigned(s, fr, st), "go", None)]

    def havoc_assigned(self, s, fr, st):
        st = st.fork()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.envs[fr.no][n.id] = self.unk("assigned in a statement not followed")
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                for x, v in self.ev(n.value, fr, st)[:1]:
                    if v and v[0] == "ref":
                        st.heap[v[1]] = {"k": "unk"}
                    elif isinstance(n, ast.Attribute):
                        st.heap.setdefault("attrs", {})[(v, n.attr)] = self.unk("attribute")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                for x, v in self.ev(n.func.value, fr, st)[:1]:
                    if v and v[0] == "ref":
                        st.heap[v[1]] = {"k": "unk"}
        return st

    def for_(self, s, fr, st):
        out = []
        for x, it in self.ev(s.iter, fr, st):
            if it is None:
                out.append((x, "raise", None))
                continue
            p = ("pos", self.new())
            el, over = self.items(x, it, p)
            saved = x.quant
            y = x.fork()
            y.quant = y.quant + ((p, over),)
            before = dict(y.envs[fr.no])
            res = []
            for z in self.assign(s.target, el, fr, y):
                res += self.block(s.body, fr, z)
            if len(res) == 1 and res[0][1] == "go" and not s.orelse:
                z = res[0][0]
                z.quant = saved
                for n, v in list(z.envs[fr.no].items()):
                    if before.get(n) != v:
                        z.envs[fr.no][n] = self.unk("assigned in a loop")
                out.append((z, "go", None))
            else:
                z = self.havoc_assigned(s, fr, x)
                z.quant = saved
                # a return inside the loop stays possible
                for w, k, v in res:
                    if k == "ret":
                        w.quant = saved
                        out.append((w, k, self.unk("returned from a loop")))
                out.append((z, "go", None))
        return out

    def items(self, st, it, p):
        """(element at position p, what it runs over)"""
        if it[0] == "call" and it[1] == ("glob", "range") and len(it[2]) == 1:
            n = it[2][0]
            return p, n[1] if n[0] == "len" else ("n", n)
        if it[0] == "call" and it[1] == ("glob", "zip"):
            return ("tuple",) + tuple(self.at(st, a, p) for a in it[2]), it[2][0] if it[2] else it
        if it[0] == "call" and it[1] == ("glob", "enumerate") and len(it[2]) == 1:
            return ("tuple", p, self.at(st, it[2][0], p)), it[2][0]
        return self.at(st, it, p), it

    def at(self, st, t, p):
        """element of a sequence at position p"""
        if t[0] == "seq":
            return subst(t[2], t[1], p)
        if t[0] == "ref":
            h = st.heap.get(t[1])
            if h and h["k"] == "seq":
                return subst(h["elem"], h["pos"], p)
            if h and h["k"] in ("list", "tuple"):
                if p[0] == "c" and isinstance(p[1], int) and -len(h["items"]) <= p[1] < len(h["items"]):
                    return h["items"][p[1]]
            return ("at", t, p)
        if t[0] in ("tuple", "list") and p[0] == "c" and isinstance(p[1], int) and -len(t) + 1 <= p[1] < len(t) - 1:
            return t[1:][p[1]]
        if t[0] == "call" and t[1][0] == "glob" and t[1][1] in COPIES and t[2]:
            return self.at(st, t[2][0], p)
        if t[0] == "call" and t[1] == ("glob", "range") and len(t[2]) == 1:
            return p
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("tolist", "copy") and not t[2]:
            return self.at(st, t[1][1], p)
        if t[0] == "call" and t[1] == ("glob", "numpy.take") and len(t[2]) >= 2:
            return ("sub", t[2][0], self.at(st, t[2][1], p))
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "take" and t[2]:
            return ("sub", t[1][1], self.at(st, t[2][0], p))
        if t[0] == "bin" and t[1] in ("+", "-") and t[3][0] == "c":
            return arith(t[1], self.at(st, t[2], p), t[3])
        if t[0] == "bin" and t[1] == "+" and t[2][0] == "c":
            return arith("+", self.at(st, t[3], p), t[2])
        if t[0] == "sub" and is_set(t[1]):
            i = t[2]
            if i[0] == "tuple" and len(i) == 3 and i[2] == FULL:
                i = i[1]
            if i[0] not in ("c", "slice", "tuple"):
                return ("sub", t[1], self.at(st, i, p))
        return ("at", t, p)

    # --- assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            st.envs[fr.no][t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    cur = [y for c in cur for y in self.assign(e.value, self.unk("starred"), fr, c)]
                else:
                    cur = [y for c in cur for y in self.assign(e, self.sub(c, v, ("c", i)), fr, c)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, fr, st):
                x.heap.setdefault("attrs", {})[(o, t.attr)] = v
                x.events.append(("setattr", o, t.attr, v, (fr.mod.rel, t.lineno)))
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, o in self.ev(t.value, fr, st):
                for y, i in self.ev(t.slice, fr, x):
                    self.store(y, o, i, v)
                    out.append(y)
            return out
        return [st]

    def store(self, st, o, i, v):
        if o[0] == "ref":
            h = st.heap.get(o[1])
            if h and h["k"] == "dict":
                if st.quant:
                    h["entries"].append((st.quant[-1] if len(st.quant) == 1 else None, i, v))
                    if len(st.quant) > 1:
                        h["k"] = "unk"
                else:
                    h["entries"].append((None, i, v))
                return
            if h and h["k"] == "list" and i[0] == "c" and not st.quant and isinstance(i[1], int) and i[1] < len(h["items"]):
                h["items"][i[1]] = v
                return
            if h is not None:
                st.heap[o[1]] = {"k": "unk"}

    # --- conditions
    def cond(self, e, fr, st):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for v in e.values:
                nxt = []
                for c in cur:
                    for x, b in self.cond(v, fr, c):
                        if b == isand:
                            nxt.append(x)
                        else:
                            out.append((x, b))
                cur = nxt
            return out + [(c, isand) for c in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, fr, st)]
        out = []
        for x, v in self.ev(e, fr, st):
            if v is None:
                continue
            out += self.decide(x, v)
        return out

    def decide(self, st, v):
        neg = False
        if v[0] == "cmp" and v[1] in ("is not", "!=") and v[3] == ("c", None):
            v, neg = ("cmp", "is", v[2], v[3]), True
        elif v[0] == "cmp" and v[1] == "==" and v[3] == ("c", None):
            v = ("cmp", "is", v[2], v[3])
        elif v[0] == "un" and v[1] == "not":
            return [(s, not b) for s, b in self.decide(st, v[2])]
        t = self.truth(st, v)
        if t is not None:
            return [(st, t != neg)]
        a, b = st, st.fork()
        a.facts[v] = True
        b.facts[v] = False
        return [(a, not neg), (b, neg)]

    def truth(self, st, v):
        if v in st.facts:
            return st.facts[v]
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "tuple" or v[0] == "list":
            return len(v) > 1
        if v[0] == "ref":
            h = st.heap.get(v[1])
            if h and h["k"] == "list":
                return bool(h["items"])
            return None
        if v[0] == "cmp" and v[1] == "is" and v[3] == ("c", None):
            if v[2][0] == "c":
                return v[2][1] is None
            if v[2][0] in ("ref", "tuple", "lam", "self", "seq", "glob"):
                return False
            if st.facts.get(v[2]) is True:
                return False
        if st.facts.get(("cmp", "is", v, ("c", None))) is True:
            return False
        if v[0] in ("lam", "self", "glob"):
            return True
        return None

    # --- expressions: [(state, term or None if it raised)]
    def evs(self, es, fr, st):
        cur = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for x, v in self.ev(e.value, fr, s):
                        items = self.fixed(x, v)
                        nxt.append((x, vs + (tuple(items) if items is not None else (("star", v),))))
                else:
                    for x, v in self.ev(e, fr, s):
                        nxt.append((x, vs + (v if v is not None else self.unk("raised"),)))
            cur = nxt
        return cur

    def fixed(self, st, v):
        if v[0] in ("tuple", "list"):
            return list(v[1:])
        if v[0] == "ref":
            h = st.heap.get(v[1])
            if h and h["k"] == "list":
                return list(h["items"])
        return None

    def ev(self, e, fr, st):
        if isinstance(e, ast.Constant):
            return [(st, ("c", e.value))]
        if isinstance(e, ast.Name):
            return [(st, self.name(e.id, fr, st))]
        if isinstance(e, ast.Attribute):
            return [(x, self.attr(x, v, e.attr) if v is not None else None) for x, v in self.ev(e.value, fr, st)]
        if isinstance(e, ast.Subscript):
            out = []
            for x, v in self.ev(e.value, fr, st):
                for y, i in self.ev(e.slice, fr, x):
                    out.append((y, self.sub(y, v, i)))
            return out
        if isinstance(e, ast.Slice):
            parts = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
            return [(x, ("slice",) + vs) for x, vs in self.evs(parts, fr, st)]
        if isinstance(e, ast.Tuple):
            return [(x, ("tuple",) + vs) for x, vs in self.evs(e.elts, fr, st)]
        if isinstance(e, ast.List):
            out = []
            for x, vs in self.evs(e.elts, fr, st):
                out.append((x, self.alloc(x, {"k": "list", "items": list(vs)})))
            return out
        if isinstance(e, ast.Dict):
            out = []
            for x, ks in self.evs([k for k in e.keys if k is not None], fr, st):
                for y, vs in self.evs([v for k, v in zip(e.keys, e.values) if k is not None], fr, x):
                    h = {"k": "dict", "entries": [(None, k, v) for k, v in zip(ks, vs)]}
                    out.append((y, self.alloc(y, h if all(k is not None for k in e.keys) else {"k": "unk"})))
            return out
        if isinstance(e, ast.Set):
            return [(x, ("set", ("list",) + vs)) for x, vs in self.evs(e.elts, fr, st)]
        if isinstance(e, ast.Lambda):
            i = self.new()
            self.lams[i] = (e, fr)
            return [(st, ("lam", i))]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comp(e, fr, st)
        if isinstance(e, ast.BinOp):
            out = []
            for x, vs in self.evs([e.left, e.right], fr, st):
                out.append((x, self.binop(x, OPS.get(type(e.op), "?"), *vs)))
            return out
        if isinstance(e, ast.UnaryOp):
            out = []
            for x, v in self.ev(e.operand, fr, st):
                if isinstance(e.op, ast.USub) and v[0] == "c" and isinstance(v[1], (int, float)):
                    out.append((x, ("c", -v[1])))
                elif isinstance(e.op, ast.Not):
                    t = self.truth(x, v)
                    out.append((x, ("c", not t) if t is not None else ("un", "not", v)))
                else:
                    out.append((x, ("un", type(e.op).__name__, v)))
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                return [(x, ("cmp", CMP.get(type(e.ops[0]), "?"), vs[0], vs[1]))
                        for x, vs in self.evs([e.left, e.comparators[0]], fr, st)]
            return [(x, ("cmps",) + vs) for x, vs in self.evs([e.left] + e.comparators, fr, st)]
        if isinstance(e, ast.BoolOp):
            # value of the expression: last operand evaluated
            cur, out = [st], []
            for i, v in enumerate(e.values):
                nxt = []
                for c in cur:
                    for x, t in self.ev(v, fr, c):
                        if i == len(e.values) - 1:
                            out.append((x, t))
                            continue
                        for y, b in self.decide(x, t):
                            if b == isinstance(e.op, ast.And):
                                nxt.append(y)
                            else:
                                out.append((y, t))
                cur = nxt
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for x, b in self.cond(e.test, fr, st):
                out += self.ev(e.body if b else e.orelse, fr, x)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, fr, st)
        if isinstance(e, ast.JoinedStr):
            return [(st, ("c", "text"))]
        if isinstance(e, ast.Starred):
            return [(x, ("star", v)) for x, v in self.ev(e.value, fr, st)]
        return [(st, self.unk(type(e).__name__))]

    def alloc(self, st, h):
        n = self.new()
        st.heap[n] = h
        return ("ref", n)

    def name(self, n, fr, st):
        for no in (fr.no,) + tuple(fr.parents):
            if n in st.envs.get(no, {}):
                return st.envs[no][n]
        r = resolve_name(self.P, fr.mod, n)
        if r is not None:
            if r[0] == "glob":
                l = self.P.lookup(r[1])
                if l[0] == "glob":
                    return l
                return ("def",) + self.defkey(l)
            if r[0] == "c":
                return r
            return ("def",) + self.defkey(r)
        return ("glob", n)

    def defkey(self, r):
        i = self.new()
        self.lams[i] = r
        return (r[1].name if r[0] == "class" else r[2].name, i)

    def attr(self, st, v, a):
        if v[0] == "glob":
            q = v[1] + "." + a
            l = self.P.lookup(q)
            return l if l[0] == "glob" else ("def",) + self.defkey(l)
        t = st.heap.get("attrs", {}).get((v, a))
        if t is not None:
            return t
        if v[0] == "self" or v in self.objcls:
            c, m = self.find(self.cls_of(v), a)
            if m is not None:
                i = self.new()
                self.lams[i] = ("bound", c, m, v)
                return ("bm", a, i)
            for k in self.P.mro(self.cls_of(v)):
                if isinstance(k, Cls) and a in k.attrs and isinstance(k.attrs[a], ast.Constant):
                    return ("c", k.attrs[a].value)
        return ("attr", v, a)

    def sub(self, st, v, i):
        if v[0] in ("tuple", "list", "seq"):
            return self.at(st, v, i)
        if v[0] == "ref":
            h = st.heap.get(v[1])
            if h and h["k"] == "dict":
                hit = None
                for q, k, val in h["entries"]:
                    if q is None:
                        if k == i:
                            hit = val
                        elif not (k[0] == "c" and i[0] == "c"):
                            return ("lookup", self.freeze(st, v), i)
                    else:
                        m = match_pos(k, q[0], i)
                        if m is None:
                            return ("lookup", self.freeze(st, v), i)
                        hit = subst(val, q[0], m)
                return hit if hit is not None else ("lookup", self.freeze(st, v), i)
            if h and h["k"] in ("list", "seq"):
                r = self.at(st, v, i)
                return r if r[0] != "at" else ("sub", v, i)
        if v[0] == "call" and v[1][0] == "glob" and v[1][1] in COPIES or i[0] == "pos":
            return self.at(st, v, i)
        return ("sub", v, i)

    def binop(self, st, op, a, b):
        if op == "+":
            x, y = self.fixed(st, a), self.fixed(st, b)
            if x is not None and y is not None:
                if a[0] == "tuple" and b[0] == "tuple":
                    return ("tuple",) + tuple(x + y)
                return self.alloc(st, {"k": "list", "items": x + y})
        if op in ("+", "-"):
            return arith(op, a, b)
        if op == "&":
            return ("bin", "&", a, b)
        return ("bin", op, a, b)

    def comp(self, e, fr, st):
        g = e.generators[0]
        out = []
        for x, it in self.ev(g.iter, fr, st):
            p = ("pos", self.new())
            el, over = self.items(x, it, p)
            f2 = Frame(self.new(), fr.mod, fr.cls, (fr.no,) + tuple(fr.parents))
            x.envs[f2.no] = {}
            for y in self.assign(g.target, el, f2, x):
                if g.ifs or len(e.generators) > 1:
                    out.append((y, self.unk("comprehension with a filter")))
                    continue
                if isinstance(e, ast.DictComp):
                    for z, vs in self.evs([e.key, e.value], f2, y):
                        out.append((z, self.alloc(z, {"k": "dict", "entries": [((p, over), vs[0], vs[1])]})))
                    continue
                rs = self.ev(e.elt, f2, y)
                for z, v in rs:
                    t = ("seq", p, self.freeze(z, v), over)
                    out.append((z, ("set", t) if isinstance(e, ast.SetComp) else t))
        return out

    # --- calls
    def call(self, e, fr, st):
        out = []
        f = e.func
        # super(...).m(...) and super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == "super":
            for x, (args, kw) in self.arglist(e, fr, st):
                selfv = self.first_param(fr, x)
                cl = self.cls_of(selfv) or self.recv
                c, m = self.find(cl, f.attr, after=fr.cls)
                if m is None:
                    base = [k for k in self.P.mro(cl) if isinstance(k, str)]
                    q = ("glob", (base[0] if base else "object") + "." + f.attr)
                    out.append(self.external(x, q, (selfv,) + args, kw, e, fr))
                else:
                    out += self.enter(c, m, selfv, args, kw, x, e, fr)
            return out
        for x, fv in self.ev(f, fr, st):
            if fv is None:
                out.append((x, None))
                continue
            for y, (args, kw) in self.arglist(e, fr, x):
                out += self.apply(y, fv, args, kw, e, fr)
        return out

    def first_param(self, fr, st):
        env = None
        for no in (fr.no,) + tuple(fr.parents):
            env = st.envs.get(no, {})
            for v in env.values():
                if v[0] in ("self", "obj"):
                    return v
        return ("self",)

    def arglist(self, e, fr, st):
        out = []
        for x, args in self.evs(e.args, fr, st):
            for y, kws in self.evs([k.value for k in e.keywords], fr, x):
                kw = {}
                for k, v in zip(e.keywords, kws):
                    kw[k.arg or "**"] = v
                out.append((y, (args, kw)))
        return out

    def apply(self, st, fv, args, kw, e, fr):
        if fv[0] == "bm":
            _, c, m, selfv = self.lams[fv[2]]
            return self.enter(c, m, selfv, args, kw, st, e, fr)
        if fv[0] == "lam":
            node, f2 = self.lams[fv[1]]
            return self.enter_lam(node, f2, args, kw, st)
        if fv[0] == "def":
            r = self.lams[fv[2]]
            if r[0] == "func":
                if self.depth > 12:
                    return [(st, self.unk("deep call"))]
                f2 = Frame(self.new(), r[1], None)
                env = bind(r[2].args, list(args), kw, self)
                st.envs[f2.no] = env
                return self.body(r[2], f2, st)
            # construction of an object of a class of the package
            o = ("obj", self.new(), r[1].name)
            self.objcls[o] = r[1]
            c, m = self.find(r[1], "__init__")
            if m is None:
                return [(st, o)]
            return [(s, o if v is not None else None) for s, v in self.enter(c, m, o, args, kw, st, e, fr)]
        if fv[0] == "attr" and fv[2] in ("append", "extend", "add", "update", "pop", "insert", "clear", "sort", "reverse", "items",
                                         "keys", "values", "get", "setdefault"):
            r = self.method(st, fv[1], fv[2], args, kw)
            if r is not None:
                return [(st, r)]
        if fv[0] == "glob":
            # unbound method of a class of the package called through its name
            q = fv[1]
            if q == "len" and len(args) == 1:
                a = args[0]
                fx = self.fixed(st, a)
                return [(st, ("c", len(fx)) if fx is not None else ("len", strip_copy(self.freeze(st, a))))]
            if q in ("set", "frozenset"):
                if not args:
                    return [(st, self.alloc(st, {"k": "setv", "items": []}))]
                return [(st, ("set", self.freeze(st, args[0])))]
            if q == "dict" and not args and not kw:
                return [(st, self.alloc(st, {"k": "dict", "entries": []}))]
            if q == "dict" and len(args) == 1 and not kw:
                p = ("pos", self.new())
                el, over = self.items(st, args[0], p)
                if el[0] == "tuple" and len(el) == 3:
                    return [(st, self.alloc(st, {"k": "dict", "entries": [((p, over), el[1], el[2])]}))]
            if q == "list" and not args:
                return [(st, self.alloc(st, {"k": "list", "items": []}))]
            if q == "map" and len(args) == 2:
                p = ("pos", self.new())
                el, over = self.items(st, args[1], p)
                rs = self.apply(st, args[0], (el,), {}, e, fr)
                return [(s, ("seq", p, self.freeze(s, v), over)) for s, v in rs if v is not None]
            if q in ("list", "tuple") and len(args) == 1 and args[0][0] in ("seq",):
                return [(st, args[0])]
            if q == "next" and len(args) == 1:
                return self.next_of(st, args[0])
            if q == "isinstance":
                return [(st, ("call", fv, args, ()))]
        return [self.external(st, fv, args, kw, e, fr)]

    def external(self, st, fv, args, kw, e, fr):
        fz = tuple(self.freeze(st, a) for a in args)
        kz = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        fv = self.freeze(st, fv)
        st.events.append(("call", fv, fz, kz, (fr.mod.rel, e.lineno)))
        for a in args:
            # code we do not see may change lists and dicts handed to it
            pass
        return (st, ("call", fv, fz, kz))

    def method(self, st, o, name, args, kw):
        if o[0] != "ref":
            return None
        h = st.heap.get(o[1])
        if h is None:
            return None
        if h["k"] == "list" and name == "append" and len(args) == 1:
            if not st.quant:
                h["items"].append(args[0])
            elif len(st.quant) == 1 and not h["items"]:
                st.heap[o[1]] = {"k": "seq", "pos": st.quant[0][0], "elem": self.freeze(st, args[0]), "over": st.quant[0][1]}
            else:
                st.heap[o[1]] = {"k": "unk"}
            return ("c", None)
        if h["k"] == "list" and name == "extend" and len(args) == 1 and not st.quant:
            fx = self.fixed(st, args[0])
            if fx is not None:
                h["items"] += fx
            elif not h["items"]:
                p = ("pos", self.new())
                el, over = self.items(st, args[0], p)
                st.heap[o[1]] = {"k": "seq", "pos": p, "elem": el, "over": over}
            else:
                st.heap[o[1]] = {"k": "unk"}
            return ("c", None)
        if h["k"] == "list" and name == "insert" and len(args) == 2 and args[0] == ("c", 0) and not st.quant:
            h["items"].insert(0, args[1])
            return ("c", None)
        if h["k"] == "setv" and name == "add":
            st.heap[o[1]] = {"k": "unk"}
            return ("c", None)
        st.heap[o[1]] = {"k": "unk"}
        return self.unk("method " + name)

    def enter(self, c, m, selfv, args, kw, st, e, fr):
        if self.depth > 12:
            return [(st, self.unk("deep call"))]
        f2 = Frame(self.new(), c.mod, c)
        deco = {d.id for d in m.decorator_list if isinstance(d, ast.Name)}
        lead = [] if "staticmethod" in deco else [selfv]
        st.envs[f2.no] = bind(m.args, lead + list(args), kw, self)
        return self.body(m, f2, st)

    def enter_lam(self, node, f2, args, kw, st):
        if self.depth > 12:
            return [(st, self.unk("deep call"))]
        f3 = Frame(self.new(), f2.mod, f2.cls, (f2.no,) + tuple(f2.parents))
        st.envs[f3.no] = bind(node.args, list(args), kw, self)
        if isinstance(node, ast.Lambda):
            self.depth += 1
            r = self.ev(node.body, f3, st)
            self.depth -= 1
            return r
        return self.body(node, f3, st)

    # --- immutable copy of a value
    def freeze(self, st, v, d=0):
        if not isinstance(v, tuple) or d > 30:
            return v
        if v and v[0] == "ref" and len(v) == 2 and isinstance(v[1], int):
            h = st.heap.get(v[1])
            if h is None or h["k"] == "unk":
                return ("unk", v[1])
            if h["k"] == "list":
                return ("list",) + tuple(self.freeze(st, x, d + 1) for x in h["items"])
            if h["k"] == "seq":
                return ("seq", h["pos"], self.freeze(st, h["elem"], d + 1), self.freeze(st, h["over"], d + 1))
            if h["k"] == "dict":
                return ("dict",) + tuple((q and (q[0], self.freeze(st, q[1], d + 1)), self.freeze(st, k, d + 1),
                                          self.freeze(st, x, d + 1)) for q, k, x in h["entries"])
            return ("unk", v[1])
        if v and v[0] in ("lam", "bm", "def", "c", "p", "self", "glob", "pos", "obj"):
            return v
        return tuple(self.freeze(st, x, d + 1) for x in v)


FULL = ("slice", ("c", None), ("c", None), ("c", None))
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|",
       ast.Pow: "**", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.In: "in", ast.NotIn: "not in"}


def is_set(t):
    """an array or list of elements of one of the two sets"""
    return t[0] == "attr" and t[1] == ("self",)


def arith(op, a, b):
    """sums with a constant are kept as ('off', base, k)"""
    def split(t):
        if t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool):
            return None, t[1]
        if t[0] == "off":
            return t[1], t[2]
        return t, 0
    x, i = split(a)
    y, j = split(b)
    if op == "-":
        if y is None:
            k, base = i - j, x
        else:
            return ("bin", op, a, b)
    else:
        if x is not None and y is not None:
            return ("bin", op, a, b)
        k, base = i + j, x if x is not None else y
    if base is None:
        return ("c", k)
    return ("off", base, k) if k else base


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    r = tuple(subst(x, a, b) for x in t)
    if r and r[0] == "off" and len(r) == 3 and isinstance(r[1], tuple):
        return arith("+", r[1], ("c", r[2]))
    return r


def match_pos(key, pos, i):
    """position at which the entries with this key form have the key i"""
    if key == pos:
        return i
    if key[0] == "at" and key[2] == pos and i[0] == "at" and i[1] == key[1]:
        return i[2]
    if key[0] == "off" and i[0] == "off" and key[2] == i[2]:
        return match_pos(key[1], pos, i[1])
    return None


def strip_copy(t):
    while t[0] == "call" and t[1][0] == "glob" and t[1][1] in COPIES and t[2]:
        t = t[2][0]
    if t[0] == "seq":
        return strip_copy(t[3])
    return t


def load_of(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def bind(a, args, kw, I):
    env = {}
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, v in zip(names, args):
        env[n] = v
    if a.vararg is not None:
        env[a.vararg.arg] = ("tuple",) + tuple(args[len(names):])
    kwv = {}
    for k, v in kw.items():
        if k in names or k in [x.arg for x in a.kwonlyargs]:
            env[k] = v
        else:
            kwv[k] = v
    if a.kwarg is not None:
        env[a.kwarg.arg] = I.unk("keyword arguments") if kwv else ("unk", 0)
    for x, d in zip(reversed(a.args), reversed(a.defaults)):
        if x.arg not in env:
            env[x.arg] = const(d, I)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in env and d is not None:
            env[x.arg] = const(d, I)
    for n in names:
        if n not in env:
            env[n] = I.unk("missing argument")
    return env


def const(d, I):
    if isinstance(d, ast.Constant):
        return ("c", d.value)
    if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
        return ("c", -d.operand.value)
    return I.unk("default")


def refs(t, out=None):
    """all subterms"""
    if out is None:
        out = set()
    if isinstance(t, tuple):
        if t in out:
            return out
        out.add(t)
        for x in t:
            refs(x, out)
    return out


def has_unknown(t):
    return any(isinstance(x, tuple) and x and x[0] in ("unk", "star") for x in refs(t))


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 8:
        return "…"
    if k == "c":
        return repr(t[1])
    if k in ("p", "glob"):
        return t[1].replace("cliquematch.core.", "")
    if k == "self":
        return "self"
    if k == "attr":
        return show(t[1], d + 1) + "." + t[2]
    if k == "sub":
        return "%s[%s]" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "at":
        return "%s[%s]" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "pos":
        return "i"
    if k == "off":
        return "%s%+d" % (show(t[1], d + 1), t[2])
    if k == "len":
        return "len(%s)" % show(t[1], d + 1)
    if k == "call":
        return "%s(%s)" % (show(t[1], d + 1), ", ".join(show(x, d + 1) for x in t[2]))
    if k in ("tuple", "list"):
        return "(%s)" % ", ".join(show(x, d + 1) for x in t[1:])
    if k == "seq":
        return "[%s for each of %s]" % (show(t[2], d + 1), show(t[3], d + 1))
    if k == "set":
        return "set of %s" % show(t[1], d + 1)
    if k == "bin":
        return "%s %s %s" % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == "slice":
        return ":".join("" if x == ("c", None) else show(x, d + 1) for x in t[1:])
    if k == "lookup":
        return "a dict[%s]" % show(t[2], d + 1)
    if k == "dict":
        return "{%s}" % ", ".join("%s: %s" % (show(x[1], d + 1), show(x[2], d + 1)) for x in t[1:])
    return k
