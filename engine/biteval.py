"""Abstract evaluation of word arithmetic.

Integers are linear forms over atoms (a parameter i is 64*q + r with q an atom and the residue r fixed by the case split), words are
vectors of 64 bit expressions, and words used in arithmetic (population counts) are sums of lanes. Counting loops are summarised."""

W = 64


class Unsupported(Exception):
    pass


class Bad(Exception):
    """an operation that is wrong whatever the context"""

    def __init__(self, msg, L):
        Exception.__init__(self, msg)
        self.L = L


class Lin:
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    def key(self):
        return (frozenset(self.t.items()), self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(t, self.c + o.c)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, n):
        return Lin({k: v * n for k, v in self.t.items()}, self.c * n)

    def __repr__(self):
        s = " + ".join(("%s" % (name(k),) if v == 1 else "%d*%s" % (v, name(k))) for k, v in sorted(self.t.items(), key=str))
        return (s + (" + %d" % self.c if self.c > 0 else " - %d" % -self.c if self.c < 0 else "")) if s else str(self.c)


def name(a):
    return a if isinstance(a, str) else a[0] if isinstance(a[0], str) and len(a) == 1 else "%s(...)" % (a[0],)


class Word:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, Word) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def const(self):
        if all(x in (0, 1) for x in self.b):
            return sum(x << i for i, x in enumerate(self.b))
        return None


def cword(n):
    return Word((n >> i) & 1 for i in range(W))


def mem_word(arr, idx):
    return Word(("m", arr, idx, i) for i in range(W))


def bnot(x):
    if x in (0, 1):
        return 1 - x
    return x[1] if x[0] == "~" else ("~", x)


def bop(op, x, y):
    if op == "&":
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1 or x == y:
            return x
        if x == bnot(y):
            return 0
    elif op == "|":
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0 or x == y:
            return x
        if x == bnot(y):
            return 1
    elif op == "^":
        if x == 0:
            return y
        if y == 0:
            return x
        if x == 1:
            return bnot(y)
        if y == 1:
            return bnot(x)
        if x == y:
            return 0
    return (op,) + tuple(sorted((x, y), key=repr))


class Lanes:
    """sum of 2**offset * (linear form over bits), forms never negative; lane o must stay below the next lane"""

    def __init__(self, l):
        self.l = {o: f for o, f in l.items() if f}

    @staticmethod
    def of(v):
        if isinstance(v, Lanes):
            return v
        if isinstance(v, Word):
            return Lanes({i: ({x: 1} if x != 1 else {1: 1}) for i, x in enumerate(v.b) if x != 0})
        raise Unsupported("lanes")

    @staticmethod
    def top(f):
        return sum(c for c in f.values() if c > 0)

    @staticmethod
    def low(f):
        return sum(c for x, c in f.items() if x == 1 or c < 0)

    def shift(self, n):
        """n > 0: left, n < 0: right"""
        out = {}
        for o, f in self.l.items():
            p = o + n
            if p >= W:
                continue
            if p < 0:
                if self.top(f) < (1 << -p):
                    continue
                raise Unsupported("lane cut by a shift")
            out[p] = f
        return Lanes(out)

    def mask(self, m, L=None):
        out = {}
        for o, f in self.l.items():
            span = max(1, self.top(f).bit_length())
            bits = [(m >> (o + k)) & 1 if o + k < W else 1 for k in range(span)]
            if all(bits):
                out[o] = f
            elif bits[0] and sum(bits) == bits.index(0):
                raise Bad("a mask drops the high digits of a count that can be %d" % self.top(f), L)
            elif any(bits):
                raise Unsupported("lane cut by a mask")
        return Lanes(out)

    def combine(self, o, sign):
        out = {k: dict(f) for k, f in self.l.items()}
        for k, f in o.l.items():
            g = out.setdefault(k, {})
            for x, c in f.items():
                g[x] = g.get(x, 0) + sign * c
                if not g[x]:
                    del g[x]
        # a lane that may be negative borrows from the next one
        for k in sorted(out):
            while out[k] and self.low(out[k]) < 0:
                up = [j for j in out if j > k and out[j]]
                if not up:
                    raise Unsupported("negative lane")
                j = min(up)
                for x, c in out.pop(j).items():
                    out[k][x] = out[k].get(x, 0) + c * (1 << (j - k))
                    if not out[k][x]:
                        del out[k][x]
                out.setdefault(j, {})
        return Lanes(out).normal()

    def normal(self):
        """lanes that may overlap are merged into the lower one"""
        offs = sorted(self.l)
        out = {}
        cur = None
        for o in offs:
            if cur is not None and Lanes.top(out[cur]) >= (1 << (o - cur)):
                for x, c in self.l[o].items():
                    out[cur][x] = out[cur].get(x, 0) + c * (1 << (o - cur))
            else:
                cur = o
                out[o] = dict(self.l[o])
        return Lanes(out)

    def lin(self):
        """as an integer, if only the lowest lane is left"""
        t, c = {}, 0
        for o, f in self.l.items():
            for x, k in f.items():
                if x == 1:
                    c += k << o
                else:
                    t[("bit", x)] = t.get(("bit", x), 0) + (k << o)
        return Lin(t, c)


class St:
    __slots__ = ("env", "mem", "facts", "eff")

    def __init__(self, env=None, mem=None, facts=(), eff=()):
        self.env, self.mem, self.facts, self.eff = dict(env or {}), dict(mem or {}), tuple(facts), tuple(eff)

    def copy(self):
        return St(self.env, self.mem, self.facts, self.eff)


class BitEval:
    def __init__(self, prog, atomic=()):
        self.fns = prog["functions"]
        self.atomic = set(atomic)      # function ids recorded instead of entered
        self.depth = 0
        self.n = 0
        self.fr = 0
        self.reads = set()
        self.seen = set()
        self.main = None

    # ------------------------------------------------------------ values
    def fresh(self, what="?"):
        self.n += 1
        return Lin({(what + str(self.n),): 1})

    def to_word(self, v):
        if isinstance(v, Word):
            return v
        if isinstance(v, bool):
            return cword(int(v))
        if isinstance(v, Lin) and v.const() is not None:
            return cword(v.c & ((1 << W) - 1))
        raise Unsupported("word from %s" % (v,))

    def to_lin(self, v):
        if isinstance(v, bool):
            return Lin(c=int(v))
        if isinstance(v, Lin):
            return v
        if isinstance(v, Word) and v.const() is not None:
            return Lin(c=v.const())
        if isinstance(v, Word):
            raise Unsupported("number from a word")
        if isinstance(v, Lanes):
            return v.lin()
        raise Unsupported("number from %s" % (v,))

    def binop(self, op, a, b, node):
        if isinstance(a, tuple) and a and a[0] == "ptr" and op in ("+", "-"):
            o = self.to_lin(b)
            return ("ptr", a[1], a[2] + (o if op == "+" else o.scale(-1)))
        if isinstance(b, tuple) and b and b[0] == "ptr" and op == "+":
            return ("ptr", b[1], b[2] + self.to_lin(a))
        big = lambda v: isinstance(v, (Word, Lanes)) and not (isinstance(v, Word) and v.const() is not None)
        if op in ("<<", ">>"):
            n = b.const() if isinstance(b, (Lin, Word)) else None
            if n is None:
                raise Unsupported("shift by %s" % (b,))
            if not 0 <= n < W:
                raise Bad("shift by %d, the width of a word is %d" % (n, W), node.get("L"))
            if isinstance(a, Lanes):
                return a.shift(n if op == "<<" else -n)
            if isinstance(a, Word) and a.const() is None:
                b2 = [0] * W
                for i in range(W):
                    j = i - n if op == "<<" else i + n
                    if 0 <= j < W:
                        b2[i] = a.b[j]
                return Word(b2)
            if isinstance(a, Word):
                c = a.const()
                return cword(((c << n) if op == "<<" else (c >> n)) & ((1 << W) - 1))
            a = self.to_lin(a)
            if a.const() is not None and a.c >= 0:
                return Lin(c=((a.c << n) if op == "<<" else (a.c >> n)) & ((1 << W) - 1))
            if op == "<<":
                return a.scale(1 << n)
            return self.divide(a, 1 << n)
        if op in ("&", "|", "^"):
            if isinstance(a, Lanes) or isinstance(b, Lanes):
                if op != "&":
                    raise Unsupported("bits of a sum")
                x, m = (a, b) if isinstance(a, Lanes) else (b, a)
                m = m.const() if isinstance(m, (Lin, Word)) else None
                if m is None:
                    raise Unsupported("mask of a sum")
                return x.mask(m, node.get("L"))
            if big(a) or big(b):
                x, y = self.to_word(a), self.to_word(b)
                return Word(bop(op, p, q) for p, q in zip(x.b, y.b))
            if isinstance(a, bool) and isinstance(b, bool):
                return {"&": a & b, "|": a | b, "^": a ^ b}[op]
            x, y = self.to_lin(a), self.to_lin(b)
            if x.const() is not None and y.const() is not None and x.c >= 0 and y.c >= 0:
                return Lin(c={"&": x.c & y.c, "|": x.c | y.c, "^": x.c ^ y.c}[op])
            if op == "&":
                for p, m in ((x, y.const()), (y, x.const())):
                    if m is not None and m >= 0 and (m & (m + 1)) == 0:
                        return self.modulo(p, m + 1)
                    if m is not None and m > 0 and (~m & ((1 << W) - 1)) & ((~m & ((1 << W) - 1)) + 1) == 0:
                        k = (~m & ((1 << W) - 1)) + 1
                        return p - self.modulo(p, k)
            raise Unsupported("bits of a number")
        if op in ("+", "-"):
            if big(a) or big(b):
                if isinstance(a, Lin) or isinstance(b, Lin):
                    # a population count added to a number
                    return self.to_lin(a) + (self.to_lin(b) if op == "+" else self.to_lin(b).scale(-1))
                return Lanes.of(a).combine(Lanes.of(b), 1 if op == "+" else -1)
            x, y = self.to_lin(a), self.to_lin(b)
            return x + (y if op == "+" else y.scale(-1))
        if op == "*" and (big(a) or big(b)):
            x, n = (a, b) if big(a) else (b, a)
            n = n.const() if isinstance(n, (Lin, Word)) else None
            if n is None or n < 0:
                raise Unsupported("product")
            out = Lanes({})
            for k in range(W):
                if (n >> k) & 1:
                    out = out.combine(Lanes.of(x).shift(k), 1)
            return out
        if op == "*":
            x, y = self.to_lin(a), self.to_lin(b)
            if y.const() is not None:
                return x.scale(y.c)
            if x.const() is not None:
                return y.scale(x.c)
            raise Unsupported("product")
        if op in ("/", "%"):
            x, y = self.to_lin(a), self.to_lin(b).const()
            if not y or y < 0:
                raise Unsupported("division")
            return self.divide(x, y) if op == "/" else self.modulo(x, y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        raise Unsupported("operator " + op)

    def divide(self, a, n):
        if all(v % n == 0 for v in a.t.values()):
            return Lin({k: v // n for k, v in a.t.items()}, a.c // n)
        raise Unsupported("quotient")

    def modulo(self, a, n):
        if all(v % n == 0 for v in a.t.values()):
            return Lin(c=a.c % n)
        raise Unsupported("remainder")

    def compare(self, op, a, b):
        if isinstance(a, Word) or isinstance(b, Word):
            x, y = self.to_word(a), self.to_word(b)
            if op in ("==", "!="):
                if y.const() != 0:
                    x, y = y, x
                if y.const() == 0:
                    if x.const() is not None:
                        return (x.const() == 0) == (op == "==")
                    if all(v in (0,) for v in x.b):
                        return op == "=="
                    return ("nz", x, op == "!=")
            raise Unsupported("comparison of words")
        if isinstance(a, Lanes):
            a = a.lin()
        if isinstance(b, Lanes):
            b = b.lin()
        if isinstance(a, bool):
            a = Lin(c=int(a))
        if isinstance(b, bool):
            b = Lin(c=int(b))
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
                a, b = a[2], b[2]
            else:
                raise Unsupported("comparison")
        d = (a - b)
        if all(v > 0 for v in d.t.values()) or all(v < 0 for v in d.t.values()):
            # every atom is a number that is never negative
            sg = 1 if next(iter(d.t.values()), 1) > 0 else -1
            if d.t and d.c * sg > 0:
                pos = sg > 0
                return {"<": not pos, "<=": not pos, ">": pos, ">=": pos, "==": False, "!=": True}[op]
            if d.t and d.c == 0 and (op, sg) in (("<", 1), (">", -1)):
                return False
            if d.t and d.c == 0 and (op, sg) in ((">=", 1), ("<=", -1)):
                return True
        if d.const() is not None:
            c = d.c
            return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        # facts are (form, kind): form >= 0, == 0 or != 0
        one = Lin(c=1)
        return {"<": ("ge", b - a - one), ">": ("ge", a - b - one), "<=": ("ge", b - a), ">=": ("ge", a - b),
                "==": ("eq", a - b), "!=": ("ne", a - b)}[op]

    def branch(self, st, c):
        """[(state, truth)]"""
        if isinstance(c, bool):
            return [(st, c)]
        if isinstance(c, Lin):
            return self.branch(st, self.compare("!=", c, Lin()))
        if isinstance(c, Word):
            return self.branch(st, self.compare("!=", c, Lin()))
        if isinstance(c, tuple) and c[0] == "ptr":
            return [(st, True)]
        if not isinstance(c, tuple):
            raise Unsupported("condition")
        if c[0] == "not":
            return [(s, not t) for s, t in self.branch(st, c[1])]
        if c[0] in ("ge", "eq", "ne", "nz", "test"):
            neg_ = {"ge": lambda: ("ge", c[1].scale(-1) - Lin(c=1)), "eq": lambda: ("ne", c[1]), "ne": lambda: ("eq", c[1]),
                    "nz": lambda: ("nz", c[1], not c[2]), "test": lambda: ("test", c[1], c[2], not c[3])}[c[0]]()
            if c in st.facts:
                return [(st, True)]
            if neg_ in st.facts:
                return [(st, False)]
            a, b = st.copy(), st.copy()
            a.facts += (c,)
            b.facts += (neg_,)
            return [(a, True), (b, False)]
        raise Unsupported("condition")

    # ------------------------------------------------------------ expressions: [(state, value)]
    def ev(self, e, st):
        k = e["e"]
        if k == "int":
            return [(st, bool(int(e["v"])) if e.get("t") == "bool" else Lin(c=int(e["v"])))]
        if k in ("bool",):
            return [(st, bool(int(e["v"])))]
        if k == "var":
            key = self.var(e)
            if key in st.env:
                v = st.env[key]
                if isinstance(v, tuple) and v[0] == "lv":
                    return [(st, self.load(st, v[1], v[2], e))]
                if isinstance(v, tuple) and v[0] == "lf":
                    return [(st, self.getf(st, v[1], v[2]))]
                return [(st, v)]
            if e.get("v") is not None:
                return [(st, Lin(c=int(e["v"])))]
            raise Unsupported("variable %s" % e["n"])
        if k == "this":
            return [(st, st.env[("this", self.fr)])]
        if k == "field":
            return [(s, self.getf(s, o, e["n"])) for s, o in self.ev(e["b"], st)]
        if k == "sub":
            out = []
            for s, b in self.ev(e["b"], st):
                for s2, i in self.ev(e["i"], s):
                    out.append((s2, self.load(s2, b, self.to_lin(i), e)))
            return out
        if k == "un":
            return self.unary(e, st)
        if k == "bin":
            if e["op"] in ("&&", "||"):
                out = []
                for s, a in self.ev(e["a"], st):
                    for s2, t in self.branch(s, a):
                        if t == (e["op"] == "||"):
                            out.append((s2, t))
                        else:
                            for s3, b in self.ev(e["b"], s2):
                                out += self.branch(s3, b)
                return out
            if e["op"] == ",":
                return [x for s, _ in self.ev(e["a"], st) for x in self.ev(e["b"], s)]
            return [(s2, self.binop(e["op"], a, b, e)) for s, a in self.ev(e["a"], st) for s2, b in self.ev(e["b"], s)]
        if k == "cond":
            out = []
            for s, c in self.ev(e["c"], st):
                for s2, t in self.branch(s, c):
                    out += self.ev(e["a"] if t else e["b"], s2)
            return out
        if k == "cast":
            out = []
            for s, v in self.ev(e["a"], st):
                if e.get("t") == "bool" and not isinstance(v, bool):
                    out += self.branch(s, v)
                else:
                    out.append((s, self.narrow(v, e.get("t"))))
            return out
        if k == "asg":
            return self.assign(e, st)
        if k in ("call", "mcall"):
            return self.call(e, st)
        if k == "ctor" and "vector" in e.get("t", "") and e.get("k") in ("copy", "move"):
            return self.ev(e["args"][0], st)
        if k == "ctor" and len(e.get("args", ())) == 1:
            return self.ev(e["args"][0], st)
        if k in ("paren", "clean", "mat"):
            return self.ev(e["a"], st)
        raise Unsupported("expression " + k)

    def narrow(self, v, t):
        """conversion of a number to a smaller type"""
        bits = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "int": 32, "short": 16, "signed char": 8}.get(t)
        if bits is None or isinstance(v, bool) or isinstance(v, tuple):
            return v
        c = v.const() if isinstance(v, (Lin, Word)) else None
        if c is not None and 0 <= c < (1 << (bits - 1)):
            return v
        raise Unsupported("narrowing to " + t)

    def var(self, e):
        return ("v", self.fr, e["id"], e["n"])

    def getf(self, st, o, n):
        if isinstance(o, tuple) and o[0] == "obj":
            self.reads.add((o[1], n))
            k = (o[1], n)
            if k in st.mem:
                return st.mem[k]
        raise Unsupported("field " + n)

    def load(self, st, b, i, e):
        if isinstance(b, tuple) and b[0] == "ptr":
            k = (b[1], (b[2] + i).key())
            st.eff += (("load", b[1], b[2] + i, st.facts, e.get("L")),)
            return st.mem.get(("w",) + k) or mem_word(b[1], (b[2] + i).key())
        if isinstance(b, tuple) and b[0] == "vec":
            return Lin({("el", b[1], i.key()): 1})
        raise Unsupported("subscript")

    def unary(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, v in self.ev(e["a"], st):
                nv = self.binop("+" if op == "++" else "-", v, Lin(c=1), e)
                self.put(e["a"], s, nv)
                out.append((s, v if e.get("post") else nv))
            return out
        if op == "&":
            r = self.lvalue(e["a"], st)
            if r is not None and r[0] == "lv":
                return [(st, ("ptr", r[1][1], r[1][2] + r[2]))]
            if r is not None and r[0] == "obj":
                return [(st, r)]
            raise Unsupported("address")
        out = []
        for s, v in self.ev(e["a"], st):
            if op == "!":
                out += [(s2, not t) for s2, t in self.branch(s, v)]
            elif op == "~":
                w = self.to_word(v)
                out.append((s, Word(bnot(x) for x in w.b)))
            elif op == "-":
                out.append((s, self.to_lin(v).scale(-1)))
            elif op == "+":
                out.append((s, v))
            elif op == "*":
                if isinstance(v, tuple) and v[0] == "ptr":
                    out.append((s, self.load(s, v, Lin(), e)))
                else:
                    out.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return out

    def assign(self, e, st):
        out = []
        op = e.get("op")
        for s, v in self.ev(e["b"], st):
            if op in (None, "", "="):
                self.put(e["a"], s, v)
                out.append((s, v))
                continue
            for s2, old in self.ev(e["a"], s):
                nv = self.binop(op, old, v, e)
                self.put(e["a"], s2, nv)
                out.append((s2, nv))
        return out

    def put(self, lhs, st, v):
        while lhs["e"] in ("paren", "cast", "clean"):
            lhs = lhs["a"]
        if lhs["e"] == "var":
            old = st.env.get(self.var(lhs))
            if isinstance(old, tuple) and old[0] == "lv":
                return self.store(st, old[1], old[2], v, lhs)
            if isinstance(old, tuple) and old[0] == "lf":
                st.mem[(old[1][1], old[2])] = v
                st.eff += (("setf", old[1][1], old[2], v, lhs.get("L")),)
                return
            st.env[self.var(lhs)] = v
            return
        if lhs["e"] == "field":
            (s, o), = self.ev(lhs["b"], st)
            if isinstance(o, tuple) and o[0] == "obj":
                st.mem[(o[1], lhs["n"])] = v
                st.eff += (("setf", o[1], lhs["n"], v, lhs.get("L")),)
                return
        if lhs["e"] == "sub":
            (s, b), = self.ev(lhs["b"], st)
            (s, i), = self.ev(lhs["i"], st)
            return self.store(st, b, self.to_lin(i), v, lhs)
        if lhs["e"] == "un" and lhs["op"] == "*":
            (s, b), = self.ev(lhs["a"], st)
            return self.store(st, b, Lin(), v, lhs)
        if lhs["e"] in ("call", "mcall") and (lhs.get("opc") == "[]" or lhs.get("q", "").endswith("operator[]")):
            args = ([lhs["b"]] if lhs["e"] == "mcall" else []) + lhs["args"]
            (s, b), = self.ev(args[0], st)
            (s, i), = self.ev(args[1], st)
            if isinstance(b, tuple) and b[0] == "vec":
                st.eff += (("vstore", b[1], self.to_lin(i), v, st.facts, lhs.get("L")),)
                return
        raise Unsupported("assignment target")

    def lvalue(self, e, st):
        while e["e"] in ("paren", "clean"):
            e = e["a"]
        if e["e"] == "sub" or (e["e"] == "un" and e["op"] == "*"):
            (s, b), = self.ev(e["b"] if e["e"] == "sub" else e["a"], st)
            if isinstance(b, tuple) and b[0] == "obj":
                return b
            i = Lin()
            if e["e"] == "sub":
                (s, i), = self.ev(e["i"], st)
            if isinstance(b, tuple) and b[0] == "ptr":
                return ("lv", b, self.to_lin(i))
        if e["e"] == "field":
            (s, o), = self.ev(e["b"], st)
            if isinstance(o, tuple) and o[0] == "obj":
                return ("lf", o, e["n"])
        if e["e"] == "var":
            v = st.env.get(self.var(e))
            if isinstance(v, tuple) and v[0] in ("obj", "vec", "lv", "lf"):
                return v
        return None

    def store(self, st, b, i, v, node):
        if not (isinstance(b, tuple) and b[0] == "ptr"):
            raise Unsupported("store")
        at = b[2] + i
        if isinstance(v, (Lin, Word, bool)):
            try:
                v = self.to_word(v)
            except Unsupported:
                if not (isinstance(v, Lin)):
                    raise
                v = Word(("n", v.key(), k) for k in range(W))
        st.mem[("w", b[1], at.key())] = v
        st.eff += (("store", b[1], at, v, node.get("L")),)

    # ------------------------------------------------------------ calls
    def call(self, e, st):
        q = e.get("q") or ""
        args = e.get("args", [])
        f = self.fns.get(e.get("id"))
        vals = [(st, [])]
        this = None
        if e["e"] == "mcall":
            vals = [(s, [o]) for s, o in self.ev(e["b"], st)]
        elif e.get("mem"):
            pass
        ps = (f or {}).get("params") or []
        skip = 1 if e.get("mem") and e["e"] == "call" else 0
        for i, a in enumerate(args):
            p = ps[i - skip] if f and f.get("body") and 0 <= i - skip < len(ps) else None
            if p is not None and p.get("ref") and not p["t"].startswith("const"):
                nv = []
                for s, vs in vals:
                    r = self.lvalue(a, s)
                    if r is None:
                        raise Unsupported("reference argument")
                    nv.append((s, vs + [r]))
                vals = nv
                continue
            vals = [(s2, vs + [v]) for s, vs in vals for s2, v in self.ev(a, s)]
        out = []
        for s, vs in vals:
            out += self.apply(e, q, f, s, vs)
        return out

    def apply(self, e, q, f, st, vs):
        n = q.split("::")[-1]
        member = e["e"] == "mcall" or e.get("mem")
        if n in ("__builtin_clzll", "__builtin_clzl", "_lzcnt_u64", "countl_zero"):
            w = self.to_word(vs[0])
            if n.startswith("__builtin") and ("nz", w, True) not in st.facts and w.const() in (None, 0):
                raise Bad("leading zeros of a word that may be 0", e.get("L"))
            return [(st, Lin({("clz", w): 1}))]
        if n in ("__builtin_ctzll", "__builtin_ctzl", "countr_zero"):
            return [(st, Lin({("ctz", self.to_word(vs[0])): 1}))]
        if n in ("__builtin_popcountll", "__builtin_popcountl", "popcount"):
            w = self.to_word(vs[0])
            return [(st, Lanes({0: self.count(w)}).lin())]
        if q in ("std::copy", "std::move_backward", "std::copy_backward") and len(vs) == 3:
            a, b, d = vs
            if a[0] == "ptr" and b[0] == "ptr" and d[0] == "ptr" and a[1] == b[1]:
                st.eff += (("copy", a[1], a[2], b[2], d[1], d[2], e.get("L")),)
                return [(st, ("ptr", d[1], d[2] + (b[2] - a[2])))]
            raise Unsupported("copy")
        if q == "std::copy_n" and len(vs) == 3:
            st.eff += (("copy", vs[0][1], vs[0][2], vs[0][2] + self.to_lin(vs[1]), vs[2][1], vs[2][2], e.get("L")),)
            return [(st, vs[2])]
        if q in ("std::fill", "std::fill_n") and len(vs) == 3 and vs[0][0] == "ptr":
            hi = vs[1][2] if q == "std::fill" else vs[0][2] + self.to_lin(vs[1])
            st.eff += (("range", vs[0][1], vs[0][2], hi, self.to_word(vs[2]), e.get("L")),)
            return [(st, ("unk",))]
        if q in ("std::min", "std::max") and len(vs) == 2:
            out = []
            for s, t in self.branch(st, self.compare("<", vs[1], vs[0])):
                out.append((s, vs[1] if t == (q == "std::min") else vs[0]))
            return out
        if q in ("std::move", "std::forward") and len(vs) == 1:
            return [(st, vs[0])]
        if f is None or not f.get("body"):
            if q.startswith("std::vector") and n in ("push_back", "emplace_back") and vs[0][0] == "vec":
                st.eff += (("vpush", vs[0][1], vs[1], st.facts, e.get("L")),)
                return [(st, ("unk",))]
            if q.startswith("std::vector") and n == "reserve":
                return [(st, ("unk",))]
            if q.startswith("std::") and vs and isinstance(vs[0], tuple) and vs[0][0] == "vec" and n == "operator[]":
                return [(st, self.load(st, vs[0], self.to_lin(vs[1]), e))]
            raise Unsupported("call of " + q)
        this = None
        if f.get("class") and not f.get("static"):
            this, vs = vs[0], vs[1:]
        if f["id"] in self.atomic and f["id"] != self.main:
            return self.record(e, f, st, this, vs)
        if f["id"] == self.main or self.depth > 8:
            st.eff += (("rec", f["id"], tuple(vs), e.get("L")),)
            return [(st, ("rec", f["id"]))]
        return self.enter(f, this, vs, st)

    def record(self, e, f, st, this, vs):
        st.eff += (("op", f["n"], this, tuple(vs), e.get("L")),)
        if f["n"] == "operator[]":
            return [(st, ("test", this, self.to_lin(vs[0]), True))]
        return [(st, self.fresh(f["n"]))]

    def count(self, w):
        out = {}
        for x in w.b:
            if x != 0:
                out[x] = out.get(x, 0) + 1
        return out

    def enter(self, f, this, vs, st):
        save = self.fr
        self.seen.add(f["q"])
        self.n += 1
        self.fr = self.n
        self.depth += 1
        try:
            for p, v in zip(f["params"], vs):
                st.env[("v", self.fr, p["id"], p["n"])] = v
            for p in f["params"][len(vs):]:
                d = p.get("init") or p.get("dflt")
                if not isinstance(d, dict):
                    raise Unsupported("default argument")
                (st, v), = self.ev(d, st)
                st.env[("v", self.fr, p["id"], p["n"])] = v
            if this is not None:
                st.env[("this", self.fr)] = this
            for i in f.get("inits") or ():
                if i.get("f") or i.get("n"):
                    for s2, v in self.ev(i.get("init") or i["a"], st):
                        s2.mem[(this[1], i.get("n") or i["f"])] = v
                        st = s2
            out = []
            for s, kind, v in self.block(f["body"], st):
                if kind in ("brk", "cont"):
                    raise Unsupported("jump")
                out.append((s, v if kind == "ret" else ("unk",)))
            return out
        finally:
            self.fr = save
            self.depth -= 1

    # ------------------------------------------------------------ statements: [(state, kind, value)]
    def block(self, b, st):
        items = b["b"] if b.get("s") == "block" else [b]
        cur, out = [st], []
        for x in items:
            nxt = []
            for s in cur:
                for s2, k, v in self.stmt(x, s):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            cur = nxt
            if len(cur) + len(out) > 64:
                raise Unsupported("too many paths")
        return out + [(s, "n", None) for s in cur]

    def stmt(self, x, st):
        k = x.get("s")
        if k == "block":
            return self.block(x, st)
        if k == "decl":
            cur = [st]
            for d in x["d"]:
                nxt = []
                for s in cur:
                    key = ("v", self.fr, d["id"], d["n"])
                    if d.get("init") is None:
                        s.env[key] = self.fresh("uninit")
                        nxt.append(s)
                        continue
                    if d["init"].get("e") == "ctor" and "vector" in d["t"]:
                        for a in d["init"].get("args", ()):
                            if a.get("e") == "ctor":
                                continue
                            for s2, v in self.ev(a, s):
                                s = s2
                                s.eff += (("vsize", d["n"], v),)
                        s.env[key] = ("vec", d["n"])
                        nxt.append(s)
                        continue
                    if d.get("ref"):
                        r = self.lvalue(d["init"], s)
                        if r is not None:
                            s.env[key] = r
                            nxt.append(s)
                            continue
                        if not d["t"].startswith("const"):
                            raise Unsupported("reference")
                    for s2, v in self.ev(d["init"], s):
                        s2.env[key] = v
                        nxt.append(s2)
                cur = nxt
            return [(s, "n", None) for s in cur]
        if k == "expr":
            return [(s, "n", None) for s, _ in self.ev(x["a"], st)]
        if k == "if":
            out = []
            for s, c in self.ev(x["c"], st):
                for s2, t in self.branch(s, c):
                    if t:
                        out += self.block(x["a"], s2)
                    elif x.get("b"):
                        out += self.block(x["b"], s2)
                    else:
                        out.append((s2, "n", None))
            return out
        if k == "ret":
            if x.get("a") is None:
                return [(st, "ret", ("unk",))]
            return [(s, "ret", v) for s, v in self.ev(x["a"], st)]
        if k == "null":
            return [(st, "n", None)]
        if k == "brk":
            return [(st, "brk", None)]
        if k == "cont":
            return [(st, "cont", None)]
        if k in ("for", "while"):
            return self.loop(x, st)
        raise Unsupported("statement %s" % k)

    def changed(self, n, out):
        if isinstance(n, dict):
            t = None
            if n.get("e") == "asg" or (n.get("e") == "un" and n.get("op") in ("++", "--")):
                t = n["a"]
                while isinstance(t, dict) and t.get("e") in ("paren", "cast"):
                    t = t["a"]
                if t.get("e") == "var":
                    out.add(self.var(t))
            for v in n.values():
                self.changed(v, out)
        elif isinstance(n, (list, tuple)):
            for v in n:
                self.changed(v, out)
        return out

    def loop(self, x, st):
        """counting loop: effects of one iteration for every value of the counter; any other loop: its first iteration"""
        if x.get("init") is not None:
            r = self.stmt(x["init"], st)
            if len(r) != 1:
                raise Unsupported("loop")
            st = r[0][0]
        inc, cond, body = x.get("inc"), x.get("c"), x.get("b") or x.get("a")
        ch = self.changed([inc, body, cond], set())
        ctr = self.counter(x, st, inc, body, ch)
        if ctr is None:
            return self.peel(x, st, cond, body, inc)
        lv, lo, hi, body = ctr
        self.n += 1
        w = Lin({("w%d" % self.n,): 1})
        s0 = St(st.env, {k: v for k, v in st.mem.items() if k[0] != "w"}, st.facts, ())
        for v in ch:
            if v in st.env:
                s0.env[v] = Lin({("old", v): 1}) if isinstance(st.env[v], Lin) else st.env[v]
        s0.env[lv] = w
        s0.facts += (("ge", w - lo), ("ge", hi - w - Lin(c=1)))
        paths = self.block(body, s0)
        if any(k in ("ret", "brk") for _, k, _ in paths):
            raise Unsupported("loop left early")
        accs = {}
        eff = []
        for s, k, v in paths:
            eff.append((s.facts, s.eff, {var: s.env.get(var) for var in ch}))
            for var in ch:
                if var == lv or var not in st.env:
                    continue
                now = s.env.get(var)
                d = None
                if isinstance(now, Lin):
                    d = now - Lin({("old", var): 1})
                    if any(k == ("old", var) for k in d.t):
                        d = None
                accs.setdefault(var, []).append((s.facts, d))
        st = st.copy()
        st.eff += (("loop", w, lo, hi, tuple(eff), x.get("L")),)
        for var, ds in accs.items():
            base = st.env[var]
            if len(ds) == 1 and ds[0][1] is not None and isinstance(base, Lin):
                st.env[var] = base + Lin({("sum", next(iter(w.t))[0], lo.key(), hi.key(), ds[0][1].key()): 1})
            else:
                st.env[var] = self.fresh("acc")
        st.mem = {k: v for k, v in st.mem.items() if k[0] != "w"}
        st.env[lv] = hi
        return [(st, "n", None)]

    def counter(self, x, st, inc, body, ch):
        """(variable, first, end, body) of a loop that counts up by one"""
        c = x.get("c")
        if c is None or c.get("e") != "bin" or c["op"] not in ("<", "!=", "<=", ">"):
            return None
        a, b = (c["a"], c["b"]) if c["op"] != ">" else (c["b"], c["a"])
        if a.get("e") != "var":
            return None
        lv = self.var(a)
        if inc is None and body.get("s") == "block" and body["b"]:
            last = body["b"][-1]
            if last.get("s") == "expr":
                inc = last["a"]
                body = dict(body, b=body["b"][:-1])
        if inc is None or inc.get("e") not in ("un", "asg"):
            return None
        t = inc["a"]
        if t.get("e") != "var" or self.var(t) != lv:
            return None
        if inc["e"] == "un" and inc["op"] != "++":
            return None
        if inc["e"] == "asg" and not (inc.get("op") == "+" and inc["b"].get("v") == "1"):
            return None
        if lv in self.changed(body, set()) or lv not in st.env:
            return None
        names = set()
        self.vars(b, names)
        if names & ch:
            return None
        (s, lo), = self.ev(a, st)
        (s, hi), = self.ev(b, st)
        if not isinstance(lo, Lin):
            return None
        hi = self.to_lin(hi)
        return lv, lo, hi + Lin(c=1) if c["op"] == "<=" else hi, body

    def vars(self, n, out):
        if isinstance(n, dict):
            if n.get("e") == "var":
                out.add(self.var(n))
            for v in n.values():
                self.vars(v, out)
        elif isinstance(n, (list, tuple)):
            for v in n:
                self.vars(v, out)

    def peel(self, x, st, cond, body, inc):
        """first iteration; coming round again is recorded as such"""
        out = []
        for s, c in (self.ev(cond, st) if cond is not None else [(st, True)]):
            for s2, t in self.branch(s, c):
                if not t:
                    out.append((s2, "n", None))
                    continue
                for s3, k, v in self.block(body, s2):
                    if k == "ret":
                        out.append((s3, k, v))
                    elif k == "brk":
                        out.append((s3, "n", None))
                    else:
                        for s4, _ in (self.ev(inc, s3) if inc is not None else [(s3, None)]):
                            s4.eff += (("again", dict(s4.env), x.get("L")),)
                            out.append((s4, "ret", ("rec", "loop")))
        return out
