"""Python entry points: which C++ callable each bound name resolves to."""


def _walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                _walk(v, f)
    elif isinstance(x, list):
        for v in x:
            _walk(v, f)


def _str(e):
    while isinstance(e, dict) and e.get("e") == "cast":
        e = e["a"]
    if isinstance(e, dict) and e.get("e") == "str":
        return e["v"]
    return None


def _target(e):
    """('fn', id) | ('lambda', node) | ('field', name) | None"""
    while isinstance(e, dict):
        k = e.get("e")
        if k in ("cast",):
            e = e["a"]
        elif k == "un" and e["op"] == "&":
            e = e["a"]
        elif k == "ctor" and e.get("args"):
            e = e["args"][0]
        elif k in ("fn", "method"):
            return ("fn", e.get("id"))
        elif k == "memptr":
            return ("field", e.get("n"))
        elif k == "lambda":
            return ("lambda", e)
        else:
            return None
    return None


def bindings(prog):
    """list of {cls, name, kind, target, args, L, init}"""
    out = []
    for f in prog["functions"].values():
        def visit(x, f=f):
            if x.get("e") == "mcall" and x.get("n") in ("def", "def_static", "def_readonly", "def_readwrite",
                                                        "def_property_readonly") and x.get("args"):
                name = _str(x["args"][0])
                if name is None:
                    return
                tg = _target(x["args"][1]) if len(x["args"]) > 1 else None
                extra = []
                for a in x["args"][2:]:
                    extra.append(_arg(a))
                out.append({"cls": x.get("c"), "name": name, "kind": x["n"], "target": tg, "args": extra,
                            "L": x.get("L"), "init": f["id"], "node": x})
        _walk(f.get("body"), visit)
    return out


def _arg(a):
    """pybind argument annotation: (name, default expr or None) or None"""
    res = [None, None]

    def v(x):
        if x.get("e") == "call" and x.get("q", "").startswith("pybind11::operator\"\"_a"):
            res[0] = _str(x["args"][0])
        if x.get("e") in ("call",) and (x.get("q") or "") in ("_a",):
            res[0] = _str(x["args"][0])
        if x.get("e") == "call" and x.get("opc") == "=" and x.get("q", "").startswith("pybind11::arg::operator="):
            res[1] = x["args"][1]
        if x.get("e") == "ctor" and (x.get("c") or "").startswith("pybind11::arg") and x.get("args") and _str(x["args"][0]) and res[0] is None:
            res[0] = _str(x["args"][0])
    _walk(a, v)
    return tuple(res) if res[0] is not None else None
