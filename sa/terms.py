"""Hash-consed value terms of the abstract domain.

A term denotes a value of the analysed program.  Variables ('v') are existential: they stand for some
unknown value, are local to one abstract state and are renamed freely when states are joined.  Symbols
('s') stand for one fixed unknown value of the whole analysis (parameters, allocations)."""

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "closed", "signed", "_shape")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.op,) + self.args)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = _n[0]
        _n[0] += 1
        t.closed = op != "v" and all(_closed(a) for a in args)
        t.signed = False
        _tab[k] = t
    return t


def _closed(a):
    if isinstance(a, T):
        return a.closed
    if isinstance(a, tuple):
        return all(_closed(x) for x in a)
    return True


def C(v):
    return mk("c", v)


def B(v):
    return mk("b", 1 if v else 0)


TRUE, FALSE = B(1), B(0)
UNIT = mk("a", "()", 0)
MOVED = mk("s", "#moved")


def Sym(name):
    return mk("s", name)


_vc = [0]


def Var(signed=False, hint=""):
    _vc[0] += 1
    t = mk("v", _vc[0])
    t.signed = signed
    return t


def Agg(name, variant, *fields):
    return mk("a", name, variant, *fields)


def Tup(*fields):
    return mk("a", "()", 0, *fields)


def Ref(base, proj=()):
    return mk("r", base, proj)


def App(name, *args):
    return mk("f", name, *args)


def Slice(base, off, ln):
    return mk("sl", base, off, ln)


OPT, RES, POLL = "std::option::Option", "std::result::Result", "std::task::Poll"
NONE = Agg(OPT, 0)


def Some(x):
    return Agg(OPT, 1, x)


def Ok(x):
    return Agg(RES, 0, x)


def Err(x):
    return Agg(RES, 1, x)


def Ready(x):
    return Agg(POLL, 0, x)


PENDING = Agg(POLL, 1)


def is_agg(t, name=None, variant=None):
    return t.op == "a" and (name is None or t.args[0] == name) and (variant is None or t.args[1] == variant)


def fields(t):
    return t.args[2:]


# ---- linear terms -------------------------------------------------------------------------------

def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == "c" and isinstance(t.args[0], int):
        return t.args[0], {}
    if t.op == "l":
        return t.args[0], {t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}
    return 0, {t: 1}


def mklin(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    flat = []
    for a, k in items:
        flat += [a, k]
    return mk("l", c, *flat)


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + kb * k
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {x: y * k for x, y in d.items()})


ZERO = C(0)


# ---- structural access --------------------------------------------------------------------------

def get_field(t, key):
    """key = (variant or None, index)"""
    if t.op == "a":
        f = t.args[2:]
        if key[1] < len(f):
            return f[key[1]]
        return App("badfield", t, key[0], key[1])
    if t.op == "u":
        a = t.args
        for i in range(1, len(a), 2):
            if a[i] == key:
                return a[i + 1]
        return get_field(a[0], key)
    return mk("p", t, key[0], key[1])


def set_field(t, key, val):
    if t.op == "a":
        f = list(t.args[2:])
        if key[1] < len(f):
            f[key[1]] = val
            return mk("a", t.args[0], t.args[1], *f)
    if t.op == "u":
        d = {t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}
        base = t.args[0]
    else:
        d, base = {}, t
    d[key] = val
    flat = []
    for k in sorted(d, key=lambda k: (str(k[0]), str(k[1]))):
        flat += [k, d[k]]
    return mk("u", base, *flat)


def ident(t):
    """identity of an opaque object, regardless of its epoch"""
    while t.op == "o":
        t = t.args[0]
    return t


def bump(t):
    """the opaque object t after an unknown mutation"""
    return mk("o", ident(t), Var())


def subterms(t, seen=None):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(x.args)
    return out


def vars_of(t, out):
    """collects the variables of t into the set out"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and not x.closed:
            if x.op == "v":
                out.add(x)
            else:
                st.extend(x.args)
    return out


def rebuild(op, args):
    """re-creates a term, normalising arithmetic"""
    if op == "l":
        r = C(args[0])
        for i in range(1, len(args), 2):
            r = add(r, args[i], args[i + 1])
        return r
    return mk(op, *args)


def subst(t, m, memo=None):
    """replaces whole subterms by m (dict term->term)"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ("c", "b", "s", "v"):
        r = t
    else:
        na = tuple(_subst(x, m, memo) for x in t.args)
        if na == t.args:
            r = t
        elif t.op == "p":
            r = get_field(na[0], (na[1], na[2]))
        elif t.op == "u":
            r = na[0]
            for i in range(1, len(na), 2):
                r = set_field(r, na[i], na[i + 1])
        else:
            r = rebuild(t.op, na)
            if t.signed:
                r.signed = True
    memo[t] = r
    return r


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 6:
        return "…"
    o, a = t.op, t.args
    if o == "c":
        return repr(a[0])
    if o == "b":
        return "true" if a[0] else "false"
    if o == "v":
        return f"?{a[0]}"
    if o == "s":
        return str(a[0])
    if o == "a":
        n = a[0].split("::")[-1]
        if a[0] in (OPT, RES, POLL):
            n = {OPT: ["None", "Some"], RES: ["Ok", "Err"], POLL: ["Ready", "Pending"]}[a[0]][a[1]]
        elif a[1]:
            n += f"#{a[1]}"
        return n + ("(" + ", ".join(show(x, d + 1) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "r":
        b = a[0]
        return "&" + (show(b[1], d + 1) if b[0] == "h" else f"_{b[1]}.{b[2] if len(b) > 2 else ''}") + "".join(f".{k[1]}" if isinstance(k, tuple) else f".{k}" for k in a[1])
    if o == "l":
        s = []
        for i in range(1, len(a), 2):
            s.append((f"{a[i+1]}*" if a[i + 1] not in (1, -1) else ("-" if a[i + 1] == -1 else "")) + show(a[i], d + 1))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s) + ")"
    if o == "p":
        return show(a[0], d + 1) + (f"@{a[1]}" if a[1] is not None else "") + f".{a[2]}"
    if o == "o":
        return show(a[0], d + 1) + "'" + show(a[1], d + 1)
    if o == "sl":
        return f"{show(a[0], d+1)}[{show(a[1], d+1)}..+{show(a[2], d+1)}]"
    if o == "f":
        return f"{a[0].split('::')[-1]}({', '.join(show(x, d+1) for x in a[1:])})"
    return f"{o}({', '.join(show(x, d+1) for x in a)})"
