"""Interprocedural abstract interpreter over the MIR of the analysed crate.

Calls to local functions, closures and futures are analysed in the context of their call site (complete
inlining; the crate has no recursion).  Abstract states are kept per (program point, partition), where
the partition consists of the monitors' finite modes and of the constructors/booleans known for live
values; states of one partition are joined by anti-unification, so the analysis is a least fixpoint over
all paths and not an enumeration of paths."""
import heapq
from fractions import Fraction
from .terms import *
from . import prover
from .load import Body

_fid = {}


def intern_fid(k):
    r = _fid.get(k)
    if r is None:
        r = _fid[k] = len(_fid) + 1
    return r


class Infeasible(Exception):
    pass


class AnalysisError(Exception):
    pass


class S:
    """abstract state"""
    __slots__ = ("stack", "store", "facts", "ineq", "mode", "g", "trail")

    def __init__(self):
        self.stack = ()
        self.store = {}
        self.facts = {}
        self.ineq = ()
        self.mode = {}
        self.g = {}
        self.trail = None

    def clone(self):
        n = S.__new__(S)
        n.stack = self.stack
        n.store = dict(self.store)
        n.facts = dict(self.facts)
        n.ineq = self.ineq
        n.mode = dict(self.mode)
        n.g = dict(self.g)
        n.trail = self.trail
        return n


class Ev:
    __slots__ = ("kind", "d", "line", "fn", "file", "site")

    def __init__(self, kind, d, line, fn, file, site):
        self.kind, self.d, self.line, self.fn, self.file, self.site = kind, d, line, fn, file, site

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v}' for k, v in self.d.items())}) at {self.file}:{self.line}"


class Call:
    """a call being interpreted"""
    __slots__ = ("f", "args", "line", "name", "tr", "m", "argops", "dty", "fnterm")


CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}


class Engine:
    CAP1, CAP2 = 250, 500
    MAXSTEPS = 400000

    def __init__(self, prog, monitors=(), models=None, opts=None):
        self.prog = prog
        self.variants = {}
        self.monitors = list(monitors)
        self.opts = opts or {}
        from . import models as M
        self.models = M
        self.violations = {}
        self.stats = {"blocks": 0, "joins": 0, "bodies": set(), "events": {}, "sites": {}, "contexts": 0, "ends": 0, "partitions": 0}
        self.unknown_calls = {}
        self.cur = None
        self.rootname = "?"
        self.nopart = frozenset()      # values whose constructor does not partition the states
        self.curcall = None

    # ------------------------------------------------------------------ reporting
    def violation(self, prop, key, ev, msg, st=None):
        k = (prop, key)
        if k in self.violations:
            return
        trail = []
        t = st.trail if st is not None else None
        n = 0
        while t is not None and n < 40:
            trail.append(t[1])
            t = t[0]
            n += 1
        trail.reverse()
        self.violations[k] = {"property": prop, "key": key, "message": msg, "at": f"{ev.file}:{ev.line}" if ev and ev.file else getattr(self, "rootfn", "-"),
                              "function": ev.fn if ev else None, "path": trail}

    def oblige(self, prop, key, ok, ev, msg, st):
        """counts a proof obligation, reports it if it does not hold"""
        d = self.stats.setdefault("obl", {})
        d[(prop, key)] = d.get((prop, key), 0) + 1
        if not ok:
            self.violation(prop, key, ev, msg, st)
        return ok

    def emit(self, st, kind, **d):
        line, fn, file = self.where(st)
        ev = Ev(kind, d, line, fn, file, None)
        self.stats["events"][kind] = self.stats["events"].get(kind, 0) + 1
        self.stats["sites"].setdefault(kind, set()).add((fn, line))
        if kind not in ("suspend",):
            st.trail = (st.trail, f"{file.split('/')[-1]}:{line} {kind}" + "".join(f" {k}={show(v)[:80]}" for k, v in d.items() if isinstance(v, (T, str)) and k not in ("obj",)))
        for m in self.monitors:
            m.event(self, st, ev)
        return ev

    def where(self, st):
        for e in reversed(st.stack):
            if e[0] == "f":
                b = self.body(e[2])
                if b.ext:
                    continue
                return b.blocks[e[3]]["t"]["l"], e[2], b.file
        return 0, "?", "?"

    def body(self, bid):
        b = self.prog.bodies.get(bid) or self.prog.ext.get(bid)
        return self.prog.prep(b)

    # ------------------------------------------------------------------ numeric/boolean facts
    def le(self, st, a, b):
        return prover.entails(st.ineq, sub(a, b))

    def lt(self, st, a, b):
        return prover.entails(st.ineq, add(sub(a, b), C(1)))

    def eq(self, st, a, b):
        if a is b or self.resolve(st, a) is self.resolve(st, b):
            return True
        if self.numeric(a) and self.numeric(b):
            return self.le(st, a, b) and self.le(st, b, a)
        return False

    def numeric(self, t):
        return (t.op == "c" and isinstance(t.args[0], int)) or t.op in ("l", "v", "p", "f", "s", "o")

    def resolve(self, st, t):
        """replaces a term whose constructor is known by facts with that constructor"""
        return t

    def add_ineq(self, st, lin):
        """lin <= 0"""
        c, d = lin_parts(lin)
        if not d:
            if c > 0:
                raise Infeasible()
            return
        if lin in st.ineq:
            return
        if prover.entails(st.ineq, lin, 0):
            return
        # infeasible if the negation (lin >= 1) is implied
        if prover.entails(st.ineq, add(scale(lin, -1), C(1)), 1):
            raise Infeasible()
        st.ineq = st.ineq + (lin,)

    def truth(self, st, t):
        """True/False/None"""
        if t.op == "b":
            return bool(t.args[0])
        if t in st.facts:
            return bool(st.facts[t])
        if t.op == "f":
            n = t.args[0]
            if n == "not":
                r = self.truth(st, t.args[1])
                return None if r is None else not r
            if n == "le0":
                if prover.entails(st.ineq, t.args[1], 1):
                    return True
                if prover.entails(st.ineq, add(scale(t.args[1], -1), C(1)), 1):
                    return False
                return None
            if n == "eq":
                for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                    if y.op == "c" and isinstance(y.args[0], int):
                        k = st.facts.get(x)
                        if k is not None and not self.boolish(x):
                            return k == y.args[0]
                        if st.facts.get(App("isnt", x, y)):
                            return False
                return self.eqtruth(st, t.args[1], t.args[2])
            if n == "and":
                a, b = self.truth(st, t.args[1]), self.truth(st, t.args[2])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if n == "or":
                a, b = self.truth(st, t.args[1]), self.truth(st, t.args[2])
                if a or b:
                    return True
                return False if a is False and b is False else None
        return None

    def eqtruth(self, st, a, b):
        if a is b:
            return True
        if a.op == "c" and b.op == "c":
            return a.args[0] == b.args[0]
        if a.op == "b" and b.op == "b":
            return a is b
        if a.op == "a" and b.op == "a":
            if a.args[0] == b.args[0] and a.args[1] != b.args[1]:
                return False
            if a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
                rs = [self.eqtruth(st, x, y) for x, y in zip(a.args[2:], b.args[2:])]
                if any(r is False for r in rs):
                    return False
                if all(r for r in rs):
                    return True
            return None
        da, db = self.discr_of(st, a), self.discr_of(st, b)
        if da is not None and db is not None and da != db and (a.op == "a" or b.op == "a"):
            return False
        if self.numeric(a) and self.numeric(b):
            if self.le(st, a, b) and self.le(st, b, a):
                return True
            if self.lt(st, a, b) or self.lt(st, b, a):
                return False
        return None

    def assume(self, st, t, val):
        """records that the boolean term t has the value val; raises Infeasible"""
        r = self.truth(st, t)
        if r is not None:
            if r != val:
                raise Infeasible()
            return
        if t.op == "f":
            n = t.args[0]
            if n == "not":
                return self.assume(st, t.args[1], not val)
            if n == "le0":
                self.add_ineq(st, t.args[1] if val else add(scale(t.args[1], -1), C(1)))
                return
            if n == "eq":
                a, b = t.args[1], t.args[2]
                if val and self.numeric(a) and self.numeric(b) and a.op != "o" and b.op != "o":
                    self.add_ineq(st, sub(a, b))
                    self.add_ineq(st, sub(b, a))
                if not val and self.numeric(a) and self.numeric(b):
                    # x != 0 for unsigned x
                    for x, y in ((a, b), (b, a)):
                        if x is ZERO and not y.signed and y.op != "l":
                            self.add_ineq(st, sub(C(1), y))
                for x, y in ((a, b), (b, a)):
                    if y.op == "c" and isinstance(y.args[0], int) and x.op == "f" and x.args[0] == "discr":
                        if val:
                            st.facts[x] = y.args[0]
                            self.note_discr(st, x, y.args[0])
                        else:
                            self.excluded(st, x, y)
                        return
                st.facts[t] = 1 if val else 0
                return
            if n == "and" and val:
                self.assume(st, t.args[1], True)
                return self.assume(st, t.args[2], True)
            if n == "or" and not val:
                self.assume(st, t.args[1], False)
                return self.assume(st, t.args[2], False)
        if t.op == "b":
            if bool(t.args[0]) != val:
                raise Infeasible()
            return
        st.facts[t] = 1 if val else 0

    def assume_variant(self, st, t, k):
        d = self.discr_of(st, t)
        if d is None:
            self.assume(st, self.cmp("Eq", App("discr", t), C(k)), True)
        elif d != k:
            raise Infeasible()

    def discr_of(self, st, t):
        if t.op == "a":
            return t.args[1]
        return st.facts.get(App("discr", t))

    def cmp(self, op, a, b):
        if op in ("Eq", "Ne"):
            if a.id > b.id:
                a, b = b, a
            r = self.mkeq(a, b)
            return r if op == "Eq" else self.mknot(r)
        if op == "Lt":
            return self.mkle0(add(sub(a, b), C(1)))
        if op == "Le":
            return self.mkle0(sub(a, b))
        if op == "Gt":
            return self.mkle0(add(sub(b, a), C(1)))
        return self.mkle0(sub(b, a))

    def mkle0(self, l):
        c, d = lin_parts(l)
        if not d:
            return B(c <= 0)
        return App("le0", l)

    def mkeq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "c" and b.op == "c":
            return B(a.args[0] == b.args[0])
        for x, y in ((a, b), (b, a)):
            if x.op == "b":
                return y if x.args[0] else self.mknot(y)
        return App("eq", a, b)

    def mknot(self, t):
        if t.op == "b":
            return B(not t.args[0])
        if t.op == "f" and t.args[0] == "not":
            return t.args[1]
        return App("not", t)

    # ------------------------------------------------------------------ memory
    def load(self, st, base, proj):
        v = st.store.get(base)
        if v is None:
            if base[0] == "h":
                v = base[1] if base[1].op == "f" and base[1].args[0] == "in" and False else App("*", base[1])
            else:
                v = Var()
                st.store[base] = v
        for k in proj:
            v = self.field(st, v, k)
        return v

    def field(self, st, v, k):
        if k == "*b":
            return v
        if k[0] == "idx":
            if v.op == "a" and k[1].op == "c" and k[1].args[0] < len(v.args) - 2:
                return v.args[2 + k[1].args[0]]
            return App("elem", v, k[1])
        if v.op == "a" and k[0] is not None and v.args[1] != k[0] and v.args[0] not in ("()",):
            raise Infeasible()
        return get_field(v, k)

    def set(self, st, base, proj, val):
        if not proj:
            st.store[base] = val
            return
        v = st.store.get(base)
        if v is None:
            v = self.load(st, base, ())
        st.store[base] = self._upd(st, v, proj, val)

    def _upd(self, st, v, proj, val):
        if not proj:
            return val
        k = proj[0]
        if k == "*b":
            return self._upd(st, v, proj[1:], val)
        if k[0] == "idx":
            if v.op == "a" and k[1].op == "c" and k[1].args[0] < len(v.args) - 2:
                return set_field(v, (None, k[1].args[0]), self._upd(st, v.args[2 + k[1].args[0]], proj[1:], val))
            return bump(v) if v.op != "a" else Var()
        return set_field(v, k, self._upd(st, self.field(st, v, k), proj[1:], val))

    def addr(self, st, fid, p):
        """(base, proj) of a place; opaque pointers become heap objects"""
        base, proj = ("l", fid, p[0]), ()
        variant = None
        for e in p[1]:
            if e == "*":
                v = self.load(st, base, proj)
                base, proj = self.target(st, v, base, proj)
                variant = None
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "f":
                proj = proj + ((variant, e[1]),)
                variant = None
            elif e[0] == "i":
                proj = proj + (("idx", self.load(st, ("l", fid, e[1]), ())),)
            elif e[0] == "c":
                proj = proj + (("idx", C(e[1])),)
            else:
                proj = proj + (("idx", Var()),)
        return base, proj

    def target(self, st, v, base=None, proj=()):
        """what a pointer value points to"""
        if v.op == "r":
            return v.args[0], v.args[1]
        if v.op == "a" and base is not None:
            return base, proj      # Box::new(x) is represented by x
        return ("h", v), ()

    def deref(self, st, v):
        """the value behind any number of references"""
        n = 0
        while v.op == "r" and n < 8:
            v = self.load(st, v.args[0], v.args[1])
            n += 1
        return v

    def obj(self, st, v):
        """identity of the object behind a (chain of) reference(s)"""
        return ident(self.deref(st, v))

    def konst(self, o):
        if "v" in o:
            k = self.prog.types[o["t"]]["k"]
            if k == "bool":
                return B(int(o["v"]))
            if k in ("int", "uint"):
                return C(int(o["v"]))
            if k == "adt":
                ad = self.prog.types[o["t"]]["d"]
                a = self.prog.adts.get(ad)
                if a and a["k"] == "enum":
                    for i, v in enumerate(a["v"]):
                        if v["d"] == o["v"] and not v["f"]:
                            return Agg(ad, i)
            return mk("c", "const:" + o["v"] + ":" + self.prog.types[o["t"]]["s"])
        if "str" in o:
            return mk("c", "str:" + o["str"])
        ty = self.prog.types[o["t"]]
        if ty["k"] == "tuple" and not ty["a"]:
            return UNIT
        return Sym("const:" + o.get("def", o["d"]))

    def operand(self, st, fid, o):
        k = o["k"]
        if k in ("copy", "move"):
            base, proj = self.addr(st, fid, o["p"])
            v = self.load(st, base, proj)
            if k == "move" and "*" not in o["p"][1]:
                if not proj:
                    st.store[base] = MOVED
                elif v.op != "c" and v.op != "b":
                    cur = st.store.get(base)
                    if cur is not None and cur.op == "a":
                        self.set(st, base, proj, MOVED)
            return v
        if k == "fn":
            return mk("fn", o["p"], o.get("r", ""))
        if k == "const":
            return self.konst(o)
        return Var()

    def is_int(self, ti):
        return self.prog.types[ti]["k"] in ("int", "uint")

    def is_signed(self, ti):
        return self.prog.types[ti]["k"] == "int"

    def rvalue(self, st, fid, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1])
        if k == "ref":
            base, proj = self.addr(st, fid, r[2])
            # a reference to what an opaque pointer points to is that pointer itself
            if base[0] == "h" and not proj:
                v = st.store.get(base)
                if base[1].op == "sl":
                    return base[1]
            return Ref(base, proj)
        if k == "cast":
            v = self.operand(st, fid, r[2])
            if v.op == "b" and self.is_int(r[3]):
                return C(v.args[0])
            return v
        if k == "bin":
            a, b = self.operand(st, fid, r[2]), self.operand(st, fid, r[3])
            return self.binop(st, r[1], a, b)
        if k == "un":
            a = self.operand(st, fid, r[2])
            if r[1] == "Not":
                return self.mknot(a) if self.prog.types[destty]["k"] == "bool" else App("bitnot", a)
            if r[1] == "Neg":
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            return App("un:" + r[1], a)
        if k == "discr":
            base, proj = self.addr(st, fid, r[1])
            v = self.load(st, base, proj)
            return self.discr(st, v, r[1][2])
        if k == "agg":
            kk = r[1]
            fs = [self.operand(st, fid, o) for o in r[2]]
            if kk["k"] == "tuple":
                return Tup(*fs)
            if kk["k"] == "array":
                return Agg("[]", 0, *fs)
            if kk["k"] == "adt":
                return Agg(kk["d"], kk["v"], *fs)
            if kk["k"] == "closure":
                return Agg("closure:" + kk["d"], 0, *fs)
            if kk["k"] == "coroutine":
                return Agg("co:" + kk["d"], 0, *fs)
            return Var()
        if k == "repeat":
            return App("repeat", self.operand(st, fid, r[1]), mk("c", r[2]))
        return Var()

    def discr(self, st, v, ty):
        if v.op == "a":
            t = self.prog.types[ty]
            if t["k"] == "adt":
                a = self.prog.adts.get(t["d"])
                if a and a["k"] == "enum" and v.args[1] < len(a["v"]):
                    return C(int(a["v"][v.args[1]]["d"]))
            return C(v.args[1])
        if v.op == "b":
            return C(v.args[0])
        d = App("discr", v)
        t = self.prog.types[ty]
        a = self.prog.adts.get(t["d"]) if t["k"] == "adt" else None
        if a and a["k"] == "enum" and d not in self.variants:
            self.variants[d] = [int(x["d"]) for x in a["v"]]
        return d

    def excluded(self, st, o, v):
        """the discriminant o is not v: if one variant is left, it is that one"""
        st.facts[App("isnt", o, v)] = 1
        rest = [x for x in self.variants.get(o, ()) if App("isnt", o, C(x)) not in st.facts]
        if len(rest) == 1 and o not in st.facts:
            st.facts[o] = rest[0]
            self.note_discr(st, o, rest[0])
        if self.variants.get(o) and o in st.facts:
            for x in self.variants[o]:
                st.facts.pop(App("isnt", o, C(x)), None)

    def binop(self, st, op, a, b):
        ov = op.endswith("WithOverflow")
        o = op[:-12] if ov else op
        if o in CMP:
            r = self.cmp(o, a, b)
        elif o in ("Add", "AddUnchecked"):
            r = add(a, b)
        elif o in ("Sub", "SubUnchecked"):
            r = sub(a, b)
            if ov and self.opts.get("subs") and not (a.signed or b.signed):
                self.emit(st, "sub", a=a, b=b, ok=self.le(st, b, a))
        elif o in ("Mul", "MulUnchecked"):
            if a.op == "c" and isinstance(a.args[0], int):
                r = scale(b, a.args[0])
            elif b.op == "c" and isinstance(b.args[0], int):
                r = scale(a, b.args[0])
            else:
                r = App("mul", *sorted((a, b), key=lambda t: t.id))
        elif o == "Rem":
            r = prover.mkrem(a, b)
        elif o == "BitAnd" and (a.op == "b" or b.op == "b" or self.boolish(a)):
            r = self.mkand(a, b)
        elif o == "BitOr" and (a.op == "b" or b.op == "b" or self.boolish(a)):
            r = self.mkor(a, b)
        elif a.op == "c" and b.op == "c" and isinstance(a.args[0], int) and isinstance(b.args[0], int) and o in ("Div", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            x, y = a.args[0], b.args[0]
            r = C({"Div": lambda: x // y if y else 0, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                   "Shl": lambda: x << min(y, 64), "Shr": lambda: x >> y}[o]())
        else:
            r = App(o.lower(), a, b)
        return Tup(r, FALSE) if ov else r

    def boolish(self, t):
        return t.op == "b" or (t.op == "f" and t.args[0] in ("le0", "eq", "not", "and", "or"))

    def mkand(self, a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE or a is b:
            return a
        return App("and", a, b)

    def mkor(self, a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE or a is b:
            return a
        return App("or", a, b)

    # ------------------------------------------------------------------ slices
    def as_slice(self, st, v):
        """views a value (slice, reference to a buffer, Bytes, Vec, array) as Slice(base, off, len)"""
        if v.op == "sl":
            return v
        w = self.deref(st, v)
        if w.op == "sl":
            return w
        if w.op == "a" and w.args[0] == "[]":
            return Slice(w, ZERO, C(len(w.args) - 2))
        if v.op == "r":
            # a buffer in memory: its identity is the object, versioned by its epoch
            return Slice(w, ZERO, App("len", w))
        return Slice(w, ZERO, App("len", w))

    def length(self, st, v):
        return self.as_slice(st, v).args[2]

    # ------------------------------------------------------------------ control
    def start(self, st, bid, args):
        """prepares the analysis of an entry point; an async one is polled to completion"""
        self.push(st, "root")
        self.rootfn = bid
        r = self.enter(st, bid, args)
        return r[0]

    def top(self, st):
        return st.stack[-1]

    def set_block(self, st, blk):
        e = st.stack[-1]
        st.stack = st.stack[:-1] + (("f", e[1], e[2], blk),)

    def push(self, st, kind, data=()):
        fid = intern_fid((st.stack, kind))
        st.stack = st.stack + (("p", fid, kind, data),)
        return fid

    def enter(self, st, bid, args):
        """pushes a frame for a body"""
        if sum(1 for e in st.stack if e[0] == "f" and e[2] == bid) >= 2:
            return self.ret(st, Var())
        b = self.body(bid)
        if not b.ext:
            self.stats["bodies"].add(bid)
        fid = intern_fid((st.stack, bid))
        # only what the caller still needs survives in its frame
        self.prune_caller(st)
        st.stack = st.stack + (("f", fid, bid, 0),)
        for i, a in enumerate(args):
            st.store[("l", fid, i + 1)] = a
        return [st]

    def prune_caller(self, st):
        for e in reversed(st.stack):
            if e[0] == "f":
                b = self.body(e[2])
                keep = b.live_after.get(e[3])
                if keep is not None:
                    dead = [k for k in st.store if k[0] == "l" and k[1] == e[1] and k[2] >= 0 and k[2] not in keep]
                    for k in dead:
                        del st.store[k]
                return

    def call_value(self, st, f, args):
        """calls a callable value; the result is returned to the top of the stack"""
        f0 = f
        n = 0
        while f.op == "r" and n < 8:
            f0 = f
            f = self.load(st, f.args[0], f.args[1])
            n += 1
        if f.op == "a" and f.args[0].startswith("closure:"):
            bid = f.args[0][8:]
            b = self.prog.bodies.get(bid) or self.prog.ext.get(bid)
            if b is None:
                return self.ret(st, Var())
            self.prog.prep(b)
            byref = self.prog.types[b.locals[1][0]]["k"] == "ref"
            if byref:
                if f0.op != "r":
                    base = ("l", intern_fid((st.stack, bid, "env")), -1)
                    st.store[base] = f
                    f0 = Ref(base, ())
                return self.enter(st, bid, [f0] + list(args))
            return self.enter(st, bid, [f] + list(args))
        if f.op == "fn":
            return self.call_fn(st, f, args)
        return None

    def call_fn(self, st, f, args):
        """a function item used as a value (e.g. an enum constructor passed to map_err)"""
        p, r = f.args[0], f.args[1]
        for nm in (r, p):
            if nm in self.prog.bodies:
                return self.enter(st, nm, args)
        ctor = self.ctor(p)
        if ctor is not None:
            return self.ret(st, Agg(ctor[0], ctor[1], *args))
        c = Call()
        c.f = {"p": p, "r": r, "full": p, "ta": []}
        c.name, c.args, c.line, c.argops, c.dty = p, list(args), 0, [], None
        c.fnterm = f
        seg = p.split("::")
        c.m = seg[-1]
        c.tr = "::".join(seg[:-1])
        return self.models.dispatch(self, st, c)

    def ctor(self, p):
        """(adt, variant) if p names a tuple constructor"""
        a = self.prog.adts.get(p)
        if a is not None and a["k"] == "struct":
            return p, 0
        if "::" in p:
            adt, v = p.rsplit("::", 1)
            adt2 = adt
            if adt.endswith(">") and "::<" in adt:
                adt2 = adt[:adt.rindex("::<")]
            a = self.prog.adts.get(adt2) or self.prog.adts.get(adt)
            if a is not None:
                for i, x in enumerate(a["v"]):
                    if x["n"] == v:
                        return (adt2 if adt2 in self.prog.adts else adt), i
        return None

    def ret(self, st, v):
        """returns a value to whatever is on top of the stack"""
        try:
            return self._ret(st, v)
        except Infeasible:
            return []

    def _ret(self, st, v):
        if not st.stack:
            return self.finish(st, v)
        e = st.stack[-1]
        if e[0] == "p":
            st.stack = st.stack[:-1]
            return self.models.pseudo(self, st, e, v)
        fid, bid, blk = e[1], e[2], e[3]
        t = self.body(bid).blocks[blk]["t"]
        if t["t"] is None:
            return []
        base, proj = self.addr(st, fid, t["p"])
        self.set(st, base, proj, v)
        self.set_block(st, t["t"])
        return [st]

    def finish(self, st, v):
        self.stats["ends"] += 1
        self.on_end(st, v)
        return []

    def on_end(self, st, v):
        for m in self.monitors:
            m.end(self, st, v)

    def drop_value(self, st, v):
        if v.op == "a":
            if v.args[0] == "guard" and v.args[4].args[0] == "cancel":
                self.emit(st, "cancel", tok=v.args[3])
                return
            if v.args[0] == "guard":
                self.emit(st, "unlock", lock=v.args[2], how=v.args[4].args[0])
                return
            for x in v.args[2:]:
                if isinstance(x, T):
                    self.drop_value(st, x)

    def cut(self, st, i):
        """abandons everything above stack position i (exclusive)"""
        for e in reversed(st.stack[i:]):
            dead = [k for k in st.store if k[0] == "l" and k[1] == e[1]]
            for k in dead:
                v = st.store.pop(k)
                self.drop_value(st, v)
        st.stack = st.stack[:i]

    # ------------------------------------------------------------------ helpers for models
    def frame(self, st):
        for e in reversed(st.stack):
            if e[0] == "f":
                return e
        return ("f", 0, "", 0)

    def site(self, st):
        """a stable name for the current call site in its calling context"""
        e = self.frame(st)
        return f"{e[1]}.{e[3]}"

    def boxed(self, st, v):
        """a reference to a fresh temporary holding v"""
        e = self.frame(st)
        base = ("l", e[1], -2 - e[3])
        n = 0
        while base in st.store and n < 8 and st.store[base] is not v:
            base = ("l", e[1], base[2] - 100000)
            n += 1
        st.store[base] = v
        return Ref(base, ())

    def opaque(self, bid):
        return bid in self.opts.get("opaque", ())

    def is_enum(self, adt):
        a = self.prog.adts.get(adt)
        return bool(a and a["k"] == "enum")

    def length_of(self, x):
        if x.op == "sl":
            return x.args[2]
        if x.op == "a" or x.op in ("c", "b", "l"):
            return None
        return self.lenterm(x)

    def lenterm(self, w):
        if w.op == "f" and w.args[0] == "filled":
            return w.args[2]
        if w.op == "c" and isinstance(w.args[0], str) and w.args[0].startswith("str:"):
            return C(len(w.args[0][4:].encode()))
        return App("len", w)

    # ------------------------------------------------------------------ block execution
    def exec(self, st):
        """executes the current block, returns successor states"""
        e = st.stack[-1]
        fid, bid, blk = e[1], e[2], e[3]
        b = self.body(bid)
        bl = b.blocks[blk]
        self.stats["blocks"] += 1
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fid, s[2], s[1][2])
                base, proj = self.addr(st, fid, s[1])
                self.set(st, base, proj, v)
                if proj and base[0] == "h" or (proj and "*" in s[1][1]):
                    self.on_store(st, base, proj, v, s[3], bid)
            elif k == "sd":
                pass
            elif k == "dead":
                st.store.pop(("l", fid, s[1]), None)
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            self.set_block(st, t["t"])
            return [st]
        if k == "switch":
            return self.switch(st, fid, t)
        if k == "return":
            v = self.load(st, ("l", fid, 0), ())
            for m in self.monitors:
                m.fnret(self, st, bid, v)
            dead = [x for x in st.store if x[0] == "l" and x[1] == fid]
            keep = {x.args[0] for x in subterms(v) if x.op == "r"} if v.op in ("r", "a") else ()
            for x in dead:
                if x[2] < 0 and x in keep:
                    continue
                del st.store[x]
            st.stack = st.stack[:-1]
            return self.ret(st, v)
        if k == "drop":
            base, proj = self.addr(st, fid, t["p"])
            try:
                v = self.load(st, base, proj)
            except Infeasible:
                v = MOVED
            self.set_block(st, t["t"])
            if v is MOVED:
                return [st]
            if v.op == "a":
                self.drop_value(st, v)
            ty = self.prog.types[t["p"][2]]
            if ty["k"] == "adt" and ty["d"] in self.prog.drop_adts and not proj and base[0] == "l":
                st.store[base] = MOVED
            return [st]
        if k == "assert":
            c = self.operand(st, fid, t["c"])
            exp = bool(t["e"])
            if t["m"] == "bounds":
                ln, ix = self.operand(st, fid, t["len"]), self.operand(st, fid, t["idx"])
                self.emit(st, "bounds", idx=ix, len=ln, ok=self.lt(st, ix, ln))
            elif t["m"] in ("divzero", "remzero"):
                pass
            try:
                self.assume(st, c, exp)
            except Infeasible:
                return []
            self.set_block(st, t["t"])
            return [st]
        if k == "yield":
            return self.suspend(st, fid, t)
        if k == "call":
            return self.call(st, fid, bid, t)
        return []

    def on_store(self, st, base, proj, v, line, bid):
        for m in self.monitors:
            m.store(self, st, base, proj, v, line, bid)

    def switch(self, st, fid, t):
        o = self.operand(st, fid, t["o"])
        out = []
        if o.op == "c" or o.op == "b":
            n = o.args[0]
            for v, tb in t["c"]:
                if int(v) == n:
                    self.set_block(st, tb)
                    return [st]
            self.set_block(st, t["d"])
            return [st]
        ty = self.prog.types[t["o"]["p"][2]] if "p" in t["o"] else {"k": "?"}
        if ty["k"] == "bool":
            r = self.truth(st, o)
            opts = [(False, dict((v, tb) for v, tb in t["c"]).get("0")), (True, t["d"])]
            for val, tb in opts:
                if tb is None or (r is not None and r != val):
                    continue
                n = st.clone()
                try:
                    self.assume(n, o, val)
                    self.equality(n, o, val)
                except Infeasible:
                    continue
                self.set_block(n, tb)
                out.append(n)
            return out
        known = st.facts.get(o)
        taken = []
        for v, tb in t["c"]:
            v = int(v)
            taken.append(v)
            if known is not None:
                if known == v:
                    self.set_block(st, tb)
                    return [st]
                continue
            if st.facts.get(App("isnt", o, C(v))):
                continue
            n = st.clone()
            try:
                if not (o.op == "f" and o.args[0] == "discr"):
                    self.add_ineq(n, sub(o, C(v)))
                    self.add_ineq(n, sub(C(v), o))
                n.facts[o] = v
                self.note_discr(n, o, v)
                if o.op == "v":
                    self.fix(n, o, C(v))
            except Infeasible:
                continue
            self.set_block(n, tb)
            out.append(n)
        if known is not None:
            self.set_block(st, t["d"])
            return [st]
        # default
        b = self.body(st.stack[-1][2])
        if b.blocks[t["d"]]["t"]["k"] != "unreachable":
            n = st.clone()
            for v in taken:
                self.excluded(n, o, C(v))
                if v == 0 and not (o.op == "f" and o.args[0] == "discr") and not o.signed:
                    try:
                        self.add_ineq(n, sub(C(1), o))
                    except Infeasible:
                        return out
            self.set_block(n, t["d"])
            out.append(n)
        return out

    def equality(self, st, t, val):
        """a condition that fixes the value of a variable replaces the variable"""
        while t.op == "f" and t.args[0] == "not":
            t, val = t.args[1], not val
        if t.op != "f":
            return
        if t.args[0] == "eq" and val:
            for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if x.op == "v" and y.op == "c":
                    return self.fix(st, x, y)
        elif t.args[0] == "le0":
            l = t.args[1] if val else add(scale(t.args[1], -1), C(1))
            c, d = lin_parts(l)
            if c == 0 and len(d) == 1:
                x, k = next(iter(d.items()))
                if k > 0 and x.op == "v" and not x.signed:
                    self.fix(st, x, ZERO)
                return
            if len(d) > 1 and prover.entails(st.ineq, scale(l, -1), 1):
                # l = 0: solve for a variable
                for x in sorted((x for x in d if x.op == "v" and abs(d[x]) == 1 and not x.signed), key=lambda x: -x.args[0]):
                    y = sub(x, l) if d[x] == 1 else add(x, l)
                    vs = set()
                    vars_of(y, vs)
                    if x in vs or any(v.signed for v in vs):
                        continue
                    self.fix(st, x, y)
                    self.add_ineq(st, scale(y, -1))
                    break

    def fix(self, st, x, y):
        m, memo = {x: y}, {}
        def sb(t):
            return t if t.closed else subst(t, m, memo)
        for k, v in st.store.items():
            st.store[k] = sb(v)
        for k, v in st.g.items():
            if isinstance(v, T):
                st.g[k] = sb(v)
        facts = {}
        for t, v in st.facts.items():
            n = sb(t)
            if n is t:
                facts[t] = v
            elif n.op == "f" and n.args[0] in ("eq", "cov") and n.args[1] is n.args[2]:
                if n.args[0] == "eq" and not v:
                    raise Infeasible()
            elif n.op == "c":
                if int(v) != n.args[0]:
                    raise Infeasible()
            elif n.op == "b":
                if bool(v) != bool(n.args[0]):
                    raise Infeasible()
            else:
                facts[n] = v
        st.facts = facts
        out = []
        for l in st.ineq:
            n = sb(l)
            c, d = lin_parts(n)
            if not d:
                if c > 0:
                    raise Infeasible()
                continue
            if n is l or not prover.trivial(n):
                out.append(n)
        st.ineq = tuple(out)

    def note_discr(self, st, o, v):
        for m in self.monitors:
            m.discr(self, st, o, v)

    def suspend(self, st, fid, t):
        out = []
        self.emit(st, "suspend")
        for i in range(len(st.stack) - 1, -1, -1):
            e = st.stack[i]
            if e[0] == "p" and e[2] in self.models.SCOPES:
                n = st.clone()
                n2 = self.models.abandon(self, n, i)
                out += n2
        base, proj = self.addr(st, fid, t["ra"])
        self.set(st, base, proj, Sym("cx"))
        self.set_block(st, t["t"])
        return out + [st]

    def call(self, st, fid, bid, t):
        f = t["f"]
        args = [self.operand(st, fid, a) for a in t["a"]]
        c = Call()
        c.args = args
        c.line = t["l"]
        c.argops = t["a"]
        c.dty = t["p"][2]
        if f["k"] != "fn":
            fv = self.operand(st, fid, f)
            r = self.call_value(st, fv, args)
            if r is not None:
                return r
            return self.models.unknown_callable(self, st, fv, args)
        c.f = f
        c.name = f["p"]
        c.tr = f.get("tr")
        c.m = f.get("m")
        c.fnterm = None
        if t["t"] is None:
            self.emit(st, "panic", callee=c.name, mac=t.get("mac", ""), args=tuple(args))
            return []
        return self.models.dispatch(self, st, c)

    # ------------------------------------------------------------------ joins and fixpoint
    def at_join(self, st):
        e = st.stack[-1]
        if e[0] != "f":
            return False
        b = self.body(e[2])
        if e[3] not in b.join:
            return False
        if b.ext and not b.loops:
            # a small function of the standard library: its paths come back together where it is used
            return False
        # the condition of a wait: its paths are kept apart, what they found is the outcome
        return b.loops or len(st.stack) < 2 or st.stack[-2][0] != "p" or st.stack[-2][2] not in ("cvw", "cvw2")

    def prune(self, st):
        """removes dead locals of the top frame and facts about unreachable values"""
        e = st.stack[-1]
        live = self.body(e[2]).live_in.get(e[3])
        fid = e[1]
        if live is not None:
            dead = [k for k in st.store if k[0] == "l" and k[1] == fid and k[2] not in live and k[2] >= 0]
            for k in dead:
                del st.store[k]

    def gc(self, st):
        seen = set()
        for k, v in st.store.items():
            vars_of(v, seen)
        for v in st.g.values():
            if isinstance(v, T):
                vars_of(v, seen)
        for m in self.monitors:
            m.simplify(self, st)
        def ok(t):
            s = set()
            vars_of(t, s)
            return s <= seen
        if st.facts:
            kept = {k: v for k, v in st.facts.items() if k.closed or ok(k)}
            for k, v in st.facts.items():
                if v and k not in kept and k.op == "f" and k.args[0] == "cov":
                    # what remains of a range whose ends are forgotten
                    for x in self.bounds(st, k.args[1], 1, ok):
                        for y in self.bounds(st, k.args[2], -1, ok):
                            if x is not y:
                                kept.setdefault(App("cov", x, y), 1)
            st.facts = kept
        if st.ineq:
            keep, drop = [], []
            for l in st.ineq:
                (keep if l.closed or ok(l) else drop).append(l)
            # eliminate unreachable variables (one Fourier-Motzkin step per variable, bounded)
            if drop:
                drop += [k for k in keep if False]
                allf = keep + drop
                dead = set()
                for l in drop:
                    vars_of(l, dead)
                dead -= seen
                for v in sorted(dead, key=lambda x: x.id):
                    use = [l for l in allf if v in lin_parts(l)[1]]
                    other = [l for l in allf if l not in use and not self._mentions(l, v)]
                    up = [l for l in use if lin_parts(l)[1][v] > 0]
                    dn = [l for l in use if lin_parts(l)[1][v] < 0]
                    if not v.signed:
                        dn = dn + [scale(v, -1)]
                    if len(up) * len(dn) <= 12:
                        for a in up:
                            for b in dn:
                                ka, kb = lin_parts(a)[1][v], -lin_parts(b)[1][v]
                                n = add(scale(a, kb), scale(b, ka))
                                if lin_parts(n)[1]:
                                    other.append(n)
                    allf = other
                allf = [l for l in dict.fromkeys(allf) if l.closed or ok(l)]
                keep = allf
            st.ineq = tuple(keep)
        dead = [k for k in st.store if k[0] == "h" and not k[1].closed]
        for k in dead:
            s = set()
            vars_of(k[1], s)
            if not self._reach_h(st, k):
                del st.store[k]

    def bounds(self, st, t, sign, ok):
        """t itself if it remains, or up to three remaining terms that are at least (sign 1) or at most (sign -1) t"""
        if t.closed or ok(t):
            return [t]
        c, d = lin_parts(t)
        if len(d) != 1 or list(d.values()) != [1]:
            return []
        v = next(iter(d))
        out = []
        for l in st.ineq:
            if lin_parts(l)[1].get(v) == sign:
                r = add(t, l, -1) if sign == 1 else add(t, l)
                if (r.closed or ok(r)) and len(out) < 3:
                    out.append(r)
        return out

    def _mentions(self, l, v):
        s = set()
        vars_of(l, s)
        return v in s

    def _reach_h(self, st, k):
        for kk, v in st.store.items():
            if kk is not k and k[1] in subterms(v):
                return True
        return False

    def shape(self, st, t, depth=0):
        o = t.op
        if o == "b":
            return t.args[0]
        if o == "a":
            if depth >= 5:
                return "_"
            if t.args[0] in ("guard",):
                return "G"
            fs = tuple(self.shape(st, x, depth + 1) for x in t.args[2:])
            return (t.args[1],) + fs
        if t is MOVED:
            return "M"
        if o == "u":
            return ("u",) + tuple(self.shape(st, t.args[i + 1], depth + 1) for i in range(1, len(t.args), 2))
        if o in ("c", "s", "sl"):
            return "_"
        f = st.facts.get(t)
        if f is not None:
            return ("F", f)
        if o != "l" and t not in self.nopart:
            d = st.facts.get(App("discr", t))
            if d is not None:
                return ("D", d)
        return "_"

    def key(self, st, level):
        mode = tuple(sorted((k, v) for k, v in st.mode.items()))
        if level >= 2:
            return (2, mode)
        fid = st.stack[-1][1]
        items = []
        for k, v in st.store.items():
            if level == 1 and not (k[0] == "l" and k[1] == fid):
                continue
            s = self.shape(st, v)
            if s != "_":
                items.append((k[0], k[1] if k[0] == "l" else k[1].id, k[2] if len(k) > 2 else 0, s))
        items.sort(key=str)
        if level == 0 and self.opts.get("exact"):
            # paths that know different things about the inputs, or did different things, are kept apart
            items += sorted((k.id, str(v)) for k, v in st.facts.items() if k.closed)
            items += sorted(x.id for x in st.ineq if isinstance(x, T) and x.closed)
            items += sorted((k[0], k[1] if k[0] == "l" else k[1].id, k[2] if len(k) > 2 else 0, v.id) for k, v in st.store.items() if v.closed)
            items += sorted((str(k), v.id) for k, v in st.g.items() if isinstance(v, T) and v.closed)
        return (level, mode, tuple(items))

    def run(self, st):
        self.table = {}
        self.count = {}
        heap = []
        pend = {}
        seq = 0
        prio = {}

        def point_prio(stack):
            r = prio.get(stack)
            if r is None:
                l = []
                for e in stack:
                    if e[0] == "f":
                        l.append(self.body(e[2]).rpo.get(e[3], 0))
                    else:
                        l.append(0)
                r = prio[stack] = tuple(l)
            return r

        def arrive(s):
            nonlocal seq
            work = [s]
            while work:
                s = work.pop()
                if not s.stack:
                    continue
                if not self.at_join(s):
                    try:
                        nxt = self.exec(s)
                    except Infeasible:
                        nxt = []
                    work.extend(nxt)
                    if self.stats["blocks"] > self.MAXSTEPS:
                        raise AnalysisError("step budget exceeded at " + str(self.where(s)))
                    continue
                self.prune(s)
                self.gc(s)
                pt = s.stack
                n = self.count.get(pt, 0)
                level = 0 if n < self.CAP1 else (1 if n < self.CAP2 else 2)
                k = self.key(s, level)
                tk = (pt, k)
                old = self.table.get(tk)
                if old is None:
                    self.table[tk] = (s, 0)
                    self.count[pt] = n + 1
                else:
                    j = self.join(old[0], s, old[1])
                    if j is None:
                        continue
                    self.table[tk] = (j, old[1] + 1)
                    if old[1] > 60:
                        raise AnalysisError("no convergence at " + str(self.where(s)))
                if tk not in pend:
                    pend[tk] = 1
                    seq += 1
                    heapq.heappush(heap, (point_prio(pt), seq, tk))

        for s0 in (st if isinstance(st, list) else [st]):
            arrive(s0)
        while heap:
            _, _, tk = heapq.heappop(heap)
            pend.pop(tk, None)
            s = self.table[tk][0].clone()
            try:
                nxt = self.exec(s)
            except Infeasible:
                nxt = []
            for n in nxt:
                arrive(n)
            if self.stats["blocks"] > self.MAXSTEPS:
                raise AnalysisError("step budget exceeded")
        self.stats["partitions"] += len(self.table)
        self.stats["contexts"] += len({tk[0] for tk in self.table})

    # ---- join by anti-unification
    def join(self, a, b, n):
        """least general generalisation of a (old) and b (new); None if b adds nothing to a"""
        self.stats["joins"] += 1
        J = Join(self, a, b, n)
        return J.result()


def larger(x, y):
    for p, q in ((x, y), (y, x)):
        if q is ZERO and p.op == "l":
            c, d = lin_parts(p)
            if c == 0 and sorted(d.values()) == [-1, 1]:
                plus, minus = sorted(d, key=lambda i: -d[i])
                return prover.mksatsub(plus, minus)
    return prover.mkmax(x, y)


MINMAX = ("min", "max", "satsub")


class Join:
    def __init__(self, eng, a, b, n):
        self.eng, self.a, self.b, self.n = eng, a, b, n
        self.pairs = {}
        self.linpairs = []
        self.fresh = []
        self.groups = []
        self.extra = []
        self.comb = ZERO
        self.rows = {"a": ({"a": 1, "b": 1}, C(1))}
        self.memo = {}
        self.numsyms = None
        self.frozen = False

    def lgg(self, x, y):
        if x is y and x.closed:
            return x
        k = (x, y)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._lgg(x, y)
        self.memo[k] = r
        return r

    def args(self, p, q):
        if isinstance(p, T) and isinstance(q, T):
            return self.lgg(p, q)
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            out = []
            for x, y in zip(p, q):
                z = self.args(x, y)
                if z is None:
                    return None
                out.append(z)
            return tuple(out)
        if not isinstance(p, T) and not isinstance(q, T) and p == q:
            return p
        return None

    def _lgg(self, x, y):
        if x is not y and not self.frozen and self.n < 8 and x.op == "f" == y.op and x.args[0] in MINMAX and y.args[0] in MINMAX:
            # a value that equals the other one on its own side
            if self.eng.eq(self.a, x, y):
                return self.lgg(y, y)
            if self.eng.eq(self.b, x, y):
                return self.lgg(x, x)
        if x.op == y.op and x.op not in ("v", "c", "b", "s", "l") and len(x.args) == len(y.args):
            if x.op != "o" or self.args_same_ident(x, y):
                out = []
                mark = None
                ok = True
                for p, q in zip(x.args, y.args):
                    if not isinstance(p, (T, tuple)) and p != q:
                        ok = False
                        break
                if ok:
                    for p, q in zip(x.args, y.args):
                        z = self.args(p, q)
                        if z is None:
                            ok = False
                            break
                        out.append(z)
                    if ok:
                        r = rebuild(x.op, tuple(out))
                        if x.op in ("f", "p") and not r.closed and self.isnum(x) and self.isnum(y):
                            self.register(x, y, r)
                        if x.op == "a":
                            grp = self.leaves(x, y, tuple(out), [])
                            if 1 < len(grp) <= 3:
                                self.groups.append(tuple(grp))
                        if x.signed or y.signed:
                            r.signed = True
                        return r
        if x.op == "sl" and y.op in ("v", "r", "f", "p", "s"):
            y2 = self.eng.as_slice(self.b, y)
            if y2 is not y and y2.args[0].op != "a":
                return self.lgg(x, y2)
        elif y.op == "sl" and x.op in ("v", "r", "f", "p", "s"):
            x2 = self.eng.as_slice(self.a, x)
            if x2 is not x and x2.args[0].op != "a":
                self.fresh.append(x)
                return self.lgg(x2, y)
        return self.pair(x, y)

    def leaves(self, x, y, z, out):
        """the numbers paired within two values of the same shape"""
        for p, q, r in zip(x.args[2:], y.args[2:], z[2:]):
            if self.isnum(p) and self.isnum(q):
                out.append((p, q, r))
            elif p.op == "a" and q.op == "a" and r.op == "a" and p.args[:2] == q.args[:2]:
                self.leaves(p, q, r.args, out)
        return out

    def args_same_ident(self, x, y):
        return True

    def pair(self, x, y):
        k = (x, y)
        r = self.pairs.get(k)
        if r is not None:
            return r
        if self.frozen:
            return None
        num = self.isnum(x) and self.isnum(y)
        if not num:
            v = self.pairs[k] = Var(signed=x.signed or y.signed)
            self.fresh.append(x)
            self.lenrow(x, y, v)
            return v
        # affine hull: the value is a combination of values already seen, or a new dimension
        vec, expr = self.reduce(x, y)
        if expr is None and len(vec) > 1 and "l" in (x.op, y.op):
            # an unknown that both sides share is paired with itself
            both = [at for (i, at) in (j for j in vec if j not in ("a", "b")) if i == "a" and vec.get(("b", at)) == vec[(i, at)]]
            for at in both:
                if at.op == "v" or at.op == "f" and at.args[0] == "len":
                    self.lgg(at, at)
            if both:
                vec, expr = self.reduce(x, y)
        if expr is not None:
            self.pairs[k] = expr
            if not (x.signed or y.signed) and expr.op == "l":
                self.extra.append(scale(expr, -1))
            return expr
        if x.closed and y.closed and self.n < 4 and not (x.signed or y.signed) and (x.op != "c" or y.op != "c"):
            # the branches of a minimum, a maximum, or a saturating difference
            r = None
            if self.eng.le(self.a, y, x) and self.eng.le(self.b, x, y):
                r = larger(x, y)
            elif self.eng.le(self.a, x, y) and self.eng.le(self.b, y, x):
                r = prover.mkmin(x, y)
            if r is not None:
                self.pairs[k] = r
                return r
        v = Var(signed=x.signed or y.signed)
        self.pairs[k] = v
        self.fresh.append(x)
        self.linpairs.append((x, y, v))
        piv = None
        for i in vec:
            if piv is None or abs(vec[i]) < abs(vec[piv]):
                piv = i
        # vec = (x, y) - combination, so the new row stands for v - combination
        self.rows[piv] = (vec, add(v, self.comb, -1))
        if x.op == "v" and y.op == "v":
            self.lenrow(x, y, v)
        return v

    def lenrow(self, x, y, v):
        """the lengths of paired buffers are paired"""
        lx, ly = self.eng.length_of(x), self.eng.length_of(y)
        if lx is None or ly is None:
            return
        if not x.closed and not y.closed:
            self.register(lx, ly, App("len", v))

    def register(self, x, y, r):
        vec, expr = self.reduce(x, y)
        if expr is None and vec:
            piv = None
            for i in vec:
                if piv is None or abs(vec[i]) < abs(vec[piv]):
                    piv = i
            self.rows[piv] = (vec, add(r, self.comb, -1))

    def reduce(self, x, y):
        """(rest, expression): the pair as a combination of the rows"""
        vec = {}
        comb = ZERO
        for side, t in (("a", x), ("b", y)):
            c, d = lin_parts(t)
            if c:
                vec[side] = c
            for at, k in d.items():
                vec[(side, at)] = k
                if at.closed and ("a", at) not in self.rows:
                    self.rows[("a", at)] = ({("a", at): 1, ("b", at): 1}, at)
        for _ in range(60):
            hit = None
            for i in vec:
                if i in self.rows:
                    hit = i
                    break
            if hit is None:
                break
            rv, re = self.rows[hit]
            q = Fraction(vec[hit]) / rv[hit]
            if q.denominator != 1:
                # not an integer combination
                self.comb = comb
                return vec, None
            q = int(q)
            comb = add(comb, re, q)
            for i, k in rv.items():
                z = vec.get(i, 0) - q * k
                if z:
                    vec[i] = z
                else:
                    vec.pop(i, None)
        self.comb = comb
        if not vec:
            return vec, comb
        return vec, None

    def isnum(self, t):
        if t.op == "c":
            return isinstance(t.args[0], int)
        if t.op == "s":
            # a symbol that is compared is a number
            if self.numsyms is None:
                self.numsyms = {x for l in self.a.ineq + self.b.ineq for x in lin_parts(l)[1] if x.op == "s"}
            return t in self.numsyms
        return t.op in ("l", "v", "p") or (t.op == "f" and t.args[0] in ("min", "max", "satsub", "rem", "len"))

    def result(self):
        a, b, eng = self.a, self.b, self.eng
        n = S()
        n.stack = a.stack
        n.mode = dict(b.mode)
        n.trail = a.trail
        dropped = False
        common = [k for k in a.store if k in b.store]
        # atomic values first so that compound ones reuse their variables
        def level(x, y):
            if x.op == "l" or y.op == "l":
                return 2
            return 0 if x.op in ("v", "c") else 1
        items = []
        for k in common:
            x, y = a.store[k], b.store[k]
            items.append((level(x, y), k, x, y))
        items.sort(key=lambda i: i[0])
        gk = [k for k in a.g if k in b.g]
        gi = []
        for k in gk:
            x, y = a.g[k], b.g[k]
            gi.append((level(x, y), k, x, y))
        gi.sort(key=lambda i: i[0])
        # numbers inside of compound values take their turn, too
        leaves, todo, seen = [], [(x, y) for l, k, x, y in items + gi if l == 1], set()
        while todo:
            x, y = todo.pop()
            if x is y or (x, y) in seen or x.op != y.op:
                continue
            seen.add((x, y))
            if x.op == "a" and len(x.args) == len(y.args) and x.args[:2] == y.args[:2] or x.op == "sl":
                for p, q in zip(x.args, y.args):
                    if isinstance(p, T) and isinstance(q, T):
                        if p.op in ("a", "sl"):
                            todo.append((p, q))
                        elif self.isnum(p) and self.isnum(q):
                            leaves.append((level(p, q), p, q))
        for lvl in (0, 1):
            for l, k, x, y in items:
                if l == lvl and x.op not in ("a", "sl"):
                    self.lgg(x, y)
            for l, x, y in leaves:
                if l == lvl:
                    self.lgg(x, y)
        for lvl in (0, 1, 2):
            for l, k, x, y in items:
                if l == lvl:
                    n.store[k] = self.lgg(x, y)
            for l, k, x, y in gi:
                if l == lvl:
                    n.g[k] = self.lgg(x, y)
        if len(n.store) != len(a.store) or len(n.g) != len(a.g):
            dropped = True
        # facts
        self.frozen = True
        left = {}
        for (x, y), v in self.pairs.items():
            left.setdefault(x, []).append((y, v))
        self.derive(left, 0)
        lost = 0
        for t, val in a.facts.items():
            got = False
            if t.closed:
                if b.facts.get(t) == val or self.entailed(b, t, val):
                    n.facts[t] = val
                    got = True
            else:
                for t2, tn in self.mapped(t, left):
                    if b.facts.get(t2) == val or self.entailed(b, t2, val):
                        n.facts[tn] = val
                        got = True
            if not got:
                lost += 1
        ineq = [l for l in self.extra if lin_parts(l)[1]] if self.n < 8 else []
        for l in a.ineq:
            got = False
            if l.closed:
                if prover.entails(b.ineq, l, 1):
                    ineq.append(l)
                    got = True
            else:
                for l2, ln in self.mapped(l, left):
                    if prover.entails(b.ineq, l2, 1):
                        ineq.append(ln)
                        got = True
            if not got:
                lost += 1
        if self.n < 5:
            right = {}
            for (x, y), v in self.pairs.items():
                right.setdefault(y, []).append((x, v))
            self.derive(right, 1)
            for l in b.ineq:
                if l in a.ineq:
                    continue
                if l.closed:
                    if prover.entails(a.ineq, l, 1):
                        ineq.append(l)
                    continue
                for l2, ln in self.mapped(l, right):
                    if prover.entails(a.ineq, l2, 1):
                        ineq.append(ln)
            for t, val in b.facts.items():
                if t.closed:
                    if t not in a.facts and self.entailed(a, t, val):
                        n.facts[t] = val
                elif t.op == "f" and t.args[0] == "cov":
                    for t2, tn in self.mapped(t, right):
                        if tn not in n.facts and self.entailed(a, t2, val):
                            n.facts[tn] = val
        # order relations that hold on both sides: between paired numbers, ghosts, and the values of either side
        if self.n < 40:
            def keep(x, y, v):
                """x <= 0 on one side, y <= 0 on the other: v <= 0 in the join"""
                if not lin_parts(v)[1] or v in ineq or prover.trivial(v):
                    return
                if prover.possible(a.ineq, x) and prover.possible(b.ineq, y) \
                        and prover.entails(a.ineq, x) and prover.entails(b.ineq, y):
                    ineq.append(v)
            gn = [(a.g[k], b.g[k], n.g[k]) for k in n.g if self.isnum(a.g[k]) and self.isnum(b.g[k])]
            for grp in (list(self.groups) if self.n < 6 else []) + [gn]:
                if len(grp) > 6 or all(x is y for x, y, _ in grp):
                    continue
                for x1, y1, v1 in grp:
                    for x2, y2, v2 in grp:
                        if v1 is not v2 and not (x1 is y1 and x2 is y2):
                            keep(sub(x1, x2), sub(y1, y2), sub(v1, v2))
            # numbers within structures and ghosts
            lv = {}
            for l, x, y in leaves:
                v = self.memo.get((x, y)) or self.pairs.get((x, y))
                if v is not None and not v.closed and v not in lv:
                    lv[v] = (x, y)
            if len(lv) <= 8:
                for v1, (x1, y1) in lv.items():
                    for x2, y2, v2 in gn:
                        if v1 is not v2:
                            keep(sub(x1, x2), sub(y1, y2), sub(v1, v2))
                            keep(sub(x2, x1), sub(y2, y1), sub(v2, v1))
        if self.n < 20:
            # numbers and slice lengths of the same function
            fr = {}
            lens = set()
            for l in a.ineq + b.ineq:
                ats = list(lin_parts(l)[1])
                while ats:
                    at = ats.pop()
                    if at.op == "f" and at.args[0] == "len":
                        lens.add(at)
                    elif at.op == "f" and at.args[0] in ("min", "max"):
                        for x in at.args[1:]:
                            ats += list(lin_parts(x)[1])
            for k, v in n.store.items():
                if k[0] != "l":
                    continue
                x, y = a.store[k], b.store[k]
                if v.op == "r" and x is y and v is x and not v.args[1] and v.args[0] in n.store:
                    # a borrowed value counts for the function that borrows it
                    kk = v.args[0]
                    x, y, v = a.store[kk], b.store[kk], n.store[kk]
                    if v.op == "v" and App("len", x) not in lens and App("len", y) not in lens:
                        continue
                if v.op == "v" and x.op == "v" and y.op == "v":
                    p, q = App("len", x), App("len", y)
                    if p in lens or q in lens:
                        fr.setdefault(k[1], []).append((p, q, App("len", v)))
                        continue
                if v.op == "sl":
                    x, y = eng.as_slice(a, x), eng.as_slice(b, y)
                if x.op == "sl" and y.op == "sl" and v.op == "sl":
                    fr.setdefault(k[1], []).append((x.args[2], y.args[2], v.args[2]))
                elif self.isnum(x) and self.isnum(y) and not v.closed and not v.signed:
                    fr.setdefault(k[1], []).append((x, y, v))
            for grp in fr.values():
                if len(grp) > 8:
                    continue
                for x1, y1, v1 in grp:
                    for x2, y2, v2 in grp:
                        if v1 is not v2 and not (x1 is y1 and x2 is y2):
                            keep(sub(x1, x2), sub(y1, y2), sub(v1, v2))
                for x1, y1, v1 in grp:
                    for x2, y2, v2 in gn:
                        if v1 is not v2 and v2.op == "v" and not v1.closed:
                            keep(sub(x1, x2), sub(y1, y2), sub(v1, v2))
                            keep(sub(x2, x1), sub(y2, y1), sub(v2, v1))
            for x1, y1, v1 in (self.linpairs if self.n < 6 else []):
                if x1 is y1:
                    continue
                for u in (x1, y1):
                    if u.closed and u.op != "c" and u is not v1:
                        keep(sub(x1, u), sub(y1, u), sub(v1, u))
                        keep(sub(u, x1), sub(u, y1), sub(u, v1))
                keep(sub(C(1), x1), sub(C(1), y1), sub(C(1), v1))
                if (x1.op == "c") != (y1.op == "c"):
                    # a constant that bounds the other side
                    u = x1 if x1.op == "c" else y1
                    keep(sub(x1, u), sub(y1, u), sub(v1, u))
        out, seen = [], set()
        for l in ineq:
            c, d = lin_parts(l)
            if not d or l in seen or prover.trivial(l):
                continue
            seen.add(l)
            out.append(l)
        n.ineq = tuple(out)
        if dropped or lost:
            return n
        # is the old state already at least as general?
        lefts = set()
        for x in self.fresh:
            if x.op != "v" or x in lefts:
                return n
            lefts.add(x)
        if len(n.ineq) > len(a.ineq) or len(n.facts) > len(a.facts):
            # renamed duplicates only
            pass
        return None

    def entailed(self, st, t, val):
        if t.op == "f" and t.args[0] in ("discr",):
            return False
        if t.op == "f" and t.args[0] == "cov":
            return self.eng.models.covered(self.eng, st, t.args[1], t.args[2])
        if t.op == "f" and t.args[0] == "isnt":
            d = st.facts.get(t.args[1])
            if d is not None and d != t.args[2].args[0]:
                return True
            x = t.args[1]
            if x.op == "f" and x.args[0] == "discr":
                dd = self.eng.discr_of(st, x.args[1])
                return dd is not None and dd != t.args[2].args[0]
            return False
        r = self.eng.truth(st, t)
        return r is not None and r == bool(val)

    def derive(self, pairs, side):
        """variables of one side that occur in the pairs only as a part of sums: expressed by the others"""
        if self.n >= 8:
            return
        for pr in self.linpairs:
            one, other, v = pr[side], pr[1 - side], pr[2]
            c, d = lin_parts(one)
            if len(d) < 2:
                continue
            new = [u for u, k in d.items() if u.op == "v" and abs(k) == 1 and u not in pairs]
            if len(new) != 1:
                continue
            u, k = new[0], d[new[0]]
            rest = add(one, u, -k)
            m = [(rest, rest)] if rest.closed else self.mapped(rest, pairs)
            if m:
                # one = k*u + rest
                o, r = m[0]
                pairs[u] = [(scale(sub(other, o), k), scale(sub(v, r), k))]

    def mapped(self, t, left):
        """translations of a fact of one side to the other side and to the join, using the variable pairs"""
        vs = set()
        vars_of(t, vs)
        vs = sorted(vs, key=lambda v: v.id)
        if len(vs) > 8:
            return []
        combos = [({}, {})]
        for v in vs:
            opts = left.get(v, [])[:3]
            if not opts:
                return []
            combos = [({**m, v: y}, {**m2, v: w}) for m, m2 in combos for (y, w) in opts]
            if len(combos) > 9:
                combos = combos[:9]
        return [(subst(t, m), subst(t, m2)) for m, m2 in combos]
