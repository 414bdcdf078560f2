"""Rules about the storage implementations (P17-P21)."""
from .engine import Engine, S, AnalysisError, Infeasible
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .jobs import Result
from .prover import mkmin, mksatsub, mkrem
from .rules_task import Rule, err_kind, known_some, root

BUF = Sym("buf")
INFO = Sym("info")
PROV, CLEN = Sym("prov"), Sym("clen")


def START(x):
    return Agg("std::io::SeekFrom", 0, x)


def run(prog, name, bid, args, mons, opts=None, init=None):
    """analyses one function from a symbolic state"""
    o = {"lock_stable": True, "apperr": True, "opaque": ()}
    o.update(opts or {})
    eng = Engine(prog, mons, opts=o)
    eng.rootname = name
    st = S()
    st.mode["role"] = name
    if init:
        init(st)
    eng.run(eng.start(st, bid, args))
    r = Result()
    for m in mons:
        m.done(eng)
    r.add_engine(eng, name)
    return r


def ends(prog, bid, args, opts=None, init=None, mons=()):
    e = Ends()
    run(prog, "roles", bid, args, [e] + list(mons), opts, init)
    return e.l


def made(prog, provider, opts=None, cl=CLEN):
    """the reader and writer a storage provider makes: [(state, reader, writer)], [(state, error)]"""
    bid = impl(prog, "StorageProvider", "into_reader_writer", provider)
    good, bad = [], []
    for st, v in ends(prog, bid, [PROV, cl], opts):
        if is_agg(v, RES, 0) and is_agg(v.args[2], "()"):
            good.append((st, v.args[2].args[2], v.args[2].args[3]))
        else:
            bad.append((st, v))
    return good, bad


def unwrap_lock(v):
    """the content of the lock inside of a value"""
    n = 0
    while v.op == "a" and n < 8:
        if v.args[0] == "lock":
            return v.args[2]
        if len(v.args) != 3:
            return None
        v = v.args[2]
        n += 1
    return None


class Shared:
    """the state shared by reader and writer: one lock"""

    def __init__(self, prog, provider, opts=None):
        self.prog, self.provider = prog, provider
        good, bad = made(prog, provider, opts)
        if not good:
            raise Missing(f"{provider} never succeeds to make its reader and writer")
        self.good, self.bad = good, bad
        st, self.reader, self.writer = good[0]
        locks = [(k, unwrap_lock(v)) for k, v in st.store.items() if k[0] == "h" and unwrap_lock(v) is not None]
        if len(locks) != 1:
            raise Missing(f"reader and writer of {provider} share {len(locks)} locks")
        self.key, self.content = locks[0]
        self.st = st
        self.name = provider[:-len("Provider")]
        self.rty = self.reader.args[0]
        self.wty = self.writer.args[0]

    def state(self, content):
        def init(st):
            for k, v in self.st.store.items():
                if k[0] == "h":
                    st.store[k] = v
            st.facts.update(self.st.facts)
            st.store[("h", Sym("self_r"))] = self.reader
            st.store[("h", Sym("self_w"))] = self.writer
        return init

    R = Ref(("h", Sym("self_r")), ())
    W = Ref(("h", Sym("self_w")), ())

    def method(self, side, trait, m):
        return impl(self.prog, trait, m, (self.rty if side == "r" else self.wty).split("::")[-1])


class Content(Monitor):
    """gives the shared state symbolic content the first time it is locked, and tracks it"""
    content = INFO

    def locked(self, eng, st, lid, base):
        if not st.mode.get("lk"):
            st.mode["lk"] = 1
            st.store[base] = self.content
            st.g["lockbase"] = App("base", base[1])

    def now(self, eng, st):
        b = st.g.get("lockbase")
        return st.store.get(("h", b.args[1]), self.content) if b is not None else self.content


def fld(t, i):
    return get_field(t, (None, i))


# ------------------------------------------------------------------------------------------------ bounded
class Bounded(Shared):
    def __init__(self, prog):
        Shared.__init__(self, prog, "BoundedStorageProvider")
        n = len(self.content.args) - 2
        self.n = n

        def moved(side):
            x = Sym("target")
            m = Content()
            es = Ends()
            run(prog, "roles", self.method(side, "Seek", "seek"), [self.R if side == "r" else self.W, START(x)], [m, es], init=self.state(None))
            fs = set()
            for st, v in es.l:
                if is_agg(v, RES, 0):
                    c = m.now(None, st)
                    fs.add(tuple(i for i in range(n) if fld(c, i) is not fld(INFO, i)))
            if len(fs) != 1 or len(next(iter(fs))) != 1:
                raise Missing(f"seeking the {'reader' if side == 'r' else 'writer'} of bounded storage changes {fs}")
            return next(iter(fs))[0]
        self.rp, self.wp = moved("r"), moved("w")
        rest = [i for i in range(n) if i not in (self.rp, self.wp)]
        if self.rp == self.wp or len(rest) != 1:
            raise Missing("the positions of bounded storage are not separate")
        self.size = rest[0]
        self.inner_r = M.obj_of(self.reader) if hasattr(M, "obj_of") else None


class Ring(Content, Rule):
    """reads from or writes to the ring"""

    def __init__(self, b, side, prop):
        self.b, self.side, self.P = b, side, prop
        self.rp, self.wp, self.size = fld(INFO, b.rp), fld(INFO, b.wp), fld(INFO, b.size)
        self.pos = self.rp if side == "r" else self.wp
        self.word = "read" if side == "r" else "written"

    def begin(self, st):
        st.g["np"] = mkrem(self.pos, self.size)
        st.g["tot"] = ZERO
        st.mode["failed"] = 0
        st.mode["dirty"] = 0

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "io_err":
            st.mode["failed"] = 1
        elif k == "flush":
            st.mode["dirty"] = 0
        elif k in ("did_read", "wrote"):
            b, off, ln = ev.buf.args
            p = sub(M.gpos(eng, st, ev.obj), ev.n)
            zero = eng.le(st, ev.n, ZERO)
            np = st.g["np"]
            there = eng.eq(st, p, np) or (eng.eq(st, p, ZERO) and eng.eq(st, np, self.size))
            self.ob(eng, st, ev, "ring-position", zero or there,
                    f"bytes are {self.word} at a place of the ring other than the position modulo the size")
            self.ob(eng, st, ev, "ring-end", zero or eng.le(st, add(p, ev.n), self.size), f"bytes may be {self.word} beyond the end of the ring")
            self.ob(eng, st, ev, "prefix", zero or (b is BUF and eng.eq(st, off, st.g["tot"])),
                    "the caller's bytes are not used in their order")
            st.g["tot"] = add(st.g["tot"], ev.n)
            st.g["np"] = add(p, ev.n)
            st.mode["dirty"] = 1

    def end(self, eng, st, v):
        c = self.now(eng, st)
        rp, wp, size = fld(c, self.b.rp), fld(c, self.b.wp), fld(c, self.b.size)
        other = eng.eq(st, wp, self.wp) if self.side == "r" else eng.eq(st, rp, self.rp)
        mine = rp if self.side == "r" else wp
        ln = App("len", BUF)
        taken = mksatsub(self.wp, self.rp)
        most = taken if self.side == "r" else mksatsub(self.size, taken)
        self.ob(eng, st, None, "other-position", other and eng.eq(st, size, self.size), "the other position or the size changes")
        if is_agg(v, RES, 0):
            n = v.args[2]
            self.ob(eng, st, None, "count", eng.eq(st, n, st.g["tot"]), f"the number of bytes reported is not the number of bytes {self.word}")
            self.ob(eng, st, None, "advance", eng.eq(st, mine, add(self.pos, n)), "the position is not advanced by the number of bytes reported")
            self.ob(eng, st, None, "most", eng.le(st, n, most), "more bytes are read than are available" if self.side == "r" else "more bytes are accepted than there is room for")
            self.ob(eng, st, None, "error-hidden", not st.mode["failed"], "an error of the inner storage is not returned")
            if self.case == "possible":
                self.ob(eng, st, None, "progress", eng.lt(st, ZERO, n), "nothing is done although it was possible")
            self.ob(eng, st, None, "not-rejected", self.case not in ("oversized", "overwritten"), "a read larger than the capacity, or of overwritten bytes, is not rejected")
            if self.side == "w" and st.mode["dirty"]:
                self.dirty = True
        elif is_agg(v, RES, 1):
            self.ob(eng, st, None, "error-moves", eng.eq(st, mine, self.pos), "the position changes although an error is returned")
            if not st.mode["failed"]:
                self.ob(eng, st, None, "rejected", self.case in ("oversized", "overwritten") and err_kind(eng, v.args[2]) == "InvalidInput",
                        "a request is rejected without a reason or not as invalid input")
                self.ob(eng, st, None, "rejected-late", eng.le(st, st.g["tot"], ZERO), "bytes are moved before a request is rejected")
        else:
            self.ob(eng, st, None, "result", False, "the result is unknown")

    def cases(self):
        """[(name, inequalities)]: the cases the specification distinguishes"""
        ln = App("len", BUF)
        taken = mksatsub(self.wp, self.rp)
        if self.side == "w":
            room = mksatsub(self.size, taken)
            return [("possible", [sub(C(1), room), sub(C(1), ln)]), ("full", [room]), ("empty", [ln])]
        fits, valid = sub(ln, self.capacity), sub(taken, self.size)
        return [("oversized", [add(sub(self.capacity, ln), C(1))]), ("overwritten", [fits, add(sub(self.size, taken), C(1))]),
                ("possible", [fits, valid, sub(C(1), taken), sub(C(1), ln)]), ("nothing", [fits, valid, taken]), ("empty", [fits, valid, ln])]


class Seeks(Content, Rule):
    """seeking one handle of bounded storage"""

    def __init__(self, b, side, how, prop):
        self.b, self.side, self.how, self.P = b, side, how, prop

    def event(self, eng, st, ev):
        if ev.kind in ("wrote", "did_read"):
            self.ob(eng, st, ev, "seek-transfers", False, "seeking moves bytes")

    def end(self, eng, st, v):
        b = self.b
        c = self.now(eng, st)
        x = Sym("target")
        i = b.rp if self.side == "r" else b.wp
        same = all(eng.eq(st, fld(c, j), fld(INFO, j)) for j in (b.rp, b.wp, b.size) if j != i)
        self.ob(eng, st, None, "seek-other", same, "seeking changes the other position or the size")
        now, old = fld(c, i), fld(INFO, i)
        if is_agg(v, RES, 0):
            want = x if self.how == 0 else add(old, x)
            self.ob(eng, st, None, "seek-target", self.how != 1 and eng.eq(st, now, want) and eng.eq(st, v.args[2], want),
                    "seeking does not lead to, or does not return, the requested position")
        else:
            self.ob(eng, st, None, "seek-rejected", self.how != 0 and eng.eq(st, now, old), "a seek that fails moves the position, or a valid seek fails")


class Flush(Rule):
    def __init__(self, prop):
        self.P = prop
        self.never = False

    def event(self, eng, st, ev):
        if ev.kind == "flush":
            st.mode["fl"] = 1

    def end(self, eng, st, v):
        if is_agg(v, RES, 0) and not st.mode.get("fl"):
            self.never = True


def bounded_init(prog, prop, b):
    """what the provider makes"""
    r = Result()

    def ob(key, ok, msg):
        r.obl[(prop, key)] = r.obl.get((prop, key), 0) + 1
        if not ok:
            r.violations.setdefault((prop, key), {"message": msg, "at": impl(prog, "StorageProvider", "into_reader_writer", b.provider), "path": []})
    for st, rd, wr in b.good:
        locks = [(k, unwrap_lock(v)) for k, v in st.store.items() if k[0] == "h" and unwrap_lock(v) is not None]
        ok = len(locks) == 1
        ob("shared", ok and all(any(f.op == "s" and ("h", f) == locks[0][0] or str(locks[0][0][1]) in str(f) for f in x.args[2:]) for x in (rd, wr)),
           "reader and writer do not share their positions")
        c = locks[0][1]
        ob("start", fld(c, b.rp) is ZERO and fld(c, b.wp) is ZERO, "the positions do not start at zero")
    return r


def bounded_jobs(prog, side, prop):
    b = Bounded(prog)
    cap = capacity(prog, b.provider)

    mt = ("Read", "read") if side == "r" else ("Write", "write")

    def ring(i):
        m = Ring(b, side, prop)
        m.capacity = cap
        m.dirty = False
        m.case, given = m.cases()[i]

        def init(st):
            b.state(None)(st)
            m.begin(st)
            st.ineq = tuple(given)
        r = run(prog, f"bounded {mt[1]} [{m.case}]", b.method(side, *mt), [b.R if side == "r" else b.W, Slice(BUF, ZERO, App("len", BUF))], [m], init=init)
        if side == "w":
            f = Flush(prop)
            run(prog, "bounded flush", b.method("w", "Write", "flush"), [b.W], [f], init=b.state(None))
            r.obl[(prop, "flushed")] = 1
            if m.dirty and f.never:
                r.violations[(prop, "flushed")] = {"message": "written bytes are flushed neither by the write nor by flush", "at": b.method("w", "Write", "write"), "path": []}
        return r
    jobs = [lambda i=i: ring(i) for i in range(3 if side == "w" else 5)]
    for how in (0, 1, 2):
        def job(how=how):
            m = Seeks(b, side, how, prop)
            return run(prog, f"bounded {'reader' if side == 'r' else 'writer'} seek {how}", b.method(side, "Seek", "seek"),
                       [b.R if side == "r" else b.W, Agg("std::io::SeekFrom", how, Sym("target"))], [m], init=b.state(None))
        jobs.append(job)
    jobs.append(lambda: bounded_init(prog, prop, b))
    return jobs


def capacity(prog, provider):
    """what max_capacity of the provider reports"""
    bid = impl(prog, "StorageProvider", "max_capacity", provider)
    es = ends(prog, bid, [Ref(("h", Sym("provref")), ())], init=lambda st: st.store.__setitem__(("h", Sym("provref")), PROV))
    vs = {v for _, v in es}
    if len(vs) != 1 or not is_agg(next(iter(vs)), OPT, 1):
        raise Missing("max_capacity has no single value")
    return next(iter(vs)).args[2]


# ------------------------------------------------------------------------------------------------ memory
MEMOPTS = {"membuf": 1, "atoms": 1}
MEM = Agg("membuf", 0, Sym("mem"), Sym("length"))


class Memory(Shared):
    """one shared buffer, one position per handle"""

    def __init__(self, prog):
        Shared.__init__(self, prog, "MemoryStorageProvider", MEMOPTS)
        c = self.content
        self.at = () if M.is_membuf(c) else next((((None, i),) for i, x in enumerate(c.args[2:] if c.op == "a" else ()) if M.is_membuf(x)), None)
        if self.at is None:
            raise Missing("the content of memory storage is not a byte vector")
        self.symbolic = MEM if self.at == () else set_field(c, self.at[0], MEM)

        def moved(side):
            m = self.monitor(Content())
            es = Ends()
            run(prog, "roles", self.method(side, "Seek", "seek"), [self.R if side == "r" else self.W, START(Sym("target"))], [m, es], MEMOPTS, init=self.state(None))
            fs = set()
            for st, v in es.l:
                if is_agg(v, RES, 0):
                    h = st.store[("h", Sym("self_" + side))]
                    fs.add(tuple(i for i in range(len(h.args) - 2) if fld(h, i) is Sym("target")))
            if len(fs) != 1 or len(next(iter(fs))) != 1:
                raise Missing(f"seeking a handle of memory storage changes its fields {fs}")
            return next(iter(fs))[0]
        self.pos = {"r": moved("r"), "w": moved("w")}

    def monitor(self, m):
        m.content = self.symbolic
        return m

    def buf(self, c):
        return c if self.at == () else get_field(c, self.at[0])

    def handle(self, side):
        def init(st):
            self.state(None)(st)
            for x in "rw":
                k = ("h", Sym("self_" + x))
                st.store[k] = set_field(st.store[k], (None, self.pos[x]), POS if x == side else OTHER)
        return init

    def position(self, st, side):
        return fld(st.store[("h", Sym("self_" + side))], self.pos[side])


POS, OTHER = Sym("position"), Sym("otherposition")


class MemRule(Content, Rule):
    def __init__(self, b, side, prop, case=None):
        self.b, self.side, self.P, self.case = b, side, prop, case
        self.content = b.symbolic
        self.len = MEM.args[3]

    def begin(self, st):
        st.g["tot"] = ZERO
        st.mode["rejected"] = 0

    def buffer(self, eng, st):
        c = self.now(eng, st)
        return self.b.buf(c)

    def common(self, eng, st):
        o = "w" if self.side == "r" else "r"
        self.ob(eng, st, None, "other-position", eng.eq(st, self.b.position(st, o), OTHER), "the position of the other handle changes")
        if self.side == "r":
            m = self.buffer(eng, st)
            self.ob(eng, st, None, "unchanged", m is MEM or M.is_membuf(m) and m.args[2] is MEM.args[2] and eng.eq(st, m.args[3], self.len), "reading changes the buffer")


class MemIO(MemRule):
    """reads and writes"""

    def split(self, eng, st, o, v):
        # everything in front of the position was written: counters and marks are at least there
        try:
            if self.case == "possible":
                eng.add_ineq(st, sub(add(POS, C(1)), v))
        except Infeasible:
            return []
        return [st]

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "slice":
            self.ob(eng, st, ev, "in-range", ev.ok, "a slice of the buffer may be out of range")
        elif k == "resized":
            self.ob(eng, st, ev, "kept", self.side == "w" and eng.le(st, ev.old, ev.new), "stored bytes are cut off")
        elif k == "bufop":
            self.ob(eng, st, ev, "bufop", False, "the buffer is changed in an unknown way")
        elif k == "copy":
            mine, mem = (ev.dst, ev.src) if self.side == "r" else (ev.src, ev.dst)
            zero = eng.le(st, mine.args[2], ZERO)
            self.ob(eng, st, ev, "equal-length", ev.ok, "slices of different lengths are copied")
            self.ob(eng, st, ev, "place", zero or mem.args[0] is MEM.args[2] and eng.eq(st, mem.args[1], add(POS, st.g["tot"])), "bytes are copied at a place other than the position")
            self.ob(eng, st, ev, "order", zero or mine.args[0] is BUF and eng.eq(st, mine.args[1], st.g["tot"]), "the caller's bytes are not used in their order")
            st.g["tot"] = add(st.g["tot"], mine.args[2])

    def end(self, eng, st, v):
        self.common(eng, st)
        pos = self.b.position(st, self.side)
        ln = App("len", BUF)
        tot = st.g["tot"]
        if is_agg(v, RES, 1):
            self.ob(eng, st, None, "error", eng.eq(st, pos, POS) and self.case is None, "a transfer fails")
            return
        n = v.args[2] if is_agg(v, RES, 0) else None
        self.ob(eng, st, None, "count", n is not None and eng.eq(st, n, tot), "the number of bytes reported is not the number of bytes moved")
        if n is None:
            return
        self.ob(eng, st, None, "advance", eng.eq(st, pos, add(POS, n)), "the position is not advanced by the number of bytes reported")
        if self.side == "r":
            self.ob(eng, st, None, "most", eng.le(st, tot, ZERO) or eng.le(st, add(POS, tot), self.len), "bytes beyond the end of the buffer are returned")
            if self.case == "possible":
                self.ob(eng, st, None, "progress", eng.lt(st, ZERO, n), "nothing is returned although bytes were written there")
        else:
            m = self.buffer(eng, st)
            self.ob(eng, st, None, "all", eng.eq(st, n, ln), "not all bytes are stored")
            known = M.is_membuf(m)
            self.ob(eng, st, None, "kept", known and eng.le(st, self.len, m.args[3]), "the buffer shrinks")
            self.ob(eng, st, None, "stored", known and (eng.le(st, n, ZERO) or eng.le(st, add(POS, n), m.args[3])), "written bytes are not part of the buffer")
            for k, a in list(st.g.items()):
                if isinstance(k, tuple) and k[0] == "atom":
                    s = st.clone()
                    try:
                        eng.add_ineq(s, sub(POS, App("initially", k[1])))
                    except Infeasible:
                        continue
                    self.ob(eng, st, None, "readable", eng.le(s, add(POS, n), a), "written bytes are not counted as written")
                    self.ob(eng, st, None, "readable", eng.le(st, App("initially", k[1]), a), "bytes written before do not count as written any more")


class MemSeek(MemRule):
    def event(self, eng, st, ev):
        k = ev.kind
        if k in ("copy", "resized", "bufop"):
            self.ob(eng, st, ev, "seek-changes", False, "seeking changes the buffer")
        elif k == "aswap" or k == "astore":
            self.ob(eng, st, ev, "seek-changes", False, "seeking changes what counts as written")

    def end(self, eng, st, v):
        self.common(eng, st)
        pos = self.b.position(st, self.side)
        x = Sym("target")
        want = (x, add(self.len, TGT), add(POS, TGT))[self.case]
        if is_agg(v, RES, 0):
            self.ob(eng, st, None, "seek-target", eng.eq(st, pos, want) and eng.eq(st, v.args[2], want), "seeking does not lead to, or does not return, the requested position")
            self.ob(eng, st, None, "seek-negative", eng.le(st, ZERO, want), "a seek to a negative position succeeds")
        else:
            self.ob(eng, st, None, "seek-rejected", self.case != 0 and eng.eq(st, pos, POS) and err_kind(eng, v.args[2]) == "InvalidInput",
                    "a seek that fails moves the position, or a valid seek fails, or not as invalid input")
            s = st.clone()
            bad = any(f.op == "f" and f.args[0] == "ovf" for f in st.facts)
            try:
                eng.add_ineq(s, scale(want, -1))
            except Infeasible:
                bad = True
            self.ob(eng, st, None, "seek-refused", bad, "a seek to a position that exists is rejected")


TGT = Sym("offset")
TGT.signed = True


def memory_jobs(prog, prop):
    b = Memory(prog)
    ln = App("len", BUF)
    jobs = []
    for side, mt in (("r", ("Read", "read")), ("w", ("Write", "write"))):
        end = add(POS, ln)
        n = [("into the buffer", [sub(end, MEM.args[3])]), ("beyond the buffer", [add(sub(MEM.args[3], end), C(1))])]
        if side == "r":
            n = [("possible", [sub(C(1), ln), sub(add(POS, C(1)), MEM.args[3])]), ("behind the end", [sub(MEM.args[3], POS)]), ("empty", [ln])]
        for name, given in n:
            def io(side=side, mt=mt, name=name, given=given):
                m = MemIO(b, side, prop, name)

                def init(st):
                    b.handle(side)(st)
                    m.begin(st)
                    st.ineq = tuple(given)
                return run(prog, f"memory {mt[1]} [{name}]", b.method(side, *mt), [b.R if side == "r" else b.W, Slice(BUF, ZERO, ln)], [m], MEMOPTS, init=init)
            jobs.append(io)
        for how in (0, 1, 2):
            def seek(side=side, how=how):
                m = MemSeek(b, side, prop, how)

                def init(st):
                    b.handle(side)(st)
                    m.begin(st)
                return run(prog, f"memory {'reader' if side == 'r' else 'writer'} seek {how}", b.method(side, "Seek", "seek"),
                           [b.R if side == "r" else b.W, Agg("std::io::SeekFrom", how, Sym("target") if how == 0 else TGT)], [m], MEMOPTS, init=init)
            jobs.append(seek)
    jobs.append(lambda: memory_init(prog, prop, b))
    return jobs


def memory_init(prog, prop, b):
    r = Result()

    def ob(key, ok, msg):
        r.obl[(prop, key)] = r.obl.get((prop, key), 0) + 1
        if not ok:
            r.violations.setdefault((prop, key), {"message": msg, "at": impl(prog, "StorageProvider", "into_reader_writer", b.provider), "path": []})
    for cl, want in ((NONE, ZERO), (Some(CLEN), CLEN)):
        good, bad = made(prog, b.provider, MEMOPTS, cl)
        ob("made", bool(good), "the storage is never made")
        for st, rd, wr in good:
            locks = [(k, unwrap_lock(v)) for k, v in st.store.items() if k[0] == "h" and unwrap_lock(v) is not None]
            shared = {k[1] for k in st.store if k[0] == "h"}
            mine = [{x for x in h.args[2:] if x in shared} for h in (rd, wr)]
            ob("shared", len(locks) == 1 and mine[0] == mine[1] and locks[0][0][1] in mine[0], "reader and writer do not share their buffer and counters")
            ob("start", fld(rd, b.pos["r"]) is ZERO and fld(wr, b.pos["w"]) is ZERO, "a position does not start at zero")
            ob("size", b.buf(locks[0][1]).args[3] is want, "the buffer is not as long as the content")
    return r


# ------------------------------------------------------------------------------------------------ temporary files
DIR, PREFIX, BUILDER = Sym("dir"), Sym("prefix"), Sym("builder")


class Files(Monitor):
    """the meaning of the tempfile and std::fs calls that matter: which file and which open description a handle refers to"""

    def fails(self, eng, st, ok, what):
        n = st.clone()
        e = App("err", mk("c", what))
        n.g["failed"] = e
        return eng.ret(n, Err(e)) + eng.ret(st, Ok(ok))

    def builder(self, eng, st, a):
        v = eng.deref(st, a)
        return v if is_agg(v, "tfbuilder") else None

    def call(self, eng, st, c):
        k = M.short(c.name)
        a = c.args
        n = M.norm(c.name)
        if k in ("Builder::new", "Builder::default") and "tempfile" in n:
            return eng.ret(st, Agg("tfbuilder", 0, NONE, mk("c", "plain")))
        if k.startswith("Builder::") and a and self.builder(eng, st, a[0]) is not None:
            b = self.builder(eng, st, a[0])
            mth = k.split("::")[1]
            if mth == "tempfile":
                return self.fails(eng, st, App("tmpfile", b, NONE), "create")
            if mth == "tempfile_in":
                return self.fails(eng, st, App("tmpfile", b, Some(eng.deref(st, a[1]))), "create")
            if a[0].op == "r":
                nb = set_field(b, (None, 0), Some(eng.deref(st, a[1]))) if mth == "prefix" else set_field(b, (None, 1), App(mth, b, eng.deref(st, a[1])))
                eng.set(st, a[0].args[0], a[0].args[1], nb)
                return eng.ret(st, a[0])
            return None
        if k.startswith("NamedTempFile::") and "tempfile" in n:
            mth = k.split("::")[1]
            d = lambda i: eng.deref(st, a[i])
            plain = mk("c", "plain")
            new = {"new": lambda: (NONE, NONE), "new_in": lambda: (NONE, Some(d(0))), "with_prefix": lambda: (Some(d(0)), NONE), "with_prefix_in": lambda: (Some(d(0)), Some(d(1)))}
            if mth in new:
                p, w = new[mth]()
                return self.fails(eng, st, App("tmpfile", Agg("tfbuilder", 0, p, plain), w), "create")
            if mth == "reopen":
                st.g["opens"] = add(st.g.get("opens", ZERO), C(1))
                return self.fails(eng, st, App("opened", d(0), st.g["opens"]), "open")
            if mth in ("as_file", "as_file_mut"):
                return eng.ret(st, a[0])
        if k == "File::try_clone":
            return self.fails(eng, st, App("clone", eng.deref(st, a[0])), "clone")
        if k in ("BufReader::new", "BufReader::with_capacity", "BufWriter::new"):
            return eng.ret(st, App("buffered", a[-1]))
        if c.f.get("tr") and c.f["m"] in ("call", "call_once", "call_mut") and inside(a[0] if a[0].op != "r" else eng.deref(st, a[0]), BUILDER):
            return self.fails(eng, st, App("made", BUILDER), "create")
        if c.f.get("tr") and c.f["m"] in ("into", "from", "as_ref") and len(a) == 1:
            return eng.ret(st, a[0])
        return None


def inside(t, x, n=0):
    if t is x:
        return True
    if n > 8:
        return False
    return any(isinstance(y, T) and inside(y, x, n + 1) for y in t.args)


def file_of(t):
    """the file a handle refers to"""
    while t.op == "f" and t.args[0] in ("buffered", "opened", "clone"):
        t = t.args[1]
    return t


def description(t):
    """the open file description (which has the position) a handle refers to"""
    while t.op == "f" and t.args[0] in ("buffered", "clone"):
        t = t.args[1]
    return t


def handle(t):
    """the handle inside of a reader or writer"""
    n = 0
    while t.op == "a" and len(t.args) == 3 and n < 6:
        t = t.args[2]
        n += 1
    return t


TCASES = [("default", "new", [], (NONE, NONE)), ("in a directory", "new_in", [DIR], (NONE, Some(DIR))), ("with a prefix", "with_prefix", [PREFIX], (Some(PREFIX), NONE)),
          ("with a prefix in a directory", "with_prefix_in", [PREFIX, DIR], (Some(PREFIX), Some(DIR))), ("with a builder", "with_tempfile_builder", [BUILDER], None)]


def temp_provider(prog, name, args):
    bid = inherent(prog, "TempStorageProvider", name)
    es = ends(prog, bid, args, mons=[Files()])
    if len(es) != 1:
        raise Missing(f"TempStorageProvider::{name} has {len(es)} outcomes")
    return es[0]


class TempMade(Rule):
    def __init__(self, prop, want):
        self.P, self.want = prop, want

    def end(self, eng, st, v):
        f = st.g.get("failed")
        if is_agg(v, RES, 1):
            e = v.args[2]
            kept = f is not None and (e is f or inside(e, f))
            self.ob(eng, st, None, "error", kept, "creating the storage fails although every step succeeded, or the error is replaced")
            return
        ok = is_agg(v, RES, 0) and is_agg(v.args[2], "()")
        self.ob(eng, st, None, "error-ignored", f is None, "a failed step of the creation is ignored")
        if not ok or f is not None:
            self.ob(eng, st, None, "result", ok, "the result of the creation is unknown")
            return
        r, w = handle(v.args[2].args[2]), handle(v.args[2].args[3])
        self.reader = v.args[2].args[2]
        fr, fw = file_of(r), file_of(w)
        self.ob(eng, st, None, "same-file", fr is fw and fr.op == "f" and fr.args[0] in ("tmpfile", "made"), "reader and writer do not refer to the same new file")
        self.ob(eng, st, None, "independent", description(r) is not description(w), "reader and writer share one file position")
        self.ob(eng, st, None, "kept-alive", description(r) is fr or description(w) is fr, "nothing keeps the temporary file alive")
        if self.want is None:
            self.ob(eng, st, None, "builder", fr is App("made", BUILDER), "the configured builder is not used")
        else:
            want = App("tmpfile", Agg("tfbuilder", 0, self.want[0], mk("c", "plain")), self.want[1])
            self.ob(eng, st, None, "configured", fr is want, "the file is not created with the configured prefix in the configured directory")


class Forward(Rule):
    """an operation is passed on to the inner object once, with its arguments, and its result returned"""

    def __init__(self, prop, key, inner, method, given, shown):
        self.P, self.key, self.inner, self.method, self.given, self.shown = prop, key, inner, method, given, shown

    def call(self, eng, st, c):
        tr = (c.f.get("tr") or "").split("::")[-1]
        if not c.args or c.args[0].op != "r":
            return None
        x = eng.deref(st, c.args[0])
        if x is not self.inner:
            return None
        if tr not in ("Read", "Write", "Seek", "BufRead"):
            if tr in ("Deref", "DerefMut", "AsMut", "AsRef", "BorrowMut"):
                return None
            if M.short(c.name) in ("BufReader::get_mut", "BufReader::get_ref"):
                self.ob(eng, st, None, self.key, False, f"{self.shown}: the read-ahead buffer is bypassed")
                return None
            if tr:
                return None
        st.mode["fw"] = st.mode.get("fw", 0) + 1
        m = c.f["m"] if tr else M.short(c.name)
        same = m == self.method and len(c.args) == len(self.given) + 1 and all(a is b or self.same(eng, st, a, b) for a, b in zip(c.args[1:], self.given))
        if self.method == "stream_position" and m == "seek":
            same = is_agg(c.args[1], "std::io::SeekFrom", 2) and c.args[1].args[2] is ZERO
        if not same:
            st.mode["fwbad"] = 1
        return eng.ret(st, Sym("result"))

    def same(self, eng, st, a, b):
        if a.op == "sl" and b.op == "sl":
            return a.args[0] is b.args[0] and eng.eq(st, a.args[1], b.args[1]) and eng.eq(st, a.args[2], b.args[2])
        return False

    def end(self, eng, st, v):
        res = Sym("result")
        same = v is res or any(is_agg(v, RES, i) and v.args[2] is get_field(res, (i, 0)) for i in (0, 1))
        self.ob(eng, st, None, self.key, st.mode.get("fw") == 1 and not st.mode.get("fwbad") and same,
                f"{self.shown} does not pass the operation on unchanged exactly once and return its result")


IO = {"Read": [("read", [Slice(BUF, ZERO, App("len", BUF))])], "Write": [("write", [Slice(BUF, ZERO, App("len", BUF))]), ("flush", [])], "Seek": [("seek", [Sym("whence")])]}


def methods(prog, ty):
    """the implemented methods of the I/O traits of a type: [(trait, method, body)]"""
    out = []
    for (t, mth), bs in prog.trait_impls.items():
        if t.split("::")[-1] in ("Read", "Write", "Seek", "BufRead"):
            for b in bs:
                x = prog.types[b.j["impl_self"]]
                if x.get("d", x["s"]).split("::")[-1] == ty:
                    out.append((t.split("::")[-1], mth, b.id))
    return out


def forwards(prog, prop, key, ty, outer, inner):
    """every I/O method of a wrapper type passes on to its inner object"""
    jobs = []
    if outer.op != "a":
        return jobs                      # the inner object itself
    for trait, mth, bid in methods(prog, ty):
        given = dict(IO.get(trait, [])).get(mth)
        n = prog.bodies[bid].argc - 1
        if given is None:
            given = [Sym(f"arg{i}") for i in range(n)]

        def job(bid=bid, mth=mth, given=given):
            f = Forward(prop, key, inner, mth, given, f"{ty}::{mth}")

            def init(st):
                st.store[("h", Sym("self_x"))] = outer
            return run(prog, f"{ty}::{mth}", bid, [Ref(("h", Sym("self_x")), ())] + given, [f], init=init)
        jobs.append(job)
    return jobs


def temp_jobs(prog, prop):
    jobs, readers = [], []
    for name, ctor, args, want in TCASES:
        st0, pv = temp_provider(prog, ctor, args)

        def job(name=name, st0=st0, pv=pv, want=want):
            def init(st):
                for k, x in st0.store.items():
                    if k[0] == "h":
                        st.store[k] = x
            return run(prog, "temporary file " + name, impl(prog, "StorageProvider", "into_reader_writer", "TempStorageProvider"), [pv, CLEN], [Files(), TempMade(prop, want)], init=init)
        jobs.append(job)
    st0, pv = temp_provider(prog, "new", [])
    m = TempMade(prop, (NONE, NONE))
    bid = impl(prog, "StorageProvider", "into_reader_writer", "TempStorageProvider")
    run(prog, "roles", bid, [pv, CLEN], [Files(), m])
    rd = getattr(m, "reader", None)
    if rd is None:
        raise Missing("temporary-file storage is never created")
    inner = handle(rd)
    ty = rd.args[0].split("::")[-1] if rd.op == "a" else ""
    buffered = inner.op == "f" and inner.args[0] == "buffered"
    # a buffered reader must answer everything but reads in a way that discards the read-ahead
    jobs += forwards(prog, prop, "forwarded", ty, rd, inner)
    if buffered:
        for trait, mth, bid in methods(prog, ty):
            if trait == "Seek" and mth != "seek":
                def bad(mth=mth, bid=bid):
                    class D(Discard):
                        pass
                    d = D(prop, inner, mth)

                    def init(st):
                        st.store[("h", Sym("self_x"))] = rd
                    n = prog.bodies[bid].argc - 1
                    return run(prog, f"{ty}::{mth}", bid, [Ref(("h", Sym("self_x")), ())] + [Sym(f"arg{i}") for i in range(n)], [d], init=init)
                jobs.append(bad)
    return jobs, buffered


class Discard(Rule):
    def __init__(self, prop, inner, mth):
        self.P, self.inner, self.mth = prop, inner, mth

    def call(self, eng, st, c):
        if c.args and c.args[0].op == "r" and eng.deref(st, c.args[0]) is self.inner:
            if c.f.get("m") == "seek":
                st.mode["disc"] = 1
            return eng.ret(st, Sym("result"))
        return None

    def end(self, eng, st, v):
        self.ob(eng, st, None, "read-ahead", st.mode.get("disc"), f"{self.mth} keeps bytes that were read ahead, which may be stale")


class Fresh(Rule):
    """each read of the stream makes the reader discard its read-ahead first"""
    P = "P20"

    def begin(self, eng, st, name):
        st.mode["told"] = 0

    def event(self, eng, st, ev):
        if getattr(ev, "obj", None) is not self.w.R:
            return
        if ev.kind in ("tell", "seek"):
            st.mode["told"] = 1
        elif ev.kind == "read":
            self.ob(eng, st, ev, "position-first", st.mode["told"] == 1, "the storage is read without seeking it or asking for its position first")


# ------------------------------------------------------------------------------------------------ adaptive
FIXED, VARIABLE, SIZE = Sym("fixed"), Sym("variable"), Sym("buffersize")


class Chosen(Rule):
    """which storage is made, and what the result holds"""

    def __init__(self, prop, case):
        self.P, self.case, self.found = prop, case, []

    def event(self, eng, st, ev):
        if ev.kind == "make_storage":
            st.mode["made"] = st.mode.get("made", 0) + 1
            want = FIXED if self.case in ("unknown", "small") else VARIABLE
            self.ob(eng, st, ev, "backend", ev.provider is want, f"the wrong storage is used for content of {self.case} length")
            size = App("nz", SIZE)
            if self.case == "unknown":
                ok = is_agg(ev.len, OPT, 1) and eng.eq(st, ev.len.args[2], size)
                self.ob(eng, st, ev, "bounded-size", ok, "the storage for unknown lengths is not made with the configured buffer size")
            else:
                ok = is_agg(ev.len, OPT, 1) and eng.eq(st, ev.len.args[2], CLEN)
                self.ob(eng, st, ev, "length", ok, "the content length is not passed on")
        elif ev.kind == "made_storage":
            st.g["reader"], st.g["writer"] = ev.reader, ev.writer

    def end(self, eng, st, v):
        self.ob(eng, st, None, "once", st.mode.get("made") == 1, "not exactly one storage is made")
        if not is_agg(v, RES, 0):
            e = v.args[2] if is_agg(v, RES, 1) else None
            self.ob(eng, st, None, "error", e is not None and "reader" not in st.g, "the creation fails although the storage was made")
            return
        p = v.args[2]
        ok = is_agg(p, "()") and "reader" in st.g
        self.ob(eng, st, None, "error-ignored", ok, "a failure to make the storage is ignored")
        if not ok:
            return
        r, w = p.args[2], p.args[3]
        self.found.append((r, w, r.args[2], w.args[2]))
        if self.case == "unknown":
            a, b = r.args[2], w.args[2]
            bounded = is_agg(a) and is_agg(b) and a.args[0].endswith("BoundedStorageReader") and b.args[0].endswith("BoundedStorageWriter")
            self.ob(eng, st, None, "bounded", bounded and inside(a, st.g["reader"]) and inside(b, st.g["writer"]), "content of unknown length is not stored in a bounded buffer")
            locks = [unwrap_lock(x) for k, x in st.store.items() if k[0] == "h" and unwrap_lock(x) is not None]
            self.ob(eng, st, None, "bounded-ring", len(locks) == 1 and is_agg(locks[0]) and any(eng.numeric(x) and eng.eq(st, x, App("nz", SIZE)) for x in locks[0].args[2:]),
                    "the bounded buffer does not have the configured size")
        else:
            self.ob(eng, st, None, "direct", r.args[2] is st.g["reader"] and w.args[2] is st.g["writer"], "the storage made for the content is not what is used")


def adaptive_jobs(prog, prop):
    ctor = inherent(prog, "AdaptiveStorageProvider", "with_fixed_and_variable")
    es = ends(prog, ctor, [FIXED, VARIABLE, SIZE])
    if len(es) != 1:
        raise Missing("AdaptiveStorageProvider::with_fixed_and_variable has no single result")
    pv = es[0][1]
    bid = impl(prog, "StorageProvider", "into_reader_writer", "AdaptiveStorageProvider")
    size = App("nz", SIZE)
    cases = [("unknown", NONE, []), ("small", Some(CLEN), [sub(CLEN, size)]), ("large", Some(CLEN), [add(sub(size, CLEN), C(1))])]
    jobs, found = [], []
    for name, cl, given in cases:
        def init(st, given=given):
            st.ineq = tuple(given)

        def job(name=name, cl=cl, init=init):
            return run(prog, f"adaptive storage for {name} length", bid, [pv, cl], [Chosen(prop, name)], init=init)
        jobs.append(job)
        m = Chosen(prop, name)
        run(prog, "roles", bid, [pv, cl], [m], init=init)
        found += m.found
    for i, mth in enumerate(("r", "w")):
        for o in {(x[i].args[0], x[i].args[1]) for x in found}:
            ty = o[0].split("::")[-1]
            inner = Sym(f"inner{o[1]}")
            jobs += forwards(prog, prop, "forwarded", ty, Agg(o[0], o[1], inner), inner)
    jobs.append(lambda: new_is_same(prog, prop, pv))
    jobs.append(lambda: reported_capacity(prog, prop, pv))
    return jobs


def new_is_same(prog, prop, pv):
    """the short constructor uses the one provider for both"""
    r = Result()
    es = ends(prog, inherent(prog, "AdaptiveStorageProvider", "new"), [FIXED, SIZE])
    r.obl[(prop, "new")] = 1
    want = [FIXED if x is VARIABLE else x for x in pv.args[2:]]
    if len(es) != 1 or [clone_of(x) for x in es[0][1].args[2:]] != want:
        r.violations[(prop, "new")] = {"message": "the storage given is not used for every length", "at": "AdaptiveStorageProvider::new", "path": []}
    return r


def clone_of(t):
    while t.op == "f" and t.args[0] in ("clone", "Clone.clone"):
        t = t.args[1]
    return t


def reported_capacity(prog, prop, pv):
    """storage that is bounded for some content has to say so"""
    r = Result()
    bid = maybe_impl(prog, "StorageProvider", "max_capacity", "AdaptiveStorageProvider")
    ok = False
    if bid is not None:
        es = ends(prog, bid, [Ref(("h", Sym("provref")), ())], init=lambda st: st.store.__setitem__(("h", Sym("provref")), pv))
        ok = bool(es) and all(is_agg(v, OPT, 1) for _, v in es)
    r.obl[(prop, "capacity")] = 1
    if not ok:
        r.violations[(prop, "capacity")] = {"message": "storage that is bounded for content of unknown length reports no capacity", "at": "AdaptiveStorageProvider::max_capacity", "path": []}
    return r
