"""Rules about the reader's side: reads, seeks, drop (P02, P10, P14, P15, P16)."""
from .engine import AnalysisError
from .terms import *
from .core import *
from . import models as M
from .prover import mkmin
from .rules_task import Rule, known_some, err_kind, kind_name, wake, reader_roots, same_token, root, variant_name


def seek_roots(w):
    """Seek::seek for every kind of target"""
    bid = impl(w.prog, "Seek", "seek", "StreamDownload")
    x = Sym("x")
    i = Sym("ix")
    i.signed = True
    return [("seek from the start", bid, [w.SELF, Agg("std::io::SeekFrom", 0, x)]),
            ("seek from the end", bid, [w.SELF, Agg("std::io::SeekFrom", 1, i)]),
            ("seek from the current position", bid, [w.SELF, Agg("std::io::SeekFrom", 2, i)])]


RPOS = Sym("rpos")
BUFLEN = App("len", App("*", Sym("buf")))


class Done:
    """what the reader knows about the end of the download: it stays done"""

    def done_known(self, eng, st):
        if st.mode.get("dn"):
            return True
        t = st.g.get("dn")
        if t is not None and eng.truth(st, t) is True:
            st.mode["dn"] = 1
            return True
        return False


class P02(Rule, Done):
    P = "P02"

    def begin(self, eng, st, name):
        self.root = name

    def behind(self, eng, st, p):
        """is nothing available at or behind p, as far as was seen after the end of the download?"""
        return "le" in st.g and (st.mode.get("ld") == 1 or "ldn" in st.g and eng.truth(st, st.g["ldn"]) is True) and eng.le(st, st.g["le"], p)

    def simplify(self, eng, st):
        # kept apart at joins: a gap that begins where the read begins, and one further on
        if self.root == "read" and st.mode.get("gp") == 1 and st.mode.get("bh") != 1:
            g = st.g.get("gap")
            if g is not None:
                st.mode["bh"] = 1 if eng.lt(st, RPOS, g) or eng.truth(st, eng.cmp("Eq", RPOS, g)) is False or self.behind(eng, st, RPOS) else 0

    def discr(self, eng, st, o, v):
        if o is st.g.get("dn") and v == 1:
            st.mode["dn"] = 1
        if o is st.g.get("gdn") and v == 1:
            st.mode["gd"] = 1
        if o is st.g.get("ldn") and v == 1:
            st.mode["ld"] = 1

    def locked(self, eng, st, lid, base):
        l, cv, d, _ = wake(self.w)
        if lid is not l:
            return
        known = self.done_known(eng, st)
        t = get_field(st.store[base], (None, d))
        if known:
            eng.set(st, base, ((None, d),), TRUE)
        else:
            st.g["dn"] = t

    def event(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "gap":
            st.mode["gp"] = 1
            st.mode["bh"] = 0
            st.g["gap"] = ev.start
            # only what was known about the end before the gap was looked for counts
            st.mode["gd"] = 1 if self.done_known(eng, st) else 0
            st.g.pop("gdn", None)
            if "dn" in st.g:
                st.g["gdn"] = st.g["dn"]
        elif k == "last":
            st.g["le"] = ev.end
            st.mode["ld"] = 1 if self.done_known(eng, st) else 0
            st.g.pop("ldn", None)
            if "dn" in st.g:
                st.g["ldn"] = st.g["dn"]
        elif k == "nogap":
            st.mode["gp"] = 0
            st.g.pop("gap", None)
        elif k == "unannounce":
            self.ob(eng, st, ev, f"withdrawn:{root(eng, ev)}", False, "ranges marked available are withdrawn")
        elif k == "read_all" and ev.obj is w.R:
            self.ob(eng, st, ev, "read-all", False, "everything in the storage is read, whatever is available")
        elif k == "read" and ev.obj is w.R:
            p, n = ev.pos, ev.buf.args[2]
            e = add(p, n)
            ok = M.covered(eng, st, p, e)
            if not ok and known_some(eng, st, w.CL):
                ok = M.covered(eng, st, p, mkmin(e, w.clv))
            self.ob(eng, st, ev, "available", ok, "the storage is read although a part of the range may not be available")
            if self.root == "read":
                full = eng.eq(st, n, BUFLEN)
                if not full:
                    gap = st.mode.get("gp") == 1 and "gap" in st.g and eng.eq(st, st.g["gap"], e)
                    ended = st.mode.get("gd") == 1 or "gdn" in st.g and eng.truth(st, st.g["gdn"]) is True
                    self.ob(eng, st, ev, "shortened", ended and gap,
                            "a read is shortened to something other than the part that is available at the end of the download")
                    self.ob(eng, st, ev, "end", eng.lt(st, ZERO, n) or eng.truth(st, eng.cmp("Eq", p, e)) is False or p is RPOS and st.mode.get("bh") == 1 or self.behind(eng, st, p), "a read reports the end of the stream although later positions may be available")


class P02T(Rule):
    """nothing ever becomes unavailable"""
    P = "P02"

    def event(self, eng, st, ev):
        if ev.kind == "unannounce":
            self.ob(eng, st, ev, f"withdrawn:{root(eng, ev)}", False, "ranges marked available are withdrawn")
        elif ev.kind == "announce":
            self.ob(eng, st, ev, "grows", True, "")


# ------------------------------------------------------------------------------------------------ P10
class P10(Rule):
    P = "P10"

    def __init__(self, w, explicit=False):
        super().__init__(w)
        self.explicit = explicit

    def event(self, eng, st, ev):
        if ev.kind == "cancel":
            t = ev.tok
            if same_token_any(self.w.T, t):
                st.mode["c"] = 1
                if not self.explicit:
                    s = get_field(self.w.settings, (None, self.w.setfields["cancel_on_drop"]))
                    self.ob(eng, st, ev, "unconfigured-cancel", eng.truth(st, s) is True,
                            "dropping the reader cancels the download although that may not be configured")

    def end(self, eng, st, v):
        from .engine import Ev
        ev = Ev("return", {}, 0, eng.rootname, "", None)
        c = st.mode.get("c", 0)
        if self.explicit:
            self.ob(eng, st, ev, "explicit", c == 1, "an explicit cancellation does not cancel the download")
        else:
            s = get_field(self.w.settings, (None, self.w.setfields["cancel_on_drop"]))
            self.ob(eng, st, ev, "configured-cancel", c == 1 or eng.truth(st, s) is False,
                    "dropping the reader does not cancel the download although that may be configured")


def same_token_any(F, tok):
    t = F
    while True:
        if t is tok:
            return True
        if t.op == "f" and t.args[0] == "child":
            t = t.args[1]
        else:
            return False


# ------------------------------------------------------------------------------------------------ P15, P16
def effect(w, ev):
    k = ev.kind
    if k in ("send", "astore", "aswap", "cvwait", "notify", "block"):
        return True
    if k in ("seek", "read", "read_all") and ev.obj is w.R:
        return True
    return False


class Capacity:
    def cap(self, eng, st):
        """(known Some / None / unknown, capacity)"""
        o = App("max_capacity", self.w.provider)
        return known_some(eng, st, o), get_field(o, (1, 0))


class P15(Rule, Capacity):
    P = "P15"

    def begin(self, eng, st, name):
        self.name = name
        st.mode["rej"] = 0
        st.mode["eff"] = 0

    def event(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if effect(w, ev):
            c, cap = self.cap(eng, st)
            if self.name == "read":
                ok = c is False or eng.le(st, BUFLEN, cap)
                self.ob(eng, st, ev, "read-effect", ok, "a read that may exceed the storage's capacity is not rejected before it has an effect")
            else:
                x = ev.pos if k == "seek" and ev.how == 0 else ev.val if k == "send" else None
                if x is not None:
                    ok = c is False or eng.le(st, x, add(RPOS, cap))
                    self.ob(eng, st, ev, "seek-effect", ok, "a seek that may land beyond the storage's capacity is not rejected before it has an effect")
                elif st.mode["eff"] == 0 and k == "seek":
                    self.ob(eng, st, ev, "seek-kind", ev.how == 0, "the reader is moved in a way that cannot be compared with the capacity")
            st.mode["eff"] = 1
        elif k == "mkerr" and kind_name(eng, ev.val) == "InvalidInput":
            self.ob(eng, st, ev, "rejected-late", st.mode["eff"] == 0, "a request is rejected after it already had an effect")
            c, cap = self.cap(eng, st)
            if self.name == "read":
                self.ob(eng, st, ev, "read-rejected", c is True and eng.lt(st, cap, BUFLEN) or eng.lt(st, C((1 << 64) - 1), BUFLEN), "a read within the storage's capacity may be rejected")
            elif self.target is not None:
                t = self.target(eng, st)
                ok = t is None or (c is True and eng.lt(st, add(RPOS, cap), t)) or overflow(eng, st, self.base)
                self.ob(eng, st, ev, "seek-rejected", ok, "a seek within the storage's capacity may be rejected")

    def end(self, eng, st, v):
        from .engine import Ev
        if self.name == "read" and is_agg(v, RES, 0):
            c, cap = self.cap(eng, st)
            self.ob(eng, st, Ev("return", {}, 0, eng.rootname, "", None), "read-accepted", c is False or eng.le(st, BUFLEN, cap),
                    "a read that may exceed the storage's capacity succeeds")


class SeekTarget:
    """the position a seek asks for"""

    def setup(self, name):
        self.name = name
        self.kind = {"seek from the start": 0, "seek from the end": 1, "seek from the current position": 2}.get(name)

    @property
    def base(self):
        w = self.w
        if self.kind == 0:
            return Sym("x")
        if self.kind is None:
            return None
        return add(w.clv if self.kind == 1 else RPOS, Sym("ix"))

    def target(self, eng, st):
        w = self.w
        s = known_some(eng, st, w.CL)
        if self.kind == 1 and s is not True:
            return None
        if s is True:
            return mkmin(self.base, w.clv)
        if s is False:
            return self.base
        return None


def overflow(eng, st, base):
    """is the position known not to be representable?"""
    if eng.lt(st, base, ZERO) or eng.lt(st, C((1 << 64) - 1), base):
        return True
    for t, v in st.facts.items():
        if v and t.op == "f" and t.args[0] == "ovf" and eng.eq(st, add(t.args[1], t.args[2]), base):
            return True
    return False


class P15S(SeekTarget, P15):
    def begin(self, eng, st, name):
        P15.begin(self, eng, st, name)
        self.setup(name)


class P16(SeekTarget, Rule, Capacity):
    P = "P16"

    def begin(self, eng, st, name):
        self.setup(name)
        st.mode["rej"] = 0
        st.mode["moved"] = 0

    def event(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "mkerr" and kind_name(eng, ev.val) in ("InvalidInput", "Unsupported"):
            self.ob(eng, st, ev, "rejected-late", st.mode["moved"] == 0, "a seek is rejected after it already had an effect")
            st.mode["rej"] = 1
            if kind_name(eng, ev.val) == "Unsupported":
                self.ob(eng, st, ev, "unsupported", self.kind == 1 and known_some(eng, st, w.CL) is False,
                        "a seek that can be carried out is reported as unsupported")
        elif effect(w, ev):
            st.mode["moved"] = 1
            self.ob(eng, st, ev, "after-rejection", st.mode["rej"] == 0, "a rejected seek has an effect")
            if k == "seek":
                t = self.target(eng, st)
                self.ob(eng, st, ev, "moved-to", t is not None and ev.how == 0 and eng.eq(st, ev.pos, t),
                        "the reader is moved to a position other than the requested one")
            elif k == "send":
                t = self.target(eng, st)
                self.ob(eng, st, ev, "asked-for", t is not None and eng.eq(st, ev.val, t), "the download is asked for a position other than the requested one")
        if k == "sought" and ev.obj is w.R:
            st.mode["at"] = 1

    def end(self, eng, st, v):
        from .engine import Ev
        ev = Ev("return", {}, 0, eng.rootname, "", None)
        if is_agg(v, RES, 1):
            return
        t = self.target(eng, st)
        self.ob(eng, st, ev, "returned", is_agg(v, RES, 0) and t is not None and eng.eq(st, v.args[2], t), "a seek returns a position other than the requested one")
        self.ob(eng, st, ev, "positioned", t is not None and eng.eq(st, M.gpos(eng, st, self.w.R), t) and st.mode["rej"] == 0, "after a successful seek the reader is not at the requested position")
        if t is not None:
            self.ob(eng, st, ev, "representable", eng.le(st, ZERO, t), "a seek to a negative position succeeds")
