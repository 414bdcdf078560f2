"""More rules about the download task: wake-up protocol, prefetch, reports, batching, locks, panics."""
from .engine import AnalysisError, Ev, Infeasible
from .terms import *
from .core import *
from .mon import Monitor
from . import models as M
from .rules_task import Creation, Rule, task, pos_of, known_some, root, wake, wake_store, reader_roots, phase_of, state_arg, variant_name, same_token, kind_name


def setting(w, name):
    return get_field(w.settings, (None, w.setfields[name]))


# ------------------------------------------------------------------------------------------------ roles of the wake-up protocol
class RoleFinder(Monitor):
    def __init__(self):
        self.req, self.flag, self.notify = set(), set(), set()

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "astore" and eng.numeric(ev.val) and eng.truth(st, ev.val) is None:
            st.g["_req"] = ev.obj
        elif k == "cvwait":
            if "_req" in st.g:
                self.req.add(st.g["_req"])
        elif k in ("aload", "aswap") and (ev.val if k == "aload" else ev.old) is TRUE:
            st.g["_flag"] = ev.obj
        elif k == "notify":
            self.notify.add(ev.obj)
            if "_flag" in st.g:
                self.flag.add(st.g["_flag"])


def roles(w):
    """(requested position, writer-waits flag, notification) of the reader-to-writer wake-up"""
    if not hasattr(w, "_roles2"):
        m = RoleFinder()
        for name, bid, args in reader_roots(w):
            w.run(bid, args, [m], "reader")
        for n, x in (("announced positions", m.req), ("notifications", m.notify), ("flags", m.flag)):
            if len(x) != 1:
                raise Missing(f"the reader uses {len(x)} {n}")
        w._roles2 = (next(iter(m.req)), next(iter(m.flag)), next(iter(m.notify)))
    return w._roles2


# ------------------------------------------------------------------------------------------------ prefetch phases
class Phases(Creation):
    """ghost: whether a prefetch phase is active (pf=1), where it started, and what the last write did.
    pf=2: the stream ended during the phase and its data was not announced yet"""

    def init(self, eng, st):
        st.mode["pf"] = 1
        st.mode["rcv"] = 0
        st.mode["ck"] = ""
        st.mode["anp"] = 0
        st.g["pfs"] = ZERO
        st.g["pfb"] = ZERO
        st.g["left"] = ZERO      # bytes that were received and not written

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "taskstart":
            z = eng.truth(st, eng.cmp("Eq", setting(w, "prefetch_bytes"), ZERO))
            st.mode["pf"] = 0 if z is True else 1
        self.before(eng, st, ev)
        if k == "received" and is_agg(ev.val, OPT, 1):
            st.mode["rcv"] = 1
            st.mode["ck"] = ""
            st.mode["anp"] = 0
            st.g["rp"] = ev.val.args[2]
        elif k == "chunk":
            st.mode["rcv"] = 0
            st.mode["ck"] = ev.what
            st.mode["anp"] = 0
            if ev.what == "ok" and "left" in st.g:
                st.g["left"] = add(st.g["left"], App("len", ev.val) if ev.val.op != "sl" else ev.val.args[2])
            if ev.what == "end" and st.mode["pf"] == 1:
                st.mode["pf"] = 2
        elif k == "elapsed":
            st.mode["ck"] = ""
        elif k == "wrote" and ev.obj is w.W:
            if "left" in st.g:
                l = sub(st.g["left"], ev.n)
                if eng.le(st, ZERO, l):
                    st.g["left"] = l
                else:
                    del st.g["left"]
        elif k == "seek_range_res" and ev.ok:
            st.g["left"] = ZERO
        elif k == "announce":
            st.mode["anp"] = 1
            if st.mode["pf"] and not st.mode["rcv"]:
                st.mode["pf"] = 0
        elif k == "seek_range":
            if st.mode["rcv"]:
                if st.mode["pf"]:
                    st.mode["pf"] = 0
                else:
                    st.mode["pf"] = 1
                    st.g["pfs"] = st.g["rp"]
                    st.g["pfb"] = ev.args[0]
            else:
                st.mode["pf"] = 0
        elif k == "next":
            if st.mode["pf"] == 1 and st.mode["ck"] == "ok" and not self.running(eng, st) and self.nothing(eng, st):
                st.mode["pf"] = 0
            st.mode["rcv"] = 0
            st.mode["ck"] = ""
            st.mode["anp"] = 0
            for x in ("rp",):
                st.g.pop(x, None)
        elif k == "on_finish":
            st.mode["pf"] = 0
        self.after(eng, st, ev)

    def partial(self, eng, st):
        """was a part of the last chunk not written?"""
        return "left" in st.g and eng.lt(st, ZERO, st.g["left"])

    def whole(self, eng, st):
        return "left" in st.g and eng.le(st, st.g["left"], ZERO)

    def running(self, eng, st):
        """is the target not reached, and was the last chunk written completely?"""
        return eng.lt(st, pos_of(eng, st, self.w.W), add(st.g["pfb"], setting(self.w, "prefetch_bytes"))) and self.whole(eng, st)

    def nothing(self, eng, st):
        return eng.le(st, pos_of(eng, st, self.w.W), st.g["pfb"])

    def before(self, eng, st, ev):
        pass

    def after(self, eng, st, ev):
        pass


class P38(Phases):
    P = "P38"

    def store(self, eng, st, base, proj, v, line, bid):
        if task(st):
            f = wake_store(self.w, base, proj)
            if f in (wake(self.w)[2], "all"):
                st.mode["dnn"] = 1

    def before(self, eng, st, ev):
        w = self.w
        k = ev.kind
        pf = st.mode["pf"]
        pos = pos_of(eng, st, w.W)
        pb = setting(w, "prefetch_bytes")
        if k == "announce" and pf:
            ok = pf == 2 or st.mode["rcv"] or eng.le(st, add(st.g["pfs"], pb), pos) or self.partial(eng, st)
            self.ob(eng, st, ev, "early", ok, "data of a prefetch phase is made available before the phase is over")
            self.ob(eng, st, ev, "whole", eng.le(st, ev.start, st.g["pfb"]) and eng.eq(st, ev.end, pos),
                    "something other than the whole data of the prefetch phase is made available at its end")
        elif k == "cvnotify" and ev.cv is wake(w)[1]:
            self.ob(eng, st, ev, "woken", pf != 1 or st.mode.get("dnn") == 1, "readers are woken during a prefetch phase")
        elif k == "seek_range" and pf and (st.mode["rcv"] or pf == 2):
            self.ob(eng, st, ev, "kept-back", st.mode["anp"] == 1 or self.nothing(eng, st),
                    "a prefetch phase ends without making its data available")
        elif k == "next" and pf == 1 and st.mode["ck"] == "ok":
            self.ob(eng, st, ev, "overdue", self.running(eng, st) or self.nothing(eng, st),
                    "the prefetch target may be reached, or the storage full, and the data of the phase was not made available")
        elif k == "on_finish" and is_agg(ev.args[0], RES, 0):
            self.ob(eng, st, ev, "finish", pf == 0 or eng.le(st, pos, st.g["pfb"]), "the download completes during a prefetch phase without making its data available")


# ------------------------------------------------------------------------------------------------ P37
class P37(Phases):
    P = "P37"
    given = ("on_progress",)     # without a callback there is nothing to report

    def init(self, eng, st):
        Phases.init(self, eng, st)
        st.mode["rep"] = 0
        st.mode["due"] = 0
        st.mode["cpf"] = 0
        st.mode["fin"] = 0
        st.mode["bad"] = 0

    def is_progress(self, eng, ev):
        return setting(self.w, "on_progress") in subterms(ev.f)

    def before(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "chunk":
            st.mode["due"] = {"ok": 1, "end": 2}.get(ev.what, 0)
            st.mode["rep"] = 0
            st.mode["cpf"] = 1 if st.mode["pf"] else 0
            st.g["rp0"] = pos_of(eng, st, w.W)
        elif k in ("received", "elapsed"):
            st.mode["due"] = 0
            st.mode["rep"] = 0
        elif k == "callback" and self.is_progress(eng, ev):
            s = state_arg(eng, ev)
            if s is None:
                self.ob(eng, st, ev, "report", False, "a progress report without a stream state")
                return
            f = lambda n: s.args[2 + eng.prog.field_index(s.args[0], n)]
            pos = pos_of(eng, st, w.W)
            ph = f("phase")
            name = phase_of(eng, ev)
            self.ob(eng, st, ev, "position", eng.eq(st, f("current_position"), pos), "a progress report has a position other than the writer's")
            toks = [eng.deref(st, a) for a in ev.args]
            self.ob(eng, st, ev, "token", any(t is w.T for t in toks), "a progress report does not carry the cancellation token of the download")
            self.ob(eng, st, ev, "stream", any(t is w.X for t in toks), "a progress report does not carry the source")
            if name == "Complete":
                self.ob(eng, st, ev, "complete", st.mode["due"] == 2 and st.mode["rep"] == 0, "completion is reported at another time than the end of the stream")
                st.mode["rep"] = 1
                return
            self.ob(eng, st, ev, "chunk-report", st.mode["due"] in (1, 2) and st.mode["rep"] == 0, "progress is reported twice for a chunk, or without one")
            st.mode["rep"] = 1
            size = sub(pos, st.g["rp0"]) if "rp0" in st.g else None
            if name == "Prefetching":
                i = self.vfield(eng, ph, "target")
                j = self.vfield(eng, ph, "chunk_size")
                self.ob(eng, st, ev, "phase", st.mode["cpf"] == 1, "prefetching is reported although the chunk arrived outside a prefetch phase")
                self.ob(eng, st, ev, "target", eng.eq(st, ph.args[2 + i], setting(w, "prefetch_bytes")), "the reported prefetch target is not the configured one")
                self.ob(eng, st, ev, "size", size is not None and eng.eq(st, ph.args[2 + j], size), "the reported chunk size is not the number of bytes that were written")
            elif name == "Downloading":
                j = self.vfield(eng, ph, "chunk_size")
                self.ob(eng, st, ev, "phase", st.mode["cpf"] == 0, "downloading is reported although the chunk arrived in a prefetch phase")
                self.ob(eng, st, ev, "size", size is not None and eng.eq(st, ph.args[2 + j], size), "the reported chunk size is not the number of bytes that were written")
            else:
                self.ob(eng, st, ev, "phase", False, "the reported phase is not known")
        elif k in ("next", "on_finish"):
            if k == "on_finish" and not is_agg(ev.args[0], RES, 0):
                return
            if st.mode["due"] == 1:
                self.ob(eng, st, ev, "unreported", st.mode["rep"] == 1, "a chunk was written and not reported")
            st.mode["due"] = 0
            st.mode["rep"] = 0
            st.g.pop("rp0", None)

    def vfield(self, eng, t, name):
        a = eng.prog.adts[t.args[0]]
        return a["v"][t.args[1]]["f"].index(name)


# ------------------------------------------------------------------------------------------------ P34
class P34(Creation):
    P = "P34"

    def init(self, eng, st):
        st.mode["y"] = 1

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "write" and ev.obj is w.W:
            self.ob(eng, st, ev, f"batch:{root(eng, ev)}", eng.le(st, ev.buf.args[2], setting(w, "batch_write_size")),
                    "a single write to the storage may be longer than the configured batch size")
            ok = st.mode["y"] == 1 or "wn" in st.g and eng.le(st, st.g["wn"], ZERO)
            self.ob(eng, st, ev, f"yield:{root(eng, ev)}", ok, "the task may write again without having yielded to the runtime since it last stored data")
        elif k == "wrote" and ev.obj is w.W:
            st.mode["y"] = 0
            st.g["wn"] = ev.n
        elif k == "yield":
            st.mode["y"] = 1
            st.g.pop("wn", None)


# ------------------------------------------------------------------------------------------------ P14
class P14(Phases):
    """the writer's side"""
    P = "P14"

    def init(self, eng, st):
        Phases.init(self, eng, st)
        st.mode["rq"] = 0        # 1: room was requested, 2: and a write was tried since
        st.mode["prog"] = 0
        st.mode["cl"] = 0
        st.mode["wf"] = 0
        st.mode["woke"] = 0
        st.mode["dnn"] = 0
        st.mode["late"] = 1

    def store(self, eng, st, base, proj, v, line, bid):
        if not task(st):
            return
        f = wake_store(self.w, base, proj)
        if f is None:
            return
        lid, cv, d, others = wake(self.w)
        if f in (d, "all"):
            st.mode["dnn"] = 1
        if f in others or f == "all":
            x = v if f != "all" else get_field(v, (None, others[0]))
            if eng.truth(st, x) is True:
                ln, fn, file = eng.where(st)
                self.ob(eng, st, Ev("store", {}, ln, fn, file, None), "withdraw-first", st.mode["cl"] == 1,
                        "readers are told that the position was reached before the announcement was withdrawn")
                st.mode["wf"] = 1

    def before(self, eng, st, ev):
        w = self.w
        k = ev.kind
        req, flag, notify = roles(w)
        if k in ("astore", "aswap") and ev.obj is flag:
            st.mode["rq"] = 1 if eng.truth(st, ev.val) is True else 0
        elif k == "write" and ev.obj is w.W and st.mode["rq"] == 1:
            st.mode["rq"] = 2
        elif k == "notified_req" and ev.obj is notify:
            self.ob(eng, st, ev, "room-requested", st.mode["rq"] == 2, "the writer waits for room that it did not ask for before it tried to write")
            self.checked(eng, st, ev)
        elif k == "notified" and ev.obj is notify:
            st.mode["rq"] = 0
        elif k == "wrote" and ev.obj is w.W:
            if not st.mode["pf"]:
                st.mode["prog"] = 1
        elif k == "aload" and ev.obj is req:
            st.mode["prog"] = 0
            st.mode["cl"] = st.mode["wf"] = st.mode["woke"] = 0
            st.g["rq"] = ev.val
        elif k == "astore" and ev.obj is req:
            st.mode["cl"] = 1
            self.ob(eng, st, ev, "withdrawn", ev.val.closed and not eng.le(st, ZERO, ev.val), "the writer changes the announced position to another position")
            self.ob(eng, st, ev, "reached", "rq" in st.g and eng.le(st, st.g["rq"], pos_of(eng, st, w.W)), "an announcement is withdrawn although its position may not be reached")
        elif k == "cvnotify" and ev.cv is wake(w)[1]:
            if not st.mode["dnn"]:
                self.ob(eng, st, ev, "wake-flag", st.mode["wf"] == 1, "readers are woken without having been told that the position was reached")
            if st.mode["wf"] == 1:
                st.mode["woke"] = 1
        elif k == "next":
            self.checked(eng, st, ev)

    def split(self, eng, st, obj, v):
        """after the announced position was looked at: is there none, is it ahead, or is it reached?"""
        if obj is not roles(self.w)[0] or not task(st):
            return [st]
        pos = pos_of(eng, st, self.w.W)
        out = []
        for late, conds in ((1, [sub(add(v, C(1)), ZERO)]), (1, [scale(v, -1), sub(add(pos, C(1)), v)]), (0, [scale(v, -1), sub(v, pos)])):
            n = st.clone()
            n.mode["late"] = late
            try:
                for x in conds:
                    eng.add_ineq(n, x)
            except Infeasible:
                continue
            out.append(n)
        return out

    def checked(self, eng, st, ev):
        self.ob(eng, st, ev, "announced-position", st.mode["prog"] == 0, "the writer goes on after a write without having checked the announced position")
        self.ob(eng, st, ev, "wake", st.mode["late"] == 1 or st.mode["woke"] == 1, "an announced position may be reached and its reader is not woken")
        st.g.pop("rq", None)
        st.mode["cl"] = st.mode["wf"] = st.mode["woke"] = 0
        st.mode["late"] = 1


class P14R(Rule):
    """the reader's side"""
    P = "P14"

    def begin(self, eng, st, name):
        self.name = name
        for k in ("ann", "sent", "flag", "wk", "owe", "rd", "lost"):
            st.mode[k] = 0

    def event(self, eng, st, ev):
        w = self.w
        k = ev.kind
        req, flag, notify = roles(w)
        lid, cv, d, others = wake(w)
        m = st.mode
        if k == "astore" and ev.obj is req:
            if m["ann"]:
                m["sent"] = 0        # a new round (the last wait returned at once)
                st.g.pop("sn", None)
            m["ann"] = 1
            m["flag"] = m["lost"] = 0
            st.g["an"] = ev.val
        elif k == "send":
            if m["sent"]:
                m["ann"] = 0
                st.g.pop("an", None)
            m["sent"] = 1
            st.g["sn"] = ev.val
        elif k in ("aload", "aswap") and ev.obj is flag:
            old = ev.val if k == "aload" else ev.old
            t = eng.truth(st, old)
            if k == "aswap" and t is not False:
                m["owe"] = 1
            if t is False:
                m["flag"] = 1
                m["rd"] = 0
        elif k == "notify" and ev.obj is notify:
            self.ob(eng, st, ev, "remembered", ev.how == "notify_one", "the writer is woken in a way that is lost if it does not wait yet")
            m["flag"] = 1
            m["rd"] = 0
            m["owe"] = 0
        elif k == "cvwait" and ev.lock is lid:
            if not m["wk"]:
                self.ob(eng, st, ev, "announce-first", m["ann"] == 1, "a reader waits without having announced the position it needs")
                self.ob(eng, st, ev, "kept", not m["lost"], "a wake-up that came after the reader announced its position is discarded before the reader waits")
                self.ob(eng, st, ev, "wake-writer", m["flag"] == 1 and m["owe"] == 0, "a reader waits without having woken a writer that may wait for room (after announcing its position)")
                if self.name == "seek" or m["sent"]:
                    self.ob(eng, st, ev, "request-first", m["sent"] == 1, "a seek waits without having been requested from the download")
                if m["sent"] and m["ann"]:
                    self.ob(eng, st, ev, "same-position", eng.eq(st, st.g["an"], st.g["sn"]), "the announced position differs from the requested one")
                elif m["ann"] and self.name == "read":
                    n = add(Sym("rpos"), App("len", App("*", Sym("buf"))))
                    c = known_some(eng, st, w.CL)
                    ok = eng.le(st, st.g["an"], n) and (c is False or eng.le(st, st.g["an"], w.clv) or eng.le(st, st.g["an"], Sym("rpos")))
                    self.ob(eng, st, ev, "needed", ok, "a read announces a position beyond what it needs")
        elif k == "cvwoken":
            m["wk"] = 1
        elif k == "unlock" and ev.lock is lid and m["wk"]:
            c = eng.load(st, ("h", App("in", lid)), ())
            self.ob(eng, st, ev, "taken", eng.truth(st, get_field(c, (None, d))) is True or all(eng.truth(st, get_field(c, (None, f))) is False for f in others),
                    "a reader that was woken leaves the wake-up behind, so its next wait ends although its position was not reached")
            m["wk"] = m["ann"] = m["sent"] = m["flag"] = 0
            st.g.pop("an", None)
            st.g.pop("sn", None)
        elif k == "did_read" and ev.obj is w.R:
            m["rd"] = 1

    def store(self, eng, st, base, proj, v, line, bid):
        f = wake_store(self.w, base, proj)
        if f is None:
            return
        lid, cv, d, others = wake(self.w)
        if f == "all":
            lost = any(eng.truth(st, get_field(v, (None, x))) is not True for x in others)
        else:
            lost = f in others and eng.truth(st, v) is not True
        if lost and not st.mode["wk"] and st.mode["ann"]:
            st.mode["lost"] = 1

    def end(self, eng, st, v):
        ev = Ev("return", {}, 0, eng.rootname, "", None)
        self.ob(eng, st, ev, "read-wakes", st.mode["rd"] == 0, "the storage was read and a writer that waits for room is not woken")
        self.ob(eng, st, ev, "owed", st.mode["owe"] == 0, "a writer's request for room is taken back without waking it")


# ------------------------------------------------------------------------------------------------ panics
def own(eng, st):
    """the innermost function of the library on the stack"""
    for x in reversed(st.stack):
        if x[0] == "f" and x[2] in eng.prog.bodies:
            return eng.prog.root_of(x[2]) or x[2]
    return "?"


class P41(Creation):
    P = "P41"
    opts = {"subs": True}

    def step(self, eng, st, ev):
        k = ev.kind
        if k == "panic":
            if "select!" in ev.mac:
                # written in the macro itself (an index modulo the number of branches; "all branches are disabled", which
                # needs every branch to be conditional).  Panics in the branches carry no mark of the macro
                return
            self.ob(eng, st, ev, f"panic:{own(eng, st)}", False, f"the download task can panic ({ev.callee.split('::')[-1]} {ev.mac})")
        elif k == "slice":
            self.ob(eng, st, ev, f"slice:{own(eng, st)}", ev.ok, "a slice of the download task may be out of range")
        elif k == "bounds":
            self.ob(eng, st, ev, f"index:{own(eng, st)}", ev.ok, "an index of the download task may be out of range")
        elif k == "sub":
            self.ob(eng, st, ev, f"subtraction:{own(eng, st)}", ev.ok, "a subtraction of the download task may fall below zero")
        elif k == "copy":
            self.ob(eng, st, ev, f"copy:{own(eng, st)}", ev.ok, "the download task copies between slices of possibly different length")
        elif k == "announce":
            self.ob(eng, st, ev, f"empty-range:{own(eng, st)}", eng.lt(st, ev.start, ev.end), "an empty range is inserted into the set of available ranges, which panics")
