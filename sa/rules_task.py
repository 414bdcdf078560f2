"""Rules about the download task and the reader (properties P01-P16, P34-P38, P41)."""
from .engine import Engine, S, AnalysisError, Infeasible
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .prover import mkmin


def task(st):
    return st.mode.get("role") == "task"


def pos_of(eng, st, o):
    return M.gpos(eng, st, o)


def known_some(eng, st, t):
    """is the Option term t known to be Some (True) / None (False)?"""
    if t.op == "a":
        return t.args[1] == 1
    d = eng.discr_of(st, t)
    if d is not None:
        return d == 1
    x = App("discr", t)
    if st.facts.get(App("isnt", x, C(1))):
        return False
    if st.facts.get(App("isnt", x, C(0))):
        return True
    return None


def kind_name(eng, t):
    """the name of an io::ErrorKind value"""
    if t.op == "a":
        a = eng.prog.adts.get(t.args[0])
        if a and a["k"] == "enum":
            return a["v"][t.args[1]]["n"]
    if t.op == "s":
        return t.args[0].split(":")[-1]
    return None


def err_kind(eng, e):
    """the error kind of an io::Error term, if it was built in the analysed code"""
    if e.op == "f" and e.args[0] == "ioerr":
        return kind_name(eng, e.args[1])
    return None


class Rule(Monitor):
    """a monitor bound to one property"""
    P = None

    def __init__(self, w):
        self.w = w

    def ob(self, eng, st, ev, key, ok, msg):
        return eng.oblige(self.P, key, bool(ok), ev, msg, st)

    def fl(self, eng, key, ok, msg):
        """a global obligation, not tied to a state"""
        return eng.oblige(self.P, key, bool(ok), None, msg, None)


class Creation(Rule):
    """the initial ghost state when the storage is made"""

    def event(self, eng, st, ev):
        if ev.kind == "made_storage":
            self.init(eng, st)
        if task(st) or ev.kind in ("taskstart",):
            self.step(eng, st, ev)

    def init(self, eng, st):
        pass

    def step(self, eng, st, ev):
        pass


# ------------------------------------------------------------------------------------------------ P01
class P01(Creation):
    P = "P01"

    def init(self, eng, st):
        st.g["base"] = ZERO
        st.g["flushed"] = ZERO

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "sought" and ev.obj is w.W:
            st.g["base"] = ev.pos
            st.g["flushed"] = ev.pos
        elif k == "flush" and ev.obj is w.W:
            st.g["flushed"] = pos_of(eng, st, w.W)
        elif k == "announce":
            s, e, base, fl = ev.start, ev.end, st.g["base"], st.g["flushed"]
            self.ob(eng, st, ev, f"flushed:{root(eng, ev)}", eng.le(st, e, fl),
                    "a range is marked available although its end is not known to be written and flushed")
            ok = eng.le(st, base, s) or M.covered(eng, st, s, base)
            self.ob(eng, st, ev, f"base:{root(eng, ev)}", ok,
                    "a range is marked available that begins before the position of the last jump and was not available before")


def root(eng, ev):
    return eng.prog.root_of(ev.fn) or ev.fn


# ------------------------------------------------------------------------------------------------ pending bytes
class Pending(Creation):
    """ghosts: how many bytes were received in total (recv, kept by the model of the transport, whose chunks are parts of
    one symbolic sequence), and up to where that sequence was written or is no longer wanted (next)"""
    opts = {"stream": True}

    def init(self, eng, st):
        st.g["recv"] = ZERO
        st.g["nextb"] = ZERO

    def pending(self, st):
        return sub(st.g["recv"], st.g["nextb"])

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "write" and ev.obj is w.W:
            b, off, ln = ev.buf.args
            ok = eng.le(st, ln, ZERO) or b is M.RECEIVED and eng.eq(st, off, st.g["nextb"]) and eng.le(st, add(off, ln), st.g["recv"])
            self.on_write(eng, st, ev, ok)
        elif k == "wrote" and ev.obj is w.W:
            st.g["nextb"] = add(st.g["nextb"], ev.n)
        elif k == "seek_range_res" and ev.ok:
            st.g["nextb"] = st.g["recv"]
        self.also(eng, st, ev)

    def on_write(self, eng, st, ev, ok):
        pass

    def also(self, eng, st, ev):
        pass


class P04(Pending):
    P = "P04"

    def on_write(self, eng, st, ev, ok):
        self.ob(eng, st, ev, f"write-order:{root(eng, ev)}", ok,
                "bytes are handed to the storage that are not the next received ones")

    def also(self, eng, st, ev):
        if ev.kind == "on_finish" and is_agg(ev.args[0], RES, 0):
            self.ob(eng, st, ev, "finish-unwritten", eng.le(st, self.pending(st), ZERO),
                    "the download finishes successfully while received bytes are unwritten")


# ------------------------------------------------------------------------------------------------ P03
class P03(Pending):
    P = "P03"

    def init(self, eng, st):
        Pending.init(self, eng, st)
        st.mode["jump"] = "no"

    def also(self, eng, st, ev):
        w = self.w
        k = ev.kind
        j = st.mode["jump"]
        if k == "seek_range":
            st.mode["jump"] = "asked"
            st.g["target"] = ev.args[0]
        elif k == "seek_range_res":
            st.mode["jump"] = "move" if ev.ok else "lost"
        elif k == "abandon" and j == "asked":
            st.mode["jump"] = "lost"
        elif k == "write" and ev.obj is w.W:
            self.ob(eng, st, ev, f"write-before-move:{root(eng, ev)}", j in ("no",) or eng.le(st, ev.buf.args[2], ZERO),
                    "bytes are written although the transport was moved and the storage was not" if j == "move" else
                    "bytes are written although it is unknown where the transport is")
        elif k == "seek" and ev.obj is w.W:
            ok = j == "move" and ev.how == 0 and eng.eq(st, ev.pos, st.g["target"])
            self.ob(eng, st, ev, f"move:{root(eng, ev)}", ok,
                    "the writer is moved to a position other than the one the transport was moved to" if j == "move" else
                    "the writer is moved without the transport having been moved")
        elif k == "sought" and ev.obj is w.W:
            st.mode["jump"] = "no"
            st.g.pop("target", None)
        elif k == "io_err" and ev.obj is w.W and ev.op == "seek":
            st.mode["jump"] = "lost"
        elif k == "on_finish" and is_agg(ev.args[0], RES, 0):
            self.ob(eng, st, ev, "finish-unmoved", j == "no", "the download finishes although the storage did not follow the transport")
        elif k == "next":
            self.ob(eng, st, ev, "next-unmoved", j == "no", "the next chunk is awaited although the storage did not follow the transport")
        elif k == "reconnect":
            want = add(pos_of(eng, st, w.W), self.pending(st))
            self.ob(eng, st, ev, f"reconnect-position:{root(eng, ev)}", eng.eq(st, ev.args[0], want),
                    "reconnect does not ask for the first position that was neither written nor held back")


# ------------------------------------------------------------------------------------------------ P05
def assume_request(eng, st, w, ev):
    """requested positions never exceed a known content length (checked where they are sent)"""
    if ev.kind == "received" and is_agg(ev.val, OPT, 1):
        if known_some(eng, st, w.CL) is not False:
            eng.add_ineq(st, sub(ev.val.args[2], w.clv))


class P05(Creation):
    P = "P05"

    def step(self, eng, st, ev):
        w = self.w
        assume_request(eng, st, w, ev)
        if ev.kind == "seek_range":
            start, end = ev.args[0], ev.args[1]
            sup = eng.truth(st, App("supports_seek", w.X))
            self.ob(eng, st, ev, f"unsupported:{root(eng, ev)}", sup is True, "the transport is asked to seek although the source may not support it")
            cl = known_some(eng, st, w.CL)
            some = known_some(eng, st, end)
            e = get_field(end, (1, 0)) if some else None
            self.ob(eng, st, ev, f"bounded:{root(eng, ev)}", some is True or cl is False,
                    "an unbounded range is requested although the content length is (or may be) known")
            if some:
                self.ob(eng, st, ev, f"order:{root(eng, ev)}", eng.le(st, start, e), "the start of a requested range may lie behind its end")
                self.ob(eng, st, ev, f"end:{root(eng, ev)}", cl is False or eng.le(st, e, w.clv), "the end of a requested range may exceed the content length")


class P05R(Rule):
    """seek requests sent by the reader stay within a known content length"""
    P = "P05"

    def event(self, eng, st, ev):
        if ev.kind == "send":
            w = self.w
            cl = known_some(eng, st, w.CL)
            self.ob(eng, st, ev, f"sent:{root(eng, ev)}", cl is False or eng.le(st, ev.val, w.clv),
                    "a position beyond the content length is requested from the download")


# ------------------------------------------------------------------------------------------------ wake-up roles
class WaitFields(Monitor):
    def __init__(self):
        self.waits = []
        self.stores = {}
        self.loads = set()
        self.flags = set()

    def event(self, eng, st, ev):
        if ev.kind == "cvwait":
            c = ev.contents
            fs = set()
            for i in range(4):
                if eng.truth(st, get_field(c, (None, i))) is False:
                    fs.add(i)
            self.waits.append((ev.cv, ev.lock, frozenset(fs)))

    def store(self, eng, st, base, proj, v, line, bid):
        if base[0] == "h" and base[1].op == "f" and base[1].args[0] == "in":
            self.stores.setdefault((base[1].args[1], proj), set()).add(v)


class Last(Monitor):
    """the fields of the awaited condition that the task sets after the source's finish handler returned"""
    def __init__(self, lock):
        self.lock = lock
        self.fields = set()

    def event(self, eng, st, ev):
        if ev.kind == "on_finish_res":
            st.mode["last"] = 1

    def store(self, eng, st, base, proj, v, line, bid):
        if st.mode.get("last") and base[0] == "h" and base[1] is App("in", self.lock):
            if len(proj) == 1 and v is TRUE:
                self.fields.add(proj[0][1])


def reader_roots(w):
    p = w.prog
    return [("read", impl(p, "Read", "read", "StreamDownload"), [w.SELF, Ref(("h", Sym("buf")), ())]),
            ("seek", impl(p, "Seek", "seek", "StreamDownload"), [w.SELF, Sym("whence")])]


def extra_reader_roots(w):
    """other methods of the reader that are implemented in the crate (overridden defaults)"""
    out = []
    for (t, m), bs in w.prog.trait_impls.items():
        tn = t.split("::")[-1]
        if tn in ("Read", "Seek", "BufRead") and (tn, m) not in (("Read", "read"), ("Seek", "seek")):
            for b in bs:
                ty = w.prog.types[b.j["impl_self"]]
                if ty.get("d", "").endswith("::StreamDownload"):
                    out.append((m, b.id, [w.SELF] + [Sym(f"arg{i}") for i in range(b.argc - 1)]))
    return out


def wake(w):
    """lock, condition variable, and the fields of the awaited condition: (lock, cv, done, [others])"""
    if hasattr(w, "_wake"):
        return w._wake
    mon = WaitFields()
    for name, bid, args in reader_roots(w):
        w.run(bid, args, [mon], "reader")
    locks = {(cv, l) for cv, l, _ in mon.waits}
    if len(locks) != 1:
        raise Missing(f"readers wait on {len(locks)} conditions")
    cv, lid = next(iter(locks))
    fs = frozenset.intersection(*[f for _, _, f in mon.waits])
    reset = {p[0][1] for (l, p), vs in mon.stores.items() if l is lid and len(p) == 1 and FALSE in vs}
    done = sorted(fs - reset)
    if len(done) > 1:
        # nothing is reset: the fields that the task sets when it is over
        from .core import create_root
        end = Last(lid)
        eng = Engine(w.prog, [end])
        eng.nopart = w.callbacks()
        eng.run(create_root(eng, w.new))
        done = sorted(set(done) & end.fields)
    if len(done) != 1:
        raise Missing("no field of the awaited condition that is never reset")
    w._wake = (lid, cv, done[0], sorted(fs - {done[0]}))
    return w._wake


def wake_store(w, base, proj):
    """the field of the wake condition that a store writes"""
    lid, cv, done, others = wake(w)
    if base[0] == "h" and base[1] is App("in", lid):
        if len(proj) == 0:
            return "all"
        return proj[0][1]
    return None


# ------------------------------------------------------------------------------------------------ P06
class P06(Creation):
    P = "P06"

    def init(self, eng, st):
        st.mode["fail"] = 0
        st.mode["done"] = 0
        st.mode["over"] = 0      # 1: the source ended, 2: the download failed or was cancelled, 3: the finish handler returned

    def store(self, eng, st, base, proj, v, line, bid):
        if not task(st):
            return
        f = wake_store(self.w, base, proj)
        d = wake(self.w)[2]
        if f == d or f == "all":
            x = v if f == d else get_field(v, (None, d))
            t = eng.truth(st, x)
            if t is True:
                ln, fn, file = eng.where(st)
                from .engine import Ev
                self.ob(eng, st, Ev("store", {}, ln, fn, file, None), "marked-early", st.mode["over"] in (1, 3) and st.mode["fail"] != 1,
                        "the stream is marked as done before a failure or cancellation was handed to the source and recorded")
                st.mode["done"] = max(st.mode["done"], 1)
            else:
                ln, fn, file = eng.where(st)
                from .engine import Ev
                self.ob(eng, st, Ev("store", {}, ln, fn, file, None), "done-reset", False, "the task may take back that the stream is done")

    def step(self, eng, st, ev):
        k = ev.kind
        lid, cv, d, _ = wake(self.w)
        if k == "chunk":
            st.mode["over"] = 1 if ev.what == "end" else 0
        elif k == "io_err" and ev.obj is self.w.W or k == "seek_range_res" and not ev.ok or k == "cancelled" and same_token(ev.tok, self.w.T):
            if st.mode["over"] < 3:
                st.mode["over"] = 2
        elif k == "on_finish_res":
            st.mode["over"] = 3
            st.mode["fail"] = 0 if ev.ok else 1
        elif k == "astore" and eng.truth(st, ev.val) is True and st.mode["fail"] == 1:
            st.mode["fail"] = 2
            st.mode["done"] = 0
        elif k == "cvnotify" and ev.cv is cv:
            if ev.how == "notify_all" and st.mode["done"] >= 1:
                st.mode["done"] = 2
        elif k == "lock" and ev.lock is lid:
            st.mode["wl"] = 1
        elif k == "unlock" and ev.lock is lid:
            st.mode["wl"] = 0
        elif k == "taskend":
            self.ob(eng, st, ev, "done-at-end", st.mode["done"] == 2,
                    "the download task ends without marking the stream as done and waking all readers"
                    + (" after the failure was recorded" if st.mode["fail"] == 2 else ""))
            self.ob(eng, st, ev, "failure-recorded", st.mode["fail"] != 1, "the download task ends without recording the failure")


class P06R(Rule):
    P = "P06"

    def event(self, eng, st, ev):
        if ev.kind == "cvwait":
            lid, cv, d, _ = wake(self.w)
            self.ob(eng, st, ev, "wait-after-done", eng.truth(st, get_field(ev.contents, (None, d))) is False,
                    "a reader may start waiting although the stream is done")
        elif ev.kind == "block":
            self.ob(eng, st, ev, "other-block", False, "a reader blocks on something the end of the download does not wake")


# ------------------------------------------------------------------------------------------------ P07
class P07(Creation):
    P = "P07"

    def __init__(self, w):
        super().__init__(w)
        self.flags = set()

    def data(self):
        return [("flag", f) for f in self.flags]

    def init(self, eng, st):
        st.mode["fin"] = 0
        st.mode["canc"] = 0
        st.mode["err"] = 0
        st.mode["fail"] = 0

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "io_err" and ev.obj is w.W and st.mode["fin"] == 0:
            st.mode["err"] = 1
            st.g["lasterr"] = ev.err
        elif k == "seek_range_res" and not ev.ok:
            st.mode["err"] = 1
            st.g["lasterr"] = ev.err
        elif k == "cancelled" and st.mode["fin"] == 0 and same_token(ev.tok, w.T):
            st.mode["canc"] = 1
        elif k == "on_finish":
            self.ob(eng, st, ev, "once", st.mode["fin"] == 0, "the outcome is handed to the source more than once")
            st.mode["fin"] = 1
            r, o = ev.args[0], ev.args[1]
            on = variant_name(eng, o)
            if st.mode["canc"]:
                ok = is_agg(r, RES, 1) and err_kind(eng, r.args[2]) == "Interrupted" and on == "CancelledByUser"
                self.ob(eng, st, ev, "cancelled-outcome", ok, "a cancelled download is not reported to the source as an interruption by the user")
            elif st.mode["err"]:
                ok = is_agg(r, RES, 1) and "lasterr" in st.g and st.g["lasterr"] in subterms(r) and on == "Completed"
                self.ob(eng, st, ev, "failed-outcome", ok, "a failed download is not reported to the source with its original error")
            else:
                self.ob(eng, st, ev, "success-outcome", is_agg(r, RES, 0) and on == "Completed", "a completed download is not reported to the source as completed")
            st.g.pop("lasterr", None)
        elif k == "on_finish_res":
            st.mode["fail"] = 0 if ev.ok else 1
            st.mode["fin"] = 2
        elif k == "astore" and eng.truth(st, ev.val) is True:
            if st.mode["fail"] == 1:
                self.flags.add(ev.obj)
                st.mode["fail"] = 2
            elif ev.obj in self.flags or st.mode["fin"] == 2:
                self.ob(eng, st, ev, "false-failure", st.mode["fail"] == 2, "a failure is recorded although the source reported success")
        elif k == "taskend":
            self.ob(eng, st, ev, "handed-over", st.mode["fin"] == 2, "the download task ends without handing the outcome to the source")
            self.ob(eng, st, ev, "recorded", st.mode["fail"] != 1, "a failure reported by the source is not recorded for readers")


def variant_name(eng, t):
    if t.op == "a":
        a = eng.prog.adts.get(t.args[0])
        if a:
            return a["v"][t.args[1]]["n"]
    return None


def same_token(t, T_):
    while t is not T_ and t.op == "f" and t.args[0] == "child":
        t = t.args[1]
    return t is T_


class P07R(Rule):
    P = "P07"

    def __init__(self, w, flags):
        super().__init__(w)
        self.flags = flags

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "aload" and ev.obj in self.flags:
            t = eng.truth(st, ev.val)
            if t is True:
                st.mode["chk"] = 2
            elif t is False and st.mode.get("chk") != 2:
                st.mode["chk"] = 1
        elif k == "cvwoken" and st.mode.get("chk") != 2:
            st.mode["chk"] = 0

    def end(self, eng, st, v):
        from .engine import Ev
        ev = Ev("return", {}, 0, eng.rootname, "", None)
        if is_agg(v, RES, 1):
            return
        c = st.mode.get("chk", 0)
        self.ob(eng, st, ev, f"success-after-failure:{eng.rootname}", c == 1,
                "a read or seek succeeds although the failure of the download was observed" if c == 2 else
                "a read or seek succeeds without having checked for failure since it was called or woken")


# ------------------------------------------------------------------------------------------------ P08
class P08(Creation):
    P = "P08"

    def init(self, eng, st):
        st.mode["fin"] = 0
        st.mode["sig"] = 0

    def event(self, eng, st, ev):
        if ev.kind == "made_storage":
            self.init(eng, st)
        if ev.kind == "cancel" and same_token_any(self.w.F, ev.tok):
            ok = task(st) and st.mode.get("fin") == 2
            self.ob(eng, st, ev, f"early:{root(eng, ev)}", ok,
                    "the completion token is triggered outside the download task" if not task(st) else
                    "the completion token is triggered before the source's finish handler returned")
            if task(st):
                st.mode["sig"] = 1
        if not task(st):
            return
        if ev.kind == "on_finish":
            st.mode["fin"] = 1
        elif ev.kind == "on_finish_res":
            st.mode["fin"] = 2
        elif ev.kind == "callback":
            for a in ev.args:
                t = eng.deref(st, a)
                self.ob(eng, st, ev, "callback-token", t is not self.w.F, "a callback is given the completion token")
        elif ev.kind == "taskend":
            self.ob(eng, st, ev, "triggered", st.mode["sig"] == 1, "the download task ends without triggering the completion token")


def same_token_any(F, tok):
    """does cancelling tok trigger F? (F itself or an ancestor of it)"""
    t = F
    while True:
        if t is tok:
            return True
        if t.op == "f" and t.args[0] == "child":
            t = t.args[1]
        else:
            return False


# ------------------------------------------------------------------------------------------------ P09
class P09(Creation):
    P = "P09"

    def init(self, eng, st):
        st.mode["fin"] = 0
        st.mode["canc"] = 0
        st.mode["cp"] = 0

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "cancel_pending" and same_token(ev.tok, w.T):
            st.mode["cp"] = 1
        elif k == "suspend":
            if st.mode["fin"] == 0:
                ok = False
                for e in st.stack:
                    if e[0] == "p" and e[2] == "ruc":
                        tok = st.store.get(("l", e[1], 0))
                        if tok is not None and same_token(tok, w.T):
                            ok = True
                    if e[0] == "p" and e[2] == "pollsel":
                        ok = True
                ok = ok or st.mode["cp"] == 1
                self.ob(eng, st, ev, f"unobserved:{root(eng, ev)}", ok,
                        "the download task can be suspended here without observing cancellation")
                st.mode["cp"] = 0
        elif k == "cancelled" and same_token(ev.tok, w.T):
            if st.mode["fin"] == 0:
                st.mode["canc"] = 1
        elif k == "on_finish":
            if st.mode["canc"]:
                r = ev.args[0]
                ok = is_agg(r, RES, 1) and err_kind(eng, r.args[2]) == "Interrupted" and variant_name(eng, ev.args[1]) == "CancelledByUser"
                self.ob(eng, st, ev, "outcome", ok, "the outcome of a cancelled download is not an interruption by the user")
            st.mode["fin"] = 1
        elif st.mode["canc"] and k in ("write", "seek", "flush", "seek_range", "reconnect", "next", "announce"):
            if not (k in ("write", "seek", "flush") and ev.obj is not w.W):
                self.ob(eng, st, ev, f"after-cancel:{k}", False, "the download goes on after it was cancelled")
        elif k == "callback":
            for i, a in enumerate(ev.args):
                t = eng.deref(st, a)
                if t.op == "s" and str(t.args[0]).startswith("token@") or t.op == "f" and t.args[0] == "child":
                    self.ob(eng, st, ev, "callback-token", t is w.T, "a callback is given a token other than the cancellation token of the download")
        elif k == "taskend":
            self.ob(eng, st, ev, "finish", st.mode["fin"] == 1, "the download task ends without invoking the finish handler")


# ------------------------------------------------------------------------------------------------ P11
class P11(Creation):
    P = "P11"

    def init(self, eng, st):
        st.mode["rc"] = "idle"
        st.mode["err"] = 0

    def dur(self):
        return get_field(self.w.settings, (None, self.w.setfields["retry_timeout"]))

    def bounded(self, st):
        d = self.dur()
        for e in st.stack:
            if e[0] == "p" and e[2] == "timeout" and st.store.get(("l", e[1], 0)) is d:
                return True
        return False

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        rc = st.mode["rc"]
        if k == "chunk":
            self.ob(eng, st, ev, "unbounded-wait", self.bounded(st), "the wait for the next chunk is not bounded by the configured retry timeout")
        elif k == "reconnect_res":
            self.ob(eng, st, ev, "unbounded-reconnect", self.bounded(st), "the reconnect attempt is not bounded by the configured retry timeout")
            if rc == "trying":
                st.mode["rc"] = "ok" if ev.ok else "bad"
        elif k == "elapsed":
            self.ob(eng, st, ev, "timeout", ev.dur is self.dur(), "a timeout other than the configured retry timeout is used")
            st.mode["rc"] = "bad" if rc == "trying" else "stalled"
        elif k == "reconnect":
            self.ob(eng, st, ev, "attempts", rc == "stalled", "the source is asked to reconnect more than once for a timeout, or without one")
            st.mode["rc"] = "trying"
        elif k == "callback" and self.is_reconnect_cb(ev.f):
            self.ob(eng, st, ev, "callback", rc == "ok", "the reconnect callback runs although no attempt succeeded, or twice for one")
            st.mode["rc"] = "called"
        elif k in ("io_err",) and ev.obj is w.W:
            st.mode["err"] = 1
        elif k == "cancelled":
            st.mode["err"] = 1
        elif k == "seek_range_res" and not ev.ok:
            st.mode["err"] = 1
        elif k == "next" or k == "received" or k == "on_finish":
            if k == "on_finish" and st.mode["err"]:
                return
            self.ob(eng, st, ev, "no-reconnect", rc != "stalled", "a stalled source is not asked to reconnect")
            if rc == "ok":
                o = get_field(w.settings, (None, w.setfields["on_reconnect"]))
                self.ob(eng, st, ev, "no-callback", known_some(eng, st, o) is False, "the reconnect callback is not run after a successful attempt")
            if k == "on_finish":
                self.ob(eng, st, ev, "ends", rc == "idle", "the download ends because of a stalled source or a failed reconnect")
            st.mode["rc"] = "idle"

    def is_reconnect_cb(self, f):
        return get_field(self.w.settings, (None, self.w.setfields["on_reconnect"])) in subterms(f)


# ------------------------------------------------------------------------------------------------ P12
class P12(Creation):
    P = "P12"
    BAD = ("write", "seek", "announce", "seek_range", "reconnect", "callback", "cvnotify", "astore", "on_finish", "cancel", "read")

    def init(self, eng, st):
        st.mode["ce"] = 0

    def snapshot(self, st):
        """the values of the task's objects that hold the writer"""
        for k, v in sorted(st.store.items(), key=lambda x: str(x[0])):
            if v.op == "a" and self.w.W in v.args[2:]:
                return v
            if v.op == "a" and v.args[0].startswith("co:"):
                for f in v.args[2:]:
                    if f.op == "a" and self.w.W in f.args[2:]:
                        return f
        return None

    def step(self, eng, st, ev):
        k = ev.kind
        if k == "chunk" and ev.what == "err":
            st.mode["ce"] = 1
            s = self.snapshot(st)
            if s is not None:
                st.g["snap"] = s
                st.mode["sn"] = 1
        elif st.mode["ce"]:
            if k == "cancelled":
                st.mode["ce"] = 0
                st.g.pop("snap", None)
                st.mode["sn"] = 0
            elif k in ("next", "received"):
                if st.mode.get("sn"):
                    self.ob(eng, st, ev, "state", self.snapshot(st) is st.g["snap"], "an error in a chunk changes the state of the download")
                st.g.pop("snap", None)
                st.mode["ce"] = 0
                st.mode["sn"] = 0
                self.fl(eng, "continues", True, "")
            elif k in self.BAD:
                self.ob(eng, st, ev, f"effect:{k}", False, f"an error in a chunk has an effect on the download ({k})")


# ------------------------------------------------------------------------------------------------ P13
class P13(Creation):
    P = "P13"

    def init(self, eng, st):
        st.mode["ended"] = 0
        st.mode["rep"] = 0
        st.mode["bad"] = 0

    def nothing_missing(self, eng, st):
        w = self.w
        if eng.truth(st, App("supports_seek", w.X)) is False:
            return True
        if known_some(eng, st, w.CL) is False:
            return True
        return M.covered(eng, st, ZERO, w.clv)

    def step(self, eng, st, ev):
        w = self.w
        k = ev.kind
        if k == "chunk":
            st.mode["ended"] = 1 if ev.what == "end" else 0
        elif k == "received" or k == "elapsed":
            st.mode["ended"] = 0
        elif k == "seek_range":
            if st.mode["ended"]:
                g1, g2 = ev.args[0], ev.args[1]
                ok = M.covered(eng, st, ZERO, g1) and is_agg(g2, OPT, 1) and self.is_gap(eng, st, g1, g2.args[2])
                self.ob(eng, st, ev, "first-missing", ok, "after the end of the stream something other than the first missing range is requested")
                self.ob(eng, st, ev, "complete-requests", True, "")
            st.mode["ended"] = 0
        elif k == "cancelled" or (k == "io_err" and ev.obj is w.W) or (k == "seek_range_res" and not ev.ok):
            st.mode["bad"] = 1
        elif k == "callback" and phase_of(eng, ev) == "Complete":
            ok = st.mode["ended"] == 1 and st.mode["bad"] == 0 and self.nothing_missing(eng, st)
            self.ob(eng, st, ev, "report", ok, "completion is reported although something may be missing or the download failed")
            self.ob(eng, st, ev, "report-once", st.mode["rep"] == 0, "completion is reported more than once")
            st.mode["rep"] = 1
        elif k == "on_finish":
            if is_agg(ev.args[0], RES, 0):
                self.ob(eng, st, ev, "ended", st.mode["ended"] == 1, "the download completes although the source did not report the end of the stream")
                self.ob(eng, st, ev, "missing", self.nothing_missing(eng, st), "the download completes although a part of the stream may be missing")
                cb = get_field(w.settings, (None, w.setfields["on_progress"]))
                self.ob(eng, st, ev, "no-report", st.mode["rep"] == 1 or known_some(eng, st, cb) is False, "completion is not reported")
            elif is_agg(ev.args[0], RES, 1):
                self.ob(eng, st, ev, "report-failed", st.mode["rep"] == 0, "completion is reported for a failed or cancelled download")
            else:
                self.ob(eng, st, ev, "outcome", False, "the outcome of the download is not known here")

    def is_gap(self, eng, st, a, b):
        if st.facts.get(App("gap", a, b)):
            return True
        for t, v in st.facts.items():
            if v and t.op == "f" and t.args[0] == "gap" and eng.eq(st, t.args[1], a) and eng.eq(st, t.args[2], b):
                return True
        return False


def state_arg(eng, ev):
    for a in ev.args:
        if a.op == "a" and a.args[0].endswith("::StreamState"):
            return a
    return None


def phase_of(eng, ev):
    s = state_arg(eng, ev)
    if s is None:
        return None
    i = eng.prog.field_index(s.args[0], "phase")
    return variant_name(eng, s.args[2 + i]) if i is not None else None
