"""Rules about settings, errors, creation and locks (P33, P35, P36, P42)."""
from .engine import Engine, S, AnalysisError, Infeasible, Ev
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .jobs import Result, task_jobs, reader_jobs
from .rules_task import Rule, err_kind, known_some, variant_name
from .rules_store import ends, run, inside

ME, ARG = Sym("self"), Sym("arg")


class Facts:
    """obligations about facts that hold once"""

    def __init__(self, prop):
        self.prop, self.r = prop, Result()

    def ob(self, key, ok, msg, at="-"):
        k = (self.prop, key)
        self.r.obl[k] = self.r.obl.get(k, 0) + 1
        if not ok:
            self.r.violations.setdefault(k, {"message": msg, "at": at, "path": []})


# ------------------------------------------------------------------------------------------------ settings
DEFAULTS = {"prefetch_bytes": lambda v: v is C(256 * 1024), "batch_write_size": lambda v: v is C(4096), "retry_timeout": lambda v: v is App("dur", C(5 * 10**9)),
            "cancel_on_drop": lambda v: v is TRUE, "on_progress": lambda v: v is NONE, "on_reconnect": lambda v: v is NONE}


def is_value(name, v):
    """the argument as it is kept: itself, as a plain number, or boxed as present"""
    if name.startswith("on_"):
        return is_agg(v, OPT, 1) and inside(v, ARG)
    return v is ARG or v is App("nz", ARG)


def settings_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"].append("settings")
    where = {}
    n = None
    for b in prog.bodies:
        p = b.split("::")
        if not ("Settings::<S>" in b and p[-2] == "<S>" and "{closure" not in b):
            continue
        name, argc = p[-1], prog.bodies[b].argc
        F.r.functions.add(b)
        if argc == 2 and name in DEFAULTS:
            vs = [v for _, v in ends(prog, b, [ME, ARG])]
            ok = bool(vs)
            for v in vs:
                m = len(v.args) - 2 if v.op == "a" else None
                if v.op == "u":
                    ch = [v.args[i][1] for i in range(1, len(v.args), 2)]
                else:
                    ch = [i for i in range(m)if get_field(v, (None, i)) is not get_field(ME, (None, i))] if m else []
                F.ob("others-kept", len(ch) == 1, f"{name} changes {'other settings too' if ch else 'nothing'}", b)
                if len(ch) != 1:
                    # whatever else is changed, the named setting is the one that got the argument
                    ch = [i for i in ch if is_value(name, get_field(v, (None, i)))]
                for i in ch:
                    where.setdefault(name, set()).add(i)
                    F.ob("set", is_value(name, get_field(v, (None, i))), f"{name} does not set the given value", b)
    for name in DEFAULTS:
        F.ob("setter", len(where.get(name, ())) == 1, f"{name} does not change one setting", name)
    idx = {k: next(iter(v)) for k, v in where.items() if len(v) == 1}
    F.ob("separate", len(set(idx.values())) == len(idx), "two settings share one field", "Settings")
    for b in prog.bodies:
        p = b.split("::")
        if "Settings::<S>" in b and p[-2] == "<S>" and p[-1].startswith("get_") and prog.bodies[b].argc == 1:
            words = set(p[-1].split("_")[1:])
            name = [k for k in DEFAULTS if set(k.split("_")) == words]
            st = lambda s: s.store.__setitem__(("h", Sym("cfg")), ME)
            vs = [v for _, v in ends(prog, b, [Ref(("h", Sym("cfg")), ())], init=st)]
            F.ob("getter", len(name) == 1 and vs and all(v is get_field(ME, (None, idx.get(name[0], -1))) for v in vs), f"{p[-1]} does not return the configured value", b)
    d = impl(prog, "Default", "default", "Settings")
    for _, v in ends(prog, d, []):
        for k, ok in DEFAULTS.items():
            F.ob("default:" + k, k in idx and ok(get_field(v, (None, idx[k]))), f"the default of {k} is not the documented one", d)
    return F.r


# ------------------------------------------------------------------------------------------------ error context
def mentions(t, x):
    """does the value t contain x itself (and not only its kind)?"""
    if t is x:
        return True
    if not isinstance(t, T) or t.op == "f" and t.args[0] in ("kind", "discr"):
        return False
    return any(mentions(a, x) for a in t.args if isinstance(a, T))


def context_helpers(prog):
    """functions that take an I/O result (or error) and a text and return the same type"""
    out = []
    for b in prog.bodies:
        x = prog.bodies[b]
        if x.argc != 2 or "{closure" in b:
            continue
        ty = lambda i: prog.types[x.locals[i][0]]
        a, m, r = ty(1), ty(2), ty(0)
        if a["s"] == r["s"] and m["s"].replace("'{erased}", "").replace("'_", "").replace(" ", "") in ("&str", "std::string::String") and "std::io::Error" in a["s"] \
           and (a.get("d", "").endswith("result::Result") or a["s"].startswith("std::result::Result<") or a["s"] == "std::io::Error"):
            out.append((b, "result" if "Result" in a["s"] else "error"))
    return out


def context_rules(prog, prop, where):
    F = Facts(prop)
    E, MSG, X = Sym("E"), Sym("MSG"), Sym("X")
    for b, what in context_helpers(prog):
        F.r.stats["roots"].append(b)
        F.r.functions.add(b)
        res = what == "result"
        if res:
            for _, v in ends(prog, b, [Ok(X), MSG], {"apperr": True}):
                F.ob(f"success:{where}", v is Ok(X), "adding context changes a success", b)
        for _, v in ends(prog, b, [Err(E) if res else E, MSG]):
            e = v.args[2] if res and is_agg(v, RES, 1) else v
            ok = e.op == "f" and e.args[0] == "ioerr"
            F.ob(f"error:{where}", ok or e is E, "adding context does not return an error made from the original one", b)
            if ok:
                F.ob(f"kind:{where}", e.args[1] is App("kind", E), "adding context to an error changes its kind", b)
            F.ob(f"message:{where}", ok and mentions(e.args[2], E), "the message of the original error is lost", b)
            F.ob(f"context:{where}", ok and mentions(e.args[2], MSG), "the context is not added to the error", b)
    return F.r


# ------------------------------------------------------------------------------------------------ creation
class Created(Rule):
    """one constructor, run up to the point where the download task is handed to the runtime"""
    P = "P42"

    def __init__(self, w, name, from_stream):
        self.w, self.name, self.from_stream = w, name, from_stream
        self.ends = 0

    def n(self, st, k, d=0):
        st.mode[k] = min(st.mode.get(k, 0) + d, 2)
        return st.mode[k]

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "create":
            self.ob(eng, st, ev, f"create:{self.name}", not self.from_stream and self.n(st, "cr", 1) == 1 and tuple(ev.args) == (Sym("params"),), "the source is created twice, or with something other than the given parameters")
        elif k == "make_storage":
            self.ob(eng, st, ev, f"storage:{self.name}", self.n(st, "ms", 1) == 1 and ev.provider is Sym("provider") and ev.len is App("content_length", self.src),
                    "the storage is not made once by the given provider for the content length of the source")
        elif k == "spawn":
            self.n(st, "sp", 1)
            st.g["spawned"] = ev.f

    @property
    def src(self):
        return Sym("params") if self.from_stream else App("ok", App("create", Sym("params")))

    def fl(self, eng, st, key, ok, msg):
        return eng.oblige(self.P, f"{key}:{self.name}", bool(ok), None, msg, st)

    def end(self, eng, st, v):
        w = self.w
        sp, ms = self.n(st, "sp"), self.n(st, "ms")
        if is_agg(v, RES, 1):
            e = v.args[2]
            name = variant_name(eng, e) if e.op == "a" else None
            self.fl(eng, st, "nothing-started", sp == 0, "a failed creation starts a download task")
            if ms == 0:
                self.fl(eng, st, "stream-failure", name == "StreamCreationFailure" and e.args[2] is App("err", App("create", Sym("params"))), "a failure to create the source is not reported as such")
            else:
                self.fl(eng, st, "storage-failure", name == "StorageCreationFailure" and e.args[2] is App("err", App("into_reader_writer", Sym("provider"), App("content_length", self.src))),
                        "a failure to create the storage is not reported as such")
        elif is_agg(v, RES, 0):
            i = App("into_reader_writer", Sym("provider"), App("content_length", self.src))
            f = st.g.get("spawned")
            val = v.args[2]
            self.fl(eng, st, "started", sp == 1 and ms == 1, "a successful creation does not start exactly one download task")
            if f is None:
                return
            seen, vis = reach(eng, st, f), reach(eng, st, val)
            self.fl(eng, st, "task-parts", App("writer", i) in seen and self.src in seen and App("reader", i) not in seen, "the download task does not get the writer and the source")
            self.fl(eng, st, "reader", App("reader", i) in vis and App("writer", i) not in vis, "the returned reader does not read from the storage the download writes to")
            whole = Sym("settings") in seen
            for n_, j in setting_fields_of(w).items():
                fld = get_field(Sym("settings"), (None, j))
                self.fl(eng, st, f"settings.{n_}", whole or fld in seen or fld in vis or Sym("settings") in vis, f"the setting {n_} is not handed to the download")
            e = Ends()
            en = Engine(eng.prog, [e])
            s2 = st.clone()
            s2.mode["role"] = "get"
            s2.stack = ()
            s2.store[("h", Sym("self"))] = val
            en.run(en.start(s2, inherent(eng.prog, "StreamDownload", "content_length"), [Ref(("h", Sym("self")), ())]))
            cl = App("content_length", self.src)
            self.fl(eng, st, "length", e.l and all(x is cl or st.facts.get(App("discr", cl)) == 0 and x is NONE or is_agg(x, OPT, 1) and x.args[2] is get_field(cl, (1, 0)) for _, x in e.l), "the reader does not report the content length of the source")
            for m, what in (("cancellation_token", "cancel"), ("handle", "handle")):
                e = Ends()
                en = Engine(eng.prog, [e])
                s2 = st.clone()
                s2.mode["role"] = "get"
                s2.stack = ()
                s2.store[("h", Sym("self"))] = val
                en.run(en.start(s2, inherent(eng.prog, "StreamDownload", m), [Ref(("h", Sym("self")), ())]))
                for _, x in e.l:
                    ts = {y for y in reach(eng, st, x) if is_token(y)}
                    self.fl(eng, st, what, ts and ts <= seen, "the reader's tokens are not those of the task")


def is_token(t):
    return t.op == "s" and isinstance(t.args[0], str) and t.args[0].startswith("token@") or t.op == "a" and t.args[0] == "token"


def reach(eng, st, v):
    """all values reachable from a value, through pointers too"""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == "r":
            b = x.args[0]
            if b in st.store:
                todo.append(st.store[b])
            if b[0] == "h" and isinstance(b[1], T):
                todo.append(b[1])
        for a in x.args:
            if isinstance(a, T):
                todo.append(a)
        if ("h", x) in st.store:
            todo.append(st.store[("h", x)])
    return out


def setting_fields_of(w):
    return w["fields"]


def creation_jobs(prog, prop):
    fields = setting_fields(prog)
    jobs = []
    for b in sorted(prog.bodies):
        p = b.split("::")
        x = prog.bodies[b]
        if "StreamDownload" in b and "{closure" not in b and (p[-1] == "new" or p[-1].startswith("new_") or p[-1] == "from_stream") and x.argc == 3 and "Settings<" in prog.types[x.locals[3][0]]["s"]:
            def job(b=b, name=p[-1]):
                m = Created({"fields": fields}, name, name == "from_stream")
                eng = Engine(prog, [m], opts={"notask": True})
                eng.rootname = name
                eng.run(create_root(eng, b))
                r = Result()
                r.add_engine(eng, name)
                return r
            jobs.append(job)
    return jobs


# ------------------------------------------------------------------------------------------------ locks
FOREIGN = ("next", "seek_range", "reconnect", "on_finish", "callback", "create", "make_storage", "spawn")
WAITS = ("suspend", "yield", "block", "slept", "timeout_poll")
STORAGE = ("write", "read", "flush", "seek", "tell", "seeked")


class Locks(Rule):
    """what happens while a lock is held"""
    P = "P35"
    opts = {"logging": True}

    def __init__(self, w, where):
        self.w, self.where = w, where

    def event(self, eng, st, ev):
        k = ev.kind
        held = st.mode.get("held", ())
        key = lambda x: f"{x}:{self.where}"
        if k == "lock":
            self.ob(eng, st, ev, key("nested"), not held, "a lock is acquired while another one (or the same) is held")
            st.mode["held"] = held + (ev.lock,)
        elif k == "unlock":
            if ev.lock in held:
                i = held.index(ev.lock)
                st.mode["held"] = held[:i] + held[i + 1:]
        elif k == "cvwait":
            self.ob(eng, st, ev, key("wait"), held == (ev.lock,), "a thread waits while it holds another lock")
        elif k in WAITS:
            self.ob(eng, st, ev, key("suspended"), not held, "a lock is held where the task can be suspended or the thread blocks")
        elif k in FOREIGN:
            self.ob(eng, st, ev, key("foreign"), not held, "a lock is held while foreign code runs: " + k)
        elif k in STORAGE and self.w is not None and ev.obj in (self.w.R, self.w.W):
            self.ob(eng, st, ev, key("storage"), not held, "a lock is held while the storage is used")
        elif k == "panic":
            self.ob(eng, st, ev, key("panic"), not held, "an explicit panic is reachable while a lock is held")

    def end(self, eng, st, v):
        kept = isinstance(v, T) and any(x.op == "a" and x.args[0] == "guard" for x in reach(eng, st, v))
        if not kept:
            self.ob(eng, st, None, f"released:{self.where}", not st.mode.get("held"), "a lock is still held at the end")


LOCKS = ("Mutex", "RwLock", "FairMutex", "ReentrantMutex")


def takes_lock(prog, b):
    for blk in prog.bodies[b].blocks:
        t = blk["t"]
        f = t.get("f") if isinstance(t, dict) else None
        n = (f or {}).get("p", "") if isinstance(f, dict) else ""
        if n.split("::")[-1] in ("lock", "read", "write", "try_lock", "try_read", "try_write") and any(x in n for x in LOCKS):
            return True
    return False


def own_jobs(prog, where):
    """every function that takes a lock itself, from arbitrary arguments"""
    jobs = []
    for b in sorted(prog.bodies):
        if prog.bodies[b].coroutine or "{closure" in b or not takes_lock(prog, b):
            continue

        def job(b=b):
            x = prog.bodies[b]
            eng = Engine(prog, [Locks(None, where)], opts={"lock_stable": True, "apperr": True, "logging": True})
            eng.rootname = b
            st = S()
            st.mode["role"] = "locks"
            args = [Ref(("h", Sym(f"a{i}")), ()) if prog.types[x.locals[i + 1][0]]["k"] == "ref" else Sym(f"a{i}") for i in range(x.argc)]
            eng.run(eng.start(st, b, args))
            r = Result()
            r.add_engine(eng, b)
            return r
        jobs.append(job)
    return jobs
