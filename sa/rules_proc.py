"""Rules about the async-read source and the processes behind process sources (P27-P30)."""
from .engine import Engine
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .rules_misc import Facts
from .rules_store import run
from .rules_http import SELF, summary, nm, un, at, EXACT, full, text, replace
from .rules_io import on_value, causes
from .rules_task import variant_name, err_kind

TOKIO, STD = Sym("tokio"), Sym("std")
FIELDS = ("runtime", "program", "args", "stdin", "stdout", "stderr", "kill_on_drop")
LOG = Agg("log", 0)


def struct(prog, suffix, **kw):
    """a value of a local struct, given by field names"""
    name = next(k for k in prog.adts if k.endswith(suffix) and prog.adts[k].get("local"))
    return Agg(name, 0, *[kw[f] if f in kw else Sym(f"{suffix.split('::')[-1]}.{f}") for f in prog.adts[name]["v"][0]["f"]])


def member(prog, v, n):
    """a field of a struct value, by name"""
    return get_field(v, (None, prog.field_index(v.args[0], n))) if v.op == "a" else App("?", v)


def items(v):
    v = un(v)
    return [un(x) for x in v.args[2:]] if v.op == "a" and v.args[0] in ("vec", "[]") else None


def plain(eng, st, v, n=0):
    """the value behind references"""
    while v.op == "r" and n < 6:
        v = eng.load(st, *v.args)
        n += 1
    return v


class Commands(Monitor):
    """the meaning of process commands: what is spawned, with which pipes"""

    def __init__(self, prog):
        self.prog = prog

    def ref(self, eng, st, v):
        r = M.buf_ref(eng, st, v)
        return r if r is not None and is_agg(eng.load(st, *r.args), "cmd") else None

    def call(self, eng, st, c):
        n, k, a = M.norm(c.name), M.short(c.name), c.args
        if k == "Command::new" and not n.startswith("stream_download"):
            return eng.ret(st, Agg("cmd", 0, TOKIO if n.startswith("tokio") else STD, plain(eng, st, a[0]), Agg("vec", 0), NONE, NONE, NONE, FALSE))
        if k == "Command::from" or c.f.get("m") == "from" and len(a) == 1 and is_agg(a[0], "cmd"):
            return eng.ret(st, set_field(a[0], (None, 0), TOKIO))
        if k.startswith("Command::") and a and (r := self.ref(eng, st, a[0])) is not None:
            w, mth = eng.load(st, *r.args), k.split("::")[1]
            i = {"arg": 2, "args": 2, "stdin": 3, "stdout": 4, "stderr": 5, "kill_on_drop": 6}.get(mth)
            if mth == "spawn":
                return self.spawn(eng, st, w)
            if i is None:
                st.g["odd"] = mk("c", mth)
                return eng.ret(st, a[0])
            if i == 2:
                x = plain(eng, st, a[1])
                if mth == "args" and is_agg(x, "iter"):
                    x = plain(eng, st, x.args[2])
                xs = [plain(eng, st, y) for y in (items(x) or [])] if mth == "args" and items(x) is not None else [App("all", x) if mth == "args" else x]
                w = set_field(w, (None, 2), Agg("vec", 0, *items(w.args[4]), *xs))
            elif i == 6:
                w = set_field(w, (None, 6), a[1])
            else:
                w = set_field(w, (None, i), Some(plain(eng, st, a[1])))
            eng.set(st, r.args[0], r.args[1], w)
            return eng.ret(st, a[0])
        if k == "Stdio::piped":
            return eng.ret(st, Sym("piped"))
        if k.startswith("NamedTempFile::new") and "tempfile" in n:
            i = st.g.get("files", ZERO)
            st.g["files"] = add(i, C(1))
            return self.fails(eng, st, App("tempfile", i), "tempfile")
        if k == "NamedTempFile::as_file":
            return eng.ret(st, plain(eng, st, a[0]))
        if k in ("File::try_clone", "NamedTempFile::reopen"):
            return self.fails(eng, st, App("clone", plain(eng, st, a[0])), "clone")
        return None

    def fails(self, eng, st, ok, what):
        n = st.clone()
        n.g["failure"] = e = App("err", Sym(what), st.g.get("files", ZERO), C(len(st.g.get("log", LOG).args)))
        return eng.ret(n, Err(e)) + eng.ret(st, Ok(ok))

    def spawn(self, eng, st, w):
        st.g["log"] = l = Agg("log", 0, *st.g.get("log", LOG).args[2:], w)
        i = C(len(l.args) - 3)
        name = "tokio::process::Child" if w.args[2] is TOKIO else "std::process::Child"
        has = w.args[6] is Some(Sym("piped"))
        fs = self.prog.adts[name]["v"][0]["f"] if name in self.prog.adts else ["handle", "stdin", "stdout", "stderr"]
        child = Agg(name, 0, *[(Some(App("output", i)) if has else NONE) if f == "stdout" else NONE if f in ("stdin", "stderr") else App("process", i) for f in fs])
        n = st.clone()
        n.g["failure"] = e = App("err", Sym("spawn"), i)
        return eng.ret(n, Err(e)) + eng.ret(st, Ok(child))


def execute(F, prog, bid, args, init=None, mons=()):
    e, c = Ends(), Commands(prog)
    r = run(prog, bid, bid, args, [c, e, *mons], dict(EXACT), init)
    r.obl = {}
    F.r.merge(r)
    F.r.functions.add(bid)
    return e.l


def command(prog, i, handle):
    return struct(prog, "process::Command", program=Sym(f"program{i}"), args=Agg("vec", 0, Sym(f"arg{i}a"), Sym(f"arg{i}b")), stderr_handle=Some(Sym(f"handle{i}")) if handle else NONE)


def convs(t):
    """conversions of a process's output that may fail"""
    return [x for x in subterms(t) if nm(x) in ("try_into", "try_from") and any(nm(y) == "output" for y in subterms(x))]


def pipe_of(v):
    """the output a standard input is connected to, behind conversions"""
    for x in convs(v):
        for y in (get_field(x, (0, 0)), App("ok", x), x):
            v = replace(v, y, x.args[-1])
    return v


# ------------------------------------------------------------------------------------------------ P29
def spawned_rules(prog, F, st, v, cmds, handles, loc, key):
    """one outcome of spawning a pipeline of commands"""
    eng = Engine(prog, [])
    log = list(st.g.get("log", LOG).args[2:])
    ok = is_agg(v, RES, 0)
    F.ob(f"{key}-failure", ok or "failure" in st.g and st.g["failure"] in subterms(v) or "failure" not in st.g and bool(convs(v)), "spawning fails without a failure, or hides its cause", loc)
    if ok:
        F.ob(f"{key}-failed", "failure" not in st.g, "a failure to spawn is not returned", loc)
        F.ob(f"{key}-each", len(log) == len(cmds), "not every command is spawned exactly once", loc)
    F.ob(f"{key}-options", "odd" not in st.g, f"a command is spawned with an option that was not asked for ({st.g['odd'].args[0] if 'odd' in st.g else ''})", loc)
    F.ob(f"{key}-count", len(log) <= len(cmds), "more commands are spawned than were given", loc)
    files = []
    for i, (w, c) in enumerate(zip(log, cmds)):
        last = i == len(cmds) - 1
        g = lambda n: w.args[2 + FIELDS.index(n)]
        F.ob(f"{key}-program", un(g("program")) is Sym(f"program{i}"), "a command does not run the given program, or commands run out of order", loc)
        F.ob(f"{key}-args", items(g("args")) == [Sym(f"arg{i}a"), Sym(f"arg{i}b")], "a command does not get the given arguments in order", loc)
        F.ob(f"{key}-stdout", g("stdout") is Some(Sym("piped")), "the output of a command is not piped", loc)
        F.ob(f"{key}-stdin", pipe_of(g("stdin")) is (Some(App("output", C(i - 1))) if i else NONE), "a command does not read the output of the one before it, or the first one does not inherit its input", loc)
        e = g("stderr")
        if handles[i]:
            F.ob(f"{key}-handle", e is Some(Sym(f"handle{i}")), "the error output of a command does not go to the handle supplied", loc)
        else:
            f = un(e.args[2]) if is_agg(e, OPT, 1) else UNIT
            f = un(f.args[1]) if nm(f) == "clone" else f
            F.ob(f"{key}-file", nm(f) == "tempfile" and f not in files, "the error output of a command does not go to a temporary file of its own", loc)
            files.append(f)
        F.ob(f"{key}-kill", g("kill_on_drop") is (TRUE if last else FALSE), "the last process is not killed when dropped, or an earlier one is killed at once", loc)
        if not last:
            F.ob(f"{key}-reaped", g("runtime") is TOKIO, "an intermediate process is never waited for", loc)
    if ok:
        s = v.args[2]
        ch = member(prog, s, "child_handle")
        F.ob(f"{key}-child", ch.op == "a" and App("process", C(len(cmds) - 1)) in ch.args and Some(App("output", C(len(cmds) - 1))) in ch.args, "the process kept is not the last one of the pipeline", loc)
        kept = items(member(prog, s, "stderr_files"))
        F.ob(f"{key}-kept", kept is not None and set(kept) == set(files) and len(kept) == len(files), "the temporary error files are not kept with the stream", loc)


def spawn_rules(prog, prop):
    F = Facts(prop)
    bid = impl(prog, "SpawnCommand", "spawn", "process::Command")
    F.r.stats["roots"].append(bid)
    for h in (False, True):
        for st, v in execute(F, prog, bid, [command(prog, 0, h)]):
            spawned_rules(prog, F, st, v, [0], [h], at(prog, bid), "single")
    bid = impl(prog, "SpawnCommand", "spawn", "CommandBuilder")
    F.r.stats["roots"].append(bid)
    for n in (1, 2, 3, 4):
        for hs in ([i % 2 == 0 for i in range(n)], [i % 2 == 1 for i in range(n)], [False] * n, [True] * n):
            cmds = [command(prog, i, hs[i]) for i in range(n)]
            v0 = struct(prog, "CommandBuilder", commands=Agg("vec", 0, *cmds))
            for st, v in execute(F, prog, bid, [v0]):
                spawned_rules(prog, F, st, v, cmds, hs, at(prog, bid), "pipe")
    # building commands
    C0 = struct(prog, "process::Command", program=Sym("p"), args=Agg("vec", 0, Sym("a0")), stderr_handle=NONE)
    C1 = struct(prog, "process::Command", program=Sym("q"), args=Agg("vec", 0), stderr_handle=NONE)
    build = inherent(prog, "CommandBuilder", "new")
    for name, args, want in (("new", [Sym("p")], ("p", [], NONE)), ("arg", [C0, Sym("x")], ("p", ["a0", "x"], NONE)),
                             ("args", [C0, Agg("vec", 0, Sym("x"), Sym("y"), Sym("z"))], ("p", ["a0", "x", "y", "z"], NONE)),
                             ("stderr_handle", [C0, Sym("x")], ("p", ["a0"], Some(Sym("x"))))):
        b = inherent(prog, "process::Command", name)
        for st, v in execute(F, prog, b, args):
            v = un(v)
            ok = v.op == "a" and un(member(prog, v, "program")) is Sym(want[0]) and items(member(prog, v, "args")) == [Sym(x) for x in want[1]] and member(prog, v, "stderr_handle") is want[2]
            F.ob(f"builder:{name}", ok, "building a command changes more or less than the requested part, or loses the order", at(prog, b))
    pipe = inherent(prog, "CommandBuilder", "pipe")
    for st, v in execute(F, prog, build, [C0]):
        F.ob("builder:first", items(member(prog, v, "commands")) == [C0], "a pipeline does not begin with the given command", at(prog, build))
        for s2, v2 in execute(F, prog, pipe, [v, C1]):
            F.ob("builder:pipe", items(member(prog, v2, "commands")) == [C0, C1], "a piped command is not added behind the others", at(prog, pipe))
    b = inherent(prog, "ProcessStreamParams", "new")
    for st, v in execute(F, prog, b, [Sym("C")]):
        sp = [x for x in subterms(v) if x.op == "f" and nm(x) == "spawn"]
        ok = bool(sp) and un(sp[0].args[1]) is Sym("C")
        if is_agg(v, RES, 0):
            ok = ok and un(member(prog, v.args[2], "command")) in (App("ok", sp[0]), get_field(sp[0], (0, 0))) and member(prog, v.args[2], "content_length") is NONE
        F.ob("params", ok, "the parameters of a process stream do not hold the spawned command, or hide its failure", at(prog, b))
    return F.r


# ------------------------------------------------------------------------------------------------ P28
class Child(Monitor):
    """what happens to the process and to the captured error output"""

    def __init__(self, child, files):
        self.child, self.files = child, files

    def call(self, eng, st, c):
        k = M.short(c.name)
        if k in ("Child::wait", "Child::kill", "Child::start_kill", "Child::try_wait", "Child::wait_with_output"):
            o = full(eng, st, c.args[0])
            mth = k.split("::")[1]
            if o is not self.child:
                st.mode["other"] = 1
            if mth in ("wait", "kill"):
                return eng.ret(st, M.Fut("proc", mk("c", mth), o))
            if mth == "start_kill":
                n = st.clone()
                n.g["failure"] = e = App("err", Sym("kill"), o)
                st.mode["start"] = 1
                return eng.ret(n, Err(e)) + eng.ret(st, Ok(UNIT))
        return None

    def event(self, eng, st, ev):
        k = ev.kind
        if k == "wait_done":
            st.mode["killed" if st.mode.get("start") else "waited"] = 1
            st.mode["gone"] = 1
        elif k == "kill_done":
            st.mode["killed"] = st.mode["gone"] = 1
        elif k == "read_all" or k == "call" and ev.callee.endswith("read_to_string"):
            for i, f in enumerate(self.files):
                if f in subterms(full(eng, st, ev.obj if k == "read_all" else ev.args[0])):
                    st.mode[f"read{i}"] = 1
                    if not st.mode.get("gone"):
                        st.mode["early"] = 1
        elif k == "call" and ev.callee.split("::")[-1] in ("close", "drop") and ev.args:
            for i, f in enumerate(self.files):
                if full(eng, st, ev.args[0]) is f:
                    st.mode[f"closed{i}"] = 1


def finish_rules(prog, prop):
    F = Facts(prop)
    bid = impl(prog, "SourceStream", "on_finish", "ProcessStream")
    loc = at(prog, bid)
    F.r.stats["roots"].append(bid)
    child, files = Sym("child"), [Sym("file1"), Sym("file2")]
    v0 = struct(prog, "ProcessStream", stream=Sym("stream"), child_handle=child, stderr_files=Agg("vec", 0, *files))
    R, O = Sym("result"), Sym("outcome")
    adt = next(k for k in prog.adts if k.endswith("source::StreamOutcome"))
    names = {int(v["d"]): v["n"] for v in prog.adts[adt]["v"]}

    def init(st):
        st.store[("h", Sym("self"))] = v0
    m, e = Child(child, files), Ends()
    r = run(prog, bid, bid, [SELF, R, O], [m, e], dict(EXACT), init)
    r.obl = {}
    F.r.merge(r)
    for st, v in e.l:
        g = st.mode.get
        good = st.facts.get(App("discr", R)) == 0
        bad = st.facts.get(App("discr", R)) == 1
        F.ob("decided", good or bad, "the process is treated alike whether the stream ended well or with an error", loc)
        F.ob("own", not g("other"), "another process than the stream's own is waited for or killed", loc)
        if "failure" in st.g:
            F.ob("failure", v is R or is_agg(v, RES, 1) and st.g["failure"] in subterms(v), "a failure to wait for or to kill the process is hidden", loc)
            if is_agg(v, RES, 1) and st.g["failure"] in subterms(v):
                continue
        F.ob("result", v is R, "the result given to the finish handler is not returned unchanged", loc)
        if good:
            F.ob("waited", g("waited"), "the process of a stream that finished is not waited for", loc)
            F.ob("not-killed", not g("killed"), "the process of a stream that finished well is killed", loc)
        else:
            F.ob("killed", g("killed"), "the process of a stream that ended early is not killed, or the kill is not awaited", loc)
        if good:
            s = [x for x in st.facts if nm(x) == "success" and App("status", child) in subterms(x)]
            d = st.facts.get(s[0]) if s else None
            F.ob("status", d is not None, "the exit status of the process is not looked at", loc)
            log = d == 0
        else:
            d = st.facts.get(App("discr", O))
            left = [x for x in names if not st.facts.get(App("isnt", App("discr", O), C(x)))]
            d = left[0] if d is None and len(left) == 1 else d
            F.ob("outcome", d is not None, "a cancellation by the user is not told from a failure", loc)
            log = d is not None and names[d] == "Completed"
        for i, f in enumerate(files):
            was = bool(g(f"read{i}"))
            opened = [x for x in st.facts if nm(x) == "discr" and x.args[1].op == "f" and nm(x.args[1]) in ("reopen", "open") and f in subterms(x) and st.facts[x] == 1]
            F.ob("logged" if log else "quiet", was == log or log and opened, "captured error output is not logged although the command or the stream failed" if log else "captured error output is logged although nothing failed", loc)
            F.ob("closed", g(f"closed{i}"), "a temporary error file is not closed", loc)
        F.ob("order", not g("early"), "the error output is read before the process has ended", loc)
    # what is given up with a pipeline is spawned so that it is reaped
    for n in (2, 3):
        cmds = [command(prog, i, True) for i in range(n)]
        bid2 = impl(prog, "SpawnCommand", "spawn", "CommandBuilder")
        for st, v in execute(F, prog, bid2, [struct(prog, "CommandBuilder", commands=Agg("vec", 0, *cmds))]):
            for i, w in enumerate(st.g.get("log", LOG).args[2:]):
                F.ob("reaped", w.args[2] is TOKIO or is_agg(v, RES, 0) and App("process", C(i)) in subterms(v), "an intermediate process of a pipeline is never waited for", at(prog, bid2))
    b = impl(prog, "SourceStream", "create", "ProcessStream")
    for st, v in made(F, prog, b):
        F.ob("kept", v is not None and member(prog, v, "stderr_files") is Agg("vec", 0, *files) and is_child(member(prog, v, "child_handle")), "the process or its error files are not kept with the stream", at(prog, b))
    return F.r


OUT = Sym("output")
CHILD = "tokio::process::Child"


def is_child(v):
    return v.op == "a" and v.args[0] == CHILD and Sym("process") in v.args


def made(F, prog, b):
    """a new process stream, of a process with two error files"""
    ch = Agg(CHILD, 0, *[Some(OUT) if f == "stdout" else NONE if f in ("stdin", "stderr") else Sym("process") for f in prog.adts[CHILD]["v"][0]["f"]])
    p = struct(prog, "ProcessStreamParams", content_length=Sym("CL"), command=struct(prog, "SpawnedCommand", child_handle=ch, stderr_files=Agg("vec", 0, Sym("file1"), Sym("file2"))))
    return [(st, v.args[2] if is_agg(v, RES, 0) else None) for st, v in summary(F, prog, b, [p])]


# ------------------------------------------------------------------------------------------------ P27
class Polls(Monitor):
    def event(self, eng, st, ev):
        if ev.kind == "call" and ev.callee.split(".")[-1].split("::")[-1] in ("poll_next", "poll_read_buf", "poll_read", "poll_next_unpin"):
            st.mode["polls"] = min(st.mode.get("polls", 0) + 1, 2)
            st.g["polled"], st.g["answer"] = full(eng, st, ev.args[0]), ev.res


def same_option(prog, st, v, t):
    """the option v is the option t, possibly through a conversion of its own type"""
    v = un(v)
    while nm(v) == "into":
        v = un(v.args[-1])
    return v is t or v is NONE and st.facts.get(App("discr", t)) == 0 or is_agg(v, OPT, 1) and v.args[2] is get_field(t, (1, 0)) and st.facts.get(App("discr", t)) == 1


def source_rules(F, prog, ty, key, st, v, length, reader):
    b = impl(prog, "SourceStream", "content_length", ty)
    for s, x in on_value(F, prog, st, v, b, []):
        F.ob(f"{key}:length", same_option(prog, s, x, length), "the content length is not the configured one", at(prog, b))
    b = impl(prog, "SourceStream", "supports_seek", ty)
    for s, x in on_value(F, prog, st, v, b, []):
        F.ob(f"{key}:seekable", x is FALSE, "a source that cannot seek reports that it can", at(prog, b))
    for m, args in (("seek_range", [Sym("start"), Sym("end")]), ("reconnect", [Sym("pos")])):
        b = impl(prog, "SourceStream", m, ty)
        for s, x in on_value(F, prog, st, v, b, args):
            ok = is_agg(x, RES, 1) and err_kind(Engine(prog, []), x.args[2]) == "Unsupported"
            F.ob(f"{key}:{m}", ok, "a source that cannot seek does not answer with an unsupported error", at(prog, b))
            F.ob(f"{key}:{m}-kept", s.store.get(("h", Sym("self"))) is v, "an unsupported operation changes the source", at(prog, b))
    b = impl(prog, "Stream", "poll_next", ty)
    for s, x in on_value(F, prog, st, v, b, [Sym("cx")], [Polls()]):
        ok = s.mode.get("polls") == 1 and reader in [s.g["polled"], *subterms(s.g["polled"])]
        F.ob(f"{key}:polled", ok, "a poll does not poll the reader exactly once", at(prog, b))
        F.ob(f"{key}:chunks", ok and x is s.g["answer"], "the reader's chunks are not forwarded unchanged", at(prog, b))


def async_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"] += ["AsyncReadStream", "ProcessStream"]
    T_, L = Sym("reader"), Sym("length")
    p = struct(prog, "AsyncReadStreamParams", stream=T_, content_length=L)
    b = impl(prog, "SourceStream", "create", "AsyncReadStream")
    for st, v in summary(F, prog, b, [p]):
        F.ob("async:created", is_agg(v, RES, 0), "an async-read source cannot be made", at(prog, b))
        if is_agg(v, RES, 0):
            source_rules(F, prog, "AsyncReadStream", "async", st, v.args[2], L, T_)
    b = inherent(prog, "AsyncReadStream", "new")
    for st, v in summary(F, prog, b, [T_, L]):
        source_rules(F, prog, "AsyncReadStream", "direct", st, v, L, T_)
    for ty, arg, fname in (("AsyncReadStreamParams", T_, "stream"), ("ProcessStreamParams", None, "command")):
        if arg is not None:
            b = inherent(prog, ty, "new")
            for st, v in summary(F, prog, b, [arg]):
                F.ob(f"params:{ty}", member(prog, v, fname) is arg and member(prog, v, "content_length") is NONE, "new parameters do not hold the reader, without a content length", at(prog, b))
        b = inherent(prog, ty, "content_length")
        p = struct(prog, ty, content_length=Sym("OLD"))
        for st, v in summary(F, prog, b, [p, L]):
            F.ob(f"setter:{ty}", v.op == "a" and same_option(prog, st, member(prog, v, "content_length"), L) and member(prog, v, fname) is member(prog, p, fname), "configuring the content length does not set exactly it", at(prog, b))
    b = impl(prog, "SourceStream", "create", "ProcessStream")
    for st, v in made(F, prog, b):
        F.ob("process:created", v is not None, "a process source cannot be made", at(prog, b))
        if v is not None:
            source_rules(F, prog, "ProcessStream", "process", st, v, Sym("CL"), OUT)
    return F.r


# ------------------------------------------------------------------------------------------------ P30
class Texts(Monitor):
    """conversions between kinds of text keep the text"""

    def call(self, eng, st, c):
        if c.f.get("tr") and c.f["m"] in ("into", "from", "as_ref", "to_owned", "to_string", "clone", "borrow", "to_os_string", "deref") and len(c.args) == 1 and c.args[0].op == "r":
            v = un(plain(eng, st, c.args[0]))
            if v.op in ("s", "c"):
                return eng.ret(st, v)
        return None


def texts(v):
    """an argument list as texts and values"""
    l = items(v)
    out = []
    for x in l if l is not None else []:
        t = text(x)
        out.append(t[0] if len(t) == 1 else t)
    return out if l is not None else None


def lines(F, prog, bid, args):
    return [v for st, v in execute(F, prog, bid, args, None, [Texts()])]


def line_rules(prog, prop):
    F = Facts(prop)
    FF, YT = "FfmpegConvertAudioCommand", "YtDlpCommand"
    F.r.stats["roots"] += [FF, YT]
    conv = {}
    for t, bs in prog.trait_impls.items():
        if t == ("std::convert::From", "from"):
            for b in bs:
                if prog.types[b.j["impl_self"]]["s"].endswith("process::Command"):
                    conv[prog.types[b.locals[1][0]]["s"].split("::")[-1]] = b.id
    S_ = Sym

    def cmd(v, ty):
        """the command made of a value"""
        return [un(x) for x in lines(F, prog, conv[ty], [v])] if ty in conv else []
    # ffmpeg
    b = inherent(prog, FF, "new")
    loc = at(prog, b)
    for v in lines(F, prog, b, [S_("format")]):
        for c in cmd(v, FF):
            F.ob("ffmpeg:program", text(member(prog, c, "program")) == ["ffmpeg"], "the program is not ffmpeg", loc)
            l = texts(member(prog, c, "args"))
            frame(F, "ffmpeg", l, [], loc)
        for extra in ([S_("x")], [S_("x"), S_("y")], [S_("x"), S_("y"), S_("z")]):
            for name in ("arg", "args"):
                b2 = inherent(prog, FF, name)
                w = [v]
                if name == "args":
                    w = lines(F, prog, b2, [v, Agg("vec", 0, *extra)])
                else:
                    for x in extra:
                        w = [u for t in w for u in lines(F, prog, b2, [t, x])]
                for u in w:
                    for c in cmd(u, FF):
                        frame(F, f"ffmpeg-{name}", texts(member(prog, c, "args")), extra, at(prog, b2))
        path(F, prog, FF, v, "ffmpeg_path", cmd, "ffmpeg")
    # yt-dlp
    b = inherent(prog, YT, "new")
    loc = at(prog, b)
    base = [S_("url"), "--quiet", "--no-part", "--no-continue"]
    for v in lines(F, prog, b, [S_("url")]):
        for c in cmd(v, YT):
            F.ob("yt-dlp:program", text(member(prog, c, "program")) == ["yt-dlp"], "the program is not yt-dlp", loc)
            ytdlp(F, "yt-dlp", texts(member(prog, c, "args")), False, None, loc)
        path(F, prog, YT, v, "yt_dlp_path", cmd, "yt-dlp")
        for audio in (None, True, False):
            for fmt in (None, S_("fmt")):
                w = [v]
                if audio is not None:
                    w = [u for t in w for u in lines(F, prog, inherent(prog, YT, "extract_audio"), [t, TRUE if audio else FALSE])]
                if fmt is not None:
                    w = [u for t in w for u in lines(F, prog, inherent(prog, YT, "format"), [t, fmt])]
                for u in w:
                    for c in cmd(u, YT):
                        ytdlp(F, "yt-dlp", texts(member(prog, c, "args")), bool(audio), fmt, loc)
        sp = impl(prog, "SpawnCommand", "spawn", YT)
        for st, r in execute(F, prog, sp, [v], None, [Texts()]):
            for w in st.g.get("log", LOG).args[2:]:
                F.ob("yt-dlp:spawned", text(w.args[3]) == ["yt-dlp"], "spawning does not run the command line", at(prog, sp))
                ytdlp(F, "yt-dlp-spawned", texts(w.args[4]), False, None, at(prog, sp))
    return F.r


def pair(l, a, b):
    return any(l[i:i + 2] == [a, b] for i in range(len(l) - 1))


def frame(F, key, l, extra, loc):
    l = l or []
    F.ob(f"{key}:output", bool(l) and l[-1] == "-" and l.count("-") == 1, "the output argument is not the last one", loc)
    F.ob(f"{key}:input", pair(l, "-i", "pipe:") or pair(l, "-i", "-") or pair(l, "-i", "pipe:0"), "standard input is not read", loc)
    F.ob(f"{key}:audio", pair(l, "-map", "a"), "the audio is not selected", loc)
    F.ob(f"{key}:format", pair(l, "-f", Sym("format")), "the requested format is not used", loc)
    n = len(extra)
    F.ob(f"{key}:extra", l[len(l) - 1 - n:-1] == extra if n else not [x for x in l if isinstance(x, T) and x is not Sym("format")], "extra arguments are not directly before the output argument, in order", loc)


def ytdlp(F, key, l, audio, fmt, loc):
    l = l or []
    F.ob(f"{key}:url", l.count(Sym("url")) == 1, "the URL is not named once", loc)
    for name, ok in (("quiet", "--quiet" in l or "-q" in l), ("no-part", "--no-part" in l), ("no-continue", "--no-continue" in l), ("output", pair(l, "-o", "-"))):
        F.ob(f"{key}:{name}", ok, f"the command line does not say {name}", loc)
    F.ob(f"{key}:audio", ("-x" in l or "--extract-audio" in l) == audio, "the audio flag is not there exactly if requested", loc)
    F.ob(f"{key}:format", pair(l, "-f", fmt) if fmt is not None else "-f" not in l and "--format" not in l, "the format is not there exactly if given", loc)
    F.ob(f"{key}:nothing-else", len(l) == 6 + audio + (2 if fmt is not None else 0), "the command line has other arguments", loc)


def path(F, prog, ty, v, setter, cmd, key):
    b = inherent(prog, ty, setter)
    for u in lines(F, prog, b, [v, Sym("PATH")]):
        for c, old in zip(cmd(u, ty), cmd(v, ty)):
            F.ob(f"{key}:path", text(member(prog, c, "program")) == [Sym("PATH")] and texts(member(prog, c, "args")) == texts(member(prog, old, "args")), "a program path replaces more or less than the program", at(prog, b))
