"""Meaning of calls to code outside the analysed crate (std, tokio, parking_lot, bytes, rangemap, ...).

A model returns the list of successor states.  Effects that properties talk about are reported as events;
everything a call may do that is not modelled is over-approximated (unknown result, clobbered `&mut`)."""
import re
from .terms import *
from . import prover
from .prover import mkmin, mkmax, mksatsub, mkrem

SCOPES = {"timeout", "ruc", "pollsel"}
TAB = {}


def m(*names):
    def d(f):
        for n in names:
            TAB[n] = f
        return f
    return d


_norm = {}


def norm(p):
    r = _norm.get(p)
    if r is not None:
        return r
    out, depth = [], 0
    i = 0
    s = p
    while i < len(s):
        if s.startswith("::<", i) and depth == 0:
            # generic arguments or `<impl ..>`
            j, d = i + 2, 0
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    r = "".join(out)
    _norm[p] = r
    return r


def short(p):
    return "::".join(norm(p).split("::")[-2:])


def outs(eng, st, *alts):
    """alternatives: (value, pre) with pre an optional function that constrains/records on the state"""
    res = []
    n = len(alts)
    from .engine import Infeasible
    for i, (v, pre) in enumerate(alts):
        s = st if i == n - 1 else st.clone()
        try:
            if pre is not None:
                r = pre(s)
                if r is not None:
                    v = r
            res += eng.ret(s, v)
        except Infeasible:
            continue
    return res


def dty(eng, c):
    return eng.prog.types[c.dty] if c.dty is not None else {"k": "?", "s": "?"}


def fresh(eng, st, c=None):
    """an unknown result"""
    sg = False
    if c is not None:
        sg = dty(eng, c)["k"] == "int"
    return Var(signed=sg)


def named(eng, st, tag):
    """a fixed symbol for a value created once, in the straight-line part of a run; a variable in a loop"""
    if st.mode.get("role") == "task":
        return Var()
    return Sym(f"{tag}@{eng.site(st)}")


# ------------------------------------------------------------------------------------- dispatch
IGNORED_MODS = ("tracing::", "log::", "tracing_core::")


def dispatch(eng, st, c):
    f = c.f
    p = c.name
    r = f.get("r")
    for h in eng.monitors:
        x = h.call(eng, st, c)
        if x is not None:
            return x
    if r is not None and f.get("rk") != "virtual" and r in eng.prog.bodies and not eng.opaque(r) and not eng.prog.bodies[r].coroutine:
        return eng.enter(st, r, c.args)
    if not f.get("tr") and p in eng.prog.bodies and not eng.opaque(p):
        return eng.enter(st, p, c.args)
    tr = f.get("tr")
    key = None
    if tr:
        t = tr.split("::")[-1]
        key = t + "." + f["m"]
        # the implementing type may have a more specific model
        self_t = eng.prog.types[f["self"]]["s"] if "self" in f else ""
        sp = norm(eng.prog.types[f["self"]].get("d", "")).split("::")[-1] if "self" in f else ""
        g = TAB.get(sp + "::" + key)
        if g is None:
            g = TAB.get(key)
        if g is not None:
            x = g(eng, st, c)
            if x is not None:
                return x
    else:
        key = short(p)
        g = TAB.get(key)
        if g is not None:
            x = g(eng, st, c)
            if x is not None:
                return x
    if r is not None and r in eng.prog.ext:
        return eng.enter(st, r, c.args)
    if p in eng.prog.ext:
        return eng.enter(st, p, c.args)
    ct = eng.ctor(p)
    if ct is not None:
        return eng.ret(st, Agg(ct[0], ct[1], *c.args))
    return unknown(eng, st, c, key)


PURE_TRAITS = {"SourceStream", "ClientResponse", "ResponseHeaders", "StorageProvider", "ToString", "PartialEq", "PartialOrd", "Display", "Debug", "AsRef", "Borrow", "Error",
               "Client", "RegistryEntry", "Ord"}
PURE = re.compile(r"^(str|String|Url|MediaTypeBuf|HeaderMap|HeaderValue|Metadata|Regex|StatusCode|ExitStatus|Response|Duration|NonZero|Path|OsStr|num|Error|Argument|Arguments|fmt|slice|char|Request|RequestBuilder)::")


def unknown(eng, st, c, key=None):
    key = key or short(c.name)
    types = eng.prog.types
    muts = []
    for i, a in enumerate(c.args):
        ty = None
        if i < len(c.argops):
            o = c.argops[i]
            ty = types[o["p"][2]] if "p" in o and o.get("k") != "fn" else types[o["t"]] if "t" in o else None
        if a.op == "r" and ty is None:
            v = eng.deref(st, a)
            if v.op == "c" or v.op == "f" and v.args[0] == "*" and v.args[1].op == "c":
                continue
        if a.op == "r" and (ty is None or (ty["k"] == "ref" and ty["m"]) or (ty["k"] == "adt" and "Pin" in ty["s"] and "mut" in ty["s"])):
            muts.append(a)
    eng.unknown_calls[key] = eng.unknown_calls.get(key, 0) + 1
    runnable = [a for a in c.args if a.op == "a" and (a.args[0].startswith("closure:") or a.args[0].startswith("co:"))]
    if runnable and not key.startswith(("tracing", "Event")):
        res = []
        for a in runnable:
            n = st.clone()
            v = fresh(eng, n, c)
            fid = eng.push(n, "discard")
            n.store[("l", fid, 0)] = v
            if a.args[0].startswith("co:"):
                pl = ("l", fid, 1)
                n.store[pl] = a
                res += poll_place(eng, n, pl, ())
            else:
                b = eng.prog.bodies.get(a.args[0][8:])
                k = (b.argc - 1) if b else 0
                args = []
                if b is not None:
                    tt = types[b.locals[2][0]] if b.argc >= 2 else None
                    args = [Var() for _ in range(k)]
                x = eng.call_value(n, a, args)
                res += x or []
        v = fresh(eng, st, c)
        return res + eng.ret(st, v)
    for a in muts:
        havoc(eng, st, a)
    t = (c.f.get("tr") or "").split("::")[-1]
    pure = not muts and (c.args and (t in PURE_TRAITS or PURE.match(key)) or eng.opts.get("appall"))
    d = dty(eng, c)
    if pure:
        args = [eng.deref(st, a) for a in c.args]
        v = App(key, *args)
        if d["k"] == "int":
            v.signed = True
    else:
        v = fresh(eng, st, c)
    eng.emit(st, "call", callee=key, args=tuple(c.args), res=v)
    return eng.ret(st, v)


def havoc(eng, st, ref):
    base, proj = ref.args
    try:
        v = eng.load(st, base, proj)
    except Exception:
        return
    eng.set(st, base, proj, havoc_value(v))


def havoc_value(v):
    if v.op == "a" and v.args[0] in ("guard", "tx", "rx"):
        return v
    if v.op in ("v", "s", "o", "p", "f") and not (v.op == "f" and v.args[0] in ("min", "max")):
        return bump(v)
    return Var()


def unknown_callable(eng, st, f, args):
    fv = eng.deref(st, f)
    tup = args
    eng.emit(st, "callback", f=fv, args=tuple(args))
    for a in args:
        pass
    return eng.ret(st, App("ret", fv) if st.mode.get("role") != "task" else Var())


# ------------------------------------------------------------------------------------- continuations
CONT = {}


def cont(n):
    def d(f):
        CONT[n] = f
        return f
    return d


def pseudo(eng, st, e, v):
    kind, data, fid = e[2], e[3], e[1]
    vals = {}
    for k in [k for k in st.store if k[0] == "l" and k[1] == fid]:
        vals[k[2]] = st.store.pop(k)
    return CONT[kind](eng, st, v, data, vals)


@cont("discard")
def _(eng, st, v, data, vals):
    return eng.ret(st, vals[0])


@cont("wrap")
def _(eng, st, v, data, vals):
    return eng.ret(st, {"Some": Some, "Ok": Ok, "Err": Err, "Ready": Ready}[data](v))


@cont("root")
def _(eng, st, v, data, vals):
    """the value returned by an analysed entry point; futures are polled to completion"""
    if v.op == "a" and (v.args[0].startswith("co:") or v.args[0] in ("fut", "timeout", "ruc", "pollfn", "instrumented")):
        base = eng.boxed(st, v).args[0]
        eng.push(st, "rootpoll")
        return poll_value(eng, st, v, base, ())
    return eng.ret(st, v)


@cont("rootpoll")
def _(eng, st, v, data, vals):
    if is_agg(v, POLL, 0):
        return eng.ret(st, v.args[2])
    return []


@cont("poll")
def _(eng, st, v, data, vals):
    return eng.ret(st, Ready(v))


@cont("pollsel")
def _(eng, st, v, data, vals):
    return eng.ret(st, Ready(v))


@cont("task")
def _(eng, st, v, data, vals):
    eng.stats["ends"] += 1
    eng.emit(st, "taskend")
    for mo in eng.monitors:
        mo.end(eng, st, v)
    return []


@cont("timeout")
def _(eng, st, v, data, vals):
    if is_agg(v, POLL, 0):
        eng.emit(st, "timeout_done", dur=vals[0])
        return eng.ret(st, Ready(Ok(v.args[2])))
    n = st.clone()
    return elapsed(eng, n, vals[0]) + eng.ret(st, PENDING)


def elapsed(eng, st, d):
    eng.emit(st, "elapsed", dur=d)
    return eng.ret(st, Ready(Err(Sym("elapsed"))))


@cont("ruc")
def _(eng, st, v, data, vals):
    if is_agg(v, POLL, 0):
        return eng.ret(st, Ready(Some(v.args[2])))
    n = st.clone()
    return cancelled(eng, n, vals[0]) + eng.ret(st, PENDING)


def cancelled(eng, st, tok):
    eng.emit(st, "cancelled", tok=tok)
    return eng.ret(st, Ready(NONE))


@cont("sel")
def _(eng, st, v, data, vals):
    return eng.ret(st, v)


@cont("mapres")
def _(eng, st, v, data, vals):
    return eng.ret(st, v)


def abandon(eng, st, i):
    """the future polled under the pseudo frame i is not resumed any more"""
    e = st.stack[i]
    fid, kind = e[1], e[2]
    vals = {k[2]: v for k, v in st.store.items() if k[0] == "l" and k[1] == fid}
    eng.cut(st, i)
    eng.emit(st, "abandon", how=kind)
    if kind == "timeout":
        return elapsed(eng, st, vals[0])
    if kind == "ruc":
        return cancelled(eng, st, vals[0])
    if kind == "pollsel":
        pl = vals.get(1)
        if pl is not None and pl.op == "r":
            eng.set(st, pl.args[0], pl.args[1], Sym("#pending"))
        return eng.ret(st, PENDING)
    return []


# ------------------------------------------------------------------------------------- futures
def in_select(st):
    for e in reversed(st.stack):
        if e[0] == "p":
            if e[2] in ("timeout", "ruc"):
                continue
            return e[2] == "sel"
    return False


def poll_place(eng, st, base, proj):
    v = eng.load(st, base, proj)
    n = 0
    while v.op == "r" and n < 8:
        base, proj = v.args
        v = eng.load(st, base, proj)
        n += 1
    return poll_value(eng, st, v, base, proj)


def poll_value(eng, st, v, base, proj):
    if v is Sym("#pending"):
        return eng.ret(st, PENDING)
    if v.op == "a":
        nm = v.args[0]
        if nm.startswith("co:"):
            bid = nm[3:]
            if bid not in eng.prog.bodies:
                return opaque_poll(eng, st, v)
            k = "pollsel" if in_select(st) else "poll"
            eng.set(st, base, proj, Sym("#running"))
            fid = eng.push(st, k)
            if k == "pollsel":
                st.store[("l", fid, 1)] = Ref(base, proj)
            return eng.enter(st, bid, [v, Sym("cx")])
        if nm == "timeout":
            fid = eng.push(st, "timeout")
            st.store[("l", fid, 0)] = v.args[2]
            eng.emit(st, "timeout_poll", dur=v.args[2])
            return poll_place(eng, st, base, proj + ((None, 1),))
        if nm == "ruc":
            tok = v.args[2]
            n = st.clone()
            early = cancelled(eng, n, tok)
            fid = eng.push(st, "ruc")
            st.store[("l", fid, 0)] = tok
            return early + poll_place(eng, st, base, proj + ((None, 1),))
        if nm == "pollfn":
            eng.push(st, "sel")
            eng.emit(st, "poll_fn")
            r = eng.call_value(st, Ref(base, proj + ((None, 0),)), [Sym("cx")])
            return r if r is not None else eng.ret(st, Var())
        if nm == "fut":
            kind = v.args[2].args[0]
            return FUT[kind](eng, st, *v.args[3:])
        if nm == "instrumented":
            return poll_place(eng, st, base, proj + ((None, 0),))
    return opaque_poll(eng, st, v)


def Fut(kind, *args):
    return Agg("fut", 0, mk("c", kind), *args)


FUT = {}


def fut(k):
    def d(f):
        FUT[k] = f
        return f
    return d


def pending(eng, st):
    return eng.ret(st.clone(), PENDING)


def opaque_poll(eng, st, v):
    """a future of which nothing is known but its output type"""
    c = eng.curcall
    res = pending(eng, st)
    ty = dty(eng, c) if c is not None else {"s": "", "k": "?"}
    inner = eng.prog.types[ty["a"][0]] if ty.get("a") else None
    out = result_of(eng, st, v, inner)
    return res + outs(eng, st, *[(Ready(x), pre) for x, pre in out])


def result_of(eng, st, v, ty, tag="out"):
    """alternatives for an unknown value of a type (constructors of Result and Option are split)"""
    if v.closed and st.mode.get("role") != "task":
        mkv = lambda s: App(s, v)
    else:
        mkv = lambda s: Var()
    if ty is not None and ty["k"] == "adt" and ty["d"] == RES:
        return [(Ok(mkv("ok")), None), (Err(mkv("err")), None)]
    if ty is not None and ty["k"] == "adt" and ty["d"] == OPT:
        return [(NONE, None), (Some(mkv("some")), None)]
    if ty is not None and ty["k"] == "tuple" and not ty["a"]:
        return [(UNIT, None)]
    return [(mkv(tag), None)]


@fut("ready")
def _(eng, st, x):
    return eng.ret(st, Ready(x))


@fut("pending")
def _(eng, st):
    return eng.ret(st, PENDING)


@fut("yield")
def _(eng, st):
    eng.emit(st, "yield")
    return pending(eng, st) + eng.ret(st, Ready(UNIT))


@fut("cancelled")
def _(eng, st, tok):
    n = st.clone()
    eng.emit(n, "cancel_pending", tok=tok)
    r = eng.ret(n, PENDING)
    eng.emit(st, "cancelled", tok=tok)
    return r + eng.ret(st, Ready(UNIT))


@fut("notified")
def _(eng, st, obj):
    r = pending(eng, st)
    eng.emit(st, "notified", obj=obj)
    return r + eng.ret(st, Ready(UNIT))


@fut("recv")
def _(eng, st, ch):
    r = pending(eng, st)
    if not has_sender(st, ch):
        n = st.clone()
        eng.emit(n, "received", ch=ch, val=NONE)
        r += eng.ret(n, Ready(NONE))
    v = Var()
    eng.emit(st, "received", ch=ch, val=Some(v))
    return r + eng.ret(st, Ready(Some(v)))


def has_sender(st, ch):
    t = Agg("tx", 0, ch)
    for v in st.store.values():
        if v is t or t in subterms(v):
            return True
    return False


@fut("send")
def _(eng, st, ch, v):
    r = pending(eng, st)
    eng.emit(st, "send", ch=ch, val=v)
    return r + outs(eng, st, (Ready(Ok(UNIT)), None), (Ready(Err(v)), None))


RECEIVED = Sym("#received")


def received(eng, st):
    """a chunk.  With the option "stream" it is a part of one symbolic sequence of all received bytes"""
    if not eng.opts.get("stream") or "recv" not in st.g:
        return Var()
    n = Var()
    b = Slice(RECEIVED, st.g["recv"], n)
    st.g["recv"] = add(st.g["recv"], n)
    return b


@fut("next")
def _(eng, st, obj):
    """one item of an opaque stream"""
    r = pending(eng, st)
    n = st.clone()
    eng.emit(n, "chunk", obj=obj, what="end")
    r += eng.ret(n, Ready(NONE))
    n = st.clone()
    e = Var()
    eng.emit(n, "chunk", obj=obj, what="err", val=e)
    r += eng.ret(n, Ready(Some(Err(e))))
    b = received(eng, st)
    eng.emit(st, "chunk", obj=obj, what="ok", val=b)
    return r + eng.ret(st, Ready(Some(Ok(b))))


@fut("try_next")
def _(eng, st, obj):
    r = pending(eng, st)
    n = st.clone()
    eng.emit(n, "chunk", obj=obj, what="end")
    r += eng.ret(n, Ready(Ok(NONE)))
    n = st.clone()
    e = Var()
    eng.emit(n, "chunk", obj=obj, what="err", val=e)
    r += eng.ret(n, Ready(Err(e)))
    b = received(eng, st)
    eng.emit(st, "chunk", obj=obj, what="ok", val=b)
    return r + eng.ret(st, Ready(Ok(Some(b))))


def transport(kind):
    def f(eng, st, obj, *args):
        r = pending(eng, st)
        n = st.clone()
        e = Var()
        eng.emit(n, kind + "_res", obj=obj, ok=False, err=e, args=args)
        r += eng.ret(n, Ready(Err(e)))
        eng.emit(st, kind + "_res", obj=obj, ok=True, args=args)
        return r + eng.ret(st, Ready(Ok(UNIT)))
    return f


for _k in ("seek_range", "reconnect", "on_finish"):
    FUT[_k] = transport(_k)


@m("Future.poll")
def _(eng, st, c):
    eng.curcall = c
    v = c.args[0]
    if v.op == "r":
        return poll_place(eng, st, v.args[0], v.args[1])
    if v.op == "a":
        base = eng.boxed(st, v).args[0]
        return poll_value(eng, st, v, base, ())
    # an opaque pinned pointer
    base, proj = eng.target(st, v)
    return poll_value(eng, st, eng.load(st, base, proj), base, proj)


@m("FutureExt.poll_unpin")
def _(eng, st, c):
    return TAB["Future.poll"](eng, st, c)


def ident0(eng, st, c):
    return eng.ret(st, c.args[0])


for _n in ("Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::get_unchecked_mut", "Pin::get_ref", "Pin::into_inner", "Pin::into_ref",
           "IntoFuture.into_future", "hint::must_use", "Box::pin", "Instrument.instrument", "Instrument.in_current_span", "convert::identity",
           "FutureExt.boxed", "FutureExt.boxed_local", "panic::AssertUnwindSafe", "Box::into_inner", "mem::ManuallyDrop", "Ref::map", "hint::black_box",
           "Bytes::from_static", "Vec::into_boxed_slice", "String::into_boxed_str", "String::into_bytes", "String::as_bytes", "str::as_bytes"):
    TAB[_n] = ident0


@m("Pin::as_mut", "Pin::as_ref", "Pin::as_deref_mut")
def _(eng, st, c):
    v = c.args[0]
    if v.op == "r":
        w = eng.load(st, *v.args)
        if w.op == "r":
            return eng.ret(st, w)
        if w.op == "a" or w.op in ("o",):
            return eng.ret(st, v)
        return eng.ret(st, w if w.op in ("s", "p", "f", "v") else v)
    return eng.ret(st, v)


@m("Pin::set")
def _(eng, st, c):
    return eng.ret(st, UNIT)


@m("future::get_context", "support::poll_budget_available")
def _(eng, st, c):
    if c.name.endswith("poll_budget_available"):
        return eng.ret(st.clone(), PENDING) + eng.ret(st, Ready(UNIT))
    return eng.ret(st, Sym("cx"))


@m("support::thread_rng_n")
def _(eng, st, c):
    n = c.args[0]
    k = n.args[0] if n.op == "c" and isinstance(n.args[0], int) else 0
    if 0 < k <= 6:
        return outs(eng, st, *[(C(i), None) for i in range(k)])
    return eng.ret(st, Var())


@m("future::poll_fn")
def _(eng, st, c):
    return eng.ret(st, Agg("pollfn", 0, c.args[0]))


@m("future::ready", "future::ok", "future::err")
def _(eng, st, c):
    x = c.args[0]
    if c.name.endswith("::ok"):
        x = Ok(x)
    if c.name.endswith("::err"):
        x = Err(x)
    return eng.ret(st, Fut("ready", x))


@m("future::pending")
def _(eng, st, c):
    return eng.ret(st, Fut("pending"))


@m("task::yield_now", "yield_now::yield_now")
def _(eng, st, c):
    return eng.ret(st, Fut("yield"))


@m("time::timeout", "timeout::timeout")
def _(eng, st, c):
    return eng.ret(st, Agg("timeout", 0, c.args[0], c.args[1]))


@m("time::sleep", "sleep::sleep")
def _(eng, st, c):
    return eng.ret(st, Fut("sleep", c.args[0]))


@fut("sleep")
def _(eng, st, d):
    r = pending(eng, st)
    eng.emit(st, "slept", dur=d)
    return r + eng.ret(st, Ready(UNIT))


@m("tokio::spawn", "task::spawn", "spawn::spawn", "Handle::spawn", "JoinSet::spawn")
def _(eng, st, c):
    f = c.args[-1]
    eng.emit(st, "spawn", f=f)
    if eng.opts.get("notask"):
        return eng.ret(st, named(eng, st, "joinhandle"))
    n = st.clone()
    n.mode["role"] = "task"
    n.mode["spawned"] = 1
    for k in [k for k in n.store if k[0] == "l"]:
        del n.store[k]
    n.stack = ()
    fid = eng.push(n, "task")
    base = ("l", fid, 7)
    n.store[base] = f
    eng.emit(n, "taskstart")
    r = poll_task(eng, n, base)
    return r + eng.ret(st, named(eng, st, "joinhandle"))


def poll_task(eng, n, base):
    v = n.store[base]
    if v.op == "a" and v.args[0].startswith("co:") and v.args[0][3:] in eng.prog.bodies:
        n.store.pop(base)
        return eng.enter(n, v.args[0][3:], [v, Sym("cx")])
    eng.push(n, "mapres")
    return poll_value(eng, n, v, base, ())


# ------------------------------------------------------------------------------------- cancellation, channels
@m("CancellationToken::new", "CancellationToken::default")
def _(eng, st, c):
    return eng.ret(st, named(eng, st, "token"))


@m("CancellationToken::child_token")
def _(eng, st, c):
    return eng.ret(st, App("child", eng.deref(st, c.args[0])))


@m("CancellationToken::cancel")
def _(eng, st, c):
    eng.emit(st, "cancel", tok=eng.deref(st, c.args[0]))
    return eng.ret(st, UNIT)


@m("CancellationToken::is_cancelled")
def _(eng, st, c):
    tok = eng.deref(st, c.args[0])
    n = st.clone()
    eng.emit(n, "cancelled", tok=tok)
    return eng.ret(n, TRUE) + eng.ret(st, FALSE)


@m("CancellationToken::cancelled", "CancellationToken::cancelled_owned")
def _(eng, st, c):
    return eng.ret(st, Fut("cancelled", eng.deref(st, c.args[0])))


@m("CancellationToken::run_until_cancelled", "CancellationToken::run_until_cancelled_owned")
def _(eng, st, c):
    return eng.ret(st, Agg("ruc", 0, eng.deref(st, c.args[0]), c.args[1]))


@m("CancellationToken::drop_guard")
def _(eng, st, c):
    return eng.ret(st, Agg("guard", 0, App("dropguard", c.args[0]), c.args[0], mk("c", "cancel")))


@m("mpsc::channel", "mpsc::unbounded_channel")
def _(eng, st, c):
    ch = named(eng, st, "chan")
    if c.args:
        st.facts[App("chancap", ch, c.args[0])] = 1
    return eng.ret(st, Tup(Agg("tx", 0, ch), Agg("rx", 0, ch)))


def chan(eng, st, v):
    w = eng.deref(st, v)
    return w.args[2] if w.op == "a" and w.args[0] in ("tx", "rx") else ident(w)


@m("Receiver::recv", "UnboundedReceiver::recv")
def _(eng, st, c):
    return eng.ret(st, Fut("recv", chan(eng, st, c.args[0])))


@m("Receiver::try_recv")
def _(eng, st, c):
    ch = chan(eng, st, c.args[0])
    n = st.clone()
    v = Var()
    eng.emit(n, "received", ch=ch, val=Some(v))
    return eng.ret(n, Ok(v)) + eng.ret(st, Err(Var()))


@m("Sender::try_send", "UnboundedSender::send")
def _(eng, st, c):
    ch = chan(eng, st, c.args[0])
    eng.emit(st, "send", ch=ch, val=c.args[1])
    return outs(eng, st, (Ok(UNIT), None), (Err(Var()), None))


@m("Sender::blocking_send")
def _(eng, st, c):
    ch = chan(eng, st, c.args[0])
    eng.emit(st, "send", ch=ch, val=c.args[1])
    eng.emit(st, "block", what="send")
    return outs(eng, st, (Ok(UNIT), None), (Err(Var()), None))


@m("Sender::send")
def _(eng, st, c):
    return eng.ret(st, Fut("send", chan(eng, st, c.args[0]), c.args[1]))


@m("Notify::notified", "Notify::notified_owned")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    eng.emit(st, "notified_req", obj=o)
    return eng.ret(st, Fut("notified", o))


@m("Notify::notify_one", "Notify::notify_waiters", "Notify::notify_last")
def _(eng, st, c):
    eng.emit(st, "notify", obj=place_id(eng, st, c.args[0]), how=c.f["m"])
    return eng.ret(st, UNIT)


# ------------------------------------------------------------------------------------- shared ownership
def alloc(eng, st, v, tag="arc"):
    a = named(eng, st, tag)
    if a.op == "v":
        a = Sym(f"{tag}@{eng.site(st)}")
    st.store[("h", a)] = v
    return a


@m("Arc::new", "Rc::new", "Arc::from")
def _(eng, st, c):
    return eng.ret(st, alloc(eng, st, c.args[0]))


@m("Default.default", "Arc::default")
def _(eng, st, c):
    f = c.f
    t = eng.prog.types[f["self"]] if "self" in f else dty(eng, c)
    return eng.ret(st, default_of(eng, st, t))


def default_of(eng, st, t):
    k = t["k"]
    if k == "bool":
        return FALSE
    if k in ("int", "uint"):
        return ZERO
    if k == "tuple":
        return Tup(*[default_of(eng, st, eng.prog.types[x]) for x in t["a"]])
    if k == "adt":
        d = t["d"].split("::")[-1]
        if d == "Option":
            return NONE
        if d == "String":
            return mk("c", "str:")
        if d in ("Arc", "Rc"):
            a = alloc(eng, st, UNIT)
            st.store[("h", a)] = default_of(eng, st, eng.prog.types[t["a"][0]])
            return a
        if d in ("AssertUnwindSafe",):
            return Agg(t["d"], 0, default_of(eng, st, eng.prog.types[t["a"][0]]))
        if d == "Range":
            x = default_of(eng, st, eng.prog.types[t["a"][0]])
            return Agg(t["d"], 0, x, x)
        if d == "CancellationToken":
            return named(eng, st, "token")
        if d in ("Vec", "VecDeque"):
            return Agg("vec", 0)
        if d in ("BytesMut", "Bytes"):
            return Agg("seq", 0)
    return Var()


@m("Arc::clone", "Rc::clone", "Arc::clone_from")
def _(eng, st, c):
    return eng.ret(st, eng.deref(st, c.args[0]))


@m("Arc::as_ptr", "Arc::as_ref")
def _(eng, st, c):
    return eng.ret(st, pointee(eng, st, c.args[0]))


@m("Arc::ptr_eq")
def _(eng, st, c):
    a, b = eng.deref(st, c.args[0]), eng.deref(st, c.args[1])
    return eng.ret(st, eng.mkeq(a, b))


@m("Arc::downgrade", "Weak::upgrade")
def _(eng, st, c):
    return eng.ret(st, Var())


def pointee(eng, st, ref):
    """&T from a reference to a smart pointer"""
    v = eng.load(st, *ref.args) if ref.op == "r" else ref
    n = 0
    while v.op == "r" and n < 4:
        v = eng.load(st, *v.args)
        n += 1
    return Ref(("h", v), ())


SMART = {"Arc", "Rc"}


@m("Deref.deref", "DerefMut.deref_mut", "AsRef.as_ref", "AsMut.as_mut", "Borrow.borrow", "BorrowMut.borrow_mut")
def _(eng, st, c):
    v = c.args[0]
    f = c.f
    t = eng.prog.types[f["self"]] if "self" in f else {"k": "?", "s": ""}
    d = t.get("d", "").split("::")[-1] if t["k"] == "adt" else ""
    if d in SMART:
        return eng.ret(st, pointee(eng, st, v))
    w = eng.load(st, *v.args) if v.op == "r" else v
    if d in ("AssertUnwindSafe",):
        if v.op == "r":
            return eng.ret(st, Ref(v.args[0], v.args[1] + ((None, 0),)))
        return eng.ret(st, get_field(v, (None, 0)))
    if w.op == "a" and w.args[0] == "guard":
        return eng.ret(st, w.args[3])
    if d == "Pin":
        x = w
        return eng.ret(st, x if x.op == "r" else v)
    if d == "LazyLock":
        return eng.ret(st, App("lazy", eng.deref(st, v)))
    # Box, String, Vec, Bytes, ...: a view of the same value
    return eng.ret(st, v)


@m("Clone.clone", "ToOwned.to_owned", "Clone.clone_from", "ToString.to_string", "Option::cloned!", "slice::to_vec", "str::to_owned", "str::to_string", "slice::to_owned")
def _(eng, st, c):
    f = c.f
    if f.get("m") == "clone_from":
        return None
    v = eng.deref(st, c.args[0])
    if f.get("m") == "to_string" and not (v.op == "c" and isinstance(v.args[0], str)):
        t = eng.prog.types[f["self"]] if "self" in f else None
        if t is None or not (t["k"] == "str" or t["s"].endswith("String")):
            v = App("disp", v)
    if v.op in ("v", "p", "o", "s", "c", "b", "l", "f", "sl", "fn"):
        if v.op == "o":
            v = v
        return eng.ret(st, v)
    if v.op == "a":
        # only structures with local Clone implementations would differ, and those are entered
        return eng.ret(st, v)
    return eng.ret(st, v)


# ------------------------------------------------------------------------------------- locks
def place_id(eng, st, ref):
    n = 0
    v = ref
    while v.op == "r":
        w = st.store.get(v.args[0])
        base, proj = v.args
        # follow references to references
        try:
            x = eng.load(st, base, proj)
        except Exception:
            x = None
        if x is not None and x.op == "r" and n < 8:
            v = x
            n += 1
            continue
        if base[0] == "h":
            return App("at", base[1], *[mk("c", str(p)) for p in proj])
        return App("at", mk("c", str(base)), *[mk("c", str(p)) for p in proj])
    return App("at", ident(v))


def lock(kind):
    def f(eng, st, c):
        lid = place_id(eng, st, c.args[0])
        inner = App("in", lid)
        eng.emit(st, "lock", lock=lid, how=kind)
        base = ("h", inner)
        if base in st.store and not eng.opts.get("lock_stable"):
            del st.store[base]
        if base not in st.store:
            st.store[base] = Var()
        for mo in eng.monitors:
            mo.locked(eng, st, lid, base)
        g = Agg("guard", 0, lid, Ref(base, ()), mk("c", kind))
        name = c.f.get("m", "")
        if name.startswith("try_"):
            n = st.clone()
            eng.emit(n, "unlock", lock=lid, how=kind)
            return eng.ret(n, NONE) + eng.ret(st, Some(g))
        p = c.name
        if p.startswith("std::sync::") and not p.startswith("std::sync::nonpoison"):
            return eng.ret(st, Ok(g))
        return eng.ret(st, g)
    return f


for _n in ("Mutex::lock", "Mutex::try_lock", "FairMutex::lock", "ReentrantMutex::lock"):
    TAB[_n] = lock("lock")
for _n in ("RwLock::read", "RwLock::try_read", "RwLock::upgradable_read"):
    TAB[_n] = lock("read")
for _n in ("RwLock::write", "RwLock::try_write"):
    TAB[_n] = lock("write")


@m("Mutex::new", "RwLock::new", "FairMutex::new")
def _(eng, st, c):
    return eng.ret(st, Agg("lock", 0, c.args[0]))


@m("Mutex::get_mut", "RwLock::get_mut", "Mutex::into_inner", "RwLock::into_inner")
def _(eng, st, c):
    return eng.ret(st, Var())


@m("mem::drop", "drop::drop")
def _(eng, st, c):
    eng.drop_value(st, c.args[0])
    return eng.ret(st, UNIT)


@m("MutexGuard::unlock_fair", "RwLockWriteGuard::unlock_fair")
def _(eng, st, c):
    eng.drop_value(st, c.args[0])
    return eng.ret(st, UNIT)


@m("MutexGuard::map", "MutexGuard::unlocked", "MutexGuard::bump")
def _(eng, st, c):
    return None


@m("Condvar::notify_all", "Condvar::notify_one")
def _(eng, st, c):
    eng.emit(st, "cvnotify", cv=place_id(eng, st, c.args[0]), how=c.f["m"])
    return eng.ret(st, TRUE)


def guard_of(eng, st, v):
    w = eng.deref(st, v)
    return w if w.op == "a" and w.args[0] == "guard" else None


def cv_wait(eng, st, cv, g):
    """blocks once; the contents of the lock are unknown afterwards"""
    lid = g.args[2]
    base = g.args[3].args[0]
    eng.emit(st, "cvwait", cv=cv, lock=lid, contents=eng.load(st, base, ()))
    st.store[base] = Var()
    for mo in eng.monitors:
        mo.locked(eng, st, lid, base)
    eng.emit(st, "cvwoken", cv=cv, lock=lid)


@m("Condvar::wait", "Condvar::wait_for", "Condvar::wait_until")
def _(eng, st, c):
    g = guard_of(eng, st, c.args[1])
    if g is None:
        eng.emit(st, "block", what="condvar")
        return eng.ret(st, Var())
    cv_wait(eng, st, place_id(eng, st, c.args[0]), g)
    if c.name.startswith("std::"):
        return eng.ret(st, Ok(c.args[1]))
    return eng.ret(st, Var())


@m("Condvar::wait_while", "Condvar::wait_while_for", "Condvar::wait_while_until", "Condvar::wait_timeout_while")
def _(eng, st, c):
    g = guard_of(eng, st, c.args[1])
    if g is None:
        eng.emit(st, "block", what="condvar")
        return eng.ret(st, Var())
    fid = eng.push(st, "cvw", (c.name.startswith("std::"), "_for" in c.name or "timeout" in c.name or "_until" in c.name))
    st.store[("l", fid, 0)] = c.args[1] if not c.name.startswith("std::") else g
    st.store[("l", fid, 1)] = c.args[2]
    st.store[("l", fid, 2)] = place_id(eng, st, c.args[0])
    st.store[("l", fid, 3)] = g
    return eng.call_value(st, Ref(("l", fid, 1), ()), [g.args[3]])


@cont("cvw")
def _(eng, st, v, data, vals):
    from .engine import Infeasible
    out = []
    n = st.clone()
    try:
        eng.assume(n, v, False)
        out += eng.ret(n, Ok(vals[3]) if data[0] else Var())
    except Infeasible:
        pass
    try:
        eng.assume(st, v, True)
        cv_wait(eng, st, vals[2], vals[3])
        fid = eng.push(st, "cvw2", data)
        for k, x in vals.items():
            st.store[("l", fid, k)] = x
        out += eng.call_value(st, Ref(("l", fid, 1), ()), [vals[3].args[3]])
    except Infeasible:
        pass
    return out


@cont("cvw2")
def _(eng, st, v, data, vals):
    from .engine import Infeasible
    if data[1]:
        return eng.ret(st, Ok(vals[3]) if data[0] else Var())
    try:
        eng.assume(st, v, False)
    except Infeasible:
        return []
    return eng.ret(st, Ok(vals[3]) if data[0] else Var())


# ------------------------------------------------------------------------------------- atomics
@m("Atomic::new", "AtomicBool::new", "AtomicI64::new", "AtomicUsize::new", "AtomicU64::new")
def _(eng, st, c):
    return eng.ret(st, Agg("atomic", 0, c.args[0]))


def atom(eng, st, o, signed=False):
    """the tracked value of an atomic; with the option "atoms" every atomic has a symbolic initial value"""
    v = st.g.get(("atom", o))
    if v is None and eng.opts.get("atoms") and not signed:
        v = st.g[("atom", o)] = App("initially", o)
    return v


@m("Atomic::load", "AtomicBool::load", "AtomicUsize::load", "AtomicI64::load", "AtomicU64::load")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    t = dty(eng, c)
    if t["k"] == "bool":
        n = st.clone()
        eng.emit(n, "aload", obj=o, val=TRUE)
        r = eng.ret(n, TRUE)
        eng.emit(st, "aload", obj=o, val=FALSE)
        return r + eng.ret(st, FALSE)
    v = atom(eng, st, o, t["k"] == "int")
    if v is None:
        v = Var(signed=t["k"] == "int")
    eng.emit(st, "aload", obj=o, val=v)
    sts = [st]
    for mon in eng.monitors:
        if hasattr(mon, "split"):
            sts = [x for s in sts for x in mon.split(eng, s, o, v)]
    return [x for s in sts for x in eng.ret(s, v)]


@m("Atomic::store", "AtomicBool::store", "AtomicUsize::store", "AtomicI64::store", "AtomicU64::store")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    eng.emit(st, "astore", obj=o, val=c.args[1])
    atom(eng, st, o, c.args[1].op == "c" and c.args[1] in (TRUE, FALSE))
    if ("atom", o) in st.g:
        st.g[("atom", o)] = c.args[1]
    return eng.ret(st, UNIT)


@m("Atomic::swap", "Atomic::fetch_or", "Atomic::fetch_and")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    t = dty(eng, c)
    new = c.args[1]
    if c.f["m"] == "fetch_or" and new is not TRUE or c.f["m"] == "fetch_and" and new is not FALSE:
        new = Var()
    if t["k"] == "bool":
        n = st.clone()
        eng.emit(n, "aswap", obj=o, old=TRUE, val=new)
        r = eng.ret(n, TRUE)
        eng.emit(st, "aswap", obj=o, old=FALSE, val=new)
        return r + eng.ret(st, FALSE)
    v = st.g.get(("atom", o), None) or Var(signed=t["k"] == "int")
    eng.emit(st, "aswap", obj=o, old=v, val=new)
    if ("atom", o) in st.g:
        st.g[("atom", o)] = new
    return eng.ret(st, v)


@m("Atomic::compare_exchange", "Atomic::compare_exchange_weak", "Atomic::compare_and_swap")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    n = st.clone()
    eng.emit(n, "aswap", obj=o, old=c.args[1], val=c.args[2])
    if ("atom", o) in n.g:
        n.g[("atom", o)] = c.args[2]
    r = eng.ret(n, Ok(c.args[1]))
    old = Var()
    if c.args[1] in (TRUE, FALSE) and c.f["m"] == "compare_exchange":
        old = FALSE if c.args[1] is TRUE else TRUE
    eng.emit(st, "aload", obj=o, val=old)
    return r + eng.ret(st, Err(old))


@m("Atomic::fetch_add", "Atomic::fetch_max", "Atomic::fetch_sub", "Atomic::fetch_min")
def _(eng, st, c):
    o = place_id(eng, st, c.args[0])
    old = atom(eng, st, o, dty(eng, c)["k"] == "int") or Var()
    k = c.f["m"]
    new = {"fetch_add": add, "fetch_sub": sub, "fetch_max": mkmax, "fetch_min": mkmin}[k](old, c.args[1])
    eng.emit(st, "aswap", obj=o, old=old, val=new)
    if ("atom", o) in st.g:
        st.g[("atom", o)] = new
    return eng.ret(st, old)


# ------------------------------------------------------------------------------------- range set
def Range(a, b):
    return Agg("std::ops::Range", 0, a, b)


def rs_id(eng, st, ref):
    return place_id(eng, st, ref)


def cover(eng, st, a, b):
    """records that all positions of [a, b) are available"""
    if eng.le(st, b, a):
        return
    st.facts[App("cov", a, b)] = 1


def covered(eng, st, a, b, fuel=3):
    """is every position of [a, b) known to be available?"""
    if eng.le(st, b, a):
        return True
    if fuel == 0:
        return False
    for t, v in list(st.facts.items()):
        if v and t.op == "f" and t.args[0] == "cov":
            x, y = t.args[1], t.args[2]
            if eng.le(st, x, a) and (eng.lt(st, a, y) or fuel == 3):
                if eng.le(st, b, y):
                    return True
                if eng.lt(st, a, y) and covered(eng, st, y, b, fuel - 1):
                    return True
    return False


@m("RangeSet::new")
def _(eng, st, c):
    return eng.ret(st, Agg("rangeset", 0))


@m("RangeSet::insert")
def _(eng, st, c):
    r = c.args[1]
    a, b = get_field(r, (None, 0)), get_field(r, (None, 1))
    eng.emit(st, "announce", start=a, end=b, set=rs_id(eng, st, c.args[0]), ok=eng.lt(st, a, b))
    cover(eng, st, a, b)
    return eng.ret(st, UNIT)


@m("RangeSet::get")
def _(eng, st, c):
    k = eng.deref(st, c.args[1])
    n = st.clone()
    r = eng.ret(n, NONE)
    a, b = Var(), Var()
    eng.add_ineq(st, sub(a, k))
    eng.add_ineq(st, add(sub(k, b), C(1)))
    cover(eng, st, a, b)
    ref = eng.boxed(st, Range(a, b))
    return r + eng.ret(st, Some(ref))


@m("RangeSet::contains")
def _(eng, st, c):
    k = eng.deref(st, c.args[1])
    n = st.clone()
    r = eng.ret(n, FALSE)
    cover(eng, st, k, add(k, C(1)))
    return r + eng.ret(st, TRUE)


@m("RangeSet::last", "RangeSet::first")
def _(eng, st, c):
    last = c.f["m"] == "last"
    n = st.clone()
    if last:
        eng.emit(n, "last", end=ZERO)
    r = eng.ret(n, NONE)
    a, b = Var(), Var()
    eng.add_ineq(st, add(sub(a, b), C(1)))
    cover(eng, st, a, b)
    if last:
        eng.emit(st, "last", end=b)
    return r + eng.ret(st, Some(eng.boxed(st, Range(a, b))))


@m("RangeSet::gaps")
def _(eng, st, c):
    return eng.ret(st, Agg("gaps", 0, eng.deref(st, c.args[1]), ZERO))


@m("RangeSet::remove", "RangeSet::clear")
def _(eng, st, c):
    eng.emit(st, "unannounce", how=c.f["m"])
    st.facts = {k: v for k, v in st.facts.items() if not (k.op == "f" and k.args[0] == "cov")}
    return eng.ret(st, UNIT)


@m("RangeSet::is_empty")
def _(eng, st, c):
    return eng.ret(st, Var())


def gaps_next(eng, st, place, v):
    rng, started = v.args[2], v.args[3]
    a, b = get_field(rng, (None, 0)), get_field(rng, (None, 1))
    from .engine import Infeasible
    r = []
    n = st.clone()
    cover(eng, n, a, b)
    eng.emit(n, "nogap", start=a, end=b)
    try:
        r += eng.ret(n, NONE)
    except Infeasible:
        pass
    g1, g2 = Var(), Var()
    try:
        eng.add_ineq(st, sub(a, g1))
        eng.add_ineq(st, add(sub(g1, g2), C(1)))
        eng.add_ineq(st, sub(g2, b))
        cover(eng, st, a, g1)
        st.facts[App("gap", g1, g2)] = 1
        eng.emit(st, "gap", start=g1, end=g2)
        eng.set(st, place.args[0], place.args[1], Agg("gaps", 0, Range(g2, b), C(1)))
        r += eng.ret(st, Some(Range(g1, g2)))
    except Infeasible:
        pass
    return r


# ------------------------------------------------------------------------------------- iterators
@m("IntoIterator.into_iter", "slice::iter", "slice::iter_mut", "Vec::drain", "Iterator.by_ref", "Iterator.fuse", "Iterator.copied", "Iterator.cloned")
def _(eng, st, c):
    v = c.args[0]
    w = eng.deref(st, v)
    mth = c.f.get("m")
    if mth in ("by_ref",):
        return eng.ret(st, v)
    if w.op == "a" and w.args[0] in ("std::ops::Range", "gaps", "iter", "adapt"):
        return eng.ret(st, w)
    byref = v.op == "r" and mth != "drain"
    mutable = c.f.get("m") == "iter_mut" or ("&'a mut" in (c.f.get("r") or ""))
    return eng.ret(st, Agg("iter", 0, v if byref else w, C("mut" if mutable else ("ref" if byref else "val")), C("fwd"), ZERO))


@m("RangeSet::iter", "Vec::iter", "RangeSet::into_iter", "HashMap::iter", "VecDeque::iter")
def _(eng, st, c):
    return TAB["slice::iter"](eng, st, c)


@m("Iterator.rev")
def _(eng, st, c):
    w = c.args[0]
    if w.op == "a" and w.args[0] == "iter":
        return eng.ret(st, Agg("iter", 0, w.args[2], w.args[3], C("bwd" if w.args[4] is C("fwd") else "fwd"), w.args[5]))
    return eng.ret(st, Agg("adapt", 0, mk("c", "rev"), w, UNIT))


@m("Iterator.filter_map", "Iterator.map", "Iterator.filter", "Iterator.take_while", "Iterator.map_while", "Iterator.inspect", "Iterator.enumerate", "Iterator.skip", "Iterator.take", "Iterator.chain", "Iterator.zip", "Iterator.flat_map", "Iterator.skip_while")
def _(eng, st, c):
    return eng.ret(st, Agg("adapt", 0, mk("c", c.f["m"]), c.args[0], c.args[1] if len(c.args) > 1 else ZERO if eng.opts.get("exact") and c.f["m"] == "enumerate" else UNIT))


def concrete(eng, st, w, fuel=8):
    """whether the elements an iterator yields are known one by one (only where paths are explored exactly)"""
    w = eng.deref(st, w)
    if not eng.opts.get("exact") or w.op != "a" or not fuel:
        return False
    if w.args[0] == "iter":
        src = eng.deref(st, w.args[2])
        return src.op == "a" and src.args[0] in ("vec", "[]") and w.args[5].op == "c"
    return w.args[0] == "adapt" and w.args[2].args[0] in ("map", "filter", "filter_map", "enumerate", "inspect") and concrete(eng, st, w.args[3], fuel - 1)


def again(eng, st, ref):
    """the next element of an iterator whose elements are known"""
    base, proj = ref.args
    w = eng.load(st, base, proj)
    while w.op == "r":
        base, proj = w.args
        w = eng.load(st, base, proj)
    return iter_next(eng, st, base, proj, w)


def collecting(eng, st, it, target, items=()):
    """runs an iterator whose elements are known to its end"""
    ref = it if it.op == "r" else eng.boxed(st, it)
    fid = eng.push(st, "itcollect", target)
    st.store[("l", fid, 0)] = ref
    st.store[("l", fid, 1)] = Agg("vec", 0, *items)
    return again(eng, st, ref)


@cont("itcollect")
def _(eng, st, v, data, vals):
    if is_agg(v, OPT, 0):
        if data is None:
            return eng.ret(st, vals[1])
        base, proj = data.args
        w = eng.load(st, base, proj)
        eng.set(st, base, proj, Agg("vec", 0, *w.args[2:], *vals[1].args[2:]))
        return eng.ret(st, UNIT)
    x = v.args[2] if v.op == "a" else get_field(v, (1, 0))
    return collecting(eng, st, vals[0], data, vals[1].args[2:] + (x,))



@m("Iterator.next", "DoubleEndedIterator.next_back")
def _(eng, st, c):
    v = c.args[0]
    if v.op != "r":
        return unknown(eng, st, c, "Iterator.next")
    base, proj = v.args
    w = eng.load(st, base, proj)
    n = 0
    while w.op == "r" and n < 4:
        base, proj = w.args
        w = eng.load(st, base, proj)
        n += 1
    return iter_next(eng, st, base, proj, w, c)


def iter_next(eng, st, base, proj, w, c=None):
    from .engine import Infeasible
    if w.op == "a" and w.args[0] == "std::ops::Range":
        a, b = w.args[2], w.args[3]
        r = []
        n = st.clone()
        try:
            eng.assume(n, eng.cmp("Ge", a, b), True)
            r += eng.ret(n, NONE)
        except Infeasible:
            pass
        try:
            eng.assume(st, eng.cmp("Lt", a, b), True)
            eng.set(st, base, proj, Range(add(a, C(1)), b))
            r += eng.ret(st, Some(a))
        except Infeasible:
            pass
        return r
    if w.op == "a" and w.args[0] == "gaps":
        return gaps_next(eng, st, Ref(base, proj), w)
    if w.op == "a" and w.args[0] == "iter":
        src = eng.deref(st, w.args[2])
        if src.op == "a" and src.args[0] in ("vec", "[]"):
            i = w.args[5]
            if i.op == "c":
                k = i.args[0]
                items = src.args[2:]
                if k >= len(items):
                    return eng.ret(st, NONE)
                el = items[k] if w.args[4] is C("fwd") else items[len(items) - 1 - k]
                eng.set(st, base, proj, Agg("iter", 0, w.args[2], w.args[3], w.args[4], C(k + 1)))
                idx = k if w.args[4] is C("fwd") else len(items) - 1 - k
                if w.args[2].op == "r":
                    return eng.ret(st, Some(Ref(w.args[2].args[0], w.args[2].args[1] + ((None, idx),))))
                return eng.ret(st, Some(el if w.args[3] is C("val") else eng.boxed(st, el)))
        n = st.clone()
        eng.emit(n, "iter_end", src=ident(src), order=w.args[4].args[0])
        r = eng.ret(n, NONE)
        el = Var()
        eng.emit(st, "iter_next", src=ident(src), order=w.args[4].args[0], elem=el)
        x = el
        if w.args[3] is not C("val"):
            x = eng.boxed(st, el)
        return r + eng.ret(st, Some(x))
    if w.op == "a" and w.args[0] == "adapt":
        fid = eng.push(st, "itnext", (w.args[2].args[0], 0))
        st.store[("l", fid, 0)] = Ref(base, proj + ((None, 2),))
        if w.args[3].op == "r":
            return again(eng, st, w.args[3])
        return iter_next(eng, st, base, proj + ((None, 1),), w.args[3], c)
    if c is None:
        return outs(eng, st, (NONE, None), (Some(Var()), None))
    eng.set(st, base, proj, havoc_value(w))
    n = st.clone()
    eng.emit(n, "iter_end", src=ident(w), order="fwd")
    r = eng.ret(n, NONE)
    el = Var()
    eng.emit(st, "iter_next", src=ident(w), order="fwd", elem=el)
    return r + eng.ret(st, Some(el))


@cont("itnext")
def _(eng, st, v, data, vals):
    name, _d = data
    if is_agg(v, OPT, 0):
        return eng.ret(st, NONE)
    x = v.args[2] if v.op == "a" else get_field(v, (1, 0))
    f = vals[0]
    me = Ref(f.args[0], f.args[1][:-1])
    me = me if concrete(eng, st, me) else None
    if name == "enumerate" and me is not None:
        i = eng.load(st, *f.args)
        eng.set(st, *f.args, add(i, C(1)))
        return eng.ret(st, Some(Tup(i, x)))
    if name in ("filter_map", "map_while"):
        eng.push(st, "itfm", (name, me))
        r = eng.call_value(st, f, [x])
        return r if r is not None else eng.ret(st, Var())
    if name == "map":
        eng.push(st, "wrap", "Some")
        r = eng.call_value(st, f, [x])
        return r if r is not None else eng.ret(st, Var())
    if name in ("filter", "take_while", "inspect"):
        fid = eng.push(st, "itfilter", (name, me))
        st.store[("l", fid, 0)] = x
        r = eng.call_value(st, f, [eng.boxed(st, x)])
        return r if r is not None else eng.ret(st, Var())
    if name == "enumerate":
        return eng.ret(st, Some(Tup(Var(), x)))
    if name in ("rev", "skip", "take", "chain"):
        return eng.ret(st, Some(x))
    return eng.ret(st, Some(Var()))


@cont("itfm")
def _(eng, st, v, data, vals):
    # None: the iterator goes on with the next element, which is covered by ending here or by another element
    name, me = data
    if me is not None and name == "filter_map":
        from .engine import Infeasible
        r = []
        try:
            n = st.clone()
            eng.assume_variant(n, v, 0)
            r += again(eng, n, me)
        except Infeasible:
            pass
        try:
            eng.assume_variant(st, v, 1)
            r += eng.ret(st, v)
        except Infeasible:
            pass
        return r
    return eng.ret(st, v)


@cont("itfilter")
def _(eng, st, v, data, vals):
    from .engine import Infeasible
    x = vals[0]
    name, me = data
    if name == "inspect":
        return eng.ret(st, Some(x))
    r = []
    n = st.clone()
    try:
        eng.assume(n, v, False)
        r += again(eng, n, me) if me is not None and name == "filter" else eng.ret(n, NONE)
    except Infeasible:
        pass
    try:
        eng.assume(st, v, True)
        r += eng.ret(st, Some(x))
    except Infeasible:
        pass
    return r


@m("Iterator.any", "Iterator.all", "Iterator.find", "Iterator.find_map", "Iterator.position", "Iterator.for_each", "Iterator.fold", "Iterator.try_for_each", "Iterator.try_fold", "Iterator.count", "Iterator.last", "Iterator.sum", "Iterator.max_by_key", "Iterator.min_by_key", "Iterator.collect", "Iterator.max", "Iterator.min", "Iterator.nth")
def _(eng, st, c):
    mth = c.f["m"]
    it = c.args[0]
    if it.op == "r":
        base, proj = it.args
    else:
        base, proj = eng.boxed(st, it).args[0], ()
    w = eng.load(st, base, proj)
    if mth in ("find", "find_map", "any", "all", "position", "for_each", "try_for_each"):
        known = Ref(base, proj) if concrete(eng, st, w) else None
        fid = eng.push(st, "itfind", (mth, known, 0))
        st.store[("l", fid, 0)] = c.args[1]
        return iter_next(eng, st, base, proj, w, c)
    if mth == "collect" and concrete(eng, st, w) and (dty(eng, c)["s"].startswith(("std::vec::Vec<", "std::boxed::Box<[", "std::collections::VecDeque<"))):
        return collecting(eng, st, Ref(base, proj), None)
    if mth == "collect" and w.op == "a" and w.args[0] == "iter":
        src = eng.deref(st, w.args[2])
        if src.op == "a" and src.args[0] in ("vec", "[]") and w.args[5] is ZERO:
            return eng.ret(st, Agg("vec", 0, *src.args[2:]))
        return eng.ret(st, src)
    r = App("iter." + mth, ident(w)) if w.closed else Var()
    eng.emit(st, "call", callee="Iterator." + mth, args=tuple(c.args), res=r)
    return eng.ret(st, r)


@cont("itfind")
def _(eng, st, v, data, vals):
    mth, known, i = data
    none = {"find": NONE, "find_map": NONE, "any": FALSE, "all": TRUE, "position": NONE, "for_each": UNIT, "try_for_each": Ok(UNIT)}[mth]
    if is_agg(v, OPT, 0):
        return eng.ret(st, none)
    x = v.args[2] if v.op == "a" else get_field(v, (1, 0))
    fid = eng.push(st, "itfind2", data)
    st.store[("l", fid, 0)] = x
    st.store[("l", fid, 1)] = vals[0]
    arg = eng.boxed(st, x) if mth == "find" else x
    r = eng.call_value(st, vals[0] if vals[0].op == "r" else Ref(("l", fid, 1), ()), [arg])
    if r is None:
        return eng.ret(st, Var())
    return r


@cont("itfind2")
def _(eng, st, v, data, vals):
    """without knowing the elements, one arbitrary element stands for those that were looked at"""
    from .engine import Infeasible
    mth, known, i = data
    x = vals[0]

    def on(n):
        fid = eng.push(n, "itfind", (mth, known, i + 1))
        n.store[("l", fid, 0)] = vals[1]
        return again(eng, n, known)

    if mth == "for_each":
        return on(st) if known is not None else eng.ret(st, UNIT)
    if mth in ("find_map", "try_for_each"):
        if known is None:
            return eng.ret(st, v)
        stop = {"find_map": lambda n: eng.assume_variant(n, v, 1), "try_for_each": lambda n: eng.assume_variant(n, v, 1)}[mth]
        more = lambda n: eng.assume_variant(n, v, 0)
        hit = v
    else:
        stop = lambda n: eng.assume(n, v, mth != "all")
        more = lambda n: eng.assume(n, v, mth == "all")
        hit = {"find": Some(x), "any": TRUE, "all": FALSE, "position": Some(C(i) if known is not None else Var())}[mth]
    miss = {"find": NONE, "any": FALSE, "all": TRUE, "position": NONE, "find_map": NONE, "try_for_each": Ok(UNIT)}[mth]
    r = []
    n = st.clone()
    try:
        more(n)
        r += on(n) if known is not None else eng.ret(n, miss)
    except Infeasible:
        pass
    try:
        stop(st)
        r += eng.ret(st, hit)
    except Infeasible:
        pass
    return r

@m("FnOnce.call_once", "FnMut.call_mut", "Fn.call")
def _(eng, st, c):
    tup = c.args[1]
    args = list(tup.args[2:]) if tup.op == "a" else [get_field(tup, (None, 0))]
    f = c.args[0]
    r = eng.call_value(st, f, args)
    if r is not None:
        return r
    return unknown_callable(eng, st, f, args)


@m("LazyLock::new", "OnceLock::new", "Lazy::new")
def _(eng, st, c):
    return eng.ret(st, Sym("lazy:" + show(c.args[0])))


@m("Cell::new", "RefCell::new")
def _(eng, st, c):
    return eng.ret(st, Agg("cell", 0, c.args[0]))


# ------------------------------------------------------------------------------------- numbers
def wide(eng, st, c):
    return eng.ret(st, c.args[0])


@m("Ord.min", "cmp::min")
def _(eng, st, c):
    return eng.ret(st, simp2(eng, st, mkmin, c.args[0], c.args[1]))


@m("Ord.max", "cmp::max")
def _(eng, st, c):
    return eng.ret(st, simp2(eng, st, mkmax, c.args[0], c.args[1]))


def simp2(eng, st, f, a, b):
    if f is mkmin:
        if eng.le(st, a, b):
            return a
        if eng.le(st, b, a):
            return b
    elif f is mkmax:
        if eng.le(st, a, b):
            return b
        if eng.le(st, b, a):
            return a
    elif f is mksatsub:
        if eng.le(st, b, a):
            return sub(a, b)
        if eng.le(st, a, b):
            return ZERO
    return f(a, b)


@m("Ord.clamp")
def _(eng, st, c):
    return eng.ret(st, mkmin(mkmax(c.args[0], c.args[1]), c.args[2]))


@m("num::saturating_sub")
def _(eng, st, c):
    return eng.ret(st, simp2(eng, st, mksatsub, c.args[0], c.args[1]))


@m("num::saturating_add")
def _(eng, st, c):
    # the sum or, above the maximum, a value that no sum of positions exceeds
    return eng.ret(st, App("satadd", c.args[0], c.args[1]) if eng.opts.get("satadd") else add(c.args[0], c.args[1]))


@m("num::wrapping_add", "num::unchecked_add")
def _(eng, st, c):
    return eng.ret(st, App("wrapadd", *c.args))


@m("num::wrapping_sub")
def _(eng, st, c):
    return eng.ret(st, App("wrapsub", *c.args))


@m("num::abs_diff")
def _(eng, st, c):
    a, b = c.args
    if eng.le(st, b, a):
        return eng.ret(st, sub(a, b))
    if eng.le(st, a, b):
        return eng.ret(st, sub(b, a))
    return eng.ret(st, Var())


@m("num::unsigned_abs")
def _(eng, st, c):
    x = c.args[0]
    def neg(n):
        eng.add_ineq(n, add(x, C(1)))
    def pos(n):
        eng.add_ineq(n, scale(x, -1))
    return outs(eng, st, (x, pos), (scale(x, -1), neg))


@m("num::checked_add")
def _(eng, st, c):
    a, b = c.args
    def bad(n):
        n.facts[App("ovf", a, b)] = 1
    return outs(eng, st, (NONE, bad), (Some(add(a, b)), None))


@m("num::checked_add_signed")
def _(eng, st, c):
    a, b = c.args
    s = add(a, b)
    def ok(n):
        eng.add_ineq(n, scale(s, -1))
    def bad(n):
        n.facts[App("ovf", a, b)] = 1
    return outs(eng, st, (NONE, bad), (Some(s), ok))


@m("num::checked_sub")
def _(eng, st, c):
    a, b = c.args
    def none(n):
        eng.add_ineq(n, add(sub(a, b), C(1)))
        n.facts[App("ovf", a, scale(b, -1))] = 1
    def some(n):
        eng.add_ineq(n, sub(b, a))
    return outs(eng, st, (NONE, none), (Some(sub(a, b)), some))


@m("num::checked_mul", "num::checked_div", "num::checked_rem")
def _(eng, st, c):
    return outs(eng, st, (NONE, None), (Some(App(c.f["m"], *c.args)), None))


@m("num::overflowing_add", "num::overflowing_sub")
def _(eng, st, c):
    return eng.ret(st, Tup(Var(), Var()))


@m("num::saturating_add_signed")
def _(eng, st, c):
    a, b = c.args
    s = add(a, b)
    return eng.ret(st, mkmax(s, ZERO))


@m("num::rem_euclid")
def _(eng, st, c):
    return eng.ret(st, mkrem(*c.args))


@m("num::is_power_of_two", "num::pow", "num::leading_zeros")
def _(eng, st, c):
    return eng.ret(st, App(c.f["m"], *c.args))


@m("NonZero::get")
def _(eng, st, c):
    v = eng.deref(st, c.args[0])
    if v.op == "a" and v.args[0] == "nonzero":
        return eng.ret(st, v.args[2])
    t = App("nz", v)
    eng.add_ineq(st, sub(C(1), t))
    return eng.ret(st, t)


@m("NonZero::new", "NonZeroUsize::new", "NonZeroU64::new")
def _(eng, st, c):
    x = c.args[0]
    def z(n):
        eng.add_ineq(n, x)
    def nz(n):
        eng.add_ineq(n, sub(C(1), x))
    return outs(eng, st, (NONE, z), (Some(Agg("nonzero", 0, x)), nz))


@m("TryFrom.try_from", "TryInto.try_into")
def _(eng, st, c):
    f = c.f
    ta = f.get("ta") or []
    ts = [eng.prog.types[x] for x in ta]
    x = c.args[0]
    if len(ts) >= 2 and all(t["k"] in ("int", "uint") for t in ts[:2]):
        a, b = (ts[1], ts[0]) if f["m"] == "try_from" else (ts[0], ts[1])
        if a["k"] == "uint" and b["k"] == "uint" and (b.get("w", 64) >= a.get("w", 64)):
            return eng.ret(st, Ok(x))
        if a["k"] == "int" and b["k"] == "uint":
            def neg(n):
                eng.add_ineq(n, add(x, C(1)))
            def pos(n):
                eng.add_ineq(n, scale(x, -1))
            return outs(eng, st, (Err(Sym("tryfrom")), neg), (Ok(x), pos))
        return outs(eng, st, (Err(Sym("tryfrom")), None), (Ok(x), None))
    if len(ts) >= 2 and "NonZero" in ts[0]["s"] + ts[1]["s"]:
        def z(n):
            eng.add_ineq(n, x)
        def nz(n):
            eng.add_ineq(n, sub(C(1), x))
        return outs(eng, st, (Err(Sym("tryfrom")), z), (Ok(Agg("nonzero", 0, x)), nz))
    v = App("try_into", eng.deref(st, x))
    return outs(eng, st, (Err(App("err", v)), None), (Ok(v), None))


@m("Into.into", "From.from")
def _(eng, st, c):
    f = c.f
    ta = [eng.prog.types[x] for x in (f.get("ta") or [])]
    x = c.args[0]
    src = dst = None
    if len(ta) >= 2:
        src, dst = (ta[0], ta[1]) if f["m"] == "into" else (ta[1], ta[0])
    if dst is not None and src is not None:
        # a local `From` implementation selected by the types
        for b in eng.prog.trait_impls.get(("std::convert::From", "from"), []):
            if b.j.get("impl_self") is not None and b.argc == 1:
                if eng.prog.types[b.j["impl_self"]]["s"] == dst["s"] and eng.prog.types[b.locals[1][0]]["s"] == src["s"]:
                    return eng.enter(st, b.id, [x])
        for b in eng.prog.trait_impls.get(("std::convert::Into", "into"), []):
            if eng.prog.types[b.j["impl_self"]]["s"] == src["s"]:
                return eng.enter(st, b.id, [x])
        if dst["k"] == "adt" and dst["d"] == OPT and not (src["k"] == "adt" and src["d"] == OPT) and src["k"] not in ("param", "alias"):
            return eng.ret(st, Some(x))
        if dst["s"] in ("std::io::Error",) and src["s"] != dst["s"]:
            k, msg = (x, UNIT) if src["s"].endswith("ErrorKind") else (kind_for(src["s"]), x)
            eng.emit(st, "mkerr", val=k)
            return eng.ret(st, App("ioerr", k, msg))
        if src["k"] == "param" or (src["k"] == "alias"):
            return eng.ret(st, App("into", mk("c", dst["s"]), x) if dst["k"] == "adt" and dst["d"] in (OPT,) else x)
        if src["k"] == "bool" and dst["k"] in ("int", "uint"):
            return eng.ret(st, C(x.args[0]) if x.op == "b" else Var())
        if dst["k"] == "adt" and dst["d"].split("::")[-1] == "Arc" and not (src["k"] == "adt" and src["d"] == dst["d"]):
            return eng.ret(st, alloc(eng, st, x))
        if dst["k"] == "adt" and dst["d"] == RES:
            return None
    return eng.ret(st, x)


def kind_for(s):
    if "Elapsed" in s:
        return Sym("kind:TimedOut")
    if "ErrorKind" in s:
        return None or Sym("kind:given")
    return Sym("kind:of:" + s)


@m("PartialEq.eq", "PartialEq.ne")
def _(eng, st, c):
    f = c.f
    r = f.get("r")
    if r in eng.prog.ext:
        t = eng.prog.types[f["self"]] if "self" in f else None
        if t is not None and t["k"] == "adt":
            return None
    a, b = eng.deref(st, c.args[0]), eng.deref(st, c.args[1])
    if a.op == "a" and b.op == "a" and a.args[0] == b.args[0] and len(a.args) == len(b.args) == 2:
        v = B(a.args[1] == b.args[1])
    elif a.op == "a" and len(a.args) == 2 and eng.is_enum(a.args[0]) and b.op != "a":
        v = discr_eq(eng, st, b, a)
    elif b.op == "a" and len(b.args) == 2 and eng.is_enum(b.args[0]) and a.op != "a":
        v = discr_eq(eng, st, a, b)
    else:
        if a.id > b.id:
            a, b = b, a
        if a.op == "sl" or b.op == "sl":
            v = Var()
        else:
            v = eng.mkeq(a, b)
    if f["m"] == "ne":
        v = eng.mknot(v)
    return eng.ret(st, v)


def discr_eq(eng, st, opaque, agg):
    d = eng.discr_of(st, opaque)
    if d is not None:
        return B(d == agg.args[1])
    return eng.mkeq(*sorted((App("discr", opaque), C(agg.args[1])), key=lambda t: t.id))


@m("intrinsics::discriminant_value", "mem::discriminant")
def _(eng, st, c):
    v = eng.deref(st, c.args[0])
    if v.op == "a":
        return eng.ret(st, C(v.args[1]))
    return eng.ret(st, App("discr", v))


@m("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def _(eng, st, c):
    f = c.f
    t = eng.prog.types[f["self"]]["s"] if "self" in f else ""
    if "Level" in t:
        # logging changes nothing of what is decided, except where it evaluates something while a lock is held
        return eng.ret(st, Var() if eng.opts.get("logging") else FALSE)
    a, b = eng.deref(st, c.args[0]), eng.deref(st, c.args[1])
    if eng.numeric(a) and eng.numeric(b):
        return eng.ret(st, eng.cmp(f["m"].capitalize(), a, b))
    return eng.ret(st, App("cmp:" + f["m"], a, b))


@m("Span::is_disabled")
def _(eng, st, c):
    return eng.ret(st, TRUE)


@m("Ord.cmp", "PartialOrd.partial_cmp")
def _(eng, st, c):
    a, b = eng.deref(st, c.args[0]), eng.deref(st, c.args[1])
    O = "std::cmp::Ordering"
    if not (eng.numeric(a) and eng.numeric(b)):
        return None
    w = (lambda x: Some(x)) if c.f["m"] == "partial_cmp" else (lambda x: x)
    return outs(eng, st, (w(Agg(O, 0)), lambda n: eng.assume(n, eng.cmp("Lt", a, b), True)),
                (w(Agg(O, 1)), lambda n: (eng.assume(n, eng.cmp("Le", a, b), True), eng.assume(n, eng.cmp("Ge", a, b), True), None)[2]),
                (w(Agg(O, 2)), lambda n: eng.assume(n, eng.cmp("Gt", a, b), True)))


# ------------------------------------------------------------------------------------- mem
@m("mem::take")
def _(eng, st, c):
    base, proj = eng.target(st, c.args[0]) if c.args[0].op != "r" else c.args[0].args
    v = eng.load(st, base, proj)
    t = dty(eng, c)
    eng.set(st, base, proj, default_of(eng, st, t))
    eng.on_store(st, base, proj, eng.load(st, base, proj), c.line, None)
    return eng.ret(st, v)


@m("mem::replace")
def _(eng, st, c):
    base, proj = eng.target(st, c.args[0]) if c.args[0].op != "r" else c.args[0].args
    v = eng.load(st, base, proj)
    eng.set(st, base, proj, c.args[1])
    eng.on_store(st, base, proj, c.args[1], c.line, None)
    return eng.ret(st, v)


@m("mem::swap")
def _(eng, st, c):
    a = c.args[0].args if c.args[0].op == "r" else eng.target(st, c.args[0])
    b = c.args[1].args if c.args[1].op == "r" else eng.target(st, c.args[1])
    x, y = eng.load(st, *a), eng.load(st, *b)
    eng.set(st, a[0], a[1], y)
    eng.set(st, b[0], b[1], x)
    return eng.ret(st, UNIT)


@m("mem::forget")
def _(eng, st, c):
    return eng.ret(st, UNIT)


@m("Box::new", "Box::from", "Box::leak")
def _(eng, st, c):
    return eng.ret(st, c.args[0])


@m("Box::new_uninit")
def _(eng, st, c):
    v = Var()
    st.store[("h", v)] = Agg("uninit", 0)
    return eng.ret(st, Ref(("h", v), ()))


# ------------------------------------------------------------------------------------- slices and buffers
def bounds_of(eng, st, r, ln):
    """(start, end, must) of a range index value"""
    if r.op != "a":
        return None
    n = r.args[0].split("::")[-1]
    f = r.args[2:]
    if n == "Range":
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], ln
    if n == "RangeTo":
        return ZERO, f[0]
    if n == "RangeFull":
        return ZERO, ln
    if n == "RangeInclusive":
        return f[0], add(f[1], C(1))
    if n == "RangeToInclusive":
        return ZERO, add(f[0], C(1))
    return None


def seq_slice(eng, st, v):
    """views a byte buffer as a slice term"""
    w = eng.deref(st, v)
    if w.op == "sl":
        return w
    if w.op == "a" and w.args[0] == "seq":
        return Slice(concat(list(w.args[2:])), ZERO, seqlen(w.args[2:]))
    if w.op == "a" and w.args[0] in ("[]", "vec"):
        return Slice(w, ZERO, C(len(w.args) - 2))
    if is_membuf(w):
        return Slice(w.args[2], ZERO, w.args[3])
    return Slice(w, ZERO, eng.lenterm(w))


def is_membuf(w):
    """a byte vector of which only the identity and the length matter (option "membuf")"""
    return w.op == "a" and w.args[0] == "membuf"


def seqlen(items):
    r = ZERO
    for s in items:
        r = add(r, s.args[2])
    return r


def concat(items):
    if len(items) == 1:
        pass
    return App("concat", *items)


def whole(items):
    """the slice term of a sequence of slices"""
    items = [i for i in items if i.args[2] is not ZERO]
    if len(items) == 1:
        return items[0]
    return Slice(App("concat", *items), ZERO, seqlen(items))


def subslice(eng, st, c, v, rng):
    s = seq_slice(eng, st, v)
    b = bounds_of(eng, st, rng, s.args[2])
    if b is None:
        return None
    a, e = b
    ok = eng.le(st, a, e) and eng.le(st, e, s.args[2])
    eng.emit(st, "slice", ok=ok, start=a, end=e, len=s.args[2])
    try:
        eng.add_ineq(st, sub(a, e))
        eng.add_ineq(st, sub(e, s.args[2]))
    except Exception as x:
        raise
    return Slice(s.args[0], add(s.args[1], a), sub(e, a))


@m("Index.index", "IndexMut.index_mut", "slice::get_unchecked", "Bytes::slice")
def _(eng, st, c):
    v, i = c.args[0], c.args[1]
    if i.op == "a" and "Range" in i.args[0]:
        r = subslice(eng, st, c, v, i)
        if r is not None:
            return eng.ret(st, r)
        return eng.ret(st, Var())
    s = seq_slice(eng, st, v)
    w = eng.deref(st, v)
    if not eng.numeric(i):
        return eng.ret(st, Var())
    eng.emit(st, "bounds", idx=i, len=s.args[2], ok=eng.lt(st, i, s.args[2]))
    if w.op == "a" and w.args[0] in ("vec", "[]") and i.op == "c" and i.args[0] < len(w.args) - 2:
        if v.op == "r":
            return eng.ret(st, Ref(v.args[0], v.args[1] + ((None, i.args[0]),)))
        return eng.ret(st, eng.boxed(st, w.args[2 + i.args[0]]))
    if v.op == "r":
        return eng.ret(st, Ref(v.args[0], v.args[1] + (("idx", i),)))
    return eng.ret(st, Var())


@m("slice::get", "slice::get_mut")
def _(eng, st, c):
    v, i = c.args[0], c.args[1]
    s = seq_slice(eng, st, v)
    if i.op == "a" and "Range" in i.args[0]:
        b = bounds_of(eng, st, i, s.args[2])
        if b is None:
            return eng.ret(st, Var())
        a, e = b
        out = []
        from .engine import Infeasible
        if not (eng.le(st, a, e) and eng.le(st, e, s.args[2])):
            n = st.clone()
            out += eng.ret(n, NONE)
        try:
            eng.add_ineq(st, sub(a, e))
            eng.add_ineq(st, sub(e, s.args[2]))
            out += eng.ret(st, Some(Slice(s.args[0], add(s.args[1], a), sub(e, a))))
        except Infeasible:
            pass
        return out
    return outs(eng, st, (NONE, None), (Some(Var()), None))


@m("slice::split_at", "slice::split_at_mut")
def _(eng, st, c):
    s = seq_slice(eng, st, c.args[0])
    k = c.args[1]
    eng.emit(st, "slice", ok=eng.le(st, k, s.args[2]), start=ZERO, end=k, len=s.args[2])
    eng.add_ineq(st, sub(k, s.args[2]))
    return eng.ret(st, Tup(Slice(s.args[0], s.args[1], k), Slice(s.args[0], add(s.args[1], k), sub(s.args[2], k))))


@m("slice::split_at_checked", "slice::split_at_mut_checked")
def _(eng, st, c):
    s = seq_slice(eng, st, c.args[0])
    k = c.args[1]
    def no(n):
        eng.add_ineq(n, add(sub(s.args[2], k), C(1)))
    def yes(n):
        eng.add_ineq(n, sub(k, s.args[2]))
    return outs(eng, st, (NONE, no), (Some(Tup(Slice(s.args[0], s.args[1], k), Slice(s.args[0], add(s.args[1], k), sub(s.args[2], k)))), yes))


@m("slice::len", "Vec::len", "Bytes::len", "BytesMut::len", "str::len", "String::len", "Buf.remaining", "VecDeque::len", "ExactSizeIterator.len")
def _(eng, st, c):
    return eng.ret(st, seq_slice(eng, st, c.args[0]).args[2])


@m("slice::is_empty", "Vec::is_empty", "Bytes::is_empty", "BytesMut::is_empty", "str::is_empty", "String::is_empty")
def _(eng, st, c):
    l = seq_slice(eng, st, c.args[0]).args[2]
    return eng.ret(st, eng.mkle0(l))


@m("Buf.has_remaining")
def _(eng, st, c):
    l = seq_slice(eng, st, c.args[0]).args[2]
    return eng.ret(st, eng.mknot(eng.mkle0(l)))


@m("slice::copy_from_slice", "slice::clone_from_slice")
def _(eng, st, c):
    d, s = seq_slice(eng, st, c.args[0]), seq_slice(eng, st, c.args[1])
    same = eng.eq(st, d.args[2], s.args[2])
    eng.emit(st, "copy", dst=d, src=s, ok=same)
    return eng.ret(st, UNIT)


@m("slice::copy_within", "slice::fill", "slice::swap")
def _(eng, st, c):
    eng.emit(st, "bufop", how=c.f["m"], args=tuple(c.args))
    return eng.ret(st, UNIT)


@m("BytesMut::new", "BytesMut::with_capacity", "Bytes::new")
def _(eng, st, c):
    if eng.opts.get("opaque_bytes"):
        return None
    if eng.opts.get("exact") and c.f["m"] == "with_capacity":
        st.g["room"] = c.args[0]
    return eng.ret(st, Agg("seq", 0))


def seq_append(eng, st, ref, data):
    base, proj = ref.args if ref.op == "r" else eng.target(st, ref)
    w = eng.load(st, base, proj)
    s = seq_slice(eng, st, data)
    if is_membuf(w):
        eng.emit(st, "copy", dst=Slice(w.args[2], w.args[3], s.args[2]), src=s, ok=True)
        eng.set(st, base, proj, Agg("membuf", 0, w.args[2], add(w.args[3], s.args[2])))
        return
    if w.op == "a" and w.args[0] == "seq":
        l = w.args[-1] if len(w.args) > 2 else None
        if l is not None and l.op == "sl" and s.op == "sl" and l.args[0] is s.args[0] and eng.eq(st, add(l.args[1], l.args[2]), s.args[1]):
            eng.set(st, base, proj, Agg("seq", 0, *w.args[2:-1], Slice(l.args[0], l.args[1], add(l.args[2], s.args[2]))))
        else:
            eng.set(st, base, proj, Agg("seq", 0, *w.args[2:], s))
    elif w.op == "a" and w.args[0] == "vec" and len(w.args) == 2:
        eng.set(st, base, proj, Agg("seq", 0, s))
    elif w.op == "sl":
        eng.set(st, base, proj, Agg("seq", 0, w, s))
    else:
        eng.set(st, base, proj, havoc_value(w))


@m("BufMut.put", "BufMut.put_slice", "BytesMut::extend_from_slice", "Vec::extend_from_slice", "BytesMut::unsplit")
def _(eng, st, c):
    if eng.opts.get("opaque_bytes"):
        return None
    seq_append(eng, st, c.args[0], c.args[1])
    return eng.ret(st, UNIT)


@m("Extend.extend")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    d = eng.deref(st, c.args[1])
    if d.op == "a" and d.args[0] == OPT:
        d = Agg("vec", 0, *d.args[2:])
    if w.op == "a" and w.args[0] == "seq" or is_membuf(w):
        seq_append(eng, st, c.args[0], c.args[1])
        return eng.ret(st, UNIT)
    if w.op == "a" and w.args[0] == "vec" and d.op == "a" and d.args[0] in ("vec", "[]") and c.args[0].op == "r":
        eng.set(st, c.args[0].args[0], c.args[0].args[1], Agg("vec", 0, *w.args[2:], *d.args[2:]))
        return eng.ret(st, UNIT)
    if w.op == "a" and w.args[0] == "vec" and c.args[0].op == "r" and concrete(eng, st, d):
        base, proj = c.args[0].args
        x = eng.load(st, base, proj)
        while x.op == "r":
            base, proj = x.args
            x = eng.load(st, base, proj)
        return collecting(eng, st, c.args[1], Ref(base, proj))
    return None


@m("array::map")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    if w.op != "a" or w.args[0] not in ("vec", "[]"):
        return None
    if not len(w.args) > 2:
        return eng.ret(st, w)
    it = eng.boxed(st, Agg("adapt", 0, mk("c", "map"), Agg("iter", 0, w, C("val"), C("fwd"), ZERO), c.args[1]))
    return collecting(eng, st, it, None) if eng.opts.get("exact") else None


@m("BytesMut::freeze", "Buf.copy_to_bytes", "Bytes::copy_from_slice", "BytesMut::from", "Bytes::from", "Bytes::into_vec", "Bytes::try_into_mut")
def _(eng, st, c):
    if eng.opts.get("opaque_bytes"):
        return None
    w = eng.deref(st, c.args[0])
    if c.f.get("m") == "copy_to_bytes":
        return None
    if w.op == "a" and w.args[0] == "seq":
        return eng.ret(st, whole(list(w.args[2:])) if len(w.args) > 2 else Slice(Sym("empty"), ZERO, ZERO))
    return eng.ret(st, w)


@m("Bytes::split_to", "Bytes::split_off", "BytesMut::split_to", "BytesMut::split_off")
def _(eng, st, c):
    s = seq_slice(eng, st, c.args[0])
    k = c.args[1]
    eng.emit(st, "slice", ok=eng.le(st, k, s.args[2]), start=ZERO, end=k, len=s.args[2])
    eng.add_ineq(st, sub(k, s.args[2]))
    a, b = Slice(s.args[0], s.args[1], k), Slice(s.args[0], add(s.args[1], k), sub(s.args[2], k))
    ret, keep = (a, b) if c.f["m"] == "split_to" else (b, a)
    if c.args[0].op == "r":
        eng.set(st, c.args[0].args[0], c.args[0].args[1], keep)
    return eng.ret(st, ret)


@m("Buf.advance", "Bytes::advance")
def _(eng, st, c):
    s = seq_slice(eng, st, c.args[0])
    k = c.args[1]
    eng.emit(st, "slice", ok=eng.le(st, k, s.args[2]), start=ZERO, end=k, len=s.args[2])
    eng.add_ineq(st, sub(k, s.args[2]))
    if c.args[0].op == "r":
        eng.set(st, c.args[0].args[0], c.args[0].args[1], Slice(s.args[0], add(s.args[1], k), sub(s.args[2], k)))
    return eng.ret(st, UNIT)


@m("Bytes::truncate", "BytesMut::truncate")
def _(eng, st, c):
    s = seq_slice(eng, st, c.args[0])
    if c.args[0].op == "r":
        eng.set(st, c.args[0].args[0], c.args[0].args[1], Slice(s.args[0], s.args[1], simp2(eng, st, mkmin, s.args[2], c.args[1])))
    return eng.ret(st, UNIT)


@m("Bytes::clear", "BytesMut::clear")
def _(eng, st, c):
    if c.args[0].op == "r":
        eng.set(st, c.args[0].args[0], c.args[0].args[1], Agg("seq", 0))
    return eng.ret(st, UNIT)


@m("slice::concat", "Join.join", "Concat.concat")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    if w.op == "a" and w.args[0] in ("[]", "vec"):
        items = [seq_slice(eng, st, x) for x in w.args[2:]]
        return eng.ret(st, Agg("seq", 0, *items))
    return eng.ret(st, Var())


@m("slice::chunks", "slice::chunks_mut", "slice::windows")
def _(eng, st, c):
    return eng.ret(st, Agg("chunks", 0, seq_slice(eng, st, c.args[0]), c.args[1]))


@m("Bytes::as_ref", "slice::as_ref", "Bytes::as_slice", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "str::as_ref", "Box::as_ref", "Box::as_mut", "String::as_mut_str", "Buf.chunk", "Buf::chunk")
def _(eng, st, c):
    return eng.ret(st, c.args[0])


# ------------------------------------------------------------------------------------- vectors
@m("Vec::new", "Vec::with_capacity", "VecDeque::new")
def _(eng, st, c):
    if eng.opts.get("membuf"):
        return eng.ret(st, Agg("membuf", 0, Sym("buf@" + eng.site(st)), ZERO))
    return eng.ret(st, Agg("vec", 0))


@m("vec::from_elem")
def _(eng, st, c):
    if eng.opts.get("membuf"):
        return eng.ret(st, Agg("membuf", 0, Sym("buf@" + eng.site(st)), c.args[1]))
    v = App("filled", c.args[0], c.args[1], Sym("buf@" + eng.site(st)))
    return eng.ret(st, v)


@m("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "boxed::box_new", "hack::into_vec")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    # vec![a, b]: the uninitialised box is written field by field
    x = w
    n = 0
    while x.op in ("u", "a") and x.args[0] not in ("[]",) and n < 6:
        if x.op == "u":
            nxt = [x.args[i + 1] for i in range(1, len(x.args), 2)]
        else:
            nxt = list(x.args[2:])
        if len(nxt) != 1 or not isinstance(nxt[0], T):
            break
        x = nxt[0]
        n += 1
    if x.op == "a" and x.args[0] == "[]":
        return eng.ret(st, Agg("vec", 0, *x.args[2:]))
    return eng.ret(st, w)


def vecplace(eng, st, v):
    base, proj = v.args if v.op == "r" else eng.target(st, v)
    return base, proj, eng.load(st, base, proj)


@m("Vec::push", "Vec::insert", "VecDeque::push_back")
def _(eng, st, c):
    base, proj, w = vecplace(eng, st, c.args[0])
    x = c.args[-1]
    mth = c.f["m"]
    eng.emit(st, "vec_" + mth, vec=w, args=tuple(c.args[1:]))
    if w.op == "a" and w.args[0] == "vec":
        items = list(w.args[2:])
        if mth in ("push", "push_back"):
            items.append(x)
            eng.set(st, base, proj, Agg("vec", 0, *items))
            return eng.ret(st, UNIT)
        i = c.args[1]
        if i.op == "c" and i.args[0] <= len(items):
            items.insert(i.args[0], x)
            eng.set(st, base, proj, Agg("vec", 0, *items))
            return eng.ret(st, UNIT)
    eng.set(st, base, proj, App("vec." + mth, w, *c.args[1:]) if eng.opts.get("appall") else havoc_value(w))
    return eng.ret(st, UNIT)


@m("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back")
def _(eng, st, c):
    base, proj, w = vecplace(eng, st, c.args[0])
    mth = c.f["m"]
    if w.op == "a" and w.args[0] == "vec":
        items = list(w.args[2:])
        if not items:
            return eng.ret(st, NONE)
        x = items.pop(0) if mth == "pop_front" else items.pop()
        eng.set(st, base, proj, Agg("vec", 0, *items))
        return eng.ret(st, Some(x))
    n = st.clone()
    r = eng.ret(n, NONE)
    last = App("last", w) if w.closed else Var()
    eng.set(st, base, proj, App("init", w))
    return r + eng.ret(st, Some(last))


@m("Vec::resize", "Vec::reserve", "Vec::clear", "Vec::truncate", "Vec::sort_by_key", "slice::sort_by_key", "slice::sort_unstable_by_key", "Vec::remove", "Vec::swap_remove", "Vec::retain", "slice::sort_by", "slice::sort_unstable_by", "slice::sort", "slice::reverse", "slice::sort_by_cached_key", "Vec::append")
def _(eng, st, c):
    mth = c.f["m"]
    base, proj, w = vecplace(eng, st, c.args[0])
    eng.emit(st, "vec_" + mth, vec=w, args=tuple(c.args[1:]), place=Ref(base, proj))
    if is_membuf(w) and mth in ("resize", "clear", "truncate", "reserve"):
        n = {"resize": lambda: c.args[1], "clear": lambda: ZERO, "truncate": lambda: mkmin(w.args[3], c.args[1]), "reserve": lambda: w.args[3]}[mth]()
        eng.emit(st, "resized", old=w.args[3], new=n)
        eng.set(st, base, proj, Agg("membuf", 0, w.args[2], n))
        return eng.ret(st, UNIT)
    if mth == "resize":
        if w.op == "a" and w.args[0] == "seq":
            pass
        s = seq_slice(eng, st, c.args[0])
        new = bump(w if w.op != "a" else Var())
        st.facts[App("lenis", new, c.args[1])] = 1
        eng.set(st, base, proj, new)
        return eng.ret(st, UNIT)
    if mth == "reserve":
        return eng.ret(st, UNIT)
    if mth == "clear":
        eng.set(st, base, proj, Agg("vec", 0))
        return eng.ret(st, UNIT)
    if mth.startswith("sort_") and eng.opts.get("exact") and w.op == "a" and w.args[0] in ("vec", "[]"):
        return sorting(eng, st, Ref(base, proj), c.args[1], "key" if "key" in mth else "cmp", "unstable" not in mth, w.args[2:], (), ())
    if w.closed:
        eng.set(st, base, proj, App("vec." + mth, w, *[a for a in c.args[1:] if a.closed and a.op not in ("r",)]))
    else:
        eng.set(st, base, proj, havoc_value(w))
    return eng.ret(st, Var() if dty(eng, c)["k"] != "tuple" else UNIT)


def sorting(eng, st, ref, f, kind, stable, rest, done, keys):
    """insertion sort of a vector whose elements are known, keeping the orders of elements with equal keys apart (if unstable: either order)"""
    if not rest:
        eng.set(st, *ref.args, Agg("vec", 0, *done))
        return eng.ret(st, UNIT)
    data = (ref, kind, stable, rest, done, keys)
    if kind == "cmp" and not done:
        return sorting(eng, st, ref, f, kind, stable, rest[1:], rest[:1], ())
    fid = eng.push(st, "sort", data)
    st.store[("l", fid, 0)] = f
    if kind == "key":
        r = eng.call_value(st, f, [eng.boxed(st, rest[0])])
    else:
        r = eng.call_value(st, f, [eng.boxed(st, done[-1]), eng.boxed(st, rest[0])])
    if r is None:
        return unknown_callable(eng, st, f, [])
    return r


@cont("sort")
def _(eng, st, v, data, vals):
    from .engine import Infeasible
    ref, kind, stable, rest, done, keys = data
    f, x = vals[0], rest[0]
    if kind == "cmp":
        pos, keys = (keys[0] if keys else len(done)), ()
    out = []

    def at(n, i):
        return sorting(eng, n, ref, f, kind, stable, rest[1:], done[:i] + (x,) + done[i:], keys[:i] + (v,) + keys[i:] if kind == "key" else ())

    if kind == "key":
        i = len(done)
        while True:
            if i == 0:
                out += at(st, 0)
                break
            n = st.clone()
            try:
                eng.assume(n, eng.cmp("Gt" if stable else "Ge", keys[i - 1], v), False)
                out += at(n, i)
            except Infeasible:
                pass
            if not stable:
                n = st.clone()
                try:
                    eng.assume(n, eng.mkeq(keys[i - 1], v), True)
                    out += at(n, i)
                except Infeasible:
                    pass
            try:
                eng.assume(st, eng.cmp("Gt" if stable else "Ge", keys[i - 1], v), True)
            except Infeasible:
                break
            i -= 1
        return out
    # v compares the element before the position with x
    for d, left in ((0, False), (1, False), (1, True), (2, True)):
        if d == 1 and left and stable:
            continue
        n = st.clone()
        try:
            eng.assume_variant(n, v, d)
        except Infeasible:
            continue
        if not left:
            out += at(n, pos)
        elif pos == 1:
            out += at(n, 0)
        else:
            fid = eng.push(n, "sort", (ref, kind, stable, rest, done, (pos - 1,)))
            n.store[("l", fid, 0)] = f
            out += eng.call_value(n, f, [eng.boxed(n, done[pos - 2]), eng.boxed(n, x)])
    return out


@m("slice::partition_point", "Vec::partition_point", "VecDeque::partition_point")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    if not eng.opts.get("exact") or w.op != "a" or w.args[0] not in ("vec", "[]"):
        return None
    return parting(eng, st, c.args[1], w.args[2:], 0)


def parting(eng, st, f, items, i):
    if i == len(items):
        return eng.ret(st, C(i))
    fid = eng.push(st, "part", (items, i))
    st.store[("l", fid, 0)] = f
    return eng.call_value(st, f, [eng.boxed(st, items[i])])


@cont("part")
def _(eng, st, v, data, vals):
    from .engine import Infeasible
    items, i = data
    r = []
    n = st.clone()
    try:
        eng.assume(n, v, False)
        r += eng.ret(n, C(i))
    except Infeasible:
        pass
    try:
        eng.assume(st, v, True)
        r += parting(eng, st, vals[0], items, i + 1)
    except Infeasible:
        pass
    return r


@m("slice::first", "slice::last", "Vec::first", "Vec::last", "slice::first_mut", "slice::last_mut")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    k = c.f["m"].replace("_mut", "")
    if w.op == "a" and w.args[0] in ("vec", "[]"):
        items = w.args[2:]
        if not items:
            return eng.ret(st, NONE)
        return eng.ret(st, Some(eng.boxed(st, items[0] if k == "first" else items[-1])))
    n = st.clone()
    r = eng.ret(n, NONE)
    return r + eng.ret(st, Some(eng.boxed(st, App(k, w))))


# ------------------------------------------------------------------------------------- formatting and errors
@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def _(eng, st, c):
    return eng.ret(st, App("disp", eng.deref(st, c.args[0])))


@m("Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const", "Arguments::new_v1")
def _(eng, st, c):
    args = []
    tpl = ""
    o = c.argops[0] if c.argops else None
    tpl = eng.deref(st, c.args[0])
    for a in c.args[1:]:
        w = eng.deref(st, a)
        if w.op == "a" and w.args[0] == "[]":
            args += list(w.args[2:])
        else:
            args.append(w)
    return eng.ret(st, App("fmt", tpl, *args))


@m("fmt::format")
def _(eng, st, c):
    return eng.ret(st, c.args[0])


ERRKINDS = None


@m("Error::new", "error::new")
def _(eng, st, c):
    if "io" not in c.name:
        return None
    eng.emit(st, "mkerr", val=c.args[0])
    return eng.ret(st, App("ioerr", c.args[0], eng.deref(st, c.args[1])))


@m("Error::other", "error::other")
def _(eng, st, c):
    return eng.ret(st, App("ioerr", Sym("kind:Other"), eng.deref(st, c.args[0])))


@m("Error::kind", "error::kind")
def _(eng, st, c):
    v = eng.deref(st, c.args[0])
    if v.op == "f" and v.args[0] == "ioerr":
        return eng.ret(st, v.args[1])
    return eng.ret(st, App("kind", v))


# ------------------------------------------------------------------------------------- io
def gpos(eng, st, o):
    v = st.g.get(("pos", o))
    if v is None:
        v = st.g[("pos", o)] = Var()
    return v


def local_recv(c):
    return bool(c.f.get("rl"))


def err(eng, st, c):
    if eng.opts.get("apperr"):
        return App("err", Sym("io"), Sym(c.f["m"] + "@" + eng.site(st)))
    return Var()


@m("Write.write")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    s = seq_slice(eng, st, c.args[1])
    eng.emit(st, "write", obj=o, buf=s)
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="write", err=e)
    r = eng.ret(n, Err(e))
    k = Var()
    eng.add_ineq(st, sub(k, s.args[2]))
    st.g[("pos", o)] = add(gpos(eng, st, o), k)
    eng.emit(st, "wrote", obj=o, buf=s, n=k)
    return r + eng.ret(st, Ok(k))


@m("Write.write_all")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    s = seq_slice(eng, st, c.args[1])
    eng.emit(st, "write", obj=o, buf=s)
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="write_all", err=e)
    r = eng.ret(n, Err(e))
    st.g[("pos", o)] = add(gpos(eng, st, o), s.args[2])
    eng.emit(st, "wrote", obj=o, buf=s, n=s.args[2])
    return r + eng.ret(st, Ok(UNIT))


@m("Write.flush")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="flush", err=e)
    r = eng.ret(n, Err(e))
    eng.emit(st, "flush", obj=o)
    return r + eng.ret(st, Ok(UNIT))


@m("Seek.stream_position")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="stream_position", err=e)
    r = eng.ret(n, Err(e))
    p = gpos(eng, st, o)
    eng.emit(st, "tell", obj=o, pos=p)
    return r + eng.ret(st, Ok(p))


@m("Seek.seek", "Seek.rewind", "Seek.seek_relative")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    mth = c.f["m"]
    if mth == "rewind":
        how, x = 0, ZERO
    elif mth == "seek_relative":
        how, x = 2, c.args[1]
    else:
        a = c.args[1]
        if a.op != "a":
            eng.emit(st, "seek", obj=o, how=-1, pos=a)
            n = st.clone()
            r = eng.ret(n, Err(err(eng, n, c)))
            p = Var()
            st.g[("pos", o)] = p
            return r + eng.ret(st, Ok(p))
        how, x = a.args[1], a.args[2]
    old = gpos(eng, st, o)
    eng.emit(st, "seek", obj=o, how=how, pos=x)
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="seek", err=e)
    r = eng.ret(n, Err(e))
    p = x if how == 0 else (add(old, x) if how == 2 else Var())
    st.g[("pos", o)] = p
    eng.emit(st, "sought", obj=o, pos=p, how=how)
    return r + eng.ret(st, Ok(UNIT if mth != "seek" else p))


@m("Read.read", "Read.read_exact", "Read.read_to_end", "Read.read_to_string", "Read.read_vectored")
def _(eng, st, c):
    mth = c.f["m"]
    o = eng.obj(st, c.args[0])
    if mth in ("read_to_end", "read_to_string"):
        eng.emit(st, "read_all", obj=o, buf=c.args[1])
        if c.args[1].op == "r":
            eng.set(st, c.args[1].args[0], c.args[1].args[1], App("contents", o) if o.closed else Var())
        return outs(eng, st, (Err(err(eng, st, c)), None), (Ok(Var()), None))
    s = seq_slice(eng, st, c.args[1])
    eng.emit(st, "read", obj=o, buf=s, pos=gpos(eng, st, o))
    n = st.clone()
    e = err(eng, n, c)
    eng.emit(n, "io_err", obj=o, op="read", err=e)
    r = eng.ret(n, Err(e))
    k = s.args[2] if mth == "read_exact" else Var()
    if mth == "read":
        eng.add_ineq(st, sub(k, s.args[2]))
    st.g[("pos", o)] = add(gpos(eng, st, o), k)
    eng.emit(st, "did_read", obj=o, buf=s, n=k)
    return r + eng.ret(st, Ok(k if mth == "read" else UNIT))


@m("BufReader::new", "BufReader::with_capacity", "BufWriter::new")
def _(eng, st, c):
    if eng.opts.get("appall"):
        return eng.ret(st, App(short(c.name), *c.args))
    return eng.ret(st, c.args[-1])


# ------------------------------------------------------------------------------------- transport
@m("StreamExt.next")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    eng.emit(st, "next", obj=o)
    return eng.ret(st, Fut("next", o))


@m("TryStreamExt.try_next")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    eng.emit(st, "next", obj=o)
    return eng.ret(st, Fut("try_next", o))


@m("SourceStream.seek_range", "SourceStream.reconnect", "SourceStream.on_finish")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    k = c.f["m"]
    eng.emit(st, k, obj=o, args=tuple(c.args[1:]))
    return eng.ret(st, Fut(k, o, *c.args[1:]))


@m("SourceStream.supports_seek")
def _(eng, st, c):
    return eng.ret(st, App("supports_seek", eng.obj(st, c.args[0])))


@m("SourceStream.content_length")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    t = App("content_length", o)
    eng.emit(st, "content_length", obj=o, val=t)
    return eng.ret(st, t)


@m("SourceStream.create")
def _(eng, st, c):
    eng.emit(st, "create", args=tuple(c.args))
    return eng.ret(st, App("create", *c.args))


@m("StorageProvider.max_capacity")
def _(eng, st, c):
    o = eng.obj(st, c.args[0])
    return eng.ret(st, App("max_capacity", o))


@m("StorageProvider.into_reader_writer")
def _(eng, st, c):
    o = ident(eng.deref(st, c.args[0]))
    eng.emit(st, "make_storage", provider=o, len=c.args[1])
    n = st.clone()
    e = App("err", App("into_reader_writer", o, c.args[1]))
    r = eng.ret(n, Err(e))
    i = App("into_reader_writer", o, c.args[1])
    rd, wr = App("reader", i), App("writer", i)
    st.g[("pos", wr)] = ZERO
    st.g[("pos", rd)] = ZERO
    eng.emit(st, "made_storage", provider=o, reader=rd, writer=wr)
    return r + eng.ret(st, Ok(Tup(rd, wr)))


# ------------------------------------------------------------------------------------- time
@m("Instant::now", "SystemTime::now")
def _(eng, st, c):
    return eng.ret(st, Var())


@m("Instant::elapsed", "Instant::duration_since")
def _(eng, st, c):
    return eng.ret(st, App("elapsed", eng.deref(st, c.args[0])))


@m("Duration::from_secs", "Duration::from_millis", "Duration::from_micros", "Duration::from_nanos", "Duration::from_mins", "Duration::new")
def _(eng, st, c):
    k = c.f["m"]
    unit = {"from_secs": 10**9, "from_millis": 10**6, "from_micros": 10**3, "from_nanos": 1, "from_mins": 60 * 10**9, "new": 10**9}[k]
    if all(x.op == "c" and isinstance(x.args[0], int) for x in c.args):
        return eng.ret(st, App("dur", C(c.args[0].args[0] * unit + (c.args[1].args[0] if k == "new" else 0))))
    return eng.ret(st, App("dur:" + k, *c.args))


@m("thread::yield_now", "thread::sleep", "hint::spin_loop")
def _(eng, st, c):
    eng.emit(st, "block", what=c.f["m"])
    return eng.ret(st, UNIT)


@m("Event::dispatch", "Span::enter", "Span::record", "Span::none", "Span::new", "Span::current")
def _(eng, st, c):
    return eng.ret(st, Var())


@m("RangeBounds.start_bound", "RangeBounds.end_bound")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    b = bounds_of(eng, st, w, Sym("#end"))
    if b is None:
        return None
    n = w.args[0].split("::")[-1]
    D = "std::ops::Bound"
    i = 0 if c.f["m"] == "start_bound" else 1
    if n == "RangeFull" or (n == "RangeFrom" and i) or (n.startswith("RangeTo") and not i):
        return eng.ret(st, Agg(D, 2))
    if i and "Inclusive" in n:
        return eng.ret(st, Agg(D, 0, eng.boxed(st, w.args[3 if n == "RangeInclusive" else 2])))
    return eng.ret(st, Agg(D, 1 if i else 0, eng.boxed(st, b[i])))


@m("RangeBounds.contains", "Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    x = eng.deref(st, c.args[1])
    b = bounds_of(eng, st, w, None)
    if b is None or not eng.numeric(x):
        return eng.ret(st, Var())
    lo = eng.cmp("Le", b[0], x)
    return eng.ret(st, lo if b[1] is None else eng.mkand(lo, eng.cmp("Lt", x, b[1])))


@m("Range::is_empty")
def _(eng, st, c):
    w = eng.deref(st, c.args[0])
    if w.op != "a":
        a, b = get_field(w, (None, 0)), get_field(w, (None, 1))
    else:
        a, b = w.args[2], w.args[3]
    return eng.ret(st, eng.cmp("Ge", a, b))


@m("Interest::never", "Interest::always", "Interest::sometimes", "Callsite.metadata", "__macro_support::__disabled_span", "Span::follows_from", "Metadata::level", "Metadata::fields")
def _(eng, st, c):
    return eng.ret(st, Var())


@m("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(eng, st, c):
    v = c.args[0]
    good = 1 if c.name.endswith("Option::unwrap_or_default") or "option" in c.name else 0
    res = []
    from .engine import Infeasible
    for val in (True, False):
        s = st.clone()
        try:
            if v.op == "a":
                if (v.args[1] == good) != val:
                    continue
            else:
                eng.assume(s, eng.cmp("Eq", App("discr", v), C(good)), val)
            res += eng.ret(s, get_field(v, (good, 0)) if val else default_of(eng, s, dty(eng, c)))
        except Infeasible:
            continue
    return res


# ------------------------------------------------------------------------------------------------ reading into a buffer
def buf_ref(eng, st, v):
    """the place of a buffer, through references to references"""
    for _ in range(6):
        if v.op == "a" and v.args[0].endswith("Pin"):
            v = v.args[2]
            continue
        if v.op != "r":
            return None
        w = eng.load(st, *v.args)
        if w.op != "r":
            return v
        v = w
    return None


@m("io::poll_read_buf", "util::poll_read_buf")
def _(eng, st, c):
    """reads into the spare room of a buffer: pending, an error, or n bytes appended (0 at the end of the data)"""
    b = buf_ref(eng, st, c.args[2])
    if not eng.opts.get("exact") or b is None:
        return None
    eng.emit(st, "readbuf", src=c.args[0], buf=b)
    r = pending(eng, st)
    n = st.clone()
    n.g["read"] = e = Var()
    n.mode["read"] = "error"
    r += eng.ret(n, Ready(Err(e)))
    n = st.clone()
    n.mode["read"] = "end"
    r += eng.ret(n, Ready(Ok(ZERO)))
    d, k = Var(), Var()
    s = Slice(d, ZERO, k)
    eng.add_ineq(st, sub(C(1), k))
    w = eng.load(st, *b.args)
    eng.set(st, b.args[0], b.args[1], Agg("seq", 0, *(w.args[2:] if w.op == "a" and w.args[0] == "seq" else (w,)), s))
    st.g["read"] = s
    st.mode["read"] = "data"
    return r + eng.ret(st, Ready(Ok(k)))


@m("BytesMut::reserve")
def _(eng, st, c):
    if not eng.opts.get("exact"):
        return None
    st.g["room"] = c.args[1]
    return eng.ret(st, UNIT)


@m("BytesMut::capacity")
def _(eng, st, c):
    if not eng.opts.get("exact"):
        return None
    if "room" not in st.g:
        st.g.setdefault("capacity", Sym("capacity"))
        return eng.ret(st, st.g["capacity"])
    return eng.ret(st, Var())


@m("BytesMut::split")
def _(eng, st, c):
    b = buf_ref(eng, st, c.args[0])
    w = eng.load(st, *b.args) if b is not None else None
    if not eng.opts.get("exact") or w is None or not (w.op == "a" and w.args[0] == "seq"):
        return None
    eng.set(st, b.args[0], b.args[1], Agg("seq", 0))
    return eng.ret(st, w)


@m("String::push_str", "String::push")
def _(eng, st, c):
    if not eng.opts.get("exact") or c.args[0].op != "r":
        return None
    w = eng.load(st, *c.args[0].args)
    eng.set(st, c.args[0].args[0], c.args[0].args[1], App("push_str", w, eng.deref(st, c.args[1])))
    return eng.ret(st, UNIT)


@fut("proc")
def _(eng, st, what, obj):
    """waiting for, or killing, a process"""
    w = what.args[0]
    r = pending(eng, st)
    n = st.clone()
    e = App("err", Sym(w), obj)
    n.g["failure"] = e
    eng.emit(n, w + "_failed", obj=obj, err=e)
    r += eng.ret(n, Ready(Err(e)))
    eng.emit(st, w + "_done", obj=obj)
    return r + eng.ret(st, Ready(Ok(App("status", obj) if w == "wait" else UNIT)))
