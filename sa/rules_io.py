"""Rules about the OpenDAL source (P25, P26) and the async-read source (P27)."""
from .engine import Engine
from .terms import *
from .mon import Monitor
from .core import *
from .rules_misc import Facts
from .rules_store import run
from .rules_http import SELF, summary, nm, un, at, EXACT, get_field, full, nm_of, text, direct

READ = "into_futures_async_read"


def on_value(F, prog, st, v, bid, args, mons=None, key=None):
    """a method of a value that exists in a state"""
    def init(s):
        s.facts.update(st.facts)
        s.store.update({k: x for k, x in st.store.items() if k[0] == "h"})
        s.store[("h", Sym("self"))] = v
        s.ineq = st.ineq
    if mons is None:
        return summary(F, prog, bid, [SELF] + args, ("seek_range",), init)
    e = Ends()
    r = run(prog, bid, bid, [SELF] + args, list(mons) + [e], dict(EXACT), init)
    r.obl = {}
    F.r.merge(r)
    return e.l


def known(st):
    """the terms something is known about"""
    return list(st.facts) + list(st.ineq)


def zero(eng, st, l):
    return eng.le(st, l, ZERO) or st.facts.get(App("eq", *sorted((l, ZERO), key=lambda t: t.id))) == 1


def calls_of(t, name):
    return [x for x in subterms(t) if x.op == "f" and nm(x) == name]


def causes(v):
    """the failed calls an error comes from"""
    return [x.args[1] for x in subterms(v) if x.op == "f" and x.args[0] == "err"]


class Opendal:
    def __init__(self, F, prog):
        self.prog, self.F = prog, F
        self.bid = impl(prog, "SourceStream", "create", "OpendalStream")
        P = Sym("params")
        self.ends = summary(F, prog, self.bid, [P])
        adt = next(k for k in prog.adts if k.endswith("OpendalStreamParams"))
        f = lambda n: get_field(P, (None, prog.field_index(adt, n)))
        self.op, self.path, self.chunk = f("operator"), f("path"), f("chunk_size")
        sadt = next(k for k in prog.adts if k.endswith("OpendalStream"))
        self.sadt = sadt
        self.ix = lambda n: prog.field_index(sadt, n)

    def target(self, t):
        """does a call refer to the object: the operator and the path of the parameters"""
        s = [un(x) for x in t.args[1:]]
        return self.op in s and any(self.path is x or self.path in subterms(x) for x in s)


def range_of(t):
    """(start, end) of a range term, end None if open"""
    t = un(t)
    if t.op == "a":
        n = t.args[0].split("::")[-1]
        f = t.args[2:]
        if n == "RangeFull":
            return ZERO, None
        if n == "RangeFrom":
            return un(f[0]), None
        if n == "Range":
            return un(f[0]), un(f[1])
        if n == "RangeInclusive":
            return un(f[0]), add(un(f[1]), C(1))
    if t.op == "f" and nm(t) == "new" and "RangeInclusive" in t.args[0]:
        return un(t.args[1]), add(un(t.args[2]), C(1))
    return None


def reading(t):
    """the calls that opened the reader behind a value: [(reader, range)]"""
    return [(un(x.args[1]), range_of(x.args[2])) for x in calls_of(t, READ)]


def opendal_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"] += ["OpendalStream::create", "OpendalStream::seek_range", "OpendalStream::reconnect"]
    o = Opendal(F, prog)
    loc = at(prog, o.bid)
    eng = Engine(prog, [])
    CLEN = impl(prog, "SourceStream", "content_length", "OpendalStream")
    seen = {}
    for st, v in o.ends:
        if is_agg(v, RES, 1):
            c = causes(v)
            F.ob("create-cause", any(nm(x) in ("stat", "stat_with", "reader", "reader_with", READ) for x in c), "an error of opening an object does not come from the operator", loc)
            continue
        F.ob("create-result", is_agg(v, RES, 0), "opening a stream has an unknown result", loc)
        if not is_agg(v, RES, 0):
            continue
        x = v.args[2]
        rd = reading(x)
        ok = len(rd) == 1 and rd[0][1] == (ZERO, None)
        F.ob("whole", ok, "a new stream does not read the whole object", loc)
        rs = [t for t in subterms(x) if t.op == "f" and nm(t) in ("reader", "reader_with")]
        F.ob("object", bool(rs) and all(o.target(t) for t in rs), "a new stream does not read the object at the given path of the given operator", loc)
        for s2, n in on_value(F, prog, st, x, CLEN, []):
            n = un(n)
            if is_agg(n, OPT, 1):
                l = un(n.args[2])
                ok = nm(l) == "content_length" and any(o.target(t) for t in calls_of(l, "stat")) and eng.le(st, C(1), l)
                F.ob("length", ok, "a content length is reported that is not the object's size, or is zero", loc)
            elif n is NONE:
                ls = [t for s in known(st) for t in subterms(s) if t.op == "f" and nm(t) == "content_length"]
                F.ob("no-length", any(zero(eng, st, l) and any(o.target(t) for t in calls_of(l, "stat")) for l in ls), "no content length is reported although the object has a size", loc)
            else:
                F.ob("length", False, "the content length of the object is not told from its absence", loc)
        seen.setdefault(n is NONE, (st, x))
    seek = impl(prog, "SourceStream", "seek_range", "OpendalStream")
    rec = impl(prog, "SourceStream", "reconnect", "OpendalStream")
    for st, x in seen.values():
        A = set_field(x, (None, o.ix("async_reader")), Sym("CURRENT"))
        stored = [t for t in subterms(A) if t.op == "f" and t.args[0] == "ok" and nm(t.args[1]) in ("reader", "reader_with")]
        for key, bid, args in (("seek", seek, [Sym("start"), Sym("end")]), ("reconnect", rec, [Sym("start")])):
            loc = at(prog, bid)
            for s2, r in on_value(F, prog, st, A, bid, args):
                now = s2.store.get(("h", Sym("self")))
                if is_agg(r, RES, 1):
                    F.ob(f"{key}-kept", now is A, f"a failed {key} changes the stream", loc)
                    F.ob(f"{key}-cause", any(nm(c) in (READ, "reader", "reader_with") for c in causes(r)), f"a {key} fails without a failure of the operator, or hides its cause", loc)
                    continue
                new = get_field(now, (None, o.ix("async_reader")))
                rd = reading(new)
                F.ob(f"{key}-object", len(rd) == 1 and (rd[0][0] in stored or o.target(rd[0][0].args[1]) if rd[0][0].op == "f" and len(rd[0][0].args) > 1 and isinstance(rd[0][0].args[1], T) else False), f"a {key} does not read from the stream's object", loc)
                if len(rd) != 1:
                    continue
                rg = rd[0][1]
                F.ob(f"{key}-start", rg is not None and rg[0] is Sym("start"), f"a {key} does not read from the given position", loc)
                if key == "seek":
                    d = s2.facts.get(App("discr", Sym("end")))
                    F.ob("seek-end", rg is not None and (rg[1] is get_field(Sym("end"), (1, 0)) if d == 1 else rg[1] is None and d == 0), "a seek does not read up to the given end, or to the end of the object exactly without one", loc)
                else:
                    F.ob("reconnect-end", rg is not None and rg[1] is None, "a reconnect does not read to the end of the object", loc)
                F.ob(f"{key}-else", set_field(now, (None, o.ix("async_reader")), Sym("CURRENT")) is A, f"a {key} changes more than the current reader", loc)
    for s2, r in summary(F, prog, impl(prog, "SourceStream", "supports_seek", "OpendalStream"), [SELF]):
        F.ob("seekable", r is TRUE, "an OpenDAL stream reports that it cannot seek", loc)
    return F.r


# ------------------------------------------------------------------------------------------------ P26
class Reads(Monitor):
    """the reads of a poll: where they read from, and whether there was room"""
    def __init__(self, place):
        self.place = place

    def event(self, eng, st, ev):
        if ev.kind == "readbuf":
            st.mode["reads"] = min(st.mode.get("reads", 0) + 1, 2)
            st.g["src"] = full(eng, st, ev.src)
            st.g["buf"] = ev.buf
            w = eng.load(st, *ev.buf.args)
            st.mode["clean"] = w is Agg("seq", 0)
            cap = st.g.get("capacity")
            st.mode["roomy"] = "room" in st.g or cap is not None and eng.le(st, C(1), cap) or cap is not None and st.facts.get(App("eq", *sorted((cap, ZERO), key=lambda t: t.id))) == 0
            st.g["asked"] = un(st.g["room"]) if "room" in st.g else None


def read_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"] += ["OpendalStream::poll_next"]
    o = Opendal(F, prog)
    poll = impl(prog, "Stream", "poll_next", "OpendalStream")
    loc = at(prog, poll)
    done = False
    for st, v in o.ends:
        if not is_agg(v, RES, 0) or done:
            continue
        done = True
        A = set_field(v.args[2], (None, o.ix("async_reader")), Sym("CURRENT"))
        F.ob("empty", get_field(A, (None, o.ix("buf"))) is Agg("seq", 0), "a new stream starts with data of its own", loc)
        st.g.pop("room", None)
        for s, r in on_value(F, prog, st, A, poll, [Sym("cx")], [Reads(None)]):
            now = s.store.get(("h", Sym("self")))
            how = s.mode.get("read")
            F.ob("one-read", s.mode.get("reads") == 1 and s.mode.get("clean") and Sym("CURRENT") in [s.g["src"], *subterms(s.g["src"])], "a poll does not read once, from the current reader, into an empty buffer", loc)
            if s.mode.get("reads") != 1:
                continue
            F.ob("room", s.mode["roomy"], "the buffer may have no room when it is read into: the stream would seem to end", loc)
            F.ob("room-size", s.g["asked"] is None or s.g["asked"] is o.chunk, "the room made for a read is not of the configured chunk size", loc)
            if how is None:
                F.ob("pending", r is PENDING, "a pending read does not stay pending", loc)
            elif how == "end":
                F.ob("end", r is Ready(NONE), "the end of the data does not end the stream", loc)
            elif how == "error":
                F.ob("error", is_agg(r) and r is Ready(Some(Err(s.g["read"]))), "a read error is not passed on", loc)
            else:
                want = s.g["read"]
                got = r
                for _ in range(3):
                    got = got.args[2] if got.op == "a" and got.args[1] in (0, 1) and len(got.args) == 3 and got.args[0] != "seq" else got
                F.ob("data", r is Ready(Some(Ok(got))), "bytes that were read are not passed on", loc)
                F.ob("bytes", got is want or got is Agg("seq", 0, want), "the bytes read are not passed on as they are", loc)
            F.ob("left", get_field(now, (None, o.ix("buf"))) is Agg("seq", 0), "bytes stay behind in the buffer", loc)
            F.ob("same", set_field(now, (None, o.ix("async_reader")), Sym("CURRENT")) is A or get_field(now, (None, o.ix("buf"))) is not Agg("seq", 0), "a poll changes the stream", loc)
    F.ob("opened", done, "no stream can be opened", loc)
    return F.r
