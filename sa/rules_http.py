"""Rules about the HTTP transport (P22, P23, P24). Functions are summarised by abstract execution on symbolic arguments with all paths kept apart;
the rules compare each summary with a specification, they do not look at how it was computed."""
import re
from .engine import Engine, S, AnalysisError, Infeasible, Ev
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .jobs import Result
from .rules_misc import Facts, reach
from .rules_store import run
from .rules_task import variant_name

EXACT = {"appall": True, "exact": True, "apperr": True, "lock_stable": True}
SELF = Ref(("h", Sym("self")), ())


# ------------------------------------------------------------------------------------------------ terms
def nm(t):
    """the last part of the name of an application"""
    return re.split(r"::|\.", t.args[0])[-1] if isinstance(t, T) and t.op == "f" else None


def un(t):
    """the value behind dereferences"""
    while isinstance(t, T):
        if t.op == "f" and t.args[0] == "*":
            t = t.args[1]
        elif t.op == "a" and t.args[0] == "box":
            t = t.args[2]
        elif t.op == "r" and not t.args[1] and t.args[0][0] == "h":
            t = t.args[0][1]
        else:
            break
    return t


def chars(s):
    return [s] if s else []


def pieces(tpl, args):
    """the pieces of a format template as the compiler encodes it"""
    s = tpl.args[0]
    if s.startswith("str:"):
        return chars(s[4:])
    m = re.match(r'const:(b".*")', s, re.S)
    if not m:
        return [App("fmt", tpl, *args)]
    b = eval(m.group(1))  # a byte string literal
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 128:
            out.append(b[i:i + x].decode("utf8", "replace"))
            i += x
        elif x == 128:
            k = b[i] + 256 * b[i + 1]
            i += 2
            out.append(b[i:i + k].decode("utf8", "replace"))
            i += k
        elif x >= 192:
            opts = x & 63
            for bit, size in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if opts & bit:
                    if bit == 8:
                        n = b[i] + 256 * b[i + 1]
                    i += size
            if n >= len(args):
                return [App("fmt", tpl, *args)]
            out += text(args[n]) if not opts & 7 else [App("styled", args[n])]
            n += 1
        else:
            return [App("fmt", tpl, *args)]
    return out


def text(t):
    """a text as a list of literals and values"""
    out = []
    for x in _text(t):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def _text(t):
    t = un(t)
    if t.op == "c" and isinstance(t.args[0], str) and t.args[0].startswith("str:"):
        return chars(t.args[0][4:])
    if t.op == "c" and isinstance(t.args[0], int):
        return [str(t.args[0])]
    if t.op == "c" and (ch := re.match(r"const:(\d+):char$", str(t.args[0]))):
        return [chr(int(ch.group(1)))]
    if t.op == "f":
        k = nm(t)
        if t.args[0] == "fmt":
            return pieces(un(t.args[1]), t.args[2:])
        if t.args[0] == "disp" or k in ("to_string", "to_owned", "into", "from", "as_str", "clone", "into_boxed_str", "as_ref") and len(t.args) == 2:
            return _text(t.args[1])
        if k in ("push_str", "add", "concat2", "push") and len(t.args) == 3:
            return _text(t.args[1]) + _text(t.args[2])
        if k == "new" and len(t.args) == 1:
            return []
    return [t]


def opt_is(st, v, t):
    """is the Option v equal to the Option term t, under what is known in st?"""
    v = un(v)
    if v is t:
        return True
    d = st.facts.get(App("discr", t))
    if is_agg(v, OPT, 1):
        return v.args[2] is get_field(t, (1, 0)) and d in (1, None)
    return v is NONE and d == 0


def truth(st, t):
    return st.facts.get(t)


# ------------------------------------------------------------------------------------------------ running
class Calls(Monitor):
    """how often, and with which result, functions of interest were called"""
    def __init__(self, names):
        self.names = names

    def event(self, eng, st, ev):
        if ev.kind == "call" and (ev.callee in self.names or re.split(r"::|\.", ev.callee)[-1] in self.names):
            st.mode["rq"] = min(st.mode.get("rq", 0) + 1, 3)
            st.g["rq"] = ev.res


def summary(F, prog, bid, args, calls=(), init=None, opts=None):
    """[(state, result)] of every path"""
    o = dict(EXACT)
    o.update(opts or {})
    e = Ends()
    r = run(prog, bid, bid, args, [Calls(calls), e], o, init)
    r.obl = {}
    F.r.merge(r)
    F.r.functions.add(bid)
    return e.l


def at(prog, bid):
    b = prog.bodies[bid]
    return f"{b.file}:{b.line}"


class Http:
    """a freshly opened HTTP stream"""

    def __init__(self, F, prog):
        self.prog, self.F = prog, F
        self.client = App("Client.create")
        self.G = App("Client.get", self.client, Sym("params"))
        self.res = App("ClientResponse.into_result", App("ok", self.G))
        self.R = get_field(self.res, (0, 0))
        self.body = App("ClientResponse.stream", self.R)
        self.headers = App("ClientResponse.headers", self.R)
        self.CL = App("ClientResponse.content_length", self.R)
        self.bid = impl(prog, "SourceStream", "create", "HttpStream")
        self.ends = summary(F, prog, self.bid, [Sym("params")], ("Client.get", "Client.get_range"))

    def method(self, F, st, v, bid, args, calls=("Client.get", "Client.get_range"), byval=False):
        def init(s):
            s.facts.update(st.facts)
            s.store.update({k: x for k, x in st.store.items() if k[0] == "h"})
            s.store[("h", Sym("self"))] = v
        return summary(F, self.prog, bid, [v if byval else SELF] + args, calls, init)

    def opened(self):
        """one representative state per content length (known, unknown), with an arbitrary current body"""
        out = {}
        for st, v in self.ends:
            if is_agg(v, RES, 0):
                d = st.facts.get(App("discr", self.CL))
                s = st.clone()
                sub_ = lambda t: replace(t, self.body, Sym("BODY"))
                out.setdefault(d, (s, sub_(v.args[2])))
        return out


def replace(t, a, b, memo=None):
    memo = {} if memo is None else memo
    if t is a:
        return b
    if not isinstance(t, T) or not any(isinstance(x, T) for x in t.args):
        return t
    r = memo.get(t)
    if r is None:
        r = memo[t] = mk(t.op, *[replace(x, a, b, memo) if isinstance(x, T) else x for x in t.args])
    return r


# ------------------------------------------------------------------------------------------------ P23
def open_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"].append("HttpStream::create")
    h = Http(F, prog)
    loc = at(prog, h.bid)
    D = lambda st, t: st.facts.get(App("discr", t))
    for st, v in h.ends:
        F.ob("request", st.mode.get("rq") == 1 and st.g["rq"] is h.G, "opening a stream does not send exactly one plain request to the given URL", loc)
        if is_agg(v, RES, 1):
            e = v.args[2]
            name = variant_name(Engine(prog, []), e) if e.op == "a" else None
            if D(st, h.res) is None:
                F.ob("fetch-failure", name == "FetchFailure" and e.args[2] is App("err", h.G), "a transport failure is not reported as a fetch failure with its cause", loc)
            else:
                F.ob("response-failure", D(st, h.res) == 1 and name == "ResponseFailure" and e.args[2] is get_field(h.res, (1, 0)), "an unsuccessful response is not reported as a response failure with its cause", loc)
            continue
        F.ob("status", is_agg(v, RES, 0) and D(st, h.res) == 0, "a stream is opened although the status of the response was not checked", loc)
        if not is_agg(v, RES, 0):
            continue
        o = v.args[2]
        for s2, x in h.method(F, st, o, impl(prog, "SourceStream", "content_length", "HttpStream"), []):
            F.ob("length", opt_is(s2, x, h.CL), "the content length is not that of the response", loc)
        CT = App("ClientResponse.content_type", h.R)
        for s2, x in h.method(F, st, o, inherent(prog, "HttpStream", "content_type"), []):
            x = s2.store.get(x.args[0]) if x.op == "r" and not x.args[1] else un(load(s2, x))
            ps = [t for t in facts_about(s2) if nm(t) in ("parse", "from_str") and get_field(CT, (1, 0)) in subterms(t)]
            if D(s2, CT) == 0 or ps and D(s2, ps[0]) == 1:
                F.ob("type-absent", x is NONE, "a missing or malformed content type is not reported as absent", loc)
            elif ps and D(s2, ps[0]) == 0:
                p = get_field(ps[0], (0, 0))
                ok = is_agg(x, OPT, 1) and is_agg(x.args[2])
                if ok:
                    c = x.args[2]
                    f = lambda n: text(c.args[2 + prog.field_index(c.args[0], n)])
                    ok = [nm(y) for y in f("type")] == ["ty"] and [nm(y) for y in f("subtype")] == ["subty"] and f("type")[0].args[1] is p and f("subtype")[0].args[1] is p
                F.ob("type", ok, "the content type is not the media type of the response", loc)
            else:
                F.ob("type", False, "the content type of the response is not used", loc)
        for s2, x in h.method(F, st, o, inherent(prog, "HttpStream", "headers"), []):
            F.ob("headers", un(load(s2, x)) is h.headers, "the headers are not those of the response", loc)
        for s2, x in h.method(F, st, o, inherent(prog, "HttpStream", "header"), [Sym("NAME")]):
            F.ob("header", x.op == "f" and x.args[0] == "ResponseHeaders.header" and x.args[1] is h.headers and un(x.args[2]) is Sym("NAME"), "a header is not looked up among the headers of the response", loc)
        for b in poll_rules(F, h, st, o, h.body):
            F.ob("body", b, "the stream's data is not the body of the response", loc)
        for s2, x in h.method(F, st, o, impl(prog, "SourceStream", "supports_seek", "HttpStream"), []):
            F.ob("seekable", x is TRUE, "an HTTP stream reports that it cannot seek", loc)
    for s2, x in summary(F, prog, impl(prog, "DecodeError", "decode_error", "HttpStreamError"), [Sym("E")]):
        d = s2.facts.get(App("discr", Sym("E")))
        F.ob("described", x is App("disp", Sym("E")) or x is not None and d is not None and get_field(Sym("E"), (d, 0)) in subterms(x) or Sym("E") in text(x), "the description of an error loses its cause", "decode_error")
    # whether the server supports ranges, as reconnects tell
    for st, o, s2, x, sup in reconnects(F, h):
        if s2.mode.get("rq", 0):
            F.ob("ranges", sup is not None and (nm(s2.g.get("rq")) == "get_range") == sup, "range support is not decided by the Accept-Ranges header of the response", loc)
    return F.r


def facts_about(st):
    return [k.args[1] for k in st.facts if k.op == "f" and k.args[0] == "discr"]


def load(st, r):
    if isinstance(r, T) and r.op == "r":
        v = st.store.get(r.args[0])
        if v is None:
            return r
        for p in r.args[1]:
            v = get_field(v, p)
        return load(st, v)
    return r


def poll_rules(F, h, st, o, body):
    """does polling the stream poll its body, and pass the result on?"""
    class P(Monitor):
        l = []

        def event(self, eng, s, ev):
            if ev.kind == "call" and nm_of(ev.callee) == "poll_next":
                s.mode["polls"] = min(s.mode.get("polls", 0) + 1, 2)
                s.g["polled"] = full(eng, s, ev.args[0])
                s.g["polled_res"] = ev.res
    bid = impl(h.prog, "Stream", "poll_next", "HttpStream")
    e = Ends()

    def init(s):
        s.facts.update(st.facts)
        s.store.update({k: x for k, x in st.store.items() if k[0] == "h"})
        s.store[("h", Sym("self"))] = o
    r = run(h.prog, bid, bid, [SELF, Sym("cx")], [P(), e], dict(EXACT), init)
    r.obl = {}
    F.r.merge(r)
    for s, v in e.l:
        yield s.mode.get("polls") == 1 and body in subterms(s.g["polled"]) and v is s.g["polled_res"]


def nm_of(s):
    return re.split(r"::|\.", s)[-1]


def full(eng, st, v, n=0):
    v = eng.deref(st, v)
    while v.op == "a" and v.args[0].endswith("Pin") and n < 6:
        v = eng.deref(st, v.args[2])
        n += 1
    return v


# ------------------------------------------------------------------------------------------------ P22
RANGES = ("accept-ranges",)


def reconnects(F, h):
    bid = impl(h.prog, "SourceStream", "reconnect", "HttpStream")
    for d, (st, o) in h.opened().items():
        for s2, x in h.method(F, st, o, bid, [Sym("pos")]):
            sup = None
            hs = [t for t in facts_about(s2) if t.op == "f" and t.args[0] == "ResponseHeaders.header" and t.args[1] is h.headers and lit(t.args[2]) in RANGES]
            if hs:
                if s2.facts[App("discr", hs[0])] == 0:
                    sup = False
                else:
                    val = get_field(hs[0], (1, 0))
                    for k, y in s2.facts.items():
                        if k.op == "f" and k.args[0] == "eq" and any(un(z) is un(val) for z in k.args[1:]) and any(lit(z) == "none" for z in k.args[1:]):
                            sup = not y
            yield st, o, s2, x, sup


def lit(t):
    t = un(t)
    return t.args[0][4:].lower() if t.op == "c" and isinstance(t.args[0], str) and t.args[0].startswith("str:") else None


def seek_rules(prog, prop):
    F = Facts(prop)
    F.r.stats["roots"] += ["HttpStream::seek_range", "HttpStream::reconnect"]
    h = Http(F, prog)
    bid = impl(prog, "SourceStream", "seek_range", "HttpStream")
    loc = at(prog, bid)
    END, START = Sym("end"), Sym("start")
    L = get_field(h.CL, (1, 0))
    F.ob("lengths", set(h.opened()) >= {0, 1}, "an HTTP stream's content length is not told apart from its absence", loc)

    def outcome(s2, x, o, req, key, loc):
        """the request was answered: error and status are honoured, the body replaced"""
        now = s2.store.get(("h", Sym("self")))
        res = App("ClientResponse.into_result", App("ok", req))
        d = s2.facts.get(App("discr", res))
        if is_agg(x, RES, 1):
            F.ob(f"{key}-failed", now is o, "a failed request changes the stream", loc)
            F.ob(f"{key}-cause", req in subterms(x), "the error does not come from the failed request", loc)
        else:
            F.ob(f"{key}-status", d == 0, "the status of the response is not checked", loc)
            F.ob(f"{key}-body", replace(now, App("ClientResponse.stream", get_field(res, (0, 0))), Sym("BODY")) is o, "the body of the response does not replace the current one, or something else changes", loc)
    for d, (st, o) in h.opened().items():
        for s2, x in h.method(F, st, o, bid, [START, END]):
            n, now = s2.mode.get("rq", 0), s2.store.get(("h", Sym("self")))
            at_end = truth(s2, mkeq(START, L)) if d == 1 else 0
            if n == 0:
                F.ob("end", at_end == 1 and x is Ok(UNIT), "a seek requests nothing although it does not lead to the end", loc)
                F.ob("empty", replace(now, App("stream::empty"), Sym("BODY")) is o, "a seek to the very end does not yield an empty stream", loc)
                continue
            F.ob("end", at_end == 0, "a seek to the very end sends a request", loc)
            q = s2.g.get("rq")
            ok = n == 1 and q.op == "f" and q.args[0] == "Client.get_range" and q.args[1] is h.client and q.args[2] is Sym("params")
            F.ob("request", ok, "a seek does not send exactly one range request to the stream's URL", loc)
            if not ok:
                continue
            e = s2.facts.get(App("discr", END))
            F.ob("start", q.args[3] is START, "the requested range does not begin at the given start", loc)
            F.ob("range", e == 0 and q.args[4] is NONE or e == 1 and is_agg(q.args[4], OPT, 1) and q.args[4].args[2] is sub(get_field(END, (1, 0)), C(1)),
                 "the requested range does not end one before the given end, or is not open exactly without one", loc)
            outcome(s2, x, o, q, "seek", loc)
    loc = at(prog, impl(prog, "SourceStream", "reconnect", "HttpStream"))
    for st, o, s2, x, sup in reconnects(F, h):
        n, q = s2.mode.get("rq", 0), s2.g.get("rq")
        if n == 0:
            F.ob("reconnect-end", truth(s2, mkeq(Sym("pos"), L)) == 1 and x is Ok(UNIT), "a reconnect requests nothing although data is missing", loc)
            continue
        ranged = q.args[0] == "Client.get_range"
        F.ob("reconnect-one", n == 1 and q.args[1] is h.client and q.args[2] is Sym("params"), "a reconnect does not send exactly one request to the stream's URL", loc)
        F.ob("reconnect-range", ranged or sup is False, "a reconnect to a server that supports ranges does not request a range", loc)
        if ranged:
            F.ob("reconnect-from", q.args[3] is Sym("pos") and q.args[4] is NONE, "a reconnect does not request everything from the current position", loc)
        outcome(s2, x, o, q, "reconnect", loc)
    return F.r


def mkeq(a, b):
    return App("eq", *sorted((a, b), key=lambda t: t.id))


# ------------------------------------------------------------------------------------------------ P24
def client_impls(prog, trait, method):
    out = []
    for (t, m), bs in prog.trait_impls.items():
        if m == method and t.split("::")[-1] == trait:
            out += [(prog.types[b.j["impl_self"]]["s"], b.id) for b in bs]
    return sorted(out)


def chain(t):
    """the builder calls behind a sent request, outermost first"""
    out = []
    while isinstance(t, T) and t.op == "f" and len(t.args) > 1:
        out.append(t)
        t = un(t.args[1])
    return out


def client_rules(prog, prop):
    F = Facts(prop)
    ME, URL, START, END = Sym("self"), Sym("url"), Sym("start"), Sym("end")
    url = Ref(("h", URL), ())

    def init(s):
        s.store[("h", URL)] = URL
        s.store[("h", ME)] = ME
    for ranged in (False, True):
        for ty, bid in client_impls(prog, "Client", "get_range" if ranged else "get"):
            short = ty.split("::")[-1]
            loc = at(prog, bid)
            F.r.stats["roots"].append(bid)
            for st, v in summary(F, prog, bid, [SELF, url] + ([START, END] if ranged else []), ("send", "execute"), init):
                q = st.g.get("rq")
                one = st.mode.get("rq") == 1
                F.ob(f"sent:{short}", one and v is (Ok(App("ok", q)) if is_agg(v, RES, 0) else Err(App("err", q))), "the answer is not that of exactly one request sent", loc)
                if not one:
                    continue
                c = chain(q)
                base = [x for x in c if nm(x) in ("get", "request")]
                F.ob(f"get:{short}", bool(base) and nm(base[-1]) == "get" and [un(y) for y in base[-1].args[1:3]] == [ME, URL], "the request is not a GET request to the given URL", loc)
                hs = [x for x in c if nm(x) == "header"]
                rng = [x for x in hs if "".join(y if isinstance(y, str) else y.args[0] if y.op == "s" and isinstance(y.args[0], str) else "?" for y in text(x.args[2])).lower().split("::")[-1] == "range"]
                if not ranged:
                    F.ob(f"plain:{short}", not rng, "a plain request has a range header", loc)
                    continue
                F.ob(f"header:{short}", len(rng) == 1, "a ranged request does not have one range header", loc)
                for x in rng:
                    d = st.facts.get(App("discr", END))
                    want = ["bytes=", START, "-"] + ([get_field(END, (1, 0))] if d == 1 else [])
                    F.ob(f"format:{short}", d is not None and text(x.args[3]) == want, "the range header is not of the form bytes=start-end or bytes=start-", loc)
    for ty, bid in client_impls(prog, "Client", "create"):
        short = ty.split("::")[-1]
        for st, v in summary(F, prog, bid, [], ("Client::new", "Client::builder", "ClientBuilder::new", "build")):
            pool = any(nm(x) == "lazy" or x.op == "s" and "static" in str(x.args[0]) or x.op == "c" and "{alloc" in str(x.args[0]) for x in subterms(v))
            F.ob(f"shared:{short}", st.mode.get("rq", 0) == 0 and pool, "a default client does not share its connections", at(prog, bid))
    # response adapters
    for ty, bid in client_impls(prog, "ClientResponse", "into_result"):
        for st, v in summary(F, prog, bid, [Sym("me")]):
            es = [k.args[1] for k in st.facts if k.op == "f" and k.args[0] == "discr" and nm(k.args[1]) in ("error_for_status_ref", "error_for_status")]
            es += [k.args[1].args[1] for k in st.facts if k.op == "f" and k.args[0] == "isnt" and nm(k.args[1].args[1]) in ("error_for_status_ref", "error_for_status")]
            if not es:
                F.ob("status", False, "the status of the response is not checked", at(prog, bid))
                continue
            bad = st.facts.get(App("discr", es[0])) == 1
            kept = is_agg(v, RES, 1) and Sym("me") in direct(v.args[2]) and get_field(es[0], (1, 0)) in subterms(v)
            F.ob("status", (kept if bad else is_agg(v, RES, 0) and un(v.args[2]) in (Sym("me"), get_field(es[0], (0, 0)))), "an unsuccessful status does not become an error that carries the response, or a successful one does", at(prog, bid))
    for ty, bid in client_impls(prog, "DecodeError", "decode_error"):
        if not ty.endswith("FetchError"):
            continue
        for st, v in summary(F, prog, bid, [Sym("me")]):
            F.ob("described", any(nm(x) == "text" for x in subterms(v)), "the description of a failed response loses the response's text", at(prog, bid))
    for m, steps, header in (("content_length", ("headers", "get", "to_str", "parse"), "content-length"), ("content_type", ("headers", "get", "to_str"), "content-type")):
        for ty, bid in client_impls(prog, "ClientResponse", m):
            for st, v in summary(F, prog, bid, [SELF], (), init):
                F.ob(m, lookup(st, v, steps, header, ME), f"the {header} is not that header's value, absent exactly if it is missing or malformed", at(prog, bid))
    for ty, bid in client_impls(prog, "ResponseHeaders", "header"):
        for st, v in summary(F, prog, bid, [SELF, Sym("NAME")], (), init):
            F.ob("lookup", lookup(st, v, ("get", "to_str"), Sym("NAME"), ME), "a header lookup does not return that header's text", at(prog, bid))
    for ty, bid in client_impls(prog, "ClientResponse", "headers"):
        for st, v in summary(F, prog, bid, [SELF], (), init):
            F.ob("headers", nm(un(v)) == "headers" and un(un(v).args[1]) is ME, "the headers are not those of the response", at(prog, bid))
    for ty, bid in client_impls(prog, "ClientResponse", "stream"):
        for st, v in summary(F, prog, bid, [Sym("me")]):
            F.ob("body", nm(un(v)) == "bytes_stream" and un(v).args[1] is Sym("me"), "the body is not that of the response", at(prog, bid))
    middleware_rules(F, prog)
    return F.r


def direct(v):
    """the fields of a structure, at any depth"""
    out, todo = [], [v]
    while todo:
        x = un(todo.pop())
        out.append(x)
        if x.op == "a":
            todo += [y for y in x.args[2:] if isinstance(y, T)]
    return out


NAMES = {"parse": ("parse", "from_str")}


def lookup(st, v, steps, header, me):
    """v is Some of the last of a chain of lookups if all succeed, and None if one fails"""
    def step(t, i):
        """is t the (fallible) result of step i on the right value?"""
        t = un(t)
        if i < 0:
            return t is me
        if nm(t) not in NAMES.get(steps[i], (steps[i],)):
            return False
        a = un(t.args[1])
        if steps[i] == "get":
            h = un(t.args[2])
            if not (h is header or isinstance(header, str) and h.op in ("s", "c") and str(h.args[0]).split("::")[-1].split(":")[-1].lower().replace("_", "-") == header):
                return False
        if i == 0 or steps[i - 1] == "headers":
            return step(a, i - 1)
        return a in [un(get_field(x, (var, 0))) for x in facts_about(st) for var in ((1,) if steps[i - 1] == "get" else (0,)) if step(x, i - 1) and st.facts[App("discr", x)] == var]
    n = len(steps) - 1
    if is_agg(v, OPT, 1):
        return any(un(v.args[2]) is un(get_field(x, (0, 0))) and st.facts[App("discr", x)] == 0 for x in facts_about(st) if step(x, n))
    if v is NONE:
        for x in facts_about(st):
            for i in range(len(steps)):
                if steps[i] != "headers" and step(x, i) and st.facts[App("discr", x)] == (0 if steps[i] == "get" else 1):
                    return True
    return False


def middleware_rules(F, prog):
    adds = [b for b in prog.bodies if b.split("::")[-1] == "add_default_middleware" and "Settings" in b]
    cr = [(t, b) for t, b in client_impls(prog, "Client", "create") if t.endswith("ClientWithMiddleware")]
    if not adds or not cr:
        return
    lists = set()
    for b in adds:
        class L(Monitor):
            def locked(self, eng, st, lid, base):
                st.g["list"] = base[1]
                st.store.setdefault(base, Sym("OLD"))
                st.store[base] = Sym("OLD")
        e = Ends()
        r = run(prog, b, b, [Sym("me")], [L(), e], dict(EXACT))
        r.obl = {}
        F.r.merge(r)
        for st, v in e.l:
            base = ("h", st.g.get("list"))
            now = st.store.get(base)
            ok = now is not None and nm(now) == "push" and now.args[1] is Sym("OLD") and Sym("me") in reach(Engine(prog, []), st, now.args[2])
            F.ob("registered", ok, "registering a middleware does not add it behind those registered before", at(prog, b))
            lists.add(st.g.get("list"))
    for t, b in cr:
        class L2(Monitor):
            def locked(self, eng, st, lid, base):
                st.g["list"] = base[1]
                st.store[base] = Sym("OLD")
        e = Ends()
        r = run(prog, b, b, [], [L2(), e], dict(EXACT))
        r.obl = {}
        F.r.merge(r)
        for st, v in e.l:
            ok = v.op == "f" and any(un(a) is Sym("OLD") for a in v.args[1:] if isinstance(a, T)) and st.g.get("list") in lists
            F.ob("middleware", ok, "a default client with middleware does not run exactly the registered middleware, in order", at(prog, b))
            F.ob("middleware-kept", st.store.get(("h", st.g.get("list"))) is Sym("OLD"), "creating a client changes the registered middleware", at(prog, b))
