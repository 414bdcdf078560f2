"""Rules about the registry (P31) and its matchers (P32)."""
import re
from .engine import Engine
from .terms import *
from .mon import Monitor
from .core import *
from . import models as M
from .rules_misc import Facts
from .rules_store import run
from .rules_http import SELF, summary, nm, un, at, EXACT, full, text, replace, lit
from .rules_task import variant_name
from .rules_proc import plain, items, struct, member

ENTRY = "RegistryEntry"


class Entries(Monitor):
    """registry entries: entry i has the rules given for it, an unknown priority, and a handler whose result tells what it was given"""

    def __init__(self, rules):
        self.rules = rules

    def which(self, eng, st, v):
        v = eng.deref(st, v)
        n = 0
        while v.op == "r" and n < 6:
            v = eng.load(st, *v.args)
            n += 1
        ids = {t for t in subterms(v) if t.op == "s" and str(t.args[0]).startswith("entry")}
        return ids.pop() if len(ids) == 1 else None

    def call(self, eng, st, c):
        n = c.f.get("m")
        if n not in ("rules", "handler", "priority") or not (c.f.get("tr") or c.name).split("::<")[0].endswith((ENTRY, f"{ENTRY}::{n}")):
            return None
        e = self.which(eng, st, c.args[0])
        if e is None:
            return None
        if n == "priority":
            return eng.ret(st, App("RegistryEntry.priority", e))
        if n == "rules":
            k = ("h", App("rules", e))
            st.store[k] = Agg("vec", 0, *self.rules[int(e.args[0][5:])])
            return eng.ret(st, Ref(k, ()))
        st.g["handled"] = Agg("log", 0, *st.g.get("handled", Agg("log", 0)).args[2:], Tup(e, deep(eng, st, c.args[1])))
        return eng.ret(st, M.Fut("handled", e))


def deep(eng, st, v, fuel=8):
    """a value with the references in it followed"""
    v = plain(eng, st, v)
    if v.op == "a" and fuel:
        return mk("a", *v.args[:2], *[deep(eng, st, x, fuel - 1) for x in v.args[2:]])
    return v


@M.fut("handled")
def _(eng, st, e):
    return M.pending(eng, st) + eng.ret(st, Ready(App("handled", e)))


def registry(F, prog, rules):
    """[(state, registry)]: a registry to which entries were added one by one"""
    l = execute(F, prog, inherent(prog, "Registry", "new"), [], None, rules)
    bid = inherent(prog, "Registry", "entry")
    for i in range(len(rules)):
        l = [y for s, v in l for y in execute(F, prog, bid, [v, Sym(f"entry{i}")], s, rules)]
    return l


def execute(F, prog, bid, args, st, rules):
    def init(s):
        if st is not None:
            s.facts.update(st.facts)
            s.store.update({k: x for k, x in st.store.items() if k[0] == "h"})
            s.ineq = st.ineq
    e = Ends()
    r = run(prog, bid, bid, args, [Entries(rules), e], dict(EXACT), init)
    r.obl = {}
    F.r.merge(r)
    F.r.functions.add(bid)
    return e.l


# ------------------------------------------------------------------------------------------------ what should match
CONVS = ("*", "clone", "to_string", "to_owned", "into", "from", "as_str", "as_ref", "borrow", "deref", "as_deref", "disp")
ANY = ("any",)


def norm(t, memo=None):
    """a term without references and conversions between kinds of text"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        u = un(t)
        if u.op == "p":
            r = get_field(norm(u.args[0], memo), u.args[1:])
        elif u.op == "f" and len(u.args) == 2 and nm(u) in CONVS:
            r = norm(u.args[1], memo)
        elif any(isinstance(x, T) for x in u.args):
            r = mk(u.op, *[norm(x, memo) if isinstance(x, T) else x for x in u.args])
        else:
            r = u
        memo[t] = r
    return r


def http_like(pattern):
    """does a pattern match exactly http and https among schemes?"""
    try:
        r = re.compile(pattern)
    except re.error:
        return False
    no = ("ftp", "file", "h", "htt", "xhttp", "xhttps", "httpx", "httpsx", "httpss", "http2", "ws", "wss", "data", "hxxp", "shttp", "https-http", "http+unix", "http.", "s", "blob")
    return all(r.search(x) for x in ("http", "https")) and not any(r.search(x) for x in no)


class Known:
    """what a path knows about the input, in three values"""

    def __init__(self, st, raw=None, parsed=None):
        self.st, self.raw, self.parsed = st, raw, parsed
        self.facts = {}
        for k, v in st.facts.items():
            self.facts.setdefault(norm(k), v)
        if raw is not None:
            self.url, self.is_url = self.parse(raw)
            self.text = raw
        else:
            self.prefix, src = parsed
            d = self.discr(src)
            self.is_url = None if d is None else d == 0
            self.url, self.text = get_field(src, (0, 0)), get_field(src, (1, 0))

    def discr(self, t):
        return self.facts.get(norm(App("discr", t)))

    def parse(self, text):
        """(the URL a text is, whether it is one)"""
        for k, v in self.facts.items():
            if k.op == "f" and k.args[0] == "discr" and nm(k.args[1]) in ("parse", "from_str", "try_from") and k.args[1].args[1:] == (norm(text),):
                return norm(get_field(k.args[1], (0, 0))), v == 0
        return None, None

    def eq(self, a, b):
        a, b = norm(a), norm(b)
        if a is b:
            return True
        for k, v in self.facts.items():
            if k.op == "f" and k.args[0] == "eq" and set(k.args[1:]) == {a, b}:
                return bool(v)
        return None

    def fn(self, name, *args):
        for k, v in self.facts.items():
            if k.op == "f" and nm(k) == name and k.args[1:] == tuple(norm(x) for x in args):
                return bool(v)
        return None

    def value(self, m, x):
        """does a matcher match a value?"""
        if m is ANY:
            return True
        if m[0] == "text":
            return self.eq(Sym(m[1]), x)
        if m[0] == "regex":
            return self.fn("is_match", Sym(m[1]), x)
        e = [self.eq(x, mk("c", f"str:{s}")) for s in ("http", "https")]
        if True in e or e == [False, False]:
            return True in e
        for k, v in self.facts.items():
            if k.op == "f" and nm(k) == "is_match" and k.args[2] is norm(x):
                pats = [lit(t) for t in subterms(k.args[1]) if lit(t) is not None]
                if len(pats) == 1 and http_like(pats[0]):
                    return bool(v)
        return None

    def part(self, m, x, d):
        """a matcher on a part that may be absent"""
        if m is ANY:
            return True
        return None if d is None else self.value(m, x) if d else False

    def starts(self, p):
        v = self.fn("starts_with", self.raw, p)
        if v is None:
            d = self.discr(App("str::strip_prefix", norm(self.raw), norm(p)))
            for k, x in self.facts.items():
                if k.op == "f" and k.args[0] == "discr" and nm(k.args[1]) == "strip_prefix" and k.args[1].args[1:] == (norm(self.raw), norm(p)):
                    d = x
            v = None if d is None else d == 1
        return v

    def rest(self, p):
        """the ways in which the text after a prefix can be had"""
        return lambda t: (t := norm(t)).op == "f" and (nm(t) == "replacen" and t.args[1:4] == (norm(self.raw), norm(p), mk("c", "str:")) and t.args[4:] == (C(1),)
                                                       or False) or t.op == "p" and nm(t.args[0]) == "strip_prefix" and t.args[0].args[1:] == (norm(self.raw), norm(p)) and t.args[1:] == (1, 0)

    def matches(self, rule):
        kind = rule[0]
        if kind == "prefix":
            p = Sym(rule[1])
            if self.raw is not None:
                return self.starts(p)
            d = self.discr(self.prefix)
            v = self.eq(get_field(self.prefix, (1, 0)), p)
            return False if d == 0 else v if d == 1 else None
        if self.is_url is None:
            return None
        if kind == "string":
            return False if self.is_url else self.value(rule[1], self.text)
        if not self.is_url:
            return False
        dom = next((k.args[1] for k in self.facts if k.op == "f" and k.args[0] == "discr" and nm(k.args[1]) == "domain" and k.args[1].args[1] is norm(self.url)), None)
        sch = next((x for x in self.terms() if nm(x) == "scheme" and x.args[1] is norm(self.url)), App("Url::scheme", norm(self.url)))
        a = self.value(rule[1], sch)
        b = self.part(rule[2], get_field(dom, (1, 0)) if dom is not None else UNIT, self.discr(dom) if dom is not None else None)
        return False if a is False or b is False else True if a and b else None

    def terms(self):
        for k in self.facts:
            yield from subterms(k)


def rule_value(F, prog, r):
    """a rule as the public constructors make it"""
    MT = next(k for k in prog.adts if k.endswith("::Matcher") and prog.adts[k].get("local"))
    names = prog.adts[MT]["v"]
    var = {x["n"]: i for i, x in enumerate(names)}
    m = lambda x: Agg(MT, var["String" if x[0] == "text" else "Regex"], Sym(x[1]))
    kind = r[0]
    if kind == "prefix":
        n, a = "prefix", [Sym(r[1])]
    elif kind == "string":
        n, a = ("any_string", []) if r[1] is ANY else ("string", [m(r[1])])
    else:
        s, d = r[1:]
        if s == ("http",):
            n, a = ("any_http", []) if d is ANY else ("http_domain", [m(d)])
        elif s is ANY:
            n, a = ("any_url", []) if d is ANY else ("url_domain", [m(d)])
        else:
            n, a = ("url_scheme", [m(s)]) if d is ANY else ("url", [m(s), m(d)])
    l = execute(F, prog, inherent(prog, "Rule", n), a, None, [])
    if len(l) != 1:
        raise Missing(f"Rule::{n}: {len(l)} outcomes")
    return l[0][1]


def inputs(prog):
    """(input, what is known of it from a state)"""
    ty = lambda n: next(k for k in prog.adts if k.endswith(n) and prog.adts[k].get("local"))
    it = ty("registry::InputType")
    var = {x["n"]: i for i, x in enumerate(prog.adts[it]["v"])}
    px, src = Sym("given prefix"), Sym("given source")
    whole = struct(prog, "registry::Input", prefix=px, source=src)
    return {"raw": (Agg(it, var["Raw"], Sym("raw")), lambda st: Known(st, raw=Sym("raw"))),
            "parsed": (Agg(it, var["Parsed"], whole), lambda st: Known(st, parsed=(px, src)))}


def source_is(prog, v, url, text, is_url):
    """is a source the URL, or the text?"""
    n = variant_name(Engine(prog, []), v) if v.op == "a" else None
    return n == "Url" and is_url is True and norm(v.args[2]) is norm(url) or n == "String" and is_url is False and (text(norm(v.args[2])) if callable(text) else norm(v.args[2]) is norm(text))


def same_option(k, v, t):
    d = k.discr(t)
    return norm(v) is t or d == 0 and v is NONE or is_agg(v, OPT, 1) and norm(v.args[2]) is norm(get_field(t, (1, 0))) and d != 0


def given(prog, k, rules, x):
    """is x what a handler with these rules is to be given?"""
    x = un(x)
    if x.op != "a":
        return False
    p, s = un(member(prog, x, "prefix")), un(member(prog, x, "source"))
    if k.parsed is not None:
        d = k.discr(k.parsed[1])
        return same_option(k, p, k.parsed[0]) and (norm(s) is k.parsed[1] or source_is(prog, s, k.url, k.text, k.is_url))
    for r in rules:
        if r[0] == "prefix" and k.starts(Sym(r[1])):
            if not (is_agg(p, OPT, 1) and norm(p.args[2]) is Sym(r[1])):
                continue
            ok = k.rest(Sym(r[1]))
            payload = norm(s.args[2]) if s.op == "a" else norm(s)
            rest = next((t for t in subterms(payload) if ok(t)), None)
            if rest is None:
                continue
            url, is_url = k.parse(rest)
            if source_is(prog, s, url if url is not None else UNIT, rest, is_url):
                return True
    if any(r[0] == "prefix" and k.starts(Sym(r[1])) is not False for r in rules):
        return False
    return p is NONE and source_is(prog, s, k.url if k.url is not None else UNIT, k.text, k.is_url)


def routed(F, prog, descs, kind):
    """(what is known, handlers run with their input, result) of every way in which an input can go through a registry with the given rules per entry"""
    rules = [tuple(rule_value(F, prog, r) for r in l) for l in descs]
    v0, what = inputs(prog)[kind]
    bid = inherent(prog, "Registry", "find_match")
    K = ("h", Sym("registry"))
    for st, v in registry(F, prog, rules):
        st.store[K] = v
        for s, res in execute(F, prog, bid, [Ref(K, ()), v0], st, rules):
            yield s, what(s), [(int(y.args[2].args[0][5:]), y.args[3]) for y in s.g.get("handled", Agg("log", 0)).args[2:]], res


def before(s, i, j, eng):
    """is entry i tried before entry j? (None: unknown)"""
    p, q = (App("RegistryEntry.priority", Sym(f"entry{x}")) for x in (i, j))
    if eng.lt(s, p, q) or i < j and eng.le(s, p, q):
        return True
    if eng.lt(s, q, p) or j < i and eng.le(s, q, p):
        return False
    return None


PRE, PRE2, TEXT, RE, URL, HTTP, ALLS, ALLU = ("prefix", "p"), ("prefix", "q"), ("string", ("text", "t")), ("string", ("regex", "r")), ("url", ("text", "s"), ("regex", "d")), ("url", ("http",), ANY), ("string", ANY), ("url", ANY, ANY)
ROUTES = [[[TEXT], [("string", ("text", "u"))], [("string", ("text", "w"))]],
          [[PRE], [PRE2]],
          [[PRE, ALLS], [TEXT, URL]],
          [[URL, PRE], [HTTP]],
          [[TEXT, URL, RE, PRE], [PRE2, ALLU, ALLS]],
          [[PRE, PRE2], [], [ALLU]],
          []]


def route_rules(prog, prop):
    F = Facts(prop)
    eng = Engine(prog, [])
    bid = inherent(prog, "Registry", "find_match")
    F.r.stats["roots"] += [bid, inherent(prog, "Registry", "entry"), inherent(prog, "Registry", "new")]
    loc = at(prog, bid)
    for descs in ROUTES:
        for kind in ("raw", "parsed"):
            for s, k, ran, res in routed(F, prog, descs, kind):
                F.ob("once", len(ran) <= 1, "more than one handler is run, or one is run more than once", loc)
                m = [[k.matches(r) for r in l] for l in descs]
                if not ran:
                    F.ob("nothing", res is NONE and all(x is False for l in m for x in l), "an input is not handed to an entry although it may match one of its rules", loc)
                    continue
                j, x = ran[0]
                F.ob("result", res is Some(App("handled", Sym(f"entry{j}"))), "the result of the handler is not returned", loc)
                F.ob("matching", True in m[j], "a handler is run although none of its rules matches", loc)
                for i in range(len(descs)):
                    if i != j and any(y is not False for y in m[i]):
                        F.ob("order", before(s, j, i, eng) is True, "a handler is run although an entry that comes before it may match", loc)
                F.ob(f"given-{kind}", given(prog, k, descs[j], x), "a handler is not given the input without its prefix (if it matched by prefix), or the parsed input", loc)
    for b in [b for l in prog.trait_impls.values() for b in l if b.id.split("::")[-1] == "from" and b.j.get("impl_self") is not None and prog.types[b.j["impl_self"]]["s"].endswith("registry::InputType")]:
        par = "registry::Input" in prog.types[b.locals[1][0]]["s"]
        for s, v in execute(F, prog, b.id, [Sym("x")], None, []):
            n = variant_name(eng, v) if v.op == "a" else None
            F.ob("input", n == ("Parsed" if par else "Raw") and norm(v.args[2]) is Sym("x"), "what the registry is asked for is not what it was given", at(prog, b.id))
    return F.r


# ------------------------------------------------------------------------------------------------ P32
T_, R_ = ("text", "a"), ("regex", "b")
SINGLE = [("prefix", "p")] + [("string", m) for m in (ANY, T_, R_)] + [("url", m, n) for m in (ANY, ("text", "c"), ("regex", "d"), ("http",)) for n in (ANY, T_, R_)]


def match_rules(prog, prop):
    F = Facts(prop)
    bid = inherent(prog, "Registry", "find_match")
    F.r.stats["roots"] += [bid, inherent(prog, "Rule", "prefix")]
    loc = at(prog, bid)
    for r in SINGLE:
        for kind in ("raw", "parsed"):
            for s, k, ran, res in routed(F, prog, [[r]], kind):
                m = k.matches(r)
                w = r[0] if kind == "raw" else r[0] + "-parsed"
                ms = {x for x in r[1:] if isinstance(x, tuple)}
                F.ob(f"{w}", m is not None and bool(ran) == m, f"a {r[0]} rule does not match exactly what it describes", loc)
                for x in ms:
                    F.ob(f"{ {'text': 'equality', 'regex': 'pattern', 'any': 'any', 'http': 'http'}[x[0]]}", m is not None and bool(ran) == m, "a matcher does not match exactly what it describes", loc)
                if kind == "raw":
                    F.ob("kind", k.is_url is not None or r[0] == "prefix" and bool(ran), "whether an input is a URL is not decided by parsing it", loc)
    MT = next(k for k in prog.adts if k.endswith("::Matcher") and prog.adts[k].get("local"))
    eng = Engine(prog, [])
    n = 0
    for b in [b for l in prog.trait_impls.values() for b in l if b.id.split("::")[-1] == "from" and b.j.get("impl_self") is not None and prog.types[b.j["impl_self"]].get("d") == MT]:
        t = prog.types[b.locals[1][0]]["s"]
        for s, v in execute(F, prog, b.id, [Sym("x")], None, []):
            F.ob("matcher", v.op == "a" and variant_name(eng, v) == ("Regex" if "regex" in t.lower() else "String") and norm(v.args[2]) is Sym("x"), "a matcher is not made of what it is given", at(prog, b.id))
    for s, v in execute(F, prog, impl(prog, "From", "from", "Source"), [Sym("x")], None, []):
        k = Known(s, raw=Sym("x"))
        F.ob("source", source_is(prog, v, k.url if k.url is not None else UNIT, k.text, k.is_url), "a text that is a URL is not taken as one, or another text is", "Source::from")
    for name in [b for b in prog.bodies if b.endswith("::http_regex")]:
        for s, v in execute(F, prog, name, [], None, []):
            pats = [t.args[0][4:] for t in subterms(v) if t.op == "c" and isinstance(t.args[0], str) and t.args[0].startswith("str:")]
            F.ob("http", len(pats) == 1 and http_like(pats[0]), "the pattern for HTTP does not match exactly the schemes http and https", at(prog, name))
    return F.r
