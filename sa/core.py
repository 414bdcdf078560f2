"""The download task and the reader, as analysed by the rules about them."""
from .engine import Engine, S, AnalysisError, Infeasible
from .terms import *
from .mon import Monitor

CRATE = "stream_download"


class Missing(AnalysisError):
    """an anchor the analysis needs is gone"""


def fn(prog, *cands):
    """the unique body whose path ends in one of the candidates"""
    for c in cands:
        r = [b for b in prog.bodies if (b == c or b.endswith("::" + c)) and "{closure" not in b.split("::")[-1]]
        if len(r) == 1:
            return r[0]
        if len(r) > 1:
            r2 = [b for b in r if b == CRATE + "::" + c]
            if len(r2) == 1:
                return r2[0]
    raise Missing("function not found: " + cands[0])


def impl(prog, trait, method, self_suffix):
    """the body of a trait method for a type"""
    out = []
    for (t, m), bs in prog.trait_impls.items():
        if m == method and t.split("::")[-1] == trait:
            for b in bs:
                ty = prog.types[b.j["impl_self"]]
                d = ty.get("d", ty["s"])
                if d == self_suffix or d.endswith("::" + self_suffix) or ty["s"] == self_suffix:
                    out.append(b.id)
    if len(out) == 1:
        return out[0]
    if not out:
        raise Missing(f"no implementation of {trait}::{method} for {self_suffix}")
    raise Missing(f"several implementations of {trait}::{method} for {self_suffix}")


def maybe_impl(prog, trait, method, self_suffix):
    try:
        return impl(prog, trait, method, self_suffix)
    except Missing:
        return None


def inherent(prog, typ, name):
    """an inherent method"""
    r = [b for b in prog.bodies if b.split("::<")[0].endswith("::" + typ) and b.endswith("::" + name) and "{closure" not in b] + \
        [b for b in prog.bodies if b.endswith(f"::{typ}::{name}")]
    r = list(dict.fromkeys(r))
    if len(r) != 1:
        raise Missing(f"method {typ}::{name}: {len(r)} candidates")
    return r[0]


class Ends(Monitor):
    def __init__(self):
        self.l = []

    def end(self, eng, st, v):
        self.l.append((st.clone(), v))


class Note(Monitor):
    """remembers who is who in the creation of a download"""
    def __init__(self):
        self.kw = {}

    def event(self, eng, st, ev):
        if ev.kind == "made_storage":
            self.kw.setdefault("writers", set()).add(ev.writer)
            self.kw.setdefault("readers", set()).add(ev.reader)
            self.kw.setdefault("providers", set()).add(ev.provider)
        elif ev.kind == "content_length":
            self.kw.setdefault("streams", set()).add(ev.obj)
        elif ev.kind == "spawn":
            self.kw["spawns"] = self.kw.get("spawns", 0) + 1


class World:
    """the result of creating a download, without its task"""

    def __init__(self, prog):
        self.prog = prog
        note, ends = Note(), Ends()
        eng = Engine(prog, [note, ends], opts={"notask": True})
        self.new = inherent(prog, "StreamDownload", "new")
        eng.run(create_root(eng, self.new))
        self.created = []
        for st, v in ends.l:
            if is_agg(v, RES, 0):
                self.created.append((st, v.args[2]))
        if not self.created:
            raise Missing("StreamDownload::new never succeeds")
        self.st, self.value = self.created[0]
        def one(k):
            x = note.kw.get(k, set())
            if len(x) != 1:
                raise Missing(f"creation involves {len(x)} {k}")
            return next(iter(x))
        self.W, self.R, self.X, self.provider = one("writers"), one("readers"), one("streams"), one("providers")
        self.CL = App("content_length", self.X)
        self.clv = get_field(self.CL, (1, 0))
        # the results of creation that a reader can tell apart (with what is known about each)
        kept = {}
        for st, v in self.created:
            heap = {k: x for k, x in st.store.items() if k[0] == "h"}
            key = (v.id, tuple(sorted((str(k[1:]), x.id) for k, x in heap.items() if x.closed)))
            if key in kept:
                facts = kept[key][1]
                for f in [f for f in facts if f not in st.facts or st.facts[f] is not facts[f] and st.facts[f] != facts[f]]:
                    del facts[f]
            else:
                kept[key] = (heap, dict(st.facts), v)
        self.outcomes = list(kept.values())
        if len(self.outcomes) > 8:
            raise Missing(f"StreamDownload::new has {len(self.outcomes)} successful outcomes")
        self.settings = Sym("settings")
        self._roles()

    # ---- who is who, decided by what the public methods do
    def _roles(self):
        self.T = self.simple(inherent(self.prog, "StreamDownload", "cancellation_token"))
        self.F = self.handle_token()
        self.setfields = setting_fields(self.prog)

    def states(self, role):
        return [self.state(role, o) for o in self.outcomes]

    def state(self, role, outcome):
        heap, facts, value = outcome
        st = S()
        st.mode["role"] = role
        st.store = dict(heap)
        st.facts = dict(facts)
        st.g = {("pos", self.R): Sym("rpos"), ("pos", self.W): Sym("wpos")}
        st.store[("h", Sym("self"))] = value
        return st

    def callbacks(self):
        """the optional callbacks of the settings"""
        return frozenset(get_field(self.settings, (None, i)) for n, i in self.setfields.items() if n.startswith("on_"))

    SELF = Ref(("h", Sym("self")), ())

    def run(self, bid, args, monitors, role, opts=None, init=None):
        eng = Engine(self.prog, monitors, opts=opts)
        starts = []
        for st in self.states(role):
            if init:
                init(st)
            starts.append(eng.start(st, bid, args))
        eng.run(starts)
        return eng

    def simple(self, bid, args=None):
        e = Ends()
        self.run(bid, args or [self.SELF], [e], "get")
        vs = {v for _, v in e.l}
        if len(vs) != 1:
            raise Missing(f"{bid} has {len(vs)} results")
        return next(iter(vs))

    def handle_token(self):
        """what StreamHandle::wait_for_completion waits for"""
        h = self.simple(inherent(self.prog, "StreamDownload", "handle"))
        bid = inherent(self.prog, "StreamHandle", "wait_for_completion")
        toks = set()

        class M(Monitor):
            def event(s, eng, st, ev):
                if ev.kind == "cancelled":
                    toks.add(ev.tok)
        b = self.prog.bodies[bid]
        byval = self.prog.types[b.locals[1][0]]["k"] != "ref"
        def init(st):
            st.store[("h", Sym("handle"))] = h
        self.run(bid, [h if byval else Ref(("h", Sym("handle")), ())], [M()], "handle", init=init)
        if len(toks) != 1:
            raise Missing(f"a stream handle waits for {len(toks)} tokens")
        return next(iter(toks))


def create_root(eng, bid, assume=None):
    st = S()
    st.mode["role"] = "create"
    if assume:
        assume(st)
    return eng.start(st, bid, [Sym("params"), Sym("provider"), Sym("settings")])


def changed(self_, v):
    """the fields in which v differs from self"""
    if v.op == "u":
        return [v.args[i][1] for i in range(1, len(v.args), 2) if v.args[i][0] is None]
    if v.op == "a":
        return [i for i, x in enumerate(v.args[2:]) if x is not get_field(self_, (None, i))]
    return []


def setting_fields(prog):
    """setter name -> index of the settings field it changes"""
    self_, arg = Sym("self"), Sym("arg")
    out = {}
    for b in prog.bodies:
        p = b.split("::")
        if "Settings::<S>" in b and len(p) > 2 and p[-2] == "<S>" and "{closure" not in b and prog.bodies[b].argc == 2:
            e = Ends()
            eng = Engine(prog, [e])
            st = S()
            st.mode["role"] = "get"
            try:
                eng.run(eng.start(st, b, [self_, arg]))
            except AnalysisError:
                continue
            fs = set()
            for _, v in e.l:
                if v.op == "u":
                    fs.add(tuple(v.args[i] for i in range(1, len(v.args), 2)))
                elif v.op == "a":
                    fs.add(tuple((None, i) for i, x in enumerate(v.args[2:]) if x is not get_field(self_, (None, i))))
            if len(fs) != 1 or len(next(iter(fs))) != 1:
                # a setter that changes several fields: the one that takes what it is given (P33 reports the others)
                given = {i for _, v in e.l for i in changed(self_, v) if arg in subterms(get_field(v, (None, i)))}
                fs = {((None, i),) for i in given}
            if len(fs) == 1 and len(next(iter(fs))) == 1:
                out[p[-1]] = next(iter(fs))[0][1]
    return out
