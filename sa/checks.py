"""The checks: for each property, what is analysed and which rules are applied."""
from .core import World
from .jobs import parallel, task_jobs, reader_jobs, Result
from .load import Prog
from . import rules_task as T
from . import rules_reader as RR
from . import rules_task2 as T2
from . import rules_store as RS
from . import rules_misc as RM
from . import rules_http as RH
from . import rules_io as RI
from . import rules_proc as RP
from . import rules_registry as RG
from . import rules_api as RA
from .core import impl, inherent

CHECKS = {}


class Check:
    def __init__(self, prop, config, run, floors, rule):
        self.prop, self.config, self.run, self.floors, self.rule = prop, config, run, floors, rule


def check(prop, config, floors, rule):
    def deco(f):
        CHECKS[prop] = Check(prop, config, f, floors, rule)
        return f
    return deco


def join(*rs):
    out, errors = Result(), []
    for r, e in rs:
        out.merge(r)
        errors += e
    return out, errors


def task_check(prop, cls, floors, rule, reader=None):
    def run(prog, tier):
        w = World(prog)
        jobs = task_jobs(w, lambda: [cls(w)])
        if reader:
            jobs += reader_jobs(w, lambda: [reader(w)])
        return parallel(jobs)
    CHECKS[prop] = Check(prop, "core", run, floors, rule)


task_check("P01", T.P01, ["flushed", "base"],
           "every range marked available ends at or before the position up to which the writer was flushed, and begins at or after the position of the last jump (or directly behind available bytes)")
task_check("P03", T.P03, ["write-before-move", "move", "finish-unmoved", "next-unmoved", "reconnect-position"],
           "after a successful range request the writer is moved to exactly its start before anything is written or awaited, and is moved at no other time; reconnects ask for writer position plus held-back bytes")
task_check("P04", T.P04, ["write-order", "finish-unwritten"],
           "received bytes are one symbolic sequence: every buffer handed to the storage begins exactly where the last accepted one ended, and nothing is left when the download finishes successfully")
task_check("P05", T.P05, ["unsupported", "bounded", "order", "end", "sent"],
           "every range requested from the transport is well formed, bounded by the content length when it is known, and only requested from sources that support seeking", T.P05R)
task_check("P06", T.P06, ["done-at-end", "failure-recorded", "marked-early", "wait-after-done"],
           "every path to the end of the download task marks the stream as done and wakes all readers, after any failure was recorded; readers start waiting only after having observed under the lock that it is not done", T.P06R)


@check("P07", "core", ["once", "cancelled-outcome", "failed-outcome", "success-outcome", "handed-over", "recorded", "success-after-failure"],
       "every path of the task hands its outcome to the source exactly once, records the failure the source reports; every successful return of the reader has checked for failure since it was last woken")
def p07(prog, tier):
    w = World(prog)
    r, e = parallel(task_jobs(w, lambda: [T.P07(w)]))
    flags = {f for k, f in r.data if k == "flag"}
    return join((r, e), parallel(reader_jobs(w, lambda: [T.P07R(w, flags)])))


task_check("P08", T.P08, ["triggered", "early"],
           "the completion token is triggered on every path of the task, only after the finish handler returned, and by nothing else")
task_check("P09", T.P09, ["unobserved", "outcome", "finish"],
           "every point at which the task can be suspended observes cancellation; after it nothing is written, fetched or announced and the finish handler is told")
task_check("P11", T.P11, ["unbounded-wait", "attempts", "callback", "no-reconnect", "ends"],
           "every wait for the transport is bounded by the retry timeout; a stall leads to exactly one reconnect attempt; the callback runs exactly on success")
task_check("P12", T.P12, ["state", "continues"],
           "an error delivered in place of a chunk changes nothing and the next chunk is awaited")
task_check("P13", T.P13, ["report", "missing", "ended", "no-report", "first-missing"],
           "completion is reported exactly once, after the end of the stream, when nothing is missing; otherwise the first missing range is requested")


def reader_check(prop, cls, floors, rule, roots=None, also=None):
    def run(prog, tier):
        w = World(prog)
        jobs = reader_jobs(w, lambda: [cls(w)], roots=roots(w) if roots else None)
        for c, rs in (also or []):
            jobs += reader_jobs(w, lambda c=c: [c(w)], roots=rs(w))
        return parallel(jobs)
    CHECKS[prop] = Check(prop, "core", run, floors, rule)


@check("P02", "core", ["available", "grows", "shortened", "end"],
       "every return of stored bytes by a read happens only when all bytes the storage may return are known to be available; the range asked for is cut at gaps")
def p02(prog, tier):
    w = World(prog)
    return join(parallel(reader_jobs(w, lambda: [RR.P02(w)])), parallel(task_jobs(w, lambda: [RR.P02T(w)])))


reader_check("P10", lambda w: RR.P10(w, False), ["configured-cancel", "unconfigured-cancel", "explicit"], "dropping the reader fires the cancellation token exactly when the setting given at creation is set; cancel_download always fires it",
             lambda w: [("drop", impl(w.prog, "Drop", "drop", "StreamDownload"), [w.SELF])],
             [(lambda w: RR.P10(w, True), lambda w: [("cancel", inherent(w.prog, "StreamDownload", "cancel_download"), [w.SELF])])])
reader_check("P15", RR.P15, ["read-accepted", "read-effect", "read-rejected", "rejected-late", "seek-effect", "seek-rejected"], "size checks come first, reject exactly what exceeds the capacity, and reject without effect",
             lambda w: T.reader_roots(w)[:1], [(RR.P15S if hasattr(RR, "P15S") else RR.P15, RR.seek_roots)])
reader_check("P16", RR.P16, ["moved-to", "returned", "representable", "unsupported", "rejected-late", "after-rejection"], "the position returned by, and moved to by, a seek equals the requested position (clamped to the content length); overflowing, negative and unsupported ones have no effect", RR.seek_roots)
task_check("P34", T2.P34, ["batch", "yield"], "every write to the storage is at most one batch long and preceded by a yield since the last one that stored data")
task_check("P14", T2.P14, ["announced-position", "wake", "withdrawn", "reached", "withdraw-first", "wake-flag", "room-requested", "remembered", "announce-first", "wake-writer", "request-first", "same-position", "needed", "kept", "taken", "read-wakes"],
           "the writer asks for room before it tries to write, checks the announced position after each write and wakes its reader under the lock; the reader announces and requests before it waits and wakes a waiting writer after every read", T2.P14R)
task_check("P37", T2.P37, ["position", "token", "stream", "chunk-report", "phase", "size", "target", "complete", "unreported"],
           "each chunk that was written is followed by one report with the writer's position, the number of bytes written, and the phase in which it arrived")
task_check("P38", T2.P38, ["early", "whole", "woken", "overdue", "kept-back", "finish"],
           "during a prefetch phase nothing is announced until the target is reached (or the phase is ended), and then all of it is")
task_check("P41", T2.P41, ["slice", "empty-range", "subtraction"],
           "no panic of the library or of a standard-library function it calls is reachable in the task; slices and indices are in range, inserted ranges are not empty, subtractions do not fall below zero")


def store_check(prop, jobs, floors, rule, config="core"):
    def run(prog, tier):
        return parallel(jobs(prog))
    CHECKS[prop] = Check(prop, config, run, floors, rule)


store_check("P17", lambda P: RS.bounded_jobs(P, "w", "P17"), ["ring-position", "ring-end", "prefix", "count", "advance", "most", "other-position", "error-hidden", "error-moves", "progress", "flushed", "seek-other", "seek-target", "shared", "start"],
            "per specification case (room, full, empty buffer): a write stores the longest prefix that overwrites nothing unread, at its position modulo the capacity, and moves only the writer's position")
store_check("P18", lambda P: RS.bounded_jobs(P, "r", "P18"), ["ring-position", "ring-end", "prefix", "count", "advance", "most", "other-position", "error-hidden", "error-moves", "progress", "rejected", "rejected-late", "seek-other", "seek-target", "shared", "start"],
            "per specification case (possible, oversized, overwritten, nothing there, empty buffer): a read returns what the writer stored at its position modulo the capacity, never beyond the writer, and rejects what was overwritten without effect")
store_check("P19", lambda P: RS.memory_jobs(P, "P19"), ["in-range", "equal-length", "place", "order", "other-position", "unchanged", "count", "advance", "most", "progress", "kept", "all", "stored", "readable", "seek-target", "seek-negative", "seek-rejected", "shared", "start", "size"],
            "per specification case: a write stores all bytes at its own position and grows the buffer as needed, a read returns what is there, each moves only its own position; seeks lead exactly to the requested position")
store_check("P21", lambda P: RS.adaptive_jobs(P, "P21"), ["backend", "bounded-size", "once", "bounded", "bounded-ring", "length", "direct", "forwarded", "new", "capacity"],
            "per specification case (unknown, small, large length): exactly the right backend is made with the right size; every operation of every variant is forwarded unchanged")


@check("P20", "core", ["error-ignored", "same-file", "independent", "kept-alive", "configured", "error", "builder", "forwarded", "position-first"],
       "for every way to configure the provider: reader and writer refer to the same new file through different open file descriptions, errors are returned; read-ahead is discarded before every read of the stream")
def p20(prog, tier):
    jobs, buffered = RS.temp_jobs(prog, "P20")
    a = parallel(jobs)
    if not buffered:
        a[0].obl[("P20", "position-first")] = 1
        return a
    w = World(prog)
    return join(a, parallel(reader_jobs(w, lambda: [RS.Fresh(w)], roots=T.reader_roots(w)[:1])))


# what each configured setting is for: obligations of the rules about that role
USES = [("batch", T2.P34, ["batch"]), ("callback", T.P11, ["unbounded-wait", "timeout", "callback", "no-callback"]), ("prefetch", T2.P38, ["early"]), ("progress", T2.P37, ["target", "unreported"])]


def used(prefix, keys, r, e, prop):
    """the obligations of another rule, as obligations of this property"""
    from_, r.obl, r.violations = (r.obl, r.violations), {}, {}
    for (p, k), n in from_[0].items():
        if k.split(":")[0] in keys:
            r.obl[(prop, f"use:{prefix}:{k}")] = n
    for (p, k), v in from_[1].items():
        if k.split(":")[0] in keys:
            r.violations[(prop, f"use:{prefix}:{k}")] = v
    return r, e


@check("P33", "core", ["set", "others-kept", "setter", "separate", "getter", "default:prefetch_bytes", "default:batch_write_size", "default:retry_timeout", "default:cancel_on_drop", "default:on_progress", "default:on_reconnect",
                       "use:batch", "use:callback", "use:prefetch", "use:progress", "use:drop"],
       "every setter, executed abstractly on arbitrary settings, changes exactly one field to its argument, no two setters share a field, every getter returns that field, the defaults are the documented ones; in the download each field is used in its own role (batch bound, retry timeout and callback, prefetch target, progress reports, cancellation on drop)")
def p33(prog, tier):
    a = (RM.settings_rules(prog, "P33"), [])
    w = World(prog)
    rs = [a]
    for name, cls, keys in USES:
        rs.append(used(name, keys, *parallel(task_jobs(w, lambda: [cls(w)])), "P33"))
    rs.append(used("drop", ["configured-cancel", "unconfigured-cancel"], *parallel(reader_jobs(w, lambda: [RR.P10(w, False)], roots=[("drop", impl(w.prog, "Drop", "drop", "StreamDownload"), [w.SELF])])), "P33"))
    return join(*rs)


@check("P36", ("core", "opendal"), [f"{k}:{w}" for w in ("stream-download", "stream-download-opendal") for k in ("success", "error", "kind", "message", "context")],
       "every function of either crate that adds a text to an I/O result or error, executed abstractly: successes are returned unchanged; the new error has the kind of the original one, and its message contains the original error and the context")
def p36(progs, tier):
    return join(*[(RM.context_rules(p, "P36", w), []) for p, w in zip(progs, ("stream-download", "stream-download-opendal"))])


CTORS = ["new", "from_stream", "new_http", "new_http_with_middleware", "new_async_read", "new_process"]
store_check("P42", lambda P: RM.creation_jobs(P, "P42"),
            [f"{k}:{c}" for c in CTORS for k in ("storage", "nothing-started", "storage-failure", "started", "task-parts", "reader", "length", "cancel", "handle")] +
            [f"{k}:{c}" for c in CTORS if c != "from_stream" for k in ("create", "stream-failure")],
            "on every path of every public constructor: the source is created once from the given parameters, the storage made once, by the given provider, for the source's content length; failures are returned under their own variant with their cause and start nothing; otherwise exactly one task is started, with that writer, source and settings, and the reader has the matching storage reader, content length and tokens", "all")


@check("P35", "all", ["nested:own", "released:own", "nested:task", "suspended:task", "foreign:task", "storage:task", "released:task", "nested:reader", "wait:reader", "storage:reader", "released:reader"],
       "in every abstract state of the download task, of every public operation of the reader, and of every function that takes a lock: no lock is acquired, no suspension, wait (other than on the lock's own condition), foreign call or explicit panic happens while one is held, and all are released at the end")
def p35(prog, tier):
    w = World(prog)
    return join(parallel(RM.own_jobs(prog, "own")), parallel(task_jobs(w, lambda: [RM.Locks(w, "task")])), parallel(reader_jobs(w, lambda: [RM.Locks(w, "reader")], {"logging": True})))


def facts_check(prop, f, floors, rule, config):
    @check(prop, config, floors, rule)
    def _(prog, tier):
        return f(prog, prop), []


facts_check("P22", RH.seek_rules, ["lengths", "end", "empty", "request", "start", "range", "seek-failed", "seek-cause", "seek-status", "seek-body", "reconnect-one", "reconnect-range", "reconnect-from", "reconnect-failed", "reconnect-cause", "reconnect-status", "reconnect-body"],
            "on every path of a seek and of a reconnect of a freshly opened stream with an arbitrary body: the number of requests, their range terms, the answer's status, and the resulting stream are compared with the specification", "http")
facts_check("P23", RH.open_rules, ["request", "fetch-failure", "response-failure", "status", "length", "type", "type-absent", "headers", "header", "body", "ranges", "described"],
            "on every path of opening a stream: one plain request; failures under their own variant with their cause; otherwise every accessor of the resulting stream, executed on that very value, returns the corresponding part of the response", "http")
facts_check("P24", RH.client_rules, [f"{k}:{c}" for k in ("sent", "get", "plain", "header", "format", "shared") for c in ("Client", "ClientWithMiddleware")] + ["status", "described", "content_length", "content_type", "lookup", "headers", "body", "registered", "middleware", "middleware-kept"],
            "the request sent by every client implementation is reconstructed as a term: a GET to the URL, with the header text evaluated piece by piece; response adapters are compared path by path with header lookups that fail to absence; the registered middleware is appended and used whole", "http")
facts_check("P25", RI.opendal_rules, ["create-cause", "whole", "object", "length", "no-length", "seek-kept", "seek-cause", "seek-object", "seek-start", "seek-end", "seek-else", "reconnect-kept", "reconnect-cause", "reconnect-object", "reconnect-start", "reconnect-end", "reconnect-else", "seekable"],
            "on every path of opening, seeking and reconnecting: the reader in use is traced back to the operator, path and range it was opened with; failures carry the operator's error and leave the stream unchanged", "opendal")
facts_check("P26", RI.read_rules, ["empty", "one-read", "room", "room-size", "pending", "end", "error", "bytes", "left", "same"],
            "on every path of a poll of a freshly opened stream: one read from the current reader into an empty buffer with room (inductive: the buffer is empty again afterwards); data, end, error and pending are passed on as they are", "opendal")

SRC = ["length", "seekable", "seek_range", "seek_range-kept", "reconnect", "reconnect-kept", "polled", "chunks"]
facts_check("P27", RP.async_rules, [f"{k}:{x}" for k in ("async", "direct", "process") for x in SRC] + ["async:created", "process:created", "params:AsyncReadStreamParams", "setter:AsyncReadStreamParams", "setter:ProcessStreamParams"],
            "every method of a source made from symbolic parameters, executed on that very value: the length is the configured one, seeks and reconnects are unsupported and change nothing, a poll is the reader's poll", "process")
facts_check("P28", RP.finish_rules, ["decided", "own", "failure", "result", "waited", "not-killed", "status", "killed", "outcome", "quiet", "logged", "closed", "order", "reaped", "kept"],
            "on every path of the finish handler with a symbolic result and outcome: wait or kill, their completion, which captured files are read and closed, and the result returned; every process of a pipeline that is given up is one the runtime reaps", "process")
facts_check("P29", RP.spawn_rules, [f"{k}-{x}" for k in ("single", "pipe") for x in ("failure", "failed", "each", "options", "program", "args", "stdout", "stdin", "handle", "file", "kill", "child", "kept")] + ["pipe-reaped"] + [f"builder:{x}" for x in ("new", "arg", "args", "stderr_handle", "first", "pipe")] + ["params"],
            "every spawn on every path of spawning a single command and pipelines of one to four commands with symbolic programs, arguments and handles, and arbitrary failures: program, arguments, pipes, error file, kill-on-drop, and what is kept", "process")
facts_check("P30", RP.line_rules, [f"{k}:{x}" for k in ("ffmpeg", "ffmpeg-arg", "ffmpeg-args") for x in ("output", "input", "audio", "format", "extra")] + ["ffmpeg:program", "ffmpeg:path", "yt-dlp:program", "yt-dlp:path", "yt-dlp:spawned"] + [f"{k}:{x}" for k in ("yt-dlp", "yt-dlp-spawned") for x in ("url", "quiet", "no-part", "no-continue", "output", "audio", "format", "nothing-else")],
            "the command line built by every combination of options, as a term: fixed arguments in place, symbolic URL, format, path and up to three extra arguments where they belong", "process")

facts_check("P31", RG.route_rules, ["once", "nothing", "result", "matching", "order", "given-raw", "given-parsed", "input"],
            "every way in which an arbitrary raw or parsed input goes through registries of up to three entries with arbitrary priorities and up to four rules each: which handler ran, how often, with what, against the rules the path knows to match or not", "registry")
facts_check("P32", RG.match_rules, ["prefix", "prefix-parsed", "string", "string-parsed", "url", "url-parsed", "any", "equality", "pattern", "http", "kind", "matcher", "source"],
            "every rule the constructors make, with every kind of matcher per part, against an arbitrary raw or parsed input: a path hands the input over exactly if the matches it decided on amount to a match", "registry")


@check("P39", None, ["builds", "adds", "same"],
       "every combination of features that selects different code is type-checked, and its public interface (items, signatures, bounds, implementations, required trait items) contains that of every combination with fewer features")
def p39(prog, tier):
    return RA.feature_rules("P39", tier), []


@check("P40", None, RA.parts()[0] + RA.parts()[1],
       "programs that require Send, Sync, UnwindSafe and RefUnwindSafe of the public types and Send of the creating futures, generically over storages and sources, are accepted by the type checker; control programs without the property are rejected")
def p40(prog, tier):
    return RA.witness_rules("P40", tier), []
