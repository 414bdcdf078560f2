"""Runs independent analyses (one per root and assumption) in parallel processes and merges their findings."""
import multiprocessing
import os
import time
import traceback
from .engine import Engine, S, AnalysisError, Infeasible
from .terms import *

_jobs = []


class Result:
    def __init__(self):
        self.obl = {}            # (prop, key) -> count
        self.violations = {}     # (prop, key) -> dict
        self.stats = {"blocks": 0, "joins": 0, "contexts": 0, "partitions": 0, "roots": []}
        self.functions = set()
        self.sites = set()
        self.unknown = {}
        self.data = []

    def add_engine(self, eng, root):
        for k, n in eng.stats.get("obl", {}).items():
            self.obl[k] = self.obl.get(k, 0) + n
        for k, v in eng.violations.items():
            self.violations.setdefault(k, v)
        for k in ("blocks", "joins", "contexts", "partitions"):
            self.stats[k] += eng.stats[k]
        self.stats["roots"].append(root)
        self.functions |= {b for b in eng.stats["bodies"]}
        for kind, ss in eng.stats["sites"].items():
            self.sites |= {(kind,) + x for x in ss}
        for k, v in eng.unknown_calls.items():
            self.unknown[k] = self.unknown.get(k, 0) + (v if isinstance(v, int) else 1)

    def merge(self, o):
        for k, n in o.obl.items():
            self.obl[k] = self.obl.get(k, 0) + n
        for k, v in o.violations.items():
            self.violations.setdefault(k, v)
        for k in ("blocks", "joins", "contexts", "partitions"):
            self.stats[k] += o.stats[k]
        self.stats["roots"] += o.stats["roots"]
        self.functions |= o.functions
        self.sites |= o.sites
        for k, v in o.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v
        self.data += o.data


def _work(i):
    try:
        return ("ok", _jobs[i]())
    except AnalysisError as e:
        return ("missing", str(e))
    except Exception:
        return ("crash", traceback.format_exc()[-1500:])


def parallel(jobs, procs=None):
    """runs the jobs (callables returning a Result); returns (Result, [errors])"""
    global _jobs
    _jobs = list(jobs)
    out, errors = Result(), []
    procs = procs or min(len(_jobs), os.cpu_count() or 1)
    if procs <= 1 or len(_jobs) == 1:
        rs = [_work(i) for i in range(len(_jobs))]
    else:
        with multiprocessing.get_context("fork").Pool(procs, maxtasksperchild=1) as p:
            rs = p.map(_work, range(len(_jobs)), chunksize=1)
    for kind, r in rs:
        if kind == "ok":
            out.merge(r)
        else:
            errors.append(r)
    return out, errors


def task_jobs(w, make):
    """the download task under every combination of the quantities fixed at creation"""
    from .core import create_root
    pf = get_field(w.settings, (None, w.setfields["prefetch_bytes"])) if "prefetch_bytes" in w.setfields else None
    jobs = []
    for cl in (0, 1):
        for seek in (0, 1):
            for pre in ((0, 1) if pf is not None else (None,)):
                def job(cl=cl, seek=seek, pre=pre):
                    mons = make()
                    eng = Engine(w.prog, mons, opts={k: v for m in mons for k, v in getattr(m, "opts", {}).items()})
                    if not any(getattr(m, "callbacks", False) for m in mons):
                        eng.nopart = w.callbacks()

                    def assume(st):
                        st.facts[App("discr", w.CL)] = cl
                        st.facts[App("supports_seek", w.X)] = seek
                        for m in mons:
                            for n in getattr(m, "given", ()):
                                st.facts[App("discr", get_field(w.settings, (None, w.setfields[n])))] = 1
                        if pre is not None:
                            eng.assume(st, eng.cmp("Eq", pf, ZERO), pre == 0)
                    eng.run(create_root(eng, w.new, assume))
                    r = Result()
                    for m in mons:
                        m.done(eng)
                        if hasattr(m, "data"):
                            r.data += m.data()
                    r.add_engine(eng, f"download task [content length {'known' if cl else 'unknown'}, seeking {'supported' if seek else 'unsupported'}"
                                 + ("" if pre is None else f", prefetch {'> 0' if pre else '= 0'}") + "]")
                    return r
                jobs.append(job)
    return jobs


def reader_jobs(w, make, opts=None, roots=None):
    """the public methods of the reader, from an arbitrary state of the download"""
    from .rules_task import reader_roots, extra_reader_roots
    jobs = []
    for name, bid, args in (reader_roots(w) + extra_reader_roots(w) if roots is None else roots):
        def job(name=name, bid=bid, args=args):
            mons = make()
            eng = Engine(w.prog, mons, opts=opts)
            if not any(getattr(m, "callbacks", False) for m in mons):
                eng.nopart = w.callbacks()
            eng.rootname = name
            starts = []
            for st in w.states("reader"):
                for m in mons:
                    if hasattr(m, "begin"):
                        m.begin(eng, st, name)
                starts.append(eng.start(st, bid, args))
            eng.run(starts)
            r = Result()
            for m in mons:
                m.done(eng)
                if hasattr(m, "data"):
                    r.data += m.data()
            r.add_engine(eng, "reader: " + name)
            return r
        jobs.append(job)
    return jobs
