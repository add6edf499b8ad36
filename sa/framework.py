"""Reports, known findings, evidence."""
import json
import os
import time
import traceback

from .program import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")


class Finding(object):
    def __init__(self, rule, construct, where, message, path=()):
        self.rule, self.construct, self.where, self.message, self.path = rule, construct, where, message, list(path)

    @property
    def key(self):
        return "%s %s" % (self.rule, self.construct)

    def text(self):
        out = ["%s: [%s] %s: %s" % (self.where, self.rule, self.construct, self.message)]
        out += ["    via %s" % p for p in self.path]
        return "\n".join(out)


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.counters = {}
        self.rules = {}
        self.samples = {}
        self.unanalysed = []
        self.floors = {}
        self.functions = set()

    def rule(self, name, text):
        self.rules[name] = text
        self.counters.setdefault("obligations." + name, 0)

    def ok(self, rule, construct=None, n=1):
        """An obligation of the rule that was examined (whatever the outcome)."""
        self.counters["obligations." + rule] = self.counters.get("obligations." + rule, 0) + n
        if construct is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 8 and construct not in s:
                s.append(construct)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def add(self, rule, construct, where, message, path=()):
        f = Finding(rule, construct, where, message, path)
        if f.key not in self.findings:
            self.findings[f.key] = f

    def floor(self, rule, n):
        self.floors[rule] = n

    def skipped(self, what, why):
        self.unanalysed.append("%s: %s" % (what, why))

    def merge(self, other):
        for k, f in other.findings.items():
            self.findings.setdefault(k, f)
        for k, v in other.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in other.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend(x for x in v if x not in s)
            del s[8:]
        self.unanalysed.extend(other.unanalysed)
        self.functions |= {getattr(f, "qualname", f) for f in other.functions}

    def guard(self, what, fn, *args):
        """Run one part of an analysis; a construct outside the supported subset is noted, not fatal."""
        try:
            return fn(*args)
        except AnalysisBroken as x:
            self.skipped(what, str(x))
        except RecursionError:
            self.skipped(what, "recursion limit")
        except Exception as x:  # noqa
            if os.environ.get("SA_DEBUG"):
                raise
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.skipped(what, "%s: %s (%s:%d)" % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        return None


def call_path(ev):
    """Readable call chain of an event."""
    out = []
    for fi, node in ev.stack:
        if fi.name == "<entry>":
            out.append(fi.qualname)
        else:
            out.append("%s:%s %s" % (fi.module.relpath, getattr(node, "lineno", "?"), fi.qualname))
    return out


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)


def finish(rep, program, t0, tier, seed):
    """Print, write evidence; return the exit code."""
    known = [k for k in load_known() if k["property"] == rep.prop and k.get("status") == "known"]
    bykey = {k["key"]: k for k in known}
    new, old = [], []
    for key, f in sorted(rep.findings.items()):
        (old if key in bykey else new).append(f)
    total = sum(v for k, v in rep.counters.items() if k.startswith("obligations."))
    broken = []
    for r, n in rep.floors.items():
        got = rep.counters.get("obligations." + r, 0)
        if got < n:
            broken.append("rule %s examined %d obligations, expected at least %d" % (r, got, n))
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": rep.prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the package source: every listed rule was checked at every obligation counted here",
            "rules": rep.rules,
            "obligations": total,
            "obligations_by_rule": {k[len("obligations."):]: v for k, v in rep.counters.items()
                                    if k.startswith("obligations.")},
            "counters": {k: v for k, v in rep.counters.items() if not k.startswith("obligations.")},
            "examples": rep.samples,
            "functions_analysed": len(rep.functions),
            "modules_analysed": len(program.modules),
            "source_digest": program.digest(),
            "unanalysed": rep.unanalysed[:50],
        },
        "assumptions": ["library functions behave as in the effect table sa/extmodel.py"],
        "violations": [{"rule": f.rule, "construct": f.construct, "where": f.where, "message": f.message,
                        "path": f.path, "known": f.key in bykey} for f in old + new],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(EVIDENCE, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for u in rep.unanalysed:
        print("NOTE: not analysed: %s" % u)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, f.text().replace("\n", " | ")))
    print("%s: %d obligations under %d rules, %d functions, %.1f s" % (
        rep.prop, total, len(rep.rules), len(rep.functions), time.time() - t0))
    if new:
        rp = os.path.join(EVIDENCE, rep.prop + ".violation.txt")
        with open(rp, "w") as f:
            for x in new:
                f.write(x.text() + "\n")
        for x in new:
            print(x.text())
        print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
        return 1
    if broken and rep.unanalysed and total:
        # the shortfall is that of the constructs named above
        for b in broken:
            print("NOTE: less was analysed than usual: %s" % b)
        return 0
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN: %s" % b)
        return 2
    return 0


def _work(job):
    fn, program, item, prop, label = job
    sub = Report(prop)
    sub.guard(label, fn, sub, program, item)
    sub.functions = {getattr(f, "qualname", f) for f in sub.functions}
    return sub


_JOBS = []


def _work_i(i):
    return _work(_JOBS[i])


def parallel(rep, program, items, fn, label):
    """Analyse independent items in forked workers and merge their reports."""
    import multiprocessing
    global _JOBS
    _JOBS = [(fn, program, it, rep.prop, label(it)) for it in items]
    n = min(os.cpu_count() or 1, len(_JOBS))
    if n <= 1 or os.environ.get("SA_DEBUG"):
        subs = [_work(j) for j in _JOBS]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n) as pool:
            subs = pool.map(_work_i, range(len(_JOBS)), chunksize=1)
        _JOBS = []
    for s in subs:
        rep.merge(s)
