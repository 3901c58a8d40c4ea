"""Common frame of a check: model runs, trace validation, findings, evidence, exit code."""
import argparse, json, os, random, re, sys, tempfile, time, traceback
from . import tlc
HERE = tlc.HERE
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


class Machinery(Exception):
    """The check itself is broken (never caused by the code under test)."""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (prop, SEED))
        self.thorough = TIER == "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.detail = {}
        self.viol = []
        self.pend = []
        self.known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
        self.hit_known = set()
        self.assumptions = []
        self.outdir = os.path.join(HERE, "out", prop)
        self.models = []

    # ---- design-level model checking ----
    def model(self, module, cfg, name=None, workers=2, timeout=600, **kw):
        self.models.append((name or module, tlc.start(module, cfg, workers=workers, **kw), timeout))

    def join_models(self):
        for name, p, timeout in self.models:
            r = tlc.finish(p, timeout)
            if r.violated or not r.completed:
                raise Machinery("design model %s: %s\n%s" % (name, r.violated or r.error, r.out[-3000:]))
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.detail.setdefault("models", []).append(dict(model=name, distinct=r.distinct, generated=r.generated, depth=r.depth))
            for x in r.printed:
                self.detail.setdefault("model_reports", []).append(x)
        self.models = []

    # ---- trace validation ----
    def validate(self, traces, module="VMTrace", cfg=None, env=None, timeout=600, procs=6, xmx="3g"):
        """traces: list of (name, events, meta). Runs one TLC per trace. Returns number of rejections."""
        cfg = cfg or "SPECIFICATION Spec\nINVARIANT StoreOK\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
        todo = [t for t in traces if t[1]]
        active = []
        rejected = 0
        while todo or active:
            while todo and len(active) < procs:
                name, events, meta = todo.pop(0)
                f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", prefix="ctrace-", delete=False)
                for e in events:
                    f.write(json.dumps(e) + "\n")
                f.close()
                en = dict(env or {})
                en["TRACE"] = f.name
                active.append((name, events, meta, f.name, tlc.start(module, cfg, env=en, workers=1, xmx=xmx)))
            name, events, meta, path, p = active.pop(0)
            r = tlc.finish(p, timeout)
            os.unlink(path)
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            cons = [x for x in r.printed if "consumed" in x]
            rej = [x for x in r.printed if "reject" in x]
            for x in rej:
                rejected += 1
                i = x["reject"] - 1
                self.reject(name, events, i, x["clauses"], meta)
            if r.violated:
                self.reject(name, events, len(events) - 1, ["invariant " + str(r.violated)], meta)
                rejected += 1
            elif not cons or cons[0]["consumed"] != len(events):
                if r.error and "timed out" not in r.error and r.distinct:
                    # the event is not even of the form the specification describes
                    self.reject(name, events, max(0, min(r.distinct - 1, len(events) - 1)), ["not a behaviour of the specification: " + r.error.splitlines()[0][:160]], meta, err=r.error)
                    rejected += 1
                elif r.error and "evaluating" in r.error.lower():
                    self.reject(name, events, 0, ["not a behaviour of the specification: " + r.error[:200]], meta)
                    rejected += 1
                else:
                    raise Machinery("trace %s: TLC gave no verdict: %s\n%s" % (name, r.error, r.out[-2500:]))
            self.cov["traces_validated_against_impl"] += 1
            self.detail["events_validated"] = self.detail.get("events_validated", 0) + len(events)
        return rejected

    def reject(self, name, events, i, clauses, meta, err=None):
        e = events[i] if i < len(events) else {}
        prog = next((x.get("prog") for x in reversed(events[: i + 1]) if x.get("op") == "begin"), None)
        what = "%s/%s op=%s %s: %s" % (name, prog, e.get("op"), e.get("note", ""), "; ".join(sorted(clauses)))
        j = i
        while j > 0 and events[j].get("op") != "begin":
            j -= 1
        self.violation(what, dict(trace=name, meta=meta, event=e, clauses=sorted(clauses), program=events[j: i + 1][:60], tlc=err))

    def violation(self, what, replay):
        for k in self.known:
            if re.search(k["match"], what):
                self.hit_known.add(k["id"])
                return
        self.viol.append((what, replay))

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def finish(self):
        self.join_models()
        for k in self.known:
            if k["id"] in self.hit_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rc = 0
        if self.viol:
            os.makedirs(self.outdir, exist_ok=True)
            for n, (what, rep) in enumerate(self.viol[:int(os.environ.get("VERIF_SHOW", "20"))]):
                path = os.path.join(self.outdir, "violation-%d.json" % n)
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, what=what, seed=SEED, tier=TIER, detail=rep), f, indent=1, default=str)
                print("violation: " + what[:400])
                if n == 0:
                    first = path
            print("VIOLATION property=%s replay=%s" % (self.prop, first))
            rc = 1
        cov = dict(self.cov)
        cov.update(self.detail)
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d violation(s); %d states, %d traces, %.1fs" % (self.prop, TIER, len(self.viol), cov["states"], cov["traces_validated_against_impl"], time.time() - self.t0))
        return rc


def main(prop, fn, level="model_checking"):
    c = None
    try:
        c = Check(prop, level)
        fn(c)
        rc = c.finish()
    except Machinery as e:
        print("MACHINERY FAILURE: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
