"""Orchestration of one property check: design models, generation, conformance, judging, evidence."""
import os, sys, json, subprocess, tempfile, shutil, time
import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NSHARD = 16
BUDGET = 840          # seconds that one check may take
PORTION = 48 << 20    # bytes of observations that TLC reads at once


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.viol, self.assumptions = [], [], [], []
        self.classes = {}
        self.tmp = tempfile.mkdtemp(prefix="vchk")
        self.replay_in = None
        self.quiet_clauses = {}

    # -- design level ---------------------------------------------------------------------------
    def design(self, module, cfg, label, **kw):
        """Exhaustive check of a design model; a violation here is an error in the specification."""
        if self.replay_in:
            return None
        r = tlc.run(module, cfg, **kw)
        if r.violated:
            raise tlc.TLCError("design model %s violates %s\n%s" % (module, r.violated, r.output[-4000:]))
        self.states += r.states
        self.transitions += r.generated
        self.parts.append({"part": "design model", "module": module, "what": label, "distinct_states": r.states,
                           "transitions": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1),
                           **({"actions": r.coverage} if r.coverage else {})})
        return r

    def generate(self, module, cfg, label, **kw):
        """As design, and the model prints test cases (ToJson); returns them."""
        r = self.design(module, cfg, label, **kw)
        if r is None:
            return []
        cases = tlc.printed_json(r)
        self.parts[-1]["cases_generated"] = len(cases)
        if not cases:
            raise tlc.TLCError("model %s generated no case" % module)
        return cases

    # -- conformance ----------------------------------------------------------------------------
    def conform(self, driver, module, badop, label, tlc_cases=(), extra_cfg="", spec=("JInit", "JNext"),
                timeout=700, judge_timeout=700, env=None, events=False):
        if self.replay_in and self.replay_in["driver"] != driver:
            return
        tp = os.path.join(self.tmp, "tlc.ndjson")
        with open(tp, "w") as f:
            for c in tlc_cases:
                f.write(json.dumps(c) + "\n")
        rp = "-"
        if self.replay_in:
            rp = os.path.join(self.tmp, "replay.ndjson")
            with open(rp, "w") as f:
                for v in self.replay_in["cases"]:
                    f.write(json.dumps(v["in"]) + "\n")
        outp = os.path.join(self.tmp, "cases-%s.ndjson" % driver)
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("PYTHON"):
                del e[k]
        cache = os.path.join(self.tmp, "pyc")
        e.update({"PYTHONPATH": os.path.join(REPO, "py"), "PYTHONPYCACHEPREFIX": cache, "PYTHONHASHSEED": "0",
                  "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "TMPDIR": self.tmp})
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run([PY, "-B", os.path.join(ROOT, "lib", "drvmain.py"), driver, self.prop, self.tier,
                                str(self.seed), tp, rp, outp], env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise tlc.TLCError("driver %s timed out" % driver)
        if p.returncode != 0 or not os.path.exists(outp):
            raise tlc.TLCError("driver %s failed\n%s" % (driver, (p.stdout + p.stderr)[-3000:]))
        dwall = time.time() - t0
        recs = [json.loads(l) for l in open(outp)]
        if not recs:
            raise tlc.TLCError("driver %s recorded nothing" % driver)
        for r in recs:
            k = r["in"].get("cls", "") if isinstance(r["in"], dict) else ""
            self.classes[k] = self.classes.get(k, 0) + 1
        # unusable observations are verdicts of their own, the judge sees the rest
        good = [r for r in recs if r["st"] == "ok"]
        for r in recs:
            if r["st"] != "ok":
                self.viol.append((driver, module, r, 0, "%s.%s" % (self.prop, r["st"])))
        if good:
            cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\nCONSTANT SHARDS = %d\n" % (spec[0], spec[1], NSHARD)
            if badop:
                cfg += "CONSTANT Bad <- %s\n" % badop
            cfg += extra_cfg
            judged = states = chunks = 0
            wall = 0.0
            for lo, chunk in self.chunks(good):
                left = BUDGET - (time.time() - self.t0)
                if lo and left < 2 * wall / chunks:     # what is left of the time does not carry another portion
                    break
                try:
                    r = self.judge(module, cfg, driver, chunk, min(judge_timeout, left), events)
                except tlc.TLCError as x:
                    if lo and "timed out" in str(x):
                        break
                    raise
                chunks += 1
                wall += r.wall
                judged += len(chunk)
                states += r.states
                self.transitions += r.generated
                if r.undefined is not None:
                    # the observation is of a shape that the specification does not allow for any outcome
                    self.viol.append((driver, module, chunk[r.undefined], 0, "%s.undefined" % self.prop))
                own = {}
                for c, ev, clause in tlc.bads(r):
                    if clause.startswith(self.prop + "."):
                        own.setdefault(c, []).append((ev, clause))
                    else:
                        self.quiet_clauses[clause] = self.quiet_clauses.get(clause, 0) + 1
                for c, l in own.items():
                    for ev, clause in l:
                        self.viol.append((driver, module, chunk[c], ev, clause))
            self.states += states
            self.parts.append({"part": "conformance", "driver": driver, "module": module, "what": label,
                               "cases": len(recs), "judged": judged, "portions": chunks, "from_model": len(tlc_cases),
                               "judge_states": states, "driver_wall_s": round(dwall, 1), "judge_wall_s": round(wall, 1)})
            recs = [r for r in recs if r["st"] != "ok"] + good[:judged]
        self.traces += len(recs)
        k = max(1, len(recs) // 2)
        for r in recs[::k][:2]:
            s = json.dumps(r)
            self.samples.append(json.loads(s) if len(s) < 6000 else {"truncated": s[:6000]})
        os.unlink(outp)

    @staticmethod
    def chunks(good):
        """Portions of the observations that TLC reads at once, by size."""
        lo, n = 0, 0
        size = [len(json.dumps(r["out"])) + len(json.dumps(r["in"])) for r in good]
        for i, k in enumerate(size):
            if n and n + k > PORTION:
                yield lo, good[lo:i]
                lo, n = i, 0
            n += k
        yield lo, good[lo:]

    def judge(self, module, cfg, driver, good, timeout, events):
        jp = os.path.join(self.tmp, "judge-%s.ndjson" % driver)
        with open(jp, "w") as f:
            for r in good:
                f.write(json.dumps({"p": r["p"], "in": r["in"], "out": r["out"]}) + "\n")
        r = tlc.run(module, cfg, env={"CASES": jp}, timeout=timeout, allow_violation="judge")
        need = len(good) + NSHARD
        if events:   # one more state for every recorded event
            need += sum(len(x["out"]["ev"]) for x in good)
        if r.undefined is None and r.states != need:
            raise tlc.TLCError("judge %s visited %d states, expected %d" % (module, r.states, need))
        os.unlink(jp)
        return r

    # -- verdict --------------------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
        new, seen = [], {}
        for v in self.viol:
            driver, module, rec, ev, clause = v
            hit = None
            for k in known:
                if k["property"] == self.prop and k["clause"] == clause and k["match"] == rec["in"].get("finding"):
                    hit = k
            if hit:
                seen[hit["id"]] = hit
            else:
                new.append(v)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:6],
                           "parts": self.parts, "case_classes": self.classes,
                           "other_properties_clauses_seen": self.quiet_clauses},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % self.prop)
        if not new:
            if os.path.exists(path) and not self.replay_in:
                os.unlink(path)
            print("%s: held on %d states, %d cases of the real code (%.0fs)" %
                  (self.prop, self.states, self.traces, time.time() - self.t0))
            return 0
        with open(path, "w") as f:
            json.dump({"property": self.prop, "driver": new[0][0],
                       "cases": [{"in": r["in"], "event": e, "clause": c, "st": r["st"], "why": r.get("why"),
                                  "tb": r.get("tb"), "out": r["out"]}
                                 for d, m, r, e, c in new if d == new[0][0]][:10]}, f, indent=1)
        counts = {}
        for d, m, r, e, c in new:
            counts[c] = counts.get(c, 0) + 1
        for c, n in sorted(counts.items()):
            print("  clause %s violated by %d observation(s)" % (c, n))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
