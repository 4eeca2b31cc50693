"""Running TLC: design checks (model + invariants) and judging of recorded observations."""
import os, re, subprocess, sys, tempfile, shutil, time, json

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
    """The machinery failed (not a verdict)."""


class Result:
    def __init__(self):
        self.states = self.generated = self.depth = 0
        self.printed = []     # values printed by the specification, raw lines
        self.undefined = None # case on which a judge could not be evaluated
        self.violated = None  # name of a violated invariant/property of a design check
        self.output = ""
        self.wall = 0.0
        self.coverage = {}


_fin = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")
_dep = re.compile(r"depth of the complete state graph search is (\d+)")


def run(module, cfg, env=None, workers=8, timeout=800, heap="10g", coverage=False, extra=(), allow_violation=False):
    """Run TLC on spec/<module>.tla with the configuration text cfg."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        cfgp = os.path.join(tmp, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=1",
               "-cp", JAR, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(tmp, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-nowarning", "-lncheck", "final"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        out_path = os.path.join(tmp, "out")
        with open(out_path, "w") as fo:
            p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=tmp, env=e)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise TLCError("TLC timed out after %ds on %s" % (timeout, module))
        r = Result()
        r.wall = time.time() - t0
        with open(out_path, errors="replace") as f:
            r.output = f.read()
        done = False
        for line in r.output.splitlines():
            if line.startswith("<<") or line.startswith('"'):
                r.printed.append(line)
                continue
            m = _fin.match(line)
            if m:
                r.generated, r.states = int(m.group(1)), int(m.group(2))
                done = True
            m = _dep.search(line)
            if m:
                r.depth = int(m.group(1))
            m = re.match(r"Error: (?:Invariant|Action property|Temporal properties|Property) ?(\S*) ?.*(?:is|was|were) violated", line)
            if m:
                r.violated = m.group(1) or "property"
            m = re.match(r"^<(\w+) line (\d+).*>: (\d+):(\d+)", line)
            if m:
                r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(4))
        if r.violated and allow_violation:
            return r
        if p.returncode != 0 and allow_violation == "judge":
            # an observation for which the specification has no meaning: the case in the last state shown
            m = re.findall(r"^(?:/\\ )?c = (\d+)", r.output, re.M)
            if m and "Error:" in r.output and "StackOverflow" not in r.output and "OutOfMemory" not in r.output and "The behavior up to this point" in r.output:
                r.undefined = int(m[-1]) - 1
                return r
        if p.returncode != 0 or not done:
            k = max(r.output.find("Semantic errors:"), r.output.find("***Parse Error***"))
            k = r.output.find("Error:") if k < 0 else k
            raise TLCError("TLC failed on %s (exit %d)\n%s\n...\n%s" % (module, p.returncode, r.output[k:k + 1500] if k >= 0 else "",
                                                                       r.output[-3000:]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_json_line = re.compile(r'^"(.*)"$')


def printed_json(res):
    """Values printed with PrintT(ToJson(v))."""
    out = []
    for line in res.printed:
        m = _json_line.match(line)
        if m:
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return out


_bad = re.compile(r'^<<"BAD", (\d+), (-?\d+), "([^"]+)">>')


def bads(res):
    """[(case number from 0, event number, clause)] printed by a judge."""
    out = []
    for line in res.printed:
        m = _bad.match(line)
        if m:
            out.append((int(m.group(1)) - 1, int(m.group(2)), m.group(3)))
    return sorted(out)
