"""Run TLC on the specifications in /verif/spec."""
import os, re, shutil, subprocess, tempfile, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
J = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (J, J)


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.violated = re.findall(r"(?:Invariant|Action property|property|Temporal properties?) ?(\S*) (?:is|was|were) violated", out)
        self.completed = "Model checking completed. No error has been found" in out
        self.error = None
        if not self.completed:
            m = re.search(r"Error: (.*(?:\n.*){0,6})", out)
            if m:
                self.error = m.group(1)[:600]
        # PrintT(ToJson-string) lines: "@@{json}"
        self.printed = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                try:
                    self.printed.append(json.loads(json.loads(line)[2:]))
                except ValueError:
                    pass


def build_overrides():
    cls = os.path.join(BUILD, "Word64.class")
    src = os.path.join(HERE, "java", "Word64.java")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return True
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-cp", CP, "-d", BUILD, src], capture_output=True, text=True)
    return r.returncode == 0


def start(module, cfg, env=None, workers=1, simulate=None, depth=None, seed=None, cont=False, override=True, xmx="3g", extra=(), deadlock=False):
    """Start TLC; cfg is the text of the configuration."""
    if override:
        build_overrides()
    d = tempfile.mkdtemp(prefix="ctlc-")
    cfgp = os.path.join(d, "m.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cp = CP + (":" + BUILD if override else "")
    cmd = ["java", "-Xss128m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgp, "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if cont:
        cmd.append("-continue")
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=d)
    p._dir = d
    return p


def finish(p, timeout=600):
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        rc = -9
        out += "\nError: TLC timed out"
    shutil.rmtree(p._dir, ignore_errors=True)
    return Tlc(out, rc)


def run(module, cfg, timeout=600, **kw):
    return finish(start(module, cfg, **kw), timeout)
