"""Runs TLC."""
import os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.states = self.distinct = 0
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            self.states = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r'REJECTED-AT["\s,]*(\d+)', out)
        self.rejected_at = int(m.group(1)) if m else None
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+) is violated", out)
        self.inv = m.group(1) if m else None
        self.temporal = "Temporal properties were violated" in out
        self.evalerr = False
        if self.rejected_at is None and self.inv is None and rc not in (0, -99) and \
                "The behavior up to this point is" in out and not re.search("OutOfMemory|StackOverflow|heap space", out):
            # an event of a shape or with a value the trace specification cannot interpret at all
            st = re.findall(r"^State (\d+):", out, re.M)
            if st:
                self.rejected_at, self.evalerr = int(st[-1]), True
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out


def run(module, cfg=None, env=None, workers=1, heap="1500m", timeout=800, extra=(), fast=False):
    tmp = tempfile.mkdtemp(prefix="tlc_", dir=os.path.join(VERIF, "build"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-XX:-UsePerfData", "-Djava.io.tmpdir=" + tmp,
           "-cp", CP, "tlc2.TLC", "-metadir", tmp, "-noGenerateSpecTE", "-nowarning", "-deadlock",
           "-workers", str(workers), "-config", cfg or (module + ".cfg"), *extra, module + ".tla"]
    if fast:
        cmd[1:1] = ["-XX:TieredStopAtLevel=1"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return TlcResult(p.returncode, p.stdout + p.stderr)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return TlcResult(-99, (out.decode(errors="replace") if isinstance(out, bytes) else out) + "\nTLC-TIMEOUT")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
