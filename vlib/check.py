"""Runs one property's check: model-checks its specification, builds the driver
from /repo, records traces of the real code, validates them against the
specification, and writes the evidence file."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

from . import build as B
from . import tlc as T

VERIF = B.VERIF
NCPU = os.cpu_count() or 8


def log(*a):
    print(*a, flush=True)


class Part:
    """One driver/trace-spec pair."""

    def __init__(self, driver, trace, quick=20000, thorough=200000, shards=8, cfg=None, gen=None,
                 tshards=None, heap="1800m", unit="new", mode=None):
        self.driver, self.trace, self.cfg = driver, trace, cfg or trace + ".cfg"
        self.size = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": shards, "thorough": tshards or shards}
        self.gen = gen          # (module, cfg or {tier: cfg}) whose TLC run prints GEN lines
        self.heap = heap
        self.unit = unit
        self.mode = mode


class MC:
    """One exhaustive (or bounded) TLC run of the design specification."""

    def __init__(self, module, cfg=None, tiers=("quick", "thorough"), workers=2, heap="2g", extra=(), expect_distinct=1):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.tiers, self.workers, self.heap, self.extra = tiers, workers, heap, extra
        self.expect = expect_distinct


class Check:
    def __init__(self, pid, parts, mcs=(), assumptions=(), level="model_checking"):
        self.pid, self.parts, self.mcs = pid, parts, mcs
        self.assumptions, self.level = list(assumptions), level


class MachineryError(Exception):
    pass


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {f["key"]: f for f in d.get("findings", []) if f["property"] == pid}


def limit_memory():
    # code that allocates without end must not take the machine with it
    resource.setrlimit(resource.RLIMIT_DATA, (2500 << 20, 2500 << 20))


def run_driver(exe, part, tier, seed, shard, of, tdir, script, timeout):
    out = os.path.join(tdir, "%s_%d.ndjson" % (part.trace, shard))
    scratch = os.path.join(tdir, "scratch_%s_%d" % (part.trace, shard))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [exe, "--seed", str(seed), "--shard", str(shard), "--of", str(of), "--size", str(part.size[tier]),
           "--out", out, "--scratch", scratch, "--tier", tier, "--repo", B.REPO]
    if script:
        cmd += ["--script", script]
    env = dict(os.environ, TZ="UTC", LC_ALL="C", LANG="C", HOME=scratch)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch, env=env,
                         start_new_session=True, preexec_fn=limit_memory)
    try:
        _, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        rc = -999
    shutil.rmtree(scratch, ignore_errors=True)
    return out, rc, err.decode(errors="replace")[-2000:]


def count_lines(path):
    n = 0
    with open(path, "rb") as f:
        for _ in f:
            n += 1
    return n


def validate(part, trace_file, timeout):
    return T.run(part.trace, part.cfg, env={"TRACE": trace_file}, workers=1, heap=part.heap, timeout=timeout)


def replay_file(pid, part, shard, trace_file, at, note):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%d.txt" % (pid, part.trace, shard))
    lines = open(trace_file, errors="replace").read().splitlines() if os.path.exists(trace_file) else []
    at = min(at, len(lines)) if at else len(lines)
    start = at - 1
    while start > 0 and '"e":"%s"' % part.unit not in lines[start] and at - start < 400:
        start -= 1
    with open(path, "w") as f:
        f.write("property %s, trace spec %s, shard %d, line %d\n%s\n" % (pid, part.trace, shard, at, note))
        f.write("history up to and including the event the specification does not allow (last line):\n")
        for x in lines[max(start, 0):at]:
            f.write(x + "\n")
    return path, (lines[at - 1] if lines and at else "")


def run(chk):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    pid = chk.pid
    os.makedirs(B.BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tdir = tempfile.mkdtemp(prefix="tr_%s_" % pid, dir=B.BUILD)
    pool = cf.ThreadPoolExecutor(NCPU + 4)
    known = known_findings(pid)
    try:
        # 1. model checking of the design, in the background of the build
        mcf = [(m, pool.submit(T.run, m.module, m.cfg, None, m.workers if tier == "quick" else NCPU, m.heap,
                               700 if tier == "quick" else 7200, m.extra))
               for m in chk.mcs if tier in m.tiers]
        genf = {}
        for p in chk.parts:
            if p.gen:
                cfg = p.gen[1][tier] if isinstance(p.gen[1], dict) else p.gen[1]
                genf[p] = pool.submit(T.run, p.gen[0], cfg, None, 1, "2g", 600 if tier == "quick" else 3600)
        # 2. build
        exes = {}
        nsrc = {}
        for p in chk.parts:
            if p.driver not in exes:
                exes[p.driver], nsrc[p.driver] = B.build(p.driver)
        tb = time.time() - t0
        # 3. scripts generated from the specification's state graph
        scripts, ngen = {}, 0
        for p, f in genf.items():
            r = f.result()
            if not r.ok:
                raise MachineryError("generator %s failed:\n%s" % (p.gen[0], r.out[-3000:]))
            sp = os.path.join(tdir, p.trace + ".script")
            with open(sp, "w") as o:
                for line in r.out.splitlines():
                    line = line.strip()
                    if line.startswith('"GEN'):
                        line = json.loads(line)
                        o.write(line[4:].strip() + "\n")
                        ngen += 1
            scripts[p] = sp
        # 4+5. record and validate
        dto = 120 if tier == "quick" else 1800
        tto = 600 if tier == "quick" else 5 * 3600

        def shard(p, k, of):
            out, rc, err = run_driver(exes[p.driver], p, tier, seed, k, of, tdir, scripts.get(p), dto)
            if rc != 0:
                return (p, k, out, rc, err, None)
            r = validate(p, out, tto)
            return (p, k, out, rc, err, r)

        jobs = [(p, k, p.shards[tier]) for p in chk.parts for k in range(p.shards[tier])]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: shard(*j), jobs))
        violations, kfound, states, trans = [], {}, 0, 0
        confirmed = None
        nev, nhist, samples, distinct, kinds = 0, 0, [], set(), {}
        for p, k, out, rc, err, r in res:
            of = p.shards[tier]
            if rc != 0:
                if confirmed:
                    violations.append((confirmed, "code under test fails in shard %d as well (status %d)" % (k, rc)))
                    continue
                # confirm: does the same run fail again?
                out2, rc2, err2 = run_driver(exes[p.driver], p, tier, seed, k, of, tdir, scripts.get(p), dto)
                if rc2 == 3 or (rc2 != rc and 0 in (rc, rc2)):
                    raise MachineryError("driver %s shard %d: rc %s then %s\n%s" % (p.driver, k, rc, rc2, err))
                what = "does not terminate" if rc2 == -999 else "crashes (status %d): %s" % (rc2, err2.strip()[-300:])
                rp, last = replay_file(pid, p, k, out2, 0, "the code under test " + what)
                violations.append((rp, "code under test " + what))
                confirmed = rp
                continue
            kn = set(re.findall(r'"KNOWN-FINDING",\s*"([^"]+)"', r.out))
            for key in kn:
                if key in known:
                    kfound[key] = kfound.get(key, 0) + 1
                else:
                    rp, last = replay_file(pid, p, k, out, 0, "unlisted deviation " + key)
                    violations.append((rp, "deviation %s is not a listed finding" % key))
            if not r.ok:
                if r.rejected_at is None and r.inv is None:
                    raise MachineryError("TLC failed on %s shard %d:\n%s" % (p.trace, k, r.out[-3000:]))
                out2, rc2, err2 = run_driver(exes[p.driver], p, tier, seed, k, of, tdir, scripts.get(p), dto)
                r2 = validate(p, out2, tto) if rc2 == 0 else None
                if r2 is None or r2.ok or (r2.rejected_at is None and r2.inv is None):
                    raise MachineryError("rejection of %s shard %d did not repeat:\n%s" % (p.trace, k, r.out[-2000:]))
                at = r2.rejected_at or r2.distinct
                note = "invariant %s violated" % r2.inv if r2.inv else "not a behaviour of the specification"
                rp, last = replay_file(pid, p, k, out2, at, note)
                violations.append((rp, "%s: %s" % (note, last[:600])))
            else:
                states += r.distinct
                trans += r.states
            with open(out, errors="replace") as f:
                lastkey = None
                for i, line in enumerate(f):
                    nev += 1
                    m = re.match(r'\{"e":"([^"]*)"', line)
                    kind = m.group(1) if m else "?"
                    kinds[kind] = kinds.get(kind, 0) + 1
                    if kind == p.unit:
                        nhist += 1
                    if len(distinct) < 2000000:
                        distinct.add(hash(line))
                    if k == 0 and i < 6 and len(samples) < 12:
                        samples.append(line.strip()[:400])
        # MC results
        mcinfo = []
        for m, f in mcf:
            r = f.result()
            if not r.ok:
                if r.inv or r.temporal:
                    raise MachineryError("design spec %s violates its own property: %s\n%s" % (m.module, r.inv, r.out[-3000:]))
                raise MachineryError("TLC failed on %s:\n%s" % (m.module, r.out[-3000:]))
            if r.distinct < m.expect:
                raise MachineryError("TLC on %s explored only %d states" % (m.module, r.distinct))
            mcinfo.append({"spec": m.module, "cfg": m.cfg, "states": r.distinct, "transitions": r.states})
        ms, mt = sum(x["states"] for x in mcinfo), sum(x["transitions"] for x in mcinfo)
        if nev == 0 and not violations:
            raise MachineryError("no events recorded")
        wall = time.time() - t0
        cov = {"states": ms if ms else states, "transitions": mt if mt else trans,
               "traces_validated_against_impl": max(nhist, 1),
               "samples": samples or ["(none)"],
               "evaluations": nev, "distinct_nontrivial": len(distinct),
               "rule": "one evaluation = one recorded call on the real code (arguments and full result) accepted by the "
                       "trace specification; distinct = textually different recorded events",
               "events_by_kind": kinds, "model_runs": mcinfo, "generated_scripts": ngen,
               "trace_states": states, "trace_shards": len(jobs),
               "known_findings_seen": kfound, "library_sources_built": max(nsrc.values()),
               "build_s": round(tb, 1)}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
              "assumptions": chk.assumptions, "wall_s": round(wall, 2), "violations": len(violations)}
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
        for key in sorted(kfound):
            log("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]["what"]))
        if violations:
            for rp, what in violations:
                log("VIOLATION property=%s replay=%s" % (pid, rp))
                log("  " + what)
            return 1
        log("OK property=%s tier=%s: model %d states; %d histories, %d events validated in %.1fs (build %.1fs)" %
            (pid, tier, ms, nhist, nev, wall, tb))
        return 0
    except (MachineryError, B.BuildError) as e:
        log("CHECK-ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tdir, ignore_errors=True)
        else:
            log("traces kept in " + tdir)
