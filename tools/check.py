#!/usr/bin/env python3
"""Decides a property of babs: explores the specification's models, runs the
library, and has TLC judge the recorded executions against the specification.

  check.py C05 [--tier quick|thorough] [--seed N]
  check.py --replay FILE            (re-runs a recorded violation)
  check.py --setup

Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CLASSES = os.path.join(BUILD, "classes")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
PROFILES = ("release", "checked")

sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise NoAnswer("timeout: %s" % " ".join(map(str, cmd)))


# ---------------------------------------------------------------- building
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def sources(root):
    r = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", "build")]
        r += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".java"))]
    return r


def build():
    os.makedirs(BUILD, exist_ok=True)
    # cargo decides by time stamps; make sure that changed contents are seen whatever their times
    stamp = os.path.join(BUILD, "sources.sha256")
    now = digest(sources(REPO) + sources(os.path.join(VERIF, "harness")))
    old = open(stamp).read() if os.path.exists(stamp) else None
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    if old != now and os.path.isdir(TARGET):
        for p in PROFILES:
            sh(["cargo", "clean", "--offline", "--profile", p, "-p", "babs", "-p", "babs-harness"],
               cwd=os.path.join(VERIF, "harness"), env=env)
    ps = [subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", p], cwd=os.path.join(VERIF, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for p in PROFILES]
    for p in ps:
        out, _ = p.communicate(timeout=800)
        if p.returncode != 0:
            raise NoAnswer("build of the harness failed:\n" + out[-4000:])
    with open(stamp, "w") as f:
        f.write(now)
    build_java()


def build_java():
    src = os.path.join(SPEC, "java", "babs", "BigNatOverrides.java")
    stamp = os.path.join(CLASSES, "stamp")
    now = digest([src])
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", CLASSES, src])
    if r.returncode != 0:
        raise NoAnswer("javac failed:\n" + r.stdout)
    with open(stamp, "w") as f:
        f.write(now)


def driver(profile):
    return os.path.join(TARGET, "release" if profile == "release" else profile, "babs-harness")


# --------------------------------------------------------------------- TLC
def tlc(work, module, cfg=None, env=None, overrides=True, args=(), timeout=800, heap="6g", workers=8):
    """Run TLC; returns (output, distinct states, generated states, depth)"""
    meta = tempfile.mkdtemp(dir=work, prefix="meta")
    ov = "tlc2.overrides.TLCOverrides" + (":babs.BigNatOverrides" if overrides else "")
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dtlc2.overrides.TLCOverrides=" + ov,
           "-cp", ":".join([CLASSES, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]), "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout, re.M)
    d = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return r.stdout, r.returncode, dist, gen, int(d.group(1)) if d else 0


def run_model(work, name, m, tier):
    """Check one of the bounded models of the specification; one that holds a known mistake must be rejected"""
    t0 = time.time()
    if m.get("tool") == "apalache":
        d = tempfile.mkdtemp(dir=work, prefix="apalache")
        for f in m["files"]:
            shutil.copy(os.path.join(SPEC, f + ".tla"), d)
        e = dict(os.environ, JVM_ARGS="-Xmx2g")
        r = sh(["apalache-mc", "check", "--out-dir=" + os.path.join(d, "out"), "--length=" + m.get("length", "0"), "--inv=" + m.get("inv", "Right"), *m.get("args", ()), m["files"][0] + ".tla"],
               cwd=d, env=e, timeout=m.get("timeout", 300))
        shutil.rmtree(d, ignore_errors=True)
        if r.returncode != 0 or "The outcome is: NoError" not in r.stdout:
            raise NoAnswer("model %s: Apalache says (exit %d)\n%s" % (name, r.returncode, r.stdout[-2000:]))
        return dict(model=name, module=m["files"][0], tool="Apalache", states=0, transitions=0, depth=0, symbolic=m["symbolic"],
                    seconds=round(time.time() - t0, 1))
    out, rc, dist, gen, depth = tlc(work, m["module"], m.get("cfg"), overrides=m.get("overrides", True),
                                    args=m.get("args", ()), timeout=m.get("timeout", 800), workers=m.get("workers", 4))
    if m.get("expect") == "violation":
        ok = rc == 12 and re.search(r"Invariant \w+ is violated", out)
    else:
        ok = rc == 0 and "No error has been found" in out and dist >= m.get("min_states", 1)
    if not ok:
        raise NoAnswer("model %s: TLC says (exit %d, %d states)\n%s" % (name, rc, dist, out[-3000:]))
    return dict(model=name, module=m["module"], states=dist, transitions=gen, depth=depth,
                outcome="known mistake rejected" if m.get("expect") else "holds", seconds=round(time.time() - t0, 1))


def run_models(work, names, tier):
    from concurrent.futures import ThreadPoolExecutor
    ms = [(n, plan.MODELS[n]) for n in names]
    ms = [(n, m) for n, m in ms if tier == "thorough" or not m.get("thorough_only")]
    with ThreadPoolExecutor(3) as ex:
        return [f.result() for f in [ex.submit(run_model, work, n, m, tier) for n, m in ms]]


# ---------------------------------------------------------- running the code
def events_of_stream(txt):
    """Events of the output of `one` or `replay ... trace`, per case"""
    evs, calls, done, pend = [], [], False, None
    for l in txt.splitlines():
        if l.startswith("CALL "):
            calls.append(l[5:])
        elif l.startswith("PEND "):
            pend = l[5:]
        elif l.startswith("EVENT "):
            evs.append(l[6:])
            pend = None
        elif l == "DONE":
            done = True
    return evs, calls, done, pend


def limited(cmd, timeout):
    """Run a driver that may hang or crash; (stdout, how it ended)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return out, "ok" if p.returncode == 0 else "crash"
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return out, "hang"


def run_profile(work, prop, num, tier, seed, profile, cases, nbytes, nstreams):
    """All histories of one build of the library"""
    base = os.path.join(work, profile)
    stream0 = 0 if profile == "release" else 100
    skip, extra, extra_calls = [], [], []
    t0 = time.time()
    for attempt in range(8):
        if extra and time.time() - t0 > 150:
            break
        cmd = [driver(profile), "run", str(num), str(seed), tier, base + ".nd", base + ".progress", ",".join(skip),
               str(cases), str(nbytes), str(stream0), str(nstreams)]
        out, how = limited(cmd, 600)
        if how == "ok":
            return json.loads(out.strip().splitlines()[-1]), extra, extra_calls
        # A history crashed the process or does not end: which?
        cand = []
        m = re.search(r'"hang":"(\d+):(\d+)"', out)
        if m:
            cand = [(int(m.group(1)), int(m.group(2)))]
        else:
            raw = open(base + ".progress", "rb").read()
            for k in range(len(raw) // 8):
                i = struct.unpack_from("<Q", raw, 8 * k)[0]
                if i != 2 ** 64 - 1:
                    cand.append((stream0 + k, i))
        found = False
        for s, i in cand:
            o, h = limited([driver(profile), "one", str(num), str(seed), tier, str(s), str(i)], 45)
            evs, calls, done, pend = events_of_stream(o)
            if done:
                continue
            found = True
            skip.append("%d:%d" % (s, i))
            if pend:
                evs.append(pend.replace('"UNFINISHED"', '"%s"' % h))
            cid = "%d:%d" % (s, i)
            extra.append('{"id":"%s","ev":[%s]}' % (cid, ",".join(evs)))
            extra_calls.append("CASE %s\n%s\n" % (cid, "\n".join(calls)))
        if not found:
            if attempt >= 2:
                raise NoAnswer("driver ended with %s but no history reproduces it" % how)
        if len(skip) >= 12:
            cases = cases // 4  # enough evidence
    if not extra:
        raise NoAnswer("driver keeps failing")
    # Too many histories crash or do not end to run the rest: judge those that were found
    open(base + ".nd", "w").close()
    open(base + ".nd.calls", "w").close()
    return dict(cases=len(extra), enumerated=0, enumerable=1, events=sum(e.count('{"op":') for e in extra), distinct=len(extra),
                strata=0, suspicious=len(extra), calls={}, cut=True), extra, extra_calls


# ------------------------------------- behaviours of the specification, replayed
def call_line(e):
    """A call of the specification (JSON written by TLC) as the driver reads it"""
    kv = []
    for k in ("d", "e", "a", "b", "f"):
        if k in e:
            kv.append("%s=%d" % (k, e[k]))
    if "t" in e:
        kv.append("t=" + e["t"])
    if "n" in e:
        kv.append("n=%d" % int.from_bytes(bytes(e["n"]), "little"))
    if e.get("x"):
        kv.append("x=" + bytes(e["x"]).hex())
    if e.get("s"):
        kv.append("s=" + e["s"].encode().hex())
    if "k" in e:
        kv.append("dig=%d" % (e["k"] == "dig") if e["k"] in ("dig", "int") else "k=%d" % "dxX".index(e["k"]))
    if "fl" in e:
        f = e["fl"]
        kv.append("w=%d z=%d p=%d h=%d al=%d fc=%d pr=%d" % (f["w"], f["z"], f["p"], f["h"], ("", "<", "^", ">").index(f["al"]),
                                                             " *0".index(f["fc"]), f["pr"]))
    return " ".join([e["op"]] + kv)


def replay_cases(work, name, profile, cases):
    """Run the given histories, one by one; crashes and hangs become the outcome of the call they happen in"""
    hist, calls, left = [], [], list(cases)
    for attempt in range(6):
        if not left:
            break
        path = os.path.join(work, "%s.%s.calls" % (name, profile))
        with open(path, "w") as f:
            for cid, body in left:
                f.write("CASE %s\n%s\n" % (cid, "\n".join(body)))
        out, how = limited([driver(profile), "replay", path, path + ".out", "trace"], 120)
        n = 0
        for part in out.split("CASE ")[1:]:
            cid, rest = part.split("\n", 1)
            evs, cl, done, pend = events_of_stream(rest)
            if not done:
                if how == "ok" or not pend:
                    raise NoAnswer("driver ended within history %s without saying why" % cid)
                evs.append(pend.replace('"UNFINISHED"', '"%s"' % how))
            n += 1
            hist.append('{"id":"%s","ev":[%s]}' % (cid, ",".join(evs)))
            calls.append("CASE %s\n%s\n" % (cid, "\n".join(cl)))
        if how == "ok" and n != len(left) or n == 0:
            raise NoAnswer("driver replayed %d of %d histories" % (n, len(left)))
        left = left[n:]
    return hist, calls


def generate(work, seed, num, cfg="GenBabs"):
    """Behaviours drawn by TLC from the specification"""
    out = os.path.join(work, "gen%d.ndjson" % seed)
    depth = int(re.search(r"Depth = (\d+)", open(os.path.join(SPEC, cfg + ".cfg")).read()).group(1))
    o, rc, _, _, _ = tlc(work, "GenBabs", cfg, env={"GENOUT": out}, workers=1, heap="2g",
                         args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)))
    if rc != 0 or "Error" in o or not os.path.exists(out):
        raise NoAnswer("TLC could not generate behaviours (exit %d):\n%s" % (rc, o[-2000:]))
    beh = [json.loads(l) for l in open(out)]
    os.remove(out)
    return [("g%d:%d" % (seed, i), [call_line(e) for e in b]) for i, b in enumerate(beh)]


def cover(work, seed, kind, steps):
    """Operands drawn by TLC at the real radices for new combinations of branches of the algorithms' models"""
    out = os.path.join(work, "cover-%s-%d.ndjson" % (kind, seed))
    o, rc, _, _, _ = tlc(work, "AlgCover", "AlgCover_" + kind, env={"GENOUT": out, "GENDEPTH": str(steps)}, workers=1, heap="3g",
                         args=("-simulate", "num=1", "-depth", str(steps + 1), "-seed", str(seed)))
    m = re.search(r'"BRANCHES", (\d+)', o)
    if rc != 0 or "Error" in o or not m or not os.path.exists(out):
        raise NoAnswer("AlgCover, %s: TLC says (exit %d)\n%s" % (kind, rc, o[-2000:]))
    beh = [json.loads(l) for l in open(out)]
    os.remove(out)
    cases = [("c%s%d:%d" % (kind, seed, i), [call_line(e) for e in b]) for i, b in enumerate(beh)]
    return cases, dict(kind=kind, seed=seed, operands_drawn=steps, branch_combinations=int(m.group(1)), replayed=len(cases))


def run_generated(work, prop, seed, num, covers):
    """Histories made by TLC: num behaviours of GenBabs, and for each (kind, steps, runs) those of AlgCover; replayed by the library"""
    from concurrent.futures import ThreadPoolExecutor
    stats = []
    with ThreadPoolExecutor(6) as ex:
        k = max(1, min(8, num // 500)) if num else 0
        gs = [ex.submit(generate, work, 1000 * seed + 100 * int(prop[1:]) + i, num // k) for i in range(k)]
        cs = [ex.submit(cover, work, 1000 * seed + i, kind, steps) for kind, steps, runs in covers for i in range(runs)]
        cases = sum((f.result() for f in gs), [])
        for f in cs:
            c, st = f.result()
            cases += c
            stats.append(st)
    res = []
    for pr, part in (("release", cases[::2]), ("checked", cases[1::2])):
        h, c = replay_cases(work, "gen", pr, part) if part else ([], [])
        res.append((pr, h, c))
    return res, stats


def judge(work, trace, enforce, heap="8g"):
    """TLC's verdict on recorded histories"""
    nh, ne = 0, 0
    with open(trace) as f:
        for l in f:
            nh += 1
            ne += l.count('{"op":')
    if nh == 0:
        raise NoAnswer("nothing was recorded")
    out, rc, dist, gen, depth = tlc(work, "TraceBabs", env={"TRACE": trace, "ENFORCE": enforce}, heap=heap)
    rej = [(m[0], int(m[1]), m[2], sorted(re.findall(r'"(\w+)"', m[3])))
           for m in re.findall(r'<<"REJECT",\s*"([^"]*)",\s*(\d+),\s*"(\w+)",\s*\{([^}]*)\}>>', out)]
    skipped = len(re.findall(r'<<"SKIPPED",', out))
    if rc != 0 or "No error has been found" not in out:
        raise NoAnswer("TLC failed on the trace (exit %d):\n%s" % (rc, out[-3000:]))
    if any("misuse" in r[3] for r in rej):
        raise NoAnswer("the recorded trace misuses the specification: %s" % [r for r in rej if "misuse" in r[3]][:3])
    if not rej and not skipped and dist != nh + ne:
        raise NoAnswer("TLC consumed %d states, the trace has %d" % (dist, nh + ne))
    return rej, skipped, dist, gen, nh, ne


ASPECT = dict(o="outcome", v="value", s="operand after a failed call", c="canonical form", f="borrowed operand changed",
              t="text", r="order", i="inspection", l="law", a="forms disagree", n="digit types disagree")


def check(prop, tier, seed):
    t0 = time.time()
    p = plan.PLAN[prop]
    num = int(prop[1:])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "replays")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(VERIF, "replays", f))
    build()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=BUILD)
    try:
        cases, nbytes = p[tier]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(run_profile, work, prop, num, tier, seed, pr, cases // 2, nbytes // 2, 4) for pr in PROFILES]
            fg = ex.submit(run_generated, work, prop, seed, p["gen"][tier], p["cover"][tier])
            res = [f.result() for f in fs]
            gen, covered = fg.result()
            generated = sum(len(h) for _, h, _ in gen)
            models = run_models(work, p["models"], tier)
        trace = os.path.join(work, "trace.ndjson")
        calls = {}
        with open(trace, "w") as out:
            for pr, (stats, extra, extra_calls) in zip(PROFILES, res):
                tag = pr[0]
                for l in list(open(os.path.join(work, pr + ".nd"))) + [x + "\n" for x in extra]:
                    out.write(l.replace('{"id":"', '{"id":"' + tag, 1))
                txt = open(os.path.join(work, pr + ".nd.calls")).read() + "".join(extra_calls)
                for c in txt.split("CASE ")[1:]:
                    cid, body = c.split("\n", 1)
                    calls[tag + cid] = body.strip().split("\n")
            for pr, h, cs in gen:
                tag = pr[0]
                for l in h:
                    out.write(l.replace('{"id":"', '{"id":"' + tag, 1) + "\n")
                for c in cs:
                    cid, body = c[5:].split("\n", 1)
                    calls[tag + cid] = body.strip().split("\n")
        rej, skipped, dist, ngen, nh, ne = judge(work, trace, p["enforce"])
        if not rej and any("cut" in r[0] for r in res):
            raise NoAnswer("too many histories crash or do not end")
        samples = []
        lines = open(trace).read().splitlines()
        for i in range(0, len(lines), max(1, len(lines) // 4)):
            if len(samples) < 5:
                h = json.loads(lines[i])
                cid = h["id"]
                samples.append(dict(history=cid, calls=[x[:160] for x in calls.get(cid, [])[:6]],
                                    last_event=json.dumps(h["ev"][-1])[:300]))
        viol = []
        seen = set()
        for cid, step, op, asp in sorted(rej, key=lambda r: len("".join(calls.get(r[0], ["x" * 10 ** 6])[:r[1]]))):
            key = (op, tuple(asp))
            viol.append((cid, step, op, asp))
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(VERIF, "replays", "%s-%d.calls" % (prop, len(seen)))
            with open(path, "w") as f:
                f.write("# property=%s enforce=%s build=%s\n# history %s: call %d (%s) is not a step of spec/Babs.tla: %s\n"
                        "# replay: python3 tools/check.py --replay %s\nCASE %s\n" %
                        (prop, p["enforce"], "release" if cid[0] == "r" else "checked", cid, step, op,
                         ", ".join(ASPECT.get(a, a) for a in asp), os.path.relpath(path, VERIF), cid))
                f.write("\n".join(calls.get(cid, [])[:step]) + "\n")
            log("history %s call %d %s: wrong %s" % (cid, step, op, ", ".join(ASPECT.get(a, a) for a in asp)))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        st = [r[0] for r in res]
        opc = {}
        for s in st:
            for k, v in s["calls"].items():
                opc[k] = opc.get(k, 0) + v
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=dict(
            states=dist + sum(m["states"] for m in models), transitions=ngen + sum(m["transitions"] for m in models),
            traces_validated_against_impl=nh, behaviours_generated_from_spec_and_replayed=generated, events_validated_against_impl=ne, skipped_histories=skipped,
            histories_executed=sum(s["cases"] for s in st), calls_executed=sum(s["events"] for s in st),
            histories_enumerated_exhaustively=sum(s["enumerated"] for s in st), enumeration_complete=all(s["enumerated"] == s["enumerable"] for s in st),
            distinct_histories_executed=sum(s["distinct"] for s in st), strata_seen=max(s["strata"] for s in st),
            suspicious_by_screen=sum(s["suspicious"] for s in st), calls_per_operation=opc,
            builds=list(PROFILES), enforced_aspects=[ASPECT[a] for a in p["enforce"]],
            models=models, branch_coverage_of_algorithm_models=covered, samples=samples),
            assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(viol))
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        known_findings(prop)
        log("%s: %d histories (%d calls) executed, %d histories (%d calls) validated by TLC, %d model states, "
            "%d rejected, %.1f s" % (prop, ev["coverage"]["histories_executed"], ev["coverage"]["calls_executed"], nh, ne,
                                     sum(m["states"] for m in models), len(viol), time.time() - t0))
        return 1 if viol else 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    """None is open: every defect found was repaired (see known-findings.txt)"""


def replay(path):
    txt = open(path).read()
    enforce = re.search(r"enforce=(\w+)", txt).group(1)
    prop = re.search(r"property=(\w+)", txt).group(1)
    profile = re.search(r"build=(\w+)", txt).group(1)
    build()
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        o, h = limited([driver(profile), "replay", path, os.path.join(work, "x"), "trace"], 120)
        evs, calls, done, pend = events_of_stream(o)
        if not done and pend:
            evs.append(pend.replace('"UNFINISHED"', '"%s"' % h))
        trace = os.path.join(work, "t.ndjson")
        with open(trace, "w") as f:
            f.write('{"id":"replay","ev":[%s]}\n' % ",".join(evs))
        for e in evs:
            log(e[:2000])
        rej = judge(work, trace, enforce)[0]
        for r in rej:
            log("call %d %s: wrong %s" % (r[1], r[2], ", ".join(ASPECT.get(a, a) for a in r[3])))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rej else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            build()
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--seed" in a:
            seed = int(a[a.index("--seed") + 1])
        return check(a[0], tier, seed)
    except NoAnswer as e:
        log("no answer:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
