#!/usr/bin/env python3
"""Driver of the checks.  See DESIGN.md, section "Machinery".

  check.py C07              run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --build-all      build everything (setup_cmd)
  check.py C07 --replay F   re-run one saved case, verbosely
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, FLAVOURS, AUX  # noqa

INC = ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(VERIF, "harness")]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_filehash = {}


def fhash(path):
    if path not in _filehash:
        try:
            with open(path, "rb") as f:
                _filehash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _filehash[path] = "missing"
    return _filehash[path]


def deps_of(dfile):
    try:
        t = open(dfile).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else t
    return [x for x in t.split() if not x.startswith("/usr/")]


def up_to_date(obj, cmdkey):
    try:
        key = open(obj + ".key").read()
    except OSError:
        return False
    if not os.path.exists(obj):
        return False
    deps = deps_of(obj + ".d")
    if deps is None:
        return False
    return key == sha(cmdkey, *[d + fhash(d) for d in sorted(set(deps))])


class BuildError(Exception):
    pass


def compile_one(src, obj, cmd):
    cmdkey = " ".join(cmd)
    if up_to_date(obj, cmdkey):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(obj + ".key"):
        os.unlink(obj + ".key")
    r = subprocess.run(cmd + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("compiling %s\n%s" % (src, r.stdout.decode(errors="replace")[-6000:]))
    deps = deps_of(obj + ".d")
    with open(obj + ".key", "w") as f:
        f.write(sha(cmdkey, *[d + fhash(d) for d in sorted(set(deps))]))
    return obj


def flat(path):
    return path.strip("/").replace("/", "_")


def lib_sources():
    r = sorted(glob.glob(os.path.join(REPO, "src/lib/**/*.cc"), recursive=True) +
               glob.glob(os.path.join(REPO, "src/lib/**/*.cpp"), recursive=True))
    return r


def build_bins(bins, aux):
    """bins: list of dicts with name, flavour, sources; returns name -> path"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = {}
    links = []
    for b in bins:
        fl = FLAVOURS[b["flavour"]]
        objs = []
        d = os.path.join(BUILD, b["flavour"])
        for s in b["sources"]:
            p = os.path.join(VERIF, "harness", s)
            plain = s in ("engine.cc",)
            uninst = s in fl.get("plain_sources", [])
            cmd = (["g++", "-std=c++17", "-O2", "-g", "-Wall"] if plain else
                   fl["cxx"] + (fl["plain"] if uninst else fl["cflags"])) + INC + b.get("cflags", [])
            o = os.path.join(BUILD if plain else d, flat(s) + ("." + b["name"] if b.get("cflags") else "") + ".o")
            jobs[o] = (p, o, cmd)
            objs.append(o)
        if b.get("lib", True):
            for s in lib_sources():
                o = os.path.join(d, "lib", flat(os.path.relpath(s, REPO)) + ".o")
                cmd = fl["cxx"] + fl["cflags"] + fl.get("libflags", []) + ["-I" + os.path.join(REPO, "src/include")]
                jobs[o] = (s, o, cmd)
                objs.append(o)
        out = os.path.join(d, b["name"])
        if b.get("archive"):
            # only what is used, so that no static object starts a thread
            own = [o for o in objs if "/lib/" not in o]
            ar = out + ".a"
            what = own + [ar]
        else:
            ar, what = None, objs
        cmd = fl["cxx"] + fl["ldflags"] + ["-o", out] + what + b.get("ldflags", []) + ["-lrapidcheck", "-ldl", "-lpthread", "-lrt"]
        links.append((out, objs, cmd, ar))
    for a in aux:
        d = os.path.join(BUILD, "aux")
        o = os.path.join(d, a)
        jobs[o] = (None, o, AUX[a])
    err = []

    def job(j):
        s, o, cmd = j
        if s is None:
            srcs = [os.path.join(VERIF, "harness", x) for x in cmd["sources"]]
            full = cmd["cmd"] + srcs + ["-o", o]
            key = sha(" ".join(full), *[fhash(x) for x in srcs])
            if os.path.exists(o) and os.path.exists(o + ".key") and open(o + ".key").read() == key:
                return
            os.makedirs(os.path.dirname(o), exist_ok=True)
            r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-6000:])
            open(o + ".key", "w").write(key)
            return
        compile_one(s, o, cmd)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(job, j) for j in jobs.values()]:
            try:
                f.result()
            except BuildError as e:
                err.append(str(e))
    if err:
        raise BuildError("\n".join(err))

    def link(l):
        out, objs, cmd, ar = l
        key = sha(" ".join(cmd), *[open(o + ".key").read() for o in objs])
        if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key:
            return
        if os.path.exists(out + ".key"):
            os.unlink(out + ".key")
        if ar:
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.run(["ar", "rcs", ar] + [o for o in objs if "/lib/" in o], check=True)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("linking %s\n%s" % (out, r.stdout.decode(errors="replace")[-6000:]))
        open(out + ".key", "w").write(key)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(link, l) for l in links]:
            try:
                f.result()
            except BuildError as e:
                err.append(str(e))
    lock.close()
    if err:
        raise BuildError("\n".join(err))
    return {b["name"]: l[0] for b, l in zip(bins, links)}


EXTRA_ENV = {}


def child_env(symbolize=False):
    e = dict(os.environ)
    sy = "1" if symbolize else "0"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:symbolize=%s:detect_stack_use_after_return=0" % sy
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1:symbolize=%s" % sy
    e["TSAN_OPTIONS"] = "die_after_fork=0:halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1:detect_deadlocks=0"
    e["VERIF_AUX"] = os.path.join(BUILD, "aux")
    for k, v in EXTRA_ENV.items():
        e[k] = v.replace("{aux}", os.path.join(BUILD, "aux"))
    for k in ("RC_PARAMS", "LD_PRELOAD"):
        e.pop(k, None)
    return e


def die_with_parent():
    os.setpgid(0, 0)


class Run:
    def __init__(self, pid, tier, seed, workers):
        self.pid, self.tier, self.seed, self.workers = pid, tier, seed, workers
        self.tmp = tempfile.mkdtemp(prefix="pv-%s-" % pid)
        os.chmod(self.tmp, 0o755)
        self.tag = "pv%s.%d" % (pid, os.getpid())
        self.notes = []

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        for f in glob.glob("/dev/shm/*" + glob.escape(self.tag) + "*"):
            try:
                os.unlink(f)
            except OSError:
                pass

    def args(self, w, nw, extra):
        return ["--worker=%d" % w, "--nworkers=%d" % nw, "--seed=%d" % self.seed, "--tier=" + self.tier,
                "--scratch=" + self.tmp, "--tag=" + self.tag] + extra

    def replay(self, path, binary, case, n, nofork=False, timeout=300):
        """number of failures out of n, last message"""
        bad, msg = 0, ""
        for i in range(n):
            cmd = [path] + self.args(100 + i, 1, ["--replay=" + case, "--verbose"] + (["--nofork"] if nofork else []))
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(True),
                                   timeout=timeout, preexec_fn=die_with_parent, cwd=self.tmp)
            except subprocess.TimeoutExpired as e:
                bad += 1
                msg = "replay did not end within %d s" % timeout
                continue
            if p.returncode not in (0, 4):
                bad += 1
                msg = p.stdout.decode(errors="replace")[-5000:]
                if p.returncode != 1:
                    msg += "\n[ended with %d]\n" % p.returncode + p.stderr.decode(errors="replace")[-3000:]
        return bad, msg


def run_workers(run, name, path, budget, stall, extra=None, workers=None):
    nw = workers or run.workers
    procs = []
    for w in range(nw):
        out = os.path.join(run.tmp, "%s.%d" % (name, w))
        log = open(out + ".out", "wb")
        cmd = [path] + run.args(w, nw, ["--out=" + out, "--budget=%.1f" % budget] + (extra or []))
        p = subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=child_env(), preexec_fn=die_with_parent, cwd=run.tmp)
        procs.append(dict(p=p, w=w, out=out, beat=None, t=time.monotonic(), stalled=False))
    live = list(procs)
    while live:
        time.sleep(0.02)
        for q in list(live):
            if q["p"].poll() is not None:
                live.remove(q)
                try:
                    os.killpg(q["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                continue
            try:
                with open(q["out"] + ".progress", "rb") as f:
                    b = f.read(24)
            except OSError:
                b = None
            if b != q["beat"]:
                q["beat"], q["t"] = b, time.monotonic()
            elif time.monotonic() - q["t"] > stall:
                q["stalled"] = True
                try:
                    os.killpg(q["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                q["p"].wait()
                live.remove(q)
        # once one worker has a failure there is no need to go on for long
        done_bad = [q for q in procs if q["p"].poll() not in (None, 0)]
        if done_bad and live:
            t = min(q.setdefault("end", time.monotonic()) for q in done_bad)
            if time.monotonic() - t > 15:
                for q in live:
                    q["abandoned"] = True
                    try:
                        os.killpg(q["p"].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    q["p"].wait()
                live = []
    return procs


def read_json(p):
    try:
        return json.load(open(p, errors="replace"))
    except Exception:
        return None


def do_check(pid, replay_file=None):
    cfg = CHECKS[pid]
    EXTRA_ENV.update(cfg.get("env", {}))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    bins = cfg["bins"]
    try:
        paths = build_bins(bins, cfg.get("aux", []))
    except BuildError as e:
        print("cannot build the check of %s from %s:\n%s" % (pid, REPO, e))
        return 2
    tbuild = time.monotonic() - t0
    workers = cfg.get("workers", min(NCPU, 8))
    run = Run(pid, tier, seed, workers)
    try:
        if replay_file:
            rf = os.path.abspath(replay_file)
            head = open(rf, errors="replace").read()
            m = re.search(r"^campaign (.*)$", head, re.M)
            spec = re.search(r"^spec (\S+)", head, re.M).group(1)
            for b in bins:
                l = subprocess.run([paths[b["name"]], "--list"], stdout=subprocess.PIPE).stdout.decode()
                if "spec %s\n" % spec in l:
                    if m:
                        p = subprocess.run([paths[b["name"]]] + run.args(0, 1, ["--out=" + os.path.join(run.tmp, "c")]) + m.group(1).split(), env=child_env(True), cwd=run.tmp)
                    else:
                        p = subprocess.run([paths[b["name"]]] + run.args(0, 1, ["--replay=" + rf, "--verbose"]), env=child_env(True), cwd=run.tmp)
                    return p.returncode
            print("no binary knows spec", spec)
            return 2
        return explore(pid, cfg, run, bins, paths, tier, seed, t0, tbuild)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", run.tmp)
        else:
            run.cleanup()


def explore(pid, cfg, run, bins, paths, tier, seed, t0, tbuild):
    total_budget = cfg.get("budget", {}).get(tier, 60 if tier == "quick" else 700)
    stall = cfg.get("stall", 120)
    specs, violations, unrepro, hashes = [], [], [], set()
    nbins = len(bins)
    for bi, b in enumerate(bins):
        name, path = b["name"], paths[b["name"]]
        share = b.get("share", 1.0 / nbins)
        procs = run_workers(run, name, path, total_budget * share, stall, workers=b.get("workers"))
        per = {}
        for q in procs:
            js = read_json(q["out"] + ".json")
            if js:
                for s in js:
                    a = per.setdefault(s["spec"], dict(bin=name, spec=s["spec"], rule=s["rule"], evaluations=0, nontrivial=0, skipped=0, labels={}, samples=[], wall=0.0, timeup=0, flags=s["flags"]))
                    a["evaluations"] += s["evaluations"]
                    a["nontrivial"] += s["nontrivial"]
                    a["skipped"] += s["skipped"]
                    a["slowest"] = max(a.get("slowest", 0), s["slowest"])
                    a["timeup"] += 1 if s["timeup"] else 0
                    a["wall"] = round(max(a["wall"], s["wall"]), 2)
                    for k, v in s["labels"].items():
                        a["labels"][k] = a["labels"].get(k, 0) + v
                    if len(a["samples"]) < 4:
                        a["samples"] += s["samples"][:1] if q["w"] else s["samples"][-2:]
            try:
                d = open(q["out"] + ".hashes", "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
            except OSError:
                pass
        specs += per.values()
        fails = []
        for q in procs:
            if q.get("abandoned"):
                continue
            rc = q["p"].returncode
            if rc == 0 and not q["stalled"]:
                continue
            fails.append(q)
        # decide on at most two failing workers; one confirmed violation is enough
        for q in fails[:3]:
            v = confirm(pid, run, b, path, q, specs)
            if v and v.get("violation"):
                violations.append(v)
                break
            if v:
                unrepro.append(v)
        if violations:
            break
    # findings that are recorded, not repaired
    known = []
    for line in read_findings():
        m = re.match(r"finding: property=(\S+) name=(\S+) (.*)$", line)
        if m and m.group(1) == pid:
            for b in bins:
                try:
                    p = subprocess.run([paths[b["name"]]] + run.args(0, 1, ["--finding=" + m.group(2)]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(), timeout=200, cwd=run.tmp, preexec_fn=die_with_parent)
                except subprocess.TimeoutExpired:
                    continue
                o = p.stdout.decode(errors="replace")
                if "REPRODUCED" in o:
                    known.append(m.group(3))
                    print("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)))
                    break
                elif "ABSENT" in o:
                    print("note: recorded finding %s of %s does not show on this tree" % (m.group(2), pid))
                    break
    ev = sum(s["evaluations"] for s in specs)
    level = cfg.get("level", "exploration")
    rules, samples, per_spec = [], [], []
    for s in specs:
        rules.append("[%s] %s" % (s["spec"], s["rule"]))
        for x in s["samples"][:3]:
            samples.append("[%s] %s" % (s["spec"], x[:600]))
        lab = dict(sorted(s["labels"].items(), key=lambda kv: -kv[1])[:40])
        per_spec.append(dict(spec=s["spec"], binary=s["bin"], evaluations=s["evaluations"], nontrivial=s["nontrivial"], not_evaluated=s["skipped"], classes=lab, wall_s=s["wall"], workers_stopped_by_time=s["timeup"]))
    evid = dict(property=pid, tier=tier, seed=seed, level=level,
                coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), rule="; ".join(rules)[:6000], samples=samples[:24], per_spec=per_spec,
                              unreproduced_observations=[u["msg"][:400] for u in unrepro][:5], known_findings=known),
                assumptions=cfg.get("assumptions", []), wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (pid, tier, seed, ev, len(hashes), tbuild, time.monotonic() - t0))
    for s in specs:
        print("  %-28s %8d cases %8d nontrivial %6.1f s, slowest case %.2f s%s" % (s["spec"], s["evaluations"], s["nontrivial"], s["wall"], s["slowest"], " (time)" if s["timeup"] else ""))
    for u in unrepro:
        print("note: an observation could not be reproduced and does not count: %s" % u["msg"][:1500])
    if violations:
        v = violations[0]
        print(v["msg"][:6000])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if ev == 0:
        print("nothing was evaluated")
        return 3
    return 0


def confirm(pid, run, b, path, q, specs):
    """turn the failure of a worker into a violation, or say why not"""
    rc = q["p"].returncode
    out = q["out"]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    flags = 0
    name = None
    if rc == 1 and os.path.exists(out + ".fail") and not q["stalled"]:
        case, firstcase = out + ".fail", out + ".first"
        js = read_json(out + ".json") or []
        for s in js:
            if s.get("failed"):
                flags, name = s["flags"], s["spec"]
        msg0 = "".join(l[2:] for l in open(case, errors="replace") if l.startswith("#"))
        text = open(case, "rb").read()
        dst = os.path.join(rdir, "%s-%s-%s.case" % (pid, name, sha(text)[:10]))
        bad, msg = run.replay(path, b, case, 3)
        hang = "hangs" in msg0 or "never finished" in msg0
        if bad == 0:
            bad, msg = run.replay(path, b, firstcase, 3)
            if bad:
                case = firstcase
        if bad == 0 and (flags & 1) == 0 or hang and bad == 0:
            # state carried over between cases?  re-run the same campaign
            idx = None
            for s in js:
                if s.get("failed"):
                    idx = s["index"]
            if idx is not None and not hang:
                extra = ["--out=" + os.path.join(run.tmp, "campaign"), "--spec=" + name, "--budget=300"]
                camp = ["--worker=%d" % q["w"], "--nworkers=%d" % run.workers, "--spec=" + name, "--seed=%d" % run.seed, "--tier=" + run.tier]
                n = 0
                for _ in range(3):
                    p = subprocess.run([path] + run.args(q["w"], b.get("workers") or run.workers, extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), cwd=run.tmp, preexec_fn=die_with_parent)
                    n += p.returncode != 0
                if n >= 2:
                    with open(dst, "w") as f:
                        f.write("spec %s\ncampaign %s\n" % (name, " ".join(camp)) + "".join("# " + l for l in msg0.splitlines(True)))
                    return dict(violation=True, msg="[needs the cases before it] " + msg0, replay=os.path.relpath(dst, VERIF))
            return dict(violation=False, msg=msg0)
        shutil.copy(case, dst)
        note = "" if bad else "[seen once; the replay takes another interleaving] "
        return dict(violation=True, msg=note + "spec %s, failed in %d of 3 replays\n" % (name, bad) + (msg or msg0), replay=os.path.relpath(dst, VERIF))
    # the worker itself died or hangs: same seed, one process per case, from the case that killed it
    try:
        sidx, index, _ = struct.unpack("<3Q", open(out + ".progress", "rb").read(24))
    except Exception:
        return dict(violation=False, msg="worker ended with %s before its first case: %s" % (rc, open(out + ".out", "rb").read()[-2000:].decode(errors="replace")))
    l = subprocess.run([path, "--list"], stdout=subprocess.PIPE, env=child_env()).stdout.decode().split("\n")
    names = [x[5:] for x in l if x.startswith("spec ")]
    name = names[sidx] if sidx < len(names) else "?"
    base = open(out + ".out", "rb").read()[-4000:].decode(errors="replace")
    o2 = os.path.join(run.tmp, "again.%d" % q["w"])
    nwk = b.get("workers") or run.workers
    cmd = [path] + run.args(q["w"], nwk, ["--out=" + o2, "--spec=" + name, "--fork", "--skip=%d" % index, "--budget=120", "--shrink=20"])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), timeout=400, cwd=run.tmp, preexec_fn=die_with_parent)
        rc2 = p.returncode
    except subprocess.TimeoutExpired:
        rc2 = None
    if rc2 == 1 and os.path.exists(o2 + ".fail"):
        case = o2 + ".fail"
        bad, msg = run.replay(path, b, case, 3)
        if bad == 0:
            case = o2 + ".first"
            bad, msg = run.replay(path, b, case, 3)
        if bad:
            dst = os.path.join(rdir, "%s-%s-%s.case" % (pid, name, sha(open(case, "rb").read())[:10]))
            shutil.copy(case, dst)
            return dict(violation=True, msg="spec %s, failed in %d of 3 replays\n" % (name, bad) + msg, replay=os.path.relpath(dst, VERIF))
    # needs the history of the process: run the campaign again
    n = 0
    for _ in range(3):
        o3 = os.path.join(run.tmp, "camp.%d" % q["w"])
        try:
            p = subprocess.run([path] + run.args(q["w"], nwk, ["--out=" + o3, "--spec=" + name, "--budget=200"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), timeout=240, cwd=run.tmp, preexec_fn=die_with_parent)
            n += p.returncode != 0
        except subprocess.TimeoutExpired:
            n += 1
    if n >= 2:
        dst = os.path.join(rdir, "%s-%s-campaign.case" % (pid, name))
        with open(dst, "w") as f:
            f.write("spec %s\ncampaign --worker=%d --nworkers=%d --spec=%s --seed=%d --tier=%s\n" % (name, q["w"], nwk, name, run.seed, run.tier))
        return dict(violation=True, msg="spec %s: the process dies or hangs near case %d\n%s" % (name, index, base), replay=os.path.relpath(dst, VERIF))
    return dict(violation=False, msg="worker ended with %s at case %d of %s: %s" % (rc, index, name, base))


def read_findings():
    try:
        return open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")).read().splitlines()
    except OSError:
        return []


def main():
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(encoding="utf-8", errors="backslashreplace")
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        bins, aux, seen = [], [], set()
        for c in CHECKS.values():
            for b in c["bins"]:
                if b["name"] not in seen:
                    seen.add(b["name"])
                    bins.append(b)
            aux += [x for x in c.get("aux", []) if x not in aux]
        try:
            build_bins(bins, aux)
        except BuildError as e:
            print(e)
            return 1
        print("built %d binaries" % len(bins))
        return 0
    if not a or a[0] not in CHECKS:
        print(__doc__)
        return 2
    rf = None
    if len(a) > 2 and a[1] == "--replay":
        rf = a[2]
    return do_check(a[0], rf)


if __name__ == "__main__":
    sys.exit(main())
