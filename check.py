#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the harness against /repo's working tree, runs its
shards under the monitors, and turns what they observed into a verdict and an evidence file.

exit 0  held on everything observed        exit 1  VIOLATION line printed
exit 2  inconclusive (build failure, out of memory, time-out, nothing observed)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
REPO = os.environ.get("KVERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
NCPU = 8
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Inconclusive(Exception):
    pass


def base_env(nightly=False):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RAYON_NUM_THREADS"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("KOFFT_"):
            e.pop(k)
    try:
        for l in subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e, timeout=20).stdout.split(b"\0"):
            k, _, v = l.decode(errors="replace").partition("=")
            if k in ("CARGO_HOME", "RUSTUP_HOME", "PATH", "RUSTUP_TOOLCHAIN"):
                e[k] = v
    except Exception:
        pass
    if nightly:
        e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


# ----------------------------------------------------------------- build configurations
# feature sets of the harness; the monitors compiled in (pNN) are added per property
CONFIGS = {
    "default": dict(feats="std"),
    "full": dict(feats="std,parallel,simd,soa,slow,compile-time-rfft"),
}


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def run(cmd, env, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "timed out after %d s" % timeout


def build(cfg, spec, props="all", timeout=600, crate="harness", jobs=None):
    """Builds one configuration with the monitors `props` (a comma-separated list of cargo
    features); returns (path of the binary, error text)."""
    props = props.lower()
    tdir = os.path.join(TARGET, cfg)
    env = base_env(spec.get("nightly", False))
    env["CARGO_TARGET_DIR"] = tdir
    env.update(spec.get("env", {}))
    cmd = ["cargo"] + (["+nightly"] if spec.get("nightly") else []) + ["build", "--release", "--offline"] + spec.get("args", [])
    if "feats" in spec:
        cmd += ["--no-default-features", "--features", ",".join(x for x in (spec["feats"], props) if x)]
    if jobs:
        cmd += ["-j", str(jobs)]
    rc, out = run(cmd, env, os.path.join(HERE, crate), timeout)
    sub = os.path.join(tdir, spec.get("triple", ""), "release")
    exe = os.path.join(sub, spec.get("bin", "kverif"))
    if rc != 0 or not os.path.exists(exe):
        return None, out[-4000:]
    own = exe + "-" + hashlib.sha1(props.encode()).hexdigest()[:8] if len(props) > 12 else exe + "-" + props
    shutil.copy2(exe, own + ".tmp")
    os.replace(own + ".tmp", own)
    return own, ""


def build_all(cfgs, props="all", timeout=600):
    res = {}

    def one(c):
        try:
            res[c] = build(c, CONFIGS[c], props, timeout)
        except Exception as e:
            res[c] = (None, "build of %s: %r" % (c, e))

    ts = [threading.Thread(target=one, args=(c,)) for c in cfgs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


# ----------------------------------------------------------------- running shards
class Result:
    def __init__(self):
        self.evals = self.cases = self.nviol = 0
        self.sigs = set()
        self.cover = {}
        self.worst = {}
        self.samples = []
        self.viol = []  # dict(sig, detail, cfg, kind, idx, cmd)
        self.problems = []
        self.peak = 0
        self.walls = {}
        self.cut = False

    def add(self, d, cfg, cmd):
        self.evals += d["evaluations"]
        self.cases += d["cases"]
        self.nviol += d["nviol"]
        self.sigs.update("%s:%s" % (cfg, s) for s in d["sigs"])
        for k, v in d["cover"].items():
            self.cover[k] = self.cover.get(k, 0) + v
        for k, v in d["worst"].items():
            k = k
            if k not in self.worst or v[0] > self.worst[k][0]:
                self.worst[k] = [v[0], "%s [%s]" % (v[1], cfg)]
        for s in d["samples"]:
            if len(self.samples) < 14:
                self.samples.append("[%s] %s" % (cfg, s))
        self.peak = max(self.peak, d.get("peak_bytes", 0))
        self.cut = self.cut or d.get("cut", False)
        for v in d["violations"]:
            self.viol.append(dict(sig=v["sig"], detail=v["detail"], cfg=cfg, kind=v["kind"], idx=v["idx"], cmd=cmd))


SIGNALS_OF_THE_CODE = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP}


def run_shards(res, prop, cfg, exe, tier, seed, budget, rounds=0, shards=NCPU, extra=(), env_extra=None, label=None, work=None, only=None, parse_report=None, timeout=None, wrapper=()):
    """Run all shards of one property in one configuration at the same time."""
    label = label or cfg
    d = os.path.join(work, re.sub(r"[^A-Za-z0-9_-]", "_", label))
    os.makedirs(d, exist_ok=True)
    env = base_env()
    env["TMPDIR"] = d
    shm = None
    if prop == "P22":  # very many small files: keep them in memory where that is possible
        try:
            if shutil.disk_usage("/dev/shm").free > 2 << 30:
                shm = env["TMPDIR"] = tempfile.mkdtemp(prefix="kverif-", dir="/dev/shm")
        except OSError:
            pass
    env.update(env_extra or {})
    procs = []
    t0 = time.time()
    for i in range(shards):
        out = os.path.join(d, "s%d.json" % i)
        cmd = list(wrapper) + [exe, "--property", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--shard", "%d/%d" % (i, shards), "--out", out] + list(extra)
        if rounds:
            cmd += ["--rounds", str(rounds)]
        lf = open(out + ".log", "wb")
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((i, p, out, cmd, lf))
    limit = t0 + (timeout or budget * 1.5 + 150)
    for i, p, out, cmd, lf in procs:
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            res.problems.append("%s shard %d did not finish within its wall-clock limit" % (label, i))
            continue
        finally:
            lf.close()
        text = open(out + ".log", "rb").read().decode(errors="replace")
        journal = ""
        try:
            journal = open(out + ".journal").read().strip()
        except OSError:
            pass
        if parse_report:
            v = parse_report(text, rc)
            if v:
                res.viol.append(dict(sig=v[0], detail=v[1] + " in case " + journal, cfg=label, kind=journal.rsplit(":", 1)[0], idx=journal.rsplit(":", 1)[-1], cmd=cmd))
                res.nviol += 1
                continue
        if rc in (0, 1) and os.path.exists(out):
            try:
                res.add(json.load(open(out)), label, cmd)
                continue
            except ValueError as e:
                res.problems.append("%s shard %d: unreadable result (%s)" % (label, i, e))
                continue
        if rc == 86 and os.path.exists(out + ".hang"):
            h = open(out + ".hang").read().strip()
            res.viol.append(dict(sig="hang", detail=h, cfg=label, kind=journal.rsplit(":", 1)[0], idx=journal.rsplit(":", 1)[-1], cmd=cmd))
            res.nviol += 1
            continue
        if rc is not None and rc < 0 and -rc in [int(s) for s in SIGNALS_OF_THE_CODE] and journal:
            res.viol.append(dict(sig="process killed by signal %s in %s" % (signal.Signals(-rc).name, journal.rsplit(":", 1)[0]), detail="case %s: %s" % (journal, text[-600:]), cfg=label, kind=journal.rsplit(":", 1)[0], idx=journal.rsplit(":", 1)[-1], cmd=cmd))
            res.nviol += 1
            continue
        res.problems.append("%s shard %d ended with status %s: %s" % (label, i, rc, text[-800:]))
    if shm:
        shutil.rmtree(shm, ignore_errors=True)
    res.walls[label] = round(time.time() - t0, 1)


# ----------------------------------------------------------------- verdict
def known_findings(prop):
    """Lines `finding: property=<id> sig=<exact signature>` suppress exactly that signature."""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) sig=\[(.*?)\] (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def verdict(prop, tier, seed, res, rule, assumptions, extra_cov=None, min_cases=1):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    kf = known_findings(prop)
    new, known = [], {}
    for v in res.viol:
        hit = [k for k in kf if k[0] == v["sig"]]
        if hit:
            known[hit[0][0]] = hit[0][1]
        else:
            new.append(v)
    cov = dict(
        evaluations=res.evals,
        cases=res.cases,
        distinct_nontrivial=len(res.sigs),
        rule=rule,
        samples=res.samples or ["none"],
        observed=dict(sorted(res.cover.items())),
        worst_ratio_to_bound={k: {"ratio": round(v[0], 5), "where": v[1]} for k, v in sorted(res.worst.items())},
        configurations=res.walls,
        peak_heap_bytes=res.peak,
        cut_by_time_budget=res.cut,
        inconclusive=res.problems[:10],
    )
    cov.update(extra_cov or {})
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 1), violations=len(new))
    tmp = os.path.join(ev_dir, "%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ev_dir, "%s.json" % prop))
    for s, d in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if new:
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for v in new:
            key = v["sig"]
            if key in seen:
                continue
            if len(seen) >= 25:
                break
            name = "%s-%s.sh" % (prop, hashlib.sha1((key + v["cfg"]).encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# property %s: %s\n# configuration %s, case %s:%s, seed %s, tier %s\n# %s\n" % (prop, v["sig"], v["cfg"], v["kind"], v["idx"], seed, tier, v["detail"].replace("\n", "\n# ")))
                f.write("# replays the case (build the configuration first with: python3 %s/check.py --property %s --tier quick)\n" % (HERE, prop))
                cmd = list(v["cmd"])
                if "--out" in cmd:
                    k = cmd.index("--out")
                    del cmd[k : k + 2]
                if "--shard" in cmd:
                    k = cmd.index("--shard")
                    del cmd[k : k + 2]
                if v["kind"]:
                    cmd += ["--only", "%s:%s" % (v["kind"], v["idx"]), "--verbose"]
                f.write("exec " + " ".join("'%s'" % c for c in cmd) + "\n")
            os.chmod(path, 0o755)
            seen[key] = path
            print("  [%s] %s:%s %s | %s" % (v["cfg"], v["kind"], v["idx"], v["sig"], v["detail"][:300].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if res.problems:
        for p in res.problems[:10]:
            print("INCONCLUSIVE property=%s %s" % (prop, p))
        return 2
    if res.cases < min_cases or res.evals == 0:
        print("INCONCLUSIVE property=%s nothing observed" % prop)
        return 2
    print("HELD property=%s on %d evaluations in %d cases (%d distinct situations), %.0f s" % (prop, res.evals, res.cases, len(res.sigs), time.time() - T0))
    return 0


# ----------------------------------------------------------------- properties
COMMON = [
    "the f64 reference transforms of the harness (direct sums and a checked mixed-radix recursion) are correct",
    "bounds are multiples of the element type's machine epsilon; a defect below the bound is not seen",
    "what is reported held on the executions of this run, on this CPU",
]
# quick: rounds of quick-size cases per configuration, seconds of thorough-size cases
PROPS = {
    "P01": dict(rounds=12, big=14),
    "P02": dict(rounds=12, big=14),
    "P03": dict(rounds=10, big=11),
    "P04": dict(rounds=120, big=11),
    "P05": dict(rounds=80, big=8),
    "P06": dict(rounds=40, big=11),
    "P07": dict(rounds=40, big=11),
    "P08": dict(rounds=120, big=9),
    "P09": dict(rounds=120, big=9),
    "P10": dict(rounds=200, big=9),
    "P11": dict(rounds=200, big=9),
    "P12": dict(rounds=90, big=9),
    "P13": dict(rounds=130, big=9),
    "P14": dict(rounds=200, big=9),
    "P15": dict(rounds=300, big=9),
    "P16": dict(rounds=800, big=8),
    "P17": dict(rounds=400, big=8),
    "P18": dict(rounds=200, big=9),
    "P19": dict(rounds=120, big=8),
    "P20": dict(rounds=100, big=8),
    "P21": dict(rounds=300, big=8),
    "P22": dict(rounds=30, big=9),
    "P23": dict(rounds=5, big=0),
    "P26": dict(rounds=15, big=8),
    "P27": dict(rounds=80, big=9),
    "P28": dict(rounds=1000, big=8),
}
RULES = {}


def generic(prop, tier, seed, work):
    spec = PROPS[prop]
    res = Result()
    built = build_all(["default", "full"], prop)
    for c in ("default", "full"):
        if built[c][0] is None:
            raise Inconclusive("the %s configuration does not build: %s" % (c, built[c][1][-1500:]))
    log("built")
    for c in ("default", "full"):
        exe = built[c][0]
        if tier == "quick":
            run_shards(res, prop, c, exe, "quick", seed, 150, rounds=spec["rounds"], work=work)
            if spec["big"]:
                run_shards(res, prop, c, exe, "thorough", seed + 1000, spec["big"], work=work, label=c + "-large")
        else:
            run_shards(res, prop, c, exe, "quick", seed, 60, rounds=spec["rounds"] * 4, work=work)
            run_shards(res, prop, c, exe, "thorough", seed + 1000, 170, work=work, label=c + "-large")
        log(c, "ran:", res.cases, "cases", res.nviol, "violations")
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    import rules

    work = tempfile.mkdtemp(prefix="kverif-%s-" % a.property)
    try:
        extra = None
        if a.property in PROPS:
            res = generic(a.property, a.tier, a.seed, work)
        else:
            import special

            res, extra = special.RUN[a.property](sys.modules[__name__], a.property, a.tier, a.seed, work)
        code = verdict(a.property, a.tier, a.seed, res, rules.RULES[a.property], rules.ASSUME.get(a.property, []) + COMMON, extra)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (a.property, e))
        code = 2
    except Exception:
        # a fault of this driver says nothing about the property
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the driver failed" % a.property)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
