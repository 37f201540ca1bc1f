"""Checks that need more than the two standard configurations."""
import json, os, re, shutil, signal, subprocess, threading, time

HOST = "x86_64-unknown-linux-gnu"
FULL = "std,parallel,simd,soa,slow,compile-time-rfft"
SEQ = "std,simd,soa,slow,compile-time-rfft"


# ------------------------------------------------------------------ P24
def first_frames(text):
    """The first few frames of a report that lie in the library (or the first frames at all)."""
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S[^\n]*?)(?: \(/|\s+/|$)", text, flags=re.M)
    fr = [re.sub(r"::h[0-9a-f]{16}", "", f).strip() for f in fr]
    own = [f for f in fr if "kofft" in f]
    return (own or fr)[:1]


def san_report(text, rc):
    m = re.search(r"(?:ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|MemorySanitizer|LeakSanitizer): ([^\n(]*)", text)
    if not m:
        if "unsafe precondition(s) violated" in text:
            k = re.search(r"unsafe precondition\(s\) violated: ([^\n]*)", text)
            return "unsafe precondition violated: " + k.group(1)[:120], text[-1500:]
        return None
    kind = re.sub(r" on (?:unknown )?address.*| 0x[0-9a-f]+.*", "", m.group(2)).strip()
    if "out-of-memory" in kind or "allocation-size-too-big" in kind:
        return None
    at = first_frames(text[m.start():])
    return "%s: %s in %s" % (m.group(1), kind, at[0] if at else "?"), text[m.start() : m.start() + 2500]


class Miri:
    """A copy of the harness manifest in which libm's inline assembly (which Miri cannot
    interpret) is switched off; sources are the harness's own."""

    def __init__(self, ck):
        self.ck = ck
        self.dir = os.path.join(ck.TARGET, "miri-src")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        h = os.path.join(ck.HERE, "harness")
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(h, f), self.dir)
        os.symlink(os.path.join(h, "src"), os.path.join(self.dir, "src"))
        lock = open(os.path.join(h, "Cargo.lock")).read()
        v = re.search(r'name = "libm"\nversion = "([^"]+)"', lock).group(1)
        home = ck.base_env().get("CARGO_HOME", os.path.expanduser("~/.cargo"))
        src = None
        for root in (home, os.path.expanduser("~/.cargo"), "/root/.cargo"):
            base = os.path.join(root, "registry", "src")
            if os.path.isdir(base):
                for r in os.listdir(base):
                    p = os.path.join(base, r, "libm-" + v)
                    if os.path.isdir(p):
                        src = src or p
        if src:
            dst = os.path.join(self.dir, "libm")
            shutil.copytree(src, dst)
            t = open(os.path.join(dst, "Cargo.toml")).read().replace('default = ["arch"]', "default = []")
            open(os.path.join(dst, "Cargo.toml"), "w").write(t)
            with open(os.path.join(self.dir, "Cargo.toml"), "a") as f:
                f.write('\n[patch.crates-io]\nlibm = { path = "libm" }\n')

    def env(self, target, rustflags, tree):
        e = self.ck.base_env(nightly=True)
        e["CARGO_TARGET_DIR"] = os.path.join(self.ck.TARGET, "miri")
        e["XDG_CACHE_HOME"] = os.path.join(self.ck.TARGET, "miri-sysroot")
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks" + (" -Zmiri-tree-borrows" if tree else "")
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        return e

    def setup(self, target):
        e = self.env(target, "", False)
        return self.ck.run(["cargo", "+nightly", "miri", "setup", "--target", target], e, self.dir, 300)

    def shards(self, res, notes, label, feats, which, of, seed, budget, work, target=HOST, rustflags="", tree=False, props="p24", prop="P24", tier="quick", wait=True, limit=None, only=None, rounds=0):
        """Interpret some shards of the workload; several calls may run at the same time."""
        e = self.env(target, rustflags, tree)
        d = os.path.join(work, re.sub(r"[^A-Za-z0-9_-]", "_", label))
        os.makedirs(d, exist_ok=True)
        e["TMPDIR"] = d
        base = ["cargo", "+nightly", "miri", "run", "--offline", "--target", target, "--no-default-features", "--features", feats + "," + props, "--"]
        # build once
        rc, out = self.ck.run(base + ["--property", "none", "--tier", "quick"], e, self.dir, 300)
        if "unknown property none" not in out:
            notes.append("%s: not interpreted (%s)" % (label, out[-300:].replace("\n", " ")))
            return None
        procs = []
        for i in which:
            o = os.path.join(d, "s%d.json" % i)
            cmd = base + ["--property", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--shard", "%d/%d" % (i, of), "--out", o]
            if rounds:
                cmd += ["--rounds", str(rounds)]
            lf = open(o + ".log", "wb")
            procs.append((i, subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True), o, cmd, lf))

        def join():
            end = time.time() + (limit or budget * 2 + 90)
            for i, p, o, cmd, lf in procs:
                try:
                    rc = p.wait(timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    notes.append("%s shard %d: stopped by the time limit" % (label, i))
                    continue
                finally:
                    lf.close()
                text = open(o + ".log", "rb").read().decode(errors="replace")
                try:
                    journal = open(o + ".journal").read().strip()
                except OSError:
                    journal = ""
                m = re.search(r"error: (Undefined Behavior: [^\n]*)", text)
                if m or "unsafe precondition(s) violated" in text:
                    what = m.group(1) if m else "unsafe precondition violated"
                    at = re.search(r"--> (\S*src/\S+?):\d+:\d+", text[m.start():] if m else text)
                    k = text.find("error: Undefined") if m else 0
                    sig = "Miri: %s at %s" % (re.sub(r"alloc\d+|<\d+>|0x[0-9a-f]+|\d+", "#", what)[:110], at.group(1) if at else "?")
                    full = ["env", "CARGO_TARGET_DIR=" + e["CARGO_TARGET_DIR"], "XDG_CACHE_HOME=" + e["XDG_CACHE_HOME"], "MIRIFLAGS=" + e["MIRIFLAGS"], "RUSTFLAGS=" + rustflags] + cmd
                    full = full[:1] + ["-C", self.dir] + full[1:]
                    res.viol.append(dict(sig=sig, detail=text[k : k + 2500] + " in case " + journal, cfg=label, kind=journal.rsplit(":", 1)[0], idx=journal.rsplit(":", 1)[-1], cmd=full))
                    res.nviol += 1
                    continue
                if rc == 0 and os.path.exists(o):
                    res.add(json.load(open(o)), label, cmd)
                else:
                    k = text.find("error:")
                    notes.append("%s shard %d: ended in case %s (%s)" % (label, i, journal, text[max(k, 0) : max(k, 0) + 300].replace("\n", " ")))

        if wait:
            join()
        return join


def san_specs(full):
    host = "--target=" + HOST
    return {
        "asan": dict(nightly=True, feats=FULL, args=[host], triple=HOST, env={"RUSTFLAGS": "-Zsanitizer=address"}),
        "asan-default": dict(nightly=True, feats="std", args=[host], triple=HOST, env={"RUSTFLAGS": "-Zsanitizer=address"}),
        "msan": dict(nightly=True, feats=FULL, args=[host, "-Zbuild-std"], triple=HOST, env={"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg kverif_msan"}),
        "tsan": dict(nightly=True, feats=FULL, args=[host, "-Zbuild-std"], triple=HOST, env={"RUSTFLAGS": "-Zsanitizer=thread --cfg kverif_tsan --cfg crossbeam_sanitize_thread"}),
    }


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:detect_odr_violation=0:abort_on_error=0:exitcode=77:max_allocation_size_mb=8192",
    "MSAN_OPTIONS": "exitcode=77:allocator_may_return_null=1",
    # the work-stealing deque of rayon races by design on volatile job slots; nothing of the
    # library runs inside its frames
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "tsan.supp"),
}


def p24(ck, prop, tier, seed, work):
    res = ck.Result()
    notes = []
    specs = san_specs(tier)
    deep = tier == "thorough"
    built = {}
    mir = {}

    def one(c, props):
        built[c] = ck.build(c, specs[c], props, timeout=500)

    def miri_setup():
        try:
            m = Miri(ck)
            rc, out = m.setup(HOST)
            if rc != 0:
                raise RuntimeError(out[-300:])
            mir["m"] = m
        except Exception as e:
            notes.append("Miri unavailable: %s" % e)

    wl = "p24,p23" if not deep else "all"
    ts = [threading.Thread(target=one, args=("asan", wl)), threading.Thread(target=one, args=("asan-default", "p24" if not deep else "all")), threading.Thread(target=one, args=("tsan", "p24,p23")), threading.Thread(target=one, args=("msan", "p24,p23" if not deep else "all")), threading.Thread(target=miri_setup)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if all(b[0] is None for b in built.values()) and not mir:
        raise ck.Inconclusive("no sanitizer build: %s" % built["asan"][1][-1500:])
    for c, b in built.items():
        if b[0] is None:
            raise ck.Inconclusive("the %s build failed: %s" % (c, b[1][-1500:]))
    ck.log("built", sorted(built), "miri" if mir else "no miri")

    def go(c, what, t, budget, rounds=0, seed_=seed, shards=ck.NCPU, extra=()):
        before = res.nviol
        r = ck.Result()
        ck.run_shards(r, what, c, built[c][0], t, seed_, budget, rounds=rounds, shards=shards, work=work, label="%s-%s%s" % (c, what, "" if t == "quick" else "-large"), env_extra=SAN_ENV, parse_report=san_report, extra=extra)
        merge(res, r, what, notes)
        ck.log(c, what, "ran:", res.cases, "cases,", res.nviol - before, "reports")

    # Miri first: it is the slowest
    q = ck.NCPU // 2
    if mir:
        m = mir["m"]
        b = 75 if not deep else 170
        of = 8 if not deep else 4
        j1 = m.shards(res, notes, "miri-full", SEQ, range(0, q), of, seed, b, work, wait=False, rounds=0 if not deep else 50)
        j2 = m.shards(res, notes, "miri-default", "std", range(q, 8) if not deep else range(0, q), of, seed, b, work, wait=False, rounds=0 if not deep else 50)
        for j in (j1, j2):
            if j:
                j()
        ck.log("miri ran:", res.cases, "cases,", res.nviol, "reports")
    go("asan", "P24", "quick", 25 if not deep else 60, rounds=24 if not deep else 200)
    go("asan-default", "P24", "quick", 12 if not deep else 40, rounds=12 if not deep else 200, seed_=seed + 1)
    go("tsan", "P24", "quick", 15 if not deep else 60, rounds=8 if not deep else 100)
    go("msan", "P24", "quick", 15 if not deep else 60, rounds=8 if not deep else 100)
    go("asan", "P23", "quick", 30, rounds=1)
    go("tsan", "P23", "quick", 20 if not deep else 60, rounds=3 if not deep else 20)
    if deep:
        for what in sorted(ck.PROPS):
            if what in ("P23",):
                continue
            go("asan", what, "quick", 14, rounds=3)
            if what != "P22":
                go("msan", what, "quick", 14, rounds=2)
        if mir:
            m = mir["m"]
            for label, feats, target, flags, tree in (
                ("miri-x86-avx2", SEQ + ",sse,avx2", HOST, "-Ctarget-feature=+avx2,+fma", False),
                ("miri-x86_64", SEQ + ",x86_64", HOST, "-Ctarget-feature=+avx,+avx2,+fma", False),
                ("miri-parallel-tree-borrows", FULL, HOST, "", True),
                ("miri-aarch64", SEQ, "aarch64-unknown-linux-gnu", "", False),
                ("miri-i686", SEQ, "i686-unknown-linux-gnu", "", False),
                ("miri-s390x", SEQ, "s390x-unknown-linux-gnu", "", False),
            ):
                if target != HOST:
                    rc, out = m.setup(target)
                    if rc != 0:
                        notes.append("%s: no sysroot" % label)
                        continue
                m.shards(res, notes, label, feats, range(8), 8, seed + 2, 70, work, target=target, rustflags=flags, tree=tree)
                ck.log(label, "ran:", res.cases, "cases,", res.nviol, "reports")
    return res, dict(tools=sorted(built) + (["miri"] if mir else []), notes=notes[:30])


def merge(res, r, what, notes, values=False):
    """Add the observations of one run. Value mismatches seen on the way belong to the other
    properties; here only sanitizer reports and crashes count."""
    res.evals += r.evals
    res.cases += r.cases
    res.sigs |= r.sigs
    for k, v in r.cover.items():
        k = k if what == "P24" else what + " " + k
        res.cover[k] = res.cover.get(k, 0) + v
    res.samples += r.samples[: max(0, 14 - len(res.samples))]
    res.walls.update(r.walls)
    res.peak = max(res.peak, r.peak)
    for v in r.viol:
        if re.match(r"(Address|Thread|Memory)Sanitizer|process killed by signal|unsafe precondition", v["sig"]):
            res.viol.append(v)
            res.nviol += 1
        else:
            notes.append("%s: %s (left to that property's own check)" % (what, v["sig"]))
    for p in r.problems:
        notes.append(p[:300])


# ------------------------------------------------------------------ P25
# name: (features, rustc flags, CPU flags it needs, also in the quick tier)
SETTINGS = {
    "no-std": ("", "", (), True),
    "no-std-all": ("simd,soa,parallel,slow,compile-time-rfft", "", (), True),
    "sse": ("std,sse", "", (), True),
    "avx2-fma": ("std,avx2,simd,soa", "-Ctarget-feature=+avx2,+fma", ("avx2", "fma"), True),
    "avx": ("std,x86_64", "-Ctarget-feature=+avx", ("avx",), True),
    "avx512-native": ("std,avx512,x86_64,parallel,simd,soa", "-Ctarget-cpu=native", ("avx512f",), True),
    "precomputed-parallel": ("std,precomputed-twiddles,parallel,slow", "", (), True),
    "release": ("std,simd,soa,compile-time-rfft", "-Cdebug-assertions=off -Coverflow-checks=off", (), True),
    "full": (FULL, "", (), True),
    "simd": ("std,simd", "", (), False),
    "soa": ("std,soa", "", (), False),
    "parallel": ("std,parallel", "", (), False),
    "avx2-sse": ("std,sse,avx2,precomputed-twiddles", "-Ctarget-feature=+avx2", ("avx2",), False),
    "avx512f": ("std,avx512,simd", "-Ctarget-feature=+avx512f,+avx2,+fma", ("avx512f", "avx2", "fma"), False),
    "x86_64-baseline": ("std,x86_64,soa", "", ("avx", "avx2", "fma"), False),
    "no-std-native": ("simd", "-Ctarget-cpu=native", (), False),
    "no-std-release": ("soa,compile-time-rfft", "-Cdebug-assertions=off -Coverflow-checks=off", (), False),
    "everything": (FULL + ",sse,avx2,x86_64,precomputed-twiddles", "-Ctarget-cpu=native", ("avx2", "fma"), False),
}
# rounds of quick-size cases per property (about one second each)
P25_ROUNDS = {"P01": 1, "P02": 1, "P04": 3, "P05": 2, "P06": 2, "P07": 2, "P08": 3, "P09": 3, "P10": 4, "P11": 4, "P12": 4, "P13": 4, "P14": 4, "P15": 8, "P16": 24, "P17": 10, "P18": 4, "P19": 3, "P20": 3, "P21": 8, "P26": 1, "P27": 2, "P28": 24}


def p25(ck, prop, tier, seed, work):
    from concurrent.futures import ThreadPoolExecutor

    deep = tier == "thorough"
    have = ck.cpu_flags()
    res = ck.Result()
    notes = []
    names = ["default"] + [n for n, v in SETTINGS.items() if deep or v[3]]
    sel = ",".join(sorted(p.lower() for p in P25_ROUNDS))
    env = {"CARGO_PROFILE_RELEASE_DEBUG": "0", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "3" if deep else "1"}
    exes = {}

    def one(n):
        feats, flags, need, _ = SETTINGS.get(n, ("std", "", (), True))
        if any(f not in have for f in need):
            notes.append("%s: not run, this CPU lacks %s" % (n, [f for f in need if f not in have]))
            return
        exe, err = ck.build("p25-" + n, dict(feats=feats, env=dict(env, RUSTFLAGS=flags)), sel, timeout=700, jobs=3)
        if exe is None:
            # Only the harness or the library can fail to build; the standard configurations must.
            exes[n] = (None, err)
        else:
            exes[n] = (exe, "")

    with ThreadPoolExecutor(5) as ex:
        list(ex.map(one, names))
    ck.log("built", len([1 for e in exes.values() if e[0]]), "configurations")
    if not exes.get("default", (None, ""))[0]:
        raise ck.Inconclusive("the default configuration does not build: %s" % exes["default"][1][-1500:])
    for n in names:
        if n in exes and exes[n][0] is None:
            err = exes[n][1]
            if "could not compile `kofft`" in err:
                res.viol.append(dict(sig="configuration %s does not compile" % n, detail="features %s, flags %s: %s" % (SETTINGS[n][0], SETTINGS[n][1], err[-1200:]), cfg=n, kind="", idx="", cmd=["true"]))
                res.nviol += 1
            else:
                notes.append("%s: not built: %s" % (n, err[-300:]))

    def job(a):
        n, p, sd, rounds, t, budget = a
        r = ck.Result()
        ck.run_shards(r, p, n, exes[n][0], t, sd, budget, rounds=rounds, shards=1, work=os.path.join(work, n, p, t), label=n)
        return n, p, t, r

    plan = []
    for n in names:
        if n not in exes or not exes[n][0]:
            continue
        for p, k in P25_ROUNDS.items():
            if p == "P21" and "std" not in SETTINGS.get(n, ("std",))[0].split(","):
                continue
            plan.append((n, p, seed, k * (6 if deep else 1), "quick", 100))
            if deep:
                plan.append((n, p, seed + 7, 1, "thorough", 8))
    plan.sort(key=lambda a: -{"P01": 3, "P02": 5, "P26": 2, "P06": 2, "P07": 2}.get(a[1], 1))
    out = []
    with ThreadPoolExecutor(ck.NCPU) as ex:
        for r in ex.map(job, plan):
            out.append(r)
    # what already fails in the default configuration is not this property's business
    base = set()
    for n, p, t, r in out:
        if n == "default":
            base |= {(p, v["sig"]) for v in r.viol}
    per = {}
    for n, p, t, r in out:
        per[n] = per.get(n, 0) + r.cases
        res.evals += r.evals
        res.cases += r.cases
        res.sigs |= r.sigs
        for k, v in r.worst.items():
            k = p + " " + k
            if k not in res.worst or v[0] > res.worst[k][0]:
                res.worst[k] = v
        for s in r.samples[:1]:
            if len(res.samples) < 14 and n != "default":
                res.samples.append("%s %s" % (p, s))
        for q in r.problems:
            notes.append("%s %s: %s" % (n, p, q[:200]))
        for v in r.viol:
            if n == "default":
                notes.append("default %s: %s (left to that property's own check)" % (p, v["sig"]))
            elif (p, v["sig"]) not in base:
                v["sig"] = "%s: %s" % (p, v["sig"])
                res.viol.append(v)
                res.nviol += 1
    res.worst = dict(sorted(res.worst.items(), key=lambda kv: -kv[1][0])[:30])
    return res, dict(cases_per_configuration=per, settings={n: SETTINGS[n][:2] for n in names if n in SETTINGS}, notes=notes[:30])


# ------------------------------------------------------------------ P29, P30
def cli(ck, prop, tier, seed, work):
    """The command-line tools, built next to their monitor."""
    res = ck.Result()
    exe, err = ck.build("cli", dict(bin="kverif-cli"), prop, timeout=600, crate="harness-cli")
    if exe is None:
        raise ck.Inconclusive("the tools do not build: " + err[-1500:])
    ck.log("built")
    rounds = {"P29": 20, "P30": 12}[prop]
    big = 30 if tier == "quick" else 300
    ck.run_shards(res, prop, "cli", exe, "quick", seed, 120, rounds=rounds * (1 if tier == "quick" else 4), work=work)
    ck.run_shards(res, prop, "cli", exe, "thorough", seed + 1000, big, work=work, label="cli-large")
    ck.log("ran:", res.cases, "cases", res.nviol, "violations")
    return res, None


# ------------------------------------------------------------------ P31
def web(ck, prop, tier, seed, work):
    """The browser front end and its server, built next to their monitor."""
    res = ck.Result()
    exe, err = ck.build("web", dict(bin="kverif-web"), prop, timeout=600, crate="harness-web")
    if exe is None:
        raise ck.Inconclusive("the web front end does not build: " + err[-1500:])
    ck.log("built")
    ck.run_shards(res, prop, "web", exe, "quick", seed, 150, rounds=10 * (1 if tier == "quick" else 6), work=work)
    ck.run_shards(res, prop, "web", exe, "thorough", seed + 1000, 30 if tier == "quick" else 300, work=work, label="web-large")
    ck.log("ran:", res.cases, "cases", res.nviol, "violations")
    return res, None


RUN = {"P24": p24, "P25": p25, "P29": cli, "P30": cli, "P31": web}
