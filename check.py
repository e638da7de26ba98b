#!/usr/bin/env python3
"""Supervisor of the runtime monitors.

  check.py C07              quick or thorough run, by VERIF_TIER (default quick)
  check.py C07 --tier thorough
  check.py --setup          build all variants beforehand

Builds the monitors from /repo's working tree, runs them (both build profiles,
guided by coverage, and under sanitizers / the interpreter where they decide the property), compares what
they report with KNOWN_FINDINGS.txt, and writes evidence/<property>.json.
Exit 0: held; 1: VIOLATION printed; 2: no answer (error or too little observed).
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shlex, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from meta import CHECKS, TRUST  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(V, "harness")
TARGET = os.path.join(V, "target")
RUN = os.path.join(V, "run")
REPLAYS = os.path.join(V, "replays")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {"asan": "address", "msan": "memory", "tsan": "thread"}


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def base_env(toolchain):
    keep = ("HOME", "PATH", "TMPDIR", "LANG", "USER")
    e = {k: os.environ[k] for k in keep if k in os.environ}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in os.walk(top):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            h.update(b"?")
        h.update(b"\0")
    return h.hexdigest()


def sh(cmd, env, logfile, cwd=HARNESS, timeout=1500):
    with open(logfile, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout).returncode


def tail(path, n=40):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


def build(variant, cfgs):
    """Returns how to start the monitor of that variant: (argv prefix, env)."""
    t0 = time.time()
    # the optional hooks change what is compiled, so they get their own directory
    name = variant + "".join("+" + c.replace("rtps_verif_", "") for c in cfgs)
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    logfile = os.path.join(RUN, f"build-{name}.log")
    open(logfile, "w").close()
    flags = "--cfg rtps_verif -Awarnings" + "".join(f" --cfg {c}" for c in cfgs)
    env = base_env(STABLE if variant in ("dev", "rel", "cov", "eff") else NIGHTLY)
    env["CARGO_TARGET_DIR"] = tdir
    stamp, now = os.path.join(tdir, "sources.sha256"), source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if variant == "miri":
        w = os.path.join(tdir, "work")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "h"))
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(HARNESS, f), os.path.join(w, "h", f))
        os.symlink(os.path.join(HARNESS, "src"), os.path.join(w, "h", "src"))
        src = find_speedy(env)
        shutil.copytree(src, os.path.join(w, "speedy"))
        rd = os.path.join(w, "speedy", "src", "reader.rs")
        s = open(rd).read()
        n = s.count("MaybeUninit::uninit().assume_init()")
        s = s.replace("MaybeUninit::uninit().assume_init()", "MaybeUninit::zeroed().assume_init()")
        open(rd, "w").write(s)
        log(f"   (interpreter: {n} uninitialised arrays of the speedy crate itself zeroed in a private copy)")
        env.update(RUSTFLAGS=flags, XDG_CACHE_HOME=os.path.join(tdir, "cache"), MIRIFLAGS="-Zmiri-disable-isolation")
        cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--config", f'patch.crates-io.speedy.path="{os.path.join(w, "speedy")}"', "--"]
        # builds the interpreter's standard library and the monitor
        rc = sh(cmd + ["nothing"], env, logfile, cwd=os.path.join(w, "h"))
        if "HARNESS-ERROR unknown property nothing" not in tail(logfile):
            raise NoAnswer(f"building {name} for the interpreter failed (status {rc}):\n{tail(logfile)}")
        log(f"   built {name} in {time.time() - t0:.0f} s")
        return cmd, env, os.path.join(w, "h")
    cmd = ["cargo", "build", "--offline"]
    binary = os.path.join(tdir, "debug", "monitor")
    if variant == "rel":
        cmd.append("--release")
        binary = os.path.join(tdir, "release", "monitor")
    if variant in ("cov", "eff"):
        how = ("inline-8bit-counters", "pc-table") if variant == "cov" else ("trace-pc-guard",)
        flags += " -Cpasses=sancov-module" + "".join(" -Cllvm-args=-sanitizer-coverage-" + x for x in ("level=3",) + how)
        if variant == "eff":
            flags += " --cfg monitor_effort"
        # with --target, so that build scripts and macros are not instrumented
        cmd += ["--profile", "cov", "--target", TRIPLE]
        binary = os.path.join(tdir, TRIPLE, "cov", "monitor")
    if variant in SAN:
        flags += f" -Zsanitizer={SAN[variant]}"
        cmd += ["--target", TRIPLE]
        binary = os.path.join(tdir, TRIPLE, "debug", "monitor")
        if variant != "asan":
            cmd += ["-Zbuild-std=core,alloc,std,panic_unwind"]
        if variant == "msan":
            flags += " -Zsanitizer-memory-track-origins=1"
    env["RUSTFLAGS"] = flags
    if old is not None and old != now:
        sh(["cargo", "clean", "--offline", "-p", "rtps-rs", "-p", "monitor"] + (["--release"] if variant == "rel" else []) + (["--target", TRIPLE] if variant in SAN else ["--profile", "cov", "--target", TRIPLE] if variant in ("cov", "eff") else []), env, logfile)
    rc = sh(cmd, env, logfile)
    if rc != 0:
        raise NoAnswer(f"building {name} failed (status {rc}):\n{tail(logfile)}")
    with open(stamp, "w") as f:
        f.write(now)
    log(f"   built {name} in {time.time() - t0:.0f} s")
    renv = {k: env[k] for k in ("HOME", "PATH")}
    if variant == "cov":
        edges_of(binary)
    if variant == "asan":
        renv["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"
    if variant == "msan":
        renv["MSAN_OPTIONS"] = "exitcode=77:allocator_may_return_null=1"
    if variant == "tsan":
        renv["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=0"
    return [binary], renv, V


def edges_of(binary):
    """Which of the compiler's edge counters belong to the code under test:
    writes binary.map ('1' or '0' each) and binary.loc (where they are)."""
    st = os.stat(binary)
    key = f"{st.st_mtime_ns} {st.st_size}"
    try:
        if open(binary + ".key").read() == key:
            return
    except OSError:
        pass
    pcs = subprocess.run([binary, "edges"], capture_output=True, text=True, timeout=60).stdout
    locs = subprocess.run(["addr2line", "-e", binary], input=pcs, capture_output=True, text=True, timeout=120).stdout.splitlines()
    if not pcs or len(locs) != pcs.count("\n"):
        raise NoAnswer(f"cannot tell where the edges of {binary} are ({len(locs)} places)")
    src = os.path.join(REPO, "src") + "/"
    with open(binary + ".map", "w") as f:
        f.write("".join("1" if x.startswith(src) else "0" for x in locs))
    with open(binary + ".loc", "w") as f:
        f.write("".join(x[len(src):].split(" ")[0] + "\n" for x in locs if x.startswith(src)))
    with open(binary + ".key", "w") as f:
        f.write(key)


def find_speedy(env):
    home = env.get("CARGO_HOME") or os.path.join(env["HOME"], ".cargo")
    lock = open(os.path.join(HARNESS, "Cargo.lock")).read()
    ver = re.search(r'name = "speedy"\nversion = "([^"]+)"', lock).group(1)
    reg = os.path.join(home, "registry", "src")
    for d in sorted(os.listdir(reg)) if os.path.isdir(reg) else []:
        p = os.path.join(reg, d, f"speedy-{ver}")
        if os.path.isdir(p):
            return p
    raise NoAnswer(f"the sources of speedy {ver} are not in {reg}")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def nocore():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    """One execution of the monitor."""

    def __init__(self, prop, variant, how, args, tag, timeout, native):
        self.prop, self.variant, self.args, self.tag = prop, variant, args, tag
        self.out = os.path.join(RUN, f"{prop}.{tag}.json")
        self.err = self.out + ".stderr"
        cmd, env, cwd = how
        for f in os.listdir(RUN):
            if f.startswith(f"{prop}.{tag}.json"):
                os.unlink(os.path.join(RUN, f))
        self.cmd = cmd + [prop] + args + ["--out", self.out]
        self.env, self.cwd, self.timeout, self.native = dict(env), cwd, timeout, native
        # with a logger in all runs but the optimised one
        if variant != "rel":
            self.env["MONITOR_LOG"] = "1"

    def start(self):
        t0 = time.time()
        with open(self.err, "wb") as e:
            try:
                p = subprocess.Popen(self.cmd, cwd=self.cwd, env=self.env, stdin=subprocess.DEVNULL, stdout=e, stderr=e,
                                     preexec_fn=limits if self.native else nocore, start_new_session=True)
                self.rc = p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.rc = None
        self.wall = time.time() - t0
        try:
            self.rep = json.load(open(self.out))
        except (OSError, ValueError):
            self.rep = None
        return self

    def stderr(self):
        return open(self.err, errors="replace").read()

    def journals(self):
        """What was being run at the end: (stream, case, file with its draws or None)."""
        r = []
        for f in sorted(os.listdir(RUN)):
            if f.startswith(os.path.basename(self.out) + ".journal."):
                b = open(os.path.join(RUN, f), "rb").read()
                w = b[:82].decode(errors="replace").rsplit(None, 1)
                if len(w) == 2 and w[0].strip() not in ("-", ""):
                    t = None
                    if len(b) > 82:
                        n = int(b[82:93].strip() or 0)
                        t = os.path.join(RUN, f + ".tape")
                        with open(t, "w") as g:
                            g.write("".join(f"{int.from_bytes(b[93 + 8 * i:101 + 8 * i], 'little'):x}\n" for i in range(n)))
                    r.append((w[0].strip(), w[1].strip(), t))
        return r

    def again(self, stream, idx, tape):
        """Arguments that run a single case of this run."""
        a = list(self.args)
        if "--guided" in a:
            i = a.index("--guided")
            del a[i:i + 2]
        return a + ["--only", f"{stream}:{idx}"] + (["--tape", tape] if tape else [])


def sanitizer_report(text):
    for pat in (r"(?:ERROR|WARNING|FATAL): (?:Address|Memory|Thread)Sanitizer[^\n]*", r"error: Undefined Behavior[^\n]*", r"error: memory leaked[^\n]*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)
    return None


def plan(prop, tier, seed):
    """(native runs, guided runs, sanitizer runs): lists of (variant, tag, args, timeout)."""
    c = CHECKS[prop]
    thorough = tier == "thorough"
    # thorough: the workload itself grows 25-fold, within these caps
    cap = 600 if thorough else 150
    common = ["--tier", tier, "--scale", str(c["scale"]), "--cap", str(cap)]
    native = [("dev", "dev", ["--seed", str(seed)] + common, cap + 400),
              ("rel", "rel", ["--seed", str(seed + 1000003)] + common, cap + 400)]
    for v in c.get("extra", []):
        native.append((v, v, ["--seed", str(seed + 5)] + common, cap + 400))
    n = os.cpu_count() or 4
    secs = (300 if thorough else 12) if c.get("guided", True) else 0
    guided = [("cov", f"cov{i}", ["--seed", str(seed * 1000 + 17 + i), "--tier", tier, "--guided", f"{secs},MAP"], secs + 300) for i in range(n if secs else 0)]
    san = []
    kinds = c.get("san", [])
    if "asan" in kinds:
        san.append(("asan", "asan", ["--seed", str(seed + 2), "--scale", "1200" if thorough else "60", "--cap", "400" if thorough else "60"], 900))
    if "msan" in kinds:
        san.append(("msan", "msan", ["--seed", str(seed + 3), "--scale", "1200" if thorough else "60", "--cap", "400" if thorough else "60"], 900))
    if "tsan" in kinds:
        san.append(("tsan", "tsan", ["--seed", str(seed + 4), "--scale", "99" if thorough else "40", "--cap", "400" if thorough else "60"], 900))
    if "miri" in kinds:
        for i in range(8):
            san.append(("miri", f"miri{i}", ["--seed", str(seed * 64 + 100 + i), "--max-cases", "2000" if thorough else "60", "--cap", "900" if thorough else "45"], 1500 if thorough else 300))
    if "miri-threads" in kinds:
        for i in range(8 if thorough else 3):
            san.append(("miri", f"miri{i}", ["--seed", str(seed * 64 + 100 + i), "--scale", "1", "--max-cases", "40" if thorough else "2", "--cap", "900" if thorough else "40"], 1500 if thorough else 400))
    return native, guided, san


def code_reached(locfile, edgefiles):
    """Edges of the code under test that the guided runs took, by file."""
    locs = [x.strip().split(":")[0] for x in open(locfile)]
    got = [False] * len(locs)
    for f in edgefiles:
        try:
            for i, ch in enumerate(open(f).read().strip()):
                got[i] = got[i] or ch == "1"
        except (OSError, IndexError):
            pass
    files = {}
    for f, g in zip(locs, got):
        a = files.setdefault(f, [0, 0])
        a[0] += g
        a[1] += 1
    return dict(edges=len(locs), reached=sum(got), by_file={f: f"{a} of {b}" for f, (a, b) in sorted(files.items()) if a})


def known_findings(prop):
    d = {}
    try:
        for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return d


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(RUN, exist_ok=True)
    if a == ["--setup"]:
        # best first; what fails or is not built here is built by its check
        want = [("dev", []), ("rel", [])]
        for x in CHECKS.values():
            for v in (["dev", "rel"] if x.get("cfg") else []) + (["cov"] if x.get("guided", True) else []) + x.get("extra", []) + [k.split("-")[0] for k in x.get("san", [])]:
                w = (v, x.get("cfg", []))
                if w not in want:
                    want.append(w)
        t0 = time.time()
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [(w, ex.submit(lambda w=w: build(*w) if time.time() - t0 < 900 else None)) for w in want]
            for w, f in fs:
                try:
                    f.result()
                except (NoAnswer, subprocess.TimeoutExpired) as e:
                    log(f"   building {w} failed here: {e}")
        return 0
    if len(a) != 1 or a[0] not in CHECKS:
        print(__doc__)
        return 2
    prop = a[0]
    t0 = time.time()
    c = CHECKS[prop]
    native, guided, san = plan(prop, tier, seed)
    known = known_findings(prop)
    kargs = ["--known", ",".join(known)] if known else []
    need = []
    for v, *_ in native + guided + san:
        if v not in need:
            need.append(v)
    log(f"{prop} [{tier}, seed {seed}]: building {', '.join(need)} from {REPO}")
    hows = {}
    cfgs = c.get("cfg", [])
    if c.get("cfg_if_possible"):
        # a hook that makes more values possible; the check does without if need be
        try:
            hows["dev"] = build("dev", c["cfg_if_possible"])
            cfgs = c["cfg_if_possible"]
        except (NoAnswer, subprocess.SubprocessError, OSError) as e:
            log(f"   without {c['cfg_if_possible']}: {str(e)[-300:]}")
    with cf.ThreadPoolExecutor(len(need)) as ex:
        fs = {v: ex.submit(build, v, cfgs) for v in need}
        errs = []
        for v, f in fs.items():
            try:
                hows[v] = f.result()
            except (NoAnswer, subprocess.SubprocessError, OSError) as e:
                if v == "cov":
                    # deepens the exploration only
                    log(f"   no guided runs: {str(e)[-600:]}")
                    guided = []
                else:
                    errs.append(str(e))
        if errs:
            raise NoAnswer("\n".join(errs))
    shutil.rmtree(os.path.join(REPLAYS, prop), ignore_errors=True)
    runs, violations, problems = [], [], []

    def judge(r):
        runs.append(r)
        text = r.stderr()
        if not r.native:
            s = sanitizer_report(text)
            if s:
                violations.append((r, "sanitizer", None, s, text[-20000:]))
                return
        if r.rc is None:
            problems.append(f"{r.tag}: no end after {r.timeout} s")
            return
        if r.rep is not None and r.rc in (0, 1):
            for x in r.rep["violations"]:
                if x["key"] not in known:
                    e = x["examples"][0] if x["examples"] else dict(stream="?", idx=0, msg="?", trace="", tape="")
                    tape = e["tape"]
                    if x["key"] == "hang":
                        tape = ([t for _, _, t in r.journals()] + [None])[0]
                    violations.append((r, x["key"], (e["stream"], e["idx"], tape), e["msg"], e["trace"]))
            for w in r.rep["inconclusive"]:
                problems.append(f"{r.tag}: {w}")
            return
        if r.rc == 2 or "HARNESS-ERROR" in text:
            problems.append(f"{r.tag}: {tail(r.err, 5)}")
            return
        # killed by a signal, or an abort of the runtime: which case was it?
        cmd, env, cwd = hows[r.variant]
        confirmed = False
        for st, i, tape in r.journals()[:16]:
            q = Run(prop, r.variant, hows[r.variant], r.again(st, i, tape), r.tag + ".confirm", 200, r.native)
            q.start()
            if q.rc is not None and q.rc not in (0, 1, 2):
                what = q.stderr()[-1500:]
                violations.append((r, "crash", (st, i, tape), f"the process died with status {q.rc} while handling this case: {what}", what))
                confirmed = True
                break
        if not confirmed:
            problems.append(f"{r.tag}: ended with status {r.rc}, not reproduced by any single case: {tail(r.err, 5)}")

    for v, tag, args, to in native:
        judge(Run(prop, v, hows[v], args + kargs, tag, to, True).start())
    if guided:
        binary = hows["cov"][0][0]
        with cf.ThreadPoolExecutor(len(guided)) as ex:
            for r in ex.map(lambda x: Run(prop, x[0], hows[x[0]], [w.replace("MAP", binary + ".map") for w in x[2]] + kargs, x[1], x[3], True).start(), guided):
                judge(r)
    canaries = {}
    for kind in c.get("san", []):
        v = kind.split("-")[0]
        cmd, env, cwd = hows[v]
        for _ in range(5):
            p = subprocess.run(cmd + ["canary", "--out", kind], cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", preexec_fn=nocore, timeout=200)
            canaries[kind] = sanitizer_report(p.stdout + p.stderr)
            if canaries[kind]:
                break
        if not canaries[kind]:
            problems.append(f"{kind} did not report the deliberate error of its canary (status {p.returncode})")
    one = [x for x in san if x[0] != "miri"]
    many = [x for x in san if x[0] == "miri"]
    for v, tag, args, to in one:
        judge(Run(prop, v, hows[v], args + kargs, tag, to, False).start())
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda x: Run(prop, x[0], hows[x[0]], x[2] + kargs, x[1], x[3], False).start(), many):
            judge(r)

    # ---- evidence
    observed, samples, rr = {}, [], []
    for r in runs:
        if r.rep is None:
            rr.append(dict(run=r.tag, status=r.rc, seconds=round(r.wall, 1)))
            continue
        for k, n in r.rep["counts"].items():
            observed[k] = observed.get(k, 0) + n
        samples += r.rep["samples"]
        rr.append(dict(run=r.tag, arguments=" ".join(r.args), evaluations=r.rep["evaluations"], distinct=r.rep["distinct"],
                       violations={x["key"]: x["count"] for x in r.rep["violations"]}, seconds=round(r.wall, 1)))
    reached = code_reached(hows["cov"][0][0] + ".loc", [r.out + ".edges" for r in runs if r.variant == "cov"]) if guided else None
    pick = samples[:8] + samples[-4:] if len(samples) > 12 else samples
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 1),
              violations=len(violations),
              assumptions=[TRUST],
              coverage=dict(evaluations=sum(r.rep["evaluations"] for r in runs if r.rep),
                            distinct_nontrivial=max([r.rep["distinct"] for r in runs if r.rep] or [0]),
                            rule=c["rule"] + " The number given is that of the run with the most distinct cases, not a sum over runs.",
                            samples=pick, observed=observed, runs=rr))
    if reached:
        ev["coverage"]["code_reached_by_guided_runs"] = reached
    if canaries:
        ev["coverage"]["deliberate_errors_reported"] = canaries
    if problems:
        ev["assumptions"].append("not conclusive: " + "; ".join(problems)[:2000])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    # ---- verdict
    seen = {x["key"] for r in runs if r.rep for x in r.rep["violations"]}
    for k, what in known.items():
        if k in seen:
            log(f"KNOWN-FINDING: property={prop} {what} [{k}]")
    log(f"{prop}: {ev['coverage']['evaluations']} cases in {len(runs)} runs, {ev['coverage']['distinct_nontrivial']} distinct, {ev['wall_s']} s")
    if violations:
        d = os.path.join(REPLAYS, prop)
        os.makedirs(d, exist_ok=True)
        done = set()
        for n, (r, key, at, msg, trace) in enumerate(violations):
            if (r.variant, key) in done:
                continue
            done.add((r.variant, key))
            p = os.path.join(d, f"{r.tag}-{re.sub('[^A-Za-z0-9_-]', '_', key)}.txt")
            with open(p, "w") as f:
                f.write(f"property {prop}, build variant {r.variant}, kind {key}\n\n{msg}\n\n")
                if at:
                    st, i, tape = at
                    if tape and os.path.exists(tape):
                        tape = shutil.copy(tape, p[:-4] + ".tape")
                    f.write("run again (after check.py has built the variant):\n  " + shlex.join(r.cmd[:1] + [prop] + r.again(st, i, tape)) + "\n\n")
                else:
                    f.write("run again:\n  " + " ".join(r.cmd) + "\n\n")
                f.write(trace)
            log(f"  {key}: {msg[:600]}")
            log(f"VIOLATION property={prop} replay={p}")
        for w in problems:
            log(f"  also not conclusive: {w[:400]}")
        return 1
    if problems:
        raise NoAnswer("\n".join(problems))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except NoAnswer as e:
        log(f"NO-ANSWER {e}")
        rc = 2
    sys.exit(rc)
