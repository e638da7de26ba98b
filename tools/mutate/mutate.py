#!/usr/bin/env python3
"""Systematic mutants of the crate's own source lines, for finding blind spots.

  mutate.py list [FILE...]             how many mutants there are
  mutate.py run DIR WORKERS OUT [N [SEED]]   try N of them (all by default)

Each mutant that builds and passes the existing tests is run through the
monitors (development build, reduced scale). OUT gets one JSON line per mutant:
status is build, tests, caught (with the check that saw it) or MISSED.
Everything happens in copies below DIR.
"""
import glob, json, os, queue, random, re, subprocess, sys, threading
PROPS = ["C%02d" % i for i in range(1, 30)]
FLAGS = "--cfg rtps_verif --cfg rtps_verif_endpoints --cfg rtps_verif_parameter -Awarnings"
BIN = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&"), ("<<", ">>"), (">>", "<<"), ("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("%", "/"), ("&", "|"), ("|", "&"), ("<", "<="), (">", ">="), ("<", ">"), (">", "<"), ("+=", "-="), ("-=", "+="), ("|=", "&="), ("..", "..="), ("..=", "..")]
WORDS = [("LittleEndian", "BigEndian"), ("BigEndian", "LittleEndian"), ("true", "false"), ("false", "true"), ("min", "max"), ("max", "min"), ("MAX", "MIN"), ("MIN", "MAX"), ("is_some", "is_none"), ("is_none", "is_some"), ("is_empty", "len() == 1 || !0u8.is_power_of_two"), ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), ("wrapping_add", "saturating_add"), ("saturating_sub", "wrapping_sub"), ("saturating_add", "wrapping_add"), ("wrapping_sub", "saturating_sub"), ("insert", "remove"), ("remove", "contains"), ("to_be_bytes", "to_le_bytes"), ("to_le_bytes", "to_be_bytes"), ("from_be_bytes", "from_le_bytes"), ("from_le_bytes", "from_be_bytes"), ("all", "any"), ("any", "all"), ("u32", "u16"), ("u64", "u32"), ("i64", "i32"), ("u16", "u8"), ("i32", "u32"), ("u32", "i32"), ("i64", "u64"), ("filter", "skip_while"), ("skip_while", "filter"), ("first", "last"), ("last", "first"), ("next", "last"), ("front", "back"), ("and_then", "or_else"), ("UnexpectedEof", "InvalidData"), ("high", "low"), ("low", "high"), ("seconds", "fraction"), ("fraction", "seconds"), ("Less", "Greater"), ("Greater", "Less"), ("read_u32", "read_u16"), ("read_u8", "read_u16"), ("advance", "reserve"), ("split_to", "split_off"), ("clear", "len"), ("writer_id", "reader_id"), ("reader_id", "writer_id"), ("unicast", "multicast"), ("keys", "values"), ("rev", "fuse"), ("clone", "default"), ("source", "destination")]

def source(repo):
    for f in sorted(glob.glob(repo + "/src/**/*.rs", recursive=True)):
        r = os.path.relpath(f, repo)
        if r.endswith(("serialization_test.rs", "verif_hooks.rs", "/mod.rs", "src/lib.rs")):
            continue
        yield r, open(f).read().split("\n")

def mutants(repo):
    out = []
    for f, lines in source(repo):
        depth_test = None
        test, skip = False, -1
        for n, l in enumerate(lines):
            nxt = lines[n + 1] if n + 1 < len(lines) else ""
            if re.match(r"\s*#\[cfg\(.*(test|rtps_verif)", l) and "not(" not in l:
                test = nxt.rstrip().endswith("{") and re.match(r"\s*", nxt).group() + "}"
                skip = n + 1
            if test:
                if l == test:
                    test = False
                continue
            if n == skip:
                continue
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "extern", "}", "log::", "debug!", "trace!", "warn!", "error!")):
                if not s.startswith("#[derive"):
                    continue
            code = l.split("//")[0]
            seen = set()
            def add(new, kind):
                if new != l and new not in seen:
                    seen.add(new)
                    out.append((f, n, l, new, kind))
            if s.startswith("#[derive"):
                for d in ("PartialOrd, ", "Ord, ", "Eq, ", "Hash, "):
                    if d in l:
                        add(l.replace(d, "", 1), "derive")
                continue
            sig = re.match(r"\s*(pub(\(crate\))? )?(fn|impl|struct|enum|trait|type|where)\b", l) is not None
            strs = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
            instr = lambda i: any(a <= i < b for a, b in strs)
            if not sig:
                for a, b in BIN:
                    for m in re.finditer(r"(?<![-+*/<>=!&|.%^])(?<=\s)" + re.escape(a) + r"(?=\s)" if ".." not in a else r"(?<!\.)" + re.escape(a) + r"(?![.=])", code):
                        if not instr(m.start()):
                            add(l[:m.start()] + b + l[m.end():], "op")
                for m in re.finditer(r"(?<![\w!])!(?=[\w(])", code):
                    if not instr(m.start()):
                        add(l[:m.start()] + l[m.end():], "not")
                m = re.search(r"\bif (?!let)(.*?) \{$", code)
                if m:
                    add(l[:m.start(1)] + "true || (" + m.group(1) + ")" + l[m.end(1):], "cond")
                    add(l[:m.start(1)] + "false && (" + m.group(1) + ")" + l[m.end(1):], "cond")
                m = re.search(r" if (?!let)(.*?) =>", code)
                if m:
                    add(l[:m.start(1)] + "true || (" + m.group(1) + ")" + l[m.end(1):], "guard")
                    add(l[:m.start(1)] + "false && (" + m.group(1) + ")" + l[m.end(1):], "guard")
                if s.endswith(";") and not re.match(r"(let|(pub )?(const|static|type)) ", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                    add(re.match(r"\s*", l).group() + "{}", "delete")
                    if n + 1 < len(lines):
                        t = lines[n + 1].strip()
                        if t.endswith(";") and t.count("(") == t.count(")"):
                            out.append((f, n, l + "\n" + lines[n + 1], lines[n + 1] + "\n" + l, "swap lines"))
                if s.endswith("?;") and not s.startswith("let "):
                    ind = re.match(r"\s*", l).group()
                    add(ind + "let _ = " + s[:-2] + ";", "ignore error")
                # arguments of a call exchanged
                for m in re.finditer(r"\(([^(),]+(?:\([^()]*\))?), ([^(),]+(?:\([^()]*\))?)\)", code):
                    add(l[:m.start()] + "(" + m.group(2) + ", " + m.group(1) + ")" + l[m.end():], "exchange")
                if re.match(r"\s*[\w:|\s()_,&.{}]+ => .*,$", code):
                    add(re.match(r"\s*", l).group(), "arm")
                if re.match(r"\s*\.\w+\(.*\)$", code):
                    add("", "chain")
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(_?[ui](8|16|32|64|size))?(?![\w.]*\w)", code):
                if instr(m.start()):
                    continue
                t = m.group(1).replace("_", "")
                v = int(t, 0)
                for w in {v + 1, max(v - 1, 0), 0, v * 2, v ^ 0x80}:
                    if w != v and (f.endswith("parameter_id.rs") and w == v + 1 or not f.endswith("parameter_id.rs")):
                        if w == v ^ 0x80 and v < 3:
                            continue
                        x = hex(w) if t.startswith("0x") else str(w)
                        add(l[:m.start(1)] + x + l[m.end(1):], "literal")
            if not re.match(r"\s*(pub(\(crate\))? )?(struct|enum|trait|impl)\b", l):
                for a, b in WORDS:
                    for m in re.finditer(r"(?<!\w)" + a + r"(?!\w)", code):
                        if not instr(m.start()):
                            add(l[:m.start()] + b + l[m.end():], "word")
    # the same change only once
    seen, uniq = set(), []
    for x in out:
        k = (x[0], x[1], x[3])
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    return uniq

def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, errors="replace", timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timed out"

def worker(d, q, out, lock, tests):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="2")
    while True:
        try:
            i, (f, n, old, new, kind) = q.get_nowait()
        except queue.Empty:
            return
        p = d + "/repo/" + f
        orig = open(p).read()
        lines = orig.split("\n")
        span = old.count("\n") + 1
        assert "\n".join(lines[n:n + span]) == old
        lines[n:n + span] = new.split("\n")
        open(p, "w").write("\n".join(lines))
        st, by = "?", ""
        try:
            rc, o = sh("timeout 120 cargo test --workspace --no-run --offline", d + "/repo", dict(env, CARGO_TARGET_DIR=d + "/tt", CARGO_PROFILE_TEST_DEBUG="0"), 130)
            if rc:
                st = "build"
                continue
            rc, o = sh("timeout 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", d + "/repo", dict(env, CARGO_TARGET_DIR=d + "/tt", CARGO_PROFILE_TEST_DEBUG="0"), 70)
            if rc:
                st = "tests"
                continue
            if tests:
                st = "survives"
                continue
            rc, o = sh("timeout 400 cargo build --offline", d + "/harness", dict(env, CARGO_TARGET_DIR=d + "/th", RUSTFLAGS=FLAGS), 410)
            if rc:
                st, by = "harness", o[-600:]
                continue
            st = "MISSED"
            for pr in PROPS:
                rc, o = sh(f"ulimit -v 6000000; timeout -k 1 120 {d}/th/debug/monitor {pr} --seed 1 --tier quick --scale {SCALE} --known '{KNOWN}' --out {d}/{pr}.json", d, env, 130)
                if rc:
                    st, by = "caught", pr + f" rc={rc}"
                    break
        finally:
            open(p, "w").write(orig)
            with lock:
                out.write(json.dumps(dict(i=i, status=st, by=by, file=f, line=n + 1, kind=kind, old=old.strip(), new=new.strip())) + "\n")
                out.flush()

KNOWN = os.environ.get("KNOWN", "data-unimplemented,bitmap-lsb-order,info-src-unused,duration-fraction-nanos")
SCALE = os.environ.get("SCALE", "15")

def main():
    if sys.argv[1] == "list":
        ms = mutants("/repo")
        import collections
        print(len(ms), collections.Counter(m[4] for m in ms), collections.Counter(m[0] for m in ms).most_common(60))
        return
    d, workers, outf = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    ms = list(enumerate(mutants("/repo")))
    done = set()
    if os.path.exists(outf):
        done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(outf))}
    only = os.environ.get("ONLY")
    if only:
        ids = set(int(x) for x in only.split(","))
        ms = [m for m in ms if m[0] in ids]
    ms = [m for m in ms if (m[1][0], m[1][1] + 1, m[1][3].strip()) not in done]
    random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1).shuffle(ms)
    if len(sys.argv) > 5:
        ms = ms[:int(sys.argv[5])]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock, out = threading.Lock(), open(outf, "a")
    ts = []
    for w in range(workers):
        x = f"{d}/w{w}"
        os.makedirs(x, exist_ok=True)
        subprocess.check_call(f"rsync -a --delete --exclude target/ /repo/ {x}/repo/; rsync -a --delete --exclude target/ /verif/harness/ {x}/harness/", shell=True)
        t = open(x + "/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{x}/repo"')
        open(x + "/harness/Cargo.toml", "w").write(t)
        ts.append(threading.Thread(target=worker, args=(x, q, out, lock, os.environ.get("TESTS_ONLY"))))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
main()
