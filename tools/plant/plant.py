#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes them to /verif/seeded.

  plant.py FILE.py [ID...]    FILE.py defines BUGS = {id: dict(prop, edits=[(file, old, new)], needs, breaks, demo, cfg)}

A bug is kept when the changed tree builds, all stable tests pass, the demo
fails on it and succeeds on the unchanged tree.
"""
import json, os, shutil, subprocess, sys, importlib.util
SEEDED = "/verif/seeded"
W = "/tmp/plant"
DEMO = r'''#!/bin/bash
# Builds main.rs beside this script against the crate in the current directory
# and runs it: it exits 0 when the property holds in this situation.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" || exit 9
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rtps-rs = { path = "$repo" }
speedy = "0.7.1"
bytes = "1"
tokio-util = { version = "0.7", features = ["codec"] }
num-traits = "0.2"
@DEPS@T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" && RUSTFLAGS="@FLAGS@ -Awarnings" CARGO_TARGET_DIR="$w/t" cargo build --offline --quiet || exit 9
timeout 60 "$w/t/debug/demo"
'''
PRELUDE = r'''#![allow(unused)]
use rtps_rs::verif_hooks::*;
use speedy::{Endianness, Readable, Writable};
use tokio_util::codec::Decoder;
use bytes::BytesMut;
use std::convert::TryFrom;
const LE: Endianness = Endianness::LittleEndian;
const BE: Endianness = Endianness::BigEndian;
fn header(prefix: [u8; 12]) -> Vec<u8> {
    let mut b = b"RTPS\x02\x01\x01\x02".to_vec();
    b.extend(prefix);
    b
}
fn sub(kind: u8, flags: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len() as u16;
    let mut b = vec![kind, flags];
    b.extend(if flags & 1 == 1 { n.to_le_bytes() } else { n.to_be_bytes() });
    b.extend(body);
    b
}
fn heartbeat(first: i64, last: i64, count: i32) -> Vec<u8> {
    let mut b = vec![0, 0, 1, 7, 0, 0, 2, 2];
    b.extend(first.to_be_bytes());
    b.extend(last.to_be_bytes());
    b.extend(count.to_be_bytes());
    sub(7, 0, &b)
}
fn rx() -> MessageReceiver { MessageReceiver::new(LocatorKind_t::LOCATOR_KIND_UDPv4) }
/// everything that comes out of these bytes
fn all(m: &mut MessageReceiver, b: &[u8]) -> Vec<Result<EntitySubmessage, std::io::Error>> {
    let mut buf = BytesMut::from(b);
    let mut out = vec![];
    for _ in 0..1000 {
        match m.decode(&mut buf) {
            Ok(Some(i)) => out.push(Ok(i)),
            Ok(None) => break,
            Err(e) => out.push(Err(e)),
        }
    }
    out
}
'''

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    repo = W + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(f"git fetch -q /repo && git checkout -q -f {head}", repo)
    baseline = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else json.load(open("/opt/vp/BASELINE.json"))["passed"])
    for bid, b in m.BUGS.items():
        if want and bid not in want:
            continue
        sh("git checkout -q -- .", repo)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "NOT APPLIED:", f, s.count(old), "occurrences of", old[:60])
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        env = dict(CARGO_TARGET_DIR=repo + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        rc, o = sh("cargo build --workspace --offline && cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo, env)
        failed = [l for l in o.splitlines() if l.endswith("... FAILED")]
        passed = sum(l.endswith("... ok") for l in o.splitlines())
        if rc != 0 or failed:
            print(bid, "REJECTED: build or tests fail:", failed[:5], "" if failed else o[-1500:])
            continue
        d = os.path.join(SEEDED, bid)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        flags = "--cfg rtps_verif" + "".join(" --cfg " + c for c in b.get("cfg", []))
        demo = DEMO
        if b.get("asan"):
            flags += " -Zsanitizer=address"
            demo = demo.replace("=stable-", "=nightly-").replace("--offline --quiet", "--offline --quiet --target x86_64-unknown-linux-gnu").replace("t/debug", "t/x86_64-unknown-linux-gnu/debug")
        open(d + "/demo.sh", "w").write(demo.replace("@FLAGS@", flags).replace("@DEPS@", b.get("deps", "")))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(PRELUDE + b["demo"].strip() + "\n")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = sh(f"bash {d}/demo.sh", repo)
        sh("git checkout -q -- .", repo)
        rc0, o0 = sh(f"bash {d}/demo.sh", repo)
        good = rc0 == 0 and rc1 not in (0, 9)
        print(bid, "kept" if good else "REJECTED", f"tests {passed} demo clean {rc0} planted {rc1}", "" if good else (o0 + o1)[-1500:])
        if not good:
            shutil.rmtree(d)
main()
