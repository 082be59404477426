#!/usr/bin/env python3
"""Builds and confirms the planted bugs under /verif/seeded. Not used by any check.

  seedlib.py make ID...      write seeded/ID from tools/seeds_*.py
  seedlib.py verify ID...    in a scratch copy: builds, stable tests pass, demo 0 without / nonzero with
  seedlib.py check ID...     apply to /repo, run the property's check (or CHECKS=C01,C02), undo
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + "/seeded"
BUGS = {}

HEAD = r'''#!/bin/bash
# Exit 0: the property's example holds on the tree in the current directory; nonzero: it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$D"' EXIT
export HOME=/root LC_ALL=C.UTF-8 PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.99.1
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
'''

RUN = r'''
# run TARGET std|nostd RUNNER FLAGS...: builds the crate and demo.rs for TARGET and runs the demo
run() {
    local target=$1 feat=$2 runner=$3 linker=()
    shift 3
    case $target in
        aarch64*) linker=(-C linker=aarch64-linux-gnu-gcc) ;;
        i686*) linker=(-C linker=i686-linux-gnu-gcc) ;;
    esac
    local std=()
    [ "$feat" = std ] && std=(--cfg 'feature="std"')
    rustc --edition 2021 --crate-name highway --crate-type rlib --target "$target" "${std[@]}" "$@" \
        -A warnings -o "$D/libhighway.rlib" "$REPO/src/lib.rs" || exit 8
    if [[ $target == wasm* ]]; then
        rustc --edition 2021 --crate-type cdylib --target "$target" "$@" -A warnings \
            --extern highway="$D/libhighway.rlib" -o "$D/demo.wasm" "$HERE/demo.rs" || exit 8
        node -e '
            const m = new WebAssembly.Module(require("fs").readFileSync(process.argv[1]));
            process.exit(new WebAssembly.Instance(m, {}).exports.demo());' "$D/demo.wasm" || exit 1
    else
        rustc --edition 2021 --target "$target" "${linker[@]}" "$@" -A warnings \
            --extern highway="$D/libhighway.rlib" -o "$D/demo" "$HERE/demo.rs" || exit 8
        $runner "$D/demo" || exit 1
    fi
}
'''
TAIL_RS = '''
#[cfg(not(target_family = "wasm"))]
fn main() {
    if !ok() {
        eprintln!("the property's example does not hold");
        std::process::exit(1);
    }
}
#[cfg(target_family = "wasm")]
#[no_mangle]
pub extern "C" fn demo() -> u32 {
    !ok() as u32
}
'''
X = "x86_64-unknown-linux-gnu"
A = "aarch64-unknown-linux-gnu"
I = "i686-unknown-linux-gnu"
W = "wasm32-unknown-unknown"
QA = "qemu-aarch64 -L /usr/aarch64-linux-gnu"
QI = "qemu-i386 -L /usr/i686-linux-gnu"
QX = "qemu-x86_64 -cpu max"
REL = "-O"
DBG = "-C debug-assertions=on -C overflow-checks=on"

def runs(*rs):
    """rs: (target, std|nostd, runner, flags)"""
    return RUN + "".join(f'run {t} {s} "{r}" {f}\n' for t, s, r, f in rs) + "exit 0\n"

def bug(id, prop, needs, breaks, edits, rs=None, sh=None, files=None, tail=True):
    if rs is not None and tail:
        rs = rs + TAIL_RS
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, rs=rs, sh=sh, files=files or {})

def load():
    for f in sorted(glob.glob(VERIF + "/tools/seeds_*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        m.__dict__.update({k: v for k, v in globals().items() if not k.startswith("__")})
        sp.loader.exec_module(m)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make(b):
    d = f"{SEEDED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seedmk.", dir="/tmp")
    try:
        r = sh(f"git -C /repo archive HEAD src | tar -x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        assert r.returncode == 0, r.stdout
        for e in b["edits"]:
            f, old, new = e[:3]
            p = f"{t}/{f}"
            s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = new
            else:
                n = s.count(old)
                want = e[3] if len(e) > 3 else 1
                assert n == want, f"{b['id']}: {f}: {n} matches of {old[:60]!r}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh(f"cd {t} && git add -AN . && git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    if b["rs"]:
        open(d + "/demo.rs", "w").write(b["rs"].lstrip("\n"))
    for n, c in b["files"].items():
        open(f"{d}/{n}", "w").write(c)
    open(d + "/demo.sh", "w").write(HEAD + b["sh"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def scratch(k):
    r = f"/tmp/seedwork/{k}"
    if not os.path.exists(r):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        assert sh(f"cp -a /repo {r}").returncode == 0
        for s in ("build.sh", "test.sh"):
            open(f"/tmp/seedwork/{k}-{s}", "w").write(open(f"/opt/vp/{s}").read().replace("/repo", r))
    sh(f"cd {r} && git fetch -q /repo HEAD && git checkout -q -- . && git clean -fdq src && git checkout -q FETCH_HEAD")
    return r

def demo(id, r):
    d = tempfile.mkdtemp(prefix="seeddemo.", dir="/tmp")
    try:
        for f in os.listdir(f"{SEEDED}/{id}"):
            if not (f.endswith(".diff") or f == "meta.json"):
                shutil.copy(f"{SEEDED}/{id}/{f}", d)
        p = sh(f"timeout 300 bash {d}/demo.sh", cwd=r)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(d)

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit("BASELINE.json: " + ",".join(b.keys()))

def verify(id, k):
    r = scratch(k)
    c0, o0 = demo(id, r)
    if c0 != 0:
        return f"demo fails on the clean tree ({c0})\n{o0[-1500:]}"
    p = sh(f"git apply {SEEDED}/{id}/patch.diff", cwd=r)
    if p.returncode:
        return "patch does not apply " + p.stdout
    c1, o1 = demo(id, r)
    if c1 == 0:
        return "demo passes with the patch"
    if c1 == 8:
        return "demo does not compile with the patch\n" + o1[-1500:]
    p = sh(f"bash /tmp/seedwork/{k}-build.sh", cwd=r)
    if p.returncode:
        return "does not build\n" + p.stdout[-2500:]
    out = f"/tmp/seedwork/{k}.json"
    sh(f"bash /tmp/seedwork/{k}-test.sh {out}", cwd=r)
    t = json.load(open(out))
    passed = t.get("passed", t)
    passed = set(passed if isinstance(passed, list) else [n for n, v in passed.items() if v])
    miss = stable() - passed
    if miss:
        return f"{len(miss)} stable tests fail: {sorted(miss)[:4]}"
    return None

def pool(ids, n, f):
    q = queue.Queue()
    for i in ids:
        q.put(i)
    bad = []
    def w(k):
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            m = f(i, k)
            print(f"{i}: {'ok' if m is None else 'BAD ' + m}", flush=True)
            if m:
                bad.append(i)
    ts = [threading.Thread(target=w, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return bad

def check(id):
    meta = json.load(open(f"{SEEDED}/{id}/meta.json"))
    props = os.environ.get("CHECKS", meta["property"]).split(",")
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is dirty"
    res = []
    try:
        p = sh(f"git -C /repo apply {SEEDED}/{id}/patch.diff")
        assert p.returncode == 0, p.stdout
        for pr in props:
            import time
            t = time.time()
            p = sh(f"cd {VERIF} && VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick timeout 900 ./check.sh {pr}")
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append((pr, p.returncode, v[0] if v else p.stdout[-300:] if p.returncode else "MISSED", round(time.time() - t)))
            if p.returncode == 1 and v:
                ex = [l for l in p.stdout.splitlines() if not l.startswith("VIOLATION")]
                res[-1] += ("\n      " + "\n      ".join(x[:160] for x in ex[-6:]),)
    finally:
        sh("git -C /repo checkout -q -- . ; git -C /repo clean -fdq src")
    for x in res:
        print(id, *x, flush=True)

if __name__ == "__main__":
    load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(BUGS)
    if cmd == "list":
        for i in ids:
            print(i, BUGS[i]["prop"])
    elif cmd == "make":
        for i in ids:
            make(BUGS[i])
    elif cmd == "verify":
        for i in ids:
            make(BUGS[i])
        pool(ids, int(os.environ.get("N", "4")), verify)
    elif cmd == "check":
        for i in ids:
            check(i)
