#!/usr/bin/env python3
"""Mutation testing of the checks. Not used by any check.

  mutate.py list                         all mutants of /repo's sources
  mutate.py run WORKDIR SEED COUNT [FILE-SUBSTRING]   run a random sample in copies under WORKDIR

A mutant is tried against the checks most concerned with its file, in order, until one reports it.
What survives is printed with its line for review (most are equivalent).
"""
import os, random, re, shutil, subprocess, sys

REPO, VERIF = "/repo", "/verif"
ORDER = {
    "src/x86": ["C02", "C09", "C11", "C14", "C08"],
    "src/aarch64": ["C03", "C09", "C11", "C08"],
    "src/wasm": ["C04", "C09", "C11", "C08"],
    "src/portable": ["C01", "C17", "C11", "C14", "C13", "C08"],
    "src/internal": ["C05", "C08", "C11", "C14", "C09", "C17"],
    "src/builder": ["C02", "C10", "C12", "C13", "C11", "C03", "C04", "C08"],
    "src": ["C12", "C07", "C05", "C10", "C02", "C08", "C03"],
}
SWAP = [
    (r"(?<![-+*/<>=&|^ ]) \+ (?!=)", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "), (r"(?<=[\w)\]]) \* (?=[\w(])", " + "),
    (r" << ", " >> "), (r" >> ", " << "), (r"(?<=[\w)\]]) & (?=[\w(!])", " | "), (r"(?<=[\w)\]]) \| (?=[\w(])", " & "),
    (r"(?<=[\w)\]]) \^ (?=[\w(])", " | "), (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "),
    (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" \^= ", " |= "), (r" \+= ", " = "),
    (r"\bwrapping_add\b", "wrapping_sub"), (r"\bwrapping_mul\b", "wrapping_add"), (r"\bwrapping_sub\b", "wrapping_add"),
    (r"\bto_le_bytes\b", "to_be_bytes"), (r"\bto_le_bytes\b", "to_ne_bytes"), (r"\bfrom_le_bytes\b", "from_be_bytes"), (r"\bfrom_le_bytes\b", "from_ne_bytes"),
    (r"\brotate_left\b", "rotate_right"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"unpacklo", "unpackhi"), (r"unpackhi", "unpacklo"), (r"mul_epu32", "mul_epi32"), (r"add_epi64", "add_epi32"),
    (r"sub_epi64", "sub_epi32"), (r"loadu_si", "load_si"), (r"storeu_si", "store_si"), (r"srl", "sll"), (r"sll", "srl"),
    (r"permutevar8x32", "permutevar8x32"), (r"shuffle_epi8", "shuffle_epi8"), (r"\.0\b", ".1"), (r"\.1\b", ".0"),
    (r"v0L", "v0H"), (r"v0H", "v0L"), (r"v1L", "v1H"), (r"v1H", "v1L"), (r"mul0L", "mul0H"), (r"mul0H", "mul0L"), (r"mul1L", "mul1H"), (r"mul1H", "mul1L"),
    (r"\bv0\b", "v1"), (r"\bv1\b", "v0"), (r"\bmul0\b", "mul1"), (r"\bmul1\b", "mul0"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\.is_empty\(\)", ".len() == 1"), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"),
    (r"avx2", "sse4.1"), (r"sse4\.1", "avx2"), (r"\bu64\b(?= as)", "u32"), (r"as u64\b", "as u32 as u64"), (r"as i64\b", "as i32 as i64"),
    (r"\bunsafe \{ AvxHash::force_new\(key\) \}", "unsafe { AvxHash::force_new(crate::Key([0; 4])) }"),
    (r"PACKET_SIZE", "(PACKET_SIZE - 1)"), (r"_u64\b|_s64\b", "_u32"), (r"u64x2", "u32x4"), (r"i64x2", "i32x4"),
]

def sources():
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, f), REPO)

def code_lines(t):
    """indices of lines outside test modules, comments and attributes of docs"""
    out, skip = [], False
    for i, l in enumerate(t):
        if re.match(r"\s*#\[cfg\(.*\btest\b.*\)\]", l) and i + 1 < len(t) and "mod " in t[i + 1]:
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#![") or s.startswith("#[doc"):
            continue
        out.append(i)
    return out

def mutants():
    out = []
    for f in sources():
        t = open(os.path.join(REPO, f)).read().split("\n")
        for i in code_lines(t):
            l = t[i]
            seen = set()
            def add(m):
                if m != l and m not in seen:
                    seen.add(m)
                    out.append((f, i, m))
            c = l.split("//")[0]
            if not re.match(r"\s*#\[", c):
                for pat, rep in SWAP:
                    for m in re.finditer(pat, c):
                        add(c[:m.start()] + m.expand(rep) + c[m.end():])
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]|\.\.)", c):
                    v = m.group(1)
                    n = int(v.replace("_", ""), 0)
                    for k in (n + 1, n - 1, n ^ (1 << 7)) if n > 255 else (n + 1, n - 1):
                        if k >= 0:
                            add(c[:m.start()] + (hex(k) if v.startswith("0x") else str(k)) + c[m.end():])
                # argument swaps
                for m in re.finditer(r"\((\w[\w.]*), (\w[\w.]*)\)", c):
                    add(c[:m.start()] + f"({m.group(2)}, {m.group(1)})" + c[m.end():])
                s = c.strip()
                if s.endswith(";") and not re.match(r"(let|return|pub|type|const|mod|\})", s):
                    add("")
                if re.match(r"\s*if [^{]*\{$", c) and " let " not in c:
                    add(re.sub(r"if (.*) \{$", r"if !(\1) {", c))
                    add(re.sub(r"if (.*) \{$", r"if false \&\& (\1) {", c))
            else:
                for pat, rep in [(r"not\((.*?)\)", r"\1"), (r"\ball\(", "any("), (r"avx2", "sse4.1"), (r"sse4\.1", "avx2"), (r'feature = "std"', 'not(feature = "std")')]:
                    for m in re.finditer(pat, c):
                        if "cfg" in c:
                            add(c[:m.start()] + m.expand(rep) + c[m.end():])
    return out

def sh(cmd, cwd, t=1200):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "TIMEOUT")

def run(work, seed, count, only):
    ms = [m for m in mutants() if only in m[0]]
    random.Random(seed).shuffle(ms)
    os.makedirs(work, exist_ok=True)
    r, v = work + "/repo", work + "/verif"
    if not os.path.exists(r):
        sh(f"git clone -q {REPO} {r} && git clone -q {VERIF} {v} && cp /verif/*/Cargo.lock /dev/null; true", "/")
        sh(f"cp {REPO}/Cargo.lock {r}/ 2>/dev/null; ./check.sh setup", v)
    done = 0
    for f, i, m in ms:
        if done >= count:
            break
        p = os.path.join(r, f)
        t = open(os.path.join(REPO, f)).read().split("\n")
        old, t[i] = t[i], m
        open(p, "w").write("\n".join(t))
        target = {"src/aarch64.rs": "--target aarch64-unknown-linux-gnu", "src/wasm.rs": "--target wasm32-unknown-unknown"}.get(f, "")
        env = "RUSTUP_TOOLCHAIN=1.99.1 RUSTFLAGS='-A warnings %s' " % ("-C target-feature=+simd128" if "wasm" in f else "")
        c = sh(f"{env} cargo rustc -q --lib --offline {target} --target-dir {work}/ct -- --emit=metadata", r)
        c2 = sh(f"{env} cargo rustc -q --lib --offline {target} --no-default-features --target-dir {work}/ct -- --emit=metadata", r)
        tag = f"{f}:{i + 1}: {old.strip()}  =>  {m.strip()}"
        if c.returncode or c2.returncode:
            open(p, "w").write(open(os.path.join(REPO, f)).read())
            continue
        done += 1
        key = max((k for k in ORDER if f.startswith(k)), key=len)
        killed = None
        notes = []
        for id in ORDER[key]:
            o = sh(f"VERIF_SEED=1 ./check.sh {id}", v)
            if o.returncode == 1 and "VIOLATION" in o.stdout:
                killed = id
                break
            if "error[E" in o.stdout:
                killed = "(does not compile on some target)"
                break
            if o.returncode not in (0, 1):
                notes.append(f"{id}:{o.returncode}:" + " ".join([l for l in o.stdout.split("\n") if "ERROR" in l or "error" in l][:2])[:200])
        print(("killed " + killed if killed else "SURVIVED"), " ".join(notes), tag, flush=True)
        open(p, "w").write(open(os.path.join(REPO, f)).read())

if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f, i, m in mutants():
            print(f"{f}:{i + 1}: {m.strip()}")
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "")
