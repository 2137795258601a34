"""python3 tools/mkseed.py EDITS.py ID...   make /verif/seeded/ID from an edit (see tools/README)
Applies the edit in a scratch copy, runs the repository's tests there, looks for a history the checks
tell apart, and writes patch.diff, demo.sh (+ demo files) and meta.json."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
D = os.environ.get("SEED_DIR", "/tmp/sd")
R = D + "/repo"
W = D + "/verif"
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **k)


if not os.path.exists(R):
    os.makedirs(D, exist_ok=True)
    sh("cp -a /repo %s" % R)
sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
if os.path.exists(W):
    shutil.rmtree(W)
os.makedirs(W)
sh("cp -r /verif/checks /verif/spec /verif/harness /verif/known_findings.txt %s && rm -rf %s/harness/target" % (W, W))
sh("sed -i 's#\"/repo\"#\"%s\"#' %s/harness/Cargo.toml" % (R, W))
spec = importlib.util.spec_from_file_location("check", W + "/checks/check.py")
C = importlib.util.module_from_spec(spec)
spec.loader.exec_module(C)
C.REPO = R
spec2 = importlib.util.spec_from_file_location("check0", V + "/checks/check.py")
O = importlib.util.module_from_spec(spec2)
spec2.loader.exec_module(O)

DEMO_SH = """#!/bin/bash
# Decodes a stream with the crate in the current directory and compares with the recorded results.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d /tmp/demoXXXXXX) || exit 2
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
jpeg-decoder = { path = "$PWD", default-features = false, features = [FEATURES] }
[profile.dev]
opt-level = 1
[workspace]
EOF
cd "$d" && cargo build -q --offline 2>/dev/null || exit 2
timeout 60 ./target/debug/demo "$here/case.txt"
"""

for sid in sys.argv[2:]:
    e = ns["S"][sid]
    sh("git -C %s checkout -q -- ." % R)
    ok = True
    for f, a, b in e["edits"]:
        p = R + "/src/" + f
        t = open(p).read()
        if t.count(a) < 1:
            print(sid, "NO MATCH in", f)
            ok = False
            break
        open(p, "w").write(t.replace(a, b, 1) if t.count(a) == 1 or e.get("first") else t.replace(a, b))
    if not ok:
        continue
    diff = sh("git -C %s diff" % R).stdout
    fails = []
    for fl in ["", "--no-default-features", "--features platform_independent"]:
        o = sh("cd %s && timeout 280 cargo test --workspace --no-fail-fast --offline %s -- --test-threads 8" % (R, fl)).stdout
        fails += [l for l in o.split("\n") if "FAILED" in l or l.startswith("error")]
    if fails:
        print(sid, "TESTS CATCH IT:", fails[:3])
        continue
    prop = e["prop"]
    vs = C.variants_for(prop)
    bins = C.build(sorted({v[0] for v in vs}))
    C.DEATHS.update(hang=0, abort=0)
    lines = C.gen(bins["A"], prop, 1, C.COUNTS[prop][0])
    for src in C.EXTRA.get(prop, []):
        more, _ = src(True)
        lines += more
    res = C.run_all(bins, lines, vs)
    verd, _, _, text = C.validate(C.records(lines, res), 600)
    bad = sorted([(len(l), l) for l in lines if verd.get(l.split("\t")[0], "ok").startswith("bad")])
    print(sid, prop, "CAUGHT by %d of %d" % (len(bad), len(lines)) if bad else "MISSED", [verd[b[1].split("\t")[0]] for b in bad[:2]], text[-300:])
    out = V + "/seeded/" + sid
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    if not bad:
        continue
    # smallest history whose results differ from the original's in some configuration
    obins = O.build(sorted({v[0] for v in vs}))
    for _, l in bad[:60]:
        ores = O.run_all(obins, [l], vs)
        hid = l.split("\t")[0]
        pick = None
        for v in vs[::-1]:
            if v[1] == 0 and v[2] == 1 and not v[3] or prop == "P17":
                if res[v].get(hid) != ores[v].get(hid):
                    pick = v
                    break
        if pick:
            break
    if not pick:
        print(sid, "no single-run difference; write the demo by hand")
        continue
    feats = ",".join('"%s"' % {"ray": "rayon", "pi": "platform_independent"}[x] for x in C.CONFIGS[pick[0]][0].split(",") if x)
    open(out + "/demo.sh", "w").write(DEMO_SH.replace("FEATURES", feats))
    os.chmod(out + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/demo_main.rs", out + "/main.rs")
    rs = [json.loads(x) for x in ores[pick][hid]]
    hid_, end, chunk, chk, calls, hx = l.split("\t")
    with open(out + "/case.txt", "w") as f:
        f.write("%s\n%s\n%s\n%s\n" % (end, chunk, calls, hx))
    # record the expectation with the demo itself, on the original
    o = sh("cd /repo && bash %s/demo.sh" % out)
    open(out + "/case.txt", "a").write(o.stdout)
    a = sh("cd /repo && bash %s/demo.sh" % out)
    b = sh("cd %s && bash %s/demo.sh" % (R, out))
    print(sid, "demo: unchanged", a.returncode, "patched", b.returncode, feats, len(hx) // 2, "bytes")
sh("git -C %s checkout -q -- ." % R)
