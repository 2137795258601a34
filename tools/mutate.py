"""Mutation campaign: python3 tools/mutate.py N SEED LOG
Works on scratch copies (/tmp/mut/verif, /tmp/mut/repo); applies N random small mutations to the
decoder one at a time and notes which of them the checks tell from the original."""
import os, random, re, shutil, subprocess, sys, importlib.util, time

N, SEED, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
BASE = "/tmp/mut%d" % SEED
V, R = BASE + "/verif", BASE + "/repo"
shutil.rmtree(BASE, ignore_errors=True)
os.makedirs(V)
subprocess.check_call("cd /verif && git archive HEAD | tar x -C %s" % V, shell=True)
subprocess.check_call("git clone -q /repo %s" % R, shell=True)
if os.path.exists("/repo/Cargo.lock"):
    shutil.copy("/repo/Cargo.lock", R)
t = open(V + "/harness/Cargo.toml").read()
open(V + "/harness/Cargo.toml", "w").write(t.replace('"/repo"', '"%s"' % R).replace("../../repo", R))
spec = importlib.util.spec_from_file_location("check", V + "/checks/check.py")
C = importlib.util.module_from_spec(spec)
spec.loader.exec_module(C)
C.REPO = R
C.WORKERS = int(os.environ.get("MUT_WORKERS", "5"))
PER = int(os.environ.get("MUT_PER", "60"))
oldbuild = C.build

files = ["decoder.rs", "decoder/lossless.rs", "huffman.rs", "idct.rs", "marker.rs", "parser.rs", "upsampler.rs",
         "worker/immediate.rs", "worker/mod.rs", "worker/multithreaded.rs", "worker/rayon.rs", "arch/ssse3.rs", "lib.rs"]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " + "), (r"\.\.=", ".."), (r" % ", " / "), (r"<<", ">>"), (r">>", "<<"), (r"\bmax\b", "min"), (r"\bmin\b", "max"),
       (r" \|= ", " = "), (r" \+= ", " = "), (r" -= ", " = "), ("true", "false"), ("false", "true"), ("u32", "u16"), ("usize::from", "u8::from")]
NUM = re.compile(r"(?<![\w.])(\d+)(?![\w.]*[\w])")


def candidates():
    out = []
    for f in files:
        src = open(R + "/src/" + f).read().split("\n")
        for i, l in enumerate(src):
            s = l.strip()
            if "#[test]" in l or "mod tests" in l:
                break
            if s.startswith("//") or s.startswith("#") or s.startswith("use ") or not s or "fn " in s or "assert" in s:
                continue
            code = l.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    out.append((f, i, l, code[:m.start()] + b + code[m.end():]))
            for m in NUM.finditer(code):
                n = int(m.group(1))
                for k in {n + 1, max(0, n - 1)} - {n}:
                    out.append((f, i, l, code[:m.start()] + str(k) + code[m.end():]))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and not s.startswith("}"):
                out.append((f, i, l, "// deleted"))
    return out


def evaluate():
    """-> list of (property, verdict)"""
    bad = []
    C.DEATHS["hang"] = C.DEATHS["abort"] = 0
    bins = C.build(sorted(C.CONFIGS))
    lines = []
    for k in range(1, 20):
        lines += C.gen(bins["A"], "P%02d" % k, SEED + 77, PER if k != 17 else PER // 2)
    C.HANG_S = 15
    recs = C.records(lines, C.run_all(bins, lines, C.ALL))
    verd, _, _, text = C.validate(recs, 400)
    bad = [(i, v) for i, v in verd.items() if v.startswith("bad") or (v.startswith("kf") and not i.startswith("P02"))]
    if text and not bad:
        bad = [("tlc", text[-300:].replace("\n", " "))]
    if not bad and (C.DEATHS["hang"] or C.DEATHS["abort"]):
        bad = [("death", str(C.DEATHS))]
    return bad


def main():
    cs = candidates()
    rng = random.Random(SEED)
    rng.shuffle(cs)
    log = open(LOG, "a")
    log.write("candidates %d, baseline %s\n" % (len(cs), evaluate()[:3]))
    done = 0
    for f, i, old, new in cs:
        if done >= N:
            break
        p = R + "/src/" + f
        src = open(p).read()
        ls = src.split("\n")
        assert ls[i] == old
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        t0 = time.time()
        try:
            b = evaluate()
            done += 1
            log.write("%s %s:%d %s => %s %s (%.0fs)\n" % ("killed" if b else "SURVIVED", f, i + 1, old.strip(), new.strip(),
                      sorted({x[0].split("-")[0] for x in b}), time.time() - t0))
        except C.Broken as e:
            if "build failed" not in str(e):
                done += 1
                log.write("killed %s:%d %s => %s broken:%s\n" % (f, i + 1, old.strip(), new.strip(), str(e)[:80]))
        except Exception as e:
            log.write("error %s:%d %r\n" % (f, i + 1, e))
        log.flush()
        open(p, "w").write(src)
    log.write("finished\n")


main()
shutil.rmtree(BASE, ignore_errors=True)
