#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's working tree
   check.py --replay FILE                  run the history in FILE and print its verdict

Builds the harness against /repo in every feature configuration, generates histories (byte stream,
reader behaviour, API calls) - at random per property profile, and exhaustively from the bounded
models in /verif/spec - replays them in the real decoder and lets TLC check each recorded history
against the specification (spec/JpegTrace.tla)."""
import hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1"))
CONFIGS = {"A": ("ray", 1), "B": ("", 1), "C": ("ray,pi", 0), "D": ("pi", 0)}
WORKERS = os.cpu_count() or 4
HANG_S = 40


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness", "src")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "harness", "Cargo.toml"), os.path.join(ROOT, "harness", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(names):
    """-> {config: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out, errs = {}, []

    def one(n):
        feats = CONFIGS[n][0]
        td = os.path.join(BUILD, "target-" + n)
        dst = os.path.join(BUILD, "jh-%s-%s" % (n, key))
        if not os.path.exists(dst):
            manifest = os.path.join(ROOT, "harness", "Cargo.toml")
            cmd = ["cargo", "build", "--offline", "--locked", "--release", "--manifest-path", manifest,
                   "--target-dir", td, "--features", feats]
            stamp = os.path.join(td, "content-key")
            if not (os.path.exists(stamp) and open(stamp).read() == key):
                shutil.rmtree(os.path.join(td, "release", ".fingerprint"), ignore_errors=True)
            p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                errs.append(p.stdout[-4000:])
                return
            shutil.copy(os.path.join(td, "release", "jharness"), dst + ".tmp%d" % os.getpid())
            os.rename(dst + ".tmp%d" % os.getpid(), dst)
            open(stamp, "w").write(key)
        out[n] = dst
    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken("build failed:\n" + errs[0])
    # forget binaries of other trees
    for f in os.listdir(BUILD):
        if f.startswith("jh-") and not f.endswith(key) and ".tmp" not in f:
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    return out


def gen(binary, prof, seed, n):
    p = subprocess.run([binary, "gen", prof, str(seed), str(n)], stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Broken("generator failed for %s" % prof)
    return p.stdout.splitlines()


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


DEATHS = {"hang": 0, "abort": 0}


def run_shard(cmd, lines, conc, sink):
    """Run histories in one process; survive its death and its hanging."""
    i = 0
    while i < len(lines):
        if DEATHS["hang"] >= 4 or DEATHS["abort"] >= 200:
            return  # enough to report; what was not run gets no verdict
        p = subprocess.Popen(cmd, preexec_fn=limits, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16)
        todo = lines[i:]

        def feed():
            try:
                for l in todo:
                    p.stdin.write(l + "\n")
                p.stdin.close()
            except (BrokenPipeError, OSError, ValueError):
                pass
        threading.Thread(target=feed, daemon=True).start()
        q = queue.Queue()

        def read():
            for l in p.stdout:
                q.put(l)
            q.put(None)
        threading.Thread(target=read, daemon=True).start()
        bad = None
        got = 0
        while True:
            try:
                l = q.get(timeout=HANG_S)
            except queue.Empty:
                bad = "hang"
                break
            if l is None:
                if got < len(todo):
                    bad = "abort"
                break
            f = l.rstrip("\n").split("\t")
            sink[f[0]] = f[1:]
            got += 1
        p.kill()
        p.wait()
        i += got
        if bad:
            DEATHS[bad] += 1
            # the history being run (with several at once: the group)
            for l in lines[i:i + max(1, conc)]:
                sink[l.split("\t", 1)[0]] = ['{"k":"%s","e":"","w":0,"h":0,"info":[],"pos":0,"n":0,"hash":"","rows":[],"px":[],"exif":[],"xmp":[],"icc":[]}' % bad]
            i += max(1, conc)


def run_all(bins, lines, variants):
    """variants: [(config, pool, conc, leak)] -> {variant: {id: [json per call]}}"""
    res = {v: {} for v in variants}
    jobs = queue.Queue()
    for v in variants:
        per = max(16, (len(lines) + WORKERS - 1) // WORKERS)
        for k in range(0, len(lines), per):
            jobs.put((v, lines[k:k + per]))

    def work():
        while True:
            try:
                v, part = jobs.get_nowait()
            except queue.Empty:
                return
            c, pool, conc, leak = v
            run_shard([bins[c], "run", str(pool), str(conc), "1" if leak else "0"], part, conc, res[v])
    ts = [threading.Thread(target=work) for _ in range(WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def records(lines, res):
    """history lines + results -> JSON records for JpegTrace"""
    out = []
    for l in lines:
        hid, end, chunk, chk, calls, hx = l.split("\t")
        cs = []
        for k, call in enumerate(calls.split(";")):
            a = call.split(" ")
            groups = {}
            for v, r in res.items():
                rs = r.get(hid)
                if rs is None:
                    if DEATHS["hang"] or DEATHS["abort"]:
                        continue
                    raise Broken("no result for %s in %s" % (hid, v))
                if k < len(rs):
                    groups.setdefault(rs[k], set()).add(v[0])
            if not groups:
                break
            rec = []
            for js, confs in groups.items():
                o = json.loads(js)
                o["vec"] = 1 if confs & {"A", "B"} else 0
                o["simd"] = 0 if confs & {"C", "D"} else 1
                rec.append(o)
            cs.append({"op": a[0], "x": int(a[1]) if len(a) > 1 and a[1].isdigit() else 0,
                       "y": int(a[2]) if len(a) > 2 else 0, "s": a[1] if len(a) > 1 else "", "r": rec})
        if not cs:
            continue
        out.append({"id": hid, "b": list(bytes.fromhex(hx)), "end": end, "chk": chk.split(","), "calls": cs})
    return out


STATS = re.compile(r"([0-9,]+) states generated, ([0-9,]+) distinct states found")


def tlc(module, cfg, extra_env, timeout, workers=WORKERS, extra=(), heap="12g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    e = dict(os.environ)
    e.update(extra_env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta,
           "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noTE", *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        text = p.stdout
    except subprocess.TimeoutExpired as x:
        text = (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or "") + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATS.findall(text)
    gen_, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return text, gen_, dist


VERD = re.compile(r'VERDICT@([^@]*)@([^@]*)@([0-9]+)@')


def validate(recs, timeout, tag=""):
    """-> ({id: verdict}, states, distinct, text)"""
    os.makedirs(BUILD, exist_ok=True)
    verd, states, trans, text = {}, 0, 0, ""
    step = 4000
    for k in range(0, len(recs), step):
        fd, path = tempfile.mkstemp(prefix="hist", suffix=".ndjson", dir=BUILD)
        with os.fdopen(fd, "w") as f:
            for r in recs[k:k + step]:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        t, g, d = tlc("JpegTrace.tla", "JpegTrace.cfg", {"JPEG_TRACE": path}, timeout)
        if not os.environ.get("JPEG_KEEP"):
            os.remove(path)
        for i, v, _ in VERD.findall(t.replace("\n", " ")):
            verd[i] = v
        states += d
        trans += g
        if "Model checking completed. No error" not in t:
            text += t[-6000:]
    return verd, states, trans, text


ALL = [("A", 0, 1, False), ("B", 0, 1, False), ("C", 0, 1, False), ("D", 0, 1, False)]

# property -> histories (quick, thorough) of its random profile
COUNTS = {
    "P01": (2500, 40000), "P02": (500, 8000), "P03": (300, 5000), "P04": (220, 4000), "P05": (400, 6000),
    "P06": (500, 8000), "P07": (2000, 30000), "P08": (400, 6000), "P09": (1500, 20000), "P10": (500, 8000),
    "P11": (500, 6000), "P12": (500, 8000), "P13": (500, 8000), "P14": (300, 5000), "P15": (600, 8000),
    "P16": (500, 8000), "P17": (150, 2500), "P18": (600, 8000), "P19": (250, 4000),
}


def known():
    """id -> set of properties"""
    out = {}
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(P\d+) id=(\S+) (.*)", l)
            if m:
                out.setdefault(m.group(2), {})[m.group(1)] = m.group(3).strip()
    return out


def describe(line):
    hid, end, chunk, chk, calls, hx = line.split("\t")
    return {"id": hid, "stream_bytes": len(hx) // 2, "stream_head": hx[:160], "reader_end": end, "chunking": chunk, "calls": calls}


def save_replay(prop, line):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    hid = line.split("\t", 1)[0]
    f = os.path.join(d, "%s-%s.txt" % (prop, hid))
    open(f, "w").write(line + "\n")
    return f


def variants_for(prop):
    if prop == "P17":
        return [("A", 0, 1, True), ("A", 1, 1, False), ("A", 3, 1, False), ("A", 0, 5, False),
                ("B", 0, 1, True), ("B", 0, 5, False), ("C", 2, 4, False), ("D", 0, 1, False), ("D", 0, 6, True and False)]
    return ALL


def main():
    if sys.argv[1] == "--replay":
        lines = [l.rstrip("\n") for l in open(sys.argv[2])]
        prop = os.path.basename(sys.argv[2]).split("-")[0]
        vs = variants_for(prop)
        bins = build({v[0] for v in vs})
        recs = records(lines, run_all(bins, lines, vs))
        verd, s, t, text = validate(recs, 600)
        for l in lines:
            i = l.split("\t", 1)[0]
            print(i, verd.get(i, "no verdict"))
        if text:
            print(text)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    quick = tier == "quick"
    vs = variants_for(prop)
    bins = build(sorted({v[0] for v in vs}))
    t1 = time.time()
    n = COUNTS[prop][0 if quick else 1]
    if os.environ.get("JPEG_COUNT"):
        n = int(os.environ["JPEG_COUNT"])
    lines = gen(bins["A"], prop, SEED, n)
    models = {}
    for src in EXTRA.get(prop, []):
        if os.environ.get("JPEG_NOMODEL"):
            break
        more, info = src(quick)
        lines += more
        models.update(info)
    t2 = time.time()
    res = run_all(bins, lines, vs)
    recs = records(lines, res)
    t3 = time.time()
    verd, states, trans, text = validate(recs, 800 if quick else 6 * 3600)
    t4 = time.time()
    byid = {l.split("\t", 1)[0]: l for l in lines}
    missing = [i for i in byid if i not in verd]
    kf = known()
    viol, seen, count = [], {}, {}
    for i, v in verd.items():
        key = v.split(":")[0]
        count[key] = count.get(key, 0) + 1
        if v.startswith("bad:"):
            viol.append((i, v))
        elif v.startswith("kf:"):
            k = v[3:]
            if prop in kf.get(k, {}):
                seen[k] = kf[k][prop]
            else:
                viol.append((i, "unlisted finding " + k))
    for k, what in seen.items():
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, what))
    for m, info in models.items():
        states += info.get("states", 0)
        trans += info.get("transitions", 0)
        if info.get("violation"):
            viol.append((None, info["violation"]))
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": len(verd),
            "samples": [describe(l) for l in random.Random(SEED).sample(lines, min(4, len(lines)))],
            "verdicts": count, "runs_of_the_decoder": len(lines) * len(vs),
            "variants": ["config %s%s%s%s" % (c, ", pool of %d" % p if p else "", ", %d decoders at once" % k if k > 1 else "", ", thread leak check" if k2 else "") for c, p, k, k2 in vs],
            "models": models,
            "explanation": "Each history is a byte stream, a reader behaviour and a script of API calls; it is replayed in the real decoder in every listed configuration and TLC steps the specification (JpegTrace) along it, judging every observed result.",
        },
        "assumptions": ["the outcome classes called wild (see DESIGN.md) are not constrained beyond returning"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d histories, verdicts %s, %d states; build %.0fs gen %.0fs run %.0fs tlc %.0fs" %
          (prop, tier, len(lines), count, states, t1 - t0, t2 - t1, t3 - t2, t4 - t3))
    for i, v in viol[:40]:
        print("  ", i, v)
    if viol:
        f = None
        for i, v in viol:
            if i:
                f = save_replay(prop, byid[i])
                break
        print("VIOLATION property=%s replay=%s" % (prop, f or "model"))
        return 1
    if missing or text:
        print("no verdict for %d histories, e.g. %s" % (len(missing), missing[:3]))
        print(text)
        return 2
    return 0


GEN = re.compile(r"GEN@([^@]*)@([^@]*)@([^@]*)@([^@]*)@<<([^@]*)>>@")


def model(name, chk=None, every=1):
    """A bounded model of JpegGen: TLC enumerates its plans, checks its theorem on the specification
    and prints its histories.  every: in quick mode keep each n-th history only."""
    def run(quick):
        t, g, d = tlc("JpegGen.tla", "JpegGen.cfg", {"JPEG_MODEL": name, "JPEG_TIER": "quick" if quick else "thorough"},
                      600 if quick else 3 * 3600)
        if "Model checking completed. No error" not in t:
            raise Broken("model %s: %s" % (name, re.sub(r"GEN@[^@]*@[^@]*@[^@]*@[^@]*@<<[^@]*>>@", "", t)[-3000:]))
        hs = sorted({(len(b), e, c, k, a, b) for e, c, k, a, b in GEN.findall(t.replace("\n", " "))})
        if not hs:
            raise Broken("model %s generated nothing" % name)
        n = len(hs)
        if quick and every > 1:
            hs = hs[SEED % every::every]
        lines = ["%s-%d\t%s\t%s\t%s\t%s\t%s" % (name, i, e, c, chk or k, a, bytes(int(x) for x in b.split(",") if x.strip()).hex())
                 for i, (_, e, c, k, a, b) in enumerate(hs)]
        return lines, {name: {"states": d, "transitions": g, "histories": n, "replayed": len(lines)}}
    return run


EXTRA = {
    "P01": [model("edit", "ret", 4), model("marker", "ret", 3), model("api", "ret", 2)],
    "P02": [model("kinds", "size,info"), model("edit", "size,info", 4), model("scaled", "size,info", 3)],
    "P03": [model("seq"), model("idct", "res,px", 2)],
    "P04": [model("prog"), model("prog3"), model("progq"), model("eobrun")],
    "P05": [model("restart")],
    "P06": [model("huff")],
    "P07": [model("marker", "res,info"), model("edit", "res,info", 2), model("factors", "res,info", 3)],
    "P08": [model("tables"), model("progq")],
    "P09": [model("trunc")],
    "P10": [model("filler"), model("marker", "res,pos", 3)],
    "P11": [model("icc"), model("meta")],
    "P12": [model("api")],
    "P13": [model("scale"), model("scaled", "res,info,px")],
    "P14": [model("factors")],
    "P15": [model("colour"), model("ycc", "res,px")],
    "P16": [model("lossless", every=4), model("lossless3"), model("kinds", "res,px")],
    "P17": [model("wide", "res,px,cfg")],
    "P18": [model("limits")],
    "P19": [model("wide"), model("idct"), model("ycc", "res,cfg", 2)],
}

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check broken:", e)
        sys.exit(2)
