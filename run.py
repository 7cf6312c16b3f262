#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE] : build check <ID> from /repo's working tree and run it."""
import os, sys, subprocess, hashlib, json, time, shutil, struct, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
COMMON = ["-std=c++17", "-fopenmp", "-w", "-I" + REPO + "/include", "-I" + ROOT + "/harness"]
FLAGS = {"fast": ["-O1", "-fwhole-program", "-D_GLIBCXX_ASSERTIONS"],
         "asan": ["-O1", "-fwhole-program", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=null,alignment,object-size,vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
         "tsan": ["-O1", "-fwhole-program", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"]}
BOOST = {"C12": 2, "C14": 6, "C15": 5, "C16": 5, "C17": 4, "C18": 3, "C19": 3, "C20": 6, "C21": 5, "C22": 2, "C23": 3, "C26": 4, "C31": 6, "C32": 5, "C35": 6, "C36": 4, "C37": 4, "C38": 4, "C39": 4, "C40": 12}
CAP = {"quick": {"fast": 100, "asan": 100, "tsan": 100}, "thorough": {"fast": 330, "asan": 330, "tsan": 330}}

def option(cid, key):
    """words after '// key:' in the check's source"""
    for l in open(os.path.join(ROOT, "checks", cid + ".cpp")):
        if l.startswith(f"// {key}:"): return l.split(":", 1)[1].split()
    return []

def tree_hash(cid):
    h = hashlib.sha256()
    fs = [os.path.join(ROOT, "checks", cid + ".cpp")] + sorted(glob.glob(ROOT + "/harness/*.hpp"))
    for d, _, names in os.walk(REPO + "/include"):
        fs += [os.path.join(d, n) for n in names]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr((COMMON, FLAGS)).encode())
    return h.hexdigest()[:16]

NPARTS = 4

def split_check(cid):
    """the check's source cut into translation units holding some of its PROP blocks each; returns [(source text, [prop names])]"""
    src = open(os.path.join(ROOT, "checks", cid + ".cpp")).read()
    pieces, i, n = [], 0, len(src)
    def end_of_block(j):
        depth = 0
        while j < n:
            c = src[j]
            if src.startswith("//", j): j = src.find("\n", j); continue
            if c == '"' or (c == "'" and not (src[j - 1].isalnum() and src[j + 1].isalnum() and src[j + 2] != "'")):
                q = c; j += 1
                while src[j] != q: j += 2 if src[j] == "\\" else 1
            elif c == "{": depth += 1
            elif c == "}":
                depth -= 1
                if depth == 0: return j + 1
            j += 1
        raise SystemExit("unbalanced " + cid)
    rest = []; blocks = []
    while i < n:
        if (i == 0 or src[i - 1] == "\n") and (src.startswith("PROP(", i) or src.startswith("KNOWN(", i)):
            j = end_of_block(i); name = src[src.index("(", i) + 1:].split(",")[0].strip()
            blocks.append((len(rest), i, j, name)); rest.append((i, j)); i = j
        else:
            k = src.find("\n", i); k = n if k < 0 else k + 1
            rest.append((i, k)); i = k
    if "// split: field" in src:   # every part has all PROPs for some of the fields
        line = f'#line 1 "{os.path.join(ROOT, "checks", cid + ".cpp")}"\n'; names = [b[3] for b in blocks]
        return [(f"#define PBT_FIELDS {f}\n" + line + src, names) for f in (1, 2, 3)]
    k = min(NPARTS, len(blocks)); parts = []
    load = [0] * k; mine = [set() for _ in range(k)]
    for b in sorted(blocks, key=lambda b: b[1] - b[2]):
        p = load.index(min(load)); load[p] += 400 + b[2] - b[1]; mine[p].add(b[0])
    isblock = {b[0]: b[3] for b in blocks}
    for p in range(k):
        text = "".join((src[x:y] if t not in isblock or t in mine[p] else "\n" * src[x:y].count("\n")) for t, (x, y) in enumerate(rest))
        parts.append((f'#line 1 "{os.path.join(ROOT, "checks", cid + ".cpp")}"\n' + text, [isblock[t] for t in sorted(mine[p])]))
    return parts

def build(cid, variants):
    """compiles every part in every variant; returns {variant: [(binary, prop names)]}"""
    os.makedirs(BUILD, exist_ok=True)
    hh = tree_hash(cid)
    procs, bins = [], {}
    parts = split_check(cid)
    for old in glob.glob(os.path.join(BUILD, f"{cid}-*")):
        if hh not in old: os.unlink(old)
    for v in sorted(variants):
        for p, (text, names) in enumerate(parts):
            if v == "asan" and len(variants) > 1 and text.startswith("#define PBT_FIELDS 3"): continue
            b = os.path.join(BUILD, f"{cid}-{v}-{p}-{hh}")
            bins.setdefault(v, []).append((b, names))
            if os.path.exists(b): continue
            cpp = f"{b}.cpp"; open(cpp, "w").write(text)
            cmd = ["g++"] + COMMON + FLAGS[v] + [cpp, "-o", b + ".tmp"] + option(cid, "flags")
            procs.append((v, b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for v, b, p in procs:
        out = p.communicate()[0]
        if p.returncode: ok = False; print(f"BUILD FAILED {cid} {v}\n{out[:6000]}")
        else: os.rename(b + ".tmp", b)
    return bins if ok else None

def main():
    a = sys.argv[1:]; cid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    variants = (opt.get("--variants") or ",".join(option(cid, "variants")) or "fast,asan").split(",")
    t0 = time.time()
    bins = build(cid, variants)
    if bins is None: return 2
    if opt.get("--build"): return 0
    t_build = time.time() - t0
    out = os.path.join(BUILD, "out", cid); os.makedirs(out, exist_ok=True)
    env = dict(os.environ, OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
        ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:symbolize=1:max_allocation_size_mb=3000",
        UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=96:report_signal_unsafe=0"
    env.pop("OMP_NUM_THREADS", None)
    skipped = []
    if "tsan" in variants and subprocess.run([bins["tsan"][0][0], "--only", "none"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        variants.remove("tsan"); skipped.append("tsan"); print(f"{cid}: ThreadSanitizer cannot start in this environment; that build is skipped", flush=True)
    if "--replay" in opt:
        rc = 0
        v0 = [l.split()[1] for l in open(opt["--replay"]) if l.startswith("variant")]
        pn = [l.split()[1] for l in open(opt["--replay"]) if l.startswith("prop ")]
        pt = [int(l.split()[1]) for l in open(opt["--replay"]) if l.startswith("part ")]
        for v in [x for x in variants if x in v0 or not v0]:
            b = bins[v][pt[0]][0] if pt else [b for b, names in bins[v] if not pn or pn[0] in names][0]
            r = subprocess.run([b, "--replay", opt["--replay"], "--out", out], env=env); rc = max(rc, r.returncode)
        return 1 if rc else 0
    for f in glob.glob(out + "/part-*") + glob.glob(out + "/hash-*"): os.unlink(f)
    ps = []
    # the cheaper checks generate a multiple of the cases declared with their properties in the quick tier
    boost = BOOST.get(cid, 1) if tier == "quick" else 1
    scale = {"fast": 4.0, "asan": 0.4, "tsan": 0.1} if tier == "quick" else {"fast": 1.0, "asan": 0.12, "tsan": 0.06}
    for v in variants:
        sc = scale[v] * boost * float(opt.get("--scale", 1))
        todo = [(p, b) for p, (b, names) in enumerate(bins[v]) if "--only" not in opt or opt["--only"] in names]
        if "#define PBT_FIELDS" in open(bins[v][0][0] + ".cpp").readline(): sc /= len(todo)
        w = 8 if len(todo) == 1 else 4 if len(todo) == 2 else 3
        for p, b in todo:
            cmd = [b, "--tier", tier, "--seed", str(seed), "--out", out, "--variant", v, "--part", str(p), "--workers", str(w),
                   "--cap", opt.get("--cap", str(CAP[tier][v])), "--scale", str(sc), "--known", ROOT + "/known_findings.txt"]
            if "--only" in opt: cmd += ["--only", opt["--only"]]
            ps.append((v, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    rc = 0; seen = set()
    for v, p in ps:
        o = p.communicate()[0]
        for l in o.splitlines():
            if l.startswith("KNOWN-FINDING"):
                if l in seen: continue
                seen.add(l)
            print(l, flush=True)
        if p.returncode not in (0, 1): print(f"check error {cid} {v}: exit {p.returncode}"); rc = max(rc, 2)
        elif p.returncode == 1 and rc != 2: rc = 1
    if rc == 2 and any(p.returncode == 1 for _, p in ps): rc = 1
    # evidence
    parts = [json.load(open(f)) for f in sorted(glob.glob(out + "/part-*.json"))]
    hs = set()
    for f in glob.glob(out + "/hash-*.bin"):
        d = open(f, "rb").read(); hs.update(struct.unpack(f"<{len(d)//8}Q", d)); os.unlink(f)
    per, rules, samples, labels = {}, {}, [], {}
    for q in parts:
        for p in q["props"]:
            e = per.setdefault(p["name"], dict(evaluations=0, nontrivial=0, discarded=0))
            e["evaluations"] += p["evaluations"]; e["nontrivial"] += p["nontrivial"]; e["discarded"] += p["discards"]
            rules[p["name"]] = p["rule"]
            for s in p["samples"]:
                if len([1 for x in samples if x["prop"] == p["name"]]) < 2: samples.append(dict(prop=p["name"], case=s[:1200]))
        for k, n in q["labels"].items(): labels[k] = labels.get(k, 0) + n
    cov = dict(evaluations=sum(e["evaluations"] for e in per.values()), distinct_nontrivial=len(hs),
        rule="Cases are choice sequences drawn by generators from VERIF_SEED; distinct = different choice sequences. Per property: "
             + " | ".join(f"{k}: {r}" for k, r in rules.items()),
        samples=samples, per_property=per, labels=labels,
        skipped_variants=skipped, runs=[dict(variant=q["variant"], run_s=q["run_s"], capped=q["capped"], inconclusive=q["inconclusive"]) for q in parts])
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov,
        assumptions=["inputs are drawn from the generators described in the rule; sanitizer build covers memory errors on the same inputs"],
        wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    if parts and not opt.get("--only"):
        json.dump(ev, open(f"{ROOT}/evidence/{cid}.json", "w"), indent=1)
    print(f"{cid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, build {t_build:.1f}s total {ev['wall_s']}s, exit {rc}", flush=True)
    return rc
sys.exit(main())
