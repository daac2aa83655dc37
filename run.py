#!/usr/bin/env python3
"""Builds and runs the checks of one property:  run.py <ID> [quick|thorough] [--only TARGET] [--cases-x F]
   run.py --replay FILE          rebuilds the target a replay file names and runs the saved case
   run.py --build-all            compiles every target (cache only; checks never depend on it)"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from specs import PROPS, TARGETS, BASE   # noqa

def digest_tree(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read()); continue
        for root, ds, fs in os.walk(d):
            ds.sort(); ds[:] = [x for x in ds if x not in (".git", "_build", "_build_extra", "target", "__pycache__")]
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".h", ".hh", ".hpp", ".c", ".cc", ".cpp", ".ipp", ".inc", ".rs")):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def expand(x, t):
    return x.replace("@R", R).replace("@V", V)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plan_build(name):
    """-> (binary path, [compile cmds], link cmd)"""
    t = dict(BASE); t.update(TARGETS[name])
    dirs = [os.path.join(R, d) for d in t["repo"]] + [os.path.join(V, "lib"), os.path.join(V, "shim")] + [os.path.join(V, "harness", s if isinstance(s, str) else s[0]) for s in t["src"]]
    dirs += sorted(os.path.join(V, "harness", f) for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".h"))
    key = hashlib.sha256((json.dumps(t, sort_keys=True) + digest_tree(dirs)).encode()).hexdigest()[:16]
    outd = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(outd, "bin")
    if os.path.exists(exe):
        return exe, [], None, outd
    san = ["-fsanitize=thread"] if t["mode"] == "sched" else (["-fsanitize=address"] if t["mode"] == "asan" else [])
    comp, objs = [], []
    def add(src, flags, cc):
        o = os.path.join(outd, "%02d-%s.o" % (len(objs), os.path.basename(src)))
        objs.append(o); comp.append([cc] + flags + ["-c", src, "-o", o])
    inc = [expand(x, t) for x in t["flags"]]
    lib = ["-iquote", os.path.join(V, "lib")]
    std = ["-std=c++17"]
    for s in t["src"]:
        s, fl = (s, []) if isinstance(s, str) else (s[0], list(s[1:]))
        add(os.path.join(V, "harness", s), std + t["opt"] + san + lib + inc + fl, t["cxx"])
    for s in t["repo_src"]:
        fl = []
        if isinstance(s, (list, tuple)):
            s, fl = s[0], list(s[1:])
        s = expand(s, t)
        isc = s.endswith(".c") and "-xc++" not in fl
        add(s, (["-std=gnu11"] if isc else std) + t["opt"] + san + [expand(x, t) for x in t["repo_flags"]] + inc + fl, t["cc"] if isc else t["cxx"])
    if t["pre"]:   # another compiler's steps, one job; what they make is linked in
        comp.append(["sh", "-c", " && ".join(x.replace("@O", outd) for x in (expand(y, t) for y in t["pre"]))]); objs += [os.path.join(outd, x) for x in t["pre_objs"]]
    plain = ["-std=c++17", "-O2", "-g"] + (["-fsanitize=address"] if t["mode"] == "asan" else [])
    add(os.path.join(V, "lib", "pbt.cc"), plain + lib, t["cxx"])
    if t["mode"] == "sched":
        add(os.path.join(V, "lib", "vsched.cc"), plain + lib, t["cxx"])
    link = [t["cxx"]] + (["-fsanitize=address"] if t["mode"] == "asan" else []) + objs + ["-o", exe + ".tmp"] + t["libs"]
    return exe, comp, link, outd

def build(names):
    plans = {n: plan_build(n) for n in names}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {}
        for n, (exe, comp, link, outd) in plans.items():
            if comp: os.makedirs(outd, exist_ok=True)
            # the slowest first: harness sources lead each list
            futs[n] = [ex.submit(sh, c) for c in comp]
        for n, (exe, comp, link, outd) in plans.items():
            if not comp: continue
            for c, f in zip(comp, futs[n]):
                r = f.result()
                if r.returncode:
                    print("BUILD FAILED for %s:\n%s\n%s" % (n, " ".join(c), r.stdout[:2500])); sys.exit(2)
            r = sh(link)
            if r.returncode:
                print("LINK FAILED for %s:\n%s\n%s" % (n, " ".join(link), r.stdout[:2500])); sys.exit(2)
            os.rename(exe + ".tmp", exe)
            for o in os.listdir(outd):
                if o != "bin": os.unlink(os.path.join(outd, o))
    # keep the cache small: drop other builds of the same targets
    for n, (exe, comp, link, outd) in plans.items():
        for d in os.listdir(BUILD):
            if d.startswith(n + "-") and re.fullmatch(re.escape(n) + r"-[0-9a-f]{16}", d) and os.path.join(BUILD, d) != outd:
                full = os.path.join(BUILD, d)
                for f in os.listdir(full): os.unlink(os.path.join(full, f))
                os.rmdir(full)
    return {n: p[0] for n, p in plans.items()}

def env_for(t):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190"
    if t["mode"] != "asan": e["MALLOC_PERTURB_"] = "165"
    e.update(t["env"])
    return e

def known_findings():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m: out.setdefault(m.group(1), []).append(m.group(2))
    return out

def run_prop(pid, tier, only=None, factor=1.0):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    names = [n for n in P["targets"] if not only or n == only]
    exes = build(names)
    bt = time.time() - t0
    print("%s: built %s in %.1f s" % (pid, " ".join(names), bt), flush=True)
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    results, rc = [], 0
    # saved failing inputs of earlier defects first
    regress = 0
    for n in names:
        t = dict(BASE); t.update(TARGETS[n])
        for d in (pid,):
            rd = os.path.join(V, "regress", d)
            if not os.path.isdir(rd): continue
            for f in sorted(os.listdir(rd)):
                p = os.path.join(rd, f); txt = open(p).read()
                if ("\ntarget %s\n" % n) not in txt: continue
                r = sh([exes[n], "--replay", p, "--dir", rdir], env=env_for(t)); regress += 1
                if r.returncode == 1:
                    print(r.stdout[-3000:]); print("VIOLATION property=%s replay=%s" % (pid, p), flush=True); rc = 1
                elif r.returncode:
                    print("replay of %s: unexpected status %d\n%s" % (p, r.returncode, r.stdout[-2000:])); sys.exit(2)
    rounds = [seed] if tier == "quick" else [seed * 1000 + i for i in range(1, 1 + P.get("thorough_rounds", 4))]
    tbudget = P.get("thorough_time", 600)
    for rd in rounds:
        if rc: break
        for n in names:
            t = dict(BASE); t.update(TARGETS[n])
            share = t["share"] / sum(dict(BASE, **TARGETS[m])["share"] for m in names)
            cases = int(t["cases"] * factor) if tier == "quick" else int(t["cases"] * t["thorough_x"])
            # the quick tier is a fixed number of cases; the limit only guards against a machine far slower than expected
            tl = 240 if tier == "quick" else tbudget * share / len(rounds)
            out = os.path.join(rdir, ".%s-%s.json" % (pid, n))
            if os.path.exists(out): os.unlink(out)
            cmd = [exes[n], "--seed", str(rd), "--workers", str(t["workers"]), "--cases", str(cases), "--time", str(tl), "--out", out, "--dir", rdir, "--prop", pid, "--target", n] + (["--thorough"] if tier != "quick" else [])
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env_for(t), errors="replace")
            for l in p.stdout: print(l, end="", flush=True)
            p.wait()
            if p.returncode not in (0, 1):
                print("%s: unexpected status %s" % (n, p.returncode)); sys.exit(2)
            j = json.load(open(out)); os.unlink(out); j["target"] = n; j["seed"] = rd; results.append(j)
            if p.returncode == 1: rc = 1; break
    ev = sum(j["evaluations"] for j in results); nt = sum(j["distinct_nontrivial"] for j in results)
    samples, rules, per = [], [], {}
    for j in results:
        for h in j["harnesses"]:
            nm = j["target"] + "/" + h["name"]
            d = per.setdefault(nm, {"evaluations": 0}); d["evaluations"] += h["evaluations"]
            if j["seed"] == rounds[0]:
                rules.append("%s: %s" % (nm, h["rule"]))
                samples += ["%s: %s" % (nm, s[:600]) for s in h["samples"][:2]]
        d = per.setdefault(j["target"], {"distinct_nontrivial": 0, "reached": {}})
        d["distinct_nontrivial"] += j["distinct_nontrivial"]
        for k, v in j["labels"].items(): d["reached"][k] = d["reached"].get(k, 0) + v
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": " | ".join(rules), "samples": samples[:24] or ["none"],
                        "per_target": per, "regression_inputs_replayed": regress, "seeds": rounds, "build_s": round(bt, 1)},
           "violations": rc, "wall_s": round(time.time() - t0, 2), "assumptions": P.get("assumptions", [])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in known_findings().get(pid, []): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (pid, tier, ev, nt, time.time() - t0, "VIOLATION" if rc else "held"))
    return rc

def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if not a: print(__doc__); return 2
    if a[0] == "--build-all":
        build(list(TARGETS)); return 0
    if a[0] == "--replay":
        txt = open(a[1]).read(); n = re.search(r"^target (\S+)", txt, re.M).group(1)
        exe = build([n])[n]; t = dict(BASE); t.update(TARGETS[n])
        r = sh([exe, "--replay", a[1], "--dir", os.path.join(V, "replays")], env=env_for(t)); print(r.stdout); return r.returncode
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; factor = 1.0
    i = 1
    while i < len(a):
        if a[i] in ("quick", "thorough"): tier = a[i]
        elif a[i] == "--only": i += 1; only = a[i]
        elif a[i] == "--cases-x": i += 1; factor = float(a[i])
        i += 1
    return run_prop(pid, tier, only, factor)

if __name__ == "__main__":
    sys.exit(main())
