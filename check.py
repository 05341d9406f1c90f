#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep DIR] [--only ENTRY]

Builds the instantiations of one property from /repo/include as it is now, runs them under the
property's monitor, and writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored.
Exit 1 with "VIOLATION property=<id> replay=<path>": broken.  Exit 2: error of the check itself.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
sys.path.insert(0, VERIF)
H = os.path.join(VERIF, "h")
INST_FLAGS = ["-std=c++11", "-O1", "-w", "-DTHLS_FW_UINT_ON_MASKED_UINT=1", "-I" + REPO + "/include", "-I" + H]
DRV_FLAGS = ["-std=c++17", "-O2", "-w", "-I" + H]
LIBS = ["-lmpfr", "-lgmp", "-lpthread"]


class Binary:
    """One executable: driver sources (oracle side) + groups of instantiation lines (library side)."""
    def __init__(self, name, drivers, preamble="", lines=(), per_tu=6, cxx="g++", flags=(), drv_flags=(),
                 link=(), shards=16, cpu=600, scale=1.0, env=None, core="vtcore", extra_args=(), weights=None):
        self.name, self.drivers, self.preamble, self.lines = name, list(drivers), preamble, list(lines)
        self.per_tu, self.cxx, self.flags, self.drv_flags, self.link = per_tu, cxx, list(flags), list(drv_flags), list(link)
        self.shards, self.cpu, self.scale, self.env, self.core = shards, cpu, scale, env or {}, core
        self.extra_args = list(extra_args)


class Result:
    def __init__(self):
        self.viol = []          # (key, detail)
        self.stats, self.buckets, self.samples = {}, {}, []
        self.errors = []
        self.configs = 0


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(cxx, flags, src, obj):
    r = sh([cxx] + flags + ["-c", src, "-o", obj])
    return r.returncode == 0 and os.path.exists(obj), r.stdout


def build(b, work, pool, res):
    """returns path of executable, or None; compile failures of an in-contract instantiation are violations"""
    d = os.path.join(work, b.name)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in b.drivers + [b.core]:
        if s is None:
            continue
        obj = os.path.join(d, "drv_%s.o" % s)
        jobs.append((None, pool.submit(compile_one, b.cxx, DRV_FLAGS + b.drv_flags, os.path.join(H, s + ".cpp"), obj), obj, s))
    groups = [b.lines[i:i + b.per_tu] for i in range(0, len(b.lines), b.per_tu)]
    for i, g in enumerate(groups):
        src = os.path.join(d, "tu%d.cpp" % i)
        with open(src, "w") as f:
            f.write(b.preamble + "\n" + "\n".join(g) + "\n")
        obj = os.path.join(d, "tu%d.o" % i)
        jobs.append((g, pool.submit(compile_one, b.cxx, INST_FLAGS + b.flags, src, obj), obj, src))
    objs = []
    for g, fut, obj, src in jobs:
        ok, log = fut.result()
        if ok:
            objs.append(obj)
            continue
        if g is None:
            ok, log = compile_one(b.cxx, DRV_FLAGS + b.drv_flags, os.path.join(H, src + ".cpp"), obj)
            if not ok:
                res.errors.append("driver %s does not compile:\n%s" % (src, log[-3000:]))
                return None
            objs.append(obj)
            continue
        # one serial retry, line by line, to tell a broken instantiation from a starved compiler
        for j, line in enumerate(g):
            if sum(1 for k, _ in res.viol if k.startswith("compile/")) >= 8:
                break                                          # it is broken; no need to name every use that is
            s1 = src.replace(".cpp", "_%d.cpp" % j)
            o1 = s1.replace(".cpp", ".o")
            with open(s1, "w") as f:
                f.write(b.preamble + "\n" + line + "\n")
            ok, log = compile_one(b.cxx, INST_FLAGS + b.flags, s1, o1)
            if ok:
                objs.append(o1)
            else:
                if "error:" not in log:
                    res.errors.append("compiler gave no diagnosis for %s: %s" % (line, log[-500:]))
                    continue
                err = [l for l in log.splitlines() if "error:" in l][:3]
                res.viol.append(("compile/" + re.sub(r"\s+", "", line)[:160], "a supported use no longer compiles: " + " | ".join(err)))
    exe = os.path.join(d, b.name)
    # response file: many objects
    rsp = os.path.join(d, "link.rsp")
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    r = sh([b.cxx] + b.link + ["@" + rsp, "-o", exe] + LIBS)
    if r.returncode != 0:
        res.errors.append("link of %s failed:\n%s" % (b.name, r.stdout[-3000:]))
        return None
    res.configs += len(b.lines)
    for o in objs:
        os.unlink(o)
    return exe


def run_shard(b, exe, i, n, seed, tier, only, timeout):
    cmd = [exe, "--shard", "%d/%d" % (i, n), "--seed", str(seed), "--scale", str(b.scale),
           "--tier", "1" if tier == "thorough" else "0", "--cpu", str(b.cpu)] + b.extra_args
    if only:
        cmd += ["--only", only]
    env = dict(os.environ)
    env.update(b.env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "wall timeout"


def absorb(b, rc, out, err, res, shard):
    done = False
    for l in out.splitlines():
        p = l.split("\t")
        if p[0] == "VIOL" and len(p) >= 3:
            res.viol.append((p[1], p[2]))
        elif p[0] == "STAT" and len(p) == 3:
            res.stats[p[1]] = res.stats.get(p[1], 0) + int(p[2])
        elif p[0] == "BUCKET" and len(p) == 3:
            res.buckets[p[1]] = res.buckets.get(p[1], 0) + int(p[2])
        elif p[0] == "SAMPLE" and len(p) >= 2:
            res.samples.append(p[1])
        elif p[0] == "ERROR":
            res.errors.append(l)
        elif p[0] == "DONE":
            done = True
    san = re.search(r"(ERROR: (AddressSanitizer|LeakSanitizer)[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|SUMMARY: [^\n]*|MemorySanitizer[^\n]*)", err)
    if san:
        where = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*include/thls[^\n]*)", err)[:2] + re.findall(r"([^\s]*include/thls[^\n]*runtime error:[^\n]*)", err)[:1]
        res.viol.append(("%s/sanitizer" % b.name, (san.group(1) + " @ " + " ; ".join(where))[:600]))
    if rc == 4:
        res.viol.append(("%s/no-termination" % b.name, "shard %d exceeded %d s of CPU" % (shard, b.cpu)))
    elif rc == -999:
        res.errors.append("%s shard %d: wall timeout" % (b.name, shard))
    elif (rc != 0 or not done) and not san:
        # a death outside the monitored call is still a death of the code under test unless the oracle says so
        if "oracle:" in err or rc == 2:
            res.errors.append("%s shard %d: %s" % (b.name, shard, err[-400:]))
        else:
            res.viol.append(("%s/died" % b.name, "shard %d ended with %s: %s" % (shard, rc, err[-300:].replace("\n", " | "))))


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep")
    ap.add_argument("--only")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import specs
    t0 = time.time()
    spec = specs.SPECS[a.prop](tier, seed)
    work = a.keep or tempfile.mkdtemp(prefix="vt_%s_" % a.prop, dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(work, exist_ok=True)
    res = Result()
    ncpu = min(8, os.cpu_count() or 8)
    try:
        with cf.ThreadPoolExecutor(ncpu) as pool, cf.ThreadPoolExecutor(32) as bp:
            exes = list(bp.map(lambda b: (b, build(b, work, pool, res)), spec["binaries"]))
        tb = time.time()
        with cf.ThreadPoolExecutor(ncpu) as pool:
            futs = []
            for b, exe in exes:
                if not exe:
                    continue
                for i in range(b.shards):
                    futs.append((b, i, pool.submit(run_shard, b, exe, i, b.shards, seed, tier, a.only, 7200 if tier == "thorough" else 840)))
            for b, i, f in futs:
                rc, out, err = f.result()
                absorb(b, rc, out, err, res, i)
        for fn in spec.get("post", []):
            fn(res, work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0

    if "only" in spec and not os.environ.get("VT_ALL"):                                      # this property is about these kinds of events; others belong to other properties
        rx = re.compile(spec["only"])
        other = [v for v in res.viol if not rx.search(v[0])]
        res.viol = [v for v in res.viol if rx.search(v[0])]
        if other:
            res.buckets["events_belonging_to_other_properties"] = len(other)
    known = load_known(a.prop)
    seen_known, fresh = {}, []
    for k, d in res.viol:
        for rx, desc in known:
            if rx.search(k + " :: " + d):
                seen_known[desc] = seen_known.get(desc, 0) + 1
                break
        else:
            fresh.append((k, d))
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    missing = [m for m in spec.get("must_see", []) if not res.buckets.get(m)]
    cov = {
        "evaluations": res.stats.get("evaluations", 0),
        "distinct_nontrivial": res.stats.get("distinct", 0),
        "rule": spec["rule"],
        "samples": res.samples[:40],
        "instantiations_built_and_run": res.stats.get("entries", 0),
        "observed": dict(sorted(res.buckets.items())),
        "compile_s": round(tb - t0, 1),
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(fresh)}
    if seen_known:
        cov["known_findings_seen"] = seen_known
    with open(os.path.join(ev_dir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for desc in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, desc))
    if fresh:
        rp = os.path.join(ev_dir, "replay_%s.json" % a.prop)
        with open(rp, "w") as f:
            json.dump({"property": a.prop, "tier": tier, "seed": seed, "cmd": "VERIF_SEED=%d python3 check.py %s --tier %s" % (seed, a.prop, tier),
                       "violations": [{"where": k, "what": d} for k, d in fresh[:200]]}, f, indent=1)
        for k, d in fresh[:12]:
            print("  %s: %s" % (k, d[:400]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if res.errors:
        for e in res.errors[:10]:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    if missing and not a.only:
        print("ERROR: the workload never produced: %s" % missing, file=sys.stderr)
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d instantiations=%d wall=%.0fs" % (
        a.prop, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["instantiations_built_and_run"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
