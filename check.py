#!/usr/bin/env python3
"""
check.py ID [--tier quick|thorough] [--scale F] [--suite NAME] [--build-only] [--replay FILE]

Builds the harness(es) of a property from /repo's current working tree and runs
them; writes evidence/ID.json; exit 0 / 1 (with a VIOLATION line) / 2 (error).
"""
import sys, os, json, hashlib, subprocess, time, argparse, tempfile, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"
sys.path.insert(0, VERIF)
from checks import CHECKS


def include_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"),):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


def gen_headers(dst):
    """what include/CMakeLists.txt generates at configure time, from the current tree"""
    src = os.path.join(REPO, "include/cppad/cg")
    tp = os.path.join(dst, "cppad/cg/model/threadpool")
    os.makedirs(tp, exist_ok=True)
    for name in ("pthread_pool", "openmp"):
        for ext in ("c", "h"):
            with open(os.path.join(src, "model/threadpool", name + "." + ext)) as f:
                text = f.read()
            delim = "*=*"
            while delim in text:
                delim += "*"
            var = "CPPADCG_%s_%s_FILE" % (name.upper(), ext.upper())
            out = 'const char %s[] = R"%s(%s)%s";\n\nconst size_t %s_SIZE = %d;\n\n' % (var, delim, text, delim, var, len(text.encode()))
            write_if_changed(os.path.join(tp, "%s_%s.hpp" % (name, ext)), out)
    with open(os.path.join(src, "configure.hpp.in")) as f:
        text = f.read()
    version = "0"
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        for line in f:
            if "cppadcg_version" in line.lower() and "set" in line.lower():
                parts = line.replace("(", " ").replace(")", " ").split()
                if len(parts) >= 3:
                    version = parts[2].strip('"')
                    break
    write_if_changed(os.path.join(dst, "cppad/cg/configure.hpp"), text.replace("@cppadcg_version@", version))


def write_if_changed(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def build(harness, flags, ih):
    """returns the binary of a harness; rebuilt whenever /repo/include, the harness or the flags change"""
    h = ih.copy()
    for d in ("lib", "harness"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if d == "harness" and f != harness + ".cpp" and not f.endswith(".hpp"):
                continue
            with open(os.path.join(VERIF, d, f), "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read())
    h.update(" ".join(flags).encode())
    key = h.hexdigest()[:16]
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, "%s-%s" % (harness, key))
    if os.path.exists(out):
        return out, 0.0
    for f in os.listdir(bdir):  # older builds of the same harness
        if f.startswith(harness + "-"):
            try:
                os.unlink(os.path.join(bdir, f))
            except OSError:
                pass
    inc = os.path.join(BUILD, "inc-" + ih.hexdigest()[:16])
    for f in os.listdir(BUILD):
        if f.startswith("inc-") and os.path.join(BUILD, f) != inc:
            shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
    gen_headers(inc)
    t0 = time.time()
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CXX, "-std=gnu++14", "-O0", "-g0", "-w", "-pthread",
           "-I" + os.path.join(REPO, "include"), "-I" + inc, "-I/usr/include/eigen3", "-I" + os.path.join(VERIF, "lib"),
           os.path.join(VERIF, "harness", harness + ".cpp"), "-o", tmp] + flags + ["-lcppad_lib", "-ldl"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("the harness %s does not compile:\n%s" % (harness, r.stdout[-4000:]))
        sys.exit(2)
    os.rename(tmp, out)
    return out, time.time() - t0


def known_findings(pid):
    """KNOWN_FINDINGS: lines 'finding: property=ID probe=NAME text' / 'fixed: property=ID commit text'"""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                probe, text = rest.split(" ", 1)
                res[probe.split("=", 1)[1]] = text
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--suite", default="all")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    chk = CHECKS[a.id]
    os.makedirs(BUILD, exist_ok=True)
    ih = include_hash()
    bins = []
    build_s = 0.0
    for hn in chk["harnesses"]:
        b, s = build(hn["name"], hn.get("flags", []), ih)
        bins.append((hn, b))
        build_s += s
    if a.build_only:
        print("built in %.1f s" % build_s)
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    env = dict(os.environ)
    env["VERIF_SCRATCH"] = scratch
    env["MALLOC_PERTURB_"] = "165"   # reads of uninitialised memory give the same garbage every time
    env["TMPDIR"] = scratch
    env["LC_ALL"] = "C"
    env.setdefault("OMP_NUM_THREADS", "4")
    try:
        return run(a, chk, bins, env, scratch, t0, build_s)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, chk, bins, env, scratch, t0, build_s):
    if a.replay:
        suite = json.load(open(a.replay))["suite"]
        for hn, b in bins:
            r = subprocess.run([b, "--replay", a.replay], env=env)
            if r.returncode != 2:
                return r.returncode
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    budget = chk.get("budget", {}).get(a.tier, 330 if a.tier == "quick" else 5400)
    results, probes, failed = [], [], []
    for hn, b in bins:
        js = os.path.join(scratch, hn["name"] + ".json")
        left = max(20, budget * hn.get("share", 1.0 / len(bins)))
        cmd = [b, "--suite", a.suite, "--seed", str(seed), "--tier", a.tier, "--scale", str(a.scale), "--workers", str(a.workers),
               "--budget", str(left), "--json", js, "--replaydir", replays, "--property", a.id]
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, text=True, cwd=scratch)
        for line in p.stdout:
            if line.startswith("FAILED-SUITE "):
                failed.append(line.split()[2])
            else:
                sys.stdout.write(line)
                sys.stdout.flush()
        rc = p.wait()
        if rc not in (0, 1) or not os.path.exists(js):
            print("harness %s ended with status %d" % (hn["name"], rc))
            return 2
        with open(js) as f:
            d = json.load(f)
        results += d["suites"]
        probes += d["probes"]
        if rc == 1:
            break
    # recorded findings
    known = known_findings(a.id)
    status = 0
    for p in probes:
        if p["fails"]:
            if p["id"] in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (a.id, p["id"], known[p["id"]]))
            else:
                path = os.path.join(replays, "%s-probe-%s.json" % (a.id, p["id"]))
                with open(path, "w") as f:
                    json.dump({"property": a.id, "suite": "probe:" + p["id"], "message": p["message"], "choices": []}, f)
                print("regression probe %s fails: %s" % (p["id"], p["message"]))
                failed.append(path)
        elif p["id"] in known:
            print("note: the recorded finding %s does not occur any more" % p["id"])
    ev = {
        "property": a.id, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["cases"] for s in results),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in results),
            "rule": " || ".join("%s: %s" % (s["name"], s["rule"]) for s in results),
            "samples": [{"suite": s["name"], "case": t} for s in results for t in s["samples"][:3]],
            "comparisons": sum(s["comparisons"] for s in results),
            "discarded": sum(s["discarded"] for s in results),
            "unconfirmed_failures": [{"suite": s["name"], "n": s["unconfirmed"], "message": s["unconfirmed_message"]} for s in results if s["unconfirmed"]],
            "suites": [{k: s[k] for k in ("name", "planned", "cases", "discarded", "nontrivial", "distinct_nontrivial", "comparisons", "cut_by_budget", "labels", "wall_s")} for s in results],
            "probes": probes,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failed),
        "build_s": round(build_s, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for path in failed:
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        status = 1
    if status == 0:
        print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (a.id, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return status


if __name__ == "__main__":
    sys.exit(main())
