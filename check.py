#!/usr/bin/env python3
"""Builds and runs the check of one property: check.py ID [--tier quick|thorough] [--replay FILE] [...]

Builds harness/ against /repo/seq in build/ID (ninja, depfiles), runs it, rewrites evidence/ID.json.
Exit 0: held; 1: VIOLATION; other: the check itself failed.
"""
import sys, os, json, subprocess, time, argparse, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
ap.add_argument("--replay")
ap.add_argument("--only")
ap.add_argument("--budget")
ap.add_argument("--scale")
ap.add_argument("--jobs", default="8")
ap.add_argument("--build-only", action="store_true")
a = ap.parse_args()
c = CHECKS[a.id]
tier = "thorough" if a.tier == "thorough" else "quick"
if os.environ.get("VPT_CXX"):
    c = dict(c, cxx=os.environ["VPT_CXX"], opt=os.environ["VPT_OPT"])
try:
    seed = int(a.seed)
except ValueError:
    seed = 1
bdir = os.path.join(V, "build", a.id + ("" if tier == "quick" else "_thorough"))
os.makedirs(bdir, exist_ok=True)
H = os.path.join(V, "harness")

def build(sub, defs, flags, opt, cxx):
    """one binary: build/ID/check, or build/ID/NAME/check for the other builds of CHECKS[ID]["builds"]"""
    d = os.path.join(bdir, sub)
    os.makedirs(d, exist_ok=True)
    units = [("vpt_main.cpp", "")] + [(u, "") if isinstance(u, str) else u for u in defs]
    base = ["-std=c++17", "-march=native", "-DSEQ_USE_INTERNAL_STD_TO_CHARS", "-I" + REPO, "-I" + H, "-w", "-UNDEBUG"]
    out = ["ninja_required_version = 1.3", "rule cxx", "  command = %s $flags -MMD -MF $out.d -c $in -o $out" % cxx, "  depfile = $out.d", "  deps = gcc",
           "rule link", "  command = %s %s $in -o $out %s" % (cxx, opt, c.get("libs", "-lpthread")), ""]
    objs = []
    for i, (src, ds) in enumerate(units):
        o = "u%d.o" % i
        objs.append(o)
        out.append("build %s: cxx %s" % (o, os.path.join(H, src)))
        out.append("  flags = %s" % " ".join(base + opt.split() + flags.split() + ds.split()))
    out.append("build check: link %s" % " ".join(objs))
    out.append("default check")
    txt = "\n".join(out) + "\n"
    p = os.path.join(d, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    r = subprocess.run(["ninja", "-C", d, "-j", "8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("\n".join(l for l in r.stdout.splitlines() if "error:" in l)[:3000]); print(r.stdout[-6000:])
        print("check %s: build failed" % a.id)
        sys.exit(2)
    return os.path.join(d, "check")

def builds():
    """(name, binary, share of the cases)"""
    # quick: clang -O0 (compile time dominates); thorough: g++ -O2, so another compiler and optimised code
    san = "-g1 -fsanitize=address"
    opt, cxx = ("-O0 " + san, "clang++") if tier == "quick" else ("-O2 " + san + " -fno-omit-frame-pointer", "g++")
    if c.get("opt"):
        opt = c["opt"]
    res = [("", build("", c["units"], "", opt, c.get("cxx", cxx)), 1.0)]
    for b in c.get("builds", []):
        if os.environ.get("VPT_CXX"):
            continue
        # the other builds: release mode by default; thorough: the other compiler
        o, x = ("-O0 " + san, "clang++") if tier == "quick" else ("-O1 " + san, "clang++")
        us = [c["units"][i] for i in b["units"]] if b.get("units") is not None else c["units"]
        res.append((b["name"], build(b["name"], us, b["flags"], o + " " + b.get("link", ""), x), b.get("share", 0.5)))
    return res

def known_list():
    """lines 'known: property=ID id=NAME text'"""
    res = {}
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res

t0 = time.time()
bins = builds()
tb = time.time() - t0
if a.build_only:
    print("built in %.1f s" % tb)
    sys.exit(0)
tmp = os.path.join(bdir, "tmp")
os.makedirs(tmp, exist_ok=True)
budget = float(a.budget or c.get("budget", {}).get(tier, 60 if tier == "quick" else 700))
s, code = None, 0
wanted = a.only
if a.replay:
    m = re.search(r"^check (\S+)", open(a.replay).read(), re.M)
    wanted = m.group(1) if m else ""
for name, binary, share in bins:
    if wanted is not None and (wanted.split("@") + [""])[1] != name:
        continue
    stats = os.path.join(bdir, "stats%s.json" % name)
    if os.path.exists(stats):
        os.remove(stats)
    cmd = [binary, "--property", a.id, "--seed", str(seed), "--tier", tier, "--tmp", tmp, "--stats", stats, "--replays", os.path.join(V, "replays"), "--jobs", a.jobs]
    if name:
        cmd += ["--suffix", name]
    if a.replay:
        cmd += ["--replay", a.replay]
    if a.only:
        cmd += ["--only", a.only]
    cmd += ["--scale", str(float(a.scale or c.get("scale", 2)) * share)]
    cmd += ["--budget", str(budget if not name else budget * min(1, share))]
    sys.stdout.flush()
    r = subprocess.run(cmd)
    if a.replay:
        sys.exit(r.returncode)
    if r.returncode not in (0, 1) or not os.path.exists(stats):
        print("check %s: runner ended with %d" % (a.id, r.returncode))
        sys.exit(2)
    t = json.load(open(stats))
    if s is None:
        s = t
    else:
        for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discarded", "unconfirmed"):
            s[k] += t[k]
        for k, v in t["labels"].items():
            s["labels"][k] = s["labels"].get(k, 0) + v
        s["per_check"].update(t["per_check"])
        s["samples"] += t["samples"]
        s["capped"] = s["capped"] or t["capped"]
        s["known"] += [k for k in t["known"] if k["fails"] and not [x for x in s["known"] if x["id"] == k["id"] and x["fails"]]]
        s["violation"] = s["violation"] or t["violation"]
    code = max(code, r.returncode)
    if code:
        break
if s is None:
    print("unknown check %s" % wanted)
    sys.exit(2)
known = known_list()
rc = code
viol = 1 if s["violation"] else 0
for k in s["known"]:
    if not k["fails"]:
        continue
    key = (a.id, k["id"])
    if key in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.id, known[key], k["id"]))
    else:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        p = os.path.join(V, "replays", "%s_known_%s.replay" % (a.id, k["id"]))
        open(p, "w").write("property %s\nfixed reproduction %s fails: %s\nsee KNOWN(%s) in harness/\n" % (a.id, k["id"], k["msg"], k["id"]))
        print("VIOLATION property=%s replay=%s" % (a.id, p))
        rc = 1
        viol += 1
cov = {
    "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"], "rule": c["rule"], "samples": s["samples"],
    "nontrivial": s["nontrivial"], "discarded": s["discarded"], "per_check": s["per_check"], "labels": s["labels"],
    "time_capped": s["capped"], "unconfirmed_failures": s["unconfirmed"], "known_findings": s["known"], "build_s": round(tb, 1),
}
if s["violation"]:
    cov["violation"] = s["violation"]
ev = {"property": a.id, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
      "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": viol}
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
tmpf = os.path.join(V, "evidence", a.id + ".json.tmp")
json.dump(ev, open(tmpf, "w"), indent=1)
os.replace(tmpf, os.path.join(V, "evidence", a.id + ".json"))
print("%s %s: built in %.1f s, total %.1f s, exit %d" % (a.id, tier, tb, time.time() - t0, rc))
sys.exit(rc)
