#!/usr/bin/env python3
# multi.py ID CONFIGFILE [engine options]: builds and runs scn/ID.cpp once per build configuration and merges the evidence.
# A configuration may name another scenario file ("scn"), scenarios of it ("only"), environment variables ("env") and a
# build directory it shares with others of the same flags ("dir").
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VERIF_ROOT", HERE)
ID, conf, args = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3:]
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build", ID))
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in args: tier = args[args.index("--tier") + 1]
only = None
if "--config" in args: i = args.index("--config"); only = args[i + 1].split(","); del args[i:i + 2]
t0 = time.time()

def binary(c): return os.path.join(BUILD, c.get("dir", c["name"]), c.get("scn", ID))
def environ(c):
    e = dict(os.environ)
    if "scn" in c: e.update(VERIF_ID=ID, VERIF_PART=c["name"])
    e.update(c.get("env", {})); return e

def build(c):
    d = os.path.join(BUILD, c.get("dir", c["name"]))
    os.makedirs(d, exist_ok=True)
    flags = ([] if "scn" in c and c["scn"] != "C22" else ['-DVERIF_CONFIG=\\"%s\\"' % c["name"]]) + c["flags"]
    p = subprocess.run([os.path.join(HERE, "build.sh"), d, c.get("scn", ID)] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

if "--replay" in args:
    f = args[args.index("--replay") + 1]
    name = next((l.split()[1] for l in open(f) if l.startswith("part ")), None) or next((l.split()[1].split(".")[0] for l in open(f) if l.startswith("scenario ")), None)
    c = next((c for c in conf["configs"] if c["name"] == name), None)
    if not c: sys.exit("no such configuration: %s" % name)
    rc, log = build(c)
    if rc: print(log[-3000:], file=sys.stderr); sys.exit(2)
    sys.exit(subprocess.run([binary(c), "--root", ROOT] + args, env=environ(c)).returncode)

sel = [c for c in conf["configs"] if (only is None or c["name"] in only) and (tier == "thorough" or not c.get("thorough_only"))]
first = {}
for c in sel: first.setdefault(c.get("dir", c["name"]), c)
with ThreadPoolExecutor(4) as ex:
    done = dict(zip([c["name"] for c in first.values()], ex.map(build, first.values())))
    rest = [c for c in sel if c["name"] not in done]
    done.update(zip([c["name"] for c in rest], ex.map(build, rest)))
res = [done[c["name"]] for c in sel]
if res and res[0][0]:
    print("check error: the library or the checker does not build", file=sys.stderr); print("\n".join([l for l in res[0][1].splitlines() if "rror" in l][:5]), file=sys.stderr); sys.exit(2)
rc = 0; parts = []; os.makedirs(os.path.join(ROOT, "out"), exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
for c, (brc, log) in zip(sel, res):
    if brc and (ID != "C22" or "-DVERIF_MORE" in c["flags"]): print(log[-2000:], file=sys.stderr); rc = 2; break
    if brc:  # the default configuration builds, this one does not
        p = os.path.join(ROOT, "out", "%s-%s-build.replay" % (ID, c["name"]))
        open(p, "w").write("configuration %s: %s does not compile\n%s" % (c["name"], " ".join(c["flags"]), log))
        print("the library does not compile with %s" % " ".join(c["flags"])); print("VIOLATION property=%s replay=%s" % (ID, p)); rc = 1; break
    os.makedirs(os.path.join(BUILD, c["name"]), exist_ok=True); ev = os.path.join(BUILD, c["name"], "evidence.json")
    if os.path.exists(ev): os.unlink(ev)
    scale = c.get("scale", 1)
    if tier == "thorough": scale *= c.get("thorough", 1)
    r = subprocess.run([binary(c), "--root", ROOT] + ([] if scale == 1 or "--scale" in args else ["--scale", str(scale)]) + (["--only", c["only"]] if "only" in c and "--only" not in args else []) + args, env=dict(environ(c), VERIF_EVIDENCE=ev)).returncode
    if os.path.exists(ev): parts.append((c, json.load(open(ev))))
    if r: rc = 1 if r == 1 else 2; break
if parts:
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", configurations={}, samples=[])
    for c, e in parts:
        k = e["coverage"]; cov["evaluations"] += k["evaluations"]; cov["distinct_nontrivial"] += k["distinct_nontrivial"]
        cov["configurations"][c["name"]] = dict(flags=" ".join(c["flags"]) or "(none)", evaluations=k["evaluations"], distinct_nontrivial=k["distinct_nontrivial"], scenarios=k["scenarios"], classification=k["classification"], thread_switches=k["thread_switches"])
        cov["samples"] += k["samples"][:6] if c is parts[0][0] else k["samples"][4:6]
        if not cov["rule"]: cov["rule"] = k["rule"].replace(c["name"] + ".", "") + "Cases of different configurations count separately: the configuration is part of the case."
    json.dump(dict(property=ID, tier=tier, seed=parts[0][1]["seed"], level="exploration", coverage=cov, assumptions=parts[0][1]["assumptions"], wall_s=round(time.time() - t0, 1), violations=1 if rc == 1 else 0), open(os.path.join(ROOT, "evidence", ID + ".json"), "w"), indent=1)
    print("%s %s: %d configurations, %d cases, %d distinct non-trivial, %.1fs" % (ID, tier, len(parts), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
sys.exit(rc)
