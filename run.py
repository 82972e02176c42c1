#!/usr/bin/env python3
"""Decide one property: build the library from /repo's working tree under the
explorer, enumerate all executions of the property's scenarios, write evidence.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--scenario NAME]
       run.py --setup
"""
import glob, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS, CONFORM

CC = ["gcc", "-g", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
      "-fcf-protection=none", "-fno-pie", "-fno-common", "-w"]
ENGINE = ["mc", "vk", "vt"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout))
        sys.exit(2)
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()


def engine():
    """compile the explorer; reused when its sources did not change"""
    src = sorted(glob.glob(HERE + "/mc/*.[ch]"))
    d = digest(src)
    out = BUILD + "/engine"
    os.makedirs(out, exist_ok=True)
    stamp = out + "/stamp"
    objs = [out + "/%s.o" % e for e in ENGINE]
    if not (os.path.exists(stamp) and open(stamp).read() == d and all(map(os.path.exists, objs))):
        ps = [subprocess.Popen(CC + ["-O2", "-c", HERE + "/mc/%s.c" % e, "-o", o])
              for e, o in zip(ENGINE, objs)]
        if any([p.wait() for p in ps]):
            sys.exit(2)
        open(stamp, "w").write(d)
    syms = sh(["nm", "-g", "--defined-only"] + objs)
    vk = sorted({l.split()[2][3:] for l in syms.splitlines()
                 if len(l.split()) == 3 and l.split()[2].startswith("vk_")})
    return objs, vk


def library(out, config, names):
    """the library of the working tree, as one object, libc calls renamed"""
    os.makedirs(out, exist_ok=True)
    src = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True) +
                 glob.glob(REPO + "/src/**/*.S", recursive=True))
    flags = ["-O2", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-I" + REPO + "/include", "-I" + REPO + "/src"]
    flags += CONFIGS[config]
    for f in glob.glob(out + "/*.o"):
        os.unlink(f)
    objs, ps = [], []
    for i, s in enumerate(src):
        o = "%s/%02d_%s.o" % (out, i, os.path.basename(s)[:-2])
        objs.append(o)
        ps.append((s, subprocess.Popen(CC + flags + ["-c", s, "-o", o], cwd=REPO,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        while sum(p.poll() is None for _, p in ps) >= 8:
            time.sleep(0.002)
    for s, p in ps:
        txt, _ = p.communicate()
        if p.returncode:
            sys.stderr.write("compiling %s failed\n%s\n" % (s, txt))
            sys.exit(2)
    lib = out + "/lib.o"
    sh(["ld", "-r", "-o", lib] + objs)
    und = {l.split()[-1] for l in sh(["nm", "-u", lib]).splitlines()}
    ren = out + "/rename"
    with open(ren, "w") as f:
        for n in names:
            if n in und:
                f.write("%s vk_%s\n" % (n, n))
            for w in ("__%s_chk" % n, "__%s" % n, "__libc_%s" % n):
                if w in und and w not in ("__errno_location",):
                    f.write("%s vk_%s\n" % (w, n))
    sh(["objcopy", "--redefine-syms=" + ren,
        "--rename-section", ".data=libdata",
        "--set-section-flags", ".bss=alloc,load,contents,data",
        "--rename-section", ".bss=libbss,alloc,load,contents,data", lib])
    return lib, und - set(names)


def build(prop, config, objs, names):
    c = CHECKS[prop]
    out = "%s/%s/%s" % (BUILD, prop, config)
    lib, rest = library(out, config, names)
    hobj = out + "/harness.o"
    sh(CC + ["-O1", "-Werror=implicit-function-declaration", "-D_GNU_SOURCE", "-DMC_CONFIG_" + config.upper(), "-I" + REPO + "/include",
             "-I" + HERE + "/mc", "-I" + HERE + "/harness",
             "-c", HERE + "/harness/" + c["harness"], "-o", hobj])
    exe = out + "/check"
    sh(["gcc", "-no-pie", "-o", exe, hobj, lib] + objs + ["-lpthread"])
    return exe


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        engine()
        print("setup done")
        return 0
    if a[0] == "--conform":
        a[0] = "V00"
        CHECKS["V00"] = CONFORM
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = scen = None
    only = None
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--replay":
            replay = a.pop(0)
        elif k == "--scenario":
            scen = a.pop(0)
        elif k == "--config":
            only = a.pop(0)
    c = CHECKS[prop]
    t0 = time.time()
    objs, names = engine()
    if replay:
        cfg = [l.split()[1] for l in open(replay) if l.startswith("config ")][0]
        exe = build(prop, cfg, objs, names)
        return subprocess.call([exe, "--replay", os.path.abspath(replay)])
    os.makedirs(HERE + "/replays", exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    for f in glob.glob(HERE + "/replays/%s-*.replay" % prop):
        os.unlink(f)
    jobs = min(16, max(1, len(os.sched_getaffinity(0))))
    res, rc, viol = [], 0, 0
    cap = 650 if tier == "quick" else 6 * 3600
    for cfg in c["configs"]:
        if only and cfg != only:
            continue
        exe = build(prop, cfg, objs, names)
        out = os.path.dirname(exe) + "/result.json"
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--tier", tier, "--out", out, "--jobs", str(jobs), "--config", cfg,
               "--replay-dir", HERE + "/replays",
               "--cap", "%.0f" % max(20, cap - (time.time() - t0))]
        if scen:
            cmd += ["--scenario", scen]
        r = subprocess.call(cmd)
        try:
            res.append(json.load(open(out)))
        except Exception as e:
            sys.stderr.write("no result from %s: %s\n" % (exe, e))
            return 2
        if r == 1:
            viol += 1
            rc = 1
            break
        if r:
            sys.stderr.write("check ended with code %d\n" % r)
            return 2
    evidence(prop, tier, seed, res, viol, time.time() - t0)
    return rc


def evidence(prop, tier, seed, res, viol, wall):
    sc, samples = [], []
    tot = dict(executions=0, transitions=0, states=0, validated=0)
    exhaustive = viol == 0
    for r in res:
        for s in r["scenarios"]:
            s = dict(s)
            sample = s.pop("sample", None)
            if sample and len(samples) < 4:
                samples.append({"config": r["config"], "scenario": s["name"], "history": sample})
            s["config"] = r["config"]
            sc.append(s)
            if s.get("capped"):
                exhaustive = False
            for k in ("executions", "transitions", "states"):
                tot[k] += s.get(k, 0)
    c = CHECKS[prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "samples": samples,
            "exhaustive": exhaustive,
            "rule": "every execution is a run of the compiled library itself, driven by one "
                    "choice sequence; states are distinct observable histories at choice points, "
                    "transitions are choices taken, traces are complete executions",
            "scenarios": sc,
        },
        "assumptions": c.get("assumptions", []) + [
            "system calls behave as the virtual kernel (mc/vk.c) does",
            "bounds of the scenarios as listed in DESIGN.md",
        ],
        "violations": viol, "wall_s": round(wall, 2),
    }
    tmp = HERE + "/evidence/%s.json.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % prop)
    print("%s: %d executions, %d states, %d transitions, %s, %.1f s" % (
        prop, tot["executions"], tot["states"], tot["transitions"],
        "exhaustive within bounds" if exhaustive else "NOT exhaustive", wall))


if __name__ == "__main__":
    sys.exit(main())
