#!/usr/bin/env python3
"""Runs the check of one property: builds the monitor from /repo's working tree, runs it,
attributes crashes and deadlocks to cases, writes the evidence file.

  check.py PROP [quick|thorough]      exit 0 held, 1 violation (VIOLATION line), 2 no answer
  check.py --build-all                setup: builds every monitor
"""
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(ROOT, "h")
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"

# name -> (cargo features, default features, rustflags, extra cargo args, env)
VARIANTS = {
    "row": dict(features=[], default=True),
    "blas": dict(features=["blas"], default=True),
    "col": dict(features=["colm", "alloc64"], default=False),
    "disp": dict(features=["disp"], default=True),
    # the contraction plugin; the monitor defines the C functions of TBLIS itself
    "tblis": dict(features=["tblis"], default=True),
    "asan": dict(features=[], default=True, rustflags="-Zsanitizer=address --cfg vh_sanitizer", target=True,
                 dir="target-asan", env={"ASAN_OPTIONS": "detect_leaks=0"}),
    "tsan": dict(features=[], default=True, rustflags="-Zsanitizer=thread --cfg vh_sanitizer", target=True,
                 dir="target-tsan", extra=["-Zbuild-std"], env={"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1"}),
    # the interpreter: cases run as `cargo miri run`. The aliasing rules are left out (raw pointers are
    # made from shared slices throughout the rayon kernels), the rest of the checks is on
    "miri": dict(features=["rowm"], default=False, dir="target-miri", miri=True,
                 env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows "
                                   "-Zmiri-permissive-provenance", "VH_TINY": "1", "VH_WORKERS": "1"}),
}
# property -> list of (variant, binary, scale quick, scale thorough)
PLAN = json.load(open(os.path.join(ROOT, "plan.json")))


def env(variant):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
             RSTSR_DEV="1", LIBRARY_PATH="/usr/lib/x86_64-linux-gnu", HOME=e.get("HOME", "/root"), LANG="C.UTF-8")
    v = VARIANTS[variant]
    e["CARGO_TARGET_DIR"] = os.path.join(ROOT, v.get("dir", "target"))
    if v.get("rustflags"):
        e["RUSTFLAGS"] = v["rustflags"]
    if v.get("miri"):
        e["MIRI_SYSROOT"] = os.path.join(e["CARGO_TARGET_DIR"], "sysroot")
        e["XDG_CACHE_HOME"] = os.path.join(e["CARGO_TARGET_DIR"], "cache")
    e.update(v.get("env", {}))
    return e


def miri_cmd(b):
    v = VARIANTS["miri"]
    return ["cargo", "miri", "run", "--offline", "-q", "--bin", b, "--no-default-features",
            "--features", ",".join(v["features"]), "--"]


def build_miri(bins):
    t0 = time.time()
    e = env("miri")
    sysroot = e.pop("MIRI_SYSROOT")
    if not os.path.isdir(sysroot):
        p = subprocess.run(["cargo", "miri", "setup", "--offline", "--print-sysroot"], cwd=H, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        made = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
        if p.returncode != 0 or not os.path.isdir(made):
            print("cannot make the interpreter's standard library:", p.stdout[-3000:])
            return False
        os.makedirs(os.path.dirname(sysroot), exist_ok=True)
        os.symlink(made, sysroot)
    e["MIRI_SYSROOT"] = sysroot
    for b in bins:
        p = subprocess.run(miri_cmd(b) + ["--list"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            return False
    print(f"built miri {' '.join(bins)} in {time.time() - t0:.0f} s", flush=True)
    return True


def build(variant, bins):
    v = VARIANTS[variant]
    if v.get("miri"):
        return "" if build_miri(bins) else None
    cmd = ["cargo", "build", "--offline"]
    for b in bins:
        cmd += ["--bin", b]
    if not v["default"]:
        cmd.append("--no-default-features")
    if v["features"]:
        cmd += ["--features", ",".join(v["features"])]
    if v.get("target"):
        cmd += ["--target", TRIPLE]
    cmd += v.get("extra", [])
    t0 = time.time()
    p = subprocess.run(cmd, cwd=H, env=env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("\n".join(l for l in p.stdout.splitlines() if not l.startswith("warning"))[-6000:])
        return None
    d = os.path.join(ROOT, v.get("dir", "target"), *([TRIPLE] if v.get("target") else []), "debug")
    print(f"built {variant} {' '.join(bins)} in {time.time() - t0:.0f} s", flush=True)
    return d


def run_case(exe, e, spec, timeout=200):
    """Runs one case alone; returns (how it ended, output)."""
    try:
        p = subprocess.run(exe + ["--case", spec], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors="replace", text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o


def take(d, prop, binary, variant):
    if not VARIANTS[variant].get("miri"):
        path = os.path.join(OUT, prop, f"{binary}-{variant}")
        if os.path.exists(path):
            os.remove(path)
        shutil.copy2(os.path.join(d, binary), path)


def main(prop, tier):
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    parts, viol, inconclusive = [], 0, 0
    evp = os.path.join(EVID, prop + ".json")
    if os.path.exists(evp):
        os.remove(evp)
    groups, built = {}, {}
    for step in PLAN[prop]["steps"]:
        if not step.get("optional"):
            groups.setdefault(step["variant"], set()).add(step["bin"])
    # variants share target directories and file names there, so each one's programs are taken out
    # before the next variant is built
    for v, bins in groups.items():
        built[v] = build(v, sorted(bins))
        if built[v]:
            for b in sorted(bins):
                take(built[v], prop, b, v)
    for k, step in enumerate(PLAN[prop]["steps"]):
        variant, binary = step["variant"], step["bin"]
        d = build(variant, [binary]) if step.get("optional") else built[variant]
        if d is None:
            if step.get("optional"):
                print(f"{prop}: {binary} does not build against this tree; what it looks for cannot be written any more")
                continue
            print(f"{prop}: the monitor does not build against this tree")
            return 2
        if variant == "miri":
            exe = miri_cmd(binary)
        else:
            if step.get("optional"):
                take(d, prop, binary, variant)
            exe = [os.path.join(OUT, prop, f"{binary}-{variant}")]
        limit = step.get("limit_" + tier, 600 if tier == "quick" else 7200)
        runs = []
        for n in range(step.get("procs", 1)):
            name = variant + (f"-{n}" if n else "")
            e = env(variant)
            s = str(int(seed) * 1000 + n) if n else seed
            e.update(VERIF_SEED=s, VERIF_TIER=tier, VERIF_ROOT=ROOT, VH_VARIANT="-" + name,
                     VH_EVIDENCE=os.path.join(OUT, prop, f"evidence-{k}-{n}.json"), VH_PROP=prop,
                     OMP_NUM_THREADS=str(step.get("omp", 2)))
            e.update({a: str(b) for a, b in step.get("env", {}).items()})
            e["VH_FEATS"] = {"blas": "rowm,blas", "col": "colm"}.get(variant, "rowm")
            e["VH_SCALE"] = str(step.get("scale_" + tier, 1.0))
            if "cap_" + tier in step:
                e["VH_CAP"] = str(step["cap_" + tier])
            log = os.path.join(OUT, prop, f"run-{k}-{n}.log")
            try:
                with open(log, "w") as f:
                    p = subprocess.Popen(exe, cwd=H, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            except OSError as x:
                print("cannot run:", x)
                return 2
            runs.append((name, s, e, log, p, os.path.join(OUT, prop, f"evidence-{k}-{n}.json")))
        end = time.time() + limit
        for name, s, e, log, p, evf in runs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            txt = open(log, errors="replace").read()
            sys.stdout.write(txt[-20000:])
            if txt and not txt.endswith("\n"):
                print()
            rc2 = rc if rc in (0, 1, 2) and os.path.exists(evf) else None
            if rc2 is not None:
                parts.append((step, json.load(open(evf))))
                viol += rc2 == 1
                inconclusive += rc2 == 2
                continue
            # died (signal, sanitizer report, abort), deadlocked (42) or overran
            slots = []
            try:
                for l in open(os.path.join(OUT, prop + "-" + name, "slots"), errors="replace"):
                    l = l.strip().strip("\0")
                    if l and l != "-":
                        slots.append(l)
            except OSError:
                pass
            what = {42: "deadlock: no thread made progress"}.get(rc, f"the process ended with {rc}")
            print(f"{prop}: {what}; cases in progress: {' '.join(slots)}")
            bad = None
            if rc != "timeout":
                for sl in slots:
                    r2, o2 = run_case(exe, e, sl)
                    if r2 not in (0, 3):
                        bad = (sl, r2, o2)
                        break
            rp = os.path.join(OUT, prop, f"replay-{name}-crash.txt")
            with open(rp, "w") as f:
                f.write(f"property {prop} variant {variant} seed {s} tier {tier}\n{what}\n")
                f.write(f"cases in progress: {slots}\n")
                if bad:
                    extra = " ".join(f"{a}={e[a]}" for a in ("VH_PROP", "VH_MEM", "VH_TINY", "MIRIFLAGS", "ASAN_OPTIONS",
                                                            "TSAN_OPTIONS", "MIRI_SYSROOT", "CARGO_TARGET_DIR") if a in e)
                    f.write(f"replay: VERIF_SEED={s} VERIF_TIER={tier} {extra} {' '.join(exe)} --case {bad[0]}\n"
                            f"ended {bad[1]}\n{bad[2][-8000:]}\n")
                f.write("--- log ---\n" + txt[-12000:])
            if rc == "timeout" and bad is None:
                print(f"{prop}: overran its limit of {limit} s, no answer")
                inconclusive += 1
            else:
                if bad:
                    print(f"  case {bad[0]} alone ends with {bad[1]}: {bad[2][-1500:]}")
                print(f"VIOLATION property={prop} replay={rp}")
                viol += 1
    # merge evidence
    if parts:
        ev = dict(parts[0][1])
        cov = ev["coverage"]
        for step, e2 in parts[1:]:
            c2 = e2["coverage"]
            for f in ("evaluations", "distinct_nontrivial", "cases", "cases_planned"):
                cov[f] += c2[f]
            for f in ("cases_by_family", "events_observed", "known_findings_hit"):
                for a, b in c2[f].items():
                    cov[f][a] = cov[f].get(a, 0) + b
            cov["samples"] += c2["samples"]
            ev["violations"] += e2["violations"]
        cov["builds"] = sorted({s["variant"] for s, _ in parts})
    else:
        ev = {"property": prop, "tier": tier, "seed": int(seed), "level": PLAN[prop].get("level", ""),
              "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []},
              "assumptions": [], "violations": 0}
    ev["tier"], ev["seed"] = tier, int(seed)
    ev["violations"] = max(ev["violations"], viol)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(evp, "w"), indent=1)
    if viol:
        return 1
    return 2 if inconclusive else 0


def build_all():
    groups, optional = {}, {}
    for p, v in PLAN.items():
        for s in v["steps"]:
            (optional if s.get("optional") else groups).setdefault(s["variant"], set()).add(s["bin"])
    rc = 0
    for v, bins in groups.items():
        if build(v, sorted(bins)) is None:
            rc = 1
    for v, bins in optional.items():
        for b in bins:
            build(v, [b])
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--build-all":
        sys.exit(build_all())
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(sys.argv[1], tier))
