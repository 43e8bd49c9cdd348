#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors from /repo's working tree, drives them in
parallel workers, judges what they observed and writes evidence/<id>.json.

usage: check.py <property>      (environment: VERIF_SEED, VERIF_TIER=quick|thorough)
exit 0: held on everything explored; exit 1 with a VIOLATION line; exit 2: no verdict.
"""
import json
import os
import resource
import shlex
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = 8
AS_LIMIT = 5 << 30
CPU_ONE = 150  # seconds of processor time a single case may take; the slowest needs about 3


def die(msg):
    print("no verdict: " + msg)
    sys.exit(2)


# builds without a sanitizer
COMMON = ("checked", "release", "plain")
TARGET = "x86_64-unknown-linux-gnu"
SAN_OPTIONS = dict(
    ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=0",
    TSAN_OPTIONS="halt_on_error=1:abort_on_error=1",
)
SAN_REPORT = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "data race detected",
              "AddressSanitizer:DEADLYSIGNAL")


def variant(crate, v):
    """How a crate is built and started in one variant: cwd, extra environment, build command, command."""
    cwd = os.path.join(HERE, crate)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "MIRIFLAGS"):
        env.pop(k, None)
    common = ["--offline", "--quiet", "--locked"]
    if v in COMMON:
        return cwd, env, ["cargo", "build", *common, "--profile", v], [os.path.join(cwd, "target", v, crate)]
    target = os.path.join(cwd, "target", v)
    if v == "miri":
        # what is still held at the end is what static machines and parsers keep
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        cmd = ["cargo", "+nightly", "miri", "run", *common, "--target-dir", target, "--bin", crate, "--"]
        return cwd, env, cmd + ["case", "none"], cmd
    kind = {"asan": "address", "tsan": "thread"}[v]
    env["RUSTFLAGS"] = f"-Zsanitizer={kind}"
    env.update(SAN_OPTIONS)
    std = ["-Zbuild-std"] if v == "tsan" else []
    return (cwd, env,
            ["cargo", "+nightly", "build", *common, *std, "--target", TARGET, "--target-dir", target, "--profile", "checked",
             "--bin", crate],
            [os.path.join(target, TARGET, "checked", crate)])


def build(fleet):
    """Builds all variants at once; returns their commands, those that cannot be had here, seconds."""
    t = time.time()
    ps, out, missing = [], {}, {}
    for crate, v in dict.fromkeys(fleet):
        cwd, env, cmd, run = variant(crate, v)
        ps.append((crate, v, cwd, env, run, subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                                                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for crate, v, cwd, env, run, p in ps:
        text = p.communicate()[0]
        # interpreted, the monitor is built by being run; it ends with 2 as there is no such property
        ok = p.returncode == 0 if v != "miri" else "unknown property" in text
        if not ok and v in COMMON:
            print(text[-4000:])
            die(f"{crate} does not build against /repo ({v})")
        if ok and v in ("asan", "tsan"):
            # whether it starts at all: some kernels do not give the sanitizers the addresses they need
            r = subprocess.run(run + ["case", "none"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            ok, text = "unknown property" in r.stdout, r.stdout
        if ok:
            out[crate, v] = (cwd, env, run)
        else:
            missing[crate, v] = text.strip()[-600:]
    return out, missing, time.time() - t


def limits(v="checked", cpu=None):
    def f():
        os.setsid()
        if v in COMMON:
            resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def one(how, v, prop, index):
    """Runs a single case in a process of its own: (exit code or -signal, output)."""
    cwd, env, run = how
    cmd = run + ["case", prop, "--seed", str(SEED), "--tier", TIER, "--index", str(index)]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, preexec_fn=limits(v, CPU_ONE * (1 if v in COMMON else 4)), timeout=600,
                           errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, str(e.stdout or "")


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.wait()


def violation(prop, what):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join("replays", f"{prop}-{TIER}-{SEED}-{what.get('index', 'x')}.json")
    what = dict(property=prop, seed=SEED, tier=TIER, **what)
    if "index" in what:
        cwd, env, _, run = variant(what["crate"], what["variant"])
        sets = " ".join(f"{k}={shlex.quote(env[k])}" for k in ("MIRIFLAGS", *SAN_OPTIONS) if k in env and env[k] != os.environ.get(k))
        what["replay_cmd"] = (f"cd {cwd} && {sets} {shlex.join(run)} case {prop} --seed {SEED} --tier {TIER} "
                              f"--index {what['index']}   # after check.py built it")
    with open(os.path.join(HERE, path), "w") as f:
        json.dump(what, f, indent=1)
    for k, v in what.get("what", {}).items():
        print(f"  {k}: {v}"[:1500])
    print(f"  {what['message']}"[:3000])
    print(f"VIOLATION property={prop} replay={path}")
    return path


def known_lines(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("KNOWN ") and f" property={prop} " in line:
                out.append(line)
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        die("unknown property; known: " + " ".join(PLAN))
    prop = sys.argv[1]
    plan = PLAN[prop]
    t0 = time.time()
    fleet = plan.get("fleet") or [(plan["crate"], "release" if w % 4 == 3 else "checked") for w in range(WORKERS)]
    ev_path = os.path.join(HERE, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    bins, missing, built = build(fleet)
    fleet = [f for f in fleet if f in bins]
    work = os.path.join(HERE, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)

    # listed findings: each witness must still fail the way it is listed
    findings = []
    for line in known_lines(prop):
        name = [w[3:] for w in line.split() if w.startswith("id=")][0]
        cwd, env, run = next(bins[f] for f in fleet if f[1] == "checked")
        r = subprocess.run(run + ["known", prop, "--name", name], cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, preexec_fn=limits(cpu=CPU_ONE), errors="replace")
        if r.returncode == 0:
            findings.append(name)
            print(f"KNOWN-FINDING: property={prop} {r.stdout.strip().splitlines()[-1]}")
        else:
            print(f"listed finding {name} does not show: {r.stdout.strip()[-300:]}")

    cases = plan[TIER]["cases"]
    secs = plan[TIER]["secs"]
    procs = []
    of_crate = {c: [i for i, f in enumerate(fleet) if f[0] == c] for c, _ in fleet}
    for w, (crate, v) in enumerate(fleet):
        cwd, env, run = bins[crate, v]
        out = os.path.join(work, f"{w}.json")
        mine = of_crate[crate]
        cmd = run + ["run", prop, "--seed", str(SEED), "--tier", TIER, "--start", str(mine.index(w)),
                     "--stride", str(len(mine)), "--cases", str(cases), "--secs", str(secs), "--out", out]
        log = open(out + ".log", "w")
        procs.append((w, crate, v, out, subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                                         preexec_fn=limits(v))))
    deadline = time.time() + secs + CPU_ONE + 60
    for w, crate, v, out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            stop(p)

    merged, bad, harness, distinct, samples, trouble, per = {}, [], [], set(), [], [], {}
    lost = False
    for w, crate, v, out, p in procs:
        if p.returncode == 0 and os.path.exists(out):
            d = json.load(open(out))
            for k, n in d["counters"].items():
                merged[k] = max(merged.get(k, 0), n) if k.startswith("max_") else merged.get(k, 0) + n
            per[f"{crate} {v}"] = per.get(f"{crate} {v}", 0) + d["counters"].get("cases", 0)
            bad += [dict(x, crate=crate, variant=v) for x in d["violations"]]
            harness += d["harness"]
            distinct.update(d["distinct"])
            samples += d["samples"][:1]
            continue
        # the worker died or hung: look at the case it was in
        said = open(out + ".log", errors="replace").read()
        try:
            index = int(open(out + ".progress").read().split()[0])
        except (OSError, ValueError, IndexError):
            trouble.append(f"worker {w} ({crate} {v}) ended with {p.returncode} before its first case: " + said[-500:])
            continue
        merged["evaluations"] = merged.get("evaluations", 0) + 1
        report = [i for i in (said.find(r) for r in SAN_REPORT) if i >= 0]
        if v in ("asan", "tsan", "miri") and report:
            i = min(report)
            bad.append(dict(index=index, crate=crate, variant=v, message=said[i:].splitlines()[0],
                            what={"report": said[max(0, i - 100):i + 2500]}))
            continue
        if p.returncode == -9 and v not in COMMON:
            # stopped by this script: no clock is a judge of what runs instrumented
            merged["cases_not_finished"] = merged.get("cases_not_finished", 0) + 1
            continue
        if lost:
            # one case that ends so, alone, is enough; the others would need as long again
            continue
        code, text = one(bins[crate, v], v, prop, index)
        lines = text.strip().splitlines()
        tail = "\n".join(lines[-12:])
        if code == 1 and lines and lines[-1].startswith("violated: "):
            bad.append(dict(index=index, crate=crate, variant=v, message=lines[-1], what={"case": tail}))
        elif code is not None and code < 0 or code == 134:
            if -code in (24, 9):
                if v not in COMMON:
                    merged["cases_not_finished"] = merged.get("cases_not_finished", 0) + 1
                    continue
                m = f"the case needs more than {CPU_ONE} s of processor time: does not terminate"
            else:
                m = f"the process ends by signal {-code} (memory, stack or abort)"
            bad.append(dict(index=index, crate=crate, variant=v, message=m, what={"case": tail[-1500:]}))
            lost = True
        elif code == 1 and any(r in text for r in SAN_REPORT):
            i = min(i for i in (text.find(r) for r in SAN_REPORT) if i >= 0)
            bad.append(dict(index=index, crate=crate, variant=v, message=text[i:].splitlines()[0], what={"report": text[i:i + 2500]}))
        else:
            trouble.append(f"worker {w} ({crate} {v}) ended with {p.returncode} in case {index}, which alone ends with {code}")

    subprocess.run(["rm", "-rf", work])
    if bad:
        bad.sort(key=lambda b: b["index"])
        b = bad[0]
        violation(prop, b)
    need = plan.get("need", [])
    evid = dict(
        property=prop, tier=TIER, seed=SEED, level="exploration",
        coverage=dict(
            evaluations=merged.get("evaluations", 0),
            distinct_nontrivial=len(distinct),
            rule=plan["rule"],
            samples=samples[:6],
            observed={k: v for k, v in sorted(merged.items()) if k != "evaluations"},
            known_findings_shown=findings,
            cases_per_variant=per,
            build_s=round(built, 1),
        ),
        assumptions=plan.get("assumptions", []) + [f"{c} {v} could not be built or started here: {why}"
                                                   for (c, v), why in missing.items()],
        wall_s=round(time.time() - t0, 1),
        violations=len(bad),
    )
    with open(ev_path, "w") as f:
        json.dump(evid, f, indent=1)
    short = ", ".join(f"{k}={v}" for k, v in sorted(merged.items()))
    print(f"{prop} {TIER} seed={SEED}: {len(distinct)} distinct non-trivial; {short}; {evid['wall_s']} s")
    if bad:
        sys.exit(1)
    if harness:
        die("the harness failed: " + json.dumps(harness[:2]))
    if trouble:
        die("; ".join(trouble))
    for k in need:
        if merged.get(k, 0) == 0:
            die(f"nothing observed of what the property is about: {k} = 0")
    if not distinct:
        die("nothing observed")
    print(f"{prop}: held on everything observed")



if __name__ == "__main__":
    main()
