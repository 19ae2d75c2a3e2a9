#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py C01 [--tier quick|thorough] [--seed N]
  check.py --replay replays/C01-seed1-case5.json
  check.py --build                       build everything once (setup)

Exit 0: held on everything explored. 1: violated (and a VIOLATION line). 2: no verdict.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
CORE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C18 C19 C22 C26 C27".split()
CLI = "C13 C14 C15 C20 C24 C25 C28".split()
IVL = "C16 C17".split()
HOST = "x86_64-unknown-linux-gnu"
LEVEL = {"C04": "fault_enumeration"}


class Inconclusive(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building


def stage_interval():
    """Copies the sources of the interval crate, without its plugin, which does not compile."""
    src = os.path.join(REPO, "plugins/interval/src")
    dst = os.path.join(BUILD, "stage/interval")
    want = {"Cargo.toml": open(os.path.join(ROOT, "harness/ivl/stage/interval.toml"), "rb").read()}
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.join("src", os.path.relpath(p, src))
            want[rel] = b"" if rel == "src/plugin.rs" else open(p, "rb").read()
    for d, _, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want and rel != "Cargo.lock":
                os.remove(os.path.join(d, f))
    for rel, data in want.items():
        p = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, "rb").read() != data:
            with open(p, "wb") as f:
                f.write(data)


def cargo(crate, target, extra=(), env=None, toolchain=None, sub="build", timeout=800):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + [sub] + list(extra)
    cmd += ["--offline", "--target-dir", os.path.join(BUILD, target)]
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness", crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        tail = r.stdout.decode(errors="replace")[-3000:]
        raise Inconclusive(f"the harness does not build against {REPO}:\n{tail}")


def build(crate):
    if crate == "ivl":
        stage_interval()
    cargo(crate, crate, ["--bins"])
    return os.path.join(BUILD, crate, "debug", "v" + crate)


# ---------------------------------------------------------------- running


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-run-")
        os.makedirs(os.path.join(self.path, "home"))
        os.makedirs(os.path.join(self.path, "tmp"))
        return self.path

    def __exit__(self, *a):
        # Directories a case made unwritable, if any, belong to us: root removes them all the same.
        shutil.rmtree(self.path, ignore_errors=True)


def run_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("XDG_", "GIT_", "RUST"))}
    e.update(HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"), VERIF_KNOWN=os.path.join(ROOT, "known_findings.txt"), RUST_BACKTRACE="0", LC_ALL="C.UTF-8")
    return e


def execute(cmd, scratch, timeout, env=None, out=None):
    """Runs a command in its own process group in the scratch directory; returns (rc, output)."""
    e = run_env(scratch)
    e.update(env or {})
    with open(out or os.path.join(scratch, "out"), "w+b") as f:
        p = subprocess.Popen(cmd, cwd=os.path.join(scratch, "tmp"), env=e, stdout=f, stderr=subprocess.DEVNULL if out is None else subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode(errors="replace")


def signal_name(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return str(rc)


def run_native(prop, crate, tier, seed, case=None):
    binary = build(crate)
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    replays = os.path.join(ROOT, "replays")
    if case is None and os.path.exists(evidence):
        os.remove(evidence)
    start = time.time()
    with Scratch() as scratch:
        journal = os.path.join(scratch, "journal")
        base = [binary, prop, "--tier", tier, "--seed", str(seed), "--replays", replays]
        limit = 620 if tier == "quick" else 4 * 3600
        if case is not None:
            rc, out = execute(base + ["--case", str(case)], scratch, limit)
        else:
            rc, out = execute(base + ["--journal", journal, "--evidence", evidence], scratch, limit)
        sys.stdout.write(out)
        if rc in (0, 1, 2):
            if case is None:
                finish_evidence(prop)
            return rc
        if rc is None:
            raise Inconclusive("the run took too long")
        if rc == -signal.SIGKILL:
            raise Inconclusive("the run was killed (out of memory?)")
        # The process died: find the case, and let it die again, alone.
        say(f"{prop}: the monitored process ended with {signal_name(rc)}")
        suspects = [case]
        if case is None:
            data = open(journal, "rb").read() if os.path.exists(journal) else b""
            slots = [int.from_bytes(data[i : i + 8], "little") for i in range(0, len(data), 8)]
            suspects = sorted(s - 1 for s in slots if s)
        for idx in suspects:
            for _ in range(3):
                rc2, out2 = execute(base + ["--case", str(idx)], scratch, 300)
                if rc2 is not None and rc2 < 0 and rc2 != -signal.SIGKILL:
                    os.makedirs(replays, exist_ok=True)
                    path = os.path.join(replays, f"{prop}-seed{seed}-case{idx}.json")
                    msg = f"the process is ended by {signal_name(rc2)} (abort, stack overflow or memory fault) while running the case"
                    with open(path, "w") as f:
                        json.dump({"property": prop, "tier": tier, "seed": seed, "case": idx, "message": msg, "witness": []}, f, indent=1)
                    if not os.path.exists(evidence):
                        write_evidence(prop, tier, seed, {"evaluations": idx + 1, "distinct_nontrivial": 0, "rule": "see the replay file: the run was cut short by the death of the process", "samples": [f"case {idx}: {msg}"]}, [], time.time() - start, 1)
                    say(f"{prop}: {msg}")
                    say(f"VIOLATION property={prop} replay={path}")
                    return 1
                if rc2 == 1:
                    sys.stdout.write(out2)
                    return 1
        raise Inconclusive(f"the process ended with {signal_name(rc)}, but no single case does so again")


def write_evidence(prop, tier, seed, coverage, assumptions, wall, violations):
    path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(
            {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations},
            f,
            indent=1,
        )
        f.write("\n")


def finish_evidence(prop):
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path) as f:
        e = json.load(f)
    e["level"] = LEVEL.get(prop, "exploration")
    with open(path, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


# ---------------------------------------------------------------- C23: Miri and sanitizers

# group: (quick cases, thorough cases, schedules per case, least and most work per case)
MIRI = {
    "sim": (70, 3000, 0, 12, 260),
    "tokens-c19": (16, 300, 0, 10, 300),
    "resources-c09": (10, 300, 0, 0, 300),
    "graphs-c10": (6, 200, 0, 0, 320),
    "handles-c11": (24, 500, 0, 8, 300),
    "lazy-c12": (24, 500, 0, 6, 300),
    "access-c22": (16, 300, 0, 0, 100),
    "schemas-c26": (16, 400, 0, 10, 200),
    "tangle-c03": (12, 400, 0, 40, 500),
    "targets-c08": (12, 400, 0, 10, 400),
    "chains-c26": (6, 200, 0, 0, 60),
    "succession-c26": (6, 200, 0, 0, 60),
    "making-c27": (6, 200, 0, 20, 250),
    "levels-c03": (4, 100, 0, 0, 60),
    "ladder-c07": (4, 100, 0, 0, 60),
    "fuse": (16, 500, 0, 40, 900),
    "sharing": (1, 1, 4, 0, 1000),
    "handles-threads-c11": (2, 6, 16, 0, 100),
    "lazy-threads-c12": (6, 40, 16, 0, 100),
    "lazy-threads3-c12": (4, 30, 16, 0, 100),
    "serial-c18": (6, 40, 16, 0, 100),
    "serial3-c18": (4, 30, 16, 0, 100),
    "apart-c26": (2, 20, 8, 0, 100),
    "access-threads-c22": (2, 6, 16, 0, 100),
}
ASAN = "C01 C03 C04 C05 C07 C08 C09 C10 C11 C12 C18 C19 C22 C26 C27 FUSE".split()
TSAN = "C11 C12 C18 C22 APART".split()

MIRI_FINDING = re.compile(r"error: (Undefined Behavior|memory leaked)[^\n]*")
SAN_FINDING = re.compile(r"(ERROR: AddressSanitizer: (?!stack-overflow)[^\n]*|ERROR: LeakSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*)")


def plan(binary, scratch, group, seed, want, lo, hi):
    n = max(60, want * 4)
    rc, out = execute([binary, "plan", group, str(seed), str(n)], scratch, 300)
    rows = [l.split() for l in out.splitlines()]
    rows = [(int(a), int(b)) for a, b in (r for r in rows if len(r) == 2)]
    return [i for i, c in rows if lo <= c <= hi][:want]


def run_c23(tier, seed, only=None):
    start = time.time()
    quick = tier == "quick"
    errors, findings, samples = [], [], []
    obs = {}
    lock = threading.Lock()

    def add(k, n=1):
        with lock:
            obs[k] = obs.get(k, 0) + n

    def build_step(name, f):
        try:
            f()
        except Inconclusive as e:
            with lock:
                errors.append((name, str(e)))

    def cargo_miri(group, seed, budget, cases, flags, timeout):
        e = dict(os.environ)
        e.pop("RUSTFLAGS", None)
        e["MIRIFLAGS"] = flags
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--target-dir", os.path.join(BUILD, "core-miri"), "--bin", "vmiri", "--", group, str(seed), str(budget)] + [str(c) for c in cases]
        p = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "harness/core"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return None, out.decode(errors="replace")

    def build_miri_checked():
        rc, out = cargo_miri("lazy-c12", seed, 1, [], "-Zmiri-disable-isolation", 850)
        if rc != 0:
            raise Inconclusive("the harness does not build for Miri:\n" + out[-3000:])

    def build_asan():
        cargo("core", "core-asan", ["--bin", "vcore", "--target", HOST], env={"RUSTFLAGS": "-Zsanitizer=address", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"}, toolchain="+nightly")

    def build_tsan():
        cargo("core", "core-tsan", ["-Zbuild-std", "--bin", "vcore", "--target", HOST], env={"RUSTFLAGS": "-Zsanitizer=thread", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"}, toolchain="+nightly")

    steps = [("native", lambda: build("core")), ("miri", build_miri_checked), ("asan", build_asan), ("tsan", build_tsan)]
    threads = [threading.Thread(target=build_step, args=s) for s in steps]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise Inconclusive("\n".join(f"{n}: {m}" for n, m in errors))
    built = time.time() - start
    evaluations, traces = 0, set()

    with Scratch() as scratch:
        native = os.path.join(BUILD, "core/debug/vmiri")

        def finding(tool, what, text, replay):
            with lock:
                findings.append({"tool": tool, "what": what, "output": text[-6000:].splitlines(), "replay": replay})

        def miri_job(group, cases, flags, seeds, timeout):
            nonlocal evaluations
            # A panic of foreign code in the middle of a map's bulk operation leaks in the standard library.
            if group == "fuse":
                flags += " -Zmiri-ignore-leaks"
            full = "-Zmiri-disable-isolation " + flags + (f" -Zmiri-many-seeds=0..{seeds}" if seeds else "")
            rc, out = cargo_miri(group, seed, 0 if seeds else (60 if quick else 1500), cases, full, timeout)
            done = [l.split() for l in out.splitlines() if l.startswith("DONE")]
            with lock:
                evaluations += len(done)
                traces.update((group, d[2], d[4]) for d in done if len(d) > 4)
                if done and len(samples) < 6:
                    samples.append(f"Miri ({full}): {' '.join(done[len(done) // 2])}")
            add("miri_runs", len(done))
            add("miri_events", sum(int(d[5]) for d in done if len(d) > 5 and d[5].isdigit()))
            add(f"miri_{group}", len(done))
            add("oracle_mismatches", sum(1 for d in done if len(d) > 3 and d[3] != "ok"))
            m = MIRI_FINDING.search(out)
            if m:
                finding("miri", m.group(0), out, {"group": group, "cases": cases, "flags": full})
            elif rc is None:
                add("miri_timeouts")
            elif rc != 0:
                add("miri_other_endings")
                with lock:
                    samples.append("Miri ended otherwise: " + out.strip()[-300:])

        def san_job(tool, prop, cap):
            nonlocal evaluations
            binary = os.path.join(BUILD, f"core-{tool}", HOST, "debug/vcore")
            opts = {
                "ASAN_OPTIONS": f"exitcode=99:detect_leaks={int(prop != 'FUSE')}:abort_on_error=0:detect_stack_use_after_return=1",
                "LSAN_OPTIONS": "exitcode=98:max_leaks=8",
                "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1:detect_deadlocks=0:report_signal_unsafe=0",
            }
            ev = os.path.join(scratch, f"{tool}-{prop}.json")
            rc, out = execute([binary, prop, "--tier", "thorough", "--seed", str(seed), "--sanitize", "--cap", str(cap), "--evidence", ev, "--replays", scratch], scratch, cap * 4 + 120, opts, out=os.path.join(scratch, f"{tool}-{prop}.out"))
            try:
                e = json.load(open(ev))["coverage"]
            except (OSError, ValueError):
                e = {"evaluations": 0, "distinct_traces": 0, "observed": {}}
            with lock:
                evaluations += e["evaluations"]
                for k in range(e["distinct_traces"]):
                    traces.add((tool, prop, k))
            add(f"{tool}_cases", e["evaluations"])
            add(f"{tool}_{prop}", e["evaluations"])
            add("oracle_mismatches", e["observed"].get("oracle_mismatches", 0))
            m = SAN_FINDING.search(out)
            if m:
                finding(tool, m.group(0), out, {"property": prop, "cap": cap})
            elif rc is None or rc not in (0, 1, 3):
                add(f"{tool}_other_endings")
                with lock:
                    samples.append(f"{tool} {prop} ended with {rc}: {out.strip()[-300:]}")

        jobs = []
        for group, (q, t, seeds, lo, hi) in MIRI.items():
            cases = plan(native, scratch, group, seed, q if quick else t, lo, hi)
            if seeds:
                for c in cases:
                    jobs.append((2, miri_job, (group, [c], "-Zmiri-preemption-rate=0.05", seeds if quick else seeds * 16, 120 if quick else 1800)))
            else:
                parts = 8 if group == "sim" else (2 if quick else 8)
                for k in range(parts):
                    mine = cases[k::parts]
                    if mine:
                        tb = "-Zmiri-tree-borrows" if k % 2 else ""
                        jobs.append((1, miri_job, (group, mine, tb, 0, 300 if quick else 3000)))
        cap = 4 if quick else 240
        for prop in ASAN:
            jobs.append((8, san_job, ("asan", prop, cap)))
        for prop in TSAN:
            jobs.append((8, san_job, ("tsan", prop, cap * 2)))

        # Jobs that use every core run one at a time, the others eight at once.
        def pool(js, width):
            it = iter(js)

            def worker():
                while True:
                    with lock:
                        j = next(it, None)
                        late = quick and time.time() - start > 420
                        if j is not None and (findings or late):
                            # The verdict is there, or the run is about to outlast its time.
                            obs["jobs_not_started"] = obs.get("jobs_not_started", 0) + 1
                            continue
                    if j is None:
                        return
                    begun = time.time()
                    try:
                        j[1](*j[2])
                        if os.environ.get("VERIF_TIMES"):
                            say(f"  {begun - start:6.1f} {time.time() - begun:6.1f} {j[2][0]} {j[2][1]}")
                    except Exception as e:  # noqa: BLE001
                        with lock:
                            errors.append((str(j[2]), repr(e)))

            ts = [threading.Thread(target=worker) for _ in range(width)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        pool([j for j in jobs if j[0] == 8], 1)
        pool([j for j in jobs if j[0] == 1], os.cpu_count() or 4)
        pool([j for j in jobs if j[0] == 2], max(1, (os.cpu_count() or 4) // 4))

    wall = time.time() - start
    obs["build_s"] = int(built)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(traces),
        "rule": "the workloads of C01, C03-C05, C07-C12, C18, C19, C22 and C26 (panics and faults included): small cases under Miri (stacked and tree borrows, leak check, races, several schedules per threaded case), large numbers of cases under AddressSanitizer with LeakSanitizer and, for the threaded ones, ThreadSanitizer with an instrumented standard library; distinct: event trace of the case",
        "observed": obs,
        "samples": samples or ["none"],
    }
    assume = ["Miri and the sanitizers report what they are documented to report", "the dependencies (tracing, anyhow) are run, not judged separately"]
    write_evidence("C23", tier, seed, coverage, assume, wall, len(findings))
    say(f"C23: {evaluations} runs, {len(traces)} distinct, {wall:.1f} s, observed {obs}")
    if findings:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"C23-seed{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": "C23", "tier": tier, "seed": seed, "findings": findings}, f, indent=1)
        say(f"C23: {findings[0]['tool']}: {findings[0]['what']}")
        say(f"VIOLATION property=C23 replay={path}")
        return 1
    if errors:
        raise Inconclusive("\n".join(f"{n}: {m}" for n, m in errors))
    for k, least in (("miri_runs", 60), ("asan_cases", 2000), ("tsan_cases", 1000)):
        if obs.get(k, 0) < least and not obs.get("oracle_mismatches"):
            raise Inconclusive(f"observed {k} = {obs.get(k, 0)} < {least}")
    return 0


# ---------------------------------------------------------------- main


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = replay = None
    case = None
    do_build = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--case":
            case = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--build":
            do_build = True
        else:
            prop = a
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        if do_build:
            for c in ("core", "cli", "ivl"):
                build(c)
            return 0
        if replay:
            with open(replay) as f:
                r = json.load(f)
            prop, tier, seed, case = r["property"], r["tier"], r["seed"], r.get("case")
        if prop in CORE:
            return run_native(prop, "core", tier, seed, case)
        if prop in CLI:
            return run_native(prop, "cli", tier, seed, case)
        if prop in IVL:
            return run_native(prop, "ivl", tier, seed, case)
        if prop == "C23":
            return run_c23(tier, seed)
        say(f"unknown property {prop}")
        return 2
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        say(f"{prop}: INCONCLUSIVE: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
