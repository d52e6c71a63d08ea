#!/usr/bin/env python3
"""check.py ID                  the check of one property (VERIF_TIER, VERIF_SEED)
check.py replay FILE [--trace]  replays one simulated run
check.py setup                  builds every variant of the simulator

Exit 0: held in everything explored. Exit 1: "VIOLATION property=<id> replay=<path>".
Anything else: the check itself failed (build error, a violation that does not replay, ...).
"""
import glob
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
import props as P  # noqa: E402

WORKERS = min(8, os.cpu_count() or 8)
REPLAYS = os.path.join(VERIF, "replays")


def say(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


def binary(variant):
    try:
        return B.build(variant)
    except B.BuildError as e:
        raise CheckError("the tree does not build (%s):\n%s" % (variant, e))


def variant_of(path):
    with open(path, "rb") as f:
        for line in f:
            m = re.match(rb"variant (\w+)", line)
            if m:
                return m.group(1).decode()
    return "fast"


def run_replay(path, trace=False):
    """(violated, klass, hash, output)"""
    argv = [binary(variant_of(path)), "replay", path] + (["--trace"] if trace else [])
    r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    out = r.stdout.decode("utf-8", "replace")
    m = re.search(r"RESULT violation klass=(\S+) hash=(\w+)", out)
    if m:
        return True, m.group(1), m.group(2), out
    if "RESULT ok" in out or "RESULT skipped" in out:
        return False, "", "", out
    raise CheckError("replay of %s gave no result:\n%s" % (path, out[-2000:]))


def search(prop, variant, seed, deadline, max_fail, groups, tmp):
    exe = binary(variant)
    out = os.path.join(tmp, variant)
    os.makedirs(out)
    ps = []
    for i in range(WORKERS):
        ps.append(subprocess.Popen(
            [exe, "worker", "--prop", prop, "--seed", str(seed), "--from", str(i), "--step",
             str(WORKERS), "--groups", str(groups), "--deadline", str(deadline), "--out", out,
             "--max-fail", str(max_fail)],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in ps:
        try:
            _, err = p.communicate(timeout=deadline + 400)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise CheckError("a worker did not end in time")
        if p.returncode != 0:
            raise CheckError("a worker failed (%s): %s" % (p.returncode, err[-1000:]))
    tot, counters, hashes = {}, {}, set()
    for i in range(WORKERS):
        with open("%s/result.%d.json" % (out, i)) as f:
            d = json.load(f)
        for k, v in d.pop("counters").items():
            counters[k] = counters.get(k, 0) + v
        tot["wall"] = max(tot.get("wall", 0), d.pop("wall"))
        for k, v in d.items():
            tot[k] = tot.get(k, 0) + v
        with open("%s/hashes.%d" % (out, i), "rb") as f:
            raw = f.read()
        hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
    fails = []
    for f in sorted(glob.glob(out + "/fail.*.replay")):
        with open(f, "rb") as fh:
            head = fh.readline().decode("utf-8", "replace").strip()
        fails.append((head.removeprefix("# klass "), os.path.getsize(f), f))
    nondet = sorted(glob.glob(out + "/nondet.*.replay"))
    return dict(totals=tot, counters=counters, hashes=hashes, fails=fails, nondet=nondet)


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "-", s)[:60].strip("-")


def confirm(prop, fails, secs):
    """Minimises and replays failures. Returns confirmed [(klass, path)], and what did not replay."""
    os.makedirs(REPLAYS, exist_ok=True)
    by = {}
    for klass, size, f in fails:
        by.setdefault(klass, []).append((size, f))
    good, bad = [], []
    for klass, l in sorted(by.items(), key=lambda x: (x[0].startswith(("hang", "stall")), x[0])):
        slow = klass.startswith(("hang", "stall"))
        if len(good) >= 3 or (slow and good):
            break
        l.sort()
        done = False
        for size, f in l[:4]:
            exe = binary(variant_of(f))
            path = os.path.join(REPLAYS, "%s.%s.replay" % (prop, slug(klass)))
            if os.path.exists(path):
                os.unlink(path)
            try:
                subprocess.run([exe, "shrink", f, path, "--secs", str(secs)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 300)
            except subprocess.TimeoutExpired:
                pass
            for cand in (path, f):
                if not os.path.exists(cand):
                    continue
                a = run_replay(cand)
                b = a if slow else run_replay(cand)
                if a[0] and b[0] and a[1] == b[1] and (a[2] == b[2] or a[1][:4] in ("hang", "stal")):
                    if cand != path:
                        shutil.copy(cand, path)
                    good.append((a[1], path, a[3]))
                    done = True
                    break
            if done:
                break
        if not done:
            bad.append((klass, l[0][1]))
    return good, bad


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        for k in json.load(f)["known"]:
            if k["property"] == prop:
                out.append(k)
    return out


def check(prop):
    t0 = time.time()
    spec = P.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    say("simcheck property=%s tier=%s seed=%d workers=%d" % (prop, tier, seed, WORKERS))
    budget = float(os.environ.get("SIMCHECK_SECS") or spec.get(tier) or P.BUDGET[tier])
    shrink_secs = 15 if tier == "quick" else 120
    variants = spec.get("variants", {"fast": 1.0})
    for v in variants:
        binary(v)
    built = time.time() - t0
    say("built %s in %.1f s" % (",".join(variants), built))
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    violations = []
    unreplayable = []
    res = {}
    try:
        for k in known_findings(prop):
            got = run_replay(os.path.join(VERIF, k["replay"]))
            if got[0] and got[1] == k["klass"] and k["detail"] in got[3]:
                say("KNOWN-FINDING: property=%s %s (replay %s)" % (prop, k["what"], k["replay"]))
            elif got[0]:
                violations.append((got[1], os.path.join(VERIF, k["replay"]), got[3]))
        # the committed histories that once failed: they must hold now
        n_reg = 0
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", prop + ".*.replay"))):
            n_reg += 1
            got = run_replay(f)
            if got[0]:
                again = run_replay(f)
                if again[0] and again[1] == got[1]:
                    violations.append((got[1], f, got[3]))
        for v, share in variants.items():
            r = search(prop, v, seed, budget * share, 2, spec.get("groups", 10**9), tmp)
            res[v] = r
            t = r["totals"]
            say("%s: %d groups (%d schemas not accepted), %d runs, %d non-trivial, %d distinct "
                "histories, %d steps, %.1f s, %d runs done twice, %d differed, %d violations" % (
                    v, t["groups"], t["skipped_groups"], t["runs"], t["nontrivial"],
                    len(r["hashes"]), t["steps"], t["wall"], t["double_runs"],
                    t["double_mismatch"], t["failures"]))
            if r["fails"]:
                good, bad = confirm(prop, r["fails"], shrink_secs)
                violations += good
                unreplayable += bad
                if good:
                    break
            if r["nondet"]:
                raise CheckError("a run was not repeatable: %s" % save(r["nondet"][0], prop))
    finally:
        keep = [save(f, prop) for _, f in unreplayable]
        shutil.rmtree(tmp, ignore_errors=True)
    runs = sum(r["totals"]["runs"] for r in res.values())
    write_evidence(prop, spec, tier, seed, res, n_reg, len(violations), t0, built)
    for klass, path, out in violations:
        say("--- %s" % klass)
        say("\n".join(out.splitlines()[1:14])[:1800])
        say("replay with: python3 check.py replay %s" % path)
        say("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if unreplayable:
        raise CheckError("violations that do not replay: %s" % keep)
    if runs == 0:
        raise CheckError("no run was possible: no schema was accepted")
    say("OK property=%s runs=%d wall=%.1f s" % (prop, runs, time.time() - t0))
    return 0


def save(f, prop):
    os.makedirs(REPLAYS, exist_ok=True)
    to = os.path.join(REPLAYS, "%s.unconfirmed.%s" % (prop, os.path.basename(f)))
    shutil.copy(f, to)
    return to


def write_evidence(prop, spec, tier, seed, res, n_reg, n_viol, t0, built):
    tot, counters, hashes, per = {}, {}, set(), {}
    for v, r in res.items():
        t = r["totals"]
        per[v] = dict(runs=t["runs"], schemas_or_worlds=t["groups"], wall_s=round(t["wall"], 1),
                      runs_per_hour=int(t["runs"] / max(t["wall"], 0.1) * 3600),
                      worlds_per_hour=int(t["groups"] / max(t["wall"], 0.1) * 3600))
        for k, x in t.items():
            tot[k] = tot.get(k, 0) + x
        for k, x in r["counters"].items():
            counters[k] = counters.get(k, 0) + x
        hashes |= r["hashes"]
    exe = binary(next(iter(spec.get("variants", {"fast": 1}))))
    samples = []
    for g, e in ((0, 0), (1, 1), (2, 5)):
        o = subprocess.run([exe, "case", "--prop", prop, "--seed", str(seed), "--group", str(g),
                            "--episode", str(e)], stdout=subprocess.PIPE).stdout
        o = o.decode("utf-8", "replace")
        samples.append(o if len(o) < 3000 else o[:3000] + " ...(cut)")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=int(tot.get("runs", 0)),
            distinct_nontrivial=len(hashes),
            rule=spec["rule"] + " A run is one simulated execution in a process of its own; its "
                 "seed is derived from VERIF_SEED, the world's number and the run's number. "
                 "Distinct: by the hash of the recorded history (every delivery, call, result, "
                 "fault and returned event), counted over all workers; only runs that met the "
                 "non-triviality rule are counted.",
            samples=samples,
            simulated_worlds=int(tot.get("groups", 0)),
            worlds_not_accepted=int(tot.get("skipped_groups", 0)),
            nontrivial_runs=int(tot.get("nontrivial", 0)),
            simulated_steps=int(tot.get("steps", 0)),
            step_meaning="simulated time is counted in steps: one step is one call into the "
                         "simulated world (read, open, allocation decision, scheduling decision) "
                         "or one call into the library; the code under test has no clock",
            per_variant=per,
            faults_and_events={k: v for k, v in sorted(counters.items()) if v},
            double_runs=int(tot.get("double_runs", 0)),
            double_runs_that_differed=int(tot.get("double_mismatch", 0)),
            committed_histories_replayed=n_reg,
            real_components=spec["real"],
            stubbed_components=spec["stub"],
        ),
        assumptions=P.ASSUME + spec.get("assume", []),
        wall_s=round(time.time() - t0, 1),
        build_s=round(built, 1),
        violations=n_viol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def main():
    a = sys.argv[1:]
    try:
        if a == ["setup"]:
            for v in B.VARIANTS:
                t = time.time()
                binary(v)
                say("%s built in %.1f s" % (v, time.time() - t))
            return 0
        if len(a) >= 2 and a[0] == "replay":
            got = run_replay(a[1], "--trace" in a)
            say(got[3])
            return 1 if got[0] else 0
        if len(a) == 1 and a[0] in P.PROPS:
            return check(a[0])
    except CheckError as e:
        say("CHECK ERROR: %s" % e)
        return 2
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
