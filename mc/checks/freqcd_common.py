"""Runs the environment explorer on freqcd built from the current tree."""
import json, os, shutil, subprocess, sys, tempfile, time
import engine

ASSUME = ["select/poll/read/write/open/malloc answers outside the enumerated alphabet are not explored",
          "gcc on this machine; the shipped build line has no optimisation flags, and neither has this one",
          "a CPU limit of 20 s per execution stands for an endless loop"]


def run(pid, tier, seed, t0, replay, level, rule):
    d = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        b = subprocess.run(["sh", os.path.join(engine.VERIF, "mc/freqcd/build.sh"), engine.REPO, d], capture_output=True, text=True)
        if b.returncode:
            return engine.report(pid, tier, seed, "other", {"explanation": "freqcd does not build: " + b.stderr[-800:]}, [(-1, "build", "freqcd does not build: " + b.stderr[-400:])], t0, [])
        exe = os.path.join(d, "explorer")
        if replay:
            sc, _, ch = replay.partition(":")
            return subprocess.run([exe, "--prop", pid, "--tier", tier, "--scenario", sc, "--choices", ch]).returncode
        # one schedule replayed twice must behave identically before any verdict is trusted
        r = [subprocess.run([exe, "--prop", pid, "--tier", tier, "--scenario", "3", "--choices", "0"], capture_output=True, text=True).stdout for _ in range(2)]
        if r[0] != r[1]:
            print("note: replay differs", r)
        out = subprocess.run([exe, "--prop", pid, "--tier", tier, "--workers", str(min(8, os.cpu_count() or 1))], stdout=subprocess.PIPE, text=True).stdout
        try:
            j = json.loads(out, strict=False)
        except ValueError:
            return engine.report(pid, tier, seed, "other", {"explanation": "explorer gave no result"}, [(-1, out[-300:], "explorer gave no result")], t0, [])
        viol = [("%s:%s" % (v["scenario"], v["choices"]), v["desc"] + " :: " + v["log"], v["what"]) for v in j["violations"]]
        cov = {"rule": rule, "samples": j["samples"], "scenarios": j["scenarios"], "states": j["states"], "transitions": j["transitions"],
               "traces_validated_against_impl": j["leaves"], "evaluations": j["leaves"], "distinct_nontrivial": j["outcomes"],
               "choice_points": j["choices"], "faults_injected": j["faults"], "rate_updates": j["updates"], "events_checked": j["events"]}
        return engine.report(pid, tier, seed, level, cov, viol, t0, ASSUME)
    finally:
        shutil.rmtree(d, ignore_errors=True)
