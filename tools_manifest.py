#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand after a change of the checks)"""
import json
import subprocess
T = {
    "C01": ("exactly-once checker over recorded histories (simulated + real schedules)", "position multiset of every execution"),
    "C02": ("index/identity monitor over recorded deliveries", "every delivered element carries its source position"),
    "C03": ("chunk contract monitor over recorded pulls", "begin, announced length, size_hint, yielded elements, partial and nested consumption of every chunk"),
    "C04": ("linearizability checker of histories against one sequential cursor", "real-time order, program order, gap-free prefix at quiescent points, lock-step model in one thread"),
    "C05": ("online/offline end-permanence monitor over histories", "no delivery and no positive length happens after an observed end"),
    "C06": ("skip permanence monitor over histories with concurrent skips", "no delivery or positive answer happens after a completed skip_to_end"),
    "C07": ("vector-clock race monitor in a deterministic scheduler; ThreadSanitizer; Miri (thorough)", "every use of the wrapped iterator and of element slots is ordered by happens-before"),
    "C08": ("element ledger (ownership monitor) over executions; AddressSanitizer and Miri (thorough)", "each element is created once, owned once, destroyed once"),
    "C09": ("bounded-progress monitor in logical steps with frozen threads", "every call returns within a step bound while others run; known-size sources even with frozen threads"),
    "C10": ("remainder checker over recorded histories", "into_seq_iter against the undelivered positions"),
    "C11": ("length/has_more monitor over histories", "queries against the cursor position; definitive No; non-increasing"),
    "C12": ("visit-once monitor of for_each/enumerate/fold under concurrent schedules", "visited multiset, reported indices, fold value"),
    "C13": ("adaptor monitors: all history oracles on cloned()/copied() plus lock-step twin", "same results as the underlying iterator, clones accounted for"),
    "C14": ("hostile client programs (admission by rustc observed) and run-time ownership ledger on sequences of safe calls", "programs which would move/share non-thread-safe values or outlive the source must not be admitted; no two owners at run time"),
    "C15": ("counting allocator and destructor ledger at quiescence", "all memory allocated for a program is released"),
    "C16": ("boundary workloads against a mathematical model, with and without overflow checks", "extreme ranges, lengths and chunk sizes against a u128 cursor"),
    "C17": ("transcript differential between debug and optimized builds, crash isolation", "identical observable results; no std precondition abort"),
    "C18": ("fault injection at every kind of user code with containment monitors", "panics in next, clone, closures: no hang, no corruption, the other threads continue"),
    "C19": ("source integrity and independence monitors", "addresses, contents and cursors of non-consuming iterators and their clones"),
}
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in l]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "orx_concurrent_iter_verif",
              "enable": "RUSTFLAGS='--cfg orx_concurrent_iter_verif --extern orx_verif_std=<rlib of /verif/shim>' (sim builds only; native, sanitizer and Miri builds use the crate with the guard off)",
              "source_commits": hook},
    "checks": [{"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough", "technique": "runtime monitoring: " + t, "level": "exploration",
                "level_note": f"Held on the executions of this run ({o}); bounded programs and schedules generated from VERIF_SEED; trusts the harness, its ledger and the scheduler facade."} for p, (t, o) in T.items()],
    "not_applicable": [],
    "notes": "python3 run.py replay FILE re-executes a reported violation. known_findings.txt lists the recorded and the repaired defects.",
}
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
