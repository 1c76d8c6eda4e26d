#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
NA = {
 "N01": "Pure functions of their arguments: no time, I/O, randomness, history or second party that a simulator could schedule or fail. Input sampling alone would be property-based testing, not this technique.",
 "N02": "Pure conversions between constants: nothing to schedule, delay, crash or fail.",
 "N03": "Pure functions of one grid: nothing to schedule, delay, crash or fail. (Both are used and compared with a reference inside the claimed checks.)",
 "N04": "Pure comparisons of values: nothing to schedule, delay, crash or fail.",
}
T = {
 "G01": "simulated random sources with faults (stuck, cycling, low-entropy), every grid validated",
 "G02": "simulated random sources with faults, every puzzle checked against a reference solver",
 "G03": "simulated random sources with faults, every puzzle checked group by group",
 "G04": "simulated random sources over contradictory and ambiguous starts",
 "E01": "replay of operations under changed entropy, clock, thread, dispatch and history in the simulator",
 "E02": "panics injected at the draws of random sources, recovery compared with a clean run",
 "H01": "simulated random sources with faults, outcomes decided by reference equivalence search",
 "H02": "coverage and independence statistics over seeded simulated random sources",
 "K01": "seeded shuffle chains against a brute-force canonical form",
 "V01": "seeded search cut-offs under a memory quota against a reference counter",
 "T01": "seeded thread schedules (down to single atomic operations and accesses to statics, by instrumented compilation), re-entrant callbacks and stalled callers, outcomes compared with isolated runs",
 "S01": "seeded session histories and strategy schedules against reference solutions",
 "S02": "replay of the deduction log in a reference model over seeded histories",
 "S03": "seeded strategy schedules, progress checked in the final state by reference strategies",
 "S04": "seeded session histories compared step by step with a reference model",
 "S05": "abandon-and-restore at seeded points of session histories, compared with the uninterrupted session",
 "W01": "sinks failing at every write, output compared with a reference printer",
 "W02": "faulty transports (fragmenting, interrupting, failing, corrupting) against a reference decoder",
 "W03": "texts damaged in transit against reference readers",
 "C01": "the same seeded simulations executed by both build configurations, event logs compared",
}
def main():
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], capture_output=True, text=True).stdout.split()
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "cfg(sudoku_sim)", "enable": "rustflags = [\"--cfg\", \"sudoku_sim\"] in /verif/sim/.cargo/config.toml", "source_commits": hook},
         "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "See DESIGN.md. ./check.sh PROPERTY quick|thorough; /verif/target/release/sim replay FILE replays a violation."}
    for p, t in T.items():
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection: " + t,
            "level": "exploration",
            "level_note": "Seeded search over simulated runs; says nothing about runs not drawn. Trusts the reference models in sim/src and the completeness of the seams (arguments, rand, getrandom, clock, allocator, yield points)."})
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
main()
