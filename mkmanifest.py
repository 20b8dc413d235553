#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
G = ", then coverage-guided fuzzing (libFuzzer) with the same oracle"
MODEL = "differential property-based testing against an independent reference implementation (proptest), release and checked builds" + G
T = {
    "C01": MODEL, "C02": MODEL, "C04": MODEL, "C05": MODEL, "C06": MODEL, "C07": MODEL,
    "C03": "property-based testing of the relation sum(x) = lyra2(32, x, x, 1, 4, 4) (proptest)" + G,
    "C08": MODEL + ", stage called through a guarded hook",
    "C09": MODEL + ", stage called through a guarded hook",
    "C19": MODEL + ", stage called through a guarded hook",
    "C10": "metamorphic property-based testing over pairs of requests (proptest)" + G,
    "C11": "property-based testing of the output length (proptest)" + G,
    "C12": "property-based testing of refusals (proptest)" + G,
    "C13": "stateful property-based testing over call histories, mismatches confirmed in a fresh process (proptest)" + G,
    "C14": "property-based testing of concurrent call groups, native threads and randomly pre-empted Miri schedules",
    "C15": "property-based testing for panics, crashes and hangs, digests compared between checked and release builds" + G,
    "C16": "differential property-based testing between the host, a native 32-bit build (i686) and interpreted big-endian and 32-bit targets (Miri)",
    "C17": "generated calls under AddressSanitizer, MemorySanitizer, ThreadSanitizer, the standard library's checks and Miri",
    "C18": "property-based testing with a counting allocator" + G,
    "C20": "property-based testing in generated surroundings (environment, files, clock, ids, limits, threads), with effects trapped by seccomp",
    "C22": "property-based testing of impossible sizes, each call in a process of its own with limited memory (proptest)",
    "C21": "property-based testing of processor time against a linear estimate calibrated in the same process (proptest)",
}
N = {
    "C16": "Generated requests answered alike by the host and a native i686 build (160 thousand), and by s390x and powerpc under Miri (hundreds). Trusts Miri's model of byte order and pointer width; only requests small enough to interpret.",
    "C17": "No sanitizer or interpreter report on the generated calls; says nothing about calls not generated. Trusts the sanitizers.",
    "C14": "No wrong digest in the schedules that occurred (native) or were drawn at random (Miri); not all interleavings.",
    "C13": "No history-dependent answer in the generated histories; the reference model stands for the fresh process and every mismatch is confirmed against a real one.",
    "C10": "No related pair among the generated ones beyond the listed known finding.",
    "C20": "No digest changed and no effect seen in the generated surroundings. Trusts the preloaded stand-ins for clock, ids and host to cover what the code could ask the C library.",
    "C22": "None of the generated impossible requests returned a key or died of a memory error, in processes limited to 8 GiB.",
    "C21": "No generated request cost more than 15 times the linear estimate plus 4 ms of processor time, so a slow path below that factor, or one reached only by sizes not generated, is not seen.",
}
D = "No counterexample among the generated cases (counts and distribution in the evidence file). Trusts the harness and, where one is used, the reference model, which is checked against published vectors at the start of each run."
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "--cfg lyra2_verif (and one of lyra2_verif_cubehash, lyra2_verif_bmw, lyra2_verif_lyra2mod)",
        "enable": "RUSTFLAGS='--cfg lyra2_verif --cfg lyra2_verif_<stage>' when check.py builds the harness for C08, C09 and C19; the other checks build /repo without hooks",
        "source_commits": ["4fd153d802a21d1105d9668ae1e3ef657148090a", "8fc72f97d2d34fc77fc2d64f20f6027cef980b26"],
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": T[p["id"]],
            "level": "exploration",
            "level_note": N.get(p["id"], D),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "python3 check.py --replay FILE runs a replay file again. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
