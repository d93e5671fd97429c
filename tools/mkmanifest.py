#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
T = {
 "C01": (MON + "conservation oracle over event records and yields files", "every event of a randomised workload over all reactions, energies (thresholds included), windows and level files; single-fragment sampling for volume"),
 "C02": (MON + "energy-balance oracle at scission with independently read mass tables", "every sampled pair; tolerance set by the printed constants of the code (1e-6 MeV, neutron constants)"),
 "C03": (MON + "energy ledger over the per-transition trace of the cascade", "uses the CGMF_MONITOR hook; falls back to public energies on level files without conversion"),
 "C04": (MON + "vector momentum ledger over event records", "events at all energies including up to three pre-fission neutrons"),
 "C05": (MON + "re-computation of every boost from the reported momenta", "events and single-fragment decays at extreme velocities"),
 "C06": (MON + "well-formedness assertions on every getter and out-of-range probe", "hostile random numbers and particle-rich decays included"),
 "C07": (MON + "differential replay of events after other call histories, bit for bit", "shuffled, interleaved and split histories, processes and interfaces"),
 "C08": (MON + "timing trace checker and lifetime statistics", "KS/z tests at p<1e-7 plus exact order and window assertions"),
 "C09": (MON + "trace checker of cascade transitions against the level file", "every transition; branching and conversion tested at p<1e-7"),
 "C10": (MON + "distribution monitor of sampled pairs against an independent model", "chi-square/KS/z tests at p<1e-7 and exact comparison of yield tables"),
 "C11": (MON + "pre-fission neutron monitor with independent multi-chance model", "statistics at p<1e-7 and exact threshold assertions"),
 "C12": (MON + "probability-integral transform of sampled spins against the spin model", "tests at p<1e-7"),
 "C13": (MON + "angular-distribution monitor", "tests at p<1e-7 in every frame"),
 "C14": (MON + "event-by-event replay against recorded decays", "recorded decays on synthetic level files; rounding tolerance 1e-5"),
 "C15": (MON + "event-by-event replay against published and recorded runs", "published scission data, recorded events, averages"),
 "C16": (MON + "exit-status, diagnostic and output monitor over supported and unsupported requests, missing-file faults", "program and library, plain and sanitized"),
 "C17": ("AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over randomised workloads", "library and program; hostile random numbers, particle-rich decays and level files at the limits"),
 "C18": ("AddressSanitizer and LeakSanitizer over random object lifetimes, heap-growth monitor, link check of the public headers", "random create/destroy/clean-up sequences through both interfaces"),
 "C19": (MON + "differential comparison of C and C++ interface, value by value", "every declared C query, every index"),
 "C20": (MON + "comparison of written files and printed averages with the events generated", "history and yields files over reactions, windows, start numbers"),
 "C21": (MON + "comparison of toolkit accessors with an independent parser", "generated and program-written files, edge cases"),
 "C22": (MON + "comparison of toolkit statistics with definitions computed from the file", "generated and program-written files"),
 "C23": (MON + "comparison of served data with independently read data files", "every tabulated nucleus, random order of requests"),
 "C24": (MON + "kernel assertions against reference values and published formulas", "random arguments over the ranges used"),
 "C26": (MON + "re-computation of the excitation-energy sharing from the data files, pair by pair", "every sampled pair of every reaction; pairs whose iteration does not settle in 10 steps are counted, not judged"),
 "C25": (MON + "comparison of returned lines with the monitored decay trace", "random nuclei, energies and preceding calls"),
}
done = [c for c in sorted(T) if len(sys.argv) < 2 or c not in sys.argv[1].split(",")]
m = {"version": 1, "setup_cmd": "python3-vt checks/setup.py",
     "hooks": {"guard": "CGMF_MONITOR", "enable": "checks compile /repo/libcgmf with -DCGMF_MONITOR into /verif/build", "source_commits": ["78db676"]},
     "checks": [{"property": c, "quick_cmd": "python3-vt checks/run.py %s quick" % c, "thorough_cmd": "python3-vt checks/run.py %s thorough" % c, "technique": T[c][0], "level": "exploration", "level_note": T[c][1], "evidence_file": "evidence/%s.json" % c} for c in done],
     "not_applicable": [{"property": c, "reason": "check under construction"} for c in sorted(T) if c not in done],
     "notes": "Every check rebuilds the sources of /repo's working tree into /verif/build (ignored by git)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
