"""Writes MANIFEST.json from the check modules present."""
import importlib
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "py"), os.path.join(R, "py", "checks")]
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults of the real program on a simulated MPI, file system, clock and allocator"
TRUST = "Trusts the simulated MPI (MPI-3 semantics in a seeded discrete-event server), gcc, and the Exodus/netCDF, Tpetra and Kokkos libraries as installed."
NOTES = {
    "P01": "Searches decompositions, schedules and stalls for outputs that differ from the one-rank run and from an independent small reference model. Finds violations, does not prove their absence; tolerance is a multiple of the rounding error of the summation order.",
    "P02": "Bitwise comparison of outputs across schedules of the same input, with buffers of unfinished transfers poisoned and the heap layout and contents perturbed.",
    "P03": "Bitwise comparison of all copies of a shared node at every output instant, over random decompositions, schedules and long runs.",
    "P04": "The real communicator objects of both backends on random sharing patterns, against a directly computed sum, under random schedules; simulator checks buffer reuse.",
    "P05": "Every simulated run is checked by the simulator for deadlock, livelock, unmatched messages, mismatched collectives, buffer reuse and leaked requests.",
    "P06": "One failure per run, at points drawn from (or evenly spread over) the operations of the fault-free run; a library error that Exodus/netCDF hides from its caller is excluded and counted.",
    "P07": "Process kills at file operations and communication steps; durability to the kernel only (no power failure).",
    "P08": "Second run in the directory of a killed, failed, different or longer run or over damaged files, compared with a run in a clean directory.",
    "P09": "Output times, counts and trajectory compared over frequencies, field lists and contact visualisation, under random schedules.",
    "P10": "Prescribed and initial motion evaluated independently for every node, rank and output instant, over random set overlaps, expressions and schedules.",
    "P11": "Mass, force, momentum and angular momentum of the distinct nodes at every output instant, including partial results of runs with a killed rank.",
    "P12": "Contact visualisation files and reported totals compared with a brute-force skin of the undivided mesh, over random decompositions and schedules.",
    "P13": "The real messaging templates driven with random payloads under random schedules, against the values sent; simulator checks matching and buffer reuse.",
    "P14": "Missing, refused, failing and truncated input on one rank; truncation of the deck at a line boundary is excluded as it is undetectable.",
    "P15": "Jumps, drift, freezes and skew of every clock the program reads; outputs compared bitwise with an undisturbed run.",
    "P19": "The printed estimate and warning against an independent evaluation over the undivided mesh, for random meshes, positions, materials and requested steps, under random decompositions and schedules.",
    "P20": "One defect per deck, drawn from about fifty kinds at every place it can have, under random decompositions and schedules; the run must end, fail on the launcher and raise no memory fault. A defect outside these kinds is not explored.",
    "P21": "Live bytes, descriptors and communicators sampled during a short and a three to four times longer run; growth below 1 KB over the extra steps is not seen.",
    "P23": "The directory before and after the run compared byte for byte, over random names, rank counts, neighbouring files, one fault or kill per run; a file written and removed again within the run is not seen.",
    "P24": "The printed report parsed and compared with the input and, after kills and file faults at random points, with the output files of the printing rank; lines the parser does not know are not judged.",
    "P25": "The reference results, meshes and tolerances shipped under /repo/test are the oracle; examples of features this build lacks (contact enforcement, RVE, UQ) are left out; a tolerance tighter than 1e-8 of a field's largest value is relaxed to that.",
    "P22": "Results of a deck compared bitwise with those of an equivalent deck laid out at random, under short and interrupted reads of the deck.",
}
NA = {
    "P16": "The quasistatic integrator cannot run in this build: both vector backends it can be given throw on its first assembly before any step, so no schedule or fault can be explored.",
    "P17": "A pure function of its arguments: no schedule, time, I/O or second party for the value to depend on, so simulation adds nothing over ordinary unit or property testing. The expressions the simulated runs of P10 draw are compared with an evaluator of our own.",
    "P18": "A pure function of the deformation history at one point: nothing in it depends on scheduling, time, I/O or failures.",
}
checks, na = [], [{"property": k, "reason": v} for k, v in NA.items()]
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    if not os.path.exists(os.path.join(R, "py", "checks", p + ".py")):
        na.append({"property": p, "reason": "not claimed yet"})
        continue
    m = importlib.import_module(p)
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": m.LEVEL, "level_note": NOTES[p] + " " + TRUST})
doc = {"version": 1, "setup_cmd": "bash sim/build.sh",
       "hooks": {"guard": "none", "enable": "no hooks: the simulator takes the place of MPI, libc file, clock and allocation calls at link time, so /repo's sources are compiled as they are", "source_commits": []},
       "checks": checks, "not_applicable": na}
json.dump(doc, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
