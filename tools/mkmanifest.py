#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that have a check"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = "runtime monitoring: randomized execution with an independent numeric oracle"
NUMN = "Every function value observed in the runs is compared with an independent dual-number/rigid-body reference; tolerances are 1e-11 relative to the natural scale. Trusts numpy, CasADi evaluation and the reference; covers only the robots and states generated."
T = {
 "C01": (NUM, NUMN), "C02": (NUM, NUMN), "C03": (NUM, NUMN), "C04": (NUM, NUMN), "C05": (NUM, NUMN), "C06": (NUM, NUMN), "C07": (NUM, NUMN),
 "C08": (NUM, NUMN), "C09": (NUM, NUMN), "C10": (NUM, NUMN),
 "C11": ("runtime monitoring: conversions observed in model, class and file generator against the parallel-axis oracle", "Values observed after random sequences of sets, loads and saves are compared with the conversion computed independently."),
 "C12": ("runtime monitoring: differential execution of masked and fully numeric robots, state monitor over set/get histories", "Random symbolic masks and histories; trusts the numeric reference."),
 "C13": ("runtime monitoring: differential execution of model, generated class and saved functions", "Generated sources are compiled and every getter is called; covers the robots generated."),
 "C14": ("runtime monitoring: random call histories checked against a sequential specification", "A Python model of accepted inputs predicts each observation; fresh instances confirm values bit-exactly."),
 "C15": ("runtime monitoring: save/load round trips with bit-exact oracle and fault injection on files", "Round trips between the writers and readers over random robots and extreme values; damaged files are injected."),
 "C16": ("ThreadSanitizer plus value monitor under multi-threaded stress", "Data races and value deviations in the interleavings that occurred; not all interleavings."),
 "C17": ("AddressSanitizer, UndefinedBehaviorSanitizer, glibc allocator perturbation (and valgrind in the thorough tier)", "Memory errors on the executed paths; CasADi and yaml-cpp themselves are not instrumented."),
 "C18": ("fault injection on configuration files under AddressSanitizer/UBSan with an accept/reject oracle", "Each class of malformation is injected in random robots; acceptance, crash or a sanitizer report is a violation."),
 "C19": ("runtime monitoring: file-system monitor over command-line runs", "Snapshots of the directory trees before and after each run are compared with the contract; generated code is compiled and linked."),
 "C20": ("runtime monitoring: randomized execution against a numeric oracle", "Helpers and the conversion program are run on random inputs and compared with numpy."),
 "C22": (NUM, "All functions of the shipped robots and of variants are compared with the reference, model and generated class; long chains only in the model."),
 "C23": ("runtime monitoring: random orders of the building steps against a numeric oracle and a model of what each step adds", "Orders, parts and repetitions are drawn at random; values are compared with the numeric reference and the interface with the robot built in one call."),
 "C24": ("runtime monitoring: fault injection on every write operation (preloaded shim, obstacles, size limits) with a report oracle", "Every write operation that the undisturbed run makes is made to fail in several ways, one per run; what is reported is compared with what was written. Failing close() calls inside CasADi are not covered."),
 "C25": ("runtime monitoring: heap, open files and values observed over repeated random operations", "Growth over the rounds that were run; leaks below 16 bytes per round or that need thousands of repetitions are out of reach in the quick tier."),
 "C21": ("runtime monitoring: random expressions and call histories against a symbolic-free oracle", "Expressions are evaluated independently from the values of the functions they are built from."),
}
have = sorted(f[:-3].upper() for f in os.listdir(V + "/harness/checks") if f.startswith("c") and f.endswith(".py"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python -c \"import numpy\" && g++ --version && test -d /repo/src/thunder/src",
         checks=[dict(property=p, quick_cmd="./run.py %s --tier quick" % p, thorough_cmd="./run.py %s --tier thorough" % p, technique=T[p][0],
                      level="exploration", level_note=T[p][1]) for p in props if p in have],
         not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in have],
         notes="Checks compile the library, the command line program and generated classes from /repo's working tree into a scratch directory; no hooks in /repo are used.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
