#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("gcc and clang AddressSanitizer+UBSan, valgrind memcheck, memory-contents differential (four fill patterns, -ftrivial-auto-var-init), guard zones, on random API programs",
         "Held on the programs that ran; red zones do not see overflow from one member of an object into the next, which is covered by the differential runs and the behavioural checks."),
 "C02": ("runtime monitors: interposed allocator, locks and static-init guards, syscall user dispatch trapping every system call, basic-block cost counter over long streams",
         "Held on the calls that ran, for every class and order of the registry; cost is counted in basic blocks."),
 "C03": ("ThreadSanitizer (gcc and clang) on multi-threaded agents, and a trace oracle: each agent's log must equal its solo run bit for bit, over random interleavings",
         "Held on the interleavings that were observed; the race detector does not need the race to manifest."),
 "C04": ("online reference monitor: difference equation in exact integer and in long double arithmetic next to the running filter", "Bit-exact where all intermediate values are representable, a rounding bound elsewhere."),
 "C05": ("differential history monitor: reset/re-tuned filter against a fresh/untouched twin, bit for bit", "Held on the histories that ran."),
 "C06": ("differential history monitor: re-used object against a new object after every setup of a random call sequence", "Held on the call sequences that ran."),
 "C07": ("history monitor with a model per object (its own history replayed on a fresh filter) over random copy/assign/destroy programs", "Held on the programs that ran."),
 "C08": ("oracle on recorded impulse responses: DFT of what filter() returned against response()", "Within rounding bounds, on the designs that ran."),
 "C09": ("oracle on query results: root residuals, counts, pairing, response rebuilt from roots, round trips", "Within rounding bounds, on the designs that ran."),
 "C10": ("monitors on coefficients, pole radii and long hostile streams (finite, bounded, decay at the pole's rate)", "Infinite streams are decided through the pole radius plus streams of up to millions of samples."),
 "C11": ("online comparison of the running filter's response and samples with the closed formula in long double", "Every class, template order (1-16, 24, 33, 50) and topology of the registry, random and extreme parameters."),
 "C12": ("online comparison of the running filter's response and samples with the closed formula in long double", "Every class, template order (1-16, 24, 33, 50) and topology of the registry, random and extreme parameters."),
 "C13": ("online comparison of the running filter's response and samples with the closed formula in long double", "Every class, template order (1-16, 24, 33, 50) and topology of the registry, random and extreme parameters."),
 "C14": ("online comparison of the running filter's response and samples with the closed formula (Butterworth) or the requested bands (Chebyshev)", "Chebyshev shelves with a ripple smaller than the gain; every class and template order."),
 "C15": ("online comparison of the running filter's complex response and samples with the bilinear transform of the analogue prototype in long double", "All eleven RBJ classes, all overloads."),
 "C16": ("outcome monitor on setup calls with generated invalid and valid arguments, with a NaN watch on the filter behind them", "Held on the argument vectors that were tried; six inputs are recorded as known findings."),
 "C17": ("differential history monitor: twin without the rejected calls, bit for bit", "Held on the histories that ran."),
 "C18": ("differential monitor over overloads, sampling rates, template orders, defaults and topologies", "Within rounding bounds."),
 "C19": ("trace comparison of the normal and the no-exceptions build of the same programs, abort() observed through SIGABRT and child exit status", "Held on the programs that ran."),
 "C20": ("online comparison of custom sections and cascades with the formula in long double under a rounding bound", "All registry sizes and topologies."),
 "C21": ("online comparison of read-back coefficients and filtered samples with the values that were set", "Within rounding bounds."),
 "C22": ("online comparison of the running filter's complex response and samples with the product over the prototype's poles and zeros in long double; round trip monitor of a stream through boost and cut", "Every class, template order and topology of the registry, random and extreme parameters."),
}
checks = []
for pid, (t, n) in T.items():
    checks.append({"property": pid, "quick_cmd": "bin/check %s --tier quick" % pid, "thorough_cmd": "bin/check %s --tier thorough" % pid,
                   "technique": t, "level": "exploration", "level_note": n + " Trusts the compiler, libm and the reference formulas in harness/."})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the monitors sit in /verif/harness and observe the library through its public interface, interposed libc entry points and sanitizers, so /repo has no guarded code. "
              "Known findings: known-findings.txt. Replay: bin/check ID --seed N --only RUN:PART:CASE (in the replay file)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
