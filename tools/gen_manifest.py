#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SYM = "symbolic execution of the compiled crate with symbolic keys, Z3 deciding every comparison outcome"
BASE = "Bounded: within the scenarios listed in the evidence, every path is explored, for every assignment of keys; nothing is claimed for larger trees, longer histories or other node sizes. The crate runs as compiled (development build in full, release build on the cheaper scenarios); counterexamples are replayed natively before they are reported. Trusts rustc, Z3, std, and that a generic key is observable only through Ord. "
notes = {
 "P01": "Trees of up to 5 levels of 4-entry nodes (130 keys), 5-entry nodes, and 64-entry nodes up to 4097 keys; up to 7 free operations from empty or 2 to 3 after a chosen prestate.",
 "P02": "Prestates up to 68 keys of 4-entry nodes, every contiguous gap, every subset of up to 12; every removal order of up to 7 keys.",
 "P03": "Every action of a vacant and an occupied entry, on prestates whose nodes are full on every level.",
 "P04": "Every interleaving of front and back steps up to 14 entries; turning points and alternation up to 132 entries.",
 "P05": "All 9 bound-kind combinations with symbolic bounds; both directions, alternating and free interleavings.",
 "P06": "Distinctness of all references handed out by one mutable iterator is checked by address; aliasing-model (Stacked Borrows) questions are outside.",
 "P07": "Every interleaving up to 13 entries, every abandonment point up to 132 entries, exact remaining count at each step.",
 "P08": "Every entry count up to 260 (4-entry nodes), 200, 300 (64-entry nodes), and around 4096.",
 "P09": "Every relative order and overlap of two trees of up to 5 keys each, and up to 40 against 2; all eight forms.",
 "P10": "Ownership of every key and value instance and of every memory block is tracked on every path.",
 "P11": "18 kinds of operation on either copy, three pointer kinds.",
 "P12": "13 configurations (19 in the thorough tier) of node sizes 4 to 9, pointer kinds and element layouts.",
 "P13": "Hash equality is decided on the sequence of terms fed to the hasher.",
 "P15": "Inputs ascending under the given test; up to 6 elements each in every relation, 30 against 2.",
 "P16": "As P01, with insert_recursive and get_linear among the operations.",
 "P17": "One injected panic at any comparison, clone, destruction or source item of any one of 36 kinds of operation; single faults only.",
 "P21": "Clones are counted on every path: 17 kinds of change and 10 ways of looking, alone and between two trees that share, up to 66 keys; every size up to 70 (thorough 140).",
 "P18": "The first 3 to 10 comparisons of two operations answer arbitrarily, later ones consistently.",
}
checks = []
for i in [*range(1, 19), 20, 21]:
    p = "P%02d" % i
    if p == "P14":
        checks.append(dict(property=p, quick_cmd="./check P14 quick", thorough_cmd="./check P14 thorough",
            technique="bounded model checking of the real pointer code with Kani (CBMC, SAT)", level="model_checking",
            level_note="Every history of 2 to 3 (thorough 4) operations on at most 2 handles, every stored value, all three pointer kinds, the listed pointee layouts; unwinding assertions on, memory-leak check on. Single-threaded; allocation succeeds. Failures are replayed natively before they are reported."))
    elif p == "P20":
        checks.append(dict(property=p, quick_cmd="./check P20 quick", thorough_cmd="./check P20 thorough",
            technique="symbolic execution of the crate's LLVM IR over thread schedules, relaxed reads and symbolic keys (dynamic partial order reduction; Z3 decides key orders)", level="model_checking",
            level_note="Two and three threads, one or two operations each, on clones or on one shared tree of up to 6 keys (thorough: 22): every schedule up to the order of independent accesses, every value a relaxed load may see, every order of the keys. The compiler's IR of the crate and of Arc is executed, data races by vector clocks, memory errors by block and word. Allocator, key comparison and value clone and destruction are answered by the executor. The executor is compared with the machine code on every run; a counterexample is executed again with the solver's keys, and tried in real threads under Miri."))
    else:
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
            technique=SYM, level="model_checking", level_note=BASE + notes[p]))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="kani", enable="cargo kani sets cfg(kani) by itself; symx builds need no hook", source_commits=["793363e"]),
    checks=checks,
    not_applicable=[
        dict(property="P19", reason="A statement about which programs the type checker accepts: there is no execution and no input to make symbolic, so solver-based checking of the code's behaviour does not apply. (A defect found here by reading was repaired.)"),
    ],
    notes="symx/ is the symbolic execution engine and its scenarios, kani/ the harnesses of P14, threads/ the executor of P20; ./check P quick|thorough runs one property.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
