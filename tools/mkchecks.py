#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json (what each check is, in words)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "The oracle in /verif/harness is written from the property, not from the code, and is trusted."
ENT = "Random mazes draw from an injected entropy source (a stand-in for the getrandom crate), one seed per case."
BUDGET = "Inputs whose reference search exceeds its node budget are not judged (counted as not_judged)."
DRAW = "The reference picture uses the same font file and the imageproc text rasteriser."
MEM = "A clean run of a memory checker covers the executions observed, not all executions."
C = {}


def add(p, technique, rule, note, *assume):
    C[p] = {"technique": technique, "rule": rule, "note": note, "assumptions": list(assume)}


add("S01", "reference-model monitor over generated workloads, crash and CPU-time watchdog",
    "Cases: blank and every single-clue puzzle, every clashing pair of cells in a unit (x value), then 17 random classes (minimal, many-solution, contradictory, nearly full, only some kinds of unit wrong, whole units left out, symmetric, known hard, ...) and solvable puzzles whose search meets very many dead ends, scrambled. Non-trivial: a distinct puzzle with at least one clue for which the answer was judged.",
    "Every returned grid on the observed puzzles is a complete valid sudoku that keeps the givens, and every call returned.", MODEL, BUDGET)
add("S02", "reference-model monitor: independent bitmask solver decides solvability of each generated puzzle",
    "Same workload as S01 with the solvability verdict of an independent solver as oracle. Non-trivial: a distinct puzzle with at least one clue.",
    "Grid returned exactly for the observed puzzles that the independent solver finds solvable.", MODEL, BUDGET)
add("S03", "monitor over malformed inputs",
    "Cases: lists of every length up to 199 other than 81 (blank and filled), 81 values with every value 10..=255 at every position, lists of whole rows and of 81 + 256k values up to past 65,536, well-formed puzzles with each of 256 values before or behind them, then random lengths and several faults at once; on solving and (sampled) drawing. Non-trivial: distinct malformed list.",
    "Each observed malformed list is refused with the right error.", MODEL)
add("S04", "reference-model monitor over an enumerated and random text space",
    "Cases: every Unicode scalar value at some position of an otherwise valid text, digit texts of every length up to 3,000 and of 7,660 lengths up to past 65,536, then random texts around length 81 with zero, one or more faults, multi-byte characters and digits of other scripts. Non-trivial: distinct text.",
    "Parser agrees with a three-line specification on every observed text.", MODEL)
add("S05", "pixel monitor against an independent reference drawing",
    "Cases: every digit in every cell alone, then random puzzles of varied density, near-repeats, uniform rows, columns, boxes and diagonals, and regular patterns. Non-trivial: distinct puzzle with at least one digit. All 810,000 pixels of each picture are compared.",
    "Each observed picture equals the reference drawing pixel by pixel.", MODEL, DRAW)
add("D01", "model-based history monitor on the hooked exact-cover structure (brute-force exact-cover model)",
    "Cases: all constraint systems over few rows with all preselection sequences, then random systems (dense, sparse, duplicate, empty, many-row), deep histories, and large systems (columns of 256 to 65,536 rows, up to 5,000 constraints, thousands of preselections, row numbers that agree in their low bytes) with a known solution; each preselection, refusal and final answer is compared with the model. Non-trivial: distinct history with at least one constraint.",
    "Acceptance, refusal and solving agree with the model in every observed history.", MODEL, "Private structure reached through cfg(verif_hooks).", BUDGET)
add("D02", "poisoning allocator + AddressSanitizer + Miri on the dancing-links structure and the sudoku solver",
    "Cases: random constraint systems and puzzles (contradictory, many-solution, dropped unsolved), run with freed and fresh memory poisoned, under AddressSanitizer, and smaller ones under Miri (tree borrows). Non-trivial: distinct history or puzzle.",
    "No fault, sanitizer report or undefined-behaviour report in any observed execution.", MEM, "Miri runs with tree borrows, the more permissive aliasing model.")
add("D03", "allocation-accounting monitor (live bytes and blocks before and after each call)",
    "Cases: every public call in success and error modes and exact-cover structures at every stage, also in threads that end, on larger inputs and through serialization; each is repeated, after a warm-up, and the heap must return to its level; in 24 marathons one operation is called thousands of times with ever-new inputs, and the heap must not keep growing. Non-trivial: distinct call and input.",
    "Live heap is back at its level after every observed call.", "Counts all memory from the Rust global allocator.", ENT)
for p, what, n in (("M01", "spanning-tree and border check", "perfect maze"), ("M02", "breadth-first distance check of the exit", "exit"),
                   ("M03", "walk replay of the solution", "solution walk"), ("M05", "ancestor check of every wall between neighbours", "depth-first tree")):
    add(p, f"invariant monitor on generated mazes ({what})",
        "Cases: every size up to 14x14 six times, strips of width or height 1-3 up to hundreds of cells, every size around a power of two or round number up to 530,000 cells, random sizes; each with its own random choices, partly on one thread in sequence. Non-trivial: distinct maze of more than one cell.",
        f"Every observed maze passes the {n} check.", ENT, MODEL)
add("M04", "statistical monitor: exact distribution of small mazes, step choices, two-sample tests, freshness across threads and processes",
    "Cases: for small sizes the frequency of every possible maze is compared with its exact depth-first probability (chi-square), for larger ones statistics against an independent generator, the expected number of times each direction, each position among the open neighbours and each repetition was chosen in single steps of the depth-first walk (29 million steps, also against the maze before), local shapes of large mazes in samples, and repetition checks over 70,000 successive mazes, threads and processes. Non-trivial: distinct maze drawn.",
    "No deviation beyond a score of 6.5 standard deviations (false-alarm probability below 1e-9 per test) in the observed draws.", "Entropy stand-in is uniform; freshness itself is observed with the real entropy path of rand's thread_rng seeded per thread.", MODEL)
add("M06", "pixel monitor against an independent reference drawing",
    "Cases: generated mazes and arbitrary cell grids of many sizes (those around powers of two up to 70,000 cells systematically), plus mismatching dimensions up to the integer limits, among them those whose product agrees in its low bits. Non-trivial: distinct grid.",
    "Each observed picture equals the reference; each mismatch is refused.", MODEL)
add("M07", "pixel monitor against an independent reference drawing",
    "Cases: generated mazes with their solutions, arbitrary paths inside, touching and leaving the picture, tiny pictures, long thin ones up to 2^16 pixels, walks to and fro of up to 140,000 steps. Non-trivial: distinct path and picture.",
    "Each observed picture differs from its input exactly by the specified red pixels; each bad path or picture is refused without a panic.", MODEL)
add("M08", "round-trip monitor through JSON and a binary format",
    "Cases: generated and arbitrary grids and paths written and read back, documents with other spacing, field order and escapes, read from text, readers and values, and a binary format; pictures before and after compared. Non-trivial: distinct grid.",
    "Every observed grid and path survives; the JSON form is the documented one.", "serde_json and bincode are trusted.")
add("M09", "resource monitor: 2 MiB stack, memory limit, CPU time per cell, structural checks",
    "Cases: squares, corridors and slabs up to a million cells and more on a 2 MiB thread stack. Non-trivial: distinct size and maze.",
    "Every observed large maze is completed, correct, and costs near-constant CPU time per cell.", ENT, "CPU time per cell is compared with smaller mazes in the same process, with a generous factor.")
add("U01", "model-based history monitor on the hooked disjoint-set structure",
    "Cases: every sequence of 4 unions on 4 elements (one index out of range), then random histories, and large ones (chains, stars, balanced halves, elements added between unions) on a quarter of an ordinary stack. Non-trivial: distinct sequence with at least one union.",
    "Every query in every observed history agrees with a relabelling model.", MODEL, "Private structure reached through cfg(verif_hooks).")
add("U02", "multiset-conservation and chi-square monitor on the hooked random choice",
    "Cases: lists of many lengths (up to 2.5 million) with duplicates, of several element types with and without destructors; removal conservation each time, frequency of every position (of long lists: of bins and residues) by chi-square, with 6 million draws from short lists. Non-trivial: distinct list and draw.",
    "Conservation on every observed draw; no position deviates beyond a score of 6.5.", "Private function reached through cfg(verif_hooks).", "Entropy stand-in is uniform.")
add("N01", "reference-model monitor: run-length check of every returned grid, crash and CPU-time watchdog",
    "Cases: rules of all grids up to 12 (16) squares, all rule combinations of small sizes, then random classes (ambiguous, symmetric, near-miss, long lines up to 1,065 squares, long chains of guesses, larger). Non-trivial: distinct puzzle with more than one square.",
    "Every returned grid on the observed puzzles satisfies all rules, and every call returned.", MODEL, BUDGET)
add("N02", "reference-model monitor: independent line-DP solver decides solvability",
    "Same workload as N01 with the verdict of an independent complete solver. Non-trivial: distinct puzzle with more than one square.",
    "Grid returned exactly for the observed puzzles that the independent solver finds solvable.", MODEL, BUDGET)
add("N03", "reference-model monitor with big-integer arithmetic",
    "Cases: generated rule texts: valid, with one or several faults, numbers at and above the integer limits, odd bounds, signs, spaces, Unicode, up to 70,000 rules or numbers. Non-trivial: distinct text and bound.",
    "Parser agrees with the specification on every observed text.", MODEL)
add("N04", "monitor over degenerate rules with a memory limit, crash and CPU-time watchdog",
    "Cases: no columns or rows, empty and zero rules, rules too long, numbers up to the integer limit, mixed into small puzzles. Non-trivial: distinct rule set.",
    "Each observed degenerate puzzle gets the specified answer within 3 GiB.", MODEL)
add("N05", "pixel monitor against an independent reference drawing",
    "Cases: rules of random grids, random rules, arbitrary numbers, numbers of three and four digits on lines of up to 1,100 squares, a grid of 65,792 squares, mismatching dimensions up to the integer limits. Non-trivial: distinct rules.",
    "Each observed picture equals the reference; lines whose rule does not fit at full size are left to N07.", MODEL, DRAW)
add("N06", "pixel monitor against the unsolved picture",
    "Cases: random and all-filled solutions on puzzle, blank and noise pictures, sizes around powers of two and line lengths past 1,000 systematically, a grid of 65,792 squares; mismatching sizes and dimensions up to the integer limits. Non-trivial: distinct solution and picture.",
    "Each observed solution picture differs from its input exactly in the filled squares; each mismatch is refused.", MODEL)
add("N07", "reading monitor: a line's ink is located and read back digit by digit",
    "Cases: for every line length up to 64 and some up to 1,203, rules of every count of numbers (all ones, widest numbers, random), as column and as row. Non-trivial: distinct rule and axis.",
    "Every observed rule lies inside its own margin band and reads back exactly.", "Digits are recognised by nearest shape over several sizes of the shipped font.")
add("P01", "round-trip monitor through an independent PNG decoder",
    "Cases: every small size, random sizes and contents (flat, gradient, noise, every exact number of colours around palette sizes, gray but for one pixel, equal lines), puzzle pictures, sides past 65,536 pixels, buffers longer than their picture, zero dimensions; chunk structure, CRCs, zlib checksum and pixels verified. Non-trivial: distinct image with more than one pixel.",
    "Every observed image decodes to itself and encodes repeatably.", "miniz_oxide inflates the data for the decoder; chunk and filter handling is the monitor's own.")
add("X01", "recorded concurrent histories against fresh-process results, ThreadSanitizer, deadlock detection",
    "Cases: per history a pool of related calls (among them inputs with equal weight, sums or reversed bytes, and calls that fail or panic in between); each expected result comes from a process that makes only that call; then shuffled on one thread and interleaved on up to 8 threads; every pair of the 13 quickest operations is hammered by 8 threads in tight loops; marathons of one operation repeated very often, very many different calls of one operation compared forward, backward, mixed and with their inputs in reused places; also under ThreadSanitizer. Non-trivial: distinct start order of concurrent calls.",
    "Every observed call gave its fresh-process result; no race report; no deadlock.", "ThreadSanitizer sees the executions observed.", MEM)
add("E01", "end-to-end monitor that reads the decoded PNG back",
    "Cases: typed sudokus and nonograms with solutions and generated mazes through the whole pipeline; digits, black squares or the red line are read from the decoded PNG alone and checked against the typed puzzle. Non-trivial: distinct puzzle or maze.",
    "Every observed pipeline ends in a picture that reads as a correct solution.", MODEL, ENT)

if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
    assert set(ids) == set(C), set(ids) ^ set(C)
    json.dump({i: {"rule": C[i]["rule"], "assumptions": C[i]["assumptions"]} for i in ids}, open(f"{V}/checks.json", "w"), indent=1)
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {
            "guard": "cfg(verif_hooks)",
            "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (run.py builds the harness with it for D01, D02, D03, U01, U02)",
            "source_commits": ["1ecb479", "e37c4d5"],
        },
        "checks": [
            {"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
             "technique": C[i]["technique"], "level": "exploration", "level_note": C[i]["note"] + " " + " ".join(C[i]["assumptions"])}
            for i in ids
        ],
        "not_applicable": [],
    }
    json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(ids), "checks")
