#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})

SUD = "src/board/sudoku.rs"; GEN = "src/generator.rs"; CAN = "src/board/canonicalization.rs"
SOL = "src/solver.rs"; SS = "src/strategy/solver.rs"; DED = "src/strategy/deduction.rs"

prop("G01", "Generated solved grids are valid for every random sequence",
 "Every solved grid produced by random generation, from the ambient or from a caller-supplied random source, is completely filled and contains each digit exactly once in every row, column and block, whatever numbers the source delivers. "
 "Generation never panics, and it ends after a bounded number of draws once the source stops delivering degenerate values.",
 ["inputs", "fault_sequences"],
 "All sequences of random numbers, including stuck, cycling, low-entropy and adversarial ones, for both random sources and for static and dynamic dispatch.",
 "generate_solved_sudoku_correctness looks at 10,000 grids of one healthy generator; the backtracking and contradiction paths depend on the numbers drawn and most are never taken.",
 [GEN, SUD], [("randomised solve with backtracking", GEN), ("first row permutation", GEN)],
 [("candidate masks", "what is still possible per cell and house", GEN)],
 ["Sudoku::generate_solved", "Sudoku::generate_solved_with_rng"])

prop("G02", "Generated puzzles keep the unique solution and are minimal",
 "For every uniquely solvable starting sudoku, every symmetry and every random sequence, the generated puzzle's clues are a subset of the starting sudoku's clues and its one and only solution is the starting sudoku's solution. "
 "It is minimal: for every set of cells that the symmetry ties together (a single cell without symmetry) and that still holds a clue, clearing that set would lose the uniqueness of the solution. "
 "Puzzles generated from scratch have exactly one solution and the same minimality.",
 ["inputs", "fault_sequences"],
 "All uniquely solvable starting sudokus (solved grids, puzzles with redundant clues, already minimal puzzles), all symmetries, all removal orders a random source can dictate.",
 "generate_sudoku_uniqueness checks uniqueness of 1,000 puzzles from healthy randomness; minimality, the subset relation, and starts other than solved grids are not tested at all.",
 [SUD, SOL], [("removal in random order with uniqueness test and backtrack", SUD), ("cells tied together by a symmetry", SUD)],
 [("visited cells", "removal groups already tried", SUD)],
 ["Sudoku::generate*", "Sudoku::generate_with_symmetry_and_rng_from"])

prop("G03", "Generated puzzles have the requested symmetry",
 "When the starting sudoku's filled cells already have the requested symmetry, as every solved grid's have, the filled cells of the generated puzzle are unchanged by every mirror and rotation which that symmetry stands for; in general, no generated puzzle holds a clue whose symmetric partners were removed by the generator. "
 "Puzzles generated without naming a symmetry have half-turn symmetry when made from scratch, and are produced cell by cell, exactly as without symmetry, when made from a given sudoku.",
 ["inputs", "fault_sequences"],
 "All symmetries, all starting sudokus, all random sequences, all entry points.",
 "The unit tests check the partner-cell table against itself; no test looks at the symmetry of a generated puzzle.",
 [SUD], [("partner cells per symmetry", SUD), ("visited set", SUD)], [],
 ["Sudoku::generate", "Sudoku::generate_with_symmetry", "Sudoku::generate_with_symmetry_from", "Sudoku::generate_from"])

prop("G04", "Generating from an invalid or ambiguous sudoku returns it unchanged",
 "Generating a puzzle from a starting sudoku that has no solution or more than one solution returns exactly that sudoku, for every symmetry, entry point and random sequence.",
 ["inputs", "fault_sequences"],
 "All starting sudokus that are contradictory (openly or only after search) or have several solutions, all symmetries, all removal orders.",
 "No test generates from such a sudoku; whether removing a clue repairs a contradiction depends on the clue and the removal order.",
 [SUD, SOL], [("uniqueness test before a removal is accepted", SUD)], [],
 ["Sudoku::generate_from", "Sudoku::generate_with_symmetry_from", "Sudoku::generate_with_symmetry_and_rng_from"])

prop("E01", "A caller-supplied random source is the only source of randomness",
 "Generation with a caller-supplied random source is determined by its arguments and by the numbers that source delivers: it does not depend on entropy, the clock or any other ambient input, so an equal source gives the identical result on any thread, through static or dynamic dispatch, and whatever was called before. "
 "Operations that are not random (solving, counting, canonicalising, strategy solving, parsing, printing) draw no random numbers and give equal results for equal arguments, whatever the clock and the system's entropy say, and the random operations without a source argument take all their numbers from the ambient generator.",
 ["inputs", "histories", "schedules"],
 "All arguments, all random sequences, all call histories and threads.",
 "No test fixes the random numbers, so none can notice a second, hidden source or a dependence on earlier calls.",
 [GEN, SUD, CAN], [("generic random source parameter", GEN), ("ambient generator only in the entry points without source", SUD)], [],
 ["draws counted at the source and at the ambient seams"], None)

prop("E02", "A failing random source leaves everything as it was",
 "When the random source panics at any draw, the panic reaches the caller, a sudoku that was being shuffled in place still has its previous content, and no other value is damaged. "
 "Every later call, including a retry of the same operation with a working source, behaves as if the failed call had never been made.",
 ["fault_sequences", "crash_points", "histories"],
 "All draws at which the source can fail, for every random operation, followed by arbitrary further calls.",
 "The tests never let a random source fail.",
 [CAN, GEN, SUD], [("all numbers are drawn before the sudoku is touched", CAN), ("values are taken and returned by copy", SUD)], [],
 ["Sudoku::shuffle", "Sudoku::generate*"])

prop("H01", "Shuffling always yields an equivalent sudoku",
 "For every sudoku, solved, partial, ambiguous or contradictory, and every random sequence, shuffling any number of times yields a sudoku that arises from the original by relabelling digits, permuting bands, stacks, rows within bands and columns within stacks, and possibly transposing. "
 "In particular the number of clues, the number of solutions and whether it is solved never change.",
 ["inputs", "fault_sequences", "histories"],
 "All sudokus, all random sequences, all chains of shuffles.",
 "shuffle_solved and shuffle_unsolved shuffle one fixed list and look only at solvedness and unique solvability; a shuffle that exchanged rows of different bands could only be seen there by luck, and never on ambiguous or sparse grids.",
 [CAN, SUD], [("random transformation", CAN), ("application order of its parts", CAN)], [],
 ["Sudoku::shuffle", "Sudoku::shuffled"])

prop("H02", "Random operations can reach every outcome",
 "Shuffling can produce every relabelling of digits, every arrangement of bands, stacks, rows within each band and columns within each stack, with and without transposition, and the choices do not depend on one another; none is grossly more or less likely than the others. "
 "Random generation can put every digit in every cell and every pair of digits in every pair of cells that the rules allow, can keep or clear every cell of a puzzle, and different random sequences give different results.",
 ["inputs", "fault_sequences"],
 "All outcomes that the documentation promises, over the random sequences of a healthy source.",
 "Reachability is a statement about the set of results over all random sequences; the tests look at single results.",
 [CAN, GEN, SUD], [("mixed-radix digit permutation", CAN), ("uniform choices for chutes and lines", CAN), ("first row permutation and random guesses", GEN), ("random removal order", SUD)], [],
 ["Sudoku::shuffle", "Sudoku::generate_solved_with_rng", "Sudoku::generate_with_symmetry_and_rng_from"])

prop("K01", "Canonical form and symmetry count survive every shuffle",
 "For every uniquely solvable sudoku, the canonical form of its solution is the lexicographically smallest grid equivalent to it, the reported number of automorphisms is the exact number of transformations that leave the solution unchanged, and the canonical puzzle is equivalent to the puzzle and has that smallest grid as its solution. "
 "Both stay the same along every chain of shuffles of a solved grid (for a puzzle: the solution of the canonical form and the count), and canonicalising twice changes nothing more for a solved grid. "
 "Sudokus without a unique solution yield no canonical form.",
 ["inputs", "histories", "fault_sequences"],
 "All uniquely solvable sudokus including those with many automorphisms, all shuffle chains under all random sequences, all ambiguous and contradictory sudokus.",
 "The tests compare some fixed grids and a few shuffles of them, and one automorphism count; minimality itself and the count on other symmetric grids are not checked.",
 [CAN, SUD], [("search for the minimal first band", CAN), ("sorting of the other bands", CAN), ("counting of equal minima", CAN)], [],
 ["Sudoku::canonicalized"])

prop("V01", "Cut-off solution search reports exactly the true solutions",
 "For every sudoku, every limit and every capacity of the result buffer, each search reports min(limit, number of solutions) as its count; the solutions it lists or stores are that many (up to the capacity), pairwise different, complete, valid and consistent with the clues, and nothing beyond the stored solutions is written. "
 "Asking for some solution succeeds exactly if there is one, asking for the unique solution succeeds exactly if there is exactly one, and both return a true solution. "
 "The answer does not depend on the limit being far larger than the number of solutions, nor does the memory used.",
 ["inputs", "crash_points", "fault_sequences"],
 "All sudokus (unique, ambiguous, contradictory, sparse, full), every point at which limit or capacity cuts the search off, under a memory quota.",
 "The tests solve fixed lists of proper puzzles with small limits; cut-off inside ambiguous searches, buffer overrun and contradictory grids are covered by a handful of cases.",
 [SOL, SUD], [("search with early stop", SOL), ("count, vector and buffer sinks", SOL), ("quick rejection by clue count", SUD)],
 [("possible cells per digit and band", "search state", SOL)],
 ["Sudoku::solution", "Sudoku::some_solution", "Sudoku::solutions_count_up_to", "Sudoku::solutions_up_to", "Sudoku::solutions_up_to_buffer", "Sudoku::is_uniquely_solvable"])

prop("T01", "Callers never influence one another",
 "The result of every operation is the same whether it runs alone in a fresh process, after any history of other operations (including failed and interrupted ones), interleaved in any way with operations of other threads, or called again from inside a random source or output sink the library itself is calling. "
 "A caller that is stalled inside such a callback never holds up the operations of others.",
 ["schedules", "histories", "fault_sequences"],
 "All sets of operations on up to four threads, all interleavings at the points where the library calls out, allocates or continues a search, all histories.",
 "The test suite runs each operation in one thread, once, and never compares with another order of execution.",
 ["src/lib.rs", GEN, SOL, SS, CAN, SUD], [("no shared or global mutable state", "src/lib.rs"), ("search state is copied per call", SOL)], [],
 ["all public operations"], "cfg(sudoku_sim): yield points inside the searches")

prop("S01", "Strategy solving is sound under every strategy schedule",
 "Whatever strategies are requested in whatever order, after whatever history of inserted digits and eliminated candidates, strategy solving never changes a given or inserted digit and never rules out or contradicts a solution that the starting state admits. "
 "It reports success exactly if the returned grid is complete and valid; on success that grid is a solution of the starting state, and for a starting state without solution success is never reported.",
 ["inputs", "histories", "schedules"],
 "All starting states (puzzles with one, several or no solution, with candidates removed), all histories of inserts and queries, all lists of the available strategies in any order and with repetition.",
 "The tests run one fixed strategy list on puzzles that are solved by it and compare solved grids; other orders, subsets, ambiguous states, partial results and histories are not reached.",
 [SS, "src/strategy/strategies", "src/strategy/utils.rs"], [("eager and batch propagation", SS), ("strategy implementations", "src/strategy/strategies"), ("lazy caches with update positions", SS)],
 [("candidate caches", "lazily updated views of one history", SS)],
 ["StrategySolver::solve", "StrategySolver::insert_candidate"])

prop("S02", "The deduction log replays and justifies every step",
 "Replaying the returned log of deductions from the starting state, every step is a correct application of the strategy it names in the state reached by the steps before it: its pattern is present, every digit it places or candidate it removes follows from that pattern, all its fields describe that pattern, and the strategy was among those requested. "
 "The placements of the log together with the starting digits give exactly the returned grid. "
 "Length, emptiness, indexing and iteration of the log agree with one another.",
 ["inputs", "histories", "schedules"],
 "All starting states, histories and strategy lists, every step of every log.",
 "No test replays a log; two tests look at one xy-wing and one xyz-wing.",
 [DED, SS, "src/strategy/strategies"], [("recording of deductions with ranges of eliminated candidates", SS), ("conversion into public form", DED), ("naming of the strategy", DED)],
 [("eliminated candidates", "shared list that deductions point into", SS)],
 ["Deductions::iter", "Deductions::get", "Deductions::len", "Deduction::strategy"])

prop("S03", "Strategy solving gives up only when stuck, in any strategy order",
 "When solving with two or more strategies ends without success on a consistent state, none of the requested single, locked-candidate, subset, basic-fish and xy/xyz-wing strategies could make any further progress in the state reached by the log. "
 "If the requested set contains, with each strategy, the simpler forms it degenerates to, then the returned grid and success are the same for every order of the list, and requesting more strategies never yields fewer digits.",
 ["schedules", "inputs", "histories"],
 "All starting states with at least one solution, all orders and subsets of the available strategies.",
 "The tests use a single order of strategies and only puzzles that get solved.",
 [SS, "src/strategy/strategies"], [("restart from the first strategy after progress", SS), ("stop-after-first search in each strategy", "src/strategy/strategies")], [],
 ["StrategySolver::solve"])

prop("S04", "A solver session always shows the state its history implies",
 "After any history of inserted digits, the digits, candidates and solved status a strategy solver session shows, through whichever query, clone or printout, are those implied by the starting state and the inserted digits: filled cells hold their digit, and every other cell holds the candidates not removed at the start and not present in its row, column or block. "
 "Inserting into a cell that holds a different digit fails and changes nothing; queries, printing, cloning and use of a clone never change what any later call on the session returns. "
 "A printout shows the same, with naked singles filled in, for every state that has a solution. These hold as long as the inserted digits were candidates of their cells; after an insert that was not, the filled cells are still shown correctly, and once two equal digits share a house solving never reports success.",
 ["histories", "inputs", "schedules"],
 "All starting states, all sequences of inserts, queries, clones and solves, including those with conflicting inserts.",
 "The only session test is a round trip of two grids through text; no test inserts a digit into a session or interleaves queries.",
 [SS, "src/board/grid_state.rs", "src/board/cell_state.rs"], [("lazy caches with update positions", SS), ("single and batch insertion", SS)],
 [("deduced and eliminated entries", "the history", SS), ("update positions", "how much of the history each cache has seen", SS)],
 ["StrategySolver::grid_state", "StrategySolver::cell_state", "StrategySolver::to_sudoku", "StrategySolver::is_solved", "StrategySolver::insert_candidate", "Display for StrategySolver"])

prop("S05", "A session restored from its snapshot continues identically",
 "A session rebuilt at any point of its history from the grid state it showed there behaves from then on like the original: it shows the same digits and candidates after the same further inserts and, when the state admits a solution, solves to the same grid with the same success under the same strategies; when it admits none, neither reports success. "
 "Taking the snapshot and abandoning the original at any point, including in the middle of a sequence of inserts and queries, loses and adds nothing.",
 ["crash_points", "histories"],
 "All histories, all points at which the session is dropped and rebuilt from the snapshot, repeated restarts, all further histories.",
 "No test continues a session that was rebuilt from a snapshot.",
 [SS, "src/board/cell_state.rs"], [("construction from a grid state", SS), ("export of the grid state", SS)], [],
 ["StrategySolver::from_grid_state", "StrategySolver::grid_state", "StrategySolver::solve"])

prop("W01", "Text output is exact and survives failing sinks",
 "Every printable value of the library writes exactly its documented text: the line form has one character per cell with a dot for empty cells, the block form has digits and underscores in the documented spacing, and solver sessions, cell states and errors print likewise. "
 "When the sink fails at any write, the error is returned to the caller, what was written before is exactly the beginning of that text, nothing is written afterwards and nothing panics.",
 ["fault_sequences", "crash_points", "inputs"],
 "All values, all points at which the sink fails, all widths and alignments for the line and cell forms.",
 "The tests print into memory that never fails, and compare two printouts.",
 [SUD, "src/board/grid_state.rs", "src/board/cell_state.rs", "src/errors.rs", "src/bitset.rs"], [("error propagation of the formatter", SUD), ("table layout", "src/board/grid_state.rs")], [],
 ["Display for Sudoku, SudokuLine, SudokuBlock, StrategySolver, CellState, errors"])

prop("W02", "Serialised sudokus survive, or are refused after, damage on the wire",
 "A sudoku written in any self-describing or compact serialisation format is read back unchanged, in text formats as its line form and in binary formats as its 81 cell values, however the transport splits or interrupts reads and writes. "
 "When bytes are lost, altered, repeated or cut off in transit, reading yields exactly the sudoku those bytes denote or an error, never a panic and never cell contents other than empty or 1 to 9; a write to a failing transport reports the error.",
 ["fault_sequences", "crash_points", "inputs"],
 "All sudokus, all formats, all fragmentations, interruptions, truncations and alterations.",
 "No test serialises anything; the serde feature is not even enabled in the test build.",
 [SUD], [("format choice by human readability", SUD), ("validation while deserialising", SUD)], [],
 ["Serialize and Deserialize for Sudoku"])

prop("W03", "Damaged or truncated text is read by the rules or precisely refused",
 "However the input bytes were cut off, altered, duplicated or joined with other text, each reader accepts exactly the texts its documented format allows and then returns exactly the cells written there; everything else is refused with the error that describes the first defect: the offending cell and character, the row at fault, or the number of cells or complete rows found. "
 "No input makes a reader panic, and a result never holds anything but empty cells and digits 1 to 9.",
 ["inputs", "fault_sequences", "crash_points"],
 "All byte strings that are valid text, in particular every truncation, alteration, duplication and splice of well-formed sudokus in all supported layouts and delimiters, and all byte arrays and slices.",
 "The parser tests use a dozen fixed strings; error details are checked for two of them and damage at arbitrary positions, other line endings and non-ASCII text not at all.",
 [SUD, "src/errors.rs"], [("fast path and full line parser", SUD), ("block parser with format detection", SUD), ("permissive block parser", SUD)], [],
 ["Sudoku::from_str_line", "Sudoku::from_str_block", "Sudoku::from_str_block_permissive", "Sudoku::from_bytes", "Sudoku::from_bytes_slice"])

prop("C01", "The unchecked-indexing build behaves exactly like the checked one",
 "With the optional feature that drops bounds checks, and in optimised builds without internal assertions, every operation gives the same results, the same errors and the same consumption of random numbers as in the checked build with assertions, for all inputs, random sequences, histories and schedules.",
 ["configurations", "inputs", "histories", "schedules"],
 "All pairs of build configurations {checked with assertions, unchecked and optimised} over all simulated workloads.",
 "The tests run in one configuration, the checked debug build.",
 [SOL, "Cargo.toml"], [("conditionally unchecked array", SOL), ("internal assertions", SOL)], [],
 ["event logs of both builds"])

# not claimed: pure functions of their input
prop("N01", "Digit, cell and position sets form a Boolean algebra",
 "Union, intersection, difference, complement, membership, size and iteration of sets of digits, cells and positions obey the laws of finite sets over exactly their domain.",
 ["inputs"], "All pairs of sets of every element type.",
 "Only the uses inside the solver touch them; there is no direct test of the algebra.",
 ["src/bitset.rs"], [("bit masks with a full mask per element type", "src/bitset.rs")])
prop("N02", "Board geometry is consistent",
 "The conversions between cells, rows, columns, blocks, chutes, minilines and positions are mutually inverse and describe one 9x9 board with 27 houses and 20 neighbours per cell.",
 ["inputs"], "All cells, lines, houses, positions.",
 "The position tests cover band and stack cells, not the conversions among all types.",
 ["src/board/positions.rs"], [("lookup and arithmetic conversions", "src/board/positions.rs")])
prop("N03", "Solvedness and clue count are exact",
 "A grid is reported solved exactly if each row, column and block holds each digit once, and the clue count is the number of filled cells.",
 ["inputs"], "All grids.",
 "Two tests look at fixed lists of solved and unsolved grids.",
 [SUD], [("house masks", SUD)])
prop("N04", "Equality, order and hash of sudokus and their line form agree",
 "Sudokus and their line forms compare, order and hash like the sequences of their cells, and equal values hash equally.",
 ["inputs"], "All pairs of sudokus.",
 "No test compares or hashes line forms.",
 [SUD], [("derived comparisons and string hash", SUD)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
