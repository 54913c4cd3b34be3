"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Accelerated simulation reports exactly the true halting result",
 "For every Turing machine that halts from the blank tape, the accelerated simulator - whatever block size, block offset, back-symbol setting, proof system and rule options are selected - either reports exactly the step count, final score (non-zero symbols) and halting transition (state and symbol read) of literal step-by-step execution, or reports no verdict. It never reports a wrong count, a wrong halting transition or a halt for a machine that does not halt there.",
 ["programs","configurations"], "all transition tables (states x symbols), all combinations of acceleration options, all step/loop limits",
 "Tests run a handful of champion machines with one or two option sets; a mistake in chain steps, rule application or macro step counting only shows on tables that exercise that path.",
 ["Code/Macro/Simulator.py","Code/Macro/Proof_System.py","Code/Macro/Tape.py","Code/Macro/Turing_Machine.py","Code/Quick_Sim.py"],
 [("step / chain-step / rule application bookkeeping","Code/Macro/Simulator.py"),("rule proof and closed-form application","Code/Macro/Proof_System.py"),("macro transitions with step and halt details","Code/Macro/Turing_Machine.py")],
 ["Macro simulator object: op_state, op_details, step_num, get_nonzeros()"])
prop("C02", "Every accelerated configuration is a true configuration of the run",
 "At every point of an accelerated run, the machine state, head position, direction and the complete tape contents it shows are exactly those that literal step-by-step execution has after the step count the accelerated run reports at that point. Step counts reported by one run never decrease, the steps attributed to macro moves, chain moves and rules add up to the total, and the step at which each base state is said to have been last used is the true one.",
 ["programs","configurations","histories"], "all machines, all acceleration options, every intermediate stop point of the run (including non-halting runs)",
 "Tests look at final values of a few halting machines; intermediate tapes, especially of non-halting runs with rules applied, are never compared.",
 ["Code/Macro/Simulator.py","Code/Macro/Tape.py","Code/Macro/Proof_System.py"],
 [("chain tape","Code/Macro/Tape.py"),("step counting by kind of move","Code/Macro/Simulator.py")],
 ["simulator tape/state/step_num after every loop"])
prop("C03", "The accelerated simulator never calls a halting machine infinite",
 "If the accelerated simulator reports that a machine runs forever (by any of its reasons: endless chain move, repeat inside a macro cell, proven rule applying forever, exploding growth), under any option combination, then the machine never reaches a halting or undefined transition from the blank tape. If it additionally names the base states that keep being visited, the last time each other state was used is right.",
 ["programs","configurations"], "all machines and all acceleration option combinations",
 "Tests check that a few known infinite machines are recognised; none checks that arbitrary halting machines are not.",
 ["Code/Macro/Simulator.py","Code/Macro/Proof_System.py","Code/Macro/Turing_Machine.py"],
 [("infinite-rule check and chain-to-infinity","Code/Macro/Simulator.py"),("rule min-value / always-greater checks","Code/Macro/Proof_System.py")],
 ["op_state == infinite, inf_reason, quasi-halting info"])
prop("C04", "Macro-machine transitions equal the base machine run on the block",
 "For every base machine, block size and offset, back-symbol wrapping and bounded cell content, a macro transition yields exactly the cell contents, exit side, exit state and number of base steps that literal execution of the base machine on that bounded tape yields, or correctly says that it halts there (with the right halting transition and partial tape), loops there forever (and in which base states), or that it gave up. Turning tapes back into base symbols and counting non-zero symbols agrees with the base tape.",
 ["programs","inputs","configurations"], "all base machines, block sizes, offsets, nested macro machines and cell contents",
 "Tests only reach macro transitions through a few complete simulations.",
 ["Code/Macro/Turing_Machine.py","Code/Macro/Block_Finder.py"],
 [("bounded simulation of one macro cell","Code/Macro/Turing_Machine.py"),("block size search","Code/Macro/Block_Finder.py")],
 ["get_trans_object results, eval_symbol, eval_state"])
prop("C05", "Run-length tape behaves like an unbounded array of cells",
 "Under any sequence of reads, single moves, chain moves and copies, starting from any run-length contents, the run-length encoded tape represents exactly the same infinite tape as a plain array model, never has two adjacent runs of equal symbol or an empty run, counts non-zero symbols exactly, and a copy is unaffected by later edits of the original. The plain tape used by the direct simulator likewise equals an array under any sequence of moves and writes.",
 ["histories"], "all sequences of tape operations over any symbol alphabet",
 "Example tests make a few moves; sequences that merge, split and exhaust runs are not enumerated.",
 ["Code/Macro/Tape.py","Code/Direct_Simulator.py"],
 [("apply_single_move / apply_chain_move","Code/Macro/Tape.py"),("Tape resize and move","Code/Direct_Simulator.py")],
 ["tape contents, get_nonzeros, printed tape"])
prop("C06", "Rule proofs: closed forms equal repeated application of the rule",
 "Whenever the proof system proves a general rule for a machine, applying it any number of times it claims possible gives exactly the tape, state and step total of literally running the machine, for every starting exponents that satisfy the rule's stated minimums. A rule of any kind (difference, limited, linear, exponential, general), with several decreasing counts, constant results or symbolic counts, is never applied past a count below its minimum, is called endless only if it never gets there, and gives the step totals and last-use times of the repeated application. Sums of polynomial terms over repeated applications and closed forms of iterated linear functions equal brute-force iteration.",
 ["programs","inputs"], "all machines, all rules found while running them, all exponent values at or above the rule minimum, all repetition counts",
 "Tests check a few hand-written rules and one series sum; the polynomial and recursive cases depend on coefficients the tests never use.",
 ["Code/Macro/Proof_System.py","Code/Macro/Rule_Func.py"],
 [("prove_rule and apply_*_rule","Code/Macro/Proof_System.py"),("series_sum","Code/Macro/Proof_System.py"),("function algebra for rules","Code/Macro/Rule_Func.py")],
 ["rule application results against direct simulation"])
prop("C07", "Linear-recurrence decider: certificates are true, earliest and not missed",
 "When the Lin recurrence detector (translated cycler detector) reports a start step, period and tape offset, literal execution really repeats with that period and offset from that start step, the period is minimal, the start step is the earliest when the minimum was requested, and quasi-halting data derived from it is right; a machine that halts is reported as halting with its true step count, never as recurrent. A machine whose recurrence fits well inside the step bound is found.",
 ["programs","configurations"], "all machines, all step bounds, both search modes",
 "Tests check about ten known machines with known periods.",
 ["Code/Lin_Recur_Detect.py"],
 [("recurrence comparison of tape windows","Code/Lin_Recur_Detect.py"),("earliest-start search","Code/Lin_Recur_Detect.py")],
 ["decider result message and status record"])
prop("C08", "Closed-position-set decider never misjudges a halting machine",
 "If the closed position set (n-gram style) decider reports a machine as non-halting, for any block size, window size, and resource bounds, the machine never halts from the blank tape, and if it reports that the machine does not quasi-halt that is true as well. Running out of a bound yields no verdict, and with enough resources the answer is that of exhaustively closing the set of reachable windows.",
 ["programs","configurations"], "all machines, block sizes, windows and bounds",
 "No test runs this decider on halting machines.",
 ["Code/CPS.py","Code/CPS_Filter.py"],
 [("closure of continuation sets","Code/CPS.py")],["decider success flag and status record"])
prop("C09", "CTL deciders never misjudge a halting machine",
 "If any of the closed-tape-language deciders reports a machine as non-halting, for any block size, offset, back-symbol setting and cutoff, then the machine never halts from the blank tape. The answer is the one that exhaustively closing the decider's class of tape languages from the configuration at the cutoff gives.",
 ["programs","configurations"], "all machines, all four deciders, all block sizes/offsets/cutoffs",
 "No test covers these deciders on halting machines.",
 ["Code/CTL1.py","Code/CTL2.py","Code/CTL3.py","Code/CTL4.py","Code/CTL_Filter.py"],
 [("generalisation loop over tape languages","Code/CTL1.py"),("filter by block size and offset","Code/CTL_Filter.py")],["decider success value, filter status record"])
prop("C10", "Backward reasoning deciders never misjudge a halting machine",
 "If backward reasoning (backtracking to a bounded depth, or reverse engineering of the halting transitions) reports that a machine cannot halt, then it never halts from the blank tape; the halting-by-depth answer of the backtracking search agrees with an exhaustive backward search. A machine with no way to reach its halting transition backwards within the depth is recognised.",
 ["programs","configurations"], "all machines, depths and width limits",
 "The repository's own backtracking tests do not even pass; reverse engineering has no soundness test.",
 ["Code/Backtracking_Filter.py","Code/Reverse_Engineer_Filter.py"],
 [("backward step enumeration","Code/Backtracking_Filter.py"),("halt-state reachability reasoning","Code/Reverse_Engineer_Filter.py")],["verdict values and status record"])
prop("C11", "The complete decision pipeline never records a false verdict",
 "Whatever options are given, running the full decision pipeline on a machine leaves a status in which every decided fact is true: a recorded halt has the true step count, score and halting transition, a recorded infinite machine never halts, recorded quasi-halting facts match literal execution, and everything else is left undecided. Running the pipeline again on the saved and reloaded record, with its verdicts cleared, never contradicts the first run.",
 ["programs","configurations","histories"], "all machines of all sizes, all option sets",
 "Tests run the pipeline over two small enumerations and compare totals only.",
 ["Code/Macro_Simulator.py","Code/Quick_Sim.py","Code/Re_Sim.py","Code/Halting_Lib.py"],
 [("run_options decider sequence","Code/Macro_Simulator.py"),("status setters","Code/Halting_Lib.py")],["status of the record after the run"])
prop("C12", "Enumeration visits every machine in normal form exactly once",
 "Enumerating all machines of a given number of states and symbols lists every machine in tree normal form exactly once: the union of the machine families it outputs equals the set produced by an independent exhaustive enumeration, no family is listed twice, and the weighted total equals the closed-form number of machines. The result does not depend on the visiting order or on whether it was stopped and resumed.",
 ["configurations","schedules","histories"], "all state/symbol sizes in reach, all start machines, all queue orders, option settings and stop points",
 "Tests compare a few totals for 2x2, 2x3 with fixed order.",
 ["Code/Enumerate.py","Code/TM_Enum.py","Code/Count.py","Code/Work_Queue.py"],
 [("children of the halting transition","Code/TM_Enum.py"),("work queue loop and outputs","Code/Enumerate.py"),("family size","Code/Count.py")],["output records of an enumeration"])
prop("C13", "Normal forms and renumbering preserve behaviour and are canonical",
 "Converting a machine to tree normal form or lexical normal form, permuting its states or symbols, or starting it in a different state yields a machine whose run is step-for-step the same up to that renaming and mirroring; the normal form is the same for every renamed or mirrored version of a machine that has the same run, and normalising twice changes nothing. One-transition neighbours of a machine are all distinct valid machines that differ from it in exactly one place, with none missing.",
 ["programs","inputs"], "all machines, all permutations and mirrors",
 "Tests convert a few named machines.",
 ["Code/TNF.py","Code/LNF.py","Code/Permute.py","Code/Adjacent.py","Code/Zero_Reflexive.py"],
 [("order of first visit renaming","Code/TNF.py"),("permutation of the table","Code/TNF.py"),("best of all permutations","Code/LNF.py")],["resulting transition tables and their runs"])
prop("C14", "Machine descriptions survive every format round trip",
 "Every machine of every supported size, with or without undefined transitions, survives print-and-parse unchanged in the standard text format, packed and list binary forms, and the exchange formats (up to the renaming of states a format imposes), and converting between formats and compressed or plain files keeps the machines, their order and count. Malformed descriptions are rejected with an error and never read as a different machine.",
 ["inputs","configurations"], "all machines up to the size limits of each format, all files of machines",
 "Tests parse a few strings; large machines and compressed files are never written and read back.",
 ["Code/IO/StdText.py","Code/IO/TM_Record.py","Code/IO/Morphett.py","Code/IO/OldText.py","Code/IO/BBC.py","Code/IO/General.py","Code/IO_Convert.py"],
 [("pack/unpack of tables","Code/IO/TM_Record.py"),("text parse/print","Code/IO/StdText.py")],["machine table after reading back"])
prop("C15", "Record files: every complete record is read back, damage is reported",
 "A file of machine records read back in any way (sequentially, by index, by skipping, compressed or not, or from several files joined end to end) returns exactly the records written, with every field of the status, in order. If the file is cut off at any byte the reader returns only records that were completely written and then signals an error unless the cut fell between two records. Editing the machine of one record that was read changes no other record and not what the file gives when read again.",
 ["histories","crash_points","inputs"], "all record contents, all write/append/read histories, all truncation points",
 "No test truncates a file or mixes reading modes.",
 ["Code/IO/Proto.py","Code/IO/TM_Record.py","Code/IO/General.py","Code/Find_Record.py"],
 [("length-prefixed records","Code/IO/Proto.py")],["records returned by readers, errors raised"])
prop("C16", "File tools never lose, duplicate or alter records",
 "Categorising, sorting, sampling, counting, converting and filtering files of machine records puts every input record in exactly the output it belongs to, unchanged, with nothing lost, duplicated or invented, and reported counts equal the true counts. Sorted output is ordered by the documented key and is a permutation of the input. The script that chains the filters over a file of undecided machines, and the ones that do so in separate array jobs, leave every machine in exactly one of their result files.",
 ["inputs","histories"], "all lists of records with all kinds of status",
 "These tools have no tests.",
 ["Code/IO_Categorize.py","Code/IO_Sort.py","Code/IO_Sample.py","Code/IO_Count.py","Code/IO_Convert.py","Code/Find_Record.py","Tools/filter.sh"],
 [("routing by status","Code/IO_Categorize.py"),("sort key","Code/IO_Sort.py")],["output files compared with input"])
prop("C17", "Status values, including huge integers, are stored without loss",
 "Every step count, score or other large integer - plain or in exponential tower form - that is stored in a status is read back with exactly the same value, and each kind of verdict (halting, infinite, quasi-halting, unknown, size bound exceeded) written through the status interface is read back as that verdict with all its details. Verdicts already recorded for one question are not changed by recording another.",
 ["inputs","histories"], "all integers and exponential terms representable, all sequences of status writes",
 "One test stores a few integers, and fails for exponential terms.",
 ["Code/Halting_Lib.py","Code/Exp_Int.py","Code/io.proto"],
 [("big integer encoding","Code/Halting_Lib.py"),("exponential term encoding","Code/Exp_Int.py")],["value read back"])
prop("C18", "Exponential integers compute exactly what plain integers compute",
 "Sums, differences, products, quotients that are exact, powers, remainders, comparisons, signs and conversions of integers held in exponential form agree with ordinary unbounded integer arithmetic whenever the value is small enough to compute, and remainders and comparisons obey the arithmetic laws when it is not. A result or comparison that cannot be worked out is refused and never silently wrong, and no operation changes the values it is given. (One base per expression, as the simulator builds them.)",
 ["inputs"], "all expressions built from integers and powers with the supported operations",
 "Tests use a handful of expressions; carry, sign and normalisation mistakes depend on coefficient patterns.",
 ["Code/Exp_Int.py","Code/Math.py"],
 [("normalised sum of base^exponent terms over a denominator","Code/Exp_Int.py"),("modular exponentiation of towers","Code/Math.py")],["values, mod, comparisons, str"])
prop("C19", "Symbolic expressions evaluate like the polynomials they denote",
 "Arithmetic on symbolic expressions (addition, subtraction, multiplication, exact division, substitution, powers, equality, lower-bound and comparison queries) agrees, for every assignment of integers to the variables, with the same arithmetic done on the evaluated numbers, and printing then parsing an expression gives the same expression; no operation changes its operands. Lower-bound and always-greater answers are only positive when they hold for all allowed assignments.",
 ["inputs"], "all expressions over any number of variables and all integer assignments",
 "Tests use a dozen fixed expressions.",
 ["Code/Algebraic_Expression.py"],
 [("term collection and normal form","Code/Algebraic_Expression.py")],["evaluated values and predicates"])
prop("C20", "Number-theory helpers are exact",
 "Greatest common divisor, least common multiple, integer powers, prime factorisation, Carmichael function, and modular exponentiation of arbitrarily large exponents return exactly the mathematically defined value for every valid argument; the extended-precision sum and product helpers are right to within rounding (relative error 2^-50).",
 ["inputs"], "all integers in the documented domains",
 "Tests sample about twenty arguments.",
 ["Code/Math.py"],[("number theory functions","Code/Math.py")],["returned values"])
prop("C21", "Direct simulation and machine tables follow the textbook definition",
 "For every machine and number of steps the direct simulator has exactly the state, head position, tape, step count and score that the definition of a Turing machine gives, stepping one at a time, seeking to a step or running in any split of calls gives the same result, and halting (including at an undefined transition) is reported at exactly the right step, from the right state and symbol.",
 ["programs","histories"], "all machines, all splits of a run into calls",
 "Tests run six champion machines to the end.",
 ["Code/Direct_Simulator.py","Code/Macro/Turing_Machine.py","Code/IO/StdText.py"],
 [("step loop","Code/Direct_Simulator.py"),("transition table with halt/undefined","Code/Macro/Turing_Machine.py")],["simulator fields after each call"])
prop("C22", "C++ simulators and recurrence checker agree with literal execution",
 "The native direct simulators report exactly the halting step that literal execution gives, or unknown when the step limit is reached first, for any machine file and any split of the work; the native recurrence checker reports halting steps, period, offset and start bound that are true of the run and agrees with the scripting-language checker.",
 ["programs","configurations"], "all machines readable by the native tools, all step limits",
 "There are no tests of the native tools at all.",
 ["cpp/src/simulator.cpp","cpp/src/direct_sim.cpp","cpp/src/direct_sim_all.cpp","cpp/src/lin_recur.cpp","cpp/src/turing_machine.cpp","cpp/src/lin_recur_main.cpp"],
 [("direct simulator","cpp/src/simulator.cpp"),("recurrence detection","cpp/src/lin_recur.cpp"),("table parsing and printing","cpp/src/turing_machine.cpp")],["program output"])
prop("C23", "C++ enumerators are complete, exact and restartable",
 "The native enumerators output every machine in their normal form exactly once with a true classification (halting with exact steps, recurrent with true period and offset, or unknown), the set does not depend on stopping and continuing from a saved list or on splitting depth, and lazy-beaver results equal the true smallest step count not reached.",
 ["configurations","histories"], "all sizes in reach, step limits, continuation points",
 "There are no tests of the native enumerators.",
 ["cpp/src/enumerator.cpp","cpp/src/lin_recur_enumerator.cpp","cpp/src/lazy_beaver_enumerator.cpp","cpp/src/lr_enum.cpp","cpp/src/lb_enum.cpp","cpp/src/lr_enum_continue.cpp","cpp/src/lb_enum_continue.cpp"],
 [("depth-first expansion","cpp/src/enumerator.cpp"),("per-machine classification","cpp/src/lin_recur_enumerator.cpp")],["output files and printed results"])
prop("C24", "Work queues hand out every job exactly once",
 "Whatever the interleaving of pushes and pops of the single-process queues, or of message arrivals between the parallel master and its workers, every job pushed is popped exactly once, in the documented order for the single-process queues, and an empty queue is reported only when no job is left anywhere.",
 ["schedules","histories"], "all push/pop histories, all message arrival orders, worker counts and queue size limits",
 "The parallel test needs a launcher that is not run; the single-process queues are used in one order.",
 ["Code/Work_Queue.py","Code/MPI_Work_Queue.py"],
 [("LIFO/FIFO queues","Code/Work_Queue.py"),("master/worker load balancing","Code/MPI_Work_Queue.py")],["jobs handed to callers"])
prop("C25", "Rust: symbolic configurations step exactly as the machine does",
 "Machines and symbolic configurations print and parse without change, stepping a symbolic configuration agrees with stepping every concrete configuration it stands for, and substitution, sub-configuration replacement and equivalence of configurations agree with the concrete tapes they denote for every value of the variables.",
 ["programs","inputs"], "all machines, configurations with repeated blocks and variables, all variable values",
 "The unit tests (not runnable offline) use a few fixed configurations.",
 ["rust/src/config.rs","rust/src/tm.rs"],
 [("half tapes of repeated blocks","rust/src/config.rs")],["printed configurations, equality answers"])
prop("C26", "Rust: counting expressions agree with the numbers they denote",
 "Substitution, addition, subtraction, decrement, function application and composition, iteration and the equality test on counting expressions agree with their numeric value for every assignment of the free variables; a subtraction or equality is granted only if it holds for every assignment; between plain sums it is granted whenever it does, and any expression minus itself, and any iterated sum minus its partial unrolling (f^(n+k)(x) against f^n(f^k(x)) with n not constant), is zero.",
 ["inputs"], "all counting expressions, all assignments of naturals",
 "Unit tests use fixed expressions; variable capture depends on which names meet.",
 ["rust/src/count_expr.rs"],[("sums of variables and iterated functions","rust/src/count_expr.rs")],["evaluated expressions"])
prop("C27", "Rust: the rule validator accepts only true rules",
 "If a rule set is accepted (and nothing in it is marked as admitted without proof), then every rule in it is true: for every value of its variables the machine started in the rule's first configuration, inside any surrounding tape, reaches its last configuration. Correct step-by-step, chained and inductive proofs are accepted.",
 ["programs","inputs"], "all machines, rules, proofs and variable values",
 "Unit tests list correct proofs and a few wrong ones.",
 ["rust/src/validator.rs","rust/src/config.rs","rust/src/count_expr.rs"],
 [("proof step checker and induction","rust/src/validator.rs")],["accept/reject answer"])
prop("C28", "Command-line front ends print what is true of the machine",
 "For every machine and every combination of their options, the scripts that a user runs by hand on one machine - the accelerated simulator, the direct simulator, the recurrence checker, the four regular-language deciders, the closed-position-set decider with its saved certificate, the table printer, the tape history picture and the interactive tape view (after any keys) - finish without error and every step count, score, state, tape, verdict and table cell they print is true of that machine. A number too long to print is shown by an approximation that is right to the digits shown. A saved closed-position-set certificate is closed and contains the start.",
 ["programs","configurations"], "all machines, all option combinations of the scripts",
 "No test runs a script's main program.",
 ["Code/Quick_Sim.py","Code/Direct_Simulator.py","Code/Lin_Recur_Detect.py","Code/CPS.py","Code/CTL1.py","Code/CTL2.py","Code/CTL3.py","Code/CTL4.py","Code/TM_Print.py","Code/Visual_Simulator.py","Code/Curses_Sim.py"],
 [("main program and statistics output","Code/Quick_Sim.py"),("certificate output","Code/CPS.py"),("tape history picture","Code/Visual_Simulator.py"),("interactive view","Code/Curses_Sim.py")],["printed text, exit status, certificate file"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
