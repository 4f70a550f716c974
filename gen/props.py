"""Single source of properties.jsonl and MANIFEST.json:  python3 gen/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'abstract interpretation / global value numbering with closed-form loop summaries'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=TECH, note='', na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state))


prop('C01', 'The default verdict is the value of the GR(1) game',
     'For every specification, slugs without solver-changing options reports "realizable" exactly when for every initial input allowed by '
     'the environment initialisation there is an allowed initial output from which the system wins the GR(1) game (assumptions safe and '
     'recurrent imply guarantees safe and recurrent; the system moves second in each step, and goals may mention next-step values). '
     'The set of winning positions is exactly the game\'s three-level nested fixed point, whatever strategy-output option is given.',
     ['inputs', 'configurations'], 'every specification (any number of variables, safety and liveness parts) and every option set without solver options',
     'the ten example verdicts sample ten specifications; a wrong quantifier order, a dropped conjunct or a wrongly initialised fixed point can agree on all of them',
     ['src/synthesisAlgorithm.cpp', 'src/synthesisContextBasics.cpp', 'src/gr1context.hpp'],
     [('nested fixed point', 'src/synthesisAlgorithm.cpp computeWinningPositions'), ('initial-position check', 'src/synthesisContextBasics.cpp checkRealizability'),
      ('fixed-point helper', 'src/gr1context.hpp BFFixedPoint')],
     note='Every option set is resolved to its solver methods; their abstract result must be the reference formula (identical value number). Assumes the BDD layer computes the operations it names (C16, and C24 to C26 for references, caching and reordering) and categories are allotted as in C10/C19.')

prop('C02', 'Solver options decide exactly the game they document',
     'Robotics initialisation semantics reports "realizable" exactly when every initial position allowed by both initialisations is winning; '
     'bias-for-action and fixed-point recycling never change which specifications are realizable under the initialisation semantics in use; '
     'fast/slow semantics decides the GR(1) game in which additionally the intermediate position (inputs and fast outputs already changed, slow outputs not yet) '
     'of every step must be safe.',
     ['inputs', 'configurations'], 'every specification, every documented combination of these options with strategy-output options',
     'no existing test uses any option; equality of verdicts across algorithms is a statement about all specifications',
     ['src/extensionRoboticsSemantics.hpp', 'src/extensionBiasForAction.hpp', 'src/extensionFixedPointRecycling.hpp', 'src/extensionIROSfastslow.hpp', 'src/main.cpp'],
     [('robotics initial check', 'XRoboticsSemantics::checkRealizability'), ('extra level closure', 'XBiasForAction::computeWinningPositions'),
      ('resumed inner fixed points', 'XFixedPointRecycling::computeWinningPositions'), ('intermediate-position safety', 'XIROSFS::computeWinningPositions'),
      ('option table', 'src/main.cpp optionCombinations')],
     note='As C01; for recycling, an additional rule restricts from which stored value an inner greatest fixed point may resume.')

prop('C03', 'The counterstrategy solver is the exact dual of the system solver',
     'With the counterstrategy option slugs reports "unrealizable" exactly for the specifications that are unrealizable without it (under the same '
     'initialisation semantics), and the positions it regards as winning for the environment are exactly those not winning for the system.',
     ['inputs', 'configurations'], 'every specification, with and without robotics initialisation semantics',
     'no test runs the counterstrategy; duality of two separately coded fixed points must hold for all specifications',
     ['src/extensionCounterstrategy.hpp'],
     [('dual fixed point', 'XCounterStrategy::computeWinningPositions'), ('dual initial check', 'XCounterStrategy::checkRealizability')],
     note='The abstract result must be the environment counter game, which the analysis shows to be the complement of the C01 game.')

prop('C04', 'Verdict text and strategy output follow the computed verdict',
     'Every synthesis mode computes the verdict and then prints exactly one of "is realizable" and "is unrealizable" on standard error, the one that is true. '
     'A controller is written to standard output or to the output file only if the specification is realizable, a counterstrategy only if it is unrealizable.',
     ['inputs', 'configurations'], 'every specification, every synthesis and strategy-extraction option set',
     'tests compare the verdict line of ten runs without options; no test looks at output gating in any mode',
     ['src/synthesisContextBasics.cpp', 'src/extensionExtractExplicitStrategy.hpp', 'src/extensionExtractSymbolicStrategy.hpp',
      'src/extensionPermissiveExplicitStrategy.hpp', 'src/extensionExtractExplicitCounterstrategy.hpp', 'src/extensionNondeterministicMotion.hpp'],
     [('verdict text', 'GR1Context::execute'), ('gating of output', 'execute() of the extraction plug-ins')],
     technique='path-condition (guard) analysis of all output statements over the inlined call graph',
     note='Guards of all output statements of all modes are computed as decision diagrams over the verdict and compared.')


prop('C05', 'Explicit strategies contain only legal moves and handle every allowed input',
     'Every initial position that wins and satisfies both initialisations is an initial state of an extracted explicit-state strategy, and no initial state is losing or violates the system initialisation. '
     'Every listed transition starts in the valuation printed for its source state, obeys the recorded winning moves of the goal of that state, and leads to the state printed for the successor; for every input that the assumptions allow in a reachable state there is a transition (with simple recovery: also for other inputs whenever a winning move exists). '
     'The goal a state pursues changes only cyclically, and only past goals that the transition satisfies.',
     ['inputs', 'configurations'], 'every realizable specification and every explicit-strategy option set (plain text or JSON, recovery, robotics semantics and solver options)',
     'no test extracts a strategy; legality, completeness and goal switching must hold for every reachable state of every strategy',
     ['src/extensionExtractExplicitStrategy.hpp', 'src/synthesisContextBasics.cpp'],
     [('work-list exploration', 'XExtractExplicitStrategy::computeAndPrintExplicitStateStrategy'), ('picking one element of a set', 'GR1Context::determinize')],
     note='Loop-closed value numbers of all sets, stored states, table keys and goal pointers of the exploration are compared with their definition. Acceptance of ranked moves is C06.')

prop('C06', 'Recorded winning moves make progress towards their goal',
     'The moves recorded for strategy extraction are, per goal and in order of distance, exactly the moves allowed by the safety guarantees that reach the goal and stay winning, or get strictly closer to the goal, or keep one assumption unsatisfied while staying inside its inner fixed point. '
     'Only the last iteration of the outer fixed point contributes, so every recorded move stays within the winning positions.',
     ['inputs', 'configurations'], 'every specification and each of the solver variants (default, bias for action, fast/slow, recycling)',
     'recording happens inside three nested fixed points; which moves and in which order matters for every extracted strategy, and no test inspects them',
     ['src/synthesisAlgorithm.cpp', 'src/extensionBiasForAction.hpp', 'src/extensionIROSfastslow.hpp', 'src/extensionFixedPointRecycling.hpp'],
     [('recording of ranked moves', 'computeWinningPositions of the solvers')], state=[('strategyDumpingData', 'list of (goal, moves) in order of distance', 'src/gr1context.hpp')],
     note='Closed form of the recorded list compared with the definition.')

prop('C07', 'Explicit counterstrategies win for the environment',
     'An explicit counterstrategy starts in exactly the positions allowed by both initialisations from which the environment wins, and every state offers one input of the environment strategy with every answer the safety guarantees allow, or a dead end showing an allowed input that leaves no safe answer. '
     'A state keeps preventing its goal until the goal is satisfied and keeps waiting for its assumption until the assumption is satisfied, and the goal prevented from a position is the one for which the position was found to be winning first.',
     ['inputs', 'configurations'], 'every unrealizable specification and every option set printing an explicit counterstrategy',
     'no test prints a counterstrategy; a wrong choice of goal or input only shows in plays that loop through several goals or assumptions',
     ['src/extensionExtractExplicitCounterstrategy.hpp', 'src/extensionCounterstrategy.hpp', 'src/gr1context.cpp'],
     [('recorded environment moves', 'computeWinningPositions of the counterstrategy solver'), ('extraction', 'computeAndPrintExplicitStateStrategy, addDeadlocked')],
     note='Closed form of the recorded moves; extraction loops recognised by role.')

prop('C08', 'Symbolic strategies combine all goals without mixing them up',
     'An exported symbolic strategy allows, in every position and for every goal-counter value, exactly the recorded winning moves of that goal (for each position and input those closest to the goal); in the simple format the next counter value is the cyclic successor if the move satisfies the goal and unchanged otherwise, in the default format the goal-reached marker is set only on moves that satisfy the goal. '
     'The counter has enough bits for all goals, and the file lists each variable number with its own name.',
     ['inputs', 'configurations'], 'every realizable specification and every symbolic-strategy option set',
     'no test exports a symbolic strategy; wrong bit counts or goal mix-ups only show for particular numbers of goals',
     ['src/extensionExtractSymbolicStrategy.hpp'],
     [('merging and goal encoding', 'XExtractSymbolicStrategy::computeAndPrintSymbolicStrategy')],
     note='Value numbers of the merged strategies, the goal encoding and the exported BDD are compared with the definition for every option set.')

prop('C09', 'Permissive strategies are legal, complete and list every offered move',
     'A permissive explicit-state strategy starts in winning positions (including every one that satisfies both initialisations), offers only recorded winning moves of the goal of the state, covers every input the assumptions allow, and lists every single successor it offers. '
     'Goal switching is as for explicit strategies.',
     ['inputs', 'configurations'], 'every realizable specification and every permissive-strategy option set',
     'no test extracts a permissive strategy',
     ['src/extensionPermissiveExplicitStrategy.hpp'],
     [('work-list exploration', 'XExtractPermissiveExplicitStrategy::computeAndPrintExplicitStateStrategy')],
     note='As C05.')

prop('C10', 'Every specification line takes effect exactly in the part its section names',
     'Each line of an input specification is conjoined to (safety, initialisation) or appended to (liveness) exactly the part of the game its section names, and may use exactly the variables that section allows, with primed names denoting the next step. '
     'Comments, blank lines and surrounding white space have no effect; a part without any line is neutral, and a missing liveness list behaves like one that is always satisfied.',
     ['inputs', 'configurations'], 'every specification text, in every solver mode (default, fast/slow, interleaving, non-deterministic motion)',
     'the tests use ten specifications; which variables are legal in which section, and that no line is dropped or misfiled, must hold for every text and for input formats no test uses',
     ['src/synthesisContextBasics.cpp', 'src/extensionIROSfastslow.hpp', 'src/extensionInterleave.hpp', 'src/extensionNondeterministicMotion.hpp', 'src/variableManager.cpp'],
     [('specification readers', 'GR1Context::init and the init of each mode with its own input format')],
     note='Loop-closed value numbers of all game parts after each reader are compared, per section and mode, with the table of allowed variables.')

prop('C11', 'Malformed specification files are rejected with an error in every mode',
     'A specification file that has an unknown section, text before the first section, a variable declared twice, or that is missing or unreadable is rejected with an error, in every mode and input format, before any game is solved. '
     'A well-formed file is not rejected.',
     ['inputs', 'configurations'], 'every specification text, in every solver mode that reads a specification',
     'no test feeds a malformed file; a silently skipped section or declaration changes the verdict',
     ['src/synthesisContextBasics.cpp', 'src/variableManager.cpp', 'src/extensionIROSfastslow.hpp', 'src/extensionInterleave.hpp', 'src/extensionNondeterministicMotion.hpp'],
     [('specification readers', 'GR1Context::init and the init of each mode with its own input format')],
     note='Conditions of all throw sites of each reader are compared with the rejection conditions.')

prop('C12', 'A formula line denotes exactly what its prefix notation says',
     'A formula line is read as the Boolean formula its prefix notation denotes: constants, possibly primed variables, negation, binary operators, and memory buffers whose elements are evaluated in order and can be recalled by later elements. '
     'Anything else (a premature end, trailing tokens, an unknown or not allowed name, an empty buffer, a recall of an element not stored yet) is rejected with an error.',
     ['inputs'], 'every formula line',
     'the tests use a few shapes of formulas; nesting of operators and memory buffers is unbounded',
     ['src/synthesisContextBasics.cpp', 'src/gr1context.hpp'],
     [('recursive-descent parser', 'GR1Context::parseBooleanFormula and parseBooleanFormulaRecurse')],
     note='Each case of the recursive parser is compared with the grammar; induction over the nesting depth covers all formulas.')

prop('C13', 'Options select exactly the analysis and modifiers they name',
     'Every permitted combination of options runs exactly the analysis composed of the modifiers those options name, independently of the order in which they are given, and every combination that is not in the list is rejected. '
     'An option that the help text does not declare is rejected with an error, and modifiers that are documented as combinable are combinable with every output format.',
     ['inputs'], 'every option list',
     'there are 139 permitted combinations out of tens of thousands of option sets; the tests use none of them',
     ['src/main.cpp'],
     [('option table', 'commandLineArguments and optionCombinations in src/main.cpp'), ('dispatch', 'main'), ('analysis classes', 'class templates XYZ<T> in src/extension*.hpp')],
     note='Relates the rows of the option table to the class features (base classes and template arguments) they instantiate, checks product closure, and decides the dispatch of main by abstract interpretation.')

prop('C14', 'Files are used in command-line order and incomplete output is an error',
     'The specification is read from the first file name, further input files from the following ones, and the strategy goes to the next file name, or to the standard output if there is none and the mode allows that; names that are not needed stay unused and no input file is written. '
     'A strategy is written only if there is one, and an output file that cannot be opened or was not written completely gives an error instead of a normal end.',
     ['inputs', 'fault_sequences'], 'every option combination, every number of file names, and every failure of opening, writing or closing the output file',
     'full disks and unwritable files do not occur in tests; wrong file name order overwrites the specification only for particular combinations',
     ['src/main.cpp', 'src/gr1context.hpp', 'src/extensionExtractExplicitStrategy.hpp', 'src/extensionPermissiveExplicitStrategy.hpp', 'src/extensionExtractExplicitCounterstrategy.hpp', 'src/extensionExtractSymbolicStrategy.hpp', 'src/extensionTwoDimensionalCost.hpp', 'src/extensionNondeterministicMotion.hpp'],
     [('file names', 'init(std::list<std::string>&) of every class'), ('output', 'execute of the extraction classes')],
     note='Abstract run of init with 0 to 4 symbolic file names and of execute with a typestate (error flag, unflushed data) for the output stream.')

prop('C15', 'Exit status 0 means the analysis ran; errors give a message and a status',
     'The program ends with status 0 only after the analysis of a valid specification and option combination has run to its end (or only the help text was asked for). '
     'Undeclared options, superfluous file names, combinations that are not permitted, and every exception thrown by any part of the program lead to a message on the standard error stream and a non-zero exit status, never to an uncaught exception.',
     ['inputs', 'fault_sequences'], 'every command line, every input file and every exception of the listed types at any point of the analysis',
     'each kind of failure at each program point would need its own test',
     ['src/main.cpp', 'src/bddDump.h', 'src/gr1context.hpp'],
     [('main program', 'main'), ('exception types', 'every throw expression in src/')],
     note='Exception types are enumerated from all throw expressions (and the standard library) and matched against the handlers, each of which is interpreted.')

prop('C16', 'BDD handles own exactly one reference and compute what they are named for',
     'Every value that holds a Boolean function keeps that function alive until it is destroyed or overwritten, no function is used after it was released, and every reference is given back exactly once, for copies, moves, assignments (also to itself), and destruction in any order. '
     'Each operation on functions, sets of variables and lists of variables yields the result its name and operands say.',
     ['programs', 'inputs', 'schedules'], 'every operation of the function handles, every alias between its operands, and every use of them in the program',
     'a missing reference only shows when garbage collection or reordering happens to reclaim the node; tests hardly trigger either',
     ['src/BFAbstractionLibrary/BFCudd.h', 'src/BFAbstractionLibrary/BFCuddInlines.h', 'src/BFAbstractionLibrary/BFCuddManager.h', 'src/BFAbstractionLibrary/BFCuddManager.cpp', 'src/BFAbstractionLibrary/BFCuddVarCube.h', 'src/BFAbstractionLibrary/BFCuddVarVector.h', 'src/variableManager.hpp'],
     [('handles', 'BFBdd, BFBddVarCube, BFBddVarVector, BFBddManager'), ('owners', 'classes with a manager member and handle members')],
     technique='ownership (reference count) typestate analysis over all paths of each handle operation, plus a structural rule for member order and destructors',
     note='Reference counts per abstract node, for every alias and null variant of the operands; raw library calls are classified by the reference they return or need.')

prop('C18', 'Variable groups hold exactly the variables of their kinds, copies paired',
     'A group of variables declared with a list of kinds contains exactly the variables of these kinds and of the kinds below them, once each, also after variables have been added and the groups computed again. '
     'The lists that are used to rename variables contain the variables in an order such that the present and the next copy of each variable correspond.',
     ['configurations', 'inputs'], 'every kind of variables, every group that some class declares, every set of variables and every renaming',
     'most kinds only occur in rarely used option combinations, and the example specifications use few of them',
     ['src/variableManager.cpp', 'src/variableManager.hpp', 'src/variableTypes.hpp'],
     [('groups', 'SlugsVariableManager::computeVariableInformation'), ('kinds', 'REGISTER_VARIABLE_TYPE_HIERARCHY'), ('renamings', 'every call of SwapVariables')],
     note='The value of each group is derived as a comprehension over kinds and variables and compared with its definition.')

prop('C19', 'Written strategies and counterstrategies are well-formed documents',
     'Whatever the specification, an explicit strategy written as JSON is one complete JSON document with the variable names and, for every state, its rank, its valuation and its successors; the text formats list every state with number, rank, valuation and successors in the documented layout. '
     'Separators stand exactly between elements, also in empty lists and at the end, and the extra header of a symbolic strategy file consists of comment lines only.',
     ['inputs', 'configurations'], 'every specification and thus every number of states, variables and successors, in every option combination that writes a strategy',
     'the tests only look at the verdict and never parse what is written',
     ['src/extensionExtractExplicitStrategy.hpp', 'src/extensionExtractExplicitCounterstrategy.hpp', 'src/extensionPermissiveExplicitStrategy.hpp', 'src/extensionExtractSymbolicStrategy.hpp'],
     [('strategy', 'XExtractExplicitStrategy::computeAndPrintExplicitStateStrategy'), ('counterstrategy', 'XExtractExplicitCounterStrategy::computeAndPrintExplicitStateStrategy'),
      ('permissive', 'XExtractPermissiveExplicitStrategy'), ('symbolic header', 'XExtractSymbolicStrategy')],
     technique='Typestate dataflow analysis of the output stream over the syntax tree: the set of reachable (flag values, list emptiness, monitor state) triples is computed as a fixed point; the monitor is an incremental JSON parser with schema or a finite automaton of the text format; rejection names the write statement.',
     note='Decides the text layout only; which numbers, names and values are written is decided by C05, C07, C08 and C09.')

prop('C24', 'Diagram operations hold and release references exactly',
     'Every operation of the decision diagram package gives back exactly the references to intermediate diagrams that it took, whether it succeeds or gives up (memory, time limit, reordering), and returns its result without a reference of its own. '
     'No operation uses an intermediate diagram that a garbage collection in between may have reclaimed.',
     ['inputs', 'schedules', 'fault_sequences'], 'every path of every operation of the package outside the reordering and table code, every operand relation, every point at which an inner operation gives up',
     'the failing paths only run when reordering, a time limit or memory interrupts an operation at one particular point; a lost reference is only a slow leak, a missing one shows only when a collection hits the gap',
     ['lib/cudd-3.0.0/cudd/cuddBddIte.c', 'lib/cudd-3.0.0/cudd/cuddBddAbs.c', 'lib/cudd-3.0.0/cudd/cuddAndAbs.c', 'lib/cudd-3.0.0/cudd/cuddCompose.c', 'lib/cudd-3.0.0/cudd/cuddGenCof.c', 'lib/cudd-3.0.0/cudd/cuddSat.c', 'lib/cudd-3.0.0/cudd/cuddZddFuncs.c'],
     [('operations', 'all functions of lib/cudd-3.0.0/cudd that take a manager and create or reference nodes')],
     technique='ownership (reference count) typestate analysis along all paths of the type-checked syntax tree',
     note='Loops are followed for up to two rounds; nodes kept in tables, arrays and structures, and the reordering and table code, are not decided (listed as undecided).')

prop('C25', 'Cached results are stored and reused for the same operation and operands',
     'A result that an operation of the decision diagram package takes from the computed table is the result of the same operation on the same operands in the same order and with the same complementation. '
     'Whether a result was found or newly computed makes no difference to what is returned.',
     ['inputs', 'histories'], 'every operation that uses the computed table, every operand, every earlier sequence of operations',
     'a wrong entry only shows when two particular operations meet in one table slot, which depends on the whole history of operations',
     ['lib/cudd-3.0.0/cudd/cuddBddIte.c', 'lib/cudd-3.0.0/cudd/cuddBddAbs.c', 'lib/cudd-3.0.0/cudd/cuddAndAbs.c', 'lib/cudd-3.0.0/cudd/cuddGenCof.c', 'lib/cudd-3.0.0/cudd/cuddSat.c', 'lib/cudd-3.0.0/cudd/cuddInt.h'],
     [('table', 'cuddCacheLookup*, cuddCacheInsert* and every function that calls them')],
     technique='dataflow analysis of operation tags and operands (with symbolic complement attributes) along all paths of the type-checked syntax tree',
     note='Agreement is decided per operation: what is stored is compared with what was looked up on the same path; tags must not be shared.')

prop('C26', 'Operations interrupted by reordering start again from their operands',
     'When variables are reordered while an operation of the decision diagram package runs, the operation is repeated from its operands until it completes under one variable order, and the caller gets the complete result. '
     'No part of a computation continues across a change of the variable order.',
     ['schedules', 'inputs'], 'every public operation and every computation that may trigger reordering, every point at which reordering may happen',
     'reordering starts at node counts that no small test reaches inside a particular operation',
     ['lib/cudd-3.0.0/cudd/cuddBddIte.c', 'lib/cudd-3.0.0/cudd/cuddBddAbs.c', 'lib/cudd-3.0.0/cudd/cuddAndAbs.c', 'lib/cudd-3.0.0/cudd/cuddCompose.c', 'lib/cudd-3.0.0/cudd/cuddTable.c'],
     [('repetition loops', 'all public functions of lib/cudd-3.0.0/cudd'), ('giving up', 'cuddUniqueInter, cuddUniqueInterZdd and everything that calls them')],
     technique='call graph effect analysis (may give up for reordering) with a placement rule for the calls',
     note='Effects are propagated over the call graph of the package; each call with the effect must lie in a repetition loop that clears the mark.')

prop('C30', 'Interleaving analysis lists outputs that can be set before the input is known',
     'With --analyzeInterleaving the verdict is the one of the specification without the option, and for a realizable specification every listed output can be set before the next input is known, all listed ones together, while the specification stays realizable. '
     'An output is left out only if committing to it together with the ones listed before it makes the specification unrealizable.',
     ['inputs'], 'every specification, every number of outputs and every subset of them that can be committed early',
     'no stable test uses the option, and the set of outputs that can be set early depends on the whole game',
     ['src/extensionInterleave.hpp', 'src/synthesisAlgorithm.cpp'],
     [('candidate loop and commitment games', 'XInterleave::checkRealizability')],
     note='The game solved for a set of committed outputs is derived as a fixed-point term and compared with the definition; the loop over the outputs is checked to keep a candidate exactly when the game stays realizable.')
prop('C31', 'Nondeterministic motion mode decides the game with adversarial motion',
     'With --nonDeterministicMotion the verdict is the value of the game in which the system chooses controller actions and other outputs after seeing the input, and every motion that the motion abstraction file and the assumptions allow may happen. '
     'The motion file is read over present motion state, controller output and next motion state, and one liveness assumption is added: an action that can change the motion state infinitely often changes it.',
     ['inputs'], 'every specification and motion abstraction, with and without robotics initialisation',
     'no stable test uses the option, and the result depends on the order of input, action and motion quantification in every state',
     ['src/extensionNondeterministicMotion.hpp'],
     [('game', 'XNonDeterministicMotion::checkRealizability'), ('automatic assumption', 'XNonDeterministicMotion::addAutomaticallyGeneratedLivenessAssumption'),
      ('reading', 'XNonDeterministicMotion::init')],
     note='Winning region, verdict, added assumption and the variable order for the motion file are derived as terms and compared with the definitions.')


prop('C17', 'Diagram operations compute the Boolean function they are named for',
     'Conjunction, negation, if-then-else, quantification, renaming and the other operations on diagrams yield, for all operands and under every variable order, the diagram of '
     'exactly the Boolean function they name, and equal functions are always represented by the same node.',
     ['inputs', 'histories'], 'all operands, orders and histories of operations', 'the package tests compare a few functions',
     ['lib/cudd-3.0.0/cudd/cuddBddIte.c', 'lib/cudd-3.0.0/cudd/cuddTable.c'], [('recursive operations', 'cuddBddIte.c, cuddBddAbs.c, cuddCompose.c')],
     na='An inductive semantic fact about heap data that the recursion builds; the static rules decide references, cache keys and reordering (C24 to C26), not the function computed.')

prop('C20', 'Every analysis ends',
     'For every specification and option combination the program ends with a verdict, a strategy or an error message and never runs for ever.',
     ['inputs', 'configurations'], 'all specifications and option sets', 'tests run ten specifications',
     ['src/synthesisAlgorithm.cpp'], [('fixed points', 'BFFixedPoint loops'), ('exploration', 'todo lists')],
     na='Ends because monotone iterations over finite sets become stationary and state tables are finite: bounds on run-time quantities that the value analysis does not provide (the forms of non-termination by a wrong goal pointer are decided in C05 and C07).')

prop('C22', 'The same input gives the same output',
     'Two runs on the same files and options write byte-identical strategies and messages.',
     ['inputs', 'histories'], 'all inputs, memory layouts and reordering points', 'tests compare verdicts only',
     ['src/extensionExtractExplicitStrategy.hpp'], [('enumeration', 'GR1Context::determinize and the state table')],
     na='Depends on the variable order that automatic reordering reaches and on addresses used as keys; both are chosen at run time.')

prop('C27', 'Structured specifications are translated to equivalent ones',
     'Translating a specification with bounded integer variables and arithmetic keeps its meaning: the translated specification is realizable exactly when the integer one is, and values outside the ranges never occur.',
     ['inputs', 'programs'], 'all structured specifications', 'the example translations cover single operators',
     ['tools/StructuredSlugsParser/compiler.py'], [('bit encoding of arithmetic', 'tools/StructuredSlugsParser/compiler.py')],
     na='The meaning of the generated text is a function of bit vectors of run-time width built by string concatenation in untyped Python; no static argument in reach relates it to integer arithmetic.')

prop('C32', 'Cooperative strategies do not falsify assumptions needlessly',
     'A cooperative strategy wins the specified game, and from each of its states the environment can still satisfy its assumptions as long as this is compatible with winning.',
     ['inputs'], 'all specifications', 'no test runs this mode',
     ['src/extensionCooperativeGR1Strategy.hpp'], [('four nested fixed point', 'XCooperativeGR1 computeWinningPositions')],
     na='The nested loops exchange strategies and sets between levels for which no closed form was found (the values remain uninterpreted); gating, files, options and documents of the mode are decided in C04, C10 to C15 and C19.')

prop('C33', 'Two-dimensional cost mode minimises the documented cost',
     'The strategy in two-dimensional cost mode is a winning one with the least worst-case combination of waiting and action cost.',
     ['inputs'], 'all specifications and cost files', 'no test runs this mode',
     ['src/extensionTwoDimensionalCost.hpp'], [('cost levels', 'XTwoDimensionalCost computeWinningPositions')],
     na='Optimality ranges over floating-point cost levels ordered at run time; no static bound in reach.')

prop('C34', 'Estimator synthesis under incomplete information is sound',
     'The estimator built for a specification with unobservable variables never claims knowledge that a run does not justify.',
     ['inputs', 'histories'], 'all specifications and runs', 'no test runs this mode',
     ['src/extensionIncompleteInformationEstimatorSynthesis.hpp'], [('estimator construction', 'XIncompleteInformationEstimatorSynthesis')],
     na='A statement about a subset construction over variables that are created while the algorithm runs; the categories the analysis relies on are not fixed before.')

prop('C35', 'Weakened assumptions keep the specification realizable',
     'The reported weakening of the safety assumptions is one under which the specification is still realizable, and none that is weaker in the searched order was skipped.',
     ['inputs'], 'all specifications', 'no test runs this mode',
     ['src/extensionWeakenSafetyAssumptions.hpp'], [('search over weakenings', 'XComputeWeakenedSafetyAssumptions')],
     na='The search enumerates cubes picked at run time; minimality is a property of that enumeration order.')

prop('C37', 'Printed traces and runs are possible behaviours',
     'Abstract winning traces and interesting runs that are printed are sequences of positions that the specification allows.',
     ['inputs', 'histories'], 'all specifications', 'no test runs these modes',
     ['src/extensionAbstractWinningTraceGenerator.hpp', 'src/extensionComputeInterestingRunOfTheSystem.hpp'], [('trace search', 'execute of both modes')],
     na='The traces are chosen step by step from sets computed at run time with layered data-dependent searches (no role-based closed form).')


def emit():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': "python3-vt -c 'from sa import load; load.program()'",
         'checks': [], 'not_applicable': [],
         'notes': 'All checks are static: they parse /repo with clang\'s front end and decide on the extracted program; nothing of /repo is executed.'}
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt -m sa.run %s quick' % p['id'],
                                'thorough_cmd': 'python3-vt -m sa.run %s thorough' % p['id'],
                                'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    emit()
