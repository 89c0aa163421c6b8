"""Write properties.jsonl (edit here, then run)."""
import json
import os
import sys

P = list()


def prop(id, title, statement, over, text, why, files, mech, observe,
         state=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=False)))


prop('C01', 'Conversions of LTL idioms to GR(1) are equivalent',
     'The GR(1) specifications produced for response "always (p implies eventually q)", "eventually p" and "p until q" hold on an infinite behavior, for some behavior of the auxiliary variable, exactly when the original formula holds; for stability "eventually always p" every behavior that satisfies the produced specification satisfies the formula. Splitting an "assumptions imply guarantees" formula, each side a conjunction of initial, always, and infinitely-often parts, into a GR(1) specification keeps its meaning.',
     ['inputs', 'histories'], 'all subformulas p, q (Boolean structure), all infinite behaviors of their variables and of the auxiliary variable',
     'The tests run each conversion on one formula and compare with a fixed string or synthesize once; equivalence quantifies over every infinite behavior.',
     ['tulip/spec/gr1_fragment.py'],
     [('conversions', 'tulip/spec/gr1_fragment.py:response_to_gr1, eventually_to_gr1, until_to_gr1, stability_to_gr1'), ('splitting', 'tulip/spec/gr1_fragment.py:str_to_grspec, split_gr1')],
     'the returned GRSpec: variables, initial conditions, safety, progress formulas')
prop('C02', 'Parsing and translating a formula preserves its meaning',
     'Every formula written in the documented syntax (operators in each documented spelling, precedence and associativity as documented, parentheses, identifiers, signed numbers, quoted strings) when parsed and written out again, or translated to the syntax of another tool (gr1c, slugs, JTLV, Promela, SMV, Wring, python), denotes in that syntax the same set of infinite behaviors. This holds for every formula whose operators the target syntax can express.',
     ['programs', 'histories'], 'all formulas over Boolean, integer, string variables; all behaviors',
     'The tests compare a handful of formulas as strings; wrong precedence, a dropped parenthesis or a mis-mapped operator in another combination passes.',
     ['tulip/spec/lexyacc.py', 'tulip/spec/parser.py', 'tulip/spec/ast.py', 'tulip/spec/translation.py'],
     [('lexer and grammar', 'tulip/spec/lexyacc.py'), ('syntax tree flattening', 'tulip/spec/ast.py:flatten'), ('dialects', 'tulip/spec/translation.py:make_*_nodes, translate_ast')],
     'text returned by flattening the translated syntax tree')
prop('C03', 'Rewriting a specification preserves its meaning',
     'Operations that rewrite a GR(1) specification keep its meaning: canonical text of a specification is the implication from its assumptions to its guarantees, its text file dump loads back to the same formula and variable domains, a copy is equal and independent, and the union of two specifications is the conjunction of their parts over the union of their variables. Replacing string values by integers, quoting inferred constants, substituting values for variables, replacing dependent Boolean variables by formulas, and compiling initial conditions to a python predicate each give the formula that evaluates, in every state, as the original does under that replacement.',
     ['programs', 'inputs'], 'all specifications (clauses, domains) and all variable valuations',
     'Tests rewrite single formulas and look at the resulting strings.',
     ['tulip/spec/form.py', 'tulip/spec/transformation.py'],
     [('canonical text, copy, union, dump and load', 'tulip/spec/form.py:GRSpec, LTL'), ('tree rewriting', 'tulip/spec/transformation.py')],
     'returned formulas and specifications, evaluated code')
prop('C04', 'A transition system converted to a specification has the same behaviors',
     'The specification that synthesis derives from a labeled finite transition system (of the system or of the environment, closed or open, with one or several kinds of actions) is satisfied by exactly the sequences of states, actions and atomic propositions that are executions of the transition system. Initial states, state labels, transition actions, dead ends and the options that ignore initial states are all respected.',
     ['inputs', 'histories'], 'all small labeled transition systems, all sequences of variable valuations',
     'Tests compare generated strings, or synthesize a controller for one system.',
     ['tulip/synth.py', 'tulip/transys/transys.py'],
     [('conversion', 'tulip/synth.py:sys_to_spec, env_to_spec'), ('merge with spec', 'tulip/synth.py:synthesize')],
     'the returned GRSpec')
prop('C05', 'A specification file written for a solver denotes the specification',
     'The text given to an external solver (gr1c, slugs, JTLV, Wring formats) for a GR(1) specification declares the same variables with the same value ranges for each player and states the same initial, safety and progress assumptions and guarantees, with string values replaced by their position in the domain. The written file is satisfied by the same behaviors as the specification, for every mix of empty and nonempty parts and several clauses in a part. Writing leaves the specification as it was, a specification changed afterwards is written as changed, and clauses with a primed variable where the format has no room for one are refused.',
     ['programs', 'histories'], 'all specifications in bounds, all behaviors',
     'Tests check single strings, and external solvers are not run on most.',
     ['tulip/spec/translation.py', 'tulip/spec/form.py', 'tulip/interfaces/slugs.py'],
     [('writing', 'tulip/spec/translation.py:translate, to_lang')], 'text returned by the translator')
prop('C06', 'Exclusivity and finite-domain encodings constrain exactly as documented',
     'The helper formulas for "at most one", "exactly one" and for declaring a finite set of states or actions as variables hold in a valuation exactly when at most one, exactly one, respectively one valid element (or at most one if absence is allowed) is selected. Every element of the set has its own distinct value in the encoding.',
     ['inputs'], 'all sets of names in bounds, all valuations',
     'Tests check formula strings for two or three names.',
     ['tulip/synth.py'],
     [('mutual exclusion', 'tulip/synth.py:mutex, exactly_one'), ('encodings', 'tulip/synth.py:iter2var')],
     'returned formulas, variables and value formulas')
prop('C07', 'The Mealy machine built from a strategy has the same behaviors',
     'The Mealy machine built from an enumerated strategy produces, for every sequence of inputs that the strategy covers, exactly the outputs of the strategy, starting from exactly the initial inputs and outputs that satisfy the initial condition of the specification. Restricting it to one initial reaction leaves one output per covered initial input, and removing outputs from a machine leaves its behavior on the remaining variables unchanged.',
     ['inputs', 'histories'], 'all small strategy graphs and input sequences',
     'Tests check number of nodes of a few synthesized strategies.',
     ['tulip/synth.py'],
     [('conversion', 'tulip/synth.py:strategy2mealy'), ('determinization', 'tulip/synth.py:determinize_machine_init'), ('projection', 'tulip/synth.py:mask_outputs')],
     'the returned MealyMachine')
prop('C08', 'Synthesized controllers satisfy their specification, verdicts agree',
     'When synthesis returns a controller, every infinite behavior of that controller, for every behavior of the environment allowed by the assumptions, satisfies the GR(1) specification, including initial conditions, domains of variables, and both Moore and Mealy information structure; the controller never blocks while the environment keeps to its assumption. When synthesis reports that a specification is unrealizable, no finite-state controller implements it.',
     ['programs', 'histories'], 'all small GR(1) specifications, all environment behaviors',
     'Tests synthesize for a few specifications and check the number of states.',
     ['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py'],
     [('solver calls', 'tulip/interfaces/omega.py:synthesize_enumerated_streett, tulip/interfaces/gr1py.py'), ('dispatch', 'tulip/synth.py:synthesize')],
     'returned machine or None')
prop('C09', 'Running and converting finite-state machines preserves behavior',
     'Executing a Mealy machine step by step or in a guided run yields the successor and outputs of the transition whose input matches, and every run follows transitions of the machine. An interactive run offers the transitions from the current state, asks again when the selection is not recognized, moves along the selected transition, and stops when asked to or when no transition remains. Converting a Moore machine to a Mealy machine and a Mealy machine to a Moore machine preserves the set of input-output sequences, and removing ports keeps the behavior over the remaining ports.',
     ['inputs', 'histories'], 'all small machines and input sequences',
     'Tests run one machine on one input sequence.',
     ['tulip/transys/machines.py'],
     [('execution', 'tulip/transys/machines.py:MealyMachine.reaction, guided_run'), ('conversion', 'tulip/transys/machines.py:moore2mealy, mealy2moore, strip_ports')],
     'returned states, outputs and machines')
prop('C10', 'Exported controller code reproduces the controller',
     'The python code exported from a Mealy machine, when loaded and run, returns for every sequence of inputs exactly the outputs that the machine produces along its transitions, and rejects inputs for which the machine has no transition. This holds from the initial state and after any number of steps.',
     ['programs', 'inputs', 'histories'], 'all small machines, all input sequences',
     'Tests export one machine and run a few steps.',
     ['tulip/dumpsmach.py'], [('code generation', 'tulip/dumpsmach.py:python_case, write_python_case')],
     'outputs and exceptions of the generated class')
prop('C11', 'Abstraction by simulation computes the coarsest relation',
     'For every labeled finite transition system, `simu_abstract` with bisimulation groups states exactly when they are bisimilar (equal sets of atomic propositions, however these are written), and with dual simulation the smallest cell that contains a state consists exactly of the states that simulate it. In both cases the returned system has one state for each cell, a transition between cells exactly when each state of the source cell has a transition into the target cell, the label of the states of the cell, as initial states the cells that contain initial states, and the same atomic propositions; the two returned maps between states and cells are inverses of each other. This holds with any names of states and any types of actions, and the given system does not change.',
     ['inputs'], 'all small labeled transition systems',
     'Tests check two example systems.',
     ['tulip/transys/transys.py'],
     [('abstraction', 'tulip/transys/transys.py:simu_abstract')], 'returned abstract system and its state map')
prop('C12', 'Products of automata and transition systems match their definition',
     'The synchronous product of a Buechi automaton and a finite transition system has as runs from its initial states exactly the pairs of an execution of the transition system and a run of the automaton that reads the labels of the visited states, and its accepting states are those whose automaton part is accepting. The on-the-fly product gives the same reachable graph as the eager one.',
     ['inputs'], 'all small automata and transition systems',
     'Tests compare one product.',
     ['tulip/transys/products.py', 'tulip/transys/automata.py'], [('products', 'tulip/transys/products.py')], 'returned product systems')
prop('C13', 'Parallel composition, products and policies of probabilistic models are exact',
     'Synchronous parallel composition of Markov chains and decision processes has exactly the joint states, actions, transitions, labels, and products of probabilities that the definition prescribes. Restricting a decision process to a policy, or running it in composition, keeps exactly the chosen transitions and their probabilities.',
     ['inputs'], 'all small models, symbolic probabilities',
     'Tests compose two hand written models.',
     ['tulip/transys/compositions.py'], [('composition', 'tulip/transys/compositions.py:synchronous_parallel, apply_policy')], 'returned models')
prop('C14', 'Vector costs are totally ordered and shortest paths are optimal',
     'Vector costs compare lexicographically, consistently across all comparison operators, and add componentwise. Shortest paths computed between states of a weighted transition system (with nonnegative costs) have a total cost that no other path improves on, and a path is reported exactly when one exists.',
     ['inputs'], 'all costs, all small graphs',
     'Tests fix a few numbers and one graph.',
     ['tulip/transys/cost.py', 'tulip/transys/mathset.py', 'tulip/transys/algorithms.py'],
     [('order', 'tulip/transys/cost.py:VectorCost'), ('search', 'tulip/transys/algorithms.py or mvp: dijkstra')], 'comparison results, returned cost and path')
prop('C15', 'Minimum-violation plans are optimal',
     'The plan returned for a weighted transition system, a goal and prioritized safety rules is an execution that starts in an initial state and reaches the goal, its reported cost and rule violations are those it really incurs, and no other execution that reaches the goal has a lexicographically smaller violation vector and cost. A step violates a rule if the rule automaton has no transition for it; the automaton may then continue in any of its states.',
     ['inputs'], 'all small systems, rules and costs',
     'Tests solve one planning problem.',
     ['tulip/mvp.py', 'tulip/spec/prioritized_safety.py'], [('planning', 'tulip/mvp.py:solve'), ('rules', 'tulip/spec/prioritized_safety.py')], 'returned cost, path and products')
prop('C16', 'Mathematical set containers behave as sets',
     'The set containers (with hashable and unhashable elements, subsets of a fixed superset, power sets, Cartesian products, type-checked dictionaries) agree with the mathematical operations: membership, union, intersection, difference, inclusion, equality, size, addition and removal. A subset never comes to contain an element outside its superset, and a type-checked dictionary never holds a value outside the allowed values of its key.',
     ['inputs', 'histories'], 'all small sets and operation sequences',
     'Tests exercise a few operations on fixed values.',
     ['tulip/transys/mathset.py'], [('containers', 'tulip/transys/mathset.py')], 'results and contents')
prop('C17', 'Labeled graphs stay consistent under edits and answer queries exactly',
     'After any sequence of adding and removing states, initial states, transitions and labels, a labeled graph holds exactly the states, transitions and labels that the sequence denotes, initial and accepting states remain states, labels remain in their declared domain, and rejected operations leave it unchanged. Searching for states or transitions by label, pre- and post-images, reachability queries, and removal of dead ends return exactly what the contents imply.',
     ['histories', 'inputs'], 'all short edit sequences and queries',
     'Tests run a fixed sequence of edits.',
     ['tulip/transys/labeled_graphs.py', 'tulip/transys/transys.py', 'tulip/transys/automata.py'], [('containers', 'tulip/transys/labeled_graphs.py')], 'states, transitions, labels, query results')
prop('C18', 'Gridworlds and their specifications describe the same motion',
     'The specification generated for a gridworld is satisfied by exactly the sequences of positions that start in an allowed initial cell, move to an adjacent free cell or stay, avoid obstacles, and visit every goal infinitely often. Reachability queries agree with paths through free cells; text dump and load, copy, equality, sub-world extraction and scaling preserve the described world. Trolls (moving obstacles) start at their center, or anywhere in their region if so chosen, move likewise among the free cells of their region, return to their center infinitely often, and never share a cell with the controlled robot after a step. Random and narrow-passage worlds have the requested numbers of distinct free initial and goal cells, and are connected where this is guaranteed.',
     ['inputs', 'histories'], 'all small gridworlds and motion sequences',
     'Tests use a few fixed worlds and compare strings or realizability.',
     ['tulip/gridworld.py'], [('gridworld', 'tulip/gridworld.py:GridWorld')], 'generated specification, query results')
prop('C19', 'Loading solver output reproduces the strategy',
     'Loading a strategy that a solver printed (JSON or XML of gr1c, from text or file and for any XML namespace, or explicit JSON of slugs) yields a graph with exactly the printed nodes, edges, variables with their domains, values of variables at nodes, initial nodes and annotations that are printed; integers that slugs prints as bits are decoded from the lower end of their range. Nothing of the printed strategy is lost or invented. An XML document without automaton yields its specification. The solver is given the translated specification and the interpretation of initial conditions that the specification asks for, at least the minimum version of the solver is required, and its answer (realizable or not, strategy or none, error) is what is returned. In interactive sessions with gr1c, commands list values of environment then system variables in the order given, and all answers are returned.',
     ['inputs'], 'all small strategies and variable domains',
     'Solvers are not installed when testing; the loaders are tested on single files.',
     ['tulip/interfaces/gr1c.py', 'tulip/interfaces/slugs.py'], [('loaders', 'tulip/interfaces/gr1c.py:load_aut_json, load_aut_xml; tulip/interfaces/slugs.py')], 'returned strategy graph')
prop('C20', 'Reachability constraint matrices encode the dynamics exactly',
     'The linear constraints constructed for an N-step transition of a (piecewise) affine system hold for an initial state and input sequence exactly when every state along the trajectory, every input (possibly constrained together with the state), and the final state satisfy their constraints for every disturbance in the disturbance set (a polytope with nonempty interior; if empty, there is no disturbance), at the steps where disturbances are taken into account. The worst-case effect over all disturbance sequences is found exactly.',
     ['inputs'], 'all states, inputs, disturbances; system matrices in bounds',
     'Tests discretize one system and check a few random points.',
     ['tulip/abstract/feasible.py'], [('matrices', 'tulip/abstract/feasible.py:createLM, get_max_extreme')], 'returned inequality')
prop('C21', 'Discrete abstractions of continuous systems are sound',
     'Every transition of the discrete abstraction of a continuous (piecewise) affine system, or of one mode of a switched system, can be realized: from every continuous state of the source cell, inputs within bounds drive the system, for every allowed disturbance, into the target cell within the abstraction horizon (exactly N steps, unless bounded horizons are requested), choosing inputs by measuring each state in closed loop, or in advance in open loop, without leaving the convex cell of the given partition (conservative: the given proposition cell) meanwhile. Cells of the partition cover the domain, do not overlap (bisimulation), each carries exactly the propositions that hold in it and lies within the domain of its active subsystem; refinements (convexification, grids, subsystems) preserve this. The control inputs computed by `get_input` for a given state and target cell realize the transition for every disturbance (in closed loop: the first input keeps it realizable), whatever the weights, without changing the given arguments. `find_discrete_state` returns the first cell that contains a state, and `is_seq_inside` tells whether a sequence of inputs realizes a transition.',
     ['inputs'], 'all continuous states in the cells of each example system',
     'Tests simulate from a few points.',
     ['tulip/abstract/discretization.py', 'tulip/abstract/prop2partition.py', 'tulip/abstract/find_controller.py'],
     [('discretization', 'tulip/abstract/discretization.py:discretize'), ('partition', 'tulip/abstract/prop2partition.py'), ('control', 'tulip/abstract/find_controller.py:get_input')], 'returned abstraction and inputs')
prop('C22', 'Never claims load as the automaton they describe',
     'Parsing the Promela never claim that `ltl2ba` prints for an LTL formula yields a Buechi automaton with exactly the states, initial states (`..._init`), accepting states (`accept_...`, also when initial), atomic propositions, and transitions that the claim describes, including `skip` (self-loop) and `false` (no transition) statements, each guard equivalent to the one printed (`!` binds tighter than `&&`, which binds tighter than `||`). Hence it accepts exactly the words that the claim accepts. The same holds for the automaton that function `ltl2ba` returns, and when a parser is used again; a failure of the translator raises an exception.',
     ['inputs', 'histories'], 'all small never claims, all words',
     'Tests use one formula, when the translator is installed.',
     ['tulip/interfaces/ltl2ba.py'], [('parser', 'tulip/interfaces/ltl2ba.py:Parser')], 'returned automaton')
prop('C23', 'Probabilistic model checking answers for the given model',
     'A Markov chain or decision process (with choices at every state, and a single initial state) written for the probabilistic model checker has exactly the states, actions, probabilities, labels and initial state of the model. Reading a written model gives the model that is reachable from the initial state, up to names of states, and of actions at each state. When states have different labels, the computed probability for each reachable state is the answer of the model checker for that state of the model (for reachability, the probability of reaching the label), and an extracted policy selects at each reachable state an action enabled there that has the probabilities of the choice the model checker made (so it is optimal for reachability).',
     ['inputs'], 'all small models', 'Tests check two models.',
     ['tulip/interfaces/stormpy.py'], [('interface', 'tulip/interfaces/stormpy.py')], 'written model, returned results')
prop('C24', 'Systems built from descriptions, and exported systems, are those described',
     'Transition systems and Buchi automata built from a tuple of states, initial (or accepting) states, atomic propositions or alphabet, labels (listed in the order of states, or paired with states), actions and transitions, with or without a prefix for names of states, and lines and cycles built from a sequence of labels (a string is the singleton of that proposition), have exactly the described states, initial and accepting states, alphabet, labels and transitions; making states initial by label selects exactly the states with those labels. Game graphs tell who controls states and edges and their colors as declared. A transition system exported as Promela is a process whose steps between states with values of propositions are those of the system, starting in the initial states; a Mealy machine exported as SCXML, and a graph drawn by GraphViz, show exactly the states, initial (and accepting) states, labels and transitions of the system.',
     ['inputs'], 'all small descriptions and systems',
     'Tests rarely build systems from tuples, and do not read what is exported.',
     ['tulip/transys'], [('builders', 'tulip/transys/transys.py:tuple2fts, line_labeled_with, cycle_labeled_with, add_initial_states; tulip/transys/automata.py:tuple2ba, ParityGame'), ('exporters', 'tulip/transys/export')], 'constructed graph, exported text')
prop('C25', 'Hybrid systems are accepted exactly when well defined',
     'Constructing an affine system succeeds exactly when A is square and the sizes of B, E, K, the input set (of inputs, or of inputs and states), disturbance set, and domain agree; a piecewise-affine system is accepted exactly when its subsystems have equal dimensions, and their domains cover the domain of the system without overlapping (up to sets with empty interior); a switched system exactly when the numbers of labels are those declared and its modes are combinations of labels, each with piecewise-affine dynamics. Time semantics and time step are accepted exactly when valid (known semantics, positive time step, no time step for discrete time); when overwriting time data they hold afterwards for all subsystems at all levels, and otherwise subsystems are accepted only if they all agree. Accepted systems have the given matrices, sets, modes and dynamics, with zero offset and zero disturbance matrix when none is given, also when built from a single affine or piecewise-affine system.',
     ['inputs'], 'all small descriptions',
     'Tests construct a few systems in one or two dimensions, mostly about time data.',
     ['tulip/hybrid.py'], [('systems', 'tulip/hybrid.py:LtiSysDyn, PwaSysDyn, SwitchedSysDyn')], 'accepted or error, attributes of the system')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
