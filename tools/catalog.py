"""
The catalogue of properties: generates properties.jsonl and MANIFEST.json.
    python3 tools/catalog.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "src/andromede/expression/"
M = "src/andromede/model/"
S = "src/andromede/simulation/"
T = "src/andromede/study/"
I = "src/andromede/input_converter/src/"

P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                hook_needed=None,
            ),
            _note=note,
        )
    )


prop(
    "C01",
    "Expressions built with operators mean what arithmetic says",
    "An expression built from variables, parameters, literals and Python numbers with +, -, *, / (on either side) and negation evaluates, for every value of its variables and parameters, to the value ordinary arithmetic gives; sums of expressions evaluate to the sum of their operands. "
    "Building an expression never changes the meaning of the expressions it was built from, and the literal simplifications never change a value (0 and 1 included).",
    ["programs", "inputs"],
    "all chains of operators over all kinds of operands, all real values",
    "tests build a few fixed expressions with one or two values; simplification rules on 0, 1 and on reflected operands depend on values the tests do not use",
    [E + "expression.py", E + "evaluate.py"],
    [("operator overloads of ExpressionNode", E + "expression.py"), ("evaluate", E + "evaluate.py")],
    "values modelled as exact reals",
)
prop(
    "C02",
    "The text of an expression has its conventional meaning",
    "Parsing the text of an expression over declared variables and parameters yields an expression with the conventional meaning: usual precedence and left associativity of + - * /, signs, parentheses, spaces and number formats, x[t+k] is a time shift, x[k] an evaluation at timestep k, sum(a .. b, e), sum(e), expec(e), port fields p.f and sum_connections(p.f), and comparisons <=, >=, = relate their two sides. "
    "Shift amounts follow the same arithmetic conventions.",
    ["programs", "inputs"],
    "all texts of the grammar up to the stated size, all values of names and numbers",
    "tests parse about thirty fixed texts and compare trees; precedence and associativity combinations, signs in shifts and nested forms are unbounded",
    [E + "parsing/parse_expression.py", E + "parsing/antlr/ExprParser.py", E + "parsing/antlr/ExprLexer.py", "grammar/Expr.g4"],
    [("ExpressionNodeBuilderVisitor", E + "parsing/parse_expression.py"), ("grammar", "grammar/Expr.g4")],
    "text is compared with an independent recursive-descent reading of the documented grammar",
)
prop(
    "C03",
    "Text that is not an expression is rejected, never misread",
    "A text that is not an expression of the language (stray or unknown characters, missing or extra tokens, unbalanced brackets, truncated text, names that are not declared) is rejected with a parse error; it never yields an expression. "
    "A text of the language over declared names is accepted.",
    ["inputs"],
    "all texts up to the stated length, any Unicode character",
    "the existing tests contain a handful of malformed texts; error recovery of the generated parser can swallow or invent tokens on any other",
    [E + "parsing/parse_expression.py"],
    [("parse_expression error strategy and listeners", E + "parsing/parse_expression.py")],
    "characters are symbolic code points; recognition is compared with the independent reader",
)
prop(
    "C04",
    "Algebra of instantiated linear expressions",
    "Adding, subtracting, negating, multiplying and dividing instantiated linear expressions (in-place forms included) gives for every variable the coefficient, and the constant, that algebra prescribes; products of two non-constant expressions and divisions by a non-constant expression are refused. "
    "Apart from the target of an in-place operation no operation changes an expression that existed before it, and two expressions are equal exactly when their coefficients and constants are (zero coefficients being absent).",
    ["programs", "inputs", "histories"],
    "all sequences of operations, all coefficients",
    "tests use a dozen pairs of expressions; special cases on 0 and 1 coefficients and shared term dictionaries only show on particular histories",
    [S + "linear_expression.py"],
    [("LinearExpression operators", S + "linear_expression.py"), ("generate_key / TermKey", S + "linear_expression.py")],
    "equality of coefficients within the tolerance documented in the code (1e-16 / 1e-6)",
)
prop(
    "C05",
    "Linearisation preserves the value and refuses non-linear expressions",
    "Turning an instantiated expression (variables and parameters with their component, timestep and scenario) into a linear expression preserves its value for every value of the variables and parameters; every variable keeps its own component, time and scenario. "
    "A product or quotient that is not linear in the variables is refused, and linearising never changes its operands.",
    ["programs", "inputs"],
    "all expression trees of the stated depth, all parameter values and evaluation points",
    "tests linearise about ten fixed expressions",
    [S + "linearize.py", S + "linear_expression.py"],
    [("linearize_expression", S + "linearize.py"), ("LinearExpressionBuilder", S + "linearize.py")],
    "exact reals",
)
prop(
    "C06",
    "Time and scenario operators have their definition over the time block",
    "In a built problem a time shift refers to the timestep shifted cyclically inside the time block, an evaluation to the given timestep, a windowed sum to the sum over the shifted timesteps, a sum over time to the sum over the block, and an expectation to the average over the scenarios of the problem; parameters and variables are read at the same timesteps and scenarios, and those without time (or scenario) dependency are used unchanged. "
    "Operators may be nested and shift amounts may be parameters.",
    ["programs", "inputs", "configurations"],
    "all nestings up to the stated depth, shift amounts, structures, block lengths and numbers of scenarios",
    "tests use a few models with shift -1 and fixed windows on a fixed block",
    [E + "operators_expansion.py", S + "optimization.py", E + "evaluate_parameters.py"],
    [("expand_operators", E + "operators_expansion.py"), ("_shift / timestep access", S + "optimization.py")],
    "the reference semantics is vf/spec.py; OR-Tools replaced by a recording stand-in",
)
prop(
    "C07",
    "Only linear models are accepted: degree, bounds and objective rules",
    "An expression is classified as constant only if its value does not depend on any variable and as linear only if it is affine in the variables; the degree is the usual polynomial degree. "
    "Bounds of variables and constraints that are not constant, constraints and objective contributions that are not linear, and objective contributions that still depend on time or scenario are refused when the model is built, and so are a constraint whose lower bound is +infinity or whose upper bound is -infinity and one given both as a comparison and with bounds; all others are accepted.",
    ["programs"],
    "all expression trees of the stated depth",
    "tests classify a few expressions of each degree",
    [E + "degree.py", M + "model.py", M + "variable.py", M + "constraint.py"],
    [("compute_degree / is_linear / is_constant", E + "degree.py"), ("model() objective check", M + "model.py")],
    "degree compared with an independent definition and with an affinity query to the solver",
)
prop(
    "C08",
    "Computed time and scenario dependency of an expression",
    "The time (scenario) dependency computed for an expression is the one its variables, parameters and operators give it: it depends on time exactly if some part not under an evaluation or a sum over the block does, and on scenarios exactly if some part not under an expectation does. "
    "An expression declared independent of time (scenario) really has the same value at every timestep (in every scenario).",
    ["programs"],
    "all expression trees of the stated depth and all structures of their leaves",
    "tests check a few expressions; too small a dependency silently drops constraints",
    [E + "indexing.py", E + "indexing_structure.py"],
    [("compute_indexation", E + "indexing.py"), ("TimeScenarioIndexingVisitor", E + "indexing.py")],
    "compared with an independent definition and, for soundness, with the value under symbolic data",
)
prop(
    "C09",
    "The decision variables of the built problem are those of the models",
    "The problem built for a study has exactly one decision variable per component, variable, timestep of the block (if time dependent) and scenario (if scenario dependent), with the declared type (continuous, integer, boolean) and the bounds the models define evaluated on that component's own data at that timestep and scenario, infinite when absent. "
    "Names are unique, crossed bounds and bounds that depend on a time or scenario the variable does not depend on are refused, and building one problem never alters what another build produces.",
    ["configurations", "inputs", "histories"],
    "all structures, types, kinds of bounds and data within the bounds",
    "tests look at objective values of solved studies, not at every variable of the problem",
    [S + "optimization.py", M + "variable.py", T + "data.py"],
    [("OptimizationProblem._create_variables", S + "optimization.py")],
    "OR-Tools replaced by a recording stand-in; reference semantics in vf/spec.py",
)
prop(
    "C10",
    "The constraints of the built problem are those of the models",
    "For every component and constraint of its model the built problem has exactly one row per timestep and scenario on which the constraint (expression or bounds) depends, and a solution satisfies the row exactly when it satisfies the constraint with that component's data; nothing else constrains the solution. "
    "Comparisons (<=, >=, =) with expressions on both sides and lower/upper bounds (literal, parameter, infinite or absent) have their usual meaning, and contradictory declarations of bounds are refused.",
    ["configurations", "inputs"],
    "all forms of constraints, structures and data within the bounds",
    "tests compare the optimum of a few studies, where a missing or misplaced row often changes nothing",
    [S + "optimization.py", M + "constraint.py"],
    [("_create_constraint / OptimizationProblem._create_constraints", S + "optimization.py"), ("Constraint.__post_init__", M + "constraint.py")],
    "OR-Tools replaced by a recording stand-in; rows compared up to the side on which terms are written",
)
prop(
    "C11",
    "The objective of the built problem is the sum of all contributions",
    "The built problem minimises the sum over all components (nodes included) of the objective contributions of their models, with sums over the block and averages over scenarios as written, evaluated on each component's data, the constant part included. "
    "Contributions absent from a model add nothing, and the result does not depend on the problems built before.",
    ["configurations", "inputs", "histories"],
    "all contributions, structures and data within the bounds",
    "tests compare the optimum of a few studies",
    [S + "optimization.py", S + "strategy.py"],
    [("_create_objective", S + "optimization.py")],
    "OR-Tools replaced by a recording stand-in",
)
prop(
    "C12",
    "Connected ports carry exactly the quantities defined by the connected components",
    "A port field used in a model stands for the expression defined by the component at the other end of the connection, with that component's own variables and data, and a sum over connections for the sum over all connections of that port (zero when there is none), under any time or scenario operator. "
    "Connections between missing ports, ports of different types or ports whose fields are not defined on exactly one side are refused, using directly a field of a port with several connections or none is refused, and definitions of port fields made of anything but the component's own variables and parameters are refused.",
    ["configurations", "inputs"],
    "all networks, port types and connection orders within the bounds",
    "tests use a few fixed networks with one balance port type",
    [T + "network.py", S + "optimization.py", E + "port_resolver.py", M + "port.py"],
    [("resolve_port", E + "port_resolver.py"), ("PortsConnection", T + "network.py"), ("OptimizationContext.register_connection_fields_expressions", S + "optimization.py")],
    "OR-Tools replaced by a recording stand-in",
)
prop(
    "C13",
    "Time blocks: same models, data read at the timesteps of the block",
    "For a block made of any timesteps of the horizon, in any order, every variable, constraint and objective term of the built problem uses the time-dependent data of the timestep it stands for, time shifts wrap around inside the block, and no data outside the block is used. "
    "Building the consecutive blocks of a horizon from one network and database gives for each block the same problem as building it alone.",
    ["configurations", "inputs", "histories"],
    "all blocks of the stated length taken from the horizon, symbolic offsets",
    "tests build blocks that start at zero or a single later block",
    [S + "optimization.py", S + "time_block.py"],
    [("OptimizationContext block timesteps", S + "optimization.py")],
    "OR-Tools replaced by a recording stand-in",
)
prop(
    "C14",
    "Investment / operational split of a study loses and duplicates nothing",
    "The investment problem holds exactly the variables, constraints and objective contributions of the investment phase and those shared by both phases, the operational problem those of the operational phase and the shared ones with the operational contributions, and the merged problem everything; each contribution is weighted once by the probability given, operational ones moreover by the risk strategy. "
    "The split never depends on the problems built before, and variables that are refused as inconsistent in one phase are never silently dropped.",
    ["configurations", "inputs", "histories"],
    "all assignments of phases to variables, constraints and contributions, all weights",
    "tests build two or three investment studies",
    [S + "strategy.py", S + "optimization.py", M + "common.py"],
    [("ModelSelectionStrategy and subclasses", S + "strategy.py")],
    "OR-Tools replaced by a recording stand-in",
)
prop(
    "C15",
    "Parameter data is read at the right index and checked against the model",
    "Constant, time-dependent, scenario-dependent and time-and-scenario-dependent data (also given per node of a decision tree, also through a year-to-scenario mapping) returns the value stored for the requested timestep and scenario, reading a file gives the numbers of the file with rows as timesteps and columns as scenarios, and an index the data needs but was not given is refused. "
    "Data whose dependency is not allowed by the parameter's declaration, or that is missing, for a component or a node of the network is refused before a problem is built; allowed data is accepted. A file with missing values or with values that are not numbers is refused.",
    ["inputs", "configurations", "histories"],
    "all tables within the bounds, symbolic values and indices",
    "tests read a few constant tables at a few indices",
    [T + "data.py"],
    [("AbstractDataStructure subclasses", T + "data.py"), ("DataBase.requirements_consistency", T + "data.py"), ("load_ts_from_txt", T + "data.py")],
    "pandas executed for real on object tables of symbolic values",
)
prop(
    "C16",
    "Equality, copy, component context and printing of expressions are faithful",
    "Two expressions compare equal exactly when they are the same tree with equal literals (within the requested tolerances); a copy equals its original, and attaching a component or problem context only changes the names it should. "
    "Evaluating an expression attached to a component gives the value of the expression on that component's values, and the printed form of an arithmetic expression reads back as an expression with the same value.",
    ["programs", "inputs"],
    "all trees of the stated depth over all kinds of nodes, symbolic literals",
    "tests compare a few trees",
    [E + "equality.py", E + "copy.py", E + "context_adder.py", E + "print.py", E + "evaluate_parameters.py"],
    [("expressions_equal", E + "equality.py"), ("copy_expression", E + "copy.py"), ("add_component_context", E + "context_adder.py"), ("print_expr", E + "print.py")],
    "exact reals",
)
prop(
    "C17",
    "Output values are the solver's values and comparisons are truthful",
    "The values reported for a solved problem are, for every component, variable, timestep and scenario, the values the solver gave to that variable, and values assigned by a user read back as assigned. "
    "Two outputs (or Benders solutions) compare equal exactly when all values not ignored are equal, close comparisons hold exactly when all values not ignored are within the given relative or absolute tolerance, in both directions, whatever the shapes and whichever side lacks a component or variable.",
    ["inputs", "histories", "configurations"],
    "all values, tolerances, shapes and ignored subsets within the bounds",
    "tests compare a few outputs with one tolerance",
    [S + "output_values.py"],
    [("OutputValues._build_components", S + "output_values.py"), ("OutputValues.is_close / compare", S + "output_values.py"), ("BendersSolution", S + "output_values.py")],
    "the solved values are fixed through bounds on a recording stand-in of OR-Tools",
)
prop(
    "C18",
    "Decision tree: probabilities multiply, inconsistent trees are detected",
    "The probability of a node is the product of the conditional probabilities from the root however the tree was assembled, a tree is consistent exactly when the children's probabilities of every inner node sum to the node's own, and a probability outside [0,1] is refused without altering the tree. "
    "Coupling constraints between a node's variables and its parent's are accepted only for existing components and variables of the two nodes' networks and belong to that tree only.",
    ["configurations", "inputs", "histories"],
    "all tree shapes within the bounds, symbolic probabilities",
    "tests build one or two trees with fixed probabilities",
    [S + "decision_tree.py"],
    [("DecisionTreeNode", S + "decision_tree.py")],
    "exact reals; sums are compared with the tolerance the code documents",
)
prop(
    "C19",
    "Pathway master: merging the tree's masters keeps every one of them",
    "The master problem of a decision tree is equivalent to the conjunction of the investment problems of all nodes (each weighted by its node's probability, with its own data and names) plus the coupling constraints: every variable keeps its type and bounds, every constraint and every objective term (constant included) is there once, and shared variables are the same variable. "
    "The subproblems are, for every node and block, the operational problem of that node with its probability.",
    ["configurations", "inputs"],
    "all tree shapes within the bounds, symbolic data and probabilities",
    "tests build one pathway with fixed data",
    [S + "optimization.py", S + "benders_decomposed.py", S + "decision_tree.py"],
    [("fusion_problems", S + "optimization.py"), ("build_benders_decomposed_problem", S + "benders_decomposed.py")],
    "OR-Tools replaced by a recording stand-in",
)
prop(
    "C20",
    "Files of a Benders decomposition describe the decomposition",
    "The structure file lists for the master and for every subproblem exactly the investment variables they share with, for each, the position of that variable among the columns of the exported problem, whatever the length of the names; the options file refers to those files with the requested options, and each problem file is the export of that problem under the name the structure file uses. "
    "A decomposition without subproblems is refused.",
    ["configurations"],
    "all trees, candidates and blocks within the bounds",
    "tests write one decomposition and compare with fixed text",
    [S + "benders_decomposed.py", "src/andromede/utils.py"],
    [("BendersDecomposedProblem.export_structure / initialise", S + "benders_decomposed.py"), ("StructureData", S + "benders_decomposed.py")],
    "structural: the configurations are solver-chosen, the assertions are concrete on each path",
)
prop(
    "C21",
    "Library dependencies resolve to the right port types and models",
    "Resolving model libraries given in any order yields exactly their port types and models, each model using the port types of its own library or of the libraries it directly depends on, and preloaded libraries are available to the others. "
    "Circular dependencies, unknown dependencies, unknown port types, clashes between port types of a library and of its dependencies, and a port type or a model defined twice in one library are refused, whatever the order.",
    ["configurations"],
    "all dependency graphs over the stated number of libraries, in every order listed",
    "tests resolve two or three fixed library graphs",
    [M + "resolve_library.py", M + "library.py"],
    [("resolve_library", M + "resolve_library.py")],
    "structural: the graphs are solver-chosen, the assertions are concrete on each path",
)
prop(
    "C22",
    "A model library file means what it says",
    "A library file read from text builds the same problems as the models it describes: parameters and variables with their declared dependencies, types and bounds, constraints and binding constraints, objective contributions, port fields and the documented defaults when a key is omitted. "
    "A file with an unknown key, a missing mandatory key, a wrong type, an expression that refers to an undeclared name, or a model with two parameters, variables, constraints, ports or port field definitions of the same name is refused.",
    ["programs", "inputs"],
    "all files of the stated shape, symbolic data",
    "tests load the shipped libraries and solve a few studies",
    [M + "parsing.py", M + "resolve_library.py"],
    [("InputLibrary schema", M + "parsing.py"), ("_resolve_model", M + "resolve_library.py")],
    "the YAML text is printed from a specification and the problem built from it compared with the reference semantics",
)
prop(
    "C23",
    "A system file builds the network and data it describes",
    "A system file read from text yields exactly its nodes and components with the models named (taken from the right library), exactly its connections, and a database giving each parameter the constant or the file it names with the declared time and scenario dependency. "
    "Two nodes or components with the same id, unknown models, libraries, components or ports, missing data or series, data that does not fit its declaration and models used that are not provided are refused; copies of a network are equal to it and independent of it.",
    ["configurations", "inputs"],
    "all systems of the stated shape, symbolic data",
    "tests load three or four system files",
    [T + "parsing.py", T + "resolve_components.py", T + "network.py"],
    [("resolve_system / build_network / build_data_base", T + "resolve_components.py"), ("Network", T + "network.py")],
    "the YAML text is printed from a specification and the problem built from it compared with the reference semantics",
)
prop(
    "C24",
    "Scenario groups map each year to its own scenario column",
    "With a scenario builder every scenario-dependent parameter is read, for a given year, in the column that the parameter's own group (or else its component's group) assigns to that year, each component, node and parameter using its own group only; without a group the year is used directly. "
    "Unknown groups and years assigned twice are refused.",
    ["configurations", "inputs"],
    "all assignments of groups, symbolic year-to-scenario maps and values",
    "tests use one system with two groups",
    [T + "resolve_components.py", T + "data.py", T + "parsing.py"],
    [("build_scenarized_data_base", T + "resolve_components.py"), ("Scenarization", T + "data.py")],
    "scenario files written with symbolic values and read back by the real code",
)

prop(
    "C25",
    "Thermal data of a converted study is computed from its series",
    "For every thermal cluster of an Antares study the preprocessed data are, at every timestep and for every scenario of its series: minimum power = the smaller of (minimum generation modulation x unit count x nominal capacity) and the available power; minimum / maximum number of units = minimum / available power divided by the nominal capacity, rounded up; "
    "maximum variation of the number of units forward / backward = the positive part of the decrease / increase of the maximum number of units between the previous timestep and this one, where the timestep before the first one of a period is the last one of that period (the last period may be shorter; 168 hours by default). "
    "The data is written next to the series of the cluster, where the returned parameter says, and reads back with the same values. An unknown parameter is refused.",
    ["inputs"],
    "all modulations and series (symbolic), several timesteps, scenarios and periods",
    "tests use one or two small fixed series, none with several scenarios or a truncated period",
    [I + "data_preprocessing/thermal.py"],
    [("ThermalDataPreprocessing", I + "data_preprocessing/thermal.py")],
    "series on a grid of exact floating-point fractions",
)
prop(
    "C26",
    "A converted Antares study describes the same system",
    "Converting an Antares study yields one node per area with its costs, one component per thermal cluster, renewable cluster, short-term storage and link, one load, wind and solar component per area whose series is not empty nor zero, with exactly their properties and series (constants are constants, series are time and scenario dependent files that exist), and exactly their connections to their areas. "
    "A battery modelled by a reservoir cluster, an injection cluster, a link and a binding constraint becomes one battery component with the right capacities, efficiencies and rule curves and none of these objects is converted a second time; if one of them is missing there is no battery. "
    "Operations max, multiply_by and divide_by mean what they say, for constants and series; the written file reads back as the same system, and the conversion command converts the study it is given and writes in the directory it is given (or in the study).",
    ["configurations", "inputs"],
    "all studies of the stated shape, symbolic properties and series",
    "tests convert one small study per kind of object with fixed values",
    [I + "converter.py", I + "utils.py", I + "data_preprocessing/dataclasses.py", I + "data_preprocessing/binding_constraints.py"],
    [("AntaresStudyConverter", I + "converter.py"), ("BindingConstraintsPreprocessing", I + "data_preprocessing/binding_constraints.py"), ("Operation", I + "data_preprocessing/dataclasses.py")],
    "the study is given by objects with the interface of antares.craft, files are written and read for real",
)

prop(
    "C28",
    "The shipped model libraries mean what they stand for",
    "Every model of the three shipped libraries (antares-historic, andromede-v1-models, pypsa_models) has its documented parameters with their time and scenario dependency, variables and ports, and for any data a problem built from it has exactly the bounds and integrality of its variables, the constraints, the flows and emissions at its ports and the cost contribution the model stands for: "
    "balance at the areas and buses (every connected flow, unsupplied and spilled energy priced), link flows within their capacities entering one end and leaving the other, unit commitment of thermal clusters (power between the limits of the committed units, start/stop dynamics, minimum up and down times), storage level dynamics with efficiencies and rule curves, PyPSA generators, loads, lines, links, storage units and stores with their capacity and per-unit limits.",
    ["inputs"],
    "all models of the shipped libraries, symbolic data, several timesteps and scenarios",
    "tests solve a few studies with some of the models and fixed data, where most constraints do not bind",
    [
        "src/andromede/libs/antares_historic/antares_historic.yml",
        "src/andromede/libs/reference_models/andromede_v1_models.yml",
        "src/andromede/libs/pypsa_models/pypsa_models.yml",
        S + "optimization.py",
    ],
    [("library files", "src/andromede/libs/")],
    "the models are restated independently and the problem built from the shipped file compared with the reference semantics",
)

prop(
    "C27",
    "The command line simulates exactly the study it is given",
    "The main command builds one problem, exactly that described by the model libraries, the system file and the series it is given, over timesteps 0 to duration-1 of the first block and the given number of scenarios (both 1 by default), whatever the order of the library files and whether the study is a directory (input/models, input/components/components.yml, input/components/series) or given by separate options; it prints the status and the cost of the solution. "
    "Mixing the two ways, missing options, libraries with the same id, models that do not exist, and series too short for the duration or the number of scenarios are refused.",
    ["configurations", "inputs"],
    "all command lines and studies of the stated shape, symbolic series",
    "tests run two fixed studies",
    ["src/andromede/main/main.py", T + "parsing.py"],
    [("main_cli / input_libs / input_study / input_database", "src/andromede/main/main.py"), ("parse_cli", T + "parsing.py")],
    "the command is run in process on files written in a scratch directory",
)
prop(
    "C29",
    "A converted PyPSA network describes the same system",
    "Converting a PyPSA network yields one component per bus (same id), generator, load, link, storage unit and store (id followed by _generator, _load, _link, _storage, _store, so that objects of different kinds with the same name stay distinct), with exactly its attributes: series attributes are time-dependent files holding the series, the others constants, infinite values being brought to 1e20 in magnitude; the capacity of an object that is not extendable is fixed to its nominal capacity at no capital cost; the emission factor is that of the carrier, or 0 without carrier; "
    "each object is connected to its bus (a link to bus0 by p0_port and to bus1 by p1_port); every CO2 constraint becomes a component with its quota, connected to every generator, store and storage unit that has a carrier; the written file reads back as the same system. "
    "Investment periods, weighted snapshots, inactive objects, (constant) quadratic costs, committable generators, non-cyclic storages or stores, storages or stores whose sign is not 1, and other global constraints are refused.",
    ["configurations", "inputs"],
    "all networks of the stated shape, symbolic attributes and series",
    "the existing tests of this converter compare a few optimal costs (and need packages that are not always there)",
    ["src/andromede/pypsa_converter/pypsa_converter.py", "src/andromede/pypsa_converter/utils.py"],
    [("PyPSAStudyConverter", "src/andromede/pypsa_converter/pypsa_converter.py"), ("any_to_float / transform_to_yaml", "src/andromede/pypsa_converter/utils.py")],
    "the network is given by tables with the columns of PyPSA (the package itself cannot be imported here), files are written and read for real",
)
prop(
    "C30",
    "Running an expansion reports what the external solver did",
    "Running a decomposition writes its files in its directory, calls there the Benders solver, or the merge of the problems if asked, with the options file, and leaves the working directory as it was. It returns True exactly when the solver succeeds (exit code 0); its solution is then the content of the result file of that run (costs, candidates, gaps, status; iterations and duration for a decomposition, bounds for a merged run), and it is not changed by a run that fails or produces no result, whatever the sequence of runs. Any command is run in the directory it is given, with exactly its arguments, and its exit code is returned.",
    ["histories", "inputs"],
    "all sequences of runs of the stated length, exit codes, symbolic results",
    "tests run the solver once, when it is installed",
    [S + "benders_decomposed.py", S + "runner.py", S + "output_values.py"],
    [("BendersDecomposedProblem.run / read_solution", S + "benders_decomposed.py"), ("CommandRunner", S + "runner.py"), ("BendersSolution", S + "output_values.py")],
    "the solver binaries are replaced by scripts that record how they are called; result values symbolic",
)
prop(
    "C31",
    "Replicas describe the same thing and are independent of the original",
    "A replica of a network, component, model, variable, parameter, constraint or port definition describes the same thing as the original except for the changes requested when replicating: problems built with it are those of the original with these changes. Adding to or changing one of them afterwards (components, nodes, connections, attributes) never affects the other, and a replica is subject to the same validity rules as a new declaration (constant bounds, scalar linear objective, definitions of existing ports, comparisons without bounds).",
    ["histories", "configurations", "inputs"],
    "all sequences of replications and changes of the stated length, symbolic data",
    "tests replicate one network and compare a few fields",
    ["src/andromede/study/network.py", "src/andromede/model/model.py", "src/andromede/model/variable.py", "src/andromede/model/constraint.py", "src/andromede/model/parameter.py", "src/andromede/model/port.py"],
    [("Network.replicate / Component.replicate", "src/andromede/study/network.py"), ("Model.replicate", "src/andromede/model/model.py"), ("Variable.replicate", "src/andromede/model/variable.py"), ("Constraint.replicate", "src/andromede/model/constraint.py")],
    "networks of a few components, the changes listed in DESIGN.md",
)
prop(
    "C32",
    "An expression that an operation cannot interpret is refused",
    "Evaluating, linearising, expanding, computing the indexing of, attaching to a component or defining a port field with an expression which that operation cannot interpret (unknown or unattached names, time, scenario or port operators left unexpanded, comparisons, fractional or variable-dependent time shifts, products of variables, an already attached component) raises an error wherever the offending part lies in the expression, and never yields a result; the same expression without the offending part is accepted.",
    ["inputs", "configurations"],
    "all expressions of the stated shapes, offending parts at every place, symbolic coefficients",
    "tests contain a few refusals, at the top of an expression",
    ["src/andromede/expression/evaluate.py", "src/andromede/expression/operators_expansion.py", "src/andromede/expression/indexing.py", "src/andromede/expression/context_adder.py", "src/andromede/model/port.py", S + "linearize.py"],
    [("EvaluationVisitor", "src/andromede/expression/evaluate.py"), ("LinearExpressionBuilder", S + "linearize.py"), ("OperatorsExpansion", "src/andromede/expression/operators_expansion.py"), ("TimeScenarioIndexingVisitor", "src/andromede/expression/indexing.py"), ("ContextAdder", "src/andromede/expression/context_adder.py"), ("PortFieldDefinition checks", "src/andromede/model/port.py")],
    "the parts and places listed in vf/props/c32.py",
)
prop(
    "C33",
    "Declarations compare equal exactly when they describe the same thing",
    "Two variables, parameters, constraints, port types, ports, port field definitions, models or components compare equal (==, and != is its negation, in both orders) exactly when all that they declare is the same: names, types, indexing structures, phases (contexts), bounds, expressions, objectives, definitions, whatever the order in which the members of a model are declared. None of them is equal to an object of another kind.",
    ["inputs", "configurations"],
    "all pairs of declarations that differ in any one attribute (two in thorough), symbolic literals",
    "tests compare a few declarations that are meant to be equal: a comparison that is always true passes them",
    ["src/andromede/model/variable.py", "src/andromede/model/constraint.py", "src/andromede/model/parameter.py", "src/andromede/model/port.py", "src/andromede/model/model.py", "src/andromede/study/network.py", "src/andromede/expression/equality.py"],
    [("Variable.__eq__", "src/andromede/model/variable.py"), ("Constraint.__eq__", "src/andromede/model/constraint.py"), ("Model / PortFieldDefinition equality", "src/andromede/model/model.py"), ("expressions_equal_if_present", "src/andromede/expression/equality.py")],
    "the options of each attribute listed in vf/props/c33.py",
)

NOT_APPLICABLE = []


P.sort(key=lambda p: p["id"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}, ensure_ascii=False) + "\n")
    claimed = [p for p in P if p["id"] not in {n["property"] for n in NOT_APPLICABLE}]
    m = dict(
        version=1,
        setup_cmd="true",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"./check {p['id']} quick",
                thorough_cmd=f"./check {p['id']} thorough",
                technique="bounded symbolic execution of the real Python code, z3 decides every branch and assertion",
                level="model_checking",
                level_note="All values within the bounds stated in the evidence file; " + p["_note"] + "; counterexamples replayed on the unmodified code. Trusted: CPython, z3, the symbolic proxies (sampled paths are replayed concretely), the reference semantics.",
            )
            for p in claimed
        ],
        not_applicable=NOT_APPLICABLE,
        notes="No hooks in /repo. See DESIGN.md.",
    )
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn


main()
