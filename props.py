"""The properties: what must hold, for what, and where it is anchored."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, over=("inputs",), observe=(), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files), mech=list(mech),
                      over=list(over), observe=list(observe), note=note))


def NA(id, reason):
    NOT_APPLICABLE.append(dict(property=id, reason=reason))


P("C01", "One-dimensional ranges obey interval algebra",
  "A half-open range contains exactly the integers from its begin up to, but not including, its end. Comparison, ordering, containment, "
  "overlap, intersection, subtraction, mergeability, merging and iteration of ranges all agree with that set of integers, and the order is a strict total one.",
  "all integer bounds (magnitude up to 2^40), all pairs of ranges, triples for the order",
  "The unit tests compare a few constant ranges; the relations have to agree for every relative position, including touching and nested ranges.",
  ["include/marco/Modeling/Range.h", "lib/Modeling/Range.cpp"],
  [("comparison, intersection, subtraction and merging of ranges", "lib/Modeling/Range.cpp")], observe=["Range's public operations"])

P("C02", "Multidimensional ranges and points obey box algebra",
  "A multidimensional range denotes the Cartesian product of its dimensions. Its size, containment, overlap, intersection, subtraction (into disjoint "
  "parts that cover exactly the difference), merging, slicing, concatenation and lexicographic iteration, and the points it yields, agree with that product.",
  "all boxes of rank 1 to 3 with integer bounds (magnitude up to 2^20), all points, all masks of dimensions",
  "The unit tests use a few constant boxes of rank 2; subtraction and merging have many relative positions per dimension.",
  ["include/marco/Modeling/MultidimensionalRange.h", "lib/Modeling/MultidimensionalRange.cpp", "include/marco/Modeling/Point.h", "lib/Modeling/Point.cpp"],
  [("per-dimension subtraction and merging", "lib/Modeling/MultidimensionalRange.cpp"), ("points", "lib/Modeling/Point.cpp")],
  observe=["MultidimensionalRange's and Point's public operations"])

P("C03", "Building and uniting index sets yields exactly the union",
  "A set of indices built from any list of ranges or points, in bulk or by adding ranges, points and other sets one after the other, contains exactly the points of "
  "its operands: none is lost, none is added and none is stored or counted twice. The operands themselves are left unchanged.",
  "all lists of up to 5 ranges in general position and all additions to trees of up to 34 ranges, ranks 1 to 3, any order, several tree fan-outs",
  "Tests build a few constant sets, mostly too small for the tree to split; which ranges overlap, and in which node they land, depends on every bound.",
  ["include/marco/Modeling/IndexSet.h", "lib/Modeling/IndexSet.cpp", "include/marco/Modeling/RTree.h"],
  [("bulk construction", "lib/Modeling/IndexSet.cpp: setFromRanges"), ("insertion of the missing parts only", "lib/Modeling/IndexSet.cpp: insert"),
   ("node splitting", "include/marco/Modeling/RTree.h: splitNode")], over=("inputs", "histories"), observe=["the ranges, points and size of the set"])

P("C04", "Removing from index sets leaves exactly the difference",
  "Removing a point, a range or a set from a set of indices leaves exactly the points that were in it and not in the operand; the complement within a range is exactly the "
  "points of the range outside the set. No other point is lost, none reappears, and the remaining points stay stored once.",
  "all sets of up to 4 ranges in general position, trees of up to 24 ranges, removal of any 1 or 2 ranges or of a set, histories of additions and removals",
  "Removal restructures the tree: underfull nodes are dissolved and their content reinserted, which only happens in trees the tests do not build.",
  ["include/marco/Modeling/IndexSet.h", "lib/Modeling/IndexSet.cpp", "include/marco/Modeling/RTree.h"],
  [("removal of a range from the leaves", "lib/Modeling/IndexSet.cpp: remove"), ("collapse of underfull nodes", "include/marco/Modeling/RTree.h: collapseNodeAndPropagate"),
   ("complement", "lib/Modeling/IndexSet.cpp: complement")], over=("inputs", "histories"), observe=["the ranges, points and size of the set"])

P("C05", "Containment, overlap and intersection of index sets are exact",
  "Asking whether a set of indices contains a point, a range or another set, or overlaps one, gives the answer that follows from the points of the operands. The intersection "
  "with a range or a set contains exactly the common points, and the operands are left unchanged.",
  "all sets of up to 3 ranges in general position and trees of up to 20 ranges at every relative position, ranks 1 to 3",
  "The queries prune the tree by bounding boxes and cover a range by pieces of several stored ranges: a wrong answer needs a particular arrangement of nodes.",
  ["include/marco/Modeling/IndexSet.h", "lib/Modeling/IndexSet.cpp"],
  [("tree walks", "lib/Modeling/IndexSet.cpp: contains, overlaps, intersect")], over=("inputs", "histories"), observe=["the answers and the resulting sets"])

P("C06", "Dimension operations on index sets keep exactly the right points",
  "Slicing, taking or dropping dimensions of a set of indices yields exactly the projections of its points, and appending or prepending another set yields exactly their Cartesian product. "
  "The compact form of a set is a list of disjoint ranges that covers exactly its points.",
  "all sets of up to 3 ranges of rank 1 to 3, every mask and number of dimensions, also empty operands",
  "Projections of disjoint ranges overlap in ways that depend on all the bounds, and each has to be merged without double counting.",
  ["include/marco/Modeling/IndexSet.h", "lib/Modeling/IndexSet.cpp", "lib/Modeling/MultidimensionalRange.cpp"],
  [("projections and products", "lib/Modeling/IndexSet.cpp: slice, take*, drop*, prepend, append"), ("compact ranges", "lib/Modeling/IndexSet.cpp: getCompactRanges")],
  observe=["the resulting sets and ranges"])

P("C07", "An index set is known by its points alone, whatever its history",
  "Two sets of indices are equal, and have the same hash, exactly when they have the same points, however each was obtained; iterating over a set visits each point once. "
  "Copies and moved sets are independent of their source, and a set may be both operands of an operation.",
  "sets of up to 3 ranges built in different orders, in bulk, by removal or intersection, including sets that became empty",
  "Equal point sets have many representations as ranges and trees; the tests compare sets with one representation.",
  ["include/marco/Modeling/IndexSet.h", "lib/Modeling/IndexSet.cpp", "include/marco/Modeling/RTree.h"],
  [("equality by mutual containment", "include/marco/Modeling/RTree.h: operator=="), ("hash by size", "lib/Modeling/IndexSet.cpp: hash_value"),
   ("deep copies of the tree", "include/marco/Modeling/RTree.h: RTreeCRTP(const RTreeCRTP &)")], over=("inputs", "histories"), observe=["equality, hash, iteration"])

P("C08", "The spatial tree stays well formed and finds its objects",
  "After any sequence of insertions, removals and bulk constructions, the tree behind sets and dependency graphs is balanced, every node other than the root has between the minimum and maximum "
  "number of entries, bounding boxes are exact and parents are right. Walking the objects that overlap a range visits each such object once and no other, and removing an object removes that object only.",
  "trees of up to 80 ranges, changed by up to 2 symbolic insertions or removals, for four fan-outs; generic trees with objects of equal or overlapping boundaries",
  "The code checks these invariants only in debug builds, and tests exercise a handful of constant trees.",
  ["include/marco/Modeling/RTree.h", "lib/Modeling/RTree.cpp"],
  [("splitting and collapsing of nodes", "include/marco/Modeling/RTree.h: adjustTree"), ("bulk construction", "include/marco/Modeling/RTree.h: setFromObjects"),
   ("invariants stated by the code", "include/marco/Modeling/RTree.h: isValid")], over=("inputs", "histories"), observe=["the nodes of the tree", "walks and removals"])

P("C09", "An access function accesses exactly the elements its expressions denote",
  "At every point of its iteration space an access function yields exactly the elements its index expressions denote, however it is represented (constant, "
  "rototranslation, generic), cloned or rebuilt from its affine map; a constant or identity access is recognised as such only if it is one. Equal functions access "
  "the same elements. Coordinates taken from one iteration space whose dimensions depend on each other come from the same point of that space.",
  "all functions of up to 3 dimensions and 2 results over a pool of index expressions, all points",
  "Tests map a couple of points through two or three constant functions; which representation is chosen, and how MLIR simplifies the expressions, depends on the function.",
  ["include/marco/Modeling/AccessFunction.h", "lib/Modeling/AccessFunction.cpp", "lib/Modeling/AccessFunctionGeneric.cpp", "lib/Modeling/DimensionAccess.cpp"],
  [("choice of the representation", "lib/Modeling/AccessFunction.cpp: build"), ("evaluation of the expressions", "lib/Modeling/DimensionAccess*.cpp: map"),
   ("iteration spaces", "lib/Modeling/AccessFunctionGeneric.cpp: map")], observe=["the accessed indices"])

P("C10", "Combining and inverting access functions is composing and inverting mappings",
  "Combining two access functions gives the function that accesses, at every point, the elements the second accesses from those the first accesses, with the first's dimensions and the second's results; "
  "ranges and iteration spaces on either side are kept. A rototranslation is invertible exactly when it permutes its dimensions up to offsets, and then it and its inverse undo each other.",
  "all pairs of functions of up to 2 dimensions and results (inverse: 3) over a pool of index expressions, all points",
  "Tests combine three pairs of constant rototranslations; the non-affine path and the mixed cases are not exercised at all.",
  ["include/marco/Modeling/AccessFunction.h", "lib/Modeling/AccessFunction.cpp", "lib/Modeling/AccessFunctionRotoTranslation.cpp"],
  [("composition through placeholder dimensions", "lib/Modeling/AccessFunction.cpp: combine"), ("inverse", "lib/Modeling/AccessFunctionRotoTranslation.cpp: inverse")],
  observe=["the accessed indices of the results"])

P("C11", "Images and inverse images of index sets through an access are exact",
  "The image of a set of indices through an access function contains exactly the elements accessed from its points. The inverse image of a set of accessed indices contains exactly the points of "
  "the parent set that access one of them (for an invertible function, the result is decided for the points of the parent).",
  "all sets of up to 2 ranges and all rototranslations of up to 3 dimensions with small offsets; other functions on small grids",
  "Matching, dependency graphs and equation splitting all rest on these two mappings; the tests only map boxes through two constant functions and never map back.",
  ["include/marco/Modeling/AccessFunction.h", "lib/Modeling/AccessFunctionRotoTranslation.cpp", "lib/Modeling/AccessFunctionAffineConstant.cpp"],
  [("image of a range", "lib/Modeling/AccessFunctionRotoTranslation.cpp: map"), ("inverse image with unused dimensions and constants", "lib/Modeling/AccessFunctionRotoTranslation.cpp: inverseMap"),
   ("constant accesses", "lib/Modeling/AccessFunctionAffineConstant.cpp: inverseMap")], observe=["the resulting sets"])

P("C12", "An incidence matrix holds exactly the incidences it was given",
  "The compressed incidence matrix between the points of an equation and those of a variable has an entry at (e, v) exactly when it was set there or an applied access function accesses v from e, "
  "after any sequence of applications, single insertions and removals, sums and differences with other matrices, restrictions to rows or columns and changes of either space. "
  "Its flattened rows and columns, its emptiness, and its equality to another matrix follow from the entries alone, and copies are independent.",
  "all matrices of up to 2 applied accesses and 2 single incidences over small symbolic spaces, and every entry of them",
  "The matrix keeps groups of (points, access) pairs, whose combinations depend on the bounds and on which functions coincide; the tests apply two or three constant functions to fixed boxes.",
  ["include/marco/Modeling/MCIM.h", "lib/Modeling/MCIM.cpp", "lib/Modeling/MCIMGroup.cpp", "lib/Modeling/MCIMGroupGeneric.cpp", "lib/Modeling/MCIMGroupAffineConstant.cpp"],
  [("application and single incidences", "lib/Modeling/MCIM.cpp: apply, set, unset"), ("sums and differences", "lib/Modeling/MCIM.cpp: operator+=, operator-="),
   ("restrictions", "lib/Modeling/MCIM.cpp: filterRows, filterColumns, setEquationSpace, setVariableSpace")], over=("inputs", "histories"), observe=["every entry of the matrix"])

P("C13", "Local matching solutions are partial matchings that cover all the incidences",
  "The solutions of the local matching between an array equation and an array variable, computed from access functions or from an incidence matrix, each match an equation point with at most one variable "
  "point and the other way round; together they contain exactly the incidences; and as many are generated, on demand, as were announced.",
  "up to 3 access functions (20 of one kind) of up to 2 dimensions over small symbolic spaces, and matrices of up to 3 accesses and single incidences",
  "The number of solutions is computed separately from the solutions, which depend on the bounds and on which dimensions each access uses; the tests list the solutions of 8 constant cases with one access each.",
  ["include/marco/Modeling/LocalMatchingSolutions.h", "lib/Modeling/LocalMatchingSolutionsVAF.cpp", "lib/Modeling/LocalMatchingSolutionsMCIM.cpp", "lib/Modeling/MCIM.cpp"],
  [("generators and announced amount", "lib/Modeling/LocalMatchingSolutionsVAF.cpp"), ("splitting into groups", "lib/Modeling/MCIM.cpp: splitGroups")], observe=["the solutions and their number"])

P("C14", "A system is matched exactly when it can be, along the accesses of its equations",
  "Matching array equations with array variables succeeds exactly when the scalar equations and variables can all be paired along their incidences. Then every scalar equation and every scalar variable belongs "
  "to exactly one of the returned solutions, and each solution pairs its equation indices with its variable indices along accesses of that equation to that variable. "
  "Leaf simplification, scalarization and the order in which parallel tasks run do not change this.",
  "systems of up to 3 array equations and variables with symbolic ranges and accesses, scalar systems of up to 4 equations with every incidence, both options, orders of tasks",
  "The repository has no test of the matching at all; augmenting paths over index sets depend on every bound and on earlier choices.",
  ["include/marco/Modeling/Matching.h", "lib/Modeling/Matching.cpp", "include/marco/Modeling/Graph.h"],
  [("leaf simplification", "include/marco/Modeling/Matching.h: matchLeafNodes"), ("array-aware Hopcroft-Karp", "include/marco/Modeling/Matching.h: applyHK, getAugmentingPaths, applyPath"),
   ("scalarization", "include/marco/Modeling/Matching.h: getScalarGraph")], over=("inputs", "schedules"), observe=["the returned solutions"])

P("C15", "A schedule computes every variable before it is read, each equation once",
  "The schedule of a matched system contains every scalar equation exactly once. Each element read by a scalar equation is computed by an earlier one, where the order is that of the groups of the schedule, "
  "and within a group that of its iteration directions, or any order if the direction says so; only the equations of an actual loop may read each other's variables, and they are kept together.",
  "one array equation of rank 1 or 2 with up to 2 reads of the variable it writes, and up to 4 equations in any dependency order, over symbolic ranges, accesses and loops",
  "A simulation that reads a variable before it has been computed is silently wrong; whether a direction is safe depends on all the offsets and bounds, and the repository has no test of the scheduling.",
  ["include/marco/Modeling/Scheduling.h", "include/marco/Modeling/SCCsDependencyGraph.h", "include/marco/Modeling/ScalarEquationsDependencyGraph.h", "include/marco/Modeling/ArrayEquationsDependencyGraph.h"],
  [("directions of the iterations", "include/marco/Modeling/Scheduling.h: getSchedulingDirections"), ("scalar order where no direction is safe", "include/marco/Modeling/Scheduling.h: schedule"),
   ("order of the groups", "include/marco/Modeling/SCCsDependencyGraph.h")], observe=["the schedule: groups, index sets and directions"])

P("C16", "Algebraic loops are found exactly: equations of a component need each other",
  "The components found among array equations partition their scalar equations. Two components never need each other, directly or through others, and the array parts within a component "
  "do need each other. This does not depend on the order in which parallel tasks run.",
  "up to 4 scalar equations with every dependency, up to 3 array equations or 3 equations sharing an array variable over symbolic ranges and accesses",
  "A loop that is torn apart is computed from values of the previous step, without any diagnostic; finding cycles of index sets depends on all bounds, and the repository has no test of it.",
  ["include/marco/Modeling/DependencyGraph.h", "include/marco/Modeling/ArrayEquationsDependencyGraph.h", "include/marco/Modeling/SCC.h"],
  [("cycles among parts of array equations", "include/marco/Modeling/DependencyGraph.h: getSCCs, getEquationsCycles"), ("dependencies among array equations", "include/marco/Modeling/ArrayEquationsDependencyGraph.h")],
  over=("inputs", "schedules"), observe=["the components"])

P("C17", "The lexer yields the tokens of the lexical grammar, for every text",
  "Any text is split into the keywords, identifiers, literals, operators and comments of the lexical grammar, by longest match, with the value of each literal and the line and column where each token "
  "begins and ends. Malformed texts, unterminated strings and comments, and integers that cannot be represented are reported as errors; no text makes the lexer crash, hang or lose a character.",
  "all texts of up to 2 bytes, texts of up to 6 characters over several alphabets, words, integers, fractions and exponents within bounds",
  "The value and extent of a token depend on every character and on the one that follows it; the tests scan about 90 single well-formed tokens.",
  ["lib/Parser/BaseModelica/StateMachine.cpp", "include/marco/Lexer/Lexer.h", "include/marco/Lexer/FloatLexer.h", "include/marco/Lexer/IntegerLexer.h", "lib/Parser/BaseModelica/Token.cpp"],
  [("scanning states", "lib/Parser/BaseModelica/StateMachine.cpp"), ("values of numbers", "include/marco/Lexer/FloatLexer.h, IntegerLexer.h"), ("driving the states", "include/marco/Lexer/Lexer.h")],
  observe=["kind, value and location of each token"])

P("C18", "The parser answers every input: a tree, or a diagnostic",
  "For every sequence of tokens the parser ends, without crashing or reading outside its data, and either returns a tree without reporting an error, or returns none and reports at least one error.",
  "all sequences of up to 3 (some 4 or 5) tokens in each of 28 contexts, and sequences of 3 to 4 fragments of larger constructs",
  "Malformed inputs are the rule while a model is being written, and there is one for every way to be wrong; the tests parse about 100 well-formed texts.",
  ["lib/Parser/BaseModelica/Parser.cpp", "include/marco/Parser/BaseModelica/Parser.h", "lib/AST/BaseModelica"],
  [("recursive descent", "lib/Parser/BaseModelica/Parser.cpp"), ("construction of the tree", "lib/AST/BaseModelica")], over=("inputs", "programs"), observe=["the result of parseRoot and the diagnostics"])

P("C19", "The tree of an expression is the one its grammar gives",
  "The parser accepts exactly the expressions of the supported grammar, and builds the tree given by precedence and associativity, with every operator, operand, literal, argument, subscript and "
  "array dimension in its place. The location of each expression spans its tokens, from the first to the last.",
  "all sequences of up to 3 tokens in 10 contexts of expressions, up to 4 operands joined by any operators, conditionals, calls of up to 4 fragments",
  "How an operator groups depends on all its neighbours, and a wrong grouping is a silently different model; the tests check single operators and about ten pairs.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica/Operation.cpp", "lib/AST/BaseModelica/ComponentReference.cpp", "lib/AST/BaseModelica/Call.cpp"],
  [("precedence levels", "lib/Parser/BaseModelica/Parser.cpp: parseExpression ... parsePrimary"), ("arguments and generators", "lib/Parser/BaseModelica/Parser.cpp: parseFunctionCallArgs, parseArrayArguments"),
   ("locations", "lib/Parser/BaseModelica/Parser.cpp")], over=("inputs", "programs"), observe=["the tree, its values and locations"])

P("C20", "The tree of a class is the one its grammar gives",
  "The parser accepts exactly the classes of the supported grammar, and every declaration, prefix, dimension, modification, annotation, section, equation, statement and nested block of the text "
  "appears in the tree, in its place and order, with nothing else.",
  "all sequences of up to 3 (some 4 or 5) tokens in 18 contexts, and of 3 to 5 fragments of equations, statements, sections and elements",
  "A clause attached to the wrong block, section or flag gives another model without any diagnostic; the tests parse one instance of each construct.",
  ["lib/Parser/BaseModelica/Parser.cpp", "lib/AST/BaseModelica/Class.cpp", "lib/AST/BaseModelica/Member.cpp", "lib/AST/BaseModelica/IfEquation.cpp", "lib/AST/BaseModelica/Modification.cpp"],
  [("classes and sections", "lib/Parser/BaseModelica/Parser.cpp: parseClassDefinition, parseElement"), ("equations and statements", "lib/Parser/BaseModelica/Parser.cpp: parseEquation, parseStatement"),
   ("nodes", "lib/AST/BaseModelica")], over=("inputs", "programs"), observe=["the tree"])

P("C21", "Every node knows its parent; copies of trees are equal and independent",
  "In the tree of any accepted text, and in any copy of it, the parent of each node is the node that holds it. A copy has the same nodes, values and locations as the original, "
  "and stays so when the original is destroyed.",
  "the trees of all sequences of up to 3 tokens in 28 contexts, and of 3 or 4 fragments of larger constructs",
  "The nodes are copied whenever lists are set, each class by code of its own, and the lowering finds the enclosing class through parents; no test copies a tree or looks at a parent.",
  ["lib/AST/BaseModelica", "include/marco/AST/ASTNode.h", "lib/Parser/BaseModelica/Parser.cpp"],
  [("copies", "lib/AST/BaseModelica: copy constructors and clone"), ("parents", "lib/AST/BaseModelica: set...")], over=("inputs", "programs"), observe=["the copied tree, the parents"])

P("C22", "Variable filters select exactly the variables and elements they name",
  "A filter text is accepted exactly if it follows the grammar of filters, and malformed ones are diagnosed; no text makes the filter crash or hang. A variable, or the derivative of one, is shown exactly if some "
  "part of the filter names or matches it, and of an array exactly the elements within the bounds given, whatever their magnitude, padded to or cut at the rank of the array.",
  "every text of up to 2 bytes, texts with up to 5 free characters in lists, arrays, bounds, derivatives and regular expressions, rows of 3 of 10 words, and 4 variables of rank 0 to 2",
  "The filter decides what a simulation outputs; its tests cannot be built with the installed LLVM and only cover a dozen well-formed filters.",
  ["lib/VariableFilter", "include/marco/VariableFilter"],
  [("grammar of filters", "lib/VariableFilter/Parser.cpp, LexerStateMachine.cpp"), ("selection", "lib/VariableFilter/VariableFilter.cpp, Tracker.cpp, AST.cpp")], over=("inputs", "configurations"),
  observe=["the parsed filter: what it says of each variable", "diagnostics"])

P("C23", "Index spaces survive being stored in the IR, as attributes, bytecode or text",
  "An index space, a list of them, a range or a box stored as an attribute, written to bytecode or printed is read back as the same set of points, with the same rank, size and hash; "
  "lists keep their length and order, empty spaces included.",
  "sets of up to 3 ranges of rank 1 to 3, lists of up to 3 sets of mixed ranks",
  "Any pass pipeline split over files relies on it, for every set of points; no test that runs here reads an operation back.",
  ["lib/Dialect/Modeling/IR/Properties.cpp", "include/marco/Dialect/Modeling/IR/Properties.h", "lib/Dialect/Modeling/IR/Attributes.cpp"],
  [("bytecode, attributes and text of sets", "lib/Dialect/Modeling/IR/Properties.cpp"), ("attributes of ranges", "lib/Dialect/Modeling/IR/Attributes.cpp")], observe=["the set read back"])

LLVM = ("cannot be compiled here: the project follows its own LLVM, and the newest one installed (20) lacks interfaces it needs, so there is no IR of this code to execute symbolically")

P("N01", "Folding and transformations of Modelica operations preserve their values",
  "The folders, canonicalisations and transformations of the BaseModelica dialect (derivatives, inlining, scalarisation, constant propagation) replace operations by others that compute the same values.",
  "all operations, types and operands", "The tests compare the text of selected results.",
  ["lib/Dialect/BaseModelica"], [("folders and transforms", "lib/Dialect/BaseModelica/IR, Transforms")], over=("programs", "inputs"))
NA("N01", "The BaseModelica dialect " + LLVM + " (its attributes use APIntParameter, unknown to the installed table generator).")

P("N02", "Generated simulations compute the variables the model defines",
  "The program generated from a model computes, at each step, values of the variables that satisfy its equations.",
  "all models", "The tests simulate selected models, and none of them runs here.",
  ["lib/Codegen", "lib/Dialect/BaseModelica/Transforms", "lib/Dialect/Runtime"], [("lowering", "lib/Codegen")], over=("programs", "inputs"))
NA("N02", "The lowerings and the Runtime dialect " + LLVM + ".")

P("N03", "The compiler driver honours its options and never emits output after an error",
  "Each command-line option has its documented effect on the output, and no output is produced when a diagnostic of error level was emitted.",
  "all combinations of options and inputs", "The tests run selected command lines, and none of them runs here.",
  ["lib/Frontend", "tool"], [("driver", "tool/marco, lib/Frontend")], over=("configurations", "inputs"))
NA("N03", "The front end and the driver " + LLVM + "; they also depend on an external flattener that is absent.")
