#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the specification below."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mech(*xs):
    return [{"name": a, "where": b} for a, b in xs]

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mechanism, observe=observe, technique=technique,
                  note=" ".join(note.split()), state=state))

RES = ["the columns, rows and error that Evaluate returns"]
RESG = RES + ["the nodes, relationships, labels and properties of the graph afterwards"]
TRUST = "Trusted: the reference interpreter in /verif/harness (independent code, no shared helpers), the lpg graph library, and the Go toolchain. "

prop("C01", "Arithmetic has Cypher's precedence, associativity and result types",
"""For every expression built from +, -, *, /, %, ^, unary signs and parentheses over integers, floats, strings and lists, the value is the one
Cypher's precedence (^ over * / % over + -) and left-to-right evaluation give. Two integers give an integer (division truncates, remainder takes the
sign of the dividend), an integer and a float or two floats give a float, ^ always gives a float, and + also concatenates two strings or two lists. A division or remainder by zero
and an operator applied to operand types it does not support are errors, never a wrong value.""",
["inputs", "programs"],
"All expression trees over literals in all notations, parameters, variables and node properties; excluded: overflow of 64-bit integers, NaN, infinities, and errors next to null operands.",
"Tests evaluate a handful of fixed expressions (1+2, chains of one operator); precedence and typing are about the unbounded set of expression trees and operand types.",
["arithmeticeval.go", "eval.go", "ast.go"],
mech(("addOrSubtractExpression.Evaluate", "arithmeticeval.go"), ("multiplyDivideModuloExpression.Evaluate", "arithmeticeval.go"), ("powerOfExpression.Evaluate", "arithmeticeval.go"), ("unaryAddOrSubtractExpression.Evaluate", "arithmeticeval.go")),
RES, "runtime monitoring against a reference evaluator, random expressions",
"Random exploration of typed expression trees up to depth 4.")

prop("C02", "Null propagation and three-valued logic",
"""An arithmetic, comparison, string, list-index or property operator with a null operand gives null, where a missing property, a null parameter and an out-of-range
list element count as null like the literal does. AND, OR, XOR and NOT follow Kleene's three-valued tables (false AND null is false, true OR null is true), IS NULL and IS NOT NULL
always give true or false, and x IN list is true if a member equals x, else null if a comparison was null, else false.
WHERE keeps exactly the rows whose predicate is true, dropping both false and null.""",
["inputs", "programs"],
"All boolean formulas and operator trees with null at any position and from any source; chains of several logical operators included.",
"The tests have no null operands at all; the tables hold for every combination and nesting of operators and null sources.",
["relationaleval.go", "arithmeticeval.go", "eval.go"],
mech(("andExpression/orExpression/xorExpression.Evaluate", "relationaleval.go"), ("notExpression.Evaluate", "relationaleval.go"), ("comparisonExpression.Evaluate", "relationaleval.go"), ("row filter of MATCH … WHERE", "eval.go")),
RES, "runtime monitoring against a reference evaluator, random formulas with nulls",
"Random exploration; formulas up to depth 5.")

prop("C03", "Comparisons agree with one total order per kind of value",
"""For values of one kind (integers and floats together, strings, booleans, dates, local times, local date-times, durations) the operators =, <>, <, <=, >, >= are
exactly those of one total order, in which integers and floats compare by numeric value and times chronologically. A chain such as a < b <= c is the conjunction of its neighbouring comparisons;
IN, CASE x WHEN, DISTINCT and ORDER BY (ASC and DESC, nulls last in ascending order) agree with that same order. Comparing values of different kinds with an operator, or sorting them by one key, is an error.""",
["inputs"],
"All pairs, chains and lists of values of each kind, with equal, adjacent and far-apart values.",
"A test compares a few pairs; consistency (antisymmetry, transitivity, agreement of six operators, sorting and IN) is a property of all pairs.",
["relationaleval.go", "value.go", "eval.go"],
mech(("comparePrimitiveValues / compareValues", "relationaleval.go"), ("IsValueSame", "value.go"), ("sorting and DISTINCT of RETURN", "eval.go")),
RES, "runtime monitoring against one reference order, all pairs of random value sets",
"Every pair of each random value set is observed under all six operators, IN, CASE, DISTINCT and ORDER BY.")

prop("C04", "Lists, maps, CASE, indexing, slicing and string operators",
"""List and map literals, list indexing (negative from the end, null when out of range), slices with either bound omitted, map and node property access, CASE in both forms (first matching
alternative, ELSE, or null), IN, and STARTS WITH, ENDS WITH and CONTAINS give the values openCypher defines, at any nesting, wherever their operands come from. Operands of a
type the construct does not accept are errors.""",
["inputs", "programs"],
"All nestings of these constructs over literals, parameters, variables and properties; excluded: negative or reversed slice bounds.",
"There are a couple of tests of list literals; boundaries of slices and indexes and nesting of constructs are unbounded.",
["eval.go", "literal.go", "ast.go"],
mech(("listOperatorExpression / stringListNullOperatorExpression.Evaluate", "eval.go"), ("caseClause.Evaluate", "eval.go"), ("propertyExpression.Evaluate", "eval.go")),
RES, "runtime monitoring against a reference evaluator, random expressions",
"Random exploration of nested constructs up to depth 4.")

prop("C05", "Literals, names and escaping round-trip",
"""Every value that can be written as a literal (integers in decimal, hex and octal, floats in all notations, strings in either quote with every escape sequence, booleans, null) is read as that
value, and every name (labels, types, property keys, variables, parameters, aliases; plain, reserved word used as key, label or type, unicode, or in backticks) is read as that name with its case kept; a number too large for its type is an error.
For any string s, EscapeStringLiteral(s), which includes the quotes, reads back as exactly s, and for any non-empty s EscapeLabelLiteral(s) and EscapePropertyKeyLiteral(s), which include the backticks, name exactly s as label, type, key or variable.""",
["inputs"],
"All strings and non-empty names of valid Unicode, all literal notations; excluded: surrogate escapes, the literal 9223372036854775808 after a minus.",
"The tests use a few ASCII names and strings; injection-safety of escaping is a statement about every string.",
["lang.go", "ast.go", "literal.go", "parser/cypher_parser.go"],
mech(("EscapeStringLiteral, EscapeLabelLiteral, EscapePropertyKeyLiteral", "lang.go"), ("literal and symbolic-name rules of the listener", "ast.go")),
RESG, "runtime monitoring of round trips through the public API",
"Random and hostile strings (all ASCII characters, quotes, backslashes, backticks, line ends, multi-byte) through three escapers and every literal notation.")

prop("C06", "No query crashes or hangs the interpreter",
"""For any text, graph and parameters, Parse, ParseAndEvaluate, Evaluate and ParsePatternExpr return a value or an error: they never panic and always end. Text that is not a complete
query of the grammar (unbalanced, truncated, unknown characters, trailing input) is an error and is not partly executed.""",
["inputs", "programs"],
"Valid queries, token- and byte-level mutations of them, truncations, unsupported constructs, wrong types and missing names everywhere; excluded: the patterns with several variable-length relationships that the graph library itself cannot run.",
"The tests only parse correct queries; crash-freedom is about all texts.",
["ast.go", "eval.go", "functions.go", "README.md"],
mech(("error listener", "ast.go"), ("type checks that return ErrInvalid… instead of asserting", "eval.go")),
["panics, errors, and the graph after an error"], "crash, hang and memory monitoring under mutation fuzzing",
"Go runtime panics, a CPU watchdog per case, a stack and a memory limit are the monitors.")

prop("C07", "Spacing, comments, letter case and spelling do not change a query",
"""Two texts with the same tokens give the same result and the same changes to the graph, whatever white space or comments (/* */ and //) stand between the tokens, whatever the letter case of keywords and function-independent
words (MATCH, match, Match), and whichever of the equivalent spellings is used (redundant parentheses, ASC/ASCENDING, <> in both forms, the alternative dashes and arrow heads of the grammar, a final semicolon). Names and strings keep their exact case and content.""",
["programs"],
"All queries of the supported language, and all ways to lay them out.",
"Each test uses one layout; the grammar has optional space in hundreds of places.",
["parser/cypher_parser.go", "ast.go"],
mech(("SP, Comment, oC_Dash, oC_LeftArrowHead rules", "parser/cypher_parser.go"), ("listener that builds the AST from tokens by position or symbol", "ast.go")),
RESG, "metamorphic runtime monitoring (two layouts of one query, plus reference)",
"Every query is run in several random layouts and compared with the reference result.")

prop("C08", "MATCH finds exactly the bindings of its pattern",
"""The rows of MATCH are exactly the assignments of graph elements to the pattern (labels, relationship types and alternatives, direction, properties, repeated variables, comma-separated parts, WHERE),
each assignment exactly as often as it occurs, independent of traversal order, of the number of elements of each kind, and of property indexes on the graph. A variable-length segment stands for every trail (no relationship twice) whose length is within its
bounds, in the given direction.""",
["inputs", "programs"],
"All finite property graphs with loops and parallel relationships, and all patterns of the supported language over them; different parts of a pattern may share relationships; excluded: pattern properties that are not integers or strings, several variable-length segments in one part, lengths below one.",
"The tests run a dozen patterns on fixed graphs; which traversal the planner chooses depends on the sizes and shapes of both.",
["patterneval.go", "eval.go"],
mech(("Pattern building and planning", "patterneval.go"), ("Match.GetResults and result accumulation", "patterneval.go")),
RES, "runtime monitoring against a brute-force matcher, random graphs and patterns",
"Every row of every query is compared as a bag with brute force over graphs of up to 8 nodes and 14 relationships.")

prop("C09", "Each MATCH and OPTIONAL MATCH extends every row of the ones before it",
"""A sequence of MATCH and OPTIONAL MATCH clauses gives, for every row of the clauses before, one row for each way the next clause matches consistently with the variables already bound. OPTIONAL MATCH
keeps a row that has no match (taking its WHERE into account), with its new variables null; MATCH drops it. Variables that are already bound, including null ones, are constraints, never rebound.""",
["inputs", "programs"],
"All sequences of clauses sharing any subset of their variables, over all graphs.",
"The tests have at most two MATCH clauses on one graph.",
["eval.go", "patterneval.go"],
mech(("row context passing between reading clauses", "eval.go"), ("bound symbols as constraints", "patterneval.go")),
RES, "runtime monitoring against a reference interpreter, random clause sequences",
"Two to four clauses per query.")

prop("C10", "RETURN projects, deduplicates, sorts and cuts the rows as written",
"""RETURN gives one row per matched row with the columns in the order written (alias, or position), RETURN * returns all variables, and DISTINCT keeps one of each group of equal rows.
ORDER BY sorts by its keys in order, each ascending or descending, with nulls last ascending and first descending; SKIP and LIMIT then select that window, and apply after DISTINCT and ORDER BY.""",
["inputs", "programs"],
"All projections over all row sets; rows that tie may come in any order; excluded: negative or non-integer SKIP and LIMIT.",
"No test sorts, skips, limits or deduplicates more than a fixed example.",
["eval.go", "resultset.go"],
mech(("returnClause / projectionBody", "eval.go"), ("ResultSet.Append, findRow", "resultset.go")),
RES, "runtime monitoring against a reference interpreter, random projections",
"Order is checked by groups of equal keys.")

prop("C11", "UNION and UNION ALL combine results as sets and bags",
"""UNION ALL returns the rows of all of its queries, each as often as they produced it; UNION returns each distinct row of them exactly once, also when the duplicates come from one query. Rows are duplicates exactly if
all of their columns hold the same values: the same node or relationship, equal lists and maps, equal primitive values, and null like null.""",
["inputs", "programs"],
"All unions of two or more queries with the same columns.",
"One test of one union.",
["eval.go", "resultset.go", "value.go"],
mech(("unionQuery evaluation", "eval.go"), ("ResultSet.Union", "resultset.go"), ("IsValueSame", "value.go")),
RES, "runtime monitoring against a reference interpreter, random unions",
"Values are drawn from small sets so that most rows have duplicates.")

prop("C12", "CREATE adds exactly the pattern, once per row",
"""For every incoming row (once if there is none to read) CREATE adds exactly the nodes and relationships of its pattern that are not bound yet, with the given labels, types, directions and property values,
connected to the bound nodes of that same row, and binds its variables for what follows. Null properties are not stored, nothing else in the graph changes, and an unsupported or inconsistent pattern is an error.""",
["inputs", "programs", "histories"],
"All CREATE patterns after all row sets, over all graphs.",
"The tests create two or three fixed patterns without looking at the whole graph.",
["update.go", "patterneval.go", "eval.go"],
mech(("Pattern.Create, NodePattern.Create", "update.go"), ("per-row evaluation", "eval.go")),
RESG, "runtime monitoring of the whole graph against a model",
"The graph is compared up to isomorphism; lpg's own indexes and adjacency lists are checked for consistency.")

prop("C13", "SET and REMOVE update exactly the named elements of every row",
"""For every row, SET n.k = v, SET n = map, SET n += map and SET n:Label, and REMOVE n.k and n:Label, leave exactly the named properties and labels of exactly the bound nodes changed, items and clauses applied in order with each seeing what earlier ones wrote;
= replaces all properties, += keeps the others, and null removes. Rows where the variable is null are skipped, and nothing else in the graph changes.""",
["inputs", "programs", "histories"],
"All items over all row sets and value types; excluded: statements whose outcome depends on the order of rows, and SET on relationships, which is an error.",
"The tests set one property of one node.",
["update.go", "eval.go"],
mech(("updateProperty, updateVariable, updateLabels, remove items", "update.go")),
RESG, "runtime monitoring of the whole graph against a model",
"Labels and properties of all elements, and lpg's indexes, are compared after each statement.")

prop("C14", "DELETE removes exactly the bound elements, or fails without effect",
"""DELETE removes exactly the nodes and relationships its expressions give over all rows, each once however often it occurs, and DETACH DELETE also exactly the relationships of those nodes; nulls are skipped. DELETE of a node
that would leave a relationship behind is an error, and then nothing is deleted.""",
["inputs", "programs", "histories"],
"All graphs with loops and parallel relationships, and all row sets, including the same element in many rows.",
"The tests delete single nodes bound once.",
["update.go", "eval.go"],
mech(("deleteClause", "update.go")),
RESG, "runtime monitoring of the whole graph against a model",
"Includes the adjacency lists and indexes of the graph library after the deletions.")

prop("C15", "MERGE matches if it can, and otherwise creates, once per row",
"""For every row MERGE binds all existing matches of its pattern, given the variables already bound, or, only if there are none, creates the whole unbound rest of the pattern once; ON MATCH SET runs exactly for matched rows and ON CREATE SET exactly for created ones. A
row sees what MERGE created for the rows before it, so merging again creates nothing, and no other part of the graph changes.""",
["inputs", "programs", "histories"],
"All patterns with integer and string properties, over all row sets and graphs.",
"The tests merge single fixed patterns.",
["update.go", "patterneval.go"],
mech(("mergeClause", "update.go")),
RESG, "runtime monitoring of the whole graph against a model, plus idempotence",
"Statements whose outcome depends on the order of rows are discarded.")

prop("C16", "Queries without updating clauses change nothing",
"""A query that has no updating clause leaves the graph (elements, labels, properties, indexes and the internal lists of lists and maps stored in it) and every value given as a parameter or variable exactly as they were, whether it succeeds or fails.
Nothing it builds overwrites elements of lists that are stored, were passed in or were returned by an earlier query, including the spare capacity of such slices.""",
["inputs", "programs"],
"All reading queries and expressions over all graphs and parameters.",
"The tests never look at inputs after a query.",
["eval.go", "arithmeticeval.go", "literal.go"],
mech(("expression evaluation on shared slices and maps", "arithmeticeval.go")),
["deep copies of the graph and the arguments before and after"], "runtime monitoring with before/after snapshots and sentinels",
"Sentinels behind the end of every passed slice detect appends into shared memory.")

prop("C17", "A parsed query can be evaluated again and again",
"""Evaluating a parsed query gives the result that parsing its text afresh would give, however often, in whatever order, and with whatever other graphs, parameters and variables it, or other parsed queries, were evaluated before.
No evaluation, failed or successful, leaves anything behind in the parsed query.""",
["histories", "programs"],
"All sequences of evaluations of a parsed query with changing parameters, graphs and contexts.",
"Every test evaluates its query once, so caching of values inside the syntax tree is invisible.",
["ast.go", "eval.go", "literal.go", "patterneval.go"],
mech(("constant folding in expression nodes", "arithmeticeval.go"), ("patterns built per evaluation", "patterneval.go")),
RESG, "runtime monitoring: repeated evaluation against fresh parses",
"Several parsed queries are evaluated in interleaved order over contexts with different arguments.")

prop("C18", "Variables and parameters resolve to the right values, and only there",
"""A parameter is the value set for exactly that name, a variable is the value bound by the query, else the one set on the context or the nearest of the contexts it was derived from, and any other name is an error, never a silent null.
Values set on a derived context never change the one it came from. Evaluating an expression or a query with variables from the context gives the same as with the values written in place.""",
["inputs", "histories"],
"All sequences of setting, removing and looking up names over trees of contexts.",
"The tests use one context and one variable.",
["ctx.go", "eval.go"],
mech(("EvalContext.SubContext, GetVar, SetVar, RemoveVar, GetParameter, SetParameter", "ctx.go")),
RES, "runtime monitoring of context histories against a scoped-map model",
"Random trees of contexts and random queries that use their names.")

prop("C19", "Independent evaluations can run at the same time",
"""Parsing, escaping and building result sets in several goroutines, and evaluating queries and pattern expressions that each goroutine has parsed itself on separate contexts and separate graphs, has no data race and gives every goroutine the result it would get alone. The same holds for reading queries that share one graph while nobody writes to it.""",
["schedules", "programs"],
"All interleavings of parses and evaluations, each goroutine with its own parsed query and context.",
"The tests are sequential and are never run with the race detector.",
["ast.go", "functions.go", "ctx.go", "parser/cypher_parser.go"],
mech(("lazily initialized parser tables", "parser/cypher_parser.go"), ("global function table, read only after init", "functions.go")),
["race reports; the results of every goroutine"], "Go race detector under concurrent random queries, with results checked",
"The race detector sees the executed interleavings; goroutines start together and yields are injected.")

prop("C20", "Built-in functions compute what they document",
"""range, size, left, right, substring, trim, ltrim, rtrim, split, toInteger, toFloat, toIntegerOrNull, toFloatOrNull, labels, type, date, timestamp and parseDate give the documented value for every argument they accept, counting
Unicode characters rather than bytes in strings; range includes its end. Null as first argument gives null; arguments of another type, a wrong number of them, and unknown function names are errors, and the OrNull forms give null for a
value that cannot be converted.""",
["inputs"],
"All arguments; excluded: step 0, negative lengths and positions, splitting by an empty string, numeric strings in unusual notations.",
"The tests call a few functions with one argument each.",
["functions.go", "stringfuncs.go", "datetime.go", "README.md"],
mech(("function table with argument counts", "functions.go")),
RES, "runtime monitoring against reference implementations",
"Random and boundary arguments.")

prop("C21", "ParsePatternExpr and FindRelative follow the path from the given node",
"""For a pattern expression and a starting node, FindRelative gives exactly the nodes that a brute-force search for the pattern, with its first node bound to the starting node, finds for the target, one entry for each match, and nothing if there is none.
The graph, and the parsed expression, are unchanged and reusable for other nodes.""",
["inputs", "programs"],
"All relationship chains from `this` to `target`, over all graphs and starting nodes.",
"One fixed example is tested.",
["lang.go", "patterneval.go"],
mech(("ParsePatternExpr, FindRelative", "lang.go")),
["the nodes returned"], "runtime monitoring against a brute-force matcher",
"All starting nodes of every random graph.")

prop("C22", "The property filter sees every value written by a query, once, and decides it",
"""If PropertyValueFromNativeFilter is set, every property value that CREATE, SET and MERGE store is the one the filter returned for exactly that key and value, whatever clause form wrote it; values that are
only read, matched or compared are never passed through it. Without a filter values are stored as they are.""",
["inputs", "programs"],
"All updating clauses and value types.",
"No test sets the filter.",
["ctx.go", "update.go"],
mech(("EvalContext.PropertyValueFromNativeFilter", "ctx.go")),
RESG + ["calls of the filter"], "runtime monitoring of filter calls against a model",
"The filter logs its calls and transforms values by key.")

prop("C23", "Every result value has one of the documented Go types",
"""Every value in a result, at any depth, has one of the types README.md lists (int, float64, bool, string, Duration, Date, LocalTime, LocalDateTime, *lpg.Node, path or edge list, []Value, map[string]Value, nil), whatever native Go type that ValueOf accepts the stored property, parameter or
variable has; signed, unsigned and small integers and float32 are converted to int and float64 with the same numeric value, and native slices and maps to lists and maps with the same members.
Storing such a value and reading it back gives an equal value, and ValueAsInt, ValueAsString, ValueAsBool and IsValuePrimitive accept exactly the types they name.""",
["inputs"],
"All native types a property or parameter may have, at any nesting.",
"The tests store int and string only.",
["value.go", "README.md"],
mech(("ValueOf, RValue.Get", "value.go"), ("conversion of native property values", "value.go")),
RES, "runtime type monitor over all results",
"A type walker over every value of every result; native values of every Go kind.")

prop("C24", "Date, time and duration arithmetic is calendar arithmetic",
"""Adding or subtracting a duration moves a date, local time or local date-time by its months, days, seconds and nanoseconds in the calendar (local times wrap around midnight), independent of the time zone of the process (wall-clock times the zone skips excepted); durations add, subtract and scale
by component. Values keep their kind, survive storing in a property and reading back, and compare chronologically; date() reads the date its string or map argument names. NewDate, NewLocalTime and NewLocalDateTime keep exactly the fields their kind has, and String() shows these fields, and all components of a duration, exactly.""",
["inputs", "configurations"],
"Years 1 to 9999, all durations of moderate size, several local time zones; excluded: month arithmetic from the 29th to the 31st of a month.",
"The tests check a few fixed dates in the time zone of the machine.",
["datetime.go", "arithmeticeval.go", "relationaleval.go"],
mech(("Date, LocalTime, LocalDateTime, Duration arithmetic", "datetime.go")),
RES, "runtime monitoring against reference calendar arithmetic",
"Reference arithmetic on day numbers, independent of Go's time package.")

prop("C25", "A history of statements leaves the graph a model predicts, and intact",
"""After any sequence of creating, merging, setting, removing, deleting and reading statements on one graph, the graph equals the one that a simple model of property graphs reaches, every statement returned what the model returns at that point, and lookups by label, by type, by property index and
along relationships agree with a full scan. A statement that fails leaves a graph later statements can still work on.""",
["histories", "programs"],
"All finite histories; excluded: nodes created after the most recently added node was deleted, which the graph library loses.",
"Every test runs one or two statements on a new graph.",
["eval.go", "update.go", "patterneval.go"],
mech(("updating clauses on lpg graphs", "eval.go")),
RESG, "runtime monitoring of statement histories against a model",
"Graphs are compared after every statement, and elements are re-identified by a unique property.")

prop("C26", "ResultSet operations are those of sets and bags of rows",
"""Append, Add, Union, Column and both forms of CartesianProduct on result sets give the rows that the same operations on lists, sets and bags of rows give: Union without all keeps one of each group of equal rows; a product gives every combination exactly once, those the predicate rejects excepted, in
rows that share no storage with its arguments, and an empty result set is left out of it if all is set and makes it empty if not; arguments and columns are kept. No row at all and no columns at all are treated like any other number of them. Two values are the same to IsValueSame exactly if their types, structure and elements agree (numbers by value), and Nodes and Edges of a result set are the nodes and relationships that are values in its rows, each once (rows that a Union drops count too).""",
["inputs", "histories"],
"All small result sets with any columns, rows and value types.",
"The tests do not use them directly.",
["resultset.go"],
mech(("ResultSet.Union, Append, Add, CartesianProduct", "resultset.go")),
["rows and columns of result sets"], "runtime monitoring against set and bag operations",
"Random result sets; combinations are counted.")

prop("C27", "Registered functions get the values of their arguments, once per call",
"""A function registered with RegisterGlobalFunc, plain or with a namespace or in backticks, can be called wherever an expression can be: it gets exactly the values of its arguments, in order, and a context with the variables of the row and the parameters, and its result is used like any other value of that
type. For every row and every evaluation of the query each call in the RETURN clause that is due (all but those of CASE alternatives not taken) is made exactly once, even if its arguments are constant. A number of arguments outside of MinArgs and MaxArgs (-1: any), or an unknown name, is an error and no call,
and an error of the function is the error of the query.""",
["programs", "inputs"],
"All functions and their arities, all places of a call in reading and updating queries, all arguments; calls made in WHERE, patterns and ORDER BY are not counted.",
"The tests register no functions at all.",
["functions.go", "eval.go", "ctx.go"],
mech(("functionInvocation.Evaluate", "eval.go"), ("EvalContext.GetFunction", "ctx.go"), ("RegisterGlobalFunc", "functions.go")),
["the calls that registered functions receive"] + RES, "runtime monitoring: log of calls compared to the calls the reference interpreter makes",
"Functions that keep a log of their calls; the reference has the same functions.")

prop("C28", "What is not implemented is an error, never a wrong answer",
"""A query with a construct of the openCypher grammar that the interpreter does not implement (WITH, UNWIND, CALL, list and pattern comprehensions, ALL, ANY, NONE, SINGLE, count(*) and other aggregates, EXISTS, patterns as expressions, =~) fails with an error, from Parse or when evaluation reaches the
construct, wherever in the query it is. It never panics, and the construct is never skipped, nor taken for something else.""",
["programs"],
"All constructs listed, at any place of a reading or updating query where they are evaluated at least once.",
"The tests use implemented constructs only.",
["ast.go", "eval.go"],
mech(("Evaluate of comprehensions, filters, patterns, count", "eval.go"), ("oC_InQueryCall, oC_StandaloneCall", "ast.go")),
RES, "runtime monitoring: an oracle decides whether the construct is reached",
"The reference interpreter decides whether the construct is reached.")

CLAIMED = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if CLAIMED is not None and p["id"] not in CLAIMED:
            na.append({"property": p["id"], "reason": "its check is still being built"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"] + " " + TRUST.strip()})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all monitors observe through the public API, the lpg graph, and the Go runtime."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
