"""All checks by property."""
from __future__ import annotations

from collections import namedtuple

from . import algebra, bench, cards, catalog, checks, choices, effects, enumerators, estimates, formatted, grammar, grouping, hints, native, optim, patterns, pipelines, plans, predicates, qal, rebuild, stored, text, training, types, visitors, whole, workload

Check = namedtuple("Check", "fn technique rule note")
TRUSTED = ["CPython ast module", "sa/model.py (name, class and annotation resolution)", "sa/interp.py (provenance analysis)",
           "the tables of instances and exemptions in sa/rules"]
ABSINT = "path-sensitive abstract interpretation over the syntax tree (provenance of values)"
EFF = "effect, alias and purity analysis over the syntax tree (interprocedural summaries)"
EFFNOTE = ("Flow-insensitive summaries of all functions of the package (which argument, receiver or global state a function may modify, what its "
           "result aliases, whether it has an effect at all), computed to a fixed point over the call graph. Calls that cannot be resolved are "
           "assumed not to modify their arguments and not to be pure. Trusts the Python AST, the annotations and the tables in sa/rules/effects.py.")
NOTE = ("Decides a structural necessary condition of the property on every path of the analysed functions (loops abstracted, callees followed "
        "or treated as opaque); silent where the provenance is not precise enough. Trusts the Python AST, the annotations of the package and "
        "the analysis engine in sa/.")


def with_patterns(fn):
    """A rule, followed by the search for suspicious shapes in all functions that the rule has evaluated."""
    def check(ctx):
        fn(ctx)
        patterns.apply(ctx)
    check.__module__, check.__name__ = fn.__module__, fn.__name__
    return check


CHECKS = {
    "Q01": Check(qal.check_Q01, ABSINT,
                 "For every value class of the query and relational algebra: every path on which __eq__ succeeds has compared every stored "
                 "constructor parameter; every parameter that flows into __hash__ is compared, and at least as finely as it is hashed; "
                 "comparisons only succeed for the same kind of object or for kinds with the same hash.", NOTE),
    "Q02": Check(qal.check_Q02, ABSINT,
                 "For every query element: on every path of tables(), every constructor parameter whose type can contain tables flows into the "
                 "result (directly or through an operation that keeps its tables), unless it is absent or empty on that path.", NOTE),
    "Q03": Check(qal.check_Q03, ABSINT,
                 "For every query element: on every path of columns() and itercolumns(), every constructor parameter whose type can contain "
                 "columns flows into the result, unless it is absent or empty on that path.", NOTE),
    "Q04": Check(qal.check_Q04, ABSINT,
                 "For every query element: on every path of iterchildren()/iterexpressions()/iterpredicates(), every constructor parameter whose "
                 "type can contain expressions (predicates) flows into the result, unless it is absent or empty on that path.", NOTE),
    "Q05": Check(visitors.check_Q05, ABSINT,
                 "For every class of the expression, predicate, clause and relational algebra hierarchies: every path of accept_visitor calls "
                 "exactly one callback, namely the one declared for the most specific class (and kind) of the object, with the object and all "
                 "additional arguments, and returns its result; queries visit all clauses; visitors implement all callbacks.", NOTE),
    "Q06": Check(text.check_Q06, ABSINT,
                 "For every query element: on every path of __str__, every constructor parameter flows into the text (numbers, expressions, names) "
                 "or is tested (options), unless it is absent; the keywords of options appear exactly if the option is set; operands are printed "
                 "in their order.", NOTE),
    "Q07": Check(formatted.check_Q07, ABSINT,
                 "format_quick() is run abstractly for each kind of clause, table source (alone, in lists, in nested joins), CTE (at each position), "
                 "condition and set query and each formatting flavor: on every path each component of the element flows into the text unless it is "
                 "absent, keywords appear exactly with their option, nested queries get the same flavor and no delimiter, and the layout adapters of "
                 "expressions have all components of the original.", NOTE),
    "Q10": Check(grouping.check_Q10, ABSINT,
                 "For every pair of an operator and an operand that SQL would group differently without brackets: on every path of __str__ on which "
                 "the operand has that kind and operator, its text is enclosed in brackets (by the outer element, or the operand encloses itself).", NOTE),
    "T01": Check(rebuild.check_T01, ABSINT,
                 "For every concrete class of query element handed to the column renaming functions: on every path, every constructor parameter "
                 "of the element flows into the result, and every parameter whose type can contain columns has passed the renaming.", NOTE),
    "T02": Check(rebuild.check_T02, ABSINT,
                 "For every concrete class of query element handed to the table renaming functions: on every path, every constructor parameter "
                 "of the element flows into the result, and every parameter whose type can contain tables has passed the renaming.", NOTE),
    "T03": Check(rebuild.check_T03, ABSINT,
                 "For every concrete class of query element handed to the replacement functions: on every path, every constructor parameter "
                 "of the element flows into the result, unless the element itself is replaced.", NOTE),
    "T04": Check(whole.check_T04, ABSINT,
                 "For every kind of clause and every whole-query transformation: a clause that is not the target flows into the query that is "
                 "built, the target does not, and the new clause does; build_query hands each kind of clause to its constructor parameter for "
                 "each kind of query; clauses() reports each component; queries that are copied clause by clause get all clauses.", NOTE),
    "Q09": Check(predicates.check_Q09, ABSINT,
                 "Decision tables: for each kind of predicate and table source (described as facts about access paths), every path of the predicate "
                 "accessors (is_join, join partners, base/compound, filters/joins, holds_for, bound/unbound tables, subqueries) that is compatible "
                 "with the facts returns the value that the documentation demands.", NOTE),
    "Q08": Check(effects.check_Q08, EFF,
                 "No function outside the construction of an object assigns an attribute of, or modifies a container stored in, an object of the "
                 "value classes (query algebra, cardinalities, plans, join trees), directly or through an alias, an accessor or a callee.", EFFNOTE),
    "H01": Check(plans.check_H01, ABSINT,
                 "Every container of a hint object flows into the results of clone, update and merge, with the entries of the later source winning; "
                 "setters store their arguments and keep the rest; adding dispatches each kind of operator to its own container; optional entries "
                 "are kept if they are falsy but present.", NOTE),
    "H02": Check(plans.check_H02, ABSINT,
                 "Functions that extract join orders, operators and parameters from plans: roles of inputs, provenance of cardinalities for each "
                 "source and fallback, all children considered, own entry kept, options forwarded by every recursive call.", NOTE),
    "H03": Check(plans.check_H03, ABSINT,
                 "Every attribute of a plan node flows into the same attribute of a derived node unless it is the one to be changed; recursion "
                 "covers all inputs and the subplan and passes on all options.", NOTE),
    "H04": Check(plans.check_H04, ABSINT,
                 "On every path of a traversal, all inputs, the subplan and the node itself flow into the result; searches visit all parts and "
                 "return what they find; shape checks depend on all joins.", NOTE),
    "H05": Check(plans.check_H05, ABSINT,
                 "Every path on which two plan or hint objects compare equal has compared all their decisions, hashes depend on compared content "
                 "only, and unknown numbers (NaN) are not compared by value alone.", NOTE),
    "C01": Check(cards.check_C01, ABSINT,
                 "The comparison operators of Cardinality are evaluated abstractly for all combinations of states; result, failure and the "
                 "compared operands must agree with the order of numbers.", NOTE),
    "L01": Check(pipelines.check_L01, ABSINT,
                 "For every pipeline: on every path of query_execution_plan/optimize_query/execute_query, the configured stages are called on the "
                 "query and on the decisions of the stages before them, the decisions flow into the hint generation call in their own role, and "
                 "the result is the one of the last step.", NOTE),
    "L02": Check(pipelines.check_L02, ABSINT,
                 "For every pipeline: build() succeeds only after each configured stage was checked against the target database; optimisation "
                 "succeeds only after the support check of the pipeline was applied to the query; failures raise the declared errors.", NOTE),
    "L03": Check(pipelines.check_L03, ABSINT,
                 "For every pipeline and setup method: the argument flows into the attribute that is used later, other attributes are unchanged, the "
                 "pipeline is returned; stages(), the support check and describe() depend on every stage attribute.", NOTE),
    "L04": Check(pipelines.check_L04, ABSINT,
                 "For every training method and stage: the stage is fitted on every path on which it requires training and is not done, and on no "
                 "other; arguments and metric names agree with the stage; requires_*/*_completed quantify over all stages.", NOTE),
    "L05": Check(training.check_L05, ABSINT + " with a classification of mappings into feature-to-column and column-to-feature maps",
                 "Every renaming and feature map built by the training data classes has the direction that the frame it is applied to needs; combined "
                 "frames use one naming; requirements are checked in the right direction and with the right polarity on all selections; results of "
                 "merging and retrieval are restricted to the requested features.",
                 "Mappings that are not built by comprehensions over the feature map are not classified (listed as not decided)."),
    "V01": Check(checks.check_V01, ABSINT,
                 "Compound checks and merge_checks evaluated abstractly for passing and failing, plain, compound and empty components: all components "
                 "are asked the same question about the same object, the verdict is their conjunction, all failure reasons are kept; results raise "
                 "the declared errors exactly if they failed; check equality compares all options.", NOTE),
    "V02": Check(checks.check_V02, ABSINT,
                 "Decision tables: for each kind of query structure or option (described as facts about access paths), every path of the check "
                 "method that is compatible with the facts returns the verdict that the name of the check demands.", NOTE),
    "B04": Check(catalog.check_B04, ABSINT + "; symbolic SQL templates",
                 "For every function of the database interfaces that sends a statement, with and without an explicit schema: the number of "
                 "placeholders of the statement equals the number of parameters, each placeholder is compared with a column of the same role "
                 "(table, column, schema, database) as the parameter, and result rows are accessed within the selected columns and in their role.", NOTE),
    "B05": Check(catalog.check_B05, ABSINT,
                 "For every catalog and statistics lookup: for virtual tables, unbound columns and columns of virtual tables, no path returns or contacts "
                 "the database, and the declared error is raised; ordinary tables and columns are not rejected.", NOTE),
    "B06": Check(catalog.check_B06, ABSINT,
                 "For every statistics request and every combination of the per-call and default choices for emulation and caching: paths contact the "
                 "catalog or compute exactly as chosen, every query receives the effective cache choice and is about the requested object; "
                 "execute_query() reads and fills the query cache exactly if caching is in effect.", NOTE),
    "W01": Check(workload.check_W01, ABSINT + "; structural rules over comprehensions and slices",
                 "For every operation that derives a workload: the new workload has the name, root and queries of the original, which is not changed; "
                 "queries are kept exactly if their label satisfies the condition; labels and queries of one entry stay together and in one order; "
                 "readers forward every option, parse every file with the requested encoding and respect the error policy.", NOTE),
    "W02": Check(bench.check_W02, ABSINT + "; symbolic growth of the result columns",
                 "For every operation of the benchmark result tables, on every path: all columns grow by the same number of entries, success, timeout and "
                 "failure write matching statuses, values and reasons, and all export formats number the rows alike.", NOTE),
    "W03": Check(bench.check_W03, ABSINT,
                 "For execute_workload() with each kind of target, timeout, preparation and error policy (all helpers inlined): the executed query is the "
                 "prepared, optimized query of the workload on the given system with the given timeout and without caching; options reach the part "
                 "that implements them; failures are recorded, raised or ignored as requested.", NOTE),
    "B01": Check(hints.check_B01, ABSINT,
                 "For every hint service (and hinting backend) and every kind of decision: each path through one iteration over the decisions adds "
                 "the text of exactly that entry (operator or value, tables by their identifiers) to the hints of the query, warns or raises an "
                 "error; also in later iterations (no stale values). Join orders keep the roles of the inputs, complete plans contribute order, "
                 "operators and parameters and exclude individual decisions, hint blocks carry the markers of the system.", NOTE),
    "B02": Check(hints.check_B02, ABSINT,
                 "The hint generators, the declarations of supported hints and the readers of native plans are evaluated abstractly for every "
                 "operator and every native node name: the names in the generated text and the recognised operators agree with the vocabulary "
                 "of the system (table in sa/rules/hints.py), and each declared operator has a name.", NOTE),
    "B03": Check(native.check_B03, ABSINT,
                 "The constructors of query plans in the readers of native plans (Postgres, DuckDB, MySQL): each attribute is computed from the keys of "
                 "the native plan with that meaning and from no other measurement (table in sa/rules/native.py); for representative combinations "
                 "of input relationships, inputs keep their outer/inner order and none is lost or used twice; the optimizer "
                 "interfaces translate the plan they obtained.", NOTE),
    "O02": Check(optim.check_O02, ABSINT,
                 "Typestate of estimators and cost models: on every path of their users, initialize(database, query) precedes the first estimate and "
                 "cleanup follows the last one, also if the body raises; wrappers forward both to what they wrap.", NOTE),
    "O01": Check(enumerators.check_O01, ABSINT,
                 "The enumeration is evaluated abstractly with every operator switched off in turn: no candidate for it is constructed then, all "
                 "others still are, and each is constructed if everything is enabled. The result of each cost and cardinality request is stored in "
                 "the candidate (relation) that it has been requested for; joins get the cardinality of the join, not of an input; candidates are "
                 "priced before they are added, partial paths have partial outer inputs, server settings are mapped to their operators, and "
                 "operator generators only assign allowed operators of the right kind.", NOTE),
    "O03": Check(estimates.check_O03, ABSINT,
                 "The result of each request for an estimate is traced to the hint it is stored in: same query, same intermediate, for every "
                 "intermediate unless the estimate is unknown; every subset of the tables is generated unless it is a cross product; estimators ask "
                 "the database for the fragment of the requested query and intermediate; native stages read the plan of their query and decisions.", NOTE),
    "X02": Check(effects.check_X02, EFF,
                 "No expression statement consists of the call of a generator or of an operation whose only effect is its result; no variable that "
                 "receives the result of such an operation remains unread.", EFFNOTE),
    "X03": Check(choices.check_X03, "query over the syntax tree (exhaustiveness and reachability of choices between kinds)",
                 "Each choice between kinds (match, if/elif ladder, sequence of leaving ifs) that rejects everything else has a branch for each "
                 "existing kind of its family (concrete subclasses, enumeration members, Literal values); no branch is hidden behind an earlier more "
                 "general one; each function with a result returns one on every path; options are only compared with values they can have; "
                 "lookup tables have one entry per key.",
                 "Families that users extend (optimization stages) and chains that treat only a few kinds specially are not judged; whether the body "
                 "of a branch is right is decided by the properties of the respective element."),
    "P01": Check(grammar.check_P01, ABSINT,
                 "On each path of the parser functions, each part that the grammar can attach to the node at hand (table of the raw parse tree) is "
                 "contained in the returned object, is known to be absent, or (flags and enumerations) has been decided on. Paths that raise an error "
                 "reject the statement.",
                 "Trusts the table of grammar nodes (taken from the PostgreSQL 17 grammar as encoded by pglast). Nodes that are reached in loops are "
                 "judged for all iterations together. How a flag is used is decided by P02."),
    "P02": Check(grammar.check_P02, ABSINT,
                 "Each decision of the grammar (sort direction, null placement, set operation, join type, materialization, quantifier, null test, LIKE "
                 "variants, sublinks) leads to the constructor argument with the same meaning on the paths that are taken for it; lookup tables relate "
                 "symbols, operators and mirrored operators of the same meaning; the texts of the operator enumerations are the SQL operators; factories "
                 "named like an operator create it.",
                 "Trusts the embedded tables of SQL operators. Values computed by lookups are judged at the table."),
    "P03": Check(stored.check_P03, ABSINT,
                 "Each constructor parameter of a storable object is part of the object that its __json__ builds, each written key is read by the "
                 "matching reader (along the same keys), each parameter is restored from the key that it has been stored under, and no attribute "
                 "is excluded from the additional attributes without being read on its own.",
                 "Which keys a reader consumes is decided by name; the texts of values (e.g. enum values) are assumed to be read back by their own "
                 "constructors. The attributes of a join tree depend on the kind of its node."),
    "R01": Check(algebra.check_R01, ABSINT,
                 "For every clause, kind of set operation and kind of predicate (described as facts about access paths): on every path of the "
                 "translation that is compatible with the facts, the data of the clause and the tree built so far flow into the result, in the node "
                 "the clause asks for; predicates are requested for all stages.", NOTE),
    "R02": Check(algebra.check_R02, ABSINT,
                 "For every node class and input: the input flows into children() (in the order of the constructor), tables() and the provided "
                 "expressions on every path compatible with the facts (ignore_subqueries set / unset), and is exchanged with the child at the same "
                 "position; for every option of mutate(): it is stored on the copy in the form that the constructor stores it in; recursive "
                 "computations of hash values visit the inputs before they write the own value.", NOTE),
    "X04": Check(effects.check_X04, EFF,
                 "No function modifies a container reachable from its arguments, directly or through an alias or callee (operations whose documented "
                 "purpose is the modification are listed); default arguments are not modified.", EFFNOTE),
    "X01": Check(types.check_X01, "type checking of the sources (pyright) filtered by repository-specific rules, plus signature comparison over the "
                 "syntax tree",
                 "Every call that the type checker can resolve matches the signature of its callee, every attribute and name that is used exists, "
                 "arguments of unrelated library types do not meet, overrides accept what their base method accepts, concrete classes implement "
                 "all abstract methods.",
                 "Trusts pyright's type inference for resolving receivers; reports only shapes of diagnostics that cannot be artefacts of imprecise "
                 "annotations (unrelated nominal types, arity, missing attributes of library classes)."),
}

CHECKS = {k: c._replace(fn=with_patterns(c.fn)) if c.technique.startswith(ABSINT) else c for k, c in CHECKS.items()}

NOT_APPLICABLE = {
    "N01": "quantifies over plan costs computed at run time; optimality of the chosen plan is a numerical statement about all plans of the "
           "search space that no sound static argument in reach bounds",
    "N02": "numerical dominance of computed upper bounds over true cardinalities depends on the data in the database",
    "N03": "round-trip equality of an external parser (pglast) and the printer; the parser is outside the analysed source. The clauses that are "
           "visible in the shape of the code (no part dropped, keyword tables agree) are decided by P01, P02 and Q06",
    "N04": "wall-clock timing and the behaviour of server processes",
    "N05": "semantic implication between predicates (a statement about all database instances)",
    "N06": "probability mass of a random process",
}
