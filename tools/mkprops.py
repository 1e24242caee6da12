"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Cardinalities form a total, consistent known/unknown/infinite domain",
 "Every cardinality is exactly one of known (a non-negative finite row count), unknown or infinite, and every arithmetic operation, rounding and conversion between cardinalities and plain numbers yields the value and the kind the three-valued algebra prescribes (unknown absorbs everything, infinity absorbs known values; results that are no row count, such as negative differences or divisions by zero, are outside of the domain). Comparing, testing equality of and hashing cardinalities of any two kinds never fails, equality is an equivalence relation that agrees with hashing, and the ordering of known and infinite values is the numeric one. Known values are stored as whole row counts, so equal counts are equal no matter how they were built.",
 ["inputs"], "all pairs of operands drawn from the three kinds and from plain ints/floats (including nan, inf, zero, fractional), all operators in both operand orders, and all short expression chains over them",
 "test_core samples a handful of operand pairs; mixed-kind comparisons, reflected operators and chained expressions are not covered.",
 ["postbound/_core.py"], [("Cardinality arithmetic and comparison operators", "postbound/_core.py class Cardinality")], ["Cardinality public operators", "hash()", "JSON export"])

prop("C02", "Table and column references behave as immutable values",
 "Two table references are equal exactly if schema, name and alias agree up to letter case, and two column references are equal exactly if column name and owning table agree; equal references have equal hashes, are interchangeable as set members and dictionary keys, and sorting them follows their identifiers. Deriving a reference (dropping, adding or changing the alias or schema, binding a column to a table, making a table virtual) changes exactly the requested part, keeps everything else, and leaves the original untouched. The rendered form quotes an identifier exactly when it would otherwise not survive being read back as SQL.",
 ["inputs", "histories"], "all references over a small alphabet of names (plain, upper-case, reserved words, with blanks or punctuation, empty), schemas and aliases, and all sequences of derivations on them",
 "test_core checks single derivations on ordinary names; combinations of schema+alias, virtual tables and unusual identifiers are not exercised.",
 ["postbound/_core.py"], [("TableReference/ColumnReference value classes", "postbound/_core.py"), ("identifier quoting", "postbound/_core.py quote()")], ["reference equality/hash/str", "pglast parse of rendered identifiers"])

prop("C03", "Rendering a parsed query preserves its meaning and is a fixpoint",
 "Parsing a supported SQL query and rendering it again (plainly or through the pretty printer) yields a query that computes the same result as the original text: operator precedence, bracketing, NULL handling, negation, CASE branches, aggregation, ordering, limits and set operations are all preserved. Re-parsing the plain rendering gives an equal query with the same hash, and rendering that again gives the same text.",
 ["inputs", "programs"], "all predicate and arithmetic expression trees up to a bounded depth over comparison, AND/OR/NOT, BETWEEN, IN, LIKE, IS NULL, CASE, arithmetic and unary operators, placed in SELECT/WHERE/HAVING/ORDER BY, and all combinations of query clauses",
 "the parser tests compare renderings of a few fixed queries textually; none evaluates the rendered query, and nesting combinations are unbounded.",
 ["postbound/parser.py", "postbound/qal/_qal.py", "postbound/qal/_formatter.py"], [("AST construction from pglast output", "postbound/parser.py"), ("__str__ of expressions, predicates and clauses", "postbound/qal/_qal.py"), ("pretty printing", "postbound/qal/_formatter.py")], ["parse_query", "str(query)", "format_quick", "query equality and hash", "execution on an in-process database"])

prop("C04", "Columns are bound to the innermost table that provides them",
 "When a query is parsed against a known schema, every column reference that SQL scoping rules resolve to a table in the query is bound to exactly that table: aliases shadow table names, an inner scope shadows outer scopes, correlated references find the enclosing query's tables, and subquery and CTE columns are visible under their output names only. A column that no visible table provides is left unbound rather than bound to a wrong table, and references to out-of-scope tables never leak between sibling subqueries. (References are unambiguous; the columns of a table function's result and unnamed computed columns are unknown to the library; without a schema, an unqualified column may stay unbound, but is never bound to a wrong table.)",
 ["inputs", "configurations"], "all bounded nestings of FROM scopes (tables with and without aliases, derived tables, CTEs, WHERE-subqueries) over small schemas with overlapping column names, and all references placed in them",
 "the tests bind a few fixed queries; the space of scope nestings and name clashes is combinatorial.",
 ["postbound/parser.py"], [("namespace chain and column lookup", "postbound/parser.py class QueryNamespace"), ("schema cache", "postbound/parser.py class SchemaCache")], ["parse_query with a database schema", "columns()/tables() of the parsed query"])

prop("C05", "Query introspection reports exactly what the query contains",
 "For any query the reported tables, columns, filter predicates and join predicates are exactly those occurring in it: every conjunct is classified either as a filter or, if it compares columns of several tables, as a join (a disjunction contributes its filter branches and its join branches separately, as documented), none is lost or attributed to a wrong table, and explicit JOIN conditions and the conditions of derived tables and CTEs count like WHERE conditions. Looking up the filters of a table, the joins of a table or the joins between two groups of tables returns exactly the matching conjuncts, and the join graph (also with merged aliases) connects exactly the tables that share a join predicate. Cross products are reported exactly if the tables of the FROM clause are not connected by joins. Bound and unbound tables, subqueries, simplified views of predicates and equivalence classes of join columns are those that follow from the query's text.",
 ["inputs"], "all conjunctive queries over up to five tables with arbitrary sets of filters, (multi-)joins, disjunctions and negations, written with implicit or explicit joins, and all table subsets as lookup arguments",
 "test_qal covers a few two- and three-table queries; lookups over arbitrary table groups, multi-predicate joins and mixed disjunctions are untested.",
 ["postbound/qal/_qal.py"], [("QueryPredicates classification and lookup", "postbound/qal/_qal.py class QueryPredicates"), ("tables()/columns() of expressions, predicates and clauses", "postbound/qal/_qal.py")], ["SqlQuery.tables/columns/predicates/filters/joins/joins_between/filters_for/join_graph"])

prop("C06", "Query transformations change only what they promise",
 "Each query rewrite (swapping the projection, adding/dropping/replacing clauses, attaching or removing hints and EXPLAIN, removing or replacing a predicate, renaming columns or tables, converting explicit to implicit joins, extracting the fragment over a set of tables, closing join equivalence classes) yields a query that differs from its input in exactly the requested way, leaves the input query unchanged and keeps all unrelated clauses in place. Rewrites that claim to preserve the result do so on every database, and the fragment extracted from an implicit query without nested queries contains exactly the requested tables (in their order) and every condition, projection, grouping and ordering that only concerns them (a disjunction may be reduced to its part over these tables, as documented; hints are not part of the guarantee). Sequences of rewrites compose in the expected way.",
 ["inputs", "histories"], "all bounded sequences of rewrites applied to queries built from arbitrary subsets of clauses and predicates",
 "the transformation tests apply single rewrites to fixed queries; composition and clause combinations are not covered.",
 ["postbound/transform.py", "postbound/qal/_qal.py"], [("rewrites", "postbound/transform.py"), ("query reconstruction from clauses", "postbound/qal/_qal.py build_query")], ["public functions of the transform module", "clauses of the returned query"])

prop("C07", "The join graph tracks join state correctly through any optimization run",
 "At every point of an incremental join construction the join graph's free, consumed and joined tables partition the query's tables, and the offered join paths are exactly the join edges from the already joined part to a free table (or all edges initially), correctly directed and classified as primary-key/foreign-key or n:m according to the schema's keys. Marking a table as joined changes only that table's state (and the join-partner/index information that follows from it), and copies of the graph evolve independently of the original.",
 ["histories", "inputs"], "all orders of joining tables for all connected join graphs over up to five tables and all assignments of key/index kinds to the join columns, with clones taken at any point",
 "no test touches the join graph at all.",
 ["postbound/opt/_joingraph.py"], [("join-state bookkeeping", "postbound/opt/_joingraph.py class JoinGraph")], ["JoinGraph queries and mark_joined/clone"],
 [("join state per table", "which tables are already part of the intermediate result", "postbound/opt/_joingraph.py"), ("index structures", "whether an index can still be used", "postbound/opt/_joingraph.py")])

prop("C08", "Join trees are persistent values that always describe one well-formed join order",
 "Building a join tree by any sequence of scans, joins, insertions and annotation updates yields a tree whose leaves are exactly the joined tables, each once, with the requested outer/inner arrangement, and never modifies the trees it was built from. Derived facts (tables, joins in bottom-up order, linear/bushy shape, depth, length, sub-tree lookup, traversal orders) agree with the tree's structure, and equality and hashing agree with structural identity.",
 ["histories", "inputs"], "all join trees over up to five tables reachable by any sequence of construction steps",
 "no test builds a join tree.",
 ["postbound/_hints.py", "postbound/opt/_helpers.py"], [("JoinTree/LogicalJoinTree", "postbound/_hints.py"), ("nested-sequence import", "postbound/opt/_helpers.py")], ["JoinTree public API"])

prop("C09", "Operator and parameter hint stores behave as keyed stores with exact merge",
 "After any sequence of updates an operator assignment or plan parameterization answers every lookup with the most recently stored entry for exactly that table or set of tables, independent of the order in which the tables are named; global settings only apply where the caller asks for them and, when overwriting is requested, remove exactly the conflicting specific choices. Merging, cloning and integrating worker counts produce a new store with the documented precedence, keep every unrelated entry, and never change either input.",
 ["histories"], "all bounded sequences of set/merge/clone/lookup operations over scan, join and intermediate operators, global settings, cardinalities, worker counts and system settings on up to three tables",
 "no test exercises the hint stores.",
 ["postbound/_hints.py"], [("PhysicalOperatorAssignment", "postbound/_hints.py"), ("PlanParameterization", "postbound/_hints.py")], ["public methods of both stores"])

prop("C10", "Query plans decompose into and recombine from their parts without loss",
 "Splitting a physical query plan into join order, operators and parameters yields exactly the plan's join structure, the operator of every scan/join/auxiliary node keyed by its tables, and the chosen cardinalities and worker counts; building a plan from such parts yields a plan with exactly these parts again. Every plan-level operation (lookup, canonicalization, changing estimates or measurements, traversal, sub-plan search) reports the tables and nodes of exactly the tree it is applied to and leaves the original plan unchanged.",
 ["inputs", "histories"], "all plan trees over up to four tables with arbitrary scan/join operators, auxiliary nodes (sort, materialize, aggregate, gather) at arbitrary positions, and arbitrary estimate/measurement annotations",
 "no test constructs a multi-node plan.",
 ["postbound/_qep.py", "postbound/_hints.py", "postbound/opt/_helpers.py"], [("QueryPlan", "postbound/_qep.py"), ("jointree_from_plan/operators_from_plan/parameters_from_plan", "postbound/_hints.py"), ("to_query_plan/explode_query_plan/update_plan", "postbound/opt/_helpers.py")], ["QueryPlan API", "plan decomposition functions"])

prop("C11", "Generated database hints encode exactly the optimizer's decisions",
 "The hint block generated for a query contains exactly the join order, the operator of every scan and join, the cardinalities, worker counts and settings that were given - nothing missing, nothing invented, nothing attached to other tables - in the target system's hint syntax, and hints for decisions the system cannot express are dropped or refused rather than altered. Everything else in the query is left as it was, and hinting with a complete plan encodes the same decisions as hinting with the parts of that plan.",
 ["inputs", "configurations"], "all combinations of join trees, operator assignments (per table, per join, global), parameters and complete plans over up to four tables, for each hinting back end",
 "hint generation needs a database connection, so no test reaches it.",
 ["postbound/postgres.py", "postbound/duckdb.py"], [("pg_hint_plan / pg_lab hint generation", "postbound/postgres.py class PostgresHintService"), ("quack_lab hint generation", "postbound/duckdb.py class DuckDBHintService")], ["HintService.generate_hints", "text of the hint clause"])

prop("C12", "Dynamic programming returns a cheapest valid plan",
 "For any query without cross products, any cardinality estimator, any additive cost model and any set of allowed operators, both dynamic-programming enumerators (the default one, and the Postgres-style one with its sort, materialization and memoization nodes) return a plan over exactly the query's tables that uses only allowed operators and indexes that exist on columns the query uses, joins only connected sub-plans, carries the estimator's cardinality and the cost model's cost at every node, and whose cost is minimal among all such plans (for the Postgres-style enumerator: without parallel workers and up to its 1 % cost fuzziness). The estimator and cost model are set up before and released after each enumeration, even if it fails, and are only asked about parts of the query.",
 ["inputs", "configurations"], "all connected join graphs over up to four/five tables, all small integer cost functions per (operator, outer set, inner set) and all operator subsets",
 "no test runs plan enumeration; optimality is a statement over the whole plan space.",
 ["postbound/opt/dynprog.py"], [("DynamicProgrammingEnumerator", "postbound/opt/dynprog.py"), ("default textbook pipeline", "postbound/_pipelines.py")], ["generate_execution_plan", "calls received by estimator and cost model"])

prop("C13", "Plan-space enumerators are complete, duplicate-free and valid",
 "Exhaustive join-order enumeration produces every cross-product-free join tree of the requested shape for the query exactly once, exhaustive operator enumeration produces every assignment of allowed operators exactly once, and their combination produces every plan. Random generators only ever produce members of the same space, respect a requested base table and shape, and with duplicate elimination never repeat themselves.",
 ["inputs", "configurations"], "all join graphs over up to four/five tables, all tree shapes, all operator subsets, many random seeds",
 "no test runs the enumerators.",
 ["postbound/opt/enumeration.py", "postbound/opt/randomized.py", "postbound/util/nx.py"], [("exhaustive enumeration", "postbound/opt/enumeration.py"), ("random generation", "postbound/opt/randomized.py")], ["yielded join trees, assignments and plans"])

prop("C14", "Optimization pipelines run the configured stages, in order, on every query",
 "However a pipeline is configured, rebuilt and used, each optimization runs exactly the currently configured stages in pipeline order, each stage receives the decisions of all earlier stages, and the result is the query hinted with exactly the decisions of these stages. A query or database that a configured stage cannot handle is rejected before any stage runs, changing the configuration makes a rebuild (and thereby a re-check) necessary, and a stage's resources are released again even if a later step fails.",
 ["histories", "configurations", "fault_sequences"], "all bounded sequences of setup, build, optimize and re-setup steps on the three pipeline kinds with stages that accept, reject or fail",
 "no test builds a pipeline.",
 ["postbound/_pipelines.py", "postbound/_stages.py"], [("pipelines", "postbound/_pipelines.py")], ["calls received by the stages", "returned query/plan", "raised errors"],
 [("built flag", "whether the configuration was validated", "postbound/_pipelines.py")])

prop("C15", "Pre-checks accept exactly the supported queries and compose by conjunction",
 "Each query or database check passes exactly on the inputs that have the feature it demands (implicit FROM, no cross product, equi-joins only, inner joins only, no subqueries, no set operations, no virtual tables, supported hints, ...) and otherwise names the reason. A combination of checks passes exactly if every one of its members passes, reports the failures of all members that do not, and neither merging nor nesting checks ever loses a member.",
 ["inputs", "configurations"], "all combinations of query features, all sets of checks and all nestings/merges of them",
 "no test covers the validation module.",
 ["postbound/validation.py"], [("pre-checks", "postbound/validation.py"), ("merging", "postbound/validation.py merge_checks/CompoundCheck")], ["check_supported_query/check_supported_database_system results"])

prop("C16", "Training reaches each stage exactly as required and before use",
 "Stages that need training on a database, a workload or samples are trained with exactly the data they ask for (in this order, and by the benchmark runner before it optimizes the first query), and are not trained again once their training is complete; stages without such a requirement are never trained, missing training data is reported before anything is optimized, and online learners receive the feedback of exactly the successful executions. Sample retrieval returns exactly the registered data sets that offer the requested features, with each feature under the requested name.",
 ["histories", "configurations"], "all stage configurations with all combinations of training requirements, completion states and registered sample sets, and all sequences of training and optimization calls",
 "no test covers training.",
 ["postbound/train/_train.py", "postbound/_pipelines.py", "postbound/_stages.py", "postbound/bench.py"], [("training data repository", "postbound/train/_train.py"), ("pipeline training dispatch", "postbound/_pipelines.py")], ["fit calls received by stages", "retrieved training data"])

prop("C17", "Query result caching is transparent and survives restarts",
 "With caching enabled, executing a query returns the same result as executing it directly at the time it entered the cache, in both raw and simplified form, for every result shape (empty, single value, rows, NULLs, dates); with caching disabled for a call the database is always asked. Enabling, disabling, resetting and persisting the cache in any order never changes results, results saved to disk are restored unchanged, and only for a database of the same system, version and name, and the pool of open databases always hands out the registered, current connection.",
 ["histories", "crash_points"], "all bounded sequences of execute (cached/uncached, raw/simplified), cache toggles, resets, persistence and re-opening over queries of every result shape, plus all register/switch/clear sequences on the database pool",
 "no test uses the query cache or the pool.",
 ["postbound/db/_db.py", "postbound/duckdb.py"], [("query cache and its JSON codec", "postbound/db/_db.py"), ("DatabasePool", "postbound/db/_db.py"), ("cached execution", "postbound/duckdb.py execute_query")], ["execute_query results", "cache file", "DatabasePool API"])

prop("C18", "Emulated statistics equal the true statistics of the data",
 "Statistics that are calculated by querying the data (row counts, distinct values, minimum/maximum, most common values, histograms) equal what the data contains, for every table content including empty tables, NULLs and ties. Frequency lookups on most-common-value lists and histograms agree with the statistics they were built from, and caching or switching emulation on and off, for the interface or for a single request, never changes an answer on unchanged data; statistics that are only available by emulation are refused if emulation is declined.",
 ["inputs", "histories"], "all small table contents (up to eight rows over a few values and NULL), all columns, all numbers of requested values/buckets and all orders of statistic requests and toggles",
 "no test computes statistics.",
 ["postbound/db/_db.py", "postbound/duckdb.py"], [("emulated statistics", "postbound/db/_db.py class DatabaseStatistics"), ("value containers", "postbound/db/_db.py MostCommonValues/Histogram")], ["DatabaseStatistics API"])

prop("C19", "Benchmark runs record every execution exactly once, faithfully",
 "A workload benchmark executes each query the requested number of times per repetition, in workload order unless shuffling was requested, and returns one row per recorded execution with consecutive execution numbers, the right label, repetition counters, status, result, runtime and failure reason; failures of optimization or execution are raised, recorded or skipped exactly as the chosen error policy says, without disturbing the records of other queries. Progressive output and callbacks receive exactly the corresponding records in the same order, also if the run is aborted, and the experiment log ends up stating how the run ended.",
 ["fault_sequences", "configurations", "histories"], "all combinations of workload size, repetition counts, error policy, output options and of success/timeout/error outcomes for each optimization and execution",
 "no test runs a benchmark.",
 ["postbound/bench.py"], [("execution loop and sample bookkeeping", "postbound/bench.py"), ("progressive output and experiment log", "postbound/bench.py")], ["returned data frame", "progressive output file", "experiment log", "callbacks"],
 [("sample counters", "execution index, repetition counters", "postbound/bench.py")])

prop("C20", "Workloads are consistent labelled query collections under all operations",
 "After any sequence of workload operations (selecting, filtering, relabelling, mapping, shuffling, reordering, union, intersection, difference) labels, queries and entries stay consistent with each other and contain exactly the queries the operation selects, in natural label order unless shuffled, and label lookup by query inverts query lookup by label. No operation changes the workload it was applied to, and loading a workload from files or a table yields one entry per readable query with its own text.",
 ["histories", "inputs"], "all bounded sequences of operations on workloads of up to five queries with overlapping labels, and all directory contents with readable and unreadable query files",
 "no test covers workloads.",
 ["postbound/workloads.py", "postbound/util/dicts.py"], [("Workload", "postbound/workloads.py")], ["Workload API"])

prop("C21", "Timed and parallel query execution always terminates with the right outcome",
 "Executing a query with a time limit ends with the query's result, a timeout or the query's own error - for every interleaving of worker progress, timer expiry and failures - never with another query's result and never hangs; on a timeout or failure the server-side query is cancelled, and afterwards the executor is ready for the next query. The runtime reported for a completed query lies within the time its caller waited. A parallel executor delivers every queued query's result exactly once, paired with its own query, to both the result set and the callback, whatever order the queries finish in.",
 ["schedules", "fault_sequences"], "all interleavings of controller, worker and timer with faults (connection failure, configuration failure, query error, result error, worker crash, timeout) at every step, and all completion orders of up to four parallel queries",
 "needs a database server and specific timings; no test reaches it.",
 ["postbound/postgres.py", "postbound/duckdb.py"], [("worker/controller event protocol", "postbound/postgres.py class TimeoutQueryExecutor"), ("thread pool executor", "postbound/postgres.py class ParallelQueryExecutor")], ["execute_query outcome", "cancel requests issued", "result set and callbacks"])

prop("C22", "Relational algebra trees compute their query and stay correctly linked",
 "Translating a query into relational algebra yields an operator tree that computes exactly the rows of the query (in its order), scans exactly the base tables the query reads, and in which every operator finds the expressions it needs among those its inputs announce or the outer query provides. At all times parent and child links of a tree agree with each other, equality and hash follow structure, and mutating, cloning or re-rooting a tree yields a correctly linked new tree with exactly the requested change (everywhere that node occurs) while earlier trees stay intact; navigation (root, leaf, walk, visitors, tables, provided expressions) reports the current tree. (Queries: comma joins of tables, derived tables and CTEs, arbitrary filters with (correlated) IN, EXISTS, NOT EXISTS and scalar subqueries, grouping, HAVING, DISTINCT, ORDER BY, set operations. Not LIMIT, explicit JOIN, SELECT *, windows, ANY/ALL, NULLS FIRST/LAST, other negations of conditions with subqueries, set operations inside IN, ORDER BY of a set operation, inner aliases that hide outer ones. New inputs in a mutation do not contain the mutated node.)",
 ["inputs", "histories"], "all pairs of 37 kinds of conjuncts in 7 query shapes, all bounded shapes of FROM and set operations, random nested queries, every mutation of small trees and random histories of mutations",
 "test_relalg checks that translation does not crash and a few structural facts; evaluation and mutation sequences are not covered.",
 ["postbound/relalg.py"], [("algebra parser", "postbound/relalg.py parse_relalg"), ("tree linkage", "postbound/relalg.py class RelNode")], ["parse_relalg", "RelNode navigation and mutate"])

prop("C23", "Values written as JSON are read back as the same values",
 "Tables, columns, expressions, predicates, join trees, operator assignments, plan parameters and query plans written in the system's JSON format and read back yield equal values, including aliases, schemas, unknown or infinite numbers, nested structures and annotations. Writing the value that was read back gives the same JSON again. (Expressions and predicates are those the parser can produce: binary arithmetic, no AND directly inside an AND or OR directly inside an OR, predicates refer to at least one table, and a CTE table inside an expression has an alias.)",
 ["inputs"], "all values of these kinds up to a bounded size",
 "no test reads any exported JSON back.",
 ["postbound/util/jsonize.py", "postbound/parser.py", "postbound/opt/_helpers.py", "postbound/_hints.py", "postbound/_qep.py"], [("JSON export", "__json__ methods"), ("JSON import", "postbound/opt/_helpers.py read_*_json, postbound/parser.py load_*_json")], ["util.to_json and the readers"])

prop("C24", "Plans reported by a database are imported faithfully",
 "Importing the plan description that a database system reports yields a plan with the same operators over the same tables in the same arrangement, with outer and inner inputs kept apart, and carries over the estimated and actual cardinalities, costs, runtimes, buffer accesses, indexes and worker counts of every node: actual cardinalities are totals over all loops, estimates below a Gather node are scaled by the planned workers plus the leader, and a DuckDB operator's runtime includes its inputs. Nodes the optimizer does not model are kept as auxiliary nodes, and unlisted measurements stay unknown.",
 ["inputs"], "all plan descriptions up to a bounded depth over the scan, join and auxiliary node types, with and without measurements, loops and workers",
 "plan import needs a database server, so no test reaches it.",
 ["postbound/postgres.py", "postbound/duckdb.py"], [("Postgres EXPLAIN import", "postbound/postgres.py class PostgresExplainNode"), ("DuckDB EXPLAIN import", "postbound/duckdb.py parse_duckdb_plan")], ["PostgresExplainPlan.as_qep", "parse_duckdb_plan"])

prop("C25", "The schema interface reports exactly what the database declares",
 "In every state of a database schema, the schema interface (on DuckDB) reports exactly the declared tables of the current schema, for each table its columns in order with data type and nullability, whether it is a view, and its primary key column (none for a compound key), and for each column whether it is the primary key, whether an index or UNIQUE constraint covers it alone, the names of these indexes, and the columns its foreign keys refer to. This also holds for aliased tables, tables of other schemas and names that need quoting. The derived answers agree with these facts: schema graph, join equivalence classes (the connected columns of the foreign keys), the table that owns a column (the first candidate that has it), key-based access by table, column or name (KeyError if unknown), and the description of the database.",
 ["histories"], "all schemas of up to two tables and one index or view, and random schemas with up to five tables in two namespaces, indexes and views",
 "no test looks at a schema, because that needs a database.",
 ["postbound/db/_db.py", "postbound/duckdb.py"], [("schema queries", "postbound/db/_db.py class DatabaseSchema"), ("DuckDB catalog queries", "postbound/duckdb.py class DuckDBSchema")], ["Database.schema"])

prop("C26", "Cardinality estimators answer for the database and the samples they are given",
 "In every history of data shifts, estimates, cache resets and reloads: the precise estimator returns the number of tuples that the part of the query over the requested tables has now (filters and joins between exactly these tables); with its own cache enabled it returns what it computed first since the last reset. The lookup estimator returns the one stored cardinality for query and tables, else the default, else the requested live fallback, else an unknown cardinality or - by default - an error; a saved fallback result is found again, by the same estimator and by a new one that reads the file, and leaves all other samples readable. A distorted estimate is the other estimator's estimate times the factor (random: between the two); an unknown one stays unknown. Estimating a whole query covers exactly its joinable intermediates (all if cross products are allowed) or those of the given join order, without unknown ones.",
 ["inputs", "histories"], "all histories of two operations over small instances and configurations, and random histories over three tables, random joins and filters, samples and configurations",
 "needs a database and files; no test reaches it.",
 ["postbound/opt/_cardinalities.py", "postbound/_stages.py"], [("estimators", "postbound/opt/_cardinalities.py"), ("intermediates", "postbound/_stages.py class CardinalityEstimator")], ["calculate_estimate", "estimate_cardinalities", "generate_plan_parameters"])

prop("C27", "TONIC recommends the operators it learned to be the cheapest",
 "In every history of plans with costs (given, reported by the database, or from simulated feedback and from exploring operator combinations, which use the costs for the true cardinalities), recommendations, saving, loading and resets, the TONIC operator selection recommends for each join of a join order - linear or bushy - the operator with the lowest learned cost among those seen for the same join path, and nothing for a join with fewer than two known operators. The learned cost is the new cost plus gamma times the learned one. The join path consists of the base tables and subqueries along the deepest chain of joins (inner first on a tie), whatever their aliases and whatever other plan nodes surround them; the filter-aware model also tells the tables' filters apart. Recommendations name the tables of the query at hand. A loaded model recommends and keeps learning like the saved one, and the joins with unknown costs are reported exactly. By default exploration tries each operator combination once; sampled combinations are different and not more than asked for.",
 ["inputs", "histories"], "all histories of two plans over three tables with all join orders, and random histories over up to five tables, bushy and linear, with self-joins, filters and aliases",
 "its one test needs a Postgres server and does not look at the recommendations.",
 ["postbound/opt/tonic.py"], [("synopsis", "postbound/opt/tonic.py class QEPsNode, QEPSynopsis"), ("learning", "postbound/opt/tonic.py class TonicOperatorSelection")], ["TonicOperatorSelection"])

prop("C28", "UES join orders follow the upper bounds",
 "For every implicit query with equi joins over two or more tables, and for every sequence of queries given to one optimizer, the UES join order contains each table exactly once, avoids every cross product that the query permits to avoid, and annotates every node with a cardinality. The optimizer proceeds by the smallest upper bound: a pk/fk join is bounded by the frequency of the foreign key times the cardinality of the primary key table, an n:m join by min(b1/f1, b2/f2)*f1*f2 (never rounded down) and a conjunction by its smallest predicate. Queries without n:m joins repeatedly take the join with the smallest bound; other queries start with the n:m table whose bound, reduced by its pk/fk joins, is the smallest, follow its chain of pk/fk joins, and then take the n:m join with the smallest bound, along with the pk/fk joins of its table, as a branch exactly if the policy permits and they reduce the table. Each n:m join multiplies the frequencies of the involved columns. Two tables are joined with the larger one as the outer relation. Partitions that are not joined at all are optimized on their own and combined smallest first, with the product as the cardinality. The UES operator selection disables nested loops if the database supports that, and decides nothing else.",
 ["inputs", "histories"], "all ties of several thousand queries over two to six tables with random join graphs, keys, cardinalities and frequencies, and combinations of them with cross products",
 "the unit tests for UES need a Postgres server and just compare query results.",
 ["postbound/opt/ues.py", "postbound/opt/_joingraph.py"], [("optimizer", "postbound/opt/ues.py class UESJoinOrderOptimizer"), ("bounds", "postbound/opt/ues.py class UESBoundEstimator, MaxFrequencyStats")], ["UESJoinOrderOptimizer.optimize_join_order"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
