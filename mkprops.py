#!/usr/bin/env python3
"""Source of properties.jsonl (python3 mkprops.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

SD = "omniscidb/StringDictionary/StringDictionary."
prop("C01", "A string dictionary can be shared by concurrent readers and writers",
     "Any number of threads may call any operations of one string dictionary at the same time: every access to its string storage, hash table, counters and result caches is made while the dictionary's lock is held, and every modification while it is held exclusively. A decision taken from what was read under one lock acquisition is never acted on under a later acquisition without reading it again.",
     ["schedules", "programs"], "every interleaving of every public dictionary operation, from every call path",
     "A data race needs a particular interleaving of two operations; single-threaded unit tests never exercise it and stress runs only sample schedules.",
     [SD + "cpp", SD + "h"],
     [("reader/writer lock around every operation", SD + "cpp: StringDictionary methods"),
      ("lock upgrade re-computes the hash bucket", SD + "cpp: getOrAddImpl, getOrAddBulk*")],
     [("rw_mutex_", "guards all mutable dictionary state", SD + "h")],
     ["StringDictionary public API"])
prop("C02", "Cached dictionary search results are never stale and never mixed up",
     "Results of LIKE, regular-expression and comparison searches over a string dictionary that are answered from a cache equal what a fresh search would return: whenever strings are added, all cached results are discarded before the addition becomes visible to another caller, even when the addition ends in an error. A cached result is only reused for a search with the same value for every argument that affects the result.",
     ["histories", "inputs"], "every sequence of additions and searches with any arguments, including additions that fail half way",
     "Tests sample a handful of search/add orders; staleness needs a specific search - add - search history or an error in between.",
     [SD + "cpp", SD + "h"],
     [("invalidateInvertedIndex after every addition", SD + "cpp"), ("cache keyed by the search arguments", SD + "cpp: getLike, getRegexpLike, getCompare")],
     [("like_cache_, regex_cache_, equal_cache_, compare_cache_", "memoised search results", SD + "h")],
     ["getLike, getRegexpLike, getCompare"])
prop("C03", "Every string id handed out by a dictionary denotes stored bytes",
     "In every state another caller can observe, each id present in a dictionary's hash table refers to a string whose bytes are already stored and counted, and ids are assigned in increasing order without gaps. This also holds when an addition fails with an error part-way: no id is published for a string that was not stored.",
     ["histories", "fault_sequences"], "every sequence of single and bulk additions, including ones aborted by oversize strings or a full dictionary",
     "The window is only visible after an error in the middle of a bulk addition or between two steps of one, which tests do not enumerate.",
     [SD + "cpp", SD + "h"],
     [("slot write, storage append and count bump belong together", SD + "cpp: getOrAddImpl, getOrAddBulk, getOrAddBulkParallel")],
     [("string_id_uint32_table_, str_count_, payload", "id table, count and bytes", SD + "h")])
IRD = "omniscidb/IR/"
prop("C04", "Expressions that compare equal are interchangeable",
     "Two query expressions that compare equal have the same kind, the same operands and the same value for every attribute that affects what the expression computes, for every expression kind; the same holds for the value classes compared along with them (sort orders, table and column references, input descriptors, slot layouts, chunk metadata). Comparing never reads past the end of either operand list.",
     ["inputs", "programs"], "every pair of expressions of every kind",
     "Equality is used to merge and deduplicate expressions; a forgotten attribute only shows for two expressions that differ in exactly that attribute.",
     [IRD + "Expr.h", IRD + "Expr.cpp"], [("operator== overrides", IRD + "Expr.cpp")],
     observe=["Expr::operator=="])
prop("C05", "Expression hashes agree with expression equality",
     "Expressions that compare equal have equal hashes: the hash of every expression kind depends only on state that equality compares.",
     ["inputs", "programs"], "every pair of expressions of every kind",
     "Only a pair that is equal but hashes apart shows the defect, as a silently missed or duplicated entry in a hash container.",
     [IRD + "Expr.h", IRD + "Expr.cpp"], [("hash overrides", IRD + "Expr.cpp"), ("operator== overrides", IRD + "Expr.cpp")],
     observe=["Expr::hash"])
prop("C06", "Expression traversals reach and rewriters preserve everything",
     "Walking an expression tree dispatches every concrete expression kind to its own handler and the default handlers visit every operand. Rewriting a tree, or changing an expression's type, keeps every attribute and every (rewritten) operand of each expression it rebuilds.",
     ["inputs", "programs"], "every expression kind with every combination of attributes and operands, including optional operands",
     "A dropped attribute or unvisited operand only shows for the kinds and attribute values a test happens to rewrite.",
     [IRD + "ExprVisitor.h", IRD + "ExprRewriter.h", IRD + "Expr.h", IRD + "Expr.cpp"],
     [("visit dispatch", IRD + "ExprVisitor.h"), ("visitX rebuild", IRD + "ExprRewriter.h"), ("withType", IRD + "Expr.cpp")])
prop("C07", "Copies of query plan nodes are complete and plan rewrites reach every expression",
     "Copying any query plan node carries over every attribute of the original and leaves no attribute uninitialised. Rewriting the expressions of a plan node reaches every expression the node owns.",
     ["inputs", "programs"], "every plan node kind and every attribute value",
     "A dropped attribute changes only the plans that use it, after an optimisation that copies the node.",
     [IRD + "Node.h", IRD + "Node.cpp"], [("copy constructors and deepCopy", IRD + "Node.h"), ("rewriteExprs", IRD + "Node.cpp")])
prop("C08", "Plan nodes with different contents are not given the same identity hash",
     "The hash that identifies a query plan node takes into account the node's inputs and every attribute that affects the rows it produces, for every node kind.",
     ["inputs", "programs"], "every pair of plan nodes",
     "Only two plans differing in exactly the forgotten attribute collide, and the collision is a wrong cache hit, not a crash.",
     [IRD + "Node.h", IRD + "Node.cpp"], [("toHash overrides", IRD + "Node.cpp, " + IRD + "Node.h")])
prop("C09", "Types are interned by their full description",
     "Asking a type context twice for the same type gives the same object and asking for types that differ in any parameter (size, nullability, precision, scale, unit, element type, dictionary) gives different, unequal objects. Changing one parameter of a type (nullability, element type, context) or converting it to its canonical form keeps all others, and the textual description distinguishes all unequal types.",
     ["inputs", "programs"], "every type expressible in the system, nested to any depth",
     "Types are compared by pointer everywhere, so one parameter missing from one key or copy breaks only the type pairs that differ in it.",
     [IRD + "Context.cpp", IRD + "Context.h", IRD + "Type.cpp", IRD + "Type.h"],
     [("interning maps", IRD + "Context.cpp"), ("equal/toString/withNullable", IRD + "Type.cpp")])
RF = "omniscidb/QueryEngine/RuntimeFunctions.cpp"
prop("C10", "SQL NULL propagates through the scalar runtime functions",
     "For every nullable arithmetic, comparison, cast, scaling and logical runtime function and every operand width: the result is the function's NULL marker exactly when three-valued SQL logic says so (a NULL operand; for AND/OR, unless the other operand decides; for safe division, also a zero divisor), and otherwise it is the value the operator computes from its operands. An operand whose variant declares it non-nullable is never treated as NULL.",
     ["inputs"], "every operand value of every width, including the sentinel values",
     "Each function treats sentinel values specially; tests would have to cover every width, operator and operand position.",
     [RF, "omniscidb/QueryEngine/RuntimeFunctions.h"], [("*_nullable* families", RF)])
prop("C11", "Aggregates skip NULLs and otherwise accumulate exactly",
     "For every aggregate runtime function and accumulator width: a NULL input leaves the accumulator unchanged, the first non-NULL input replaces an accumulator that still holds the NULL marker, and every other input is combined with the accumulator by that aggregate's operation (sum, min, max, count, last value). The non-skipping variants combine every input.",
     ["inputs", "histories"], "every accumulator state and input value, every width",
     "The interesting states are sentinel-valued accumulators and inputs in each width; tests sample few.",
     [RF], [("agg_* families", RF)])
prop("C12", "Every configuration option sets its own setting and defaults to its default",
     "Every command-line or config-file option stores into exactly one setting of the same type, no two options store into the same setting or share a name, an option that is not given leaves its setting at that setting's own default, and every setting can be changed through an option except a fixed list of internal ones.",
     ["configurations"], "every combination of options",
     "There are over a hundred options; a crossed wire is only visible when that option is set or defaulted and the other setting is inspected.",
     ["omniscidb/ConfigBuilder/ConfigBuilder.cpp", "omniscidb/Shared/Config.h"],
     [("option registrations", "omniscidb/ConfigBuilder/ConfigBuilder.cpp: parseCommandLineArgs")])
BM = "omniscidb/DataMgr/BufferMgr/"
prop("C13", "The buffer pool is safe under concurrent use",
     "Any number of threads may fetch, create, release and delete buffers of one pool at the same time: the pool's segment lists, chunk index, in-progress fetch table and counters are only touched under the mutex that guards each. A buffer that is pinned is never evicted, and a thread waiting for another thread's fetch is always woken, even when that fetch fails. A fetched buffer is returned pinned exactly once, and a fetch that fails leaves no buffer pinned.",
     ["schedules", "fault_sequences"], "every interleaving of pool operations and every failing fetch",
     "Races, lost wake-ups and evictions under pressure need specific interleavings and faults.",
     [BM + "BufferMgr.cpp", BM + "BufferMgr.h", BM + "Buffer.h", BM + "Buffer.cpp"],
     [("sized_segs_mutex_, chunk_index_mutex_, unsized_segs_mutex_", BM + "BufferMgr.cpp"), ("pin counting", BM + "Buffer.h")])
prop("C14", "No thread can deadlock on the system's internal locks",
     "There is no cycle in the order in which the system's mutexes can be acquired, no thread acquires a non-recursive mutex it already holds (in either mode), and no mutex is still held when the function that took it has returned or thrown.",
     ["schedules", "programs"], "every call path and interleaving through the analysed modules",
     "A deadlock needs two threads at two specific points; it never shows in sequential tests.",
     [SD + "cpp", BM + "BufferMgr.cpp", "omniscidb/ResultSet/", "omniscidb/SchemaMgr/", "omniscidb/Logger/Logger.cpp", "omniscidb/QueryEngine/CostModel/"],
     [("every lock_guard/unique_lock/shared_lock site", "omniscidb/")])
prop("C15", "Shared query-time state is only touched under its lock",
     "The query memory owner, the schema catalogue, the result-set row cursor, the cost model's measurements and the debug-timer tree may be used from many threads at once: each access to their shared state is made under the lock that guards it, exclusively when modifying.",
     ["schedules", "programs"], "every interleaving of the public operations of these components",
     "A missing lock only fails under a specific interleaving.",
     ["omniscidb/ResultSet/RowSetMemoryOwner.h", "omniscidb/ResultSet/RowSetMemoryOwner.cpp", "omniscidb/SchemaMgr/SimpleSchemaProvider.h", "omniscidb/QueryEngine/CostModel/CostModel.cpp", "omniscidb/Logger/Logger.cpp", "omniscidb/ResultSet/ResultSetIteration.cpp"],
     [("state_mutex_", "omniscidb/ResultSet/RowSetMemoryOwner.h"), ("schema_mutex_", "omniscidb/SchemaMgr/SimpleSchemaProvider.h")])
prop("C16", "Chunk statistics cover every appended value",
     "For every column encoding, after any appends the chunk's recorded minimum and maximum bracket every non-NULL value appended and the has-NULLs flag is set if any NULL was appended, including when statistics of chunks are merged. Copying, resetting, saving or loading statistics carries all of them over.",
     ["inputs", "histories"], "every encoding, element type and sequence of appends and merges",
     "Statistics decide which fragments a filter may skip, so one missed value gives silently wrong answers only for particular data.",
     ["omniscidb/DataMgr/NoneEncoder.h", "omniscidb/DataMgr/FixedLengthEncoder.h", "omniscidb/DataMgr/DateDaysEncoder.h", "omniscidb/DataMgr/ArrayNoneEncoder.h", "omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h", "omniscidb/DataMgr/StringNoneEncoder.h", "omniscidb/DataMgr/Encoder.h"],
     [("updateStats*, reduceStats, copyMetadata, writeMetadata, readMetadata, resetChunkStats", "omniscidb/DataMgr/*Encoder.h")])
prop("C17", "A typed value is always read back through the representation it was written with",
     "Whenever a scalar value or a chunk statistic is stored into or read from the generic value container, the member used is the one that matches the value's type and width, for every type and in every conversion, comparison and merge routine.",
     ["inputs"], "every type, width and value",
     "A mismatched member works on small values and on the types a test uses.",
     ["omniscidb/IR/Datum.cpp", "omniscidb/DataMgr/ChunkMetadata.h", "omniscidb/DataMgr/Encoder.cpp"],
     [("per-type switches over the Datum union", "omniscidb/IR/Datum.cpp, omniscidb/DataMgr/ChunkMetadata.h")])
prop("C18", "Catalogue storage errors surface and leave the connection usable",
     "Every failure reported by the embedded database is turned into an error for the caller. Every prepared statement is released and every transaction begun is committed or rolled back before the call returns or fails.",
     ["fault_sequences", "inputs"], "every statement, parameter list and failing step",
     "Failures of individual database calls are not injected by tests, and the leaked statement only shows at a later operation.",
     ["omniscidb/SqliteConnector/SqliteConnector.cpp"], [("sqlite3_* call sites", "omniscidb/SqliteConnector/SqliteConnector.cpp")])
prop("C19", "Detected errors are raised, not dropped",
     "Wherever the code detects an invalid situation and builds an error for it, that error is thrown (or returned) to the caller rather than discarded, and no function that must return a value can finish without one.",
     ["inputs", "programs"], "every error path of every analysed function",
     "Error paths are rarely executed by tests and a dropped error looks like success.",
     ["omniscidb/"], [("construction of exception objects", "omniscidb/**"), ("switches and returns", "omniscidb/**")])
prop("C20", "Every enumerated kind has its own name",
     "Converting an enumerated kind (types, operators, aggregates, join and node kinds, devices, time units and so on) to text is total and unambiguous: every value has a text of its own and never the name of another value. Reading a kind from a name (date fields, join types, sort directions, aggregates) or converting it to the corresponding kind of another enumeration gives the kind of that name.",
     ["inputs"], "every value of every enumeration that has a text form",
     "The texts key caches and hashes; tests print only a few values.",
     ["omniscidb/IR/OpType.h", "omniscidb/IR/OpTypeEnums.h", "omniscidb/IR/Type.h", "omniscidb/IR/DateTimeEnums.h"], [("toString overloads on enums, name tables of the query builder", "omniscidb/**")])
prop("C21", "LIKE, regular-expression and calendar functions return the right answer",
     "For every string and pattern the LIKE and regular-expression operators, and for every timestamp the functions that depend on the calendar (day, month, quarter, year and beyond), return what the SQL standard prescribes.",
     ["inputs"], "all strings, patterns and timestamps", "The input space is unbounded.",
     ["omniscidb/Utils/StringLike.cpp", "omniscidb/Utils/ExtractFromTime.cpp", "omniscidb/QueryEngine/DateTruncate.cpp"], [("matching and calendar arithmetic", "omniscidb/Utils/")])
prop("C22", "Group-by hashing gives each distinct key exactly one group",
     "For every set of keys, layout and table size, each distinct key gets exactly one group slot until the table is full.",
     ["inputs", "schedules"], "all key multisets and table sizes", "Unbounded inputs and probe sequences.",
     ["omniscidb/QueryEngine/GroupByRuntime.cpp", RF], [("probing", "omniscidb/QueryEngine/GroupByRuntime.cpp")])
prop("C23", "Sorting, quantiles and cost predictions are numerically right",
     "Parallel sort returns a sorted permutation, quantile sketches stay within their error bounds and the cost model picks the cheapest split it evaluates.",
     ["inputs"], "all data", "Unbounded numeric inputs.",
     ["omniscidb/Shared/parallel_sort.h", "omniscidb/Shared/quantile.h", "omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp"], [("algorithms", "omniscidb/Shared/")])
prop("C24", "Direct-address runtime helpers reach exactly the right slot",
     "Column decoders read the value at the requested position in the requested width and signedness; perfect-hash joins and group-bys map a key inside the table's range to its own slot and a join key outside the range to 'no match'; scan output goes to its own row and never past the output's capacity; a key recorded in a slot and an error code already recorded are never overwritten; packed string references give back the address and length that were packed, and bucketing places each value in the bucket its bounds define, with out-of-range values in the two outer buckets.",
     ["inputs"], "every key, position, width, range and accumulated state",
     "An off-by-one, a wrong width or a lost sign only shows for particular keys, widths and ranges.",
     [RF, "omniscidb/QueryEngine/DecodersImpl.h", "omniscidb/QueryEngine/GroupByRuntime.cpp", "omniscidb/QueryEngine/JoinHashTable/Runtime/JoinHashImpl.h", "omniscidb/QueryEngine/ExtensionFunctions.hpp"],
     [("fixed_width_*_decode", "omniscidb/QueryEngine/DecodersImpl.h"), ("get_group_value_fast*, hash_join_idx*, get_scan_output_slot", "omniscidb/QueryEngine/GroupByRuntime.cpp, " + RF)])
prop("C25", "Time arithmetic in fixed-length units is exact, also before 1970, and each field reaches its own computation",
     "For every timestamp, before and after 1970: extracting the epoch, quarter-day, hour, minute, (milli-, micro-, nano-)second or weekday, truncating to a minute, hour, quarter-day, day or week, converting between precisions, adding seconds up to weeks, and differences from nanoseconds up to weeks give the exact result. Every extract and truncate field selects its own computation, and adding quarters, years, decades, centuries or millennia adds exactly that many times 3, 12, 120, 1200 or 12000 months.",
     ["inputs"], "every 64-bit timestamp and every field",
     "Rounding of negative timestamps and rarely used fields are not sampled by tests.",
     ["omniscidb/Utils/ExtractFromTime.cpp", "omniscidb/Utils/ExtractFromTime.h", "omniscidb/QueryEngine/DateTruncate.cpp", "omniscidb/QueryEngine/DateAdd.cpp"],
     [("extract_*, ExtractFromTime", "omniscidb/Utils/ExtractFromTime.cpp"), ("datetrunc_*, DateTruncate, DateDiff", "omniscidb/QueryEngine/DateTruncate.cpp"), ("DateAdd", "omniscidb/QueryEngine/DateAdd.cpp")])
AN = "omniscidb/Analyzer/Analyzer.cpp"
prop("C26", "Implicit conversions keep the operands' values",
     "When operands of different types meet in a comparison, in arithmetic, in a CASE or in a set of branches, the type they are converted to holds every value of both: integers are never narrowed, decimals keep all their decimal places, floating-point operands keep at least their width, times keep the finer unit, strings are not shortened, NULLs stay possible wherever an operand may be NULL, and the choice does not depend on the operands' order. Comparisons are made in one type, products of decimals add their scales and sums keep them; ids from two different string dictionaries, and ids as ordered values, are never compared directly; every operand and every CASE branch (including the missing ELSE) is converted to the type that was chosen, left stays left and right stays right. Literals are converted exactly or rejected as out of range, keep being NULL or not NULL, and points in time are rescaled from their own unit to the new one.",
     ["inputs", "programs"], "every operator, every pair of operand types (kind, width, precision, scale, unit, nullability, dictionary) and every literal value",
     "There are thousands of combinations of operator and operand types; tests sample a few, and a wrong common type only shows for values at the edge of the lost range.",
     [AN, "omniscidb/IR/Expr.cpp"],
     [("common_numeric_type, common_string_type, analyze_type_info", AN), ("normalizeOperExpr, normalizeCaseExpr", AN),
      ("Constant::castNumber, Constant::doCast", "omniscidb/IR/Expr.cpp")],
     [], ["types of expressions built by Analyzer", "Constant::cast"])
QB = "omniscidb/QueryBuilder/QueryBuilder.cpp"
prop("C27", "The query builder builds the operation that was asked for",
     "Every operation of the query builder, in every overload, builds exactly what it is named for from the operands it was given, or reports an error: arithmetic, comparison, logic and date operators keep the order of their operands and the value, sign and type of literal arguments; aggregates and window functions compute the requested function of the given expression with the given parameters, partition keys, order keys, directions and NULL positions; names of fields, aggregates, units, join types and directions given as strings mean what they say; a literal has the requested value and type, and NULL stays NULL; a reference by index or name denotes that column (negative indexes count from the end, ambiguous or unknown names are errors). Projections, filters, aggregations, sorts and joins work on the columns that were named, in the order given, also when the builder reorders or projects the input first (group keys out of order, aggregates over keys, joins of scans, unused row ids), and the query made from a node computes that node.",
     ["programs", "inputs"], "every builder operation and overload, every operand kind and every literal value",
     "There are nearly four hundred overloads, each with type-dependent paths; tests call a fraction of them, each with one or two argument kinds.",
     [QB, "omniscidb/QueryBuilder/QueryBuilder.h"],
     [("BuilderExpr operators, aggregates, casts, over, orderBy", QB), ("BuilderNode::ref, proj, filter, agg, sort, join, finalize", QB),
      ("QueryBuilder::scan, cst, date, time, typeFromString users", QB)],
     [], ["nodes and expressions returned by the builder"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
