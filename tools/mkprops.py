"""Writes /verif/properties.jsonl (kept as a script so that the file stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

W="mabel/data/writers/"; R="mabel/data/readers/"; I="mabel/data/internals/"; RI=R+"internals/"; A="mabel/adapters/"

prop("C01","Writers commit every appended record exactly once, in append order",
"""For any sequence of append and finalize calls on one or more interleaved Writers or BatchWriters, in any supported format and with a working store,
the records in the data blobs committed by each writer, taken in commit order, are exactly the records successfully appended to that writer, in append order:
none lost, duplicated, reordered, altered or mixed into another writer's dataset, and no empty data blob is stored.
Outside finalize a blob is closed only once its uncompressed content exceeds blob_size, and then by the next append at the latest (parquet: by the append that took it over),
so at most one record takes a blob over the limit.""",
["histories","inputs","configurations"],"every sequence of append/finalize calls up to a depth, record sizes around the limit, all formats, two writers interleaved",
"The tests append one fixed history and count what comes back; they never enumerate rollover boundaries against finalize/append sequences or interleave writers.",
[W+"writer.py",W+"batch_writer.py",W+"internals/blob_writer.py"],
[("text_append/arrow_append buffer, rollover and commit",W+"internals/blob_writer.py"),("append/finalize",W+"writer.py")],
["blobs handed to the inner writer's commit"],[{"name":"buffer/wal, records_in_buffer","meaning":"records accepted, not yet committed","where":W+"internals/blob_writer.py"}])

prop("C02","StreamWriter neither loses nor duplicates records under any interleaving",
"""For every interleaving of concurrent appends, the background housekeeping of open partitions (idle and over-capacity eviction) and finalize on a StreamWriter with a working store,
each record whose append returned before finalize was called is committed exactly once, to its own partition, and one thread's records for one partition are committed in append order.
Records whose append overlaps finalize are committed at most once, all of them once a further finalize has run, and no call deadlocks or fails.""",
["schedules","histories"],"every thread interleaving of small driver programs up to a preemption bound, for every placement of timer expiry",
"Tests run one free-running schedule with sleeps; the races between append, eviction and finalize need particular preemptions.",
[W+"stream_writer.py",W+"internals/writer_pool.py",W+"internals/blob_writer.py"],
[("module lock around pool use",W+"stream_writer.py"),("get_writer/remove_writer",W+"internals/writer_pool.py")],
["blobs handed to the inner writer's commit","results of append/finalize"])

prop("C03","A rejected commit is reported and loses no accepted record",
"""When the store rejects a commit, the append or finalize that needed it raises (a StreamWriter finalize raises after it has tried every open partition), no completion marker is stored by a finalize that raised, and the background housekeeping of a StreamWriter keeps running.
Records accepted before the failure stay buffered: once the store works again, finalize commits every accepted record exactly once, for any pattern of failed commits.
A disk commit that fails part-way leaves no partial blob and no completion marker behind.""",
["fault_sequences","histories"],"every pattern of failing commits over every short append/finalize/eviction history, and every failing file operation of a disk commit",
"No test injects a storage failure; which commit fails, and what is buffered then, is a fault sequence.",
[W+"internals/blob_writer.py",W+"internals/writer_pool.py",W+"stream_writer.py",W+"batch_writer.py",A+"disk/disk_writer.py"],
[("commit clears the buffer only after the store accepted it",W+"internals/blob_writer.py"),("remove_writer",W+"internals/writer_pool.py"),("finalize",W+"stream_writer.py"),("commit",A+"disk/disk_writer.py")],
["exceptions from append/finalize","blobs stored after recovery"])

prop("C04","A batch frame becomes visible all-or-nothing at every crash point",
"""If a process writing a batch frame to disk dies at any point, a later read of that date returns either exactly the records of the previous complete frame (or finds no data if there was none) or exactly all records of the new frame, never a part of a frame, a mixture of frames or the content of a torn blob.
Running the batch again in a later second makes its frame, and only it, visible in full.""",
["crash_points","histories"],"every crash point and partial write in the file operations of a batch run, followed by a read, a rerun and a read",
"Tests only ever complete their batches; a crash between two file operations is never produced.",
[W+"batch_writer.py",A+"disk/disk_writer.py",RI+"base_inner_reader.py"],
[("frame.complete is committed last",W+"batch_writer.py"),("frame selection",RI+"base_inner_reader.py")],
["Reader results after the crash"])

prop("C05","A batch is marked complete exactly when it succeeded",
"""BatchWriter.finalize first commits what is buffered, then stores the empty frame.complete marker in the folder that holds the frame's blobs exactly when no finalize of this writer so far was told has_failure and either at least one record was accepted or always_complete was set.
Otherwise it returns -1 and stores no marker. A reported failure is remembered by later finalize calls on the same writer.""",
["histories","configurations"],"every sequence of accepted/rejected appends and finalize(has_failure) calls up to a depth, for every always_complete/frame_id/partitions/format setting",
"Tests cover three fixed sequences; the rule is about all orders of success, failure and repeated finalize.",
[W+"batch_writer.py"],[("finalize, seen_failures, always_complete",W+"batch_writer.py")],["blobs and markers stored","finalize result"],
[{"name":"seen_failures","meaning":"a failure was reported earlier","where":W+"batch_writer.py"}])

prop("C06","Committed blobs never overwrite one another, whatever the clock does",
"""Any two data blobs committed by any writers of one host - the same writer, several writers or threads of a process, or a process and the children it forks, using the same dataset - get different names even when the clock stands still, is coarse or steps back, so no committed data is overwritten.
While the clock does not go back, the names one process gives to successive blobs of a dataset sort in commit order.""",
["schedules","configurations","histories"],"every short commit history over 1-2 writers and a fork point, under every scripted clock answer sequence over a small alphabet",
"Tests run under one real clock, in which collisions are improbable; the clock is an environment input.",
[W+"internals/base_inner_writer.py"],[("blob name: time, node, process",W+"internals/base_inner_writer.py")],["names of stored blobs"])

prop("C07","Stream records are filed under the partitions their own values name",
"""A StreamWriter files a record once for every distinct combination of its values for the {field} placeholders of the template (list values fan out, a missing value counts as None) in the folder obtained by replacing each placeholder by that value reduced to ASCII letters, digits and whitespace, and the date placeholders by the configured date, or else the UTC time of the append.
Nothing a record contains can make it be stored outside the dataset's folders or in another record's partition, and the record stored is the record appended.""",
["inputs","configurations"],"every record over a value alphabet (incl. separators, dots, braces, lists, nulls) for every template shape, and append times around date boundaries",
"Tests use two friendly templates and values; hostile values, nested placeholders and date boundaries are not covered.",
[W+"stream_writer.py","mabel/utils/paths.py","mabel/utils/text.py"],
[("placeholder substitution and sanitize",W+"stream_writer.py"),("date_format","mabel/utils/paths.py")],["folders of stored blobs"])

prop("C08","Records that break the schema never reach the dataset",
"""With a schema, Writer and BatchWriter reject a nonconforming record by raising from append: it is not stored or counted and the records around it are unaffected.
StreamWriter instead files it, unaltered, in a BACKOUT folder below the folder it would have gone to; conforming records never go there (BACKOUT is reserved: no partition value is that word).
Readers never return anything from a BACKOUT folder.""",
["inputs","histories"],"every record over a value/shape alphabet against every column type, in every order of valid and invalid records, for the three writers and both format families",
"Tests check a single bad record; conformance is a statement over all record/schema combinations and orders.",
[W+"writer.py",W+"stream_writer.py",RI+"base_inner_reader.py","mabel/data/validator/__init__.py"],
[("schema.validate",W+"writer.py"),("BACKOUT identity",W+"stream_writer.py"),("BACKOUT exclusion",RI+"base_inner_reader.py")],["append exceptions","stored blobs","Reader results"])

prop("C09","Stream partitions are evicted only when idle or in excess, oldest first",
"""Each housekeeping sweep of a StreamWriter commits the open partitions not appended to for longer than idle_timeout_seconds and, if then still more than writer_pool_capacity partitions are open, the least recently appended ones in excess (at most writer_pool_capacity of them per sweep).
It leaves every other partition open, whose records then stay together in one blob, and sweeps recur about every 0.1 seconds until finalize.""",
["histories","schedules"],"every sequence of appends to a few partitions, clock advances and housekeeping sweeps up to a depth, for small capacities",
"Tests look at the pool helper in one state or sleep in real time; which partitions go in which state is a statement about all histories.",
[W+"stream_writer.py",W+"internals/writer_pool.py"],[("nominate_writers_to_evict/get_stale_writers",W+"internals/writer_pool.py"),("pool_attendant",W+"stream_writer.py")],["which partitions get committed at a sweep"])

prop("C10","DatabaseWriter delivers each record exactly once, in bounded batches",
"""For any sequence of appends, finalize and rejected batches, the database writer component receives each appended record exactly once, in append order, in non-empty batches of at most 100 records, and a supplied finalizer runs exactly once, after the last batch.
A batch the component rejects raises from the append or finalize that sent it, and its records are delivered by the next attempt.
finalize returns the number of records appended.""",
["histories","fault_sequences"],"every append count around multiples of the batch size, with finalize at every position and every pattern of rejected batches",
"The test writes one batch; boundaries and rejected batches are not covered.",
[W+"database_writer.py",A+"database/base_database_writer.py"],[("wal and commit",W+"database_writer.py"),("finalize",A+"database/base_database_writer.py")],["batches received"])

prop("C11","Readers return only the newest complete, not-ignored frame",
"""For each date folder, and within it each value folder of the by_ grouping read, a Reader returns exactly the data blobs of the latest as_at frame that has frame.complete and no frame.ignore in that same frame, nothing if there is no such frame, and everything if the folder has no frames (loose blobs next to frames are not read).
Where several by_ groupings exist only one is read: the one named by partition_filter, restricted to its value, else the last in name order; folder or frame names that begin alike are never confused.""",
["inputs","configurations"],"every layout of up to 3 frames with every marker combination, across by_ groupings, value folders and dates, with names that are prefixes of each other",
"Tests read three fixed trees from the repository.",
[RI+"base_inner_reader.py",R+"reader.py"],[("get_list_of_blobs",RI+"base_inner_reader.py")],["records returned by Reader"])

prop("C12","A date range reads exactly the dates asked for, once each",
"""A Reader given start and end (text, date or datetime, in either order) returns the data of exactly those partition folders (daily or hourly) whose date, or hour, lies in the inclusive range, each once and in path order, including across month and year ends; with no range it reads today (UTC).
With a freshness_limit and no data on the requested day it returns the data of the most recent earlier day that has data and is at most that many whole days back, and raises DataNotFoundError if there is none.""",
["inputs","configurations"],"every range over a window of days/hours, every subset of days having data, every freshness limit, every input type",
"Tests read fixed ranges of a fixed tree.",
[RI+"base_inner_reader.py",R+"reader.py","mabel/utils/dates.py","mabel/utils/paths.py"],
[("date cycling",RI+"base_inner_reader.py"),("date_range","mabel/utils/dates.py"),("freshness stepping",R+"reader.py")],["records returned by Reader"])

prop("C13","A read resumed from a cursor returns exactly the records not yet returned",
"""If a read is stopped after any number of records and resumed with the cursor it had then - as a dictionary or as JSON text, repeatedly, with the same other parameters including filters - the records returned before and after are together exactly those of an uninterrupted read, in order, without gaps or repeats.
This still holds when blobs whose names sort after all existing ones were added in between: those are read after the remaining old ones.""",
["histories","inputs","crash_points"],"every stop point (and pair of stop points) of every dataset shape over 0-9 blobs of 0-3 records, with and without filters, with every later growth",
"The test uses one dataset and one stop point per blob.",
[RI+"cursor.py",R+"reader.py"],[("Cursor map/partition/location",RI+"cursor.py"),("serial read loop",R+"reader.py")],["records returned by the resumed Reader"],
[{"name":"map, partition, location","meaning":"blobs read, blob being read, last record returned","where":RI+"cursor.py"}])

prop("C14","Records read back equal the records written, in every format",
"""Records written in jsonl, zstd or parquet are read back by a Reader equal to what was written (JSON data with integers of at most 64 bits; dates as ISO text in the JSON formats; declared column types in parquet) and in append order; flat gives every scalar value of the record under its dotted path, and text stores each record's text followed by a newline.
The reader gives the same records for the same lines stored as jsonl, lzma, zip, zstd, csv (text values) or parquet.
A record accepted by append never makes other records unreadable.""",
["inputs","configurations"],"every record over a structured value alphabet (empty, nested, unicode, control characters, number limits), in every position among neighbours, for every format",
"Tests round-trip a handful of plain records.",
[W+"internals/blob_writer.py",RI+"parallel_reader.py",RI+"decompressors.py",RI+"parsers.py",I+"records.py"],
[("serialization",W+"internals/blob_writer.py"),("decompress/parse pipeline",RI+"parallel_reader.py"),("flatten",I+"records.py")],["records returned by Reader"])

prop("C15","A damaged blob harms no other blob and invents no records",
"""If a blob is empty, truncated at any byte, has bytes altered, or cannot be fetched, reading the dataset does not raise and returns every record of every undamaged blob, in place.
From a truncated jsonl, lzma, zstd or parquet blob it returns only a prefix of that blob's original records, never a partial or made-up record.""",
["crash_points","inputs"],"every truncation point and every single-byte alteration of small blobs of every format, at every position among other blobs, and every failing fetch",
"No test reads a damaged blob.",
[RI+"parallel_reader.py",RI+"decompressors.py",R+"reader.py"],[("per-blob error isolation",RI+"parallel_reader.py")],["records returned by Reader"])

prop("C16","The multi-process reader returns what the serial reader returns, and ends",
"""With multiprocess=True a Reader returns the same (JSON) records as without it, as a multiset and in order within each blob, for any number of blobs, worker count, worker speed and empty or fully filtered blobs.
A read of less than ten minutes finishes as soon as all blobs are read, and an abandoned or closed read releases its workers without blocking, under every interleaving of the workers and the consumer.""",
["schedules","configurations","inputs"],"every interleaving (to a deviation bound) of workers and consumer over small blob counts and worker counts, every abandon point",
"No stable test runs the multi-process reader; its hand-over protocol depends on process timing.",
[RI+"multiprocess_wrapper.py",R+"reader.py"],[("send/reply queues and TERMINATE signal",RI+"multiprocess_wrapper.py")],["records returned","termination"])

prop("C17","Every storage class behaves like the list of its records",
"""A DictSet held with any storage class (or over a list) gives, for any sequence of full, repeated and partial iteration, count, collect_list, first, take, filter, select and get_items (ascending distinct positions), the same results as the plain list of its (JSON) records, at every size including empty and around internal batch and buffer sizes.
Disk storage leaves no temporary file behind once the DictSet is gone.""",
["histories","inputs"],"every sequence of operations up to a depth over every storage class, at sizes around the batch boundaries",
"Tests run single operations on one dataset per class, mostly once.",
[I+"dictset.py",I+"storage_classes/storage_class_memory.py",I+"storage_classes/storage_class_disk.py",I+"storage_classes/storage_class_compressed_memory.py"],
[("storage classes",I+"storage_classes/"),("DictSet iteration",I+"dictset.py")],["operation results"])

prop("C18","DictSet operators compute what their names say",
"""On any records, take/itake(n) give the first n, first the first or None, select exactly the named columns, in that order, with None where absent, keys every column once in order of appearance, collect_list a column's present values in order, sort_and_take the first n of the stably sorted records (nulls lowest), distinct the first of every set of equal records (or of equal values in the named columns), and min, max, sum, min_max, mean, variance and standard_deviation the statistics of the column; operators do not modify the source records.
The hash of a DictSet does not depend on record order, key order or storage class, and is another one for other records (if none is repeated).""",
["inputs"],"every dataset of up to 3-4 records over an adversarial alphabet of values (falsy, null, missing, equal when printed but different), and every operator argument in range",
"Tests use one friendly dataset; falsy values, nulls, ties and lookalike values are not enumerated.",
[I+"dictset.py"],[("operators",I+"dictset.py")],["operator results"])

prop("C19","Grouping and aggregation agree with a brute-force computation",
"""group_by puts records in one group exactly when their values (type and content) in all grouping columns are the same, a missing value counting as null; COUNT(*), COUNT, SUM, MIN, MAX and AVG of a column over a group, alone or combined in any order, equal the brute-force results over the group's non-null values (0 for COUNT and null for the others if there are none), one row for each group, and groups() lists each group once.
collect_set gives, for each value of its column, the remaining fields of exactly the records having that value, and its counts, items, aggregates and selections (by one or several values) reflect exactly those; group_by does not alter its arguments.""",
["inputs"],"every dataset of up to 3-4 records over keys and values that look alike when printed or concatenated, are zero, negative, null or missing, with every combination of aggregations",
"Tests aggregate one dataset with single aggregations over positive values.",
[I+"group_by.py",I+"collected_set.py"],[("_map/aggregate",I+"group_by.py"),("CollectedSet",I+"collected_set.py")],["rows returned"])

prop("C20","Filter expressions select exactly the records their logic describes",
"""A filter expression over columns and literals keeps a record (whose text does not itself look like a number, boolean or date) exactly when its SQL-like reading is true: comparisons, IN, CONTAINS, LIKE, NOT LIKE, MATCHES, IS [NOT] NULL; NOT binds tighter than AND, AND tighter than OR, parentheses override, keywords in any case.
A comparison of a null or missing column with a value is not true for <, <=, >, >= and =, nor one between text and numbers for <, <=, > and >=, and neither raises; evaluating does not change the record, the same expression gives the same answer every time, and DictSet.filter and Reader agree.""",
["inputs","programs"],"every expression up to 3-4 predicates over the operators, with every parenthesization, against every record of a small value domain",
"Tests evaluate a fixed list of expressions; precedence and null behaviour are statements over all expressions and records.",
[I+"expression.py","mabel/utils/token_labeler.py"],[("recursive descent parser/evaluator",I+"expression.py"),("Tokenizer","mabel/utils/token_labeler.py")],["records kept"])

prop("C21","LIKE and quoted literals mean exactly the text they contain",
"""LIKE matches when the whole value equals the pattern with % standing for any text (including none and line breaks) and _ for exactly one character, ignoring case, every other character only for itself; NOT LIKE is its complement.
A quoted literal or back-quoted column name in a filter or SQL statement stands for exactly the characters between its quotes, whatever keywords, operators, brackets, comment marks, other quotes or runs of whitespace they include.""",
["inputs","programs"],"every pattern/value pair up to a length over an alphabet with wildcards, regex metacharacters, case pairs and line breaks; every literal made of up to 3-4 fragments that look like syntax",
"Tests match a few English words.",
["mabel/utils/text.py","mabel/utils/token_labeler.py",RI+"sql_reader.py"],[("like","mabel/utils/text.py"),("_fix_special_chars/clean_statement","mabel/utils/token_labeler.py"),("sql_parts",RI+"sql_reader.py")],["match results","records kept"])

prop("C22","DNF filters keep exactly the records their formula describes",
"""On records whose present values are comparable with the literals, a filter given as a predicate tuple, a list of tuples (all must hold) or a list of such lists (any must hold) keeps exactly the records for which that formula is true, for each of =, ==, is, !=, <>, <, >, <=, >=, like, matches, ~, in, !in, not in, contains and !contains in any letter case; a predicate on a missing or null column is false, and no filter keeps everything.
DictSet.filter and the Reader's filters give the same result and neither changes the records.""",
["inputs","programs"],"every formula up to 2x2 (and 3-predicate) shapes over all operators against every record of a small value domain",
"Tests evaluate fixed filters on one dataset.",
[I+"dnf_filters.py"],[("evaluate",I+"dnf_filters.py")],["records kept"])

prop("C23","A SQL query returns what its clauses say",
"""SELECT [DISTINCT] columns, functions or aggregates [AS name] FROM dataset or (subquery) [WHERE] [GROUP BY] [HAVING] [ORDER BY selected column ASC|DESC] [LIMIT n], with keywords in any case, any whitespace and comments, returns the records obtained by applying FROM, WHERE, GROUP BY, HAVING, SELECT, DISTINCT, ORDER BY and LIMIT in that order to the dataset's records, with exactly the selected columns (renamed where asked).
LIMIT returns the first n of the ordered result (ORDER BY alone is capped at 10000 records), and a statement without SELECT and FROM, or with a malformed LIMIT, is refused with InvalidSqlError.""",
["programs","inputs"],"every combination of clause variants over small datasets, compared with a reference evaluator",
"Tests run a list of statements against one dataset and mostly check the number of rows.",
[RI+"sql_reader.py",RI+"inline_evaluator.py",I+"group_by.py",I+"dictset.py"],[("SqlParser/SqlReader",RI+"sql_reader.py")],["records returned"])

prop("C24","Untrusted dataset names cannot leave the allowed locations",
"""A SQL statement whose FROM names a dataset that does not start with a letter, contains '..', '//' or '--' or any character other than letters, digits, '.', '/', '-' and '_' is refused with InvalidSqlError before anything is read, in subqueries too; dots are read as folder separators.
With valid_dataset_prefixes given, Reader and SqlReader refuse with AccessDenied, before touching the store, every dataset whose name does not start with one of the prefixes, and allow those that do.""",
["inputs","programs"],"every FROM token up to a length over an alphabet of separators, letters and hostile characters, at every nesting; every dataset/prefix-list combination over a small alphabet",
"Tests try a dozen names.",
[RI+"sql_reader.py",R+"reader.py"],[("validate_dataset",RI+"sql_reader.py"),("valid_dataset_prefixes",R+"reader.py")],["exceptions","paths the inner reader is asked for"])

prop("C25","Select expressions and scalar functions compute per-record values",
"""A select expression gives each record exactly the listed columns and function values, in order, under their text or AS name ('*' keeps all fields), evaluating nested function calls inside out on that record's values and leaving the source record unchanged; Reader applies select before filters.
The date, text, number, boolean and null functions give the documented results (date parts of ISO text or date values, null for what is not a date; LEFT/RIGHT/MID substrings including length 0; BETWEEN exclusive), the same on every call.""",
["inputs","programs"],"every select list over functions, columns, literals and aliases up to a depth, on every record of a small value domain, compared with an independent evaluator",
"Tests evaluate fixed expressions on one or two records.",
[RI+"inline_evaluator.py",RI+"inline_functions.py"],[("build/evaluate_field",RI+"inline_evaluator.py"),("FUNCTIONS",RI+"inline_functions.py")],["projected records"])

prop("C26","Date parsing and ranges are exact and total",
"""parse_iso returns the exact date and time for every valid date, datetime, numeric timestamp and ISO text form it supports (date only; minutes; seconds; fraction dropped; trailing Z or +offset ignored), None for text that has no valid date and time in those positions (impossible days or times, wrong separators, letters for digits) and for values of other types or out of range, and never raises.
date_range yields every hour from start to end inclusive, once, in order, and rejects end before start; parse_delta sums the day, hour, minute and second parts of a delta text.""",
["inputs"],"every calendar day of leap, century and ordinary years in every supported form, every single-character corruption and truncation of a valid text, all hour ranges over a window, all part combinations of a delta",
"Tests parse a short list of strings.",
["mabel/utils/dates.py"],[("parse_iso, date_range, parse_delta","mabel/utils/dates.py")],["returned values"])

prop("C27","Reader refuses invalid parameter sets before reading anything",
"""Reader raises InvalidReaderConfigError, without touching the store, whenever a parameter is unknown to it and to its inner reader, a required parameter (of either) is missing, or two incompatible parameters are combined with a set value (multiprocess with cursor, raw_path or partition_filter with freshness_limit, partitions with raw_path), and raises no such error for any other combination of known parameters.
A dataset with no readable data raises DataNotFoundError when iterated, not an empty result.""",
["configurations","inputs"],"every subset of the parameters with set/unset values, for inner readers with and without required parameters of their own, plus unknown names",
"Tests try a few bad calls.",
[R+"reader.py","mabel/utils/parameter_validator.py"],[("validate(RULES)","mabel/utils/parameter_validator.py")],["exceptions"])

prop("C28","Tables show the records' data and cannot inject markup",
"""to_html_table renders the first rows up to the limit (of at least 1) with every column and value, and no value or column name of any type (text, bytes, numbers, nested lists and dictionaries) can introduce markup or leave its cell or attribute: <, >, &, and both quotes from data appear only escaped.
to_ascii_table shows the same rows in a grid whose lines for single-line data of uniform records all have equal width; neither fails for any record values or an empty set.""",
["inputs"],"every cell value of up to 2-3 fragments over markup characters and types, nested to depth 2, in names and values, for every limit",
"Tests only check that rendering does not fail on one dataset.",
[I+"display.py",I+"dictset.py"],[("sanitize/_to_html_table/ascii_table",I+"display.py")],["rendered text"])

prop("C29","Cloud and object-store adapters store and fetch exactly the same blobs",
"""Through the Google Cloud Storage and MinIO adapters, what a writer commits is stored under the bucket and path of its dataset with exactly the committed bytes, completion markers included, and a reader lists each blob below a dataset date folder once and fetches exactly its bytes, so that every dataset written reads back as with the disk adapter; blobs of sibling datasets whose names begin alike are not returned.
Upload failures that persist are raised to the caller.""",
["configurations","histories"],"every writer/format/partition/batch configuration and date range over a small space, against in-memory service models, compared with the disk adapter",
"The storage tests need live services or emulators and are not run here.",
[A+"google/google_cloud_storage_writer.py",A+"google/google_cloud_storage_reader.py",A+"minio/minio_writer.py",A+"minio/minio_reader.py"],
[("commit/get_blobs_at_path/get_blob_bytes",A)],["objects stored","records returned"])

prop("C30","Reader options compose: select, filter, persistence and blob layout",
"""For any dataset, however its records are split over blobs, formats and dates, a Reader with any select, filters and persistence returns the records of all blobs in path order, projected and then filtered, including empty records, and each is returned once; the result does not depend on how the records are split, on the persistence, or on whether the read is done in one go or step by step.
Two Readers, or two reads of one dataset, do not disturb each other however their iteration is interleaved.""",
["inputs","configurations","histories"],"every split of a short record list over blobs and formats, with every combination of option values, and every interleaving of two readers' steps",
"Tests vary one option at a time on fixed data.",
[R+"reader.py",RI+"parallel_reader.py",I+"dictset.py"],[("_LowLevelReader pipeline",R+"reader.py"),("ParallelReader",RI+"parallel_reader.py")],["records returned"])

prop("C31","What was written for a date is what is read for that date",
"""For any partition template (daily in any spelling, split over folders, hourly, monthly, yearly, written in the dataset name, or none), what any history of Writers, BatchWriters and StreamWriters stored for given dates (text, date or datetime; without one, the UTC time at which a Writer or BatchWriter was made or a StreamWriter was given the record) is returned by a Reader of that dataset and template exactly when its range includes that date (or hour; with no range: now): each record once, a later complete batch for the same folder replacing earlier ones and loose records, a failed batch changing nothing but hiding loose records, and nothing from other dates or from datasets whose names begin alike.""",
["histories","inputs","configurations"],"every history of up to two (thorough: three) writes by all writer classes for dates around calendar edges and every range read back, for every template; every form of the date and time of the write",
"Tests write and read one folder at a time with fixed dates; none combines several writers, dates, templates and ranges end to end.",
[W+"writer.py",W+"batch_writer.py",W+"stream_writer.py",R+"reader.py",RI+"base_inner_reader.py","mabel/utils/paths.py","mabel/utils/dates.py"],[("Writer dataset_template, build_path",W+"writer.py"),("get_list_of_blobs",RI+"base_inner_reader.py")],["blobs stored","records returned"])

prop("C32","Writers apply the expectations they are given",
"""A Writer, BatchWriter or DatabaseWriter given set_of_expectations (dictionaries, JSON text or Expectation objects) raises from append for every record, dictionary or pydantic model, that does not meet all of them, and neither stores nor counts it; a StreamWriter files such a record, unaltered, in the BACKOUT folder below the folder it would have gone to and nowhere else. Records that meet all of them are stored as if there were no expectations, in order.
One writer's expectations do not affect another writer; with a schema as well, both apply; neither the records nor the expectations are changed.""",
["inputs","histories","configurations"],"every sequence of up to three records over values that do and don't meet each expectation kind, for every writer class, form of the expectations and two writers side by side",
"Tests give one Writer one set of expectations and look at whether append raises.",
[W+"writer.py",W+"batch_writer.py",W+"stream_writer.py",W+"database_writer.py"],[("append, set_of_expectations",W+"writer.py"),("append",W+"stream_writer.py")],["exceptions","blobs stored"])

prop("C33","XML and single-document blobs read as the document they hold",
"""A .xml blob (each line of a .lxml blob, an xml member of a zip) is read as one record mapping the root element's name to its content: an element with neither children nor attributes is its stripped text (null when empty); otherwise an object with its attributes as '@name', its children by name (a list, in document order, when a name repeats) and its own text as '#text'; namespaces are dropped from element names. A .json blob is read as one record and a .txt blob as its text.
This holds alone or among other blobs of other formats, with select, filters, cursor and every persistence.""",
["inputs","configurations"],"every element tree up to a number of nodes, with every choice of attributes, text and repeated names, in every notation; every mix of up to three document blobs",
"Tests read one XML file.",
[I+"xmler.py",RI+"parsers.py",RI+"decompressors.py",RI+"parallel_reader.py"],[("parse/etree_to_dict",I+"xmler.py"),("block/lines",RI+"decompressors.py"),("KNOWN_EXTENSIONS",RI+"parallel_reader.py")],["records returned"])

prop("C34","Samples, column types and conversions reflect the records",
"""sample(f) gives each record of the DictSet at most once, in order, each independently with probability f (every one at 1, none at 0), leaving the source as it was. types(n) names for every column of the first n (default 100) records the one type its non-null values have, 'numeric' for whole and fractional numbers together, 'mixed' for other mixtures and 'empty' when there is none. to_pandas has one row per record in order and one column per key; project and [] give what select does.
All hold for every storage class and for repeated calls.""",
["inputs","configurations"],"every sequence of up to three records over values of every type, every number of rows looked at, every outcome of the random source up to a length, for every storage class",
"Tests check types of one dataset and that sample returns roughly the right number.",
[I+"dictset.py","mabel/utils/entropy.py"],[("sample, types, to_pandas, project",I+"dictset.py"),("random_range/random_int","mabel/utils/entropy.py")],["returned values"])

prop("C35","Helper functions keep their contracts for every input",
"""flatten gives every value of a nested record that is not itself a list or object exactly once, under the names and positions that lead to it, joined by the separator; order, select_record_fields and set_value return a new record that differs only as named and leave the given one as it was. random_range gives a whole number between its limits (both included) and random_choice a member for all system entropy, each possible one for some; random_string has exactly the length asked for.
build_context gives the configuration file's values overridden by its arguments, always with a 'config', and refuses missing or malformed files. get_parts splits a path into bucket, folder, stem and suffix; date_format replaces every date mark. A Histogram counts each value once, in bins of one width in order, with bars in proportion. render_error_stack names every frame of the exception being handled and of those that led to it, each with its line of code marked among correctly numbered neighbours and its local variables, always ends, and is empty without an exception.
tokenize, sanitize and safe_field_name keep exactly the allowed characters, in order; get_levenshtein_distance is the edit distance ignoring case.""",
["inputs","configurations"],"every nested record up to a size, every pair of limits with every boundary word of the random source, every exception chain up to a length at every place of a file, every text up to a length, and sizes around the usual limits",
"Tests call each helper with one or two values.",
[I+"records.py",I+"histogram.py","mabel/utils/entropy.py","mabel/utils/common.py","mabel/utils/paths.py","mabel/utils/text.py","mabel/utils/parameter_validator.py","mabel/errors/render_error_stack.py"],[("flatten, order, set_value",I+"records.py"),("random_range, random_choice, random_string","mabel/utils/entropy.py"),("build_context","mabel/utils/common.py"),("get_parts, date_format","mabel/utils/paths.py"),("render_error_stack","mabel/errors/render_error_stack.py")],["returned values"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P))
