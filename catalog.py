#!/usr/bin/env python3
"""The list of properties and of their checks.

Writes properties.jsonl, checks.json (what run.py runs) and MANIFEST.json, so
that the three never disagree. Run it after an edit; it needs no arguments.
"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, tests, rule, technique, note, plain=(), state=(), packages=None, extra=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, tests=tests, rule=rule, technique=technique, note=note, plain=list(plain), state=list(state),
                  packages=packages or [id.lower()], extra=extra or {}))


def t(quick, thorough, name="TestProperty", **kw):
    return dict(name=name, quick=quick, thorough=thorough, **kw)


GEN = "Random otlp data from a structured generator with small pools of resources, scopes, names, attributes and ids, so that things coincide"
TRUST = " Random search: it does not establish absence. Trusts the generators and the reference model in harness/kit."

prop("C01", "What is stored is what scans return",
     "Every batch of metrics, logs or traces that is saved successfully is returned by a scan of its signal over a time window that contains it, "
     "with every resource, scope, metric, data point, log record and span exactly as often as it was sent and with every field unchanged. "
     "Nothing that was not saved is returned.",
     ["inputs", "histories"], "All sequences of saves of valid telemetry, in any grouping into batches and at any time, with scans in between.",
     "The only test of storing checks the index of one file; it reads nothing back and covers one signal and one hour.",
     ["internal/store/store.go", "internal/store/scan.go", "internal/dataframe/dataframe.go", "internal/data/data.go", "internal/data/metrics.go", "internal/data/logs.go", "internal/data/trace.go", "internal/visit/metrics.go"],
     [("saving", "internal/store/store.go Storage.SaveSamples"), ("rows", "internal/dataframe/dataframe.go DataFrame.Append"),
      ("scanning", "internal/store/scan.go Storage.Scan")],
     ["store.Storage.Scan results"],
     [t(840, 12000, fuzz=600), t(21, 210, "TestLate")],
     GEN + "; saved in random batches into a real store, then scans without filters. Non-trivial: at least two samples saved and at least one point expected.",
     "stateful property-based testing against a reference model of the store",
     "Multisets of points (all fields, resource, scope, metric) returned by scans are compared with a list of what was saved, for hundreds of histories." + TRUST)

prop("C02", "Filters select exactly the matching samples and points",
     "A scan with filters returns exactly the points that satisfy every filter out of the samples that hold, for every filter, something that satisfies it: "
     "resource schema, scope schema, scope name, scope version, name, trace id, span id, parent span id and log level, and resource, scope and point attributes by key and value. "
     "A filter that nothing satisfies gives an empty result, and never an error or a result of other data.",
     ["inputs", "histories"], "All stored data and all combinations of filters whose values are present, absent, or resemble present ones.",
     "The filter tests run two hand written scripts over one file of metrics; most kinds of filters, combinations of them and near misses are never evaluated.",
     ["internal/store/scan.go", "internal/transform/transform.go", "internal/transform/trace.go", "internal/transform/logs.go", "internal/labels/labels.go", "internal/visit/visit.go", "internal/visit/trace.go", "internal/visit/logs.go"],
     [("filters to columns", "internal/store/scan.go Storage.CompileFilters"), ("labels of a sample", "internal/transform/transform.go Context.processSample"),
      ("trimming", "internal/visit/visit.go All.Visit")],
     ["store.Storage.Scan results"],
     [t(840, 12000, fuzz=600)],
     GEN + "; scans with up to three filters drawn from the stored data, from other places of it, and from near misses. Non-trivial: a history with a scan that finds something and one that finds nothing.",
     "stateful property-based testing against a naive filter evaluator",
     "Points returned by filtered scans equal those that a direct evaluation of the filters over all saved data selects." + TRUST)

prop("C03", "Signals never mix",
     "A scan of one signal (metrics, logs or traces) returns data of that signal only, and filters of one signal never select a sample by what another signal stored. "
     "This holds when resources, scopes, attributes, ids and times of samples of different signals are equal.",
     ["inputs", "histories"], "All histories that store the same searchable text and times in several signals.",
     "No test stores more than one signal.",
     ["internal/store/scan.go", "internal/keys/keys.go", "internal/labels/labels.go", "internal/dataframe/columns.go", "internal/transform/transform.go"],
     [("signal of a label", "internal/labels/labels.go Label.Encode"), ("signal of a key", "internal/keys/keys.go Sample.Encode"), ("columns of a signal", "internal/dataframe/columns.go")],
     ["store.Storage.Scan results"],
     [t(714, 10000, fuzz=600)],
     GEN + "; the same resource, scope, attributes, ids and times in all three signals; scans per signal with shared filters. Non-trivial: samples of at least two signals and a scan whose filters match samples of several signals.",
     "stateful property-based testing, model per signal",
     "Compares each scan with a model that never looks at other signals." + TRUST)

prop("C04", "Time windows include what they must and exclude the rest",
     "A scan over a time window returns every point whose time lies in the window, whatever the length of the window, where it starts, and whether its ends are aligned to hours, days, months or years. "
     "It returns no sample that starts outside of the calendar units (of the granularity chosen for the length of the window) that the window touches, and an empty or inverted window returns nothing.",
     ["inputs", "histories"], "All saved times and all windows from seconds to years, at any offset.",
     "The tests of views evaluate a few fixed aligned dates; no test scans a window that starts or ends inside of an hour.",
     ["internal/view/view.go", "internal/store/scan.go", "internal/x/x.go", "internal/batch/batch.go", "internal/dataframe/dataframe.go"],
     [("units of a window", "internal/view/view.go Search"), ("units of a sample", "internal/view/view.go Std"), ("time bound", "internal/x/x.go TimeBounds")],
     ["store.Storage.Scan results"],
     [t(714, 10000, fuzz=600)],
     GEN + "; samples in hours, days, months and years around a base time; windows drawn around samples and around unit borders. Non-trivial: a history with samples inside and samples outside of its windows.",
     "stateful property-based testing against a calendar model",
     "Expected samples come from a separate calendar model. One known finding (later-hours) is excluded by construction, counted, and probed." + TRUST,
     plain=["TestKnown"])

prop("C05", "An instant query returns the newest matching sample of 15 minutes",
     "A scan without a time range returns the most recently stored sample that satisfies its filters and whose units of time overlap the fifteen minutes before now (moved back by the offset), in full except for points that the query does not ask for. "
     "When there is none the result is empty.",
     ["inputs", "histories"], "All histories, offsets, filters and current times.",
     "The tests run instant scans on one preloaded sample only, where the newest sample is the only one.",
     ["internal/store/scan.go", "internal/x/x.go", "internal/visit/visit.go"],
     [("instant scan", "internal/store/scan.go Storage.Scan"), ("time bound", "internal/x/x.go TimeBounds")],
     ["store.Storage.Scan results"],
     [t(840, 12000, fuzz=600)],
     GEN + "; saves and instant scans at moving current times and offsets. Non-trivial: a scan with several candidate samples.",
     "stateful property-based testing against a reference model",
     "Compares instant scans with the newest matching sample of the model." + TRUST)

prop("C06", "Limit and reverse keep the first or last matching samples",
     "A scan of a time range with a limit returns the points of the first so many matching samples in the order in which they were stored, or of the last so many when it is reversed, with resources in the order of their first occurrence. "
     "A limit that is not below the number of matches, and no limit, change nothing but the order.",
     ["inputs", "histories"], "All histories, limits, directions and filters.",
     "No test runs a scan with a limit or in reverse.",
     ["internal/store/scan.go", "internal/dataframe/dataframe.go"],
     [("limit", "internal/store/scan.go limit"), ("order of rows", "internal/dataframe/dataframe.go readRows")],
     ["store.Storage.Scan results"],
     [t(714, 10000, fuzz=600)],
     GEN + "; scans with limits below, at and above the number of matches in both directions. Non-trivial: a limit below the number of matches.",
     "stateful property-based testing against a reference model; metamorphic relation with the unlimited scan",
     "Compares limited scans with the prefix or suffix of the model in order of arrival." + TRUST)

prop("C07", "Everything accepted survives restarts",
     "Every sample acknowledged to a client before a clean shutdown is found by the same queries after any number of restarts, whether it was still buffered or already stored at shutdown. "
     "It is found once, and together with what is saved later.",
     ["histories"], "All sequences of exports, flushes, clean shutdowns, restarts and queries.",
     "No test closes and reopens a store, and none shuts a service down with buffered samples.",
     ["internal/service/service.go", "internal/store/store.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go", "internal/seq/seq.go", "internal/translate/translate.go"],
     [("shutdown", "internal/service/service.go Service.Close"), ("open shards", "internal/shards/shards.go Shards.get"), ("row and id bitmaps", "internal/dataframe/dataframe.go DataFrame.appendView")],
     ["scans through a reopened store"],
     [t(180, 4000), t(35, 700, "TestBurst"), t(1, 4, "TestTick", workers=1, shrink="1s")],
     GEN + "; operations export, save, scan and restart on an on-disk node. TestBurst: up to 5000 small exports before a shutdown, around sizes of buffers. TestTick: shutdowns of ten nodes around the moment of the save that runs in the background once a minute. Non-trivial: at least two samples over the history, which always restarts at least once.",
     "stateful property-based testing with restarts against a reference model",
     "After every restart scans are compared with the model of everything acknowledged." + TRUST, extra={"race": True})

prop("C08", "A crash loses nothing saved and leaves nothing in part",
     "When the process dies at any moment, the next start succeeds and finds every sample that was saved before. "
     "A sample whose save was in progress is there as a whole or not at all.",
     ["crash_points", "histories"], "All histories of saves and all points in time at which the process is killed.",
     "Tests never stop a process or copy its files, so nothing is known about what a reader finds after a crash.",
     ["internal/store/store.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go"],
     [("order of writes", "internal/store/store.go Storage.SaveSamples"), ("one transaction for rows", "internal/dataframe/dataframe.go DataFrame.Append"), ("one transaction per shard", "internal/shards/shards.go Shards.Update")],
     ["scans through a store opened on the files that the crash left"],
     [t(126, 2500, "TestStop"), t(105, 2100, "TestKill"), t(140, 2800, "TestPoints")],
     "TestStop: the files between two operations of a random history, opened as they are. TestKill: a child process saves random batches, acknowledges each and is killed (SIGKILL) after a random delay; "
     "TestPoints: the files right before random writes to the logs of badger and of the index, during saves, starts, stops and recoveries (hooks in the databases); histories go on from there; "
     "its files are opened. Non-trivial: at least two samples saved (TestStop), at least one acknowledged batch (TestKill).",
     "crash injection at generated points of generated histories, against a reference model",
     "Crashes are kills of the process; loss of the page cache (power loss) is not simulated. TestKill's moments are random in time; TestPoints' are writes, of which each save is given a sample. A save with labels in several shards of the index is a known finding." + TRUST, extra={"instrument": True}, plain=["TestKnown"])

prop("C09", "Concurrent clients and queries see whole, correct results",
     "While any number of clients export and query at the same time, every acknowledged sample is stored exactly once, also when exports arrive while earlier ones are written in the background. "
     "A query that runs during a save sees each sample as a whole or not at all and everything that was saved before the query began.",
     ["schedules", "histories"], "All interleavings of concurrent exports, background saves and queries.",
     "All tests are sequential.",
     ["internal/service/service.go", "internal/store/store.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go", "internal/visit/visit.go", "internal/js/rq.go"],
     [("buffer of a service", "internal/service/service.go Service.Save"), ("background save", "internal/service/service.go Service.Start"), ("pooled visitors", "internal/visit/visit.go All.Release")],
     ["scans while clients write, and after"],
     [t(84, 1500, "TestExports"), t(84, 1500, "TestReaders"), t(56, 1500, "TestBurst"), t(2, 8, "TestTicker", workers=2, shrink="1s")],
     "TestExports: 2 to 6 concurrent clients on a service, all stored exactly once after shutdown, with concurrent queries compared. TestReaders: queries during saves compared with what had been and could have been saved. "
     "TestBurst: up to 24 clients with up to 60 small samples each, every one found by time and by label. TestTicker: clients export across a background save (once a minute). Non-trivial: more than two samples; queries that overlapped a save; more than ten exports.",
     "property-based testing with concurrent generated clients and a history invariant (whole, once, not before and not lost)",
     "The schedule is that of the machine and is not controlled; thorough runs use the race detector where the build allows." + TRUST, extra={"race": True})

prop("C10", "Sample ids are unique and grow",
     "No two samples ever get the same id: ids grow with every sample, over restarts, after crashes and among concurrent clients.",
     ["histories", "schedules", "crash_points"], "All sequences of requests for ids by one or several clients with restarts and crashes in between.",
     "No test takes more than a few ids from one instance or restarts it.",
     ["internal/seq/seq.go"],
     [("leases of ids", "internal/seq/seq.go Seq.SampleID")],
     ["ids returned"],
     [t(1120, 12000, fuzz=600)],
     "Random sequences of requests (single, many, parallel), restarts, crashes and translations in the same database. Non-trivial: more than one id and at least one restart, crash or parallel step.",
     "stateful property-based testing with restarts and crashes; uniqueness invariant over the history",
     "Invariant over all ids of a history, with crashes as copies of the files between operations." + TRUST)

prop("C11", "Labels and their numbers translate one to one, forever",
     "Each distinct label has one number and each number one label, in both directions. "
     "A label keeps its number across restarts, after crashes and under concurrent use, different spaces do not influence each other, and looking for an unknown label neither finds nor creates anything.",
     ["inputs", "histories", "schedules"], "All sequences of translations in both directions over arbitrary bytes with restarts, crashes and concurrent clients.",
     "One test translates a handful of short keys once.",
     ["internal/translate/translate.go", "internal/store/store.go"],
     [("key to number", "internal/translate/translate.go Translate.TranslateKey"), ("number to key", "internal/translate/translate.go Translate.TranslateID"), ("numbers kept in memory", "internal/store/store.go Storage.Translate")],
     ["numbers and labels returned"],
     [t(1050, 14000, fuzz=600), t(385, 6000, name="TestStore")],
     "Random keys (prefixes of each other, binary, long, empty-adjacent) in several spaces; translate, find, reverse, bulk, parallel, restart, crash. Non-trivial: more than one key.",
     "stateful property-based testing against a pair of maps",
     "Model: a map per space." + TRUST, extra={"race": True})

prop("C12", "The index finds exactly the rows that have all columns",
     "A query of the index for a set of columns in a range of time returns exactly the rows that were recorded with every one of the columns in the units of time of the range. "
     "This holds however columns and rows are spread over shards and whether they were recorded in this run or an earlier one.",
     ["inputs", "histories"], "All sets of recorded rows, columns and times, all queries, with restarts.",
     "No test queries the index at all; columns of real runs only ever need one shard.",
     ["internal/shards/shards.go", "internal/view/view.go"],
     [("rows of columns", "internal/shards/shards.go Shards.Rows"), ("position in a shard", "internal/view/view.go Pos")],
     ["rows returned"],
     [t(2240, 10000, fuzz=600)],
     "Random batches of rows with columns that lie in one, neighbouring or far shards, restarts, and queries of one to four columns over random windows. Non-trivial: a query with a match.",
     "stateful property-based testing against a reference index",
     "Model: a set of (unit, row, column)." + TRUST)

prop("C13", "Samples are indexed under their own time and labels",
     "Every sample is indexed under the units of its earliest time and under all of its own searchable labels: schemas, scope name and version, names, ids, severity and attributes of resource, scope and points. "
     "It is indexed under no label of another sample, whatever is indexed before it or with it, and the store lists exactly these labels for it.",
     ["inputs", "histories"], "All batches of samples in all orders, with reuse of the indexer.",
     "The indexing test compares one rendered file; it holds one sample of one signal.",
     ["internal/transform/transform.go", "internal/transform/metrics.go", "internal/transform/logs.go", "internal/transform/trace.go", "internal/batch/batch.go", "internal/view/view.go", "internal/store/scan.go"],
     [("labels", "internal/transform/transform.go Context.processSample"), ("fragments", "internal/batch/batch.go Batch.Build")],
     ["fragments built, columns of labels"],
     [t(20000, 150000, fuzz=600), t(900, 20000, name="TestStored")],
     GEN + "; batches of up to six samples through one indexer with a recording translation that spreads columns over shards, and saves to a store that lists labels of its samples. Non-trivial: more than one sample and at least one label.",
     "property-based testing against a reference indexer",
     "The reference indexer walks the data by its own code and knows the label rules from the queries that need them." + TRUST)

prop("C14", "Different things never share a key",
     "The keys under which samples and labels are filed are different for different samples, signals, kinds of label, keys and values, including text that contains separators, and are the same whenever the thing is the same. "
     "Reusing the builder of a key leaves nothing of an earlier key behind.",
     ["inputs"], "All pairs of ids, signals, kinds, keys and values, with reuse of builders.",
     "One test encodes one label.",
     ["internal/keys/keys.go", "internal/labels/labels.go"],
     [("label key", "internal/labels/labels.go Label.Encode"), ("sample key", "internal/keys/keys.go Sample.Encode")],
     ["encoded keys"],
     [t(84000, 700000, fuzz=600)],
     "Random sets of labels and sample ids, texts made of separators, the same text split in different ways. Non-trivial: more than one distinct thing.",
     "property-based testing of injectivity and determinism",
     "Pairwise comparison of generated sets." + TRUST)

prop("C15", "Times of samples, windows and bounds agree with each other",
     "Each entry filed for a time is in the units that a window with that time searches, for every granularity and time zone, and no unit outside of the window is searched. "
     "The bounds of a scan are the window that it asks for, or the fifteen minutes before now moved by the offset.",
     ["inputs"], "All pairs of times, zones, lengths of windows and offsets.",
     "Tests evaluate a few round dates in one zone.",
     ["internal/view/view.go", "internal/batch/time.go", "internal/x/x.go"],
     [("search", "internal/view/view.go Search"), ("units", "internal/view/view.go Std"), ("bounds", "internal/x/x.go TimeBounds")],
     ["names of units, bounds"],
     [t(140000, 2000000, fuzz=600)],
     "Random windows around unit borders (hours, days, months, leap days, years), zones and lengths. Non-trivial: a window with at least one unit.",
     "property-based testing against calendar arithmetic",
     "Expected units are computed by walking the window." + TRUST)

prop("C16", "Trimming keeps exactly the points a query asks for",
     "Out of a sample a query keeps exactly the points that lie in its time range and satisfy its filters, each with its resource, scope and metric unchanged, and keeps no empty groups. "
     "The sample itself is not modified, and nothing of one query affects the next.",
     ["inputs", "histories"], "All samples, time ranges and filters, with reuse of the trimmer.",
     "No test of trimming exists.",
     ["internal/visit/visit.go", "internal/visit/metrics.go", "internal/visit/logs.go", "internal/visit/trace.go"],
     [("visitors", "internal/visit/visit.go All.Visit")],
     ["trimmed data"],
     [t(28000, 300000, fuzz=600)],
     GEN + "; one or two queries in a row with up to three filters and bounds at points of the data. Non-trivial: some points kept and some dropped.",
     "property-based testing against a naive evaluator per point",
     "Every point is evaluated alone by separate code." + TRUST)

prop("C17", "Merging samples keeps every point once, in its own group",
     "Merging samples gives all of their points exactly once, each with the same resource, scope and metric as before, and one group for each distinct resource and scope. "
     "Things are merged only when they are equal, resources come in the order of their first occurrence, and the order in which samples are given does not change what is in the result.",
     ["inputs"], "All lists of samples of a signal.",
     "One test merges one file with itself.",
     ["internal/data/data.go", "internal/data/metrics.go", "internal/data/logs.go", "internal/data/trace.go", "internal/data/sort.go"],
     [("collapse", "internal/data/data.go Collapse"), ("identity", "internal/data/sort.go Sorter.hashResource")],
     ["merged data"],
     [t(56000, 600000, fuzz=600)],
     GEN + "; up to four samples that share and nearly share resources, scopes and metrics. Non-trivial: a resource that occurs in several places.",
     "property-based testing: multiset preservation, uniqueness of groups, permutation invariance",
     "Compares multisets of points with full context before and after." + TRUST)

prop("C18", "A script asks for exactly what its calls say",
     "The scan that a script runs is the one its calls describe: signal, all filters in their order, time range relative to the current time of the script, limit, direction and offset. "
     "An invalid duration or value fails the script with an error and runs no other query.",
     ["programs", "inputs"], "All sequences of calls of the query builder.",
     "Two recorded scripts are compared with two recorded queries.",
     ["internal/js/rq.go", "internal/js/scan.go", "internal/compile/compile.go", "packages/rq"],
     [("query builder", "internal/js/scan.go"), ("compiler", "internal/compile/compile.go Compile")],
     ["scan received by the store"],
     [t(12600, 80000, fuzz=600)],
     "Random programs of builder calls in random order over random current times. Non-trivial: more than two calls.",
     "grammar-based program generation against a reference interpreter of the builder",
     "The reference interpreter builds the expected scan while the program is generated." + TRUST)

prop("C19", "What clients export is what scripts see",
     "Telemetry exported over the wire protocol by any client, compressed or not, is accepted, and once the server stored it a script that queries the server prints exactly the exported points that its query asks for. "
     "Queries find it also after the server was shut down and started again.",
     ["inputs", "histories", "programs"], "All sequences of exports and scripts over the network interface.",
     "No test starts the server interface or sends a request to it.",
     ["internal/service/service.go", "internal/service/api.go", "internal/snippets/snippets.go", "internal/js/rq.go", "internal/render/metrics.go", "internal/compress/grpc.go"],
     [("exports", "internal/service/service.go Service.Save"), ("queries", "internal/service/api.go Service.ScanSamples"), ("scripts", "internal/js/rq.go JS.Run")],
     ["responses of the server"],
     [t(560, 6000, fuzz=600)],
     GEN + "; exports and scripts over in-memory gRPC connections. Non-trivial: a script that sees at least one point.",
     "stateful end-to-end property-based testing against the reference model",
     "All parts in one: transport, buffering, storage, index, filters, trimming, merging, scripts and rendering." + TRUST)

prop("C20", "Rendered results hold every value",
     "The JSON that a script prints for a result decodes to exactly that result. "
     "The text table lists every number of a gauge or a sum once, under its own name and with its own resource, scope, attributes, time and value, and rendering one result is not affected by an earlier or a concurrent one.",
     ["inputs", "schedules"], "All results, in sequence and concurrently.",
     "One test renders one file and compares it with a recorded text.",
     ["internal/render/metrics.go", "internal/render/attribute.go", "internal/js/rq.go"],
     [("rendering", "internal/render/metrics.go"), ("pooled tables", "internal/render/pool.go")],
     ["printed output"],
     [t(21000, 400000, fuzz=600), t(240, 6000, name="TestTogether", workers=3), t(350, 6000, name="TestTogether", target="./internal/zzverif/c20race", race=True)],
     GEN + "; rendered as JSON and text, several at the same time, also under the race detector. Non-trivial: at least one number listed.",
     "round trip (JSON) and property-based comparison with a reference listing (text)",
     "JSON is decoded by protojson and compared; rows of the text are parsed back." + TRUST, packages=["c20", "c20race"])

prop("C21", "Compressed data comes back whole",
     "Whatever is compressed, by any of the ways in which stored samples, programs and messages between client and server are compressed, decompresses to exactly what went in, whatever its size and whatever was compressed before it or at the same time. "
     "Data that was damaged or cut short gives an error and never other data, and the next operation is not affected by it.",
     ["inputs", "schedules"], "All contents and sizes, in any sequence and concurrently, and all damage to compressed data.",
     "Nothing tests compression.",
     ["internal/compress/zstd.go", "internal/compress/grpc.go", "internal/arena/arena.go", "internal/x/x.go"],
     [("pooled coders", "internal/compress/zstd.go"), ("codec of messages", "internal/compress/grpc.go"), ("marshalled samples", "internal/arena/arena.go")],
     ["decompressed bytes"],
     [t(9597, 60000, fuzz=600), t(9597, 60000, name="TestArena")],
     "Contents of many sizes (empty to several hundred KB; repetitive, random, mixed), several at once through pooled coders, with damage in between. Non-trivial: at least two round trips.",
     "round-trip property-based testing with injected damage and concurrency",
     "Every content is compared byte for byte; damaged data must be refused." + TRUST, extra={"race": True})

prop("C22", "Records and files of messages round trip",
     "Messages of any protobuf type of telemetry that are appended to a record, or written to a parquet file as one, read back equal, in their order, for all rows and for a selection of rows; "
     "reading some columns gives these columns with the same values, and a record that was read can be appended to. A file that could not be written or read whole is an error and never other messages.",
     ["inputs"], "All messages of the telemetry types, in any number and sequence, and all selections of rows and columns.",
     "The tests write a handful of messages of test types and compare with recorded text.",
     ["internal/arrow3/arrow3.go", "internal/arrow3/parquet.go", "internal/arrow3/node.go"],
     [("building and reading", "internal/arrow3/node.go"), ("files", "internal/arrow3/parquet.go")],
     ["unmarshalled messages", "columns read"],
     [t(4795, 30000, fuzz=600)],
     "Messages of 14 types generated from their descriptors (all kinds of fields, absent and zero, nested lists, oneofs), with random selections, and faults: writers and readers that fail at a random point, files that are cut. Non-trivial: a message with a field set.",
     "round-trip property-based testing with a descriptor-driven generator",
     "Messages are compared by protobuf equality." + TRUST, plain=["TestCyclic"])

prop("C23", "Sets of rows and bit sliced numbers do arithmetic right",
     "Union, intersection, difference, xor, shift, segments, counts, ranges and membership of sets of columns equal those of plain sets, operations leave their operands as they were, and sets survive their serialised forms. "
     "Numbers that are stored as bit slices add up and rank in descending order, with limit and offset, exactly as plain numbers do.",
     ["inputs", "histories"], "All sets that span any shards and all sequences of operations; all tables of numbers.",
     "Tests exercise a few operations on small sets of one or two shards; tables of numbers are not covered.",
     ["internal/rows/row.go", "internal/rows/bsi.go"],
     [("sets", "internal/rows/row.go Row"), ("numbers", "internal/rows/bsi.go AddBSI, PivotDescending")],
     ["columns of results", "numbers of results"],
     [t(13496, 150000, fuzz=600), t(1799, 25000, name="TestNumbers"), t(3500, 60000, name="TestSegments")],
     "Sequences of operations on sets with columns around shard and container borders; random numbers over random columns. Non-trivial: an operation on two sets that are not empty.",
     "model-based property testing against maps of the standard library",
     "Compares each result and each operand with the model after every operation." + TRUST)

prop("C24", "The database reports its own telemetry as it was recorded",
     "The metrics and spans that the process records about itself reach its own collectors with every value, attribute, time, exemplar, event, link and status as recorded, grouped under their own resource and scope. "
     "A metric that can not be converted is reported as an error and holds back no other, and a failure of the collector is returned. "
     "Every call that a server answered, up to the last one before it is told to stop, is found in its own spans and counted in its own metrics after the next start.",
     ["inputs", "histories"], "All metrics of all kinds and all spans that the SDK can hand to an exporter, and all calls of a server.",
     "The conversion has recorded examples for each kind; no test looks at several scopes, failures, or unusual values.",
     ["internal/self/metrics.go", "internal/self/trace.go", "internal/self/metrics/transform/metricdata.go", "internal/self/metrics/transform/attribute.go", "internal/self/trace/tracetransform/span.go", "internal/self/trace/tracetransform/attribute.go", "cmd/rq/main.go", "internal/self/self.go"],
     [("metrics", "internal/self/metrics.go Metrics.Export"), ("spans", "internal/self/trace.go Trace.ExportSpans")],
     ["requests that the collectors receive"],
     [t(15995, 200000, fuzz=600), t(15995, 200000, name="TestSpans"), t(84, 900, name="TestProcess")],
     "Random metrics of all kinds (also ones that can not be converted) and random spans, over several scopes and resources, with failing collectors; random calls to the real program, which is stopped and started again. Non-trivial: at least one metric that is converted, or two spans; each run of the program.",
     "property-based testing against an independent textual rendering of both sides",
     "Both sides are written down as text by separate code and compared, after the memory of the source was overwritten as the SDK may do. Spans and counts of the program are compared with the calls that were made." + TRUST, extra={"programs": ["./cmd/rq"]})

prop("C25", "Running a script from the command line does what the script says",
     "A run of a script from the command line prints exactly what the script prints, sends exactly its queries to the server that it is given, and fails when the script does not compile, throws, or one of its queries fails. "
     "It does the same in every run, when it or another script runs at the same time, and after runs that were killed or could not write their files; a run leaves no temporary files behind.",
     ["programs", "histories", "schedules", "crash_points"], "All scripts and all sequences of complete, parallel, killed and failing runs.",
     "No test runs the command.",
     ["internal/commands/query/query.go", "internal/compile/compile.go", "internal/commands/home.go", "internal/js/rq.go", "cmd/rq/main.go"],
     [("compiled scripts", "internal/commands/query/query.go build"), ("compiler", "internal/compile/compile.go Compile")],
     ["output and exit status of the process", "queries that the server receives"],
     [t(1260, 12000)],
     "Random small scripts (valid, failing, long, nearly equal) run by the real program against a server: once, again, in parallel, killed after a random time, and with a limit on the size of files. Non-trivial: a script that runs more than once.",
     "stateful property-based testing of the program with injected faults",
     "Every run is compared with what the script was generated to do." + TRUST, extra={"programs": ["./cmd/rq"]})

prop("C26", "A server that is stopped and started again serves what it acknowledged",
     "Every export that the server process acknowledged before it was told to stop, by interrupt or termination, also while clients are still sending, plain or compressed with zstd or gzip, is served by the next process on the same data, exactly once and found by time, by labels and by scripts. "
     "An export that was not acknowledged is there as a whole or not at all; the server stops in good order and starts again, also after it was killed, with what was stored before.",
     ["histories", "schedules", "crash_points"], "All sequences of exports by concurrent clients, stops, kills and starts of the process.",
     "No test runs the server.",
     ["cmd/rq/main.go", "internal/service/service.go", "internal/store/store.go", "internal/commands/home.go", "internal/self/self.go", "internal/compress/grpc.go"],
     [("start and stop", "cmd/rq/main.go run"), ("save at the end", "internal/service/service.go Service.Close")],
     ["responses of the server process"],
     [t(70, 2500)],
     "Random telemetry and bursts of concurrent clients sent to the real program, which is stopped with SIGINT, SIGTERM or SIGKILL and started again up to three times. Non-trivial: at least one acknowledged sample that outlives a process.",
     "stateful property-based testing of the process against a reference model",
     "The server's own telemetry is told apart by an attribute of what clients send. Requests are compressed with zstd, gzip or not at all. What is buffered at a kill may be lost and is not judged." + TRUST, extra={"programs": ["./cmd/rq"]})

prop("C27", "No request stops the server or harms what others stored",
     "Whatever a client sends that decodes as an export or a scan, however unusual its values, times, sizes and nesting, is answered or refused in bounded time and memory, and the server keeps running. "
     "Everything that others exported before, in the same batch and after it is stored and returned whole by its own attributes and by scans of its time, and such scans do not fail.",
     ["inputs", "histories"], "All requests that can be decoded, mixed with requests of others in any order.",
     "Tests send recorded telemetry of one well-behaved client.",
     ["internal/service/service.go", "internal/service/api.go", "internal/store/store.go", "internal/store/scan.go", "internal/view/view.go", "internal/transform/transform.go", "internal/transform/metrics.go", "internal/transform/logs.go", "internal/transform/trace.go", "internal/dataframe/dataframe.go", "internal/data/sort.go", "internal/x/x.go"],
     [("exports", "internal/service/service.go Service.Save"), ("scans", "internal/store/scan.go Storage.Scan"), ("units of a window", "internal/view/view.go Search")],
     ["responses of the service"],
     [t(280, 9000)],
     "Messages filled field by field with extreme values, encoded telemetry with changed, removed, repeated and inserted bytes, requests with very many or very deep or very long parts, scans with times, limits and filters of any value; interleaved with small requests of ours. "
     "Non-trivial: odd exports among ours, or an odd scan.",
     "structure-aware and mutational fuzzing of requests with a model of what must be preserved",
     "Requests go to the handlers of the service after decoding. A case may take 40 s and 3 GB. One known finding (depth-limit) is excluded by construction, counted, and probed." + TRUST,
     plain=["TestKnown"])

prop("C28", "The library that scripts are written against is the one they run with",
     "A script that is compiled with the library that the program embeds makes the same queries with the same values, prints the same and fails in the same way as with the sources of the library, packages/rq. Both export the same classes, functions and values.",
     ["programs"], "All scripts.",
     "Nothing compares the two; the tests of scripts use the embedded one.",
     ["internal/js/bundle/index.js", "packages/rq/src/core.ts", "packages/rq/src/core_metrics.ts", "packages/rq/src/core_logs.ts", "packages/rq/src/core_trace.ts", "packages/rq/src/otel.ts", "internal/compile/compile.go"],
     [("embedded library", "internal/js/bundle/index.js"), ("sources of the library", "packages/rq/src/core.ts Config")],
     ["queries, output and exports"],
     [t(6300, 60000, fuzz=600)],
     "Random scripts with all exports, methods and odd arguments, compiled both ways. Non-trivial: at least one query that reaches the database.",
     "differential property-based testing of two libraries",
     "Both are compiled by the esbuild of the program; types are not judged." + TRUST)

prop("C29", "Failures are reported and harm nothing else",
     "When a part of the storage can not be read or written, because the disk is full, files are damaged or the caller gives up, a scan answers exactly and completely or fails; it never leaves anything out silently. "
     "A save that fails is reported, and each of its samples is there as a whole or not at all. Everything else stays as it was, and saves and scans work again as soon as the cause is gone, with and without a restart. The service keeps what it has acknowledged until it is saved.",
     ["fault_sequences", "histories"], "All sequences of saves, scans and restarts with failures at any of their steps.",
     "No test makes a step fail.",
     ["internal/store/store.go", "internal/store/scan.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go", "internal/translate/translate.go"],
     [("saves", "internal/store/store.go Storage.SaveSamples"), ("scans", "internal/store/scan.go Storage.Scan"), ("commits", "internal/shards/shards.go Shards.Update")],
     ["errors and answers of saves and scans"],
     [t(400, 14000), t(140, 5000, "TestAway")],
     "Random telemetry saved and scanned while the log of the index can not grow beyond a random size, contexts end after a random number of looks at them, files of samples are damaged (repaired later), or few more files can be opened, with restarts in between; TestAway: scans with filters whose labels lie in several shards of the index, of which some can not be opened. Non-trivial: at least one save or scan that fails.",
     "fault injection in stateful property-based testing against a reference model",
     "Failures of the disk are made with a limit on the size of files, which only the files of the index meet; badger writes through mapped memory. That the service drops a batch which it can not save is a known finding." + TRUST,
     plain=["TestKnown"])

prop("C30", "A data folder is one database",
     "Servers on different data folders, side by side or one after another, share nothing: each serves exactly what it was sent itself. The folder is the one given, absolute or relative, or the default one in the home, and a server and its clients write nowhere else. "
     "A server that is started on a folder or port in use fails with a message and harms neither. A folder that was copied or moved while its server was stopped has the same data; the flags and variables for addresses reach the server that they name.",
     ["histories", "inputs"], "All histories of servers, clients and data folders.",
     "No test runs the program.",
     ["cmd/rq/main.go", "internal/commands/home.go", "internal/home/home.go", "internal/commands/version/version.go", "internal/commands/query/query.go"],
     [("data folder", "internal/commands/home.go Home"), ("start", "cmd/rq/main.go run")],
     ["responses and exits of the processes", "files"],
     [t(84, 2000)],
     "Random histories of starts, stops, exports, clients and failing starts over up to three data folders with odd names, given by argument or by default, which are also copied and moved. Non-trivial: servers side by side, a failing start, or a folder that was copied or moved.",
     "stateful property-based testing of several processes against a reference model per folder",
     "The server's own telemetry is told apart by an attribute of what clients send." + TRUST, extra={"programs": ["./cmd/rq"]})

prop("C31", "Every metric point becomes one row of columns",
     "Appending metrics as columns gives one row for every data point, in their order: with name, description, unit, kind, temporality, monotonicity, times and exemplars of its metric and point, the attributes of its resource, scope and itself, and its own value — that of a sum as a counter, none when the point has none. "
     "Identifiers of rows only grow, also after opening again. Rows have the same hash and the same columns of the index exactly when name and text attributes are the same; appending leaves the given metrics as they are.",
     ["inputs", "histories"], "All metrics and all orders of appending, taking records and opening again.",
     "One test compares the rows of one file.",
     ["internal/f2/metrics.go", "internal/f2/attr.go", "internal/f2/translate.go", "internal/f2/id.go", "internal/f2/pool.go"],
     [("rows", "internal/f2/metrics.go Metrics.Append"), ("identity", "internal/f2/attr.go Attr.Attr")],
     ["records", "positions of the index"],
     [t(3000, 60000, fuzz=600)],
     GEN + ", appended in several batches, with names, keys and values of which a hash is the same, to one database that is opened again. Non-trivial: more than one row.",
     "property-based testing against a reference expansion, with identities kept over the history",
     "Records and positions are found by their types in f2.Metrics, which does not give them out." + TRUST)

prop("C32", "A compiled snippet is the program of its own source",
     "Asking for the compiled form of a source gives a program that does exactly what this source does, or the error with which it does not compile, every time: whatever sources were compiled before it or are compiled at the same time, how alike they are, and whatever the caller does with its memory afterwards.",
     ["inputs", "histories"], "All sources and all orders, also concurrent, of asking for them.",
     "No test compiles a snippet.",
     ["internal/snippets/snippets.go"],
     [("cache", "internal/snippets/snippets.go Snippets.GetProgramData")],
     ["what programs print, return and throw"],
     [t(8000, 200000, fuzz=600)],
     "Random scripts, nearly equal ones and ones of which a hash is the same, asked for in random order and concurrently. Non-trivial: a source that was asked for twice.",
     "differential property-based testing against compiling directly",
     "The oracle compiles with the same Goja in strict mode." + TRUST)

NOT_APPLICABLE = []
# more properties below this line


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    seeded, design = os.path.join(here, "seeded"), os.path.join(here, "DESIGN.md")
    if os.path.isdir(seeded):
        rows = ["", "| change | what it needs |", "|---|---|"]
        for d in sorted(os.listdir(seeded)):
            m = json.load(open(os.path.join(seeded, d, "meta.json")))
            rows.append("| %s | %s |" % (d, m["needs"].replace("|", "/")))
        text = open(design).read()
        a, b = text.index("<!-- TABLE -->") + len("<!-- TABLE -->"), text.index("<!-- END -->")
        with open(design, "w") as f:
            f.write(text[:a] + "\n".join(rows) + "\n\n" + text[b:])
    checks = {}
    for p in P:
        if p["tests"] is None:
            continue
        c = {"packages": p["packages"], "targets": ["./internal/zzverif/" + p["packages"][0]], "tests": p["tests"], "rule": p["rule"]}
        if p["plain"]:
            c["plain"] = p["plain"]
        c.update(p["extra"])
        checks[p["id"]] = c
    with open(os.path.join(here, "checks.json"), "w") as f:
        json.dump(checks, f, indent=1)
        f.write("\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                    for p in P if p["tests"] is not None],
         "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
         "notes": "Generated by catalog.py together with properties.jsonl and checks.json. Harness sources go into the module of /repo through a build overlay; /repo has no hooks."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
