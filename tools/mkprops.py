#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PARSER = "internal/dump/parser.go"; ACC = "internal/dump/parsed_accessor.go"
IDX = "internal/storage/index.go"; BIG = "internal/storage/big.go"
SMALL = "internal/storage/small.go"; META = "internal/storage/meta.go"
SUB = "internal/cmd/subcommands.go"; HEAP = "internal/java/heap.go"
OBJ = "internal/objects/objects.go"; THR = "internal/threads/threads.go"
SUM = "internal/summary/summary.go"; FMT = "internal/format/format.go"
OOBJ = "internal/output/objects.go"; OTHR = "internal/output/threads.go"; OSUM = "internal/output/summary.go"
BASE = "internal/core/base_parsers.go"; PRIM = "internal/core/primitive_parsers.go"; SIZES = "internal/core/sizes.go"

prop("C01", "Every heap object in the dump is found again by its id, with its own data",
 "After a well-formed dump has been indexed, looking up the identifier of any instance, object array or primitive array in the dump returns exactly that object's record - its class, stack trace serial, length and payload bytes - and never another object's. Looking up an identifier the dump does not contain, or contains only as another kind of object, reports that it is missing. This holds for 4- and 8-byte identifiers, any mix and order of record kinds, any number of heap segments, record sizes and file offsets (beyond 4 GiB too), and however the input is delivered to the indexer.",
 ["inputs"], "all well-formed dumps (identifier sizes 4 and 8, any record sequence and segmentation, any payload and file size), all identifiers, all ways the reader chunks the input",
 "The unit tests index one 487-byte dump in which every identifier is 1; an offset that is wrong only after some kind of record, only for some identifier size, or only past 2^31/2^32 bytes is invisible to them.",
 [PARSER, ACC, IDX, BIG, SIZES],
 [("stream position accounting per record kind", PARSER), ("record sizes from identifier size and declared counts", SIZES), ("id -> offset index files, binary search", IDX), ("seek + parse on demand", ACC)],
 [("pos", "offset in the dump of the next unread byte", PARSER+" Parser.pos"), ("index files", "sorted id/offset pairs", IDX)],
 ["ParsedAccessor.GetHprofGcInstanceDump/GetHprofGcObjArray/GetHprofGcPrimArray/GetBytesFromCurrent after ParseHeapDump"])

prop("C02", "The id index finds every stored key at any batch size and refuses disorder",
 "For any non-decreasing sequence of key/value pairs and any batch size, after the writer is closed a lookup of a stored key returns a value stored under that key, and a lookup of any other key reports that it is missing. A key smaller than its predecessor is refused with an error as soon as it is offered. No pair is lost, duplicated or reordered by batching, and an index file whose length is not a whole number of entries is refused.",
 ["inputs", "histories"], "all sequences of puts, all batch sizes including the default of one million, all keys over the full 64-bit range, all lookups",
 "Tests use one batch size larger than the data, a handful of keys and one backward key; the flush boundary, the last partial batch and empty index are never crossed.",
 [IDX, BIG], [("batch accumulation and flush at the limit", IDX), ("lastSeenKey order check", IDX), ("binary search over fixed-size entries", IDX)],
 [("curBatch/batchCount", "pairs not yet written", IDX), ("lastSeenKey", "largest key accepted so far", IDX)],
 ["IndexRecordsWriteStorage.Put/Close and the bytes written", "IndexRecordsReadStorage.Get"])

prop("C03", "Names, classes, frames, traces and roots survive indexing and reload exactly",
 "Every name, loaded class, stack frame, stack trace, GC root and class layout (superclass, loader, sizes, constant pool, static fields with values, instance fields) of a well-formed dump is available after indexing, saving and reloading, with every field value unchanged, lists in dump order, and keyed by its own id or serial number. Ids and serials that the dump does not define are reported missing. The dump's identifier size and timestamp are preserved as well.",
 ["inputs"], "all well-formed dumps: any record order, all field types and values (including the full range of each), empty and long lists, 4- and 8-byte identifiers, identifiers above 2^63",
 "Tests store one record of each kind with all fields equal to 1, so swapped fields, lost zero values and wrong keys cannot be told apart; values of most field types never go through the save/restore path.",
 [BASE, PRIM, PARSER, SMALL], [("record decoders", BASE), ("value decoders per Java type", PRIM), ("maps by id / lists by arrival", SMALL), ("gob serialisation", SMALL)],
 [("underlyingStorage", "all small records", SMALL)], ["SmallRecordsReadStorage getters/listers after SerializeTo/RestoreFrom"])

prop("C04", "The objects report counts every object once, with its exact size",
 "The objects report has exactly one row per class that has instances, per object-array class that has arrays and per primitive element type that has arrays; its count is the number of such objects in the dump, and its size is instance size times count for instances and element size times the total number of elements for arrays. The two totals equal the sums over all rows. Nothing is dropped, merged or counted twice, for any number of objects and segments.",
 ["inputs"], "all well-formed dumps, including empty arrays, zero-size classes, distinct classes of the same name, counts and sizes beyond 2^32",
 "No test computes an objects report from a dump; the report functions have no tests at all and the printer is tested on one literal value.",
 [META, OBJ, PARSER, SIZES], [("per-class/type counters updated while streaming", META), ("row computation", OBJ)],
 [("Counters", "objects and elements per class id / element type", META)], ["neojhat objects --no-color, size and count columns, totals"])

prop("C05", "The objects report is sorted as asked, deterministic, with right percentages",
 "Rows are in descending order of the requested key (count by default, size with --sort-by size) with ties broken by class name, and every run on the same dump prints the same bytes. Each percentage is the row's share of the matching total rounded down, and 0% when that total is zero. The sort marker is on the column sorted by.",
 ["inputs", "configurations"], "all dumps (including ones whose classes all have size zero, or that contain equal names, counts or sizes), both sort keys, repeated runs",
 "Go map iteration order varies from run to run and the test prints one literal three-row table once; ties and zero totals never occur in it.",
 [OOBJ, OBJ], [("sort with name tie-break", OOBJ), ("integer percentages of totals", OOBJ)], (), ["neojhat objects, all sort keys, repeated"])

prop("C06", "The summary's heap section states the dump's real totals",
 "In the summary, Classes is the number of distinct loaded classes, GC Roots the number of root records of every kind in the dump, Instances the number of instances and arrays of every kind, and Heap Size the total size of all of them. Instances and Heap Size agree with the totals of the objects report on the same dump.",
 ["inputs"], "all well-formed dumps, all root kinds, duplicate class loads, any counts and sizes",
 "No test computes a summary from a dump; the printer is tested on literals.",
 [SUM, META, SMALL], [("set of class object ids; sums over counters and root lists", SUM)], (), ["neojhat summary Heap section", "neojhat objects totals"])

prop("C07", "The summary lists every system property of the dumped JVM, and no other",
 "With --all-props the summary lists each key/value pair of the dumped JVM's system properties exactly once, sorted by key, including pairs whose keys share a hash bucket (linked or tree bins) and for any table size. The environment section shows the values of os.name, os.arch, java.home, java.version, java.vm.name/version/info and java.vm.vendor from the same properties, empty where absent.",
 ["inputs"], "all property maps and all shapes of the hash table that holds them (empty slots, chains of any length, tree bins, any capacity), 4- and 8-byte identifiers",
 "No test extracts properties from a dump; whether two keys collide depends on the data.",
 [SUM, HEAP], [("walk of System.props -> map -> table -> nodes", SUM), ("object array read", HEAP)], (), ["neojhat summary --all-props"])

prop("C08", "JVM uptime is the dump's timestamp minus the JVM's start time",
 "The reported JVM uptime is exactly the dump header's millisecond timestamp minus the start time recorded in the dumped JVM's runtime bean, for all timestamps, including those whose low 32-bit half has its top bit set.",
 ["inputs"], "all header timestamps and start times in the representable range, any class layout of the bean",
 "The header test uses one small timestamp and no test reads the start time.",
 [SUM, "internal/core/file_header_parser.go"], [("u4 high/low combination into milliseconds", "internal/core/file_header_parser.go"), ("vmStartupTime field lookup", SUM)], (), ["neojhat summary System section"])

prop("C09", "The thread dump has exactly one entry per thread, with that thread's attributes",
 "The thread report contains exactly one entry for each thread object root in the dump, in ascending order of thread id. Each shows the name, id, priority, daemon flag and state stored in that thread's own object, whatever class in its hierarchy declares the field, whatever subclass of Thread it is, and whatever other threads exist; the state shown is the one Java's Thread.getState gives for the status bits.",
 ["inputs"], "all dumps: any number and order of threads, any status bit combination, any name, ids over the full signed 64-bit range, any class layout and identifier size",
 "No test builds a thread dump from a heap; the printer tests use literals with one thread.",
 [THR, "internal/threads/models.go", OTHR], [("per-root field extraction", THR), ("status bit decoding", "internal/threads/models.go"), ("sort by thread id", OTHR)], (), ["neojhat threads"])

prop("C10", "Each thread's stack lists its own frames, complete and in order",
 "Under each thread the report lists exactly the frames of that thread's stack trace, in stack order, each with its own class, method, argument and return types, source file and line (native and compiled-method markers included). Missing names or source files are shown as unknown or left out without disturbing anything else.",
 ["inputs"], "all stack shapes: empty and deep stacks, frames shared by traces, recursion, unknown sources or lines, any ids and serial numbers",
 "No test resolves frames from a dump.",
 [THR, OTHR, FMT], [("trace by thread serial, frames by id, class by serial", THR), ("frame rendering", OTHR)], (), ["neojhat threads"])

prop("C11", "Local variables are shown at the right thread and frame with the right type",
 "With --local-vars each object held by a stack frame (Java local or JNI local) is listed under exactly that thread and that frame, once per root record, with its real type: class name for instances, element type and dimensions for arrays, 'class X' for class objects. Without the option no locals are shown and the rest is unchanged.",
 ["inputs"], "all distributions of locals over threads and frames, all kinds and types of object referenced, any identifiers",
 "No test attributes locals; printer tests use literals.",
 [THR, OTHR], [("locals grouped by thread serial and frame number", THR), ("type lookup by kind of record", THR)], (), ["neojhat threads --local-vars"])

prop("C12", "Field lookup reads the right bytes with the right type through any hierarchy",
 "Reading a field of an object by name returns the value stored in that object for the field declared in the most derived class having that name, together with the declaring class; own fields come before inherited ones, every Java type is decoded from its exact width, and a name no class of the hierarchy declares is reported missing. Object arrays are read completely and in order for both identifier sizes.",
 ["inputs"], "all class hierarchies (depth, field order, all nine types, shadowed names, empty classes), all payload bytes, identifier sizes 4 and 8",
 "One test hierarchy with two fields and 8-byte ids is exercised.",
 [HEAP, SIZES, PRIM], [("offset accumulation along the class chain", HEAP), ("typed decode at the offset", PRIM)], (), ["Heap.ParseNormalObject + GetFieldValueByName", "Heap.ParseObjectArrayFull"])

prop("C13", "Java strings are shown with their real text",
 "Wherever a Java string of the dumped JVM is shown (thread names, property keys and values), the text printed is the UTF-8 form of that string's characters, for Latin-1 and UTF-16 coded strings, any length including empty, and any characters.",
 ["inputs"], "all strings over all Unicode characters in both codings, any field order of the string class, both identifier sizes",
 "One ASCII string whose class has no coding field is tested.",
 [HEAP], [("value/coder decoding", HEAP)], (), ["neojhat threads names", "neojhat summary --all-props"])

prop("C14", "A truncated dump is always refused",
 "Given any dump that ends before the end of its heap dump - cut at any byte, at or inside any record - indexing fails with an error and non-zero exit, no report is printed, and nothing is left behind that would make a later run treat the truncated dump as indexed.",
 ["inputs", "crash_points"], "every well-formed dump and every proper prefix of it (length 0 to n-1), all sub-commands, repeated runs on the same truncated file, and completion of the file afterwards",
 "No test feeds a truncated dump.",
 [PARSER, BASE, SUB], [("io.ReadFull/Discard errors propagated", PARSER), ("index publication only after success", SUB)], (), ["ParseHeapDump result on every prefix", "neojhat exit status on truncated files, twice"])

prop("C15", "Malformed dumps are refused with an error; well-formed ones are accepted",
 "A dump whose header, identifier size, record tag, record length (of names, classes, frames and traces), sub-record kind, field or array element type, or object order is not valid is refused with an error and non-zero exit, never by a crash, a hang or a report computed from misread data. Every dump made only of the records that HotSpot JVMs write (names, loaded classes, frames, traces, then heap dump segments with every standard GC root kind, and the end mark), whatever their order and contents, is accepted.",
 ["inputs"], "all byte strings near the format: every invalid value at every structural position of every dump; all well-formed dumps",
 "Tests feed only valid bytes to the indexer.",
 [PARSER, BASE, PRIM, SIZES, "internal/core/file_header_parser.go"], [("tag dispatch with default error", PARSER), ("type and length validation", BASE)], (), ["ParseHeapDump result", "neojhat exit status"])

prop("C16", "A crash during indexing never spoils a later run",
 "If the tool is killed at any instant while it is indexing a dump, a later run of any sub-command on that dump completes with the same report as a first run would give. No state left by the killed run is ever taken for a complete index.",
 ["crash_points", "histories"], "all kill points (before/after every system call of the run), all sub-commands, any number of successive crashes",
 "Tests never run the indexing command, and none kill it.",
 [SUB], [("index built in a private temporary directory, renamed into place, marker file last", SUB)],
 [("<dump>.db/source.txt", "its presence, naming this dump, means the index beside it is complete", SUB)], ["strace-injected SIGKILL at every file system call, then re-run"])

prop("C17", "Concurrent runs on one dump all give the right answer",
 "Any number of runs started at overlapping times on the same dump, with no index yet or with one, each complete successfully with exactly the report a lone run would give, and leave one complete index.",
 ["schedules"], "all interleavings of the file system steps of two or more runs, same or different sub-commands, also with one of them killed",
 "Tests are single-process and never run the commands.",
 [SUB], [("private build, rename into place, marker file last", SUB)], (), ["several neojhat processes with injected delays/stops at every file system call"])

prop("C18", "A failed read, write or other I/O error is reported, never a false success",
 "If any system call that creates, writes, closes-with-data or publishes the index, reads the dump or index, or writes the report fails, the run either still produces the correct complete report or exits non-zero with an error. A failed run leaves nothing that makes a later run, with the fault gone, give anything but the correct report.",
 ["fault_sequences", "histories"], "every fallible call of every sub-command and output mode failing with disk full, I/O or permission errors, at first or later occurrences; report output to a full device",
 "No test injects an I/O error.",
 [SUB, BIG, IDX, PARSER, OOBJ, OTHR, OSUM], [("errors of flush/close propagated", PARSER), ("publication only after success", SUB)], (), ["strace fault injection, then re-run without faults", "/dev/full"])

prop("C19", "Cached index and fresh index give identical reports, also after the dump changes",
 "A run that reuses an existing index prints byte-for-byte what a run that had to build it prints, for every sub-command, option and order of runs. When the dump file has been replaced or completed since the index was built, the next run reports on the current contents, never on the old ones.",
 ["histories", "configurations"], "all sequences of runs (sub-commands, options) and replacements of the dump between them",
 "Tests never run two commands on one dump.",
 [SUB, SMALL, META], [("index reuse test", SUB), ("serialise/restore", SMALL)], (), ["histories of neojhat runs and file replacements"])

prop("C20", "Runs only ever add the index directory, and exit 0 means a full report",
 "No run ever changes the dump file or any other file than the index directory beside it; after it ends, nothing but the dump and the index directory is there, and the run leaves no temporary files in it. Exit status 0 of a sub-command given a dump means the complete report and nothing else is on standard output; on any failure the status is non-zero and the reason is printed.",
 ["inputs", "configurations", "histories"], "all sub-commands and options, valid, truncated, malformed, missing or unreadable dumps, read-only directories, any path to the dump",
 "Tests never run the program.",
 [SUB, "cmd/neojhat/main.go", "internal/cmd/flags.go"], [("errors -> message and exit 1", "cmd/neojhat/main.go"), ("index beside the dump", SUB)], (), ["directory snapshots around neojhat runs", "exit status and stdout"])

prop("C21", "Plain, color and HTML outputs carry the same content",
 "For every sub-command, the color output without its color codes and the HTML output's text show the same rows, values and order as the plain output. In HTML every piece of dump-supplied text is escaped, so no name, property or type from the dump can introduce markup. No option changes which rows or values are shown beyond what it documents.",
 ["inputs", "configurations"], "all reports; names and values containing any characters, including markup, quotes, percent signs, spaces and non-ASCII text",
 "Three literal reports are compared with golden files.",
 [OOBJ, OTHR, OSUM, "internal/output/templates"], [("one print model for all outputs", OOBJ), ("html/template escaping", "internal/output/templates")], (), ["neojhat <cmd> in all three output modes"])

prop("C22", "JVM type descriptors, class names and sizes are rendered correctly",
 "Every JVM method descriptor is shown as its argument types in order and its return type, and every class or array name as its Java source form with the right element type and dimensions, dots for slashes; sizes are shown in B, K, M or G, rounded down, switching at 1024. No valid descriptor is ever mangled, whatever characters the class names in it contain.",
 ["inputs"], "all valid field and method descriptors (any nesting, dimensions, class names with any legal character), all sizes from 0 to 2^63-1",
 "Five descriptors and four sizes are tested.",
 [FMT, OTHR], [("descriptor scanner", FMT), ("size thresholds", FMT)], (), ["format.Signature/ClassName/Size", "thread and objects reports"])

prop("C23", "Progress display is confined to stderr, bounded, and never breaks a run",
 "While indexing interactively, progress is shown only on standard error, as the percentage of the dump that has been read so far (not ahead of that by more than the item being read, nor behind by more than what is buffered), between 0 and 100, never decreasing, with a matching bar of fixed width, and it is erased before the program goes on or fails, after which nothing more is written there. With --non-interactive nothing is written to standard error. The display never crashes or blocks a run, whatever the dump's size, even if it is empty, truncated or grows.",
 ["inputs", "schedules", "configurations"], "all dumps and file sizes, all timings of the display relative to the indexing, success and failure, interactive or not",
 "No test covers the progress display; it depends on timing.",
 ["internal/cmd/interactive_print.go", SUB], [("ticker goroutine with cancel", "internal/cmd/interactive_print.go"), ("bar from position and size", "internal/cmd/interactive_print.go")], (), ["stderr of neojhat under slowed reads"])

prop("C24", "Indexing memory is bounded independently of heap object count and payload",
 "While indexing, no more than one batch of pending index entries per object kind is held in memory before being written out, and object payloads are skipped rather than held, so memory does not grow with the number of objects or with the size of their payloads; only names, classes, stacks and roots are kept.",
 ["inputs"], "all dumps: any number of objects beyond several batches, any payload size",
 "Tests index a 487-byte dump.",
 [IDX, PARSER, BIG], [("batch flush at limit", IDX), ("Discard of payloads", PARSER)],
 [("curBatch", "pending entries", IDX)], ["sizes and timing of writes to the index", "allocation during ParseHeapDump on generated streams"])

prop("C25", "The command line does what its arguments say, whatever their order",
 "What a run does follows from its sub-command and the last value given for each option, in whatever order and spelling (-name or --name, value after = or as the next argument, switches with or without a boolean value): it reports on the dump the --hprof path denotes, in the form (plain, color, html), the order (--sort-by) and the extent (--local-vars, --all-props) asked for. An unknown option, a missing value or a value the option does not take is refused with a message and a non-zero status before anything is touched. Without a dump the usage of the sub-command, without a known sub-command the help of the program is printed, naming exactly the options there are, and nothing is touched.",
 ["inputs", "configurations"], "all argument lists of the three sub-commands, any number and order of options, any path to a dump (relative, through links, starting with a dash, with blanks and non-ASCII characters)",
 "Tests never run the program with arguments.",
 ["internal/cmd/flags.go", "cmd/neojhat/main.go", "internal/objects/models.go"], [("flag sets per sub-command", "internal/cmd/flags.go"), ("value checks of --output and --sort-by", "internal/objects/models.go"), ("dispatch", "cmd/neojhat/main.go")], (), ["neojhat with generated argument lists"])

prop("C26", "Plain and color reports line up, and colors end with their line",
 "In the plain and color forms every row of the objects table has its column separators in the same character columns as the header, the rule below the header is exactly as wide, names are flush left, counts and sizes flush right, with blanks between text and separators, whatever the lengths of names and numbers. All values of a summary start in the same column (for ASCII keys). In the thread dump each thread's line is at the margin, all frames are indented alike and all locals alike and deeper, and one empty line ends each thread. In color every color that is switched on is off again at the end of the line; plain output has no escape sequences.",
 ["inputs", "configurations"], "all dumps (names of any length and of any characters, any counts and sizes, no rows at all), plain and color forms of every sub-command and its options",
 "The tests print tables of a few literal rows, all shorter than most real names.",
 [OOBJ, OSUM, OTHR, "internal/output/colors.go"], [("two-pass column widths", OOBJ), ("key width", OSUM), ("indentation", OTHR)], (), ["stdout of neojhat in plain and color form"])

prop("C27", "Every HTML report is one complete, well-formed, self-contained document",
 "Each HTML report starts with the doctype and has exactly one html, head, title (not empty) and body; every element it opens is closed, in order, nothing but blanks follows the end, and elements stand only where HTML allows them (rows in tables, cells in rows, text in cells or paragraphs, no paragraph in another). Every row of a table has as many columns as its first row. It contains no scripts and refers to nothing outside itself. This holds for every dump, also for missing names or locations, empty values, threads without frames, and reports without any rows.",
 ["inputs", "configurations"], "all dumps and all sub-commands and options with --output html; names that look like markup, empty and missing names, empty reports and very long ones",
 "The tests compare a few literal documents; branches of the templates depend on the data.",
 ["internal/output/html.go", "internal/output/templates/core.html", "internal/output/templates/threads.html", "internal/output/templates/summary.html", "internal/output/templates/objects.html", OOBJ, OSUM, OTHR], [("templates with branches and loops", "internal/output/templates")], (), ["stdout of neojhat --output html"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
