#!/usr/bin/env python3
"""Regenerates properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

CL, RG, MT, BW, MM = "client.go", "registry.go", "metrics.go", "bytewriter/bytewriter.go", "bytewriter/memorymappedwriter.go"

p("P01", "Publication is atomic for outside readers and crashes",
  "At every instant, and whatever instant the publishing process dies at, a reader that follows the MMV protocol (magic and version present, both generation numbers equal and non-zero) finds at the client's file location either no readable file or a file that is already complete: every section is present, every cross-reference resolves, and it describes exactly what was registered. A file whose writing is still in progress is never accepted as complete.",
  ["schedules", "crash_points"], "all interleavings of the goroutines that write the file, all registry contents, and every instant (each single change of the mapped bytes) between the creation of the file and the end of the process",
  "The tests only look at the file after Start has returned; no test looks at it while it is being written, kills the process, or controls the order of the writer goroutines.",
  [CL, BW, MM], [("second generation number written last", CL+":start"), ("wait for all section writers before commit", CL+":start"), ("file replaced, not rewritten", MM+":NewMemoryMappedWriter")],
  [dict(name="generation 1 / generation 2", meaning="equal and non-zero exactly when the file is complete", where=CL+":writeHeaderBlock")],
  ["bytes of the mapped file at every change"])

p("P02", "A started client's file describes exactly what is registered",
  "Starting a client that is not active succeeds for every registry content unless a file operation fails, and whenever it reports success the file contains exactly one entry for every registered metric, instance domain and instance, and one value per metric or per metric instance, with the registered names, identifiers, types, semantics, units, help texts, flags and current values, and nothing else. Entries lie inside the announced, non-overlapping sections, their cross-references point at the right entries, the file size is the length the client announces, and the format version is the one the name lengths need; this holds for every registry content and every order in which the file's parts are written, including after stop, further registration and restart.",
  ["schedules", "inputs", "histories"], "all registries (names up to the limits, empty instance domains, shared instance domains, all metric kinds and types, help texts), all writer-goroutine interleavings and map orders, and all start/stop/register histories",
  "The tests fix a handful of registries and see only the goroutine and map orders the Go runtime happens to pick; offsets are handed out by racing goroutines, so a collision shows in few orders only.",
  [CL, RG, MT], [("offset hand-out through single-token channels", CL+":writeInstanceDomain, writeMetricDesc, writeValue"), ("length and toc computation", CL+":Length, tocCount"), ("instance offsets recorded before metrics are written", CL+":writeInstance")],
  [dict(name="section offsets", meaning="where each block of the file starts", where=RG+":PCPRegistry")], ["parsed file after Start returns"])

p("P03", "Every acknowledged update reaches the published file",
  "While a client is active, once an update of a metric has returned successfully an outside reader of the file sees that update or a later one, in-process reads and outside reads together are consistent with one single order of the updates, and when no update is in progress the published value equals the value the metric reports. This includes updates that run concurrently with starting the client: none of them is lost or left stale in the file.",
  ["schedules", "histories"], "all interleavings of concurrent updates of the same and different metrics with each other, with readers and with Start, over all metric kinds and numeric types",
  "The tests update metrics from one goroutine, after Start, and read the buffer afterwards; no test runs an update while the client starts or two updates at once.",
  [MT, CL], [("file written before the in-memory value, under the metric's lock", MT+":set, setInstance"), ("initial value written and update hook installed", CL+":writeSingletonMetric, writeInstanceMetric")],
  [dict(name="value slot", meaning="published value of one metric or instance", where=CL+":writeValue")], ["value slots at every change", "Val / ValInstance results"])

p("P04", "Outside readers never see torn or foreign values",
  "While a client is active, a numeric value in the file is at every instant a value that the metric actually had (never a mixture of two values), a string value is at every instant the old text, the new text or a prefix of the new text, and an update of one metric or instance changes no byte that belongs to another value, string, name or description. All descriptive content of the file stays unchanged for as long as the client stays active.",
  ["schedules", "inputs"], "every instant of every update, all interleavings of updates of different metrics, all values and string lengths",
  "The tests read the buffer only between operations, so a half-written value is never observed, and never use strings that reach the end of their slot.",
  [BW, MT, CL], [("value written to its slot", BW+":Write"), ("string slot cleared then written", MT+":newupdateClosure"), ("length limits of strings", MT+":IsCompatible, newpcpMetricDesc")],
  [], ["mapped bytes at every change"])

p("P05", "Concurrent metric operations behave as if executed one at a time",
  "For any set of goroutines using the same singleton, instance, counter, gauge, counter-vector or gauge-vector metric, the results of all operations (values read, errors returned) are those of executing them one after another in an order consistent with real time, against the obvious sequential meaning of set, increment, decrement and read. In particular no increment is lost or applied twice, a rejected operation leaves the value unchanged, and operations on one instance never affect another instance.",
  ["schedules", "histories", "inputs"], "all interleavings of 2 to 5 callers, all mixes of operations, valid and invalid arguments, before, during and after the client is active",
  "The tests call each operation from one goroutine; concurrency appears in no metrics test.",
  [MT], [("metric lock around read-modify-write", MT+":Inc, Set, SetInstance, Val"), ("type check before any effect", MT+":set, setInstance")],
  [], ["operation results"])

p("P06", "Counters never go backwards",
  "The value of a counter, and of each instance of a counter vector, never decreases over time, neither for in-process readers nor for outside readers of the file, whatever mixture of concurrent, failing, negative or overflowing updates is applied and across stopping and restarting the client. An update that would decrease it is refused with an error and has no effect.",
  ["schedules", "inputs", "histories"], "all interleavings of counter operations including attempts to set lower values, negative and overflowing increments, and restarts of the client",
  "The tests check a decreasing Set from one goroutine; two concurrent Sets, an overflow, or a reader that samples during the byte-wise write are not covered.",
  [MT, BW], [("comparison with the current value under the lock", MT+":PCPCounter.Set, PCPCounterVector.Set"), ("negative increments refused", MT+":Inc")],
  [], ["Val results", "counter value slots at every change"])

p("P07", "Histograms count every recorded value exactly once",
  "After any set of concurrent record operations, the histogram's minimum, maximum, mean, variance, standard deviation, percentiles and buckets are those of exactly the multiset of values whose recording succeeded, each counted once, and the published statistics equal them; a refused value changes nothing. A percentile or bucket listing taken while others record reflects one consistent set of recorded values, and the configured lowest and highest values are reported as configured.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent record, batch-record and query operations, with values inside and outside the configured range, before and while the client is active",
  "The only test records 5050 values from one goroutine and queries at the end.",
  [MT], [("histogram lock around record and statistics update", MT+":Record, RecordN, update"), ("statistics published through the instance metric", MT+":PCPHistogram.update")],
  [], ["Mean, Variance, Min, Max, Percentile, Buckets", "file values"])

p("P08", "Timers accumulate exactly the elapsed time",
  "A timer's value is at all times the sum, in its unit, of the elapsed times between its successful starts and the matching stops since the last reset, independent of any jump of the wall clock. Of concurrent starts (stops) exactly one takes effect per period; starting a running timer, stopping a stopped one or resetting a running one fails without changing anything, and stop returns the accumulated value that is also published.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of start, stop and reset by several callers, all units, elapsed times from nanoseconds to days, and wall-clock jumps in either direction at any instant",
  "The only test sleeps one second in one goroutine; no test moves the clock or races two callers.",
  [MT], [("started flag and start time under the timer's lock", MT+":PCPTimer"), ("monotonic clock reading", MT+":PCPTimer.Stop")],
  [], ["Stop results", "file value"])

p("P09", "Registration is atomic and at most once per name",
  "Of any number of concurrent or successive registrations of the same metric or instance-domain name exactly one succeeds and the others return an error without any effect; a registration that fails for any reason leaves the registry as it was. The counts of metrics, values, instance domains, instances and strings that the registry reports always equal those of the set of successfully registered objects, and a metric is never accepted against an instance domain that differs from the registered one of the same name.",
  ["schedules", "histories", "inputs"], "all interleavings of registrations (by object, by string, instance domains on their own) of equal and different names by several callers, including invalid ones",
  "The tests register from one goroutine; check-then-act windows between the presence test and the insertion are never hit.",
  [RG], [("presence check and insertion", RG+":AddMetric, AddInstanceDomain"), ("counts maintained with the insertion", RG+":addMetric"), ("instance-domain match", RG+":addInstanceMetricByString")],
  [dict(name="counts", meaning="number of values, instances and strings the file is sized for", where=RG+":PCPRegistry")], ["registration results", "counts", "published file"])

p("P10", "The registered set is frozen while a client is active",
  "While a client is active, every attempt to register a metric or instance domain or to change its flags fails without effect. A registration that runs concurrently with starting the client either is part of the file being published or fails; one that succeeds is never missing from the file, and starting never fails, crashes or publishes a damaged file because of it; after the client is stopped registration works again and the next start publishes it.",
  ["schedules", "histories"], "all interleavings of registrations and flag changes with Start and Stop from several callers",
  "One test registers after Start in the same goroutine; a registration that overlaps Start is not covered.",
  [CL, RG], [("active flag checked by registration", RG+":AddMetric, AddInstanceDomain"), ("active flag set by Start", CL+":Start"), ("flag change refused while active", CL+":SetFlag")],
  [dict(name="active flag", meaning="a mapping exists, registry frozen", where=RG+":mapped")], ["registration results against file content"])

p("P11", "Start and stop calls take effect one at a time",
  "For any concurrent or successive calls, starting and stopping a client act as an atomic two-state switch: stopping a stopped client fails without effect, starting an already active client fails without effect on the published file, and exactly when the client is active its file is present, complete and being updated. After any history, a final start on a stopped client publishes again and a final stop leaves it stopped.",
  ["schedules", "histories"], "all interleavings of Start, Stop, registration and updates from several callers",
  "The tests start and stop each client once from one goroutine.",
  [CL], [("client lock", CL+":Start, Stop"), ("active flag", CL+":Start, Stop")],
  [], ["Start/Stop results", "file"])

p("P12", "A failed start leaves a clean, restartable client",
  "If a file operation that starting needs fails (no permission, no space, short write, no descriptors, mapping refused, stale file not removable), the start returns an error and does not panic, the client stays stopped with its registered content and metric values intact, no file that readers would accept appears, and no file handle or mapping is left open. Once the fault has gone, a further start succeeds and publishes the complete file.",
  ["fault_sequences", "crash_points"], "every file operation of Start failing with every applicable error, singly and in sequences, at first start and at restart, with updates and registrations in between",
  "No test makes a file operation fail.",
  [CL, MM], [("error returns of the file set-up", MM+":NewMemoryMappedWriter"), ("active flag only set on success", CL+":Start")],
  [], ["Start results", "open handles and mappings", "file system"])

p("P13", "Stopping is safe for concurrent and later updates",
  "Updating or reading any metric concurrently with stopping a client, or after it has stopped, never crashes the process and never touches the released mapping; such updates succeed, are kept, and are published by the next start. After a stop the file is gone if erasing was requested and otherwise remains a complete file holding the values last published.",
  ["schedules", "histories"], "all interleavings of updates of every metric kind with Stop and with later restarts, with and without erasing",
  "No test updates a metric after or during Stop.",
  [CL, MT, MM], [("mapping released on Stop", MM+":Unmap"), ("update hooks held by the metrics", MT+":newupdateClosure"), ("erase on stop", CL+":Stop")],
  [], ["process survival", "file after Stop", "file after restart"])

p("P14", "Restart after a crash always recovers",
  "After the publishing process dies at any instant, a new process using the same client name and registrations starts successfully, whatever the dead process left behind, and publishes a complete file with its own values and the same identifiers for the same metrics, instance domains and instances. A reader that still holds the old file open never sees its content change through the new process: the old file is replaced, not rewritten.",
  ["crash_points", "fault_sequences"], "every instant of the previous process's start, updates and stop, repeated crashes, and leftover files of any content",
  "No test kills the process or starts over a leftover file.",
  [MM, CL], [("stale file removed, new file created exclusively", MM+":NewMemoryMappedWriter"), ("identifiers derived from names", "speed.go:hash")],
  [], ["new process's Start result and file", "old inode's bytes"])

p("P15", "Clients in one process do not disturb each other",
  "Any number of clients with different names and registries in one process, started, updated and stopped concurrently, each publish exactly their own content, as if each were alone, also when they publish the same instance domain, such as the one shared by all histograms. Starting or stopping one client never affects the file, the values or the identifiers of another.",
  ["schedules", "histories"], "all interleavings of Start, Stop and updates of 2 to 3 clients with private and shared instance domains",
  "Every test uses one client at a time.",
  [CL, "instance.go", "speed.go"], [("instance offsets stored in the shared instance", CL+":writeInstance"), ("global histogram instance domain", "speed.go:init")],
  [dict(name="instance offset", meaning="where an instance was written, kept in the instance object shared between clients", where="instance.go")], ["each client's file"])

p("P16", "The dump reader accepts exactly complete files and reads them right",
  "Dumping the bytes of a published file, taken at any instant and under any interleaving of the reader's own goroutines, either reports an error or returns exactly the header, sections, metrics, values, instances, instance domains and strings that are in the file. It reports an error for every file whose publication was not yet complete, accepts every completely published one, and gives the same result for the same bytes every time; rendering the result twice gives the same text.",
  ["schedules", "crash_points", "inputs"], "every instant of the writer, all interleavings of the reader's goroutines, all registries, both format versions",
  "The tests dump five stored files and finished buffers only, in whatever goroutine order occurs.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go", "mmvdump/pcp.go"], [("generation check", "mmvdump/mmvdump.go:readHeader"), ("parallel section readers", "mmvdump/mmvdump.go:readComponents, readItems")],
  [], ["Dump results against an independent parser"])

p("P17", "The dump reader survives torn and corrupted files",
  "For any byte content, in particular a file truncated, torn, partly zeroed or with stored bytes flipped at any position, dumping it and rendering the result terminates, without crashing, hanging or using resources out of proportion to the file, and dumping yields either an error or exactly the items that the file's table of contents announces, as they are stored at the announced places inside the file; a section that does not fit in the file makes it an error.",
  ["fault_sequences", "inputs", "schedules"], "every truncation, torn page and single or multiple byte flip of files produced by real clients, and all interleavings of the reader's goroutines",
  "The tests dump five intact files.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go"], [("length checks before each access", "mmvdump/mmvdump.go:readToc, readItems"), ("references followed while rendering", "mmvdump/writer.go")],
  [], ["Dump / Write outcome"])

p("P18", "Rendering a dump reports every write failure",
  "Rendering a dump to an output either delivers the complete text and succeeds, or returns an error; if the output fails, or accepts fewer bytes than offered, at any point, rendering stops, returns that failure and everything delivered before it is a prefix of the complete text.",
  ["fault_sequences", "inputs"], "an output failing or accepting a short write at every write call, for files of both format versions",
  "The tests only render to a memory buffer that never fails.",
  ["mmvdump/writer.go"], [("error of each formatted write propagated", "mmvdump/writer.go:Write, writeComponents")],
  [], ["text delivered, error returned"])

p("P19", "Concurrent use of the API is free of data races",
  "Any concurrent use, from several goroutines, of one client's, registry's or metric's operations, and of the dump reader, causes no unsynchronised conflicting accesses to shared memory inside the library: any two conflicting accesses are ordered by synchronisation.",
  ["schedules", "histories"], "all interleavings of all pairs of public operations on clients, registries, all metric kinds, writers and the dump reader",
  "The tests are single-threaded and CI's race detector can only report accesses that a test performs concurrently.",
  [CL, RG, MT, "mmvdump/mmvdump.go"], [("metric, registry and client locks", MT+", "+RG+", "+CL), ("goroutine joins in Start and Dump", CL+":start, mmvdump/mmvdump.go:readItems")],
  [], ["happens-before order of memory accesses"])

p("P20", "Every call terminates and nothing is leaked",
  "Under every interleaving, every call on clients, registries, metrics and the dump reader returns after a bounded number of steps, without deadlock, once injected stalls end. When a client is stopped, everything its activity acquired is released: no goroutine started by the library is left, and no file handle or mapping stays open.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of all public operations over start/stop cycles, with stalled file operations",
  "A deadlock or leaked goroutine shows only under particular interleavings; no test counts goroutines, handles or mappings.",
  [CL, MM, "mmvdump/mmvdump.go"], [("offset tokens put back", CL+":writeInstance, writeMetricDesc, writeValue"), ("header hand-shake order", CL+":writeHeaderBlock, start"), ("handle and mapping released", MM+":Unmap")],
  [], ["blocked goroutines", "open handles and mappings"])

p("P21", "The file location follows the configuration or falls back cleanly",
  "A client's file is placed in the mmv directory below the temporary directory that the PCP configuration names, relative to the PCP root, when the configuration can be read completely, and below the system temporary directory otherwise; a missing, unreadable or only partly readable configuration never yields any other location, a crash or an unusable client. A client name that would leave that directory is refused, and no handle on the configuration stays open.",
  ["fault_sequences", "configurations", "inputs"], "all configuration contents and environments, and read failures or truncations at every position of the configuration file",
  "The tests run with whatever configuration the machine has; no test makes reading it fail.",
  ["config.go", CL], [("configuration read at start-up", "config.go:initConfig"), ("location computed from it", CL+":mmvFileLocation")],
  [], ["path of the created file"])

p("P22", "The byte writer confines every write to its range",
  "Concurrent writes to disjoint ranges of one writer never disturb each other: afterwards every range holds exactly the encoding of what was written to it and every other byte is unchanged. A write that does not fit entirely inside the block, whatever its offset, is refused with an error and changes no byte, and a successful write returns the offset just behind the written bytes.",
  ["schedules", "inputs"], "all interleavings of writes of all value kinds by several callers, at all offsets including negative, out-of-range and overflowing ones",
  "The tests write single values at valid offsets from one goroutine, and one overflow.",
  [BW, MM], [("bounds check before copying", BW+":Write")],
  [], ["buffer bytes", "returned offsets and errors"])

p("P23", "The rendered dump tells exactly what the file holds",
  "Rendering the dump of a complete file, whichever client, history and interleaving of the reader's goroutines produced it, gives a text that states the header, every section and every entry of the file exactly once and in the file's own order, with the offsets, numbers, names, types, semantics codes, units, instance domains, help texts, instance names and values that the file holds; the values are formatted as the type of their metric demands, and units as their dimensions and scales.",
  ["inputs", "histories", "schedules"], "all files of both format versions that clients publish, with any value of every type and any combination of units, flags and texts in them, read by several concurrent readers",
  "The tests compare five stored files with stored texts; other types, units, instance domains, versions and values are never rendered.",
  ["mmvdump/writer.go", "mmvdump/pcp.go", "mmvdump/mmvdump.go"], [("entries located and formatted", "mmvdump/writer.go:writeComponents"), ("units decoded", "mmvdump/pcp.go:Unit.String"), ("values decoded", "mmvdump/mmvdump.go:FixedVal")],
  [], ["rendered text against an independent renderer"])

p("P30", "Composite units encode dimension and scale faithfully",
  "Composing space, time and count units with dimensions between -8 and 7 yields a unit whose encoding and textual form give back exactly those dimensions and scales.",
  ["inputs"], "all unit compositions", "The test composes three units.",
  [MT, "mmvdump/pcp.go"], [("bit packing", MT+":Space, Time, Count")])

p("P31", "Value typing accepts exactly the representable values",
  "A value is accepted for a metric type exactly if the type can represent it, and the accepted value is stored without changing its meaning; a registration string is split into metric, instance domain and instances as the documented grammar says.",
  ["inputs"], "all values and registration strings", "The tests list some values and strings.",
  [MT, RG], [("compatibility test", MT+":IsCompatible, resolve"), ("registration grammar", RG+":parseString")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
