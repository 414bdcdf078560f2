#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
SD = "crates/stream-download/src/"
OD = "crates/stream-download-opendal/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})
SRC, LIB, HND = SD+"source/mod.rs", SD+"lib.rs", SD+"source/handle.rs"
BND, MEM, TMP, ADP = SD+"storage/bounded.rs", SD+"storage/memory.rs", SD+"storage/temp.rs", SD+"storage/adaptive.rs"
HTTP, RC, RM = SD+"http/mod.rs", SD+"http/reqwest_client.rs", SD+"http/reqwest_middleware_client.rs"
PRC, CB, FF, YT = SD+"process/mod.rs", SD+"process/command_builder.rs", SD+"process/ffmpeg.rs", SD+"process/yt_dlp.rs"
REG, MAT, SET, AR = SD+"registry/mod.rs", SD+"registry/matcher.rs", SD+"settings.rs", SD+"async_read.rs"

p("P01", "Bytes are announced as available only after they were stored",
  "Whenever the download newly marks positions of the stream as available to readers, each of them has already been accepted by the storage since the download last jumped to another position, and the storage was flushed after the last of those writes. Nothing is ever marked available that was only received, only requested, or written before the last jump at a different place.",
  ["schedules","inputs","histories"], "every chunking, every partial write of the storage, every interleaving of seeks, prefetch phases and reconnects",
  "The tests sample a few chunk sizes and seek orders; a range announced one write too early is only visible when the reader wins a race against the writer.",
  [SRC, HND], [("announcement of ranges after flush", SRC), ("set of available ranges", HND)],
  [("available ranges", "positions a reader may read without waiting", HND)], ["Read for StreamDownload"])
p("P02", "A read never returns bytes from positions that were not downloaded",
  "The reader asks the storage for bytes only when every position the storage may return, up to the end of the known content length, is known to be available at that moment. When only a part of the requested range is available once the download has ended, the read is shortened to that part; if nothing is available at the read position although later positions are, it fails instead of reporting the end of the stream.",
  ["schedules","inputs","histories"], "every read size, position, content length and order of earlier seeks, with the download at any point",
  "The tests read mostly sequentially; returning bytes from a hole left by an earlier seek needs a particular history of seeks and timing.",
  [LIB, HND], [("check of the available range before the fast path", LIB), ("loop that waits until the range has no gap", LIB)], (), ["Read for StreamDownload"])
p("P03", "Transport position and storage position always agree",
  "After the transport was asked to continue from a new position, the next thing done to the storage is to move its writer to exactly that position, before any byte is written; the writer is never moved otherwise. A reconnect asks the transport for the first position that has been neither written nor held back for writing.",
  ["schedules","inputs","histories","fault_sequences"], "every sequence of seeks, gaps, stalls and reconnects",
  "Tests use one or two seeks against well-behaved servers; misplacement needs a seek or reconnect while bytes are waiting to be written.",
  [SRC], [("seek helper that pairs both moves", SRC), ("reconnect position", SRC)], (), ["storage contents", "SourceStream::seek_range", "SourceStream::reconnect"])
p("P04", "Every received byte is written once, in order, and none is dropped",
  "Between two jumps of the transport, the bytes handed to the storage are exactly the bytes of the received chunks in the order of arrival: a partially accepted chunk is continued where the storage stopped, its unwritten rest precedes the next chunk, and the download does not finish while received bytes are still unwritten. After a jump, bytes received before it are not written any more.",
  ["inputs","histories"], "every chunking and every pattern of short or zero-length writes of the storage, in and out of the prefetch phase",
  "The tests' storages almost never write partially, so the leftover path, in particular at the edge of prefetch and at end of stream, is sampled at a few sizes.",
  [SRC], [("write loop", SRC), ("leftover bytes", SRC)], [("leftover bytes", "received but not accepted by the storage yet", SRC)], ["storage contents"])
p("P05", "Transport requests are well formed and never sent to unseekable sources",
  "A request to move the transport is only made if the source reported that it supports seeking. The requested start never lies behind the requested end, the end never exceeds the known content length, and with a known content length the request is always bounded.",
  ["inputs","histories"], "every seek target, every set of already available ranges, known and unknown content length",
  "The failing cases depend on which ranges are already available at the time of the seek, which the tests only sample.",
  [SRC, LIB], [("range selection for seeks", SRC), ("search for the next gap", SRC), ("clamping of the seek target", LIB)], (), ["SourceStream::seek_range"])
p("P06", "Every end of the download wakes blocked readers",
  "However the download task ends (completed, failed, cancelled at any point), it marks the stream as done under the lock the readers wait with and wakes all waiting readers, and if the source reports an error at the end, the failure is recorded before the final marking (a download that delivered everything may mark the stream as done before the source's finish handler has returned). Readers stop waiting as soon as the stream is done and never start waiting after it.",
  ["schedules","fault_sequences"], "every exit path of the download task and every interleaving with readers that are about to wait",
  "A missed wake-up on one error or cancellation path shows up as a hang in a rare schedule; the tests exercise a handful of exits.",
  [SRC, HND], [("completion signal", SRC), ("wait predicate", HND)], [("done flag", "set once, never cleared", HND)], ["Read/Seek for StreamDownload"])
p("P07", "A failed download is reported to the reader, never passed off as data or end",
  "Once the source reported an unsuccessful outcome, every read and every seek that starts afterwards returns an error, and one that was waiting for the download returns an error as soon as it is woken. The outcome handed to the source is success exactly when the download completed, an interruption when it was cancelled, and otherwise the original error; it is handed over exactly once.",
  ["schedules","fault_sequences"], "every point at which storage, transport or user cancellation can end the download, every operation in flight at that time",
  "The tests inject failures at a few fixed points; an unchecked wake-up returns stale storage contents only when the failure hits while a reader waits.",
  [LIB, SRC], [("failure check on entry and after waiting", LIB), ("finish handler", SRC)], [("failed flag", "set if the finish handler returns an error", HND)], ["Read/Seek for StreamDownload", "SourceStream::on_finish"])
p("P08", "Completion handles resolve only after the download task is really over",
  "The token behind a completion handle is triggered only by the download task itself, on every path and after the source's finish handler has returned. Requesting cancellation, dropping the reader, and user callbacks cannot trigger it.",
  ["schedules"], "every interleaving of cancellation, drop, completion and waiting handles",
  "Whether the handle resolves early is only visible when the finish handler is slow; tests do not control that.",
  [LIB], [("separate finished token", LIB)], (), ["StreamHandle::wait_for_completion"])
p("P09", "Cancellation is observed wherever the download can be suspended",
  "From its start until the source's finish handler is invoked, every point at which the download task can be suspended is abandoned when the cancellation token fires: waiting for a chunk, seeking, reconnecting, and waiting for the reader to make room. The token that is observed is the one given out to users, to callbacks and used on drop, and after cancellation nothing more is requested or written and the outcome is an interruption by the user.",
  ["schedules"], "cancellation arriving at every suspension point",
  "Tests cancel while a chunk is awaited; the other suspension points need a blocked transport or a full storage at that very moment.",
  [SRC, LIB], [("cancellation scope around the download", SRC)], (), ["StreamDownload::cancel_download", "CancellationToken"])
p("P10", "Dropping the reader cancels the download if and only if configured",
  "Dropping the reader requests cancellation of its download exactly when the cancel-on-drop setting given at creation is set. Explicit cancellation always requests it.",
  ["configurations","histories"], "both settings, every way of creating and dropping a reader",
  "Tests check it with two constructions; the setting passes through several structures.",
  [LIB, SET], [("Drop impl", LIB)], (), ["CancellationToken"])
p("P11", "A stalled source is reconnected within the configured timeout and resumed",
  "Every wait for the next chunk is bounded by the configured retry timeout. When it expires the source is asked to reconnect, that attempt is bounded by the same timeout, and whatever its result the download keeps waiting for chunks instead of ending. The reconnect callback runs exactly once for each successful attempt and never for a failed or timed-out one.",
  ["fault_sequences","schedules"], "stalls at any chunk, reconnects that succeed, fail or hang, any number of times",
  "The tests use a few simulated stalls, mostly with reconnects that succeed.",
  [SRC], [("timeout around the chunk wait", SRC), ("reconnect handler", SRC)], (), ["SourceStream::reconnect", "Settings::on_reconnect"])
p("P12", "An error in a single chunk does not change the download's state",
  "When the source yields an error instead of a chunk, the download continues with the next chunk: nothing is written, marked available, requested or reported for it, the download neither ends nor fails, and bytes still held back remain held back.",
  ["fault_sequences"], "errors at any chunk, in any phase, any number of times",
  "Tests inject at most a few errors, at chosen chunks.",
  [SRC], [("chunk error branch", SRC)], (), ["storage contents", "Settings::on_progress"])
p("P13", "The download completes only when nothing is missing",
  "A download ends successfully only after the source reported end of stream and, for a seekable source of known length, after the whole length was found to be available with no further change; if something is missing, the first missing range is requested instead. The completion report is made once, after that, and never for a failed or cancelled download.",
  ["histories","inputs"], "every history of seeks and gaps, known or unknown length, seekable or not",
  "Gaps left behind by seeks depend on the exact history; tests sample a few.",
  [SRC], [("search for the next gap on end of stream", SRC), ("completion report", SRC)], (), ["Settings::on_progress", "Read for StreamDownload"])
p("P14", "Reader and writer never miss each other's wake-ups",
  "A reader announces the position it needs (and sends its seek request) before it waits, and wakes a writer that is waiting for room both before it waits and after each read of the storage. A writer that found the storage full has announced that it needs room before it tried to write, and waits on a wake-up that is remembered if it comes early; outside prefetch phases, each time it progressed it checks the announced position, and when reached it withdraws the announcement and wakes the readers under their lock. A wake-up ends one wait: the reader takes it along, and one that comes between the announcement and the wait is not discarded.",
  ["schedules"], "every interleaving of one reader and the download task",
  "Lost wake-ups need a preemption in a window of a few instructions.",
  [HND, SRC, LIB], [("announce, then wait", HND), ("request flag, then write, then wait", SRC)], (), ["Read/Seek for StreamDownload"])
p("P15", "Requests beyond the storage capacity are rejected before anything happens",
  "A read larger than the storage's capacity and a seek that lands more than the capacity beyond the current position are rejected as invalid input. They are rejected before the storage is read or moved and before anything is requested from or waited for in the download; requests within the capacity are never rejected for their size.",
  ["inputs","configurations"], "every buffer length, seek target, position and capacity",
  "Boundary values and their combination with the position are sampled only.",
  [LIB], [("excessive read check", LIB), ("excessive seek check", LIB)], (), ["Read/Seek for StreamDownload"])
p("P16", "Seeks land exactly where the caller asked, or fail without side effects",
  "A seek from the start goes to the given offset, a seek from the current position is relative to the reader's position, a seek from the end is relative to the content length and unsupported if that is unknown; results past a known end are moved to the end, and negative or overflowing ones are invalid input. On success the reader's storage is positioned at exactly that absolute position, which is also returned; a rejected seek neither moves the reader nor asks the download for anything.",
  ["inputs"], "every base, offset and content length, including the extremes of their types",
  "The tests use small offsets; the arithmetic at the extremes and the clamping are not enumerated.",
  [LIB, SD+"storage/mod.rs"], [("absolute position computation", LIB), ("checked offset arithmetic", SD+"storage/mod.rs")], (), ["Seek for StreamDownload"])
p("P17", "Bounded storage never overwrites bytes that were not read yet",
  "A write to bounded storage accepts at most the free space (size minus the distance from read to write position), writes exactly the accepted prefix of the caller's bytes to the ring at the write position modulo the size, wrapping at the end of the ring, and advances the write position by exactly the number of bytes it reports. A write with room and bytes accepts at least one, and accepted bytes are flushed to the inner writer by the write or by flush. If any inner operation fails, the error is returned and the position does not advance. Seeking the writer sets exactly its own position; positions start at zero, and the ring size is the configured one or the content length if that is smaller.",
  ["inputs","histories","fault_sequences"], "every size, read and write position, buffer length, and inner failure",
  "Tests and their sizes sample the wrap-around arithmetic.",
  [BND], [("free space computation", BND), ("split write at the wrap point", BND)], [("read/write positions", "logical stream positions under one lock", BND)], ["Write for BoundedStorageWriter"])
p("P18", "Bounded storage returns exactly the bytes at the read position",
  "A read from bounded storage returns at most the bytes between read and write position, taken from the ring at the read position modulo the size in order, wrapping at the end of the ring, and advances the read position by exactly the number returned. A read larger than the configured capacity, or one whose data was already overwritten, is an invalid-input error that moves nothing; inner failures are returned without advancing. Seeking the reader sets exactly its own position.",
  ["inputs","histories","fault_sequences"], "every size, read and write position, buffer length, and inner failure",
  "Tests sample the arithmetic at a few sizes.",
  [BND], [("available length computation", BND), ("split read at the wrap point", BND)], (), ["Read for BoundedStorageReader"])
p("P19", "Memory storage keeps independent positions over one shared buffer",
  "Reader and writer of memory storage share one buffer but have separate positions, both starting at zero. A write grows the buffer if needed, stores all bytes at the write position and advances only that; a read returns at most what exists at the read position, nothing past the end, and advances only that by the number returned; seeking sets the position exactly, relative to start, current position or buffer end, and rejects negative or overflowing targets.",
  ["inputs","histories"], "every interleaving of reads, writes and seeks with any lengths and offsets",
  "Tests sample a few lengths and never the positions past the end.",
  [MEM], [("position arithmetic", MEM)], (), ["MemoryStorage"])
p("P20", "Temporary-file storage gives reader and writer independent handles of one file",
  "Reader and writer of temporary-file storage refer to the same newly created file through separately opened handles, so moving one never moves the other, and the reader keeps the file alive. The file is created by the configured builder if there is one, and otherwise with the configured prefix and in the configured directory; every creation error is returned. Bytes the reader read ahead are discarded by every seek and position query, and each read of the stream makes such a query first, so bytes buffered before they were written are never returned.",
  ["configurations","fault_sequences"], "every combination of prefix, directory and custom builder, every failing file operation",
  "Sharing one file offset is only visible when reads and writes interleave in time; the combinations are sampled.",
  [TMP], [("reopened handle", TMP)], (), ["TempStorageProvider"])
p("P21", "Adaptive storage picks the documented backend and forwards to it unchanged",
  "With unknown length, adaptive storage uses the fixed-length provider wrapped in a bounded buffer of the configured size; with a known length up to and including that size it uses the fixed-length provider, and beyond it the variable-length provider, passing on the length; storage that is bounded reports its capacity. Reader and writer are always of the same kind, and every operation is forwarded to the backend with the same arguments and result.",
  ["inputs","configurations"], "every content length and buffer size, every operation",
  "Tests sample lengths around the boundary and a few operations.",
  [ADP], [("backend selection", ADP), ("forwarding", ADP)], (), ["AdaptiveStorageProvider"])
p("P22", "HTTP seeks and reconnects request exactly the missing bytes",
  "An HTTP seek requests the range from the given start to one before the given exclusive end, or open-ended without an end, on the stream's own URL; a seek to the very end requests nothing and yields an empty stream. A reconnect to a server that supports ranges requests everything from the current position. A failed request or an unsuccessful status is returned as an error and leaves the current body in place; otherwise the body of that response replaces it.",
  ["inputs","fault_sequences"], "every start, end, length, header and server answer",
  "Tests sample ranges and a few failing answers.",
  [HTTP], [("exclusive to inclusive conversion", HTTP), ("status check before replacing the body", HTTP)], (), ["Client::get_range"])
p("P23", "Opening an HTTP stream honours the response and reports failures precisely",
  "Opening an HTTP stream sends one plain request to the given URL; a transport failure is reported as a fetch failure and an unsuccessful status as a response failure, and nothing is streamed from it. Otherwise content length, headers and body are those of that response, and the content type is its parsed media type or absent if missing or malformed, never an error. Range support is reported exactly when the server names an accepted range unit other than none.",
  ["inputs","fault_sequences"], "every response",
  "Tests sample headers and one or two failures.",
  [HTTP], [("response handling", HTTP)], (), ["HttpStream::new"])
p("P24", "HTTP clients send well-formed range headers",
  "Each provided HTTP client sends a ranged request as a GET to the given URL with a Range header of the form bytes=start-end (inclusive) or bytes=start-, and a plain request without one; an unsuccessful status always becomes an error carrying the response. The length of a response is its Content-Length header, absent when missing or malformed. Sharing rules hold: the default client reuses one connection pool, and the middleware client runs all registered middleware in registration order.",
  ["inputs"], "every start, end and response header",
  "Tests go through one client mostly, with a few ranges.",
  [HTTP, RC, RM], [("range header formatting", HTTP), ("client adapters", RC), ("client adapters", RM)], (), ["Client::get_range"])
p("P25", "OpenDAL streams read exactly the requested range of the object",
  "Opening an OpenDAL stream reads the whole object; a seek reads from start up to the exclusive end, or to the end of the object without one; a reconnect reads from the current position. An object of unknown or zero size has no content length, errors of the operator are returned, and a failed seek leaves the current reader in place.",
  ["inputs","fault_sequences"], "every start, end, object size and operator failure",
  "Tests use one in-memory operator that never fails.",
  [OD], [("range selection", OD)], (), ["OpendalStream"])
p("P26", "OpenDAL streams never end early and forward every byte read",
  "An OpenDAL stream ends only when the underlying reader reports end of data into a buffer that has room; before each read the buffer has room, of the configured chunk size when it had none. Every successful read is passed on as one chunk with exactly the bytes read, every read error is passed on as an error, and a pending read stays pending.",
  ["inputs","schedules","fault_sequences"], "every sequence of read results",
  "A zero-capacity read looks like end of stream; tests cover few chunk sizes and no errors.",
  [OD], [("room before the read", OD)], (), ["Stream for OpendalStream"])
p("P27", "Async-read and process sources refuse to seek and pass on length and bytes",
  "A source made from an async reader or a process reports that it cannot seek, returns an unsupported error from seeks and reconnects, reports exactly the content length it was configured with, and forwards the reader's chunks unchanged. A process source behaves like the async-read source of the process's standard output in all of these.",
  ["inputs","configurations"], "every configuration and chunk",
  "Tests cover one configuration of each.",
  [AR, PRC], [("unsupported operations", AR), ("delegation", PRC)], (), ["SourceStream for AsyncReadStream", "SourceStream for ProcessStream"])
p("P28", "A finished process is reaped and its outcome preserved",
  "When a process stream finishes successfully the process is waited for and not killed; when it ends with an error or by cancellation the process is killed and the kill awaited. Captured error output is logged when the command failed or the stream ended with an error that was not a user cancellation, and not otherwise; temporary error files are always closed, and the result given to the finish handler is returned unchanged unless waiting or killing fails.",
  ["fault_sequences","schedules"], "every result and outcome, every exit status, every failing process operation",
  "Tests run a few commands; the branches depend on exit status and timing.",
  [PRC], [("finish handler", PRC)], (), ["SourceStream::on_finish"])
p("P29", "Commands are spawned with the right pipes and arguments",
  "A spawned command runs the given program with the given arguments in order, with its output piped; its error output goes to the handle supplied or else to a fresh temporary file kept with the stream, and it is killed when dropped. In a pipeline every command is spawned once in the order added, each reading the output of the one before it; a failure to spawn is returned.",
  ["inputs","configurations"], "every pipeline length, argument list and error handle",
  "Tests run pipelines of two commands.",
  [PRC, CB], [("stdin chaining", CB), ("last command", PRC)], (), ["ProcessStream"])
p("P30", "Generated ffmpeg and yt-dlp command lines keep their fixed frame",
  "An ffmpeg conversion always reads standard input, selects audio, uses the requested format and keeps the output argument last, with extra arguments inserted directly before it in the order given. A yt-dlp command always names the URL, quiet mode, no part files, no continuation and output to standard output, adds the audio flag exactly if requested and the format pair exactly if given; program paths given replace only the program.",
  ["inputs","configurations"], "every URL, format, extra argument and combination of options",
  "Tests compare a few fixed command lines.",
  [FF, YT], [("insert before the last argument", FF), ("argument list", YT)], (), ["Command"])
p("P31", "The registry routes an input to the first entry, by priority, that matches",
  "Entries are tried in ascending priority, equal priorities in the order they were added. The handler of the first entry with a matching rule is run exactly once and its result returned; no other handler runs, and without any match nothing runs and nothing is returned. A raw input matched by prefix is handed over without the prefix (only its first occurrence) and with the prefix recorded; otherwise the parsed input is handed over.",
  ["inputs","configurations"], "every set of entries, rules and inputs",
  "Tests sample a few registries.",
  [REG], [("ordered search", REG)], (), ["Registry::find_match"])
p("P32", "Registry rules match exactly what they describe",
  "A prefix rule matches raw inputs that start with it and parsed inputs that carry exactly it; a string rule matches only non-URL inputs and a URL rule only URL inputs, the latter when both scheme and domain match. A text matcher means equality, a pattern matcher a pattern match, an unrestricted part matches everything, and a restricted part never matches an absent value; inputs that parse as URLs are URLs, all others strings.",
  ["inputs"], "every rule and input",
  "Tests sample a few inputs per rule.",
  [REG, MAT], [("matchers", MAT)], (), ["Rule", "Registry::find_match"])
p("P33", "Settings hold exactly what was configured, with the documented defaults",
  "Each settings method changes the one setting it names to the given value and leaves all others as they were, and the getters return the configured values. Defaults are 256 KiB of prefetch, 4096-byte write batches, a 5 second retry timeout, cancellation on drop and no callbacks; a download uses each configured setting in its own role.",
  ["configurations"], "every combination and order of settings calls",
  "Tests set one or two settings at a time.",
  [SET, SRC], [("builder methods", SET), ("hand-over to the download", SRC)], (), ["Settings"])
p("P34", "Large writes are batched and yield to the runtime",
  "No single write issued by the download to the storage is longer than the configured batch size, and after every write that stored data the download task passes a point where it yields to the runtime before it writes again.",
  ["inputs","schedules"], "every chunk size, batch size and pattern of short writes",
  "Yielding is invisible to tests; the batch bound is checked at a few sizes.",
  [SRC], [("batched write loop", SRC)], (), ["StorageWriter"])
p("P35", "No lock is held across a suspension, a wait, or foreign code",
  "While any of the library's internal locks is held, the holder does not suspend, block on another lock of the library or wait (other than on the condition of that very lock), call user callbacks, the transport or the storage of the download, or run an operation that panics by explicit request; only a storage that wraps another one may use the wrapped one meanwhile. The library's locks are never nested and always released, so no deadlock between reader and download task through them is possible.",
  ["schedules"], "every acquisition of an internal lock on every path",
  "Deadlocks and poisoned waits need a particular interleaving.",
  [HND, BND, MEM, RM], [("short critical sections", HND)], (), ["process liveness"])
p("P36", "Errors are annotated without changing their kind",
  "Adding context to an I/O error keeps its kind and includes both the context and the original message, and leaves successes untouched. Both copies of the helper behave the same.",
  ["inputs"], "every error and context",
  "Not tested per kind.",
  [LIB, OD], [("error wrapping helper", LIB)], (), ["io::Error::kind"])
p("P37", "Progress reports describe the actual state of the download",
  "After every chunk that was written, exactly one report is made, with the writer's position at that time, the size of the chunk written, and the phase the download was in when the chunk arrived (prefetching with the configured target, or downloading); the final report has the phase complete. No report is made for seeks, reconnects, or failed chunks, and every report carries the download's cancellation token.",
  ["histories","inputs"], "every history of chunks, seeks and phases",
  "Tests check a few sequences of reports.",
  [SRC], [("progress reporting", SRC)], (), ["Settings::on_progress"])
p("P38", "During prefetch nothing is made available before the target is reached",
  "While a prefetch phase is active no range is made available and no reader is woken until the configured number of bytes beyond the phase's start was written, the storage could not take a whole chunk, the stream ended, or a new seek ended the phase; then the whole phase's data is made available at once. A prefetch size of zero disables the initial phase.",
  ["histories","inputs","configurations"], "every prefetch size, chunking, start position and seek during prefetch",
  "Tests use few sizes and seeks.",
  [SRC], [("prefetch handling", SRC)], (), ["Read for StreamDownload"])
p("P39", "Every combination of crate features type-checks",
  "Each feature of the library and each combination of features a user can select builds without errors, and a feature only adds to the public interface.",
  ["configurations"], "the feature combinations of both crates",
  "The test suite is built with one fixed feature set.",
  [SD+"lib.rs", "crates/stream-download/Cargo.toml", OD], [("cfg attributes", SD+"lib.rs")], (), ["cargo check"])
p("P40", "Readers and handles can be moved and shared across threads",
  "For every thread-safe storage, the reader, its handle, its errors, its settings and the sources can be sent to another thread, the reader and the handle can also be shared and survive an unwinding panic boundary, and the futures that create readers can be spawned on a multi-threaded runtime.",
  ["programs","configurations"], "every program that uses these types under these bounds",
  "Auto traits are a property of all programs that use the types; a test only shows the ones it contains.",
  [LIB, HND, SD+"storage/memory.rs", BND], [("AssertUnwindSafe wrappers", HND)], (), ["trait bounds"])
p("P41", "The download task never panics by its own assertions",
  "No explicit panic, failed expectation, unwrapped absence, out-of-range slice, empty inserted range or subtraction below zero in the library's own code is reachable on any path of the download task, whatever the source, the storage and the callbacks return within their contracts.",
  ["inputs","histories","fault_sequences"], "every path of the download task",
  "A panic in the task leaves readers hanging; tests only cover the sampled inputs.",
  [SRC, HND], [("guards before each partial operation", SRC)], (), ["download task"])
p("P42", "A failed creation starts nothing and reports its cause",
  "If the source cannot be created the creation error is returned as such, and if the storage cannot be created that error is returned as such; in both cases no download task is started. Otherwise exactly one task is started, with a storage made for the content length reported by the source, and the returned reader reports that length and observes that task.",
  ["fault_sequences","configurations"], "every failing step of the creation",
  "Tests inject one or two failures.",
  [LIB], [("creation sequence", LIB)], (), ["StreamDownload::new", "StreamInitializationError"])
p("P43", "Readers obtain the source's bytes, end to end",
  "The concatenation of all bytes returned by reads between two seeks equals the source's bytes at those positions, for every source, storage and schedule.",
  ["schedules","inputs","histories","fault_sequences"], "every source, storage and schedule",
  "Sampled by all integration tests.",
  [LIB, SRC], [("whole library", LIB)], (), ["Read for StreamDownload"])
p("P44", "Every blocked read or seek eventually returns",
  "If the source keeps producing data or ends, every read and seek returns after finitely many steps of the scheduler.",
  ["schedules"], "every fair schedule",
  "Hangs need rare schedules.",
  [LIB, HND, SRC], [("wake-ups", HND)], (), ["Read/Seek for StreamDownload"])
p("P45", "Throughput and latency stay within the configured bounds",
  "Reconnect attempts happen within twice the retry timeout of a stall, and prefetch delays the first read by no more than the time the source needs for the configured bytes.",
  ["schedules"], "every timing of source and runtime",
  "Timing is sampled.",
  [SRC], [("timeouts", SRC)], (), ["wall clock"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
