#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

BND, FLD, SRV, SAV = "src/server/boundary.rs", "src/server/field.rs", "src/server/mod.rs", "src/server/save.rs"
CLI, LAZ, SIZ, MOCK = "src/client/mod.rs", "src/client/lazy.rs", "src/client/sized.rs", "src/mock.rs"

p("M01", "Streaming client to server round trip preserves every field",
  "Whatever text, stream and file fields are written through the streaming client (plain or sized) for names and file names without a double quote or control characters, the server parser reads back exactly those fields in the order written: same name, same file name or none, same content type or none for text, and byte-identical contents. This holds however the transport splits the writes and however the server receives the bytes.",
  ["inputs", "schedules"], "All field lists (0..n), names, file names, content types, contents (empty, binary, delimiter look-alikes, larger than the parser's buffer), all short-write and short-read patterns.",
  "local_test.rs samples one or two alphanumeric fields of 4-12 bytes per run, all of which fit in one buffer; no separators, large contents or look-alikes are ever sent.",
  [CLI, SIZ, BND, FLD, SRV], [("field framing and closing delimiter", CLI), ("delimiter search", BND), ("part header parsing", FLD)],
  ["client::Multipart write_text/write_stream/write_file/send", "server::Multipart read_entry"])

p("M02", "Lazy client to server round trip preserves every field",
  "Whatever text, file and stream fields are added to a lazily written request, the body it produces is a well-formed multipart body from which the server parser recovers exactly the added fields as a collection (order may differ): names, file names, content types and byte-identical contents, none lost, duplicated or invented. This includes a request with no fields at all, which the server must read as an empty, properly terminated request, and both sending the request and exporting the prepared body.",
  ["inputs", "schedules"], "All collections of added fields including the empty one; all read-buffer sizes used to drain the body; all delivery chunkings to the server.",
  "Existing tests only send 1-2 tiny fields built from streams and texts, never files, never an empty request.",
  [LAZ, BND, FLD], [("body preparation", LAZ), ("delimiter search", BND)],
  ["client::lazy::Multipart prepare()/send()", "server::Multipart read_entry"])

p("M03", "Every well-formed multipart body parses to exactly its parts",
  "For every well-formed multipart/form-data body (any legal boundary, optional preamble and epilogue, any number of parts, any part contents not containing the delimiter) the server yields exactly its parts, in order, with their declared name, file name and content type and exactly the bytes between the part's header block and the line break before the next delimiter, and then reports the end. Contents that resemble the delimiter (line breaks, dashes, proper prefixes of the delimiter, near misses) are delivered unchanged.",
  ["inputs"], "All boundaries of 1 to 70 legal characters (and longer ones, up to 8 kB), part lists, contents including delimiter prefixes and CR/LF runs at every alignment with the parser's internal buffer.",
  "boundary.rs tests use a single short boundary and contents of a few bytes; alignment with the 1 KiB/8 KiB buffer thresholds is never exercised.",
  [BND, FLD, SRV], [("incremental delimiter search and CRLF hold-back", BND), ("header parse then hand over to data", FLD)],
  ["server::Multipart::with_body + read_entry + field data Read"],
  [("search position", "how much of the buffer is known to precede the delimiter", BND)])

p("M04", "Parsing does not depend on how the body bytes are delivered",
  "For any byte string presented as a request body, well-formed or not, the sequence of fields, field contents, errors (by kind) and end-of-request that the server reports is a function of the bytes alone: it is the same whether the transport delivers them in one read, one byte at a time, or split at any positions.",
  ["inputs", "schedules"], "All byte strings (well-formed, mutated, truncated, arbitrary) and all read-size schedules of the body source.",
  "test_split_boundary splits one 60-byte body at each single position; bodies above the minimum buffer size, headers above it, and unconsumed fields are never split.",
  [BND, FLD, SRV], [("minimum-buffer refill policy", BND), ("header read loop", FLD)],
  ["server::Multipart::with_body over a scripted Read"])

p("M05", "How a field is consumed never affects its bytes or later fields",
  "However an application consumes a field (reads of any sizes, buffered peeks and partial consumes, over-consuming, changing the minimum buffer size, stopping part-way, or not reading it at all) it observes a prefix of exactly that field's contents, repeated peeks never lose or reorder data, and a field read to its end delivers all of its contents. Every later field is unaffected, and each field's data never includes bytes of another field or of the delimiter.",
  ["histories", "inputs", "schedules"], "All operation sequences over {read, peek, consume, set minimum buffer, skip, next field} interleaved with all delivery schedules.",
  "Tests read each field in full or skip a 6-byte field; partial consumption, peeking and buffer-size changes across buffer edges are unsampled.",
  [BND, FLD], [("buffered peek and capped consume", BND), ("skip to the next delimiter", BND)],
  ["MultipartData Read/BufRead, set_min_buf_size, read_entry"])

p("M06", "No input bytes can panic or hang the server parser",
  "For any request body bytes, any boundary string and any way of consuming entries, the server parser neither panics nor loops without progress: iteration finishes with an end or an error after work proportional to the input. Once the end of the request has been reported, every further attempt to read an entry reports the end again. Malformed input is never reported as a transient condition (interrupted, would block) that invites retrying.",
  ["inputs", "histories"], "All byte strings and boundary strings (including empty and very long), all consumption modes, with logging enabled or disabled.",
  "The fuzz crate in the repository no longer builds and had no semantic oracle; unit tests cover a dozen fixed bodies.",
  [BND, FLD, SRV, SAV], [("state machine of the delimiter reader", BND), ("header parsing", FLD)],
  ["server::Multipart all entry APIs, save()"])

p("M07", "A truncated or corrupted body is never reported as complete",
  "If a request body ends before its closing delimiter is complete, or a delimiter is followed by anything other than a line break or the closing dashes, then iterating or saving the request reports an error and never a normal end or full success. Fields delivered before that point are exact, and the field being read when the body ends yields only a prefix of the bytes that were present.",
  ["inputs", "crash_points"], "Every truncation point of every well-formed body; every replacement of the two bytes after a delimiter; every delivery chunking.",
  "Three fixed truncated bodies are tested; the truncation point is universally quantified.",
  [BND, FLD, SAV], [("end-of-body detection", BND), ("delimiter suffix check", BND)],
  ["read_entry/foreach_entry results, save() results"])

p("M08", "Part headers are interpreted exactly as declared",
  "For every part whose header block names a form-data field, the name and file name reported are exactly the declared parameter values whatever characters they contain other than double quotes and control characters (including semicolons, equals signs, spaces, text that looks like another parameter, non-ASCII text), regardless of parameter order, header order, header-name case, optional whitespace and unknown extra headers or parameters; the content type is reported when declared and absent otherwise. A part without a form-data disposition and name, or with an unparsable content type or header block, is reported as an error rather than as a field, and the parts after it can still be read.",
  ["inputs"], "All combinations of parameter values, orders, quoting, whitespace, header-name casing and extra headers, and malformed variants of each.",
  "Unit tests look up three hard-coded header names; no test parses a Content-Disposition with separators, other orders or malformed values.",
  [FLD], [("Content-Disposition parameter extraction", FLD), ("Content-Type parsing", FLD)],
  ["MultipartField::headers, is_text()"])

p("M09", "Body read errors are surfaced faithfully and lose no data",
  "If the transport reports an interrupted read it is retried without any visible effect on field sequence or saved data; any other read error is reported to the caller with its original kind while an entry or its data is being read. After an error while reading a field's data, retrying delivers the field from exactly where it stopped: no byte is lost, repeated or altered.",
  ["fault_sequences", "inputs", "schedules"], "All placements and sequences of interrupted and failing reads in the body stream, all consumption modes.",
  "No test injects a read error.",
  [BND, FLD, SAV], [("refill of the buffered source", BND), ("error conversion for header reads", FLD), ("retry on interrupt while saving", SAV)],
  ["read_entry, MultipartData reads, save() over a faulting Read"])

p("M10", "Saved requests contain exactly the submitted data",
  "When a save completes fully, the result holds exactly the fields of the request: grouped by name, in submission order within a name, each with its declared headers and with contents byte-identical to what was sent, whether held as text, as bytes or in a file, and with the reported sizes and counts equal to the real ones. A field is kept in memory exactly when its contents fit the memory threshold, independent of how the bytes were delivered.",
  ["inputs", "configurations", "schedules"], "All requests, memory thresholds, text policies and delivery schedules; saving whole requests or single fields to temp dirs, given dirs, paths or writers.",
  "The repository has no test that calls save() at all.",
  [SAV], [("memory-then-disk save", SAV), ("entry map bookkeeping", SAV)],
  ["SaveBuilder, Entries, SavedData::readable/size/is_memory"])

p("M11", "The per-field size limit is exact and never exceeded",
  "With a size limit set, a field is saved in full exactly when its contents do not exceed the limit; otherwise the save stops with the size-limit reason and what was saved is exactly the first limit bytes, never more, in memory or on disk, however the bytes were delivered. If the limit does not exceed the memory threshold the filesystem is never touched, and the bytes beyond the limit remain readable from the field, where a further save continues under the same rule.",
  ["inputs", "configurations", "schedules"], "All contents, size limits and memory thresholds around each other and around buffer sizes, all delivery schedules.",
  "No test sets a size limit.",
  [SAV], [("limited copy to memory and to file", SAV)],
  ["SaveBuilder::size_limit with temp/with_dir/with_path/write_to and whole-request saves"])

p("M12", "The field count limit is exact and loses nothing silently",
  "With a count limit of N, a request with at most N fields is saved in full and one with more stops with the count-limit reason after exactly the first N fields, all intact. The first field over the limit is not written to disk and is handed back unread to the caller, and a save resumed with the returned entries after making room continues after it.",
  ["inputs", "configurations", "histories"], "All field counts versus limits (including 0 and unlimited), repeated names, resumption histories.",
  "No test sets a count limit.",
  [SAV], [("entry loop of whole-request save", SAV)],
  ["SaveBuilder::count_limit, Entries::fields_count, PartialEntries"])

p("M13", "Text policy decides text, bytes or error by UTF-8 validity alone",
  "For fields within the memory threshold: by default a text field is saved as text exactly when its contents are valid UTF-8 and as the identical bytes otherwise; when text is forced, invalid UTF-8 always stops the save with a UTF-8 error holding only a valid prefix; when text is ignored, or the field declares a non-text content type in a whole-request save, it is saved as bytes. The outcome never depends on where reads split multi-byte characters, and every such save terminates.",
  ["inputs", "configurations", "schedules"], "All byte contents (valid, truncated and invalid UTF-8 at every position), policies, thresholds (including unlimited) and delivery schedules.",
  "No test exercises the text policy.",
  [SAV, FLD], [("incremental UTF-8 validation", SAV), ("text detection by content type", FLD)],
  ["SaveBuilder::try_text/force_text/ignore_text results"])

p("M14", "Saving writes only fresh files where asked, never over existing ones",
  "Saving creates files only inside the requested directory or at the requested path (for a bare file name: in the OS temporary directory), under names that do not derive from anything the client sent and never collide, creating missing parent directories, and creates no file or parent directory for data that fits in memory. By default an existing file is never modified: the save fails instead and the existing contents are untouched. Open options set on the builder hold for every file it creates.",
  ["inputs", "configurations"], "All client-supplied names and file names (path traversal, absolute, separators), all destinations and pre-existing files.",
  "No test saves to disk.",
  [SAV], [("random file names", SAV), ("exclusive-create open options", SAV)],
  ["directory trees before and after SaveBuilder calls"])

p("M15", "Temporary save directories vanish, permanent ones stay",
  "A save into a temporary directory creates it under the OS temporary directory with the requested prefix and removes it with all contents when the result (full or partial) is dropped or deleted, unless it was kept, in which case it survives with its contents intact; a failed save leaves no temporary directory behind. A save into a permanent directory creates it (with any missing parents) even if every field stays in memory, and it survives until explicitly deleted, which removes all of it.",
  ["histories", "inputs"], "All requests, limits and all sequences of keep, convert, delete and drop on the resulting directory handle.",
  "No test touches save directories.",
  [SAV], [("save directory handle", SAV)],
  ["filesystem state after drop/keep/into_path/delete"])

p("M16", "A declared content length always equals the body's exact size",
  "Whenever the client declares a content length for a multipart body (sized requests always, lazy requests whenever no generic stream was added) it equals the number of bytes of the body actually sent, for every combination of fields; a lazy request containing a generic stream declares none.",
  ["inputs"], "All combinations of text, file and stream fields, including none.",
  "The only assertion on this runs on requests that always contain a stream or sized buffer, so the lazy computation is never checked.",
  [LAZ, SIZ, CLI], [("length accounting", LAZ), ("buffer then measure", SIZ)],
  ["PreparedFields::content_len, headers applied by SizedRequest and lazy send"])

p("M17", "Draining a prepared body yields the same bytes whatever the reads",
  "Reading a prepared lazy body yields one fixed byte sequence regardless of the sizes of the reads used and regardless of short or interrupted reads of the underlying streams, never returns zero before the end, and keeps returning zero after it. A failing underlying stream surfaces its error without dropping or repeating any body byte around it, and a field that cannot be opened is named in the error.",
  ["schedules", "fault_sequences", "inputs"], "All read-buffer size sequences, stream chunkings, and interrupted or failing reads at any position.",
  "Tests only call read_to_end over in-memory cursors.",
  [LAZ], [("sequential body reader", LAZ)],
  ["PreparedFields as Read, LazyError::field_name"])

p("M18", "Every request uses a fresh, valid boundary announced consistently",
  "The boundary announced through the request headers, which are applied once, is exactly the one delimiting the body, in the plain, sized and lazy clients alike, and is legal in a Content-Type parameter without quoting. It is drawn anew at random for every request with enough entropy (over 80 bits) that boundaries do not repeat across requests and cannot be guessed by whoever supplies the contents.",
  ["histories", "inputs"], "All requests and all histories of requests in one process and across threads.",
  "Round-trip tests would also pass with a constant boundary.",
  [CLI, LAZ, "src/lib.rs"], [("boundary generation", CLI), ("random alphanumeric source", "src/lib.rs")],
  ["HttpRequest::apply_headers argument versus body bytes"])

p("M19", "A request is treated as multipart exactly when it is one",
  "In every server integration a request is accepted as multipart exactly when it is a POST whose Content-Type is multipart/form-data (case-insensitively) with a non-empty boundary parameter, and the boundary used is exactly the declared value, quoted or not and wherever it stands among the parameters; any other request is handed back to the application unchanged with its body unread.",
  ["inputs", "configurations"], "All methods, content types, parameter lists, orders, quoting and letter case, for hyper (by value and by reference, and the handler switch), iron, nickel and tiny_http requests.",
  "No test builds a request for any integration.",
  ["src/server/hyper.rs", "src/server/iron.rs", "src/server/nickel.rs", "src/server/tiny_http.rs", SRV],
  [("per-framework request detection", "src/server/*.rs"), ("dispatch on detection", SRV)],
  ["server::Multipart::from_request, hyper Switch, nickel multipart_body"])

p("M20", "The iron middleware enforces its limits as configured and terminates",
  "For a multipart request within the configured limits the middleware attaches all fields intact; beyond a limit, the strict behaviour rejects the request with an error naming the field or the limit, and the lenient behaviour completes the request with every field present and each oversized file truncated to exactly the size limit. It creates a missing temporary parent directory on demand, always terminates, leaves nothing on disk after a rejected request or once the request is dropped, and leaves non-multipart requests untouched.",
  ["inputs", "configurations"], "All requests (well-formed and truncated), file size limits, file count limits, limit behaviours and temporary directory settings.",
  "The middleware only has a compile-only doc test.",
  ["src/server/iron.rs", SAV], [("strict and lenient read-out", "src/server/iron.rs")],
  ["Intercept::before on an iron Request, request.extensions, filesystem"])

p("M21", "Requests sent through the hyper client arrive intact over HTTP",
  "A multipart request sent through the hyper client, plain, sized or lazy, is an HTTP POST that a hyper server recognises as multipart and from which it reads exactly the fields sent; its framing is chunked or has a Content-Length equal to the body, and its Content-Type names the boundary used in the body. A non-POST request is refused with an error and sends no multipart body.",
  ["inputs", "schedules"], "All field lists and contents, plain/sized/lazy clients, all transport chunkings.",
  "Hyper integration is only compiled as examples, never run.",
  ["src/client/hyper.rs", LAZ, SIZ, "src/server/hyper.rs"],
  [("header application", "src/client/hyper.rs"), ("sized or chunked body", LAZ)],
  ["bytes on the wire; hyper server request"])

p("M22", "A failing save accounts exactly for what it wrote and can resume",
  "If the destination or the source fails during a save, the result reports exactly the bytes that reached the destination, those bytes are exactly the corresponding prefix of the field, and no byte was both reported unsaved and removed from the stream (except bytes already collected in memory when writing them to a file failed); short and interrupted writes are completed transparently. Fields saved before the failure stay intact in the returned entries, and resuming with them continues with the following field.",
  ["fault_sequences", "inputs", "histories"], "All placements of write errors, short writes, zero-length writes, interrupted writes, file-creation failures, full disks and source errors.",
  "No test injects a fault into saving.",
  [SAV], [("write loop with partial accounting", SAV), ("partial results", SAV)],
  ["SaveBuilder::write_to/with_path/with_entries results, destination contents, remaining field data"])

p("M23", "Save results convert without losing saved data or hiding errors",
  "Converting a save result keeps exactly the saved data and the error information the conversion promises: full results always convert to success, start errors always to failure, the lenient conversions keep the partial data, the strict conversion fails for every partial result, and keeping a partial adds exactly the partially saved field. The field count and emptiness reported by the entries always match the fields they hold once counted.",
  ["inputs", "histories"], "All kinds of save result (full, partial by each reason, error) crossed with every conversion, and all histories of adding, removing and recounting entries.",
  "No test builds a save result.",
  [SAV], [("result conversions", SAV), ("field counting", SAV)],
  ["SaveResult methods, PartialReason methods, Entries methods"])

p("M24", "All ways of iterating over entries give the same result",
  "Reading a request by borrowed entries, by owned entries, by chaining from one field to the next, in place, or with a callback visits the same fields with the same contents in the same order and ends in the same way (end, or the same kind of error). After an end or an error the owning forms give the reader back in a usable state, and the unwrapping helpers return the entry, nothing, or panic exactly as documented.",
  ["inputs", "histories", "schedules"], "All bodies, well-formed or not, and all mixtures of the iteration forms.",
  "Only whole-request iteration by two of the forms on tiny well-formed bodies is tested.",
  [SRV, FLD], [("entry reading for owned and borrowed readers", FLD)],
  ["read_entry, into_entry, read_entry_mut, next_entry, next_entry_inplace, foreach_entry, ReadEntryResult"])

p("M25", "The client reports failures and never sends a request it was refused",
  "If the underlying request refuses the headers, no body is sent and an error is returned; any error of the transport or of a field's data source is returned to the caller of the operation during which it happened, and short or interrupted writes never corrupt the body. A file that opens but cannot be read is such an error. Failing to open a file leaves the body as if the file had not been added, and for lazy requests prevents anything from being sent and names the field.",
  ["fault_sequences", "inputs"], "All placements of transport write errors, short and interrupted writes, source read errors, missing files and refused headers, in the plain, sized and lazy clients.",
  "Tests use transports that never fail.",
  [CLI, SIZ, LAZ], [("request opening", CLI), ("chained writes", CLI), ("deferred sending", SIZ)],
  ["client results and bytes recorded by a faulting HttpRequest/HttpStream"])

p("M26", "Mock transports and the tee are transparent to the data",
  "The mock client buffer holds exactly the bytes written, the mock server request yields exactly the bytes it wraps, in order, whatever random short reads and writes they simulate, and both report the boundary and content length they were given. The stdout tee delivers exactly the written bytes once to the inner writer and once to standard output, for any sequence of write sizes, flushing it flushes both, and an error of either is reported.",
  ["inputs", "schedules"], "All byte strings, write and read size sequences, and writes with any newline pattern.",
  "The mocks are used by tests but never checked themselves; the tee is untested.",
  [MOCK], [("random-length read and write", MOCK), ("tee write", MOCK)],
  ["mock::HttpBuffer, mock::ServerRequest, mock::StdoutTee"])

p("M27", "Data is streamed: read-ahead and retained memory stay bounded",
  "The server never pulls more than a bounded amount (well under 64 KiB with default settings) beyond what the application has consumed or skipped, whatever the size of the fields, so fields of any size can be processed in constant memory. A lazy request does not read its streams before the body is drained, reads no further ahead than the caller asked for, and releases each stream once it is exhausted; a streaming client forwards data as it is written.",
  ["inputs", "schedules"], "All field sizes (up to several MiB), delivery schedules and consumption patterns.",
  "All test contents are below 100 bytes.",
  [BND, LAZ, CLI], [("bounded buffer with minimum fill", BND), ("sequential stream draining", LAZ)],
  ["bytes pulled from instrumented readers versus bytes delivered"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
