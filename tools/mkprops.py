#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

B = ["body/bytes.go", "body/empty.go", "body/seeker.go", "body/readerat.go", "body/buffered.go"]
SRC = ["body/seeker.go", "body/readerat.go", "body/buffered.go"]

prop("C01", "Reading a body yields exactly its source's bytes, then end-of-file",
 "Reading an open body to its end yields exactly the bytes of its source (cut at the declared length when one was given), in order, with nothing lost, repeated or altered, whatever buffer sizes the reader uses and however the source splits its own reads. End-of-file is reported only after the last byte, is reached after finitely many reads, and is reported again by later reads. A read never reports more bytes than the buffer it was given holds.",
 ["inputs", "histories"], "all contents and lengths, all ways of constructing a body (bytes, string, any combination of Stat/Seek/ReadAt/Close support, declared or measured length), all sequences of read sizes, all short-read and EOF styles of the source",
 "The tests read one 4-byte body one byte at a time, from a scripted mock that always fills the buffer; no short reads, no blocks beyond 64 KiB, no declared lengths.",
 B + ["body/body.go"], [("Read of each body kind", "body/*.go: Read"), ("choice of body kind", "body/body.go: FromReaderAndLength"), ("block read-ahead", "body/buffered.go: Read")],
 ["Body.Read results", "bytes handed out vs. source contents"])

prop("C02", "Copies of a body have independent cursors over the same remaining bytes",
 "A copy starts at the same position as the original and represents the same remaining bytes; from then on reading, seeking, draining, copying or closing any one of them never changes which bytes any other delivers, nor its position or its end. This holds for any number of copies, made at any time, even when all share one source that can only be read forwards once.",
 ["histories", "inputs"], "all interleaved histories of Copy/Read/Seek/ReadAt/WriteTo/Close over up to eight live copies, of every body kind",
 "No existing test calls Copy at all.",
 B, [("shared buffer with per-copy offsets", "body/buffered.go: advance, updateStart, ref, unref"), ("seek before each shared read", "body/seeker.go: readAt"), ("Copy of each kind", "body/*.go: Copy")],
 ["Body.Copy, then Read/Seek/Close on either"],
 [("start/refcnt", "lowest offset any copy still needs and how many are there", "body/buffered.go: bufferedCommon")])

prop("C03", "BytesRemaining is exact whenever the length is known",
 "The number of remaining bytes reported by an open body is either -1 (allowed only while the source's length is neither given nor measurable and its end has not been seen) or exactly the number of bytes that reading the body to its end will still deliver. This stays true after every read, seek, drain and copy, including operations on other copies; it is never any other negative number, and it is 0 once the body has reported end-of-file and after it is closed. When the source turns out shorter than declared, the number is exact again for all copies once one of them has read up to that end.",
 ["histories", "inputs"], "all histories of operations over all body kinds, contents, lengths up to 2^50 and declared lengths",
 "The tests check it at three points of one 4-byte body, never with copies, never with a length that was declared.",
 B, [("BytesRemaining of each kind", "body/*.go: BytesRemaining"), ("length learned at end-of-file", "body/buffered.go: Read; body/seeker.go: Read; body/readerat.go: Read")],
 ["Body.BytesRemaining vs. bytes read afterwards"])

prop("C04", "Seek positions the cursor exactly, clamps at the end, and rejects bad targets",
 "On bodies that support seeking, a seek relative to start, current position or end moves the cursor to exactly that position, or to the end when the target lies beyond it, returns the resulting position, clears a previous end-of-file, and the next read delivers the bytes found there. A seek with an unknown whence, a negative start offset, or a target before the start returns -1 and the matching typed error (carrying the offending value) and leaves the cursor and the data still to be read untouched.",
 ["histories", "inputs"], "all offsets (target representable in 64 bits) and whence values, at every cursor position, also after source failures, mixed with reads, copies and positional reads, for every seekable body kind",
 "The tests try eight fixed seeks on one 4-byte body, only right after end-of-file or a single read.",
 ["body/bytes.go", "body/empty.go", "body/seeker.go", "body/readerat.go", "body/errors.go"], [("Seek of each kind", "body/*.go: Seek"), ("typed errors", "body/errors.go")],
 ["Seek result", "bytes of the next Read"])

prop("C05", "ReadAt returns the bytes at the offset asked for and moves no cursor",
 "On bodies that support positional reads, a read of n bytes at a non-negative offset returns exactly the source's bytes there: all n of them, or fewer together with a non-nil error, which is end-of-file exactly when the request reaches past the end. A negative offset transfers nothing and, for a non-empty buffer, is an error. Positional reads never change the position, remaining count or later bytes of the body itself or of any copy.",
 ["inputs", "histories"], "all offsets, buffer sizes, source short-read patterns and transient source failures, at any point of any history, for every kind that offers positional reads (native or emulated by seeking)",
 "The tests make four positional reads of a 4-byte body; the source always fills the buffer and the cursor is not examined afterwards.",
 ["body/bytes.go", "body/empty.go", "body/seeker.go", "body/readerat.go"], [("ReadAt of each kind", "body/*.go: ReadAt"), ("emulation by Seek+Read", "body/seeker.go: readAt, readFullAt")],
 ["ReadAt results", "subsequent Read/BytesRemaining"])

prop("C06", "Draining a body into a writer delivers exactly the remaining bytes, or an error",
 "Copying a body into a writer (io.Copy, or the body's own WriteTo when it has one) writes exactly the remaining bytes in order, reports their exact number, and returns nil exactly when all were written, leaving the body at end-of-file; this includes empty bodies and bodies already at their end. If the writer fails or accepts only part, a non-nil error (the writer's own, if it gave one) and the number of bytes it accepted are returned. With the body's own WriteTo, exactly the unaccepted bytes then remain to be read.",
 ["inputs", "histories", "fault_sequences"], "all bodies and cursor positions, all writers that accept everything, fail after k bytes, or accept short counts",
 "No existing test calls WriteTo or io.Copy.",
 ["body/bytes.go", "body/empty.go", "body/closed.go"] + SRC, [("WriteTo", "body/bytes.go, body/empty.go: WriteTo"), ("Read under io.Copy", "body/*.go: Read")],
 ["io.Copy / WriteTo result", "bytes received by the writer"])

prop("C07", "A closed body is closed for good, and only it",
 "After a body has been closed its reads, positional reads, seeks, drains and further closes all fail with fs.ErrClosed and transfer nothing, its remaining count is 0, it exposes no underlying reader, and copying it gives, without error, a body that is closed as well. The first Close of an open body does not report it as already closed. Closing it does not affect any copy.",
 ["histories"], "all histories, for every body kind; any state (fresh, mid-way, at end-of-file, failed) in which the body is closed, any number of other copies open",
 "The tests close each kind once, at end-of-file, with no copies, and never copy or unwrap a closed body.",
 B + ["body/closed.go"], [("closed flag checks", "body/*.go"), ("closed singleton", "body/closed.go")],
 ["results of every method after Close"])

prop("C08", "A shared source is closed exactly once, by the last body attached to it",
 "If the source of a body can be closed, it is closed exactly once: by the Close of the last body still attached to it, whatever the order in which copies were made, read and closed. Only that Close returns the source's close error; every other Close of an open body returns nil. The source is never read, seeked or measured after it was closed, and while any copy is open the body exposes the original source as its underlying reader.",
 ["histories", "fault_sequences"], "all copy/read/close orders over up to eight copies, for closable and non-closable sources whose Close succeeds or fails",
 "The tests close a single body with no copies; the reference count never exceeds one.",
 SRC, [("reference counting", "body/seeker.go, body/readerat.go: ref, unref"), ("set of attached bodies", "body/buffered.go: ref, unref")],
 ["calls received by the source", "Close and Unwrap results"],
 [("refcnt / bodies", "number or set of open bodies attached to the source", "body/seeker.go, body/readerat.go, body/buffered.go")])

prop("C09", "A failing source is reported as such; it never truncates a body silently",
 "When the source fails with an error other than end-of-file, a body that reads up to the failing point delivers the bytes before it unaltered and then returns the source's own error, never a clean end-of-file, and its remaining count is never smaller than what it still delivers. A failure met by one copy never makes another copy report end-of-file early, lose bytes or fail before the point of failure. On seekable bodies a transient failure is recoverable: after seeking back to where it stands, reading delivers all remaining bytes.",
 ["fault_sequences", "histories"], "all failure positions, permanent and transient failures of Read, ReadAt and Seek, with or without data alongside the error, over all kinds of sources and up to eight copies",
 "The tests inject no source error at all.",
 SRC, [("sticky per-copy error, shared length", "body/seeker.go, body/readerat.go: Read"), ("shared error after buffered bytes", "body/buffered.go: Read")],
 ["Read/ReadAt errors and bytes on every copy"])

prop("C10", "Bodies and their copies may be used from many goroutines at once",
 "Concurrent use of copies that share a source, and concurrent reads, copies and closes of one and the same body, never corrupt, lose or repeat bytes, never deadlock, and never race: each privately used copy still delivers exactly its own bytes, and several readers sharing one body receive disjoint pieces that together make up its contents. Operations of different goroutines on a source that can only be read or seeked by one caller at a time are never overlapped.",
 ["schedules", "histories"], "all schedules of generated programs for 2 to 6 goroutines over shared and private copies of every body kind",
 "All tests are single-threaded and are not run under the race detector.",
 B, [("two-level locking body.mu / common.mu", "body/*.go")],
 ["bytes per goroutine", "race detector", "overlap detector in the source", "deadlock (all goroutines blocked)"],
 [("mu", "lock of one body, lock of the shared source", "body/*.go")])

prop("C11", "Bodies offer the advanced interfaces promised for their source",
 "Bodies made from bytes, strings, JSON or protobufs, empty bodies and closed bodies offer positional reads, seeking and direct write-out. Bodies made from a reader with positional reads plus seeking or Stat, and bodies made from a seekable reader without positional reads, offer seeking and positional reads. A copy offers every one of these interfaces that its original offers, at every point of the body's life, and a reader that already is a body is returned as it is, while a nil reader is rejected by a panic.",
 ["configurations", "histories"], "all combinations of optional interfaces on the source, with and without declared length, copies of copies taken in any state",
 "The tests probe the interfaces with a conditional type assertion, so a missing interface is silently skipped; copies are never made.",
 ["body/body.go"] + B, [("choice of body kind", "body/body.go: FromReader, FromReaderAndLength"), ("documented promises", "body/body.go doc comments")],
 ["type assertions on bodies and copies", "actual use of each interface"])

prop("C12", "JSON bodies carry exactly the JSON encoding of the value given",
 "A JSON body, plain or pretty, holds one complete JSON document that decodes to the same value that was given, without HTML escaping. The pretty form is indented by two spaces, uses CRLF for every line break and ends with one; the plain form is a single line. Bodies already built are unaffected by bodies built later, and a value that cannot be encoded is rejected by a panic instead of producing a partial body.",
 ["inputs", "histories"], "all JSON-encodable values (nested maps, arrays, strings with any characters, numbers, raw messages), sequences of several bodies built before any is read",
 "One test encodes one array of three ints in pretty form; the plain form is not tested (and was in fact always empty).",
 ["body/body.go", "response/builder.go"], [("encoding via pooled buffer, LF to CRLF", "body/body.go: fromJSONImpl")],
 ["contents of the body decoded again"])

prop("C13", "Protobuf bodies carry exactly the message given",
 "A binary protobuf body unmarshals, and a text protobuf body parses, to a message equal to the one given, for every message, including empty ones, and for every set of text options; without options the text form is multi-line with two-space indents. Later changes to the message do not alter the body, and a message that cannot be encoded is rejected by a panic instead of producing a partial body.",
 ["inputs"], "all messages of several well-known types with nested, repeated, map and optional fields; all text marshalling options",
 "No existing test builds a protobuf body.",
 ["body/body.go", "response/builder.go"], [("encoding", "body/body.go: FromProto, FromProtoText")],
 ["contents of the body decoded again"])

prop("C14", "A declared length bounds what is taken from the source",
 "When a length is known, whether declared by the caller or measured, the body and all of its copies together never deliver a byte beyond it and never ask the source for bytes beyond it, so that whatever follows in the source stays unread. If the source turns out shorter than declared, bodies deliver all the bytes there are and then report end-of-file, and the remaining count of a body that has reached end-of-file is 0.",
 ["inputs", "histories"], "all declared lengths below, at and above the source's real length, all kinds of sources, all histories over up to eight copies",
 "The length-taking constructor is not called by any test.",
 ["body/body.go"] + SRC, [("clamping of reads to the length", "body/*.go: Read, ReadAt"), ("clamped read-ahead", "body/buffered.go: Read")],
 ["offset and size of every call the source receives", "bytes delivered"])

prop("C15", "Streaming keeps in memory only what some open copy has yet to read",
 "A body over a plain forward-only reader retains only the bytes that some open copy still has to read, plus a bounded read-ahead. Streaming any amount of data through copies that advance together needs bounded memory, and what was retained for a lagging copy is released once that copy catches up or is closed and streaming goes on.",
 ["histories", "inputs"], "stream lengths far above the bound, any number of copies, any lag up to a bound, laggards that catch up, close early or never read",
 "The tests stream 4 bytes.",
 ["body/buffered.go"], [("dropping the consumed prefix", "body/buffered.go: advance, updateStart, unref")],
 ["live heap after garbage collection while streaming"],
 [("start, refcnt, bytes", "retained window and number of copies at its start", "body/buffered.go: bufferedCommon")])

prop("C16", "Impossible byte counts from a source or writer are rejected, never believed",
 "If a source reports a negative count or more bytes than it was given room for, or a writer being drained into does so, the operation panics rather than returning such a count or data; the same holds for a negative size from Stat or Seek during construction, and for negative counts from the client connection under a wrapped response writer. No operation ever returns a count outside 0 to the buffer size.",
 ["fault_sequences"], "all kinds of sources and writers, any position in the stream, any wrong count",
 "The scripted mock refuses to produce such counts.",
 ["body/body.go", "body/bytes.go", "response/writer.go"] + SRC, [("assertions on counts", "assert.Assertf calls in body/*.go, response/writer.go")],
 ["panic or error vs. returned count"])

prop("C17", "Construction measures the source correctly or fails with its error",
 "Given an explicit non-negative length, construction uses it and does not measure the source; otherwise it takes the size from Stat, or else from seeking to the end, and otherwise the length is unknown (a negative explicit length means not given). If measuring fails, construction returns an error wrapping the source's error and no body, so a body is never built on a wrong length; the source is then still open and the caller's.",
 ["configurations", "fault_sequences"], "all combinations of source interfaces, explicit lengths and failures of Stat, seek-to-end and rewind",
 "The tests cover measuring that succeeds; failures and explicit lengths are not exercised.",
 ["body/body.go"], [("measuring", "body/body.go: FromReaderAndLength")],
 ["constructor result", "BytesRemaining of the new body", "calls received by the source"])

prop("C18", "A built response is exactly what the builder was told",
 "A response built from any sequence of builder calls has the status last set (200 if none), exactly the headers resulting from those calls in order (replace, append, remove, wholesale), the body and the error last set. A Content-Type of application/octet-stream is added only when that header is absent, and a Content-Length equal to the body's remaining bytes is added only when that header is absent and the number is known; building without a body panics.",
 ["histories", "inputs"], "all sequences of builder calls with arbitrary header names, values, statuses, bodies of known and unknown length (also partly consumed), and errors",
 "The response package has no tests.",
 ["response/builder.go", "response/response.go", "response/util.go"], [("With* methods and Build", "response/builder.go")],
 ["Response Status/Headers/Body/Err and builder getters"])

prop("C19", "A builder is clean after Build, and a rejected call leaves it unchanged",
 "After Build the builder has no status, headers, body or error left and only keeps its page generator, so the next response built with it is not influenced by the previous one. A builder call with an invalid argument (status outside 200 to 999, redirect code outside 300 to 399, empty location, header name or digest, unparsable content type, nil body or generator, nil error for an error page, or unencodable payload) panics and leaves status, headers, body, error and generator as they were.",
 ["histories", "inputs"], "all sequences of valid and invalid builder calls and builds on one builder",
 "The response package has no tests.",
 ["response/builder.go"], [("reset in Build", "response/builder.go: Build"), ("assertions before assignment", "response/builder.go: With*, RedirectPage, ErrorPage")],
 ["builder getters", "responses built"])

prop("C20", "Copies of builders and responses are independent of their originals",
 "A copy of a builder or of a response has the same status, headers, error, page generator and remaining body bytes as the original. Afterwards changing, building, serving or closing one never changes the other, headers handed in by a caller are never shared with the builder, and copies of one response may be served concurrently, also through writers that modify their header map. If the body cannot be copied, copying fails with the body's error, makes nothing, and leaves the original as it was.",
 ["histories", "schedules"], "all trees of builder and response copies under generated changes, builds, serves and closes; concurrent serving of copies through header-modifying writers",
 "The response package has no tests.",
 ["response/builder.go", "response/response.go", "response/util.go"], [("deep copy of headers and body", "response/util.go: copyHeaders, copyBody"), ("Copy", "response/builder.go, response/response.go")],
 ["getters and served output of both sides", "race detector"])

prop("C21", "Generated pages are safe, self-consistent and use the chosen generator",
 "A generated redirect page carries the given code, the (trimmed) location as its Location header, and an HTML document that shows and links to the location, escaped so that no location can inject markup, and that may be cached for a day but not reused when stale; a generated error page carries the given code and its standard text as one line of plain text, may not be reused from a cache unchecked, remembers the error for the server side, and never shows the error's text to the client. Both carry a Content-Length equal to the body and replace any earlier headers, body and error of the builder. If a page generator was set on the builder it is the one consulted, with exactly the given arguments, and its headers and body are used; otherwise it is the package's default generator of that moment.",
 ["inputs", "histories"], "all codes, all location strings (including markup, quotes, non-ASCII, control characters), all errors, default and custom generators, any earlier builder state",
 "The response package has no tests.",
 ["response/pagegen.go", "response/builder.go"], [("default pages", "response/pagegen.go"), ("RedirectPage, ErrorPage", "response/builder.go")],
 ["headers and body of the resulting response"])

prop("C22", "Header helpers produce well-formed headers that mean what was asked",
 "Setting a content type yields one Content-Type header without line breaks, that parses to the same media type and parameters as the input, and an unparsable one is refused. Entity tags come out quoted, with the weak prefix exactly when not strong; each digest is appended, keeping earlier ones, as the algorithm name, an equals sign and the base64 of exactly the given bytes; language and encoding are trimmed and replace earlier values. Payload helpers set the body and the content type that belongs to the payload.",
 ["inputs", "histories"], "all parsable media types with arbitrary parameters, all tags, digests, languages, encodings and payloads, in any sequence",
 "The response package has no tests.",
 ["response/builder.go"], [("WithContentType, WithETag, WithDigest, ...", "response/builder.go")],
 ["headers after each call, parsed back"])

prop("C23", "Serving sends status, headers and body exactly once and always closes the body",
 "Serving a response writes its status exactly once, all of its headers (except the push list) with all their values in order, and exactly the remaining bytes of its body, to any response writer; it returns nil exactly when everything succeeded, and otherwise the error of the push, source, client connection or body close that failed. Targets in the push list are pushed in order before the header when the writer can push, and a writer that does not support push is not an error. The body is closed exactly once whatever happens, even when a push fails or the writer panics.",
 ["inputs", "fault_sequences"], "all responses over all body kinds, all response writers (with or without push, ReadFrom, Flush, pre-set headers), failures at every step",
 "The response package has no tests.",
 ["response/response.go"], [("Serve", "response/response.go: Serve")],
 ["events seen by the response writer, push calls, closes of the source"])

prop("C24", "The response writer wrapper accounts for exactly what went to the client",
 "The wrapper forwards exactly one final status (the first one set, 200 if writing, streaming or flushing starts without one), before any body byte; the status, byte count and error indication it reports are exactly the forwarded status (0 before), the number of body bytes the client connection accepted, and whether a body write failed or a second status was attempted. A second explicit status panics and is not forwarded, whereas an optional one is ignored; a number outside 100 to 999 is refused by a panic and never forwarded. For HEAD requests and 204 responses body bytes are accepted in full but none is forwarded.",
 ["histories", "fault_sequences"], "all sequences of status (200 to 999), write, stream, flush, push and re-wrap operations, for all methods, all underlying writer capabilities and failing or partial underlying writes",
 "The response package has no tests.",
 ["response/writer.go"], [("basicWriter, flushWriter, fancyWriter", "response/writer.go")],
 ["events at the underlying writer vs. Status/BytesWritten/SawError"],
 [("status, bytes, sawError", "accounting state", "response/writer.go: basicWriter")])

prop("C25", "Wrapping a response writer keeps its capabilities and never wraps twice",
 "A wrapper offers flushing when the underlying writer does, and flushing, hijacking, close notification and streaming from a reader when the underlying writer offers all four; each forwards to the underlying writer and returns its results unchanged, and capabilities the underlying writer lacks are not advertised. Push is forwarded when the underlying writer supports it and otherwise reports that it is unsupported. The header map is the underlying writer's own, unwrapping gives back the underlying writer, and wrapping a wrapper returns it unchanged; wrapping without a writer or a request panics.",
 ["configurations", "histories"], "all sixty-four combinations of optional capabilities of the underlying writer, all operation results and errors",
 "The response package has no tests.",
 ["response/writer.go"], [("NewWriter", "response/writer.go: NewWriter")],
 ["type assertions on the wrapper", "calls received by the underlying writer"])

prop("C26", "A failing handler never takes the server down and is reported exactly once",
 "Whatever a handler does (panics with any value, returns an unusable response, or its response fails while being pushed, streamed or closed), serving the request does not panic: if no status was sent yet the client gets a 500, and a status already sent is left alone. The failure is reported to the panic hook exactly once per failed request, as the very error if it was one and otherwise wrapped with its value, and the hook is not called for requests that succeed. Either way the body of a response that was served is closed by then.",
 ["fault_sequences", "inputs"], "all panic values, failure points (before, during and after the header), methods and writers, sequences of good and bad requests through one adaptor",
 "The handler package has no tests.",
 ["handler/adaptor.go", "handler/onpanic.go"], [("deferred recover", "handler/adaptor.go: ServeHTTP")],
 ["panic hook calls", "events at the response writer"])

prop("C27", "Request metrics agree with what was actually sent to clients",
 "Each request served increases the request counter by exactly one under the status code the client was actually sent, adds exactly the body bytes the client connection accepted to the sent-bytes counter of that code and to the sent-bytes histogram, and adds the wall-clock seconds from before the handler started to after the last body write, and no more than the request took, to the latency counter of that code and, as one observation, to the latency histogram. The panic counter increases by one exactly for requests that failed. The default registry exports the same values. This holds for any sequence of requests, including concurrent ones.",
 ["histories", "schedules", "fault_sequences"], "all sequences of successful and failing requests with arbitrary statuses, body sizes, methods and connection failures, sequential and concurrent (except that nothing panics inside a connection's ReadFrom, where the accepted count is lost)",
 "The handler package has no tests.",
 ["handler/adaptor.go", "response/writer.go"], [("metrics in the deferred block", "handler/adaptor.go: ServeHTTP")],
 ["Prometheus metric deltas vs. events at the response writer"])

prop("C28", "Over real HTTP the client gets exactly the response that was built",
 "A client of a real HTTP server (HTTP/1.0, HTTP/1.1 or HTTP/2) using the handler adaptor receives exactly the built status, headers and body, with the right Content-Length when the length is known, and no body for HEAD or 204; concurrent clients served copies of one response each receive all of it. If the response fails after its header was sent, the client never receives a response that looks complete but is not.",
 ["inputs", "schedules", "fault_sequences"], "all responses over all body kinds and sizes, methods GET, HEAD, POST, PUT, PATCH, DELETE and OPTIONS with any headers, all protocol versions, sequential and concurrent clients, bodies failing at any point",
 "There are no end-to-end tests.",
 ["handler/adaptor.go", "response/response.go", "response/writer.go", "body/body.go"], [("Adaptor over net/http", "handler/adaptor.go"), ("Serve", "response/response.go")],
 ["what net/http's client receives over an in-memory connection"])

prop("C29", "The scripted mock reader replays its script and stops at the first deviation",
 "Calls made to the mock reader in the order of its script receive exactly the scripted results and data, through every capability wrapper. The first call that differs from the script in operation, offset, whence, mark or buffer size, or comes after its end, panics with an error identifying the index, the expected and the actual call. A script with a byte count that no call could return is refused when it is written.",
 ["histories"], "all scripts and all call sequences, equal to the script or deviating from it at any point",
 "The mock underlies other tests, always with a matching call sequence; its ability to detect a deviation is untested.",
 ["internal/mockreader/mockreader.go", "internal/mockreader/wrapper111.go"], [("expectation matching", "internal/mockreader/mockreader.go: next, Matches")],
 ["results and panics of the mock"])

prop("C30", "What callers hand in is never changed, and lent buffers are not kept",
 "No operation changes what it is given: the slice behind a bytes body, JSON values, messages and text options, header maps, digests, written data, push options, and requests stay as they were, including the room behind slices; serving does not change the response either. What is given for the length of a call is not used afterwards: when the caller overwrites a read buffer, written data, a value, options or a header map after the call, nothing that anybody observes changes, and nothing is written into a lent buffer later.",
 ["inputs", "histories"], "all values, messages, options and headers, all histories of body and writer operations whose buffers are reused and overwritten, all requests",
 "Tests look at results and use fresh arguments every time, so aliasing and changes to the arguments are invisible to them.",
 ["body/body.go", "body/bytes.go", "body/buffered.go", "response/builder.go", "response/response.go", "response/writer.go", "handler/adaptor.go"], [("FromProtoText", "body/body.go"), ("buffered reads", "body/buffered.go: Read"), ("WithHeaders", "response/builder.go"), ("Push", "response/writer.go"), ("ServeHTTP", "handler/adaptor.go")],
 ["arguments before and after each call", "results with buffers reused and not reused"])

prop("C31", "Descriptions and error texts identify what they describe",
 "A response's description shows its status and the exact number of remaining bytes, or none while that is unknown, at any point of the body's life, and describing changes nothing. Seek and positional-read errors show the offending value, seek errors of different kinds read differently, the panic on a second status names both statuses, and the error for a panic value shows the value's type (and plain values themselves) for every value, without panicking. Descriptions of scripted mock calls name the operation and differ whenever the calls or their scripted results differ, also when made concurrently.",
 ["inputs", "histories", "schedules"], "all statuses, bodies and histories of reading, copying and closing; all offsets and whences; all panic values; all pairs of scripted calls",
 "No test looks at a description; they are what operators and test authors see of a failure.",
 ["response/response.go", "body/errors.go", "body/bytes.go", "handler/onpanic.go", "internal/mockreader/mockreader.go", "internal/mockreader/util.go", "internal/mockreader/op.go"], [("String", "response/response.go"), ("seek errors", "body/errors.go"), ("PanicError", "handler/onpanic.go"), ("StringTo, GoStringTo", "internal/mockreader/mockreader.go")],
 ["texts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
