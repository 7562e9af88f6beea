#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Streamed body bytes are exact under every read schedule",
 "Reading a message body to its end - directly, or through the request or response that carries it - yields exactly the bytes its source supplies, in order and unaltered, cut off at the body's declared length when it has one, however reads are sized or abandoned, however the source splits its data and however often it stalls. After the end every further read reports end of input, no byte beyond the declared length is taken from the source, and a read that had to wait is woken when the source has data.",
 ["schedules","inputs","histories"],"every source content, declared length (absent, short, exact, longer, huge), read-size sequence, chunking, stall/wake schedule and cancellation of a pending read, for every way of carrying the body",
 "The tests read in-memory cursors that are always ready and never split: they sample one content and a dozen read sizes and never a pending, short or spuriously woken read.",
 ["src/body.rs","src/request.rs","src/response.rs"],
 [("length-limited read","Body as AsyncRead::poll_read, src/body.rs"),("delegation","AsyncRead for Request/Response, src/request.rs, src/response.rs")],
 [("length","declared length, never changes while reading","src/body.rs"),("bytes_read","bytes already handed out, counted against the declared length","src/body.rs")],
 ["AsyncRead of Body, Request, Response","Body::len / is_empty","bytes left in the underlying source"])

p("C02","Buffered body reads obey the same content and declared length",
 "Reading a body through its buffered interface (looking at available bytes and consuming them, reading lines, or reading up to a delimiter), alone or interleaved in any order with plain reads, yields the same bytes and the same cut-off at the declared length as plain reads: nothing repeated, skipped, or beyond the declared length. This holds through the request or response that carries the body, for every chunking and stall schedule of the source.",
 ["schedules","inputs","histories"],"every interleaving of fill/consume/read/line/delimiter operations over every source chunking, stall schedule and declared length",
 "No test reads a body through its buffered interface with a declared length, nor mixes the two interfaces, nor uses a source that splits or stalls.",
 ["src/body.rs","src/request.rs","src/response.rs"],
 [("length limit","Body as AsyncBufRead, src/body.rs"),("delegation","AsyncBufRead for Request/Response")],
 [("bytes_read","bytes already handed out","src/body.rs")],
 ["AsyncBufRead of Body, Request, Response"])

p("C03","Source failures surface exactly once, in place, and never become data",
 "When the source of a body fails or is interrupted part-way, the reader is given that very failure at that point, after exactly the bytes that precede it, and a caller who retries a transient failure continues at exactly the next byte with the declared length still counted correctly. Converting such a body to bytes, text, JSON or form data returns either an error carrying the source's failure or, when a transient failure was retried, the complete value - never a shortened or altered success.",
 ["fault_sequences","schedules","histories"],"every position, kind and repetition of source errors, combined with every chunking, stall schedule, declared length and read interface",
 "No test has a failing source: every reader in the suite is an in-memory cursor or a real file that reads without error.",
 ["src/body.rs","src/request.rs","src/response.rs"],
 [("error propagation","poll_read / poll_fill_buf, into_bytes/into_string/into_json/into_form in src/body.rs")],
 [("bytes_read","must not count bytes of a failed read","src/body.rs")],
 ["io::Error kind and message returned by reads","Result of the whole-body conversions"])

p("C04","Whole-body conversions are all-or-error under every delivery",
 "Turning a body into bytes, text, JSON or form data - on the body itself or through the request or response carrying it - returns exactly the value encoded by the source's bytes up to the declared length, however the source splits them (inside multi-byte characters and tokens included) and however often it stalls. Content that is not valid for the requested form yields a client-side (4xx) error and no value, a message whose body was converted is left with an empty body, and dropping an unfinished conversion disturbs nothing else.",
 ["schedules","inputs","crash_points"],"every content, declared length, chunking, stall schedule and cancellation point, for every conversion and carrier",
 "The tests convert ready in-memory bodies only; no chunk boundary ever falls inside a character or token, and no conversion is ever suspended or dropped.",
 ["src/body.rs","src/request.rs","src/response.rs"],
 [("conversions","Body::into_bytes/into_string/into_json/into_form"),("message helpers","body_bytes/body_string/body_json/body_form in src/request.rs and src/response.rs")],
 [],["returned value or Error::status()","body left in the message"])

p("C05","Chained bodies concatenate exactly",
 "A body made by chaining two bodies reads as what remained unread of the first followed by what remained unread of the second, each cut at its own declared length, whatever had been read from either before, however deep the chain, whichever interface (plain or buffered) reads it and however the sources split or stall. Its declared length is the sum of the remaining lengths when both are known and the sum fits, and unknown otherwise; its media type is the common one, or the generic binary type when they differ.",
 ["schedules","inputs","histories"],"every chain shape, pre-read amounts, declared lengths (including overflowing sums), chunking and stall schedules",
 "The tests chain ready in-memory bodies, partially read before in only a few fixed ways, and never through the buffered interface or with stalling sources.",
 ["src/body.rs"],[("chain","Body::chain, src/body.rs"),("length limit","Body as AsyncRead/AsyncBufRead")],
 [("length","sum of the remaining lengths","src/body.rs")],["Body::len, Body::mime, bytes read"])

p("C06","Bodies move between messages whole, at any point of reading",
 "Setting, replacing, swapping or taking the body of a request or response, or turning a message into its body, moves the body as a whole even when it is part-way read: reading it at its new place continues at exactly the next byte with its declared length and media type unchanged, and the place it left holds exactly the other body (or an empty one). A message without a content type takes the media type of the body being installed; an existing content type is never overwritten.",
 ["histories","schedules"],"every sequence of set/replace/swap/take/convert operations over several messages and loose bodies, interleaved with partial, stalled and abandoned reads",
 "The tests perform one such operation on unread in-memory bodies; histories of several operations over partly read, stalling bodies are never formed.",
 ["src/request.rs","src/response.rs","src/body.rs"],
 [("body slot","set_body/replace_body/swap_body/take_body in src/request.rs and src/response.rs"),("content type copy","copy_content_type_from_body"),("conversion","From<Request>/From<Response> for Body")],
 [("body","the single owner of the stream position","src/request.rs, src/response.rs")],
 ["bytes read from every holder afterwards, content-type header, len()"])

p("C07","File bodies are exact and correctly typed under disk faults",
 "A body made from a file reports the file's size, yields exactly the file's bytes from its very start (cut at that size if the file grows meanwhile), and takes its media type from the signature in the file's leading bytes, else from the path's extension, else the generic binary type - however many bytes each disk read returns, however long disk operations take and wherever the file's cursor stood. A disk error while opening or reading comes back as an error, never as missing, repeated or altered bytes or a wrong type.",
 ["fault_sequences","schedules","inputs"],"every file content and size, extension, disk read-size sequence, operation delay, interrupt or error position, and concurrent growth or truncation",
 "The tests read a handful of small real files on a disk that never returns short reads, delays, errors or concurrent changes.",
 ["src/body.rs","src/mime/mod.rs"],
 [("file body","Body::from_path/from_file/from_file_with_path"),("type detection","peek_mime and guess_ext, src/body.rs")],
 [("file cursor","rewound to the start after the type was detected","src/body.rs")],
 ["Body::len, Body::mime, bytes read, io::Result"])

p("C08","Trailers are delivered exactly once, whole, under every schedule",
 "Trailers sent through a request's or response's trailer sender arrive at that message's trailer receiver exactly once with every name and value unchanged, in whichever order the two sides are created, moved to tasks, polled, delayed or woken. If the sender disappears without sending, the receiver ends with nothing instead of waiting forever, and a sender never blocks or fails because its receiver is late or gone.",
 ["schedules","crash_points"],"every interleaving of the sending and receiving tasks and the message's owner, and cancellation of either side at every point",
 "The tests run one ordering on a real executor; lost wake-ups, early drops and cancellations at particular points are not reached.",
 ["src/trailers.rs","src/request.rs","src/response.rs"],
 [("channel hand-off","trailers::Sender/Receiver, src/trailers.rs"),("end points","send_trailers/recv_trailers/has_trailers in src/request.rs, src/response.rs")],
 [("trailers_sender / trailers_receiver","each end can be taken once","src/request.rs, src/response.rs")],
 ["output of the receiver future, completion of the send future"])

p("C09","A connection upgrade is handed over exactly once",
 "A connection sent through a response's upgrade sender arrives at that response's upgrade receiver exactly once, as that very connection with its buffered bytes intact, in whichever order the two sides are created, moved to tasks, polled, delayed or woken. If the sender disappears without sending, the receiver ends with nothing instead of waiting forever; if the receiver is gone, sending still completes and the connection is closed rather than kept.",
 ["schedules","crash_points"],"every interleaving of sender, receiver and response owner, and cancellation of either side at every point",
 "No existing test exercises the upgrade channel at all.",
 ["src/upgrade/sender.rs","src/upgrade/receiver.rs","src/upgrade/connection.rs","src/response.rs"],
 [("channel hand-off","upgrade::Sender/Receiver"),("end points","send_upgrade/recv_upgrade/has_upgrade, src/response.rs")],
 [("upgrade_sender / upgrade_receiver","each end can be taken once","src/response.rs")],
 ["output of the receiver future, bytes read from the delivered connection, drop of the transport"])

p("C10","An upgraded connection is a transparent duplex stream",
 "Bytes written to an upgraded connection reach its transport, and bytes arriving on the transport are read from the connection, exactly and in order in both directions at once, with partial reads and writes, stalls, resets and half-closes reported as the transport reports them. Flushing and closing reach the transport: after a successful flush every accepted byte is on the transport, and after a successful close the peer sees end of input.",
 ["schedules","fault_sequences","histories"],"every interleaving of reads, writes, flushes and closes on both ends, with arbitrary capacity, chunking, delays and transport errors",
 "No existing test touches an upgraded connection.",
 ["src/upgrade/connection.rs"],[("delegation","AsyncRead/AsyncWrite for Connection, src/upgrade/connection.rs")],
 [],["bytes and results seen at both ends of the transport"])

p("C11","Time-based headers are right under any clock",
 "A date header made for the current time states the clock's instant, an expiry made from a duration states the clock's instant plus that duration, and a relative retry delay is counted from the instant it is asked about, while absolute times never depend on the clock. Sent to another node whose clock differs or jumps, each reads back as the same instant to the second and keeps its order relative to other instants, in any of the three date formats of HTTP. A date line damaged on the way so that it states no instant any more is refused with status 400, never read as another one.",
 ["schedules","inputs","fault_sequences"],"every instant a clock between 1970 and 9999 can show, every skew between nodes, every forward or backward jump between creating, sending and evaluating the header",
 "The tests run on the real clock within one second of now, in one process, with no skew or jump, so wrong epochs, leap days, year boundaries and clock-going-backwards are not sampled.",
 ["src/other/date.rs","src/cache/expires.rs","src/other/retry_after.rs","src/utils/date.rs","src/conditional/last_modified.rs","src/conditional/if_modified_since.rs","src/conditional/if_unmodified_since.rs"],
 [("clock reads","SystemTime::now in Date::now, Expires::new, RetryAfter"),("wire format","fmt_http_date/parse_http_date, src/utils/date.rs")],
 [],["header text on the wire, instants read back, RetryAfter::duration_since"])

p("C12","Trace contexts link every hop of a call chain correctly",
 "A trace identifier started at one node is carried unchanged through every hop of a call tree, each hop names exactly its caller's span as parent, every span gets its own identifier, and the sampling choice made at a hop is what everything below it sees. A context that is absent reads as none, and one damaged in transit is rejected as a client-side error rather than crashing the node or joining it to a trace or parent that was not sent.",
 ["histories","fault_sequences","inputs"],"every shape of call tree, sampling changes at any hop, random identifier sequence (leading zeros included), roots written by other implementations (of later versions too), and loss, truncation or damage of the header at any hop",
 "The tests parse five fixed headers; no test carries a context across hops, uses identifiers with leading zeros or high bits, or receives a damaged header.",
 ["src/trace/trace_context.rs"],
 [("propagation","TraceContext::from_headers, child, header value, src/trace/trace_context.rs")],
 [("id / trace_id / parent_id / flags","span identity","src/trace/trace_context.rs")],
 ["trace_id, id, parent_id, sampled at every node; header text"])

p("C13","Gateway conversion preserves the whole message",
 "Converting a request or response to and from the `http` crate's types, any number of times and at any point of reading its body, preserves the method or status, URL (but for its fragment, which the `http` crate has no place for), version, every header with all of its values in order, and the body: the remaining bytes, in order, with the declared length still enforced while the source splits or stalls. Nothing is invented on the way (no extra header values), and a message that cannot be represented on the other side is refused with an error rather than crashing or being silently altered.",
 ["histories","schedules","inputs"],"every chain of conversions over messages with repeated headers, values outside ASCII, unusual methods and status codes, and part-read or stalling bodies, under every hash seed",
 "The tests convert one single-valued header set once, with empty or ready bodies.",
 ["src/hyperium_http.rs"],
 [("conversions","TryFrom/From between Request/Response/Headers and http types, src/hyperium_http.rs")],
 [],["fields of the converted message, bytes of its body"])

p("C14","A header collection is a faithful multimap for every history",
 "After any history of inserting, appending, replacing in place and removing headers - as lines arrive repeated, reordered, re-cased or dropped across hops - a message's headers hold exactly the surviving values: names match without regard to case, each name lists its values in arrival order, insertion replaces all previous values and returns them, appending adds, and removal forgets. Every way of looking (lookup, iteration, names, values, counting) shows that same content, for requests, responses and trailers alike and whatever the process's hash randomness.",
 ["histories","inputs","configurations"],"every operation history over names differing only in case, multi-valued names and cloned collections, and every hash seed",
 "The tests perform two or three operations on one or two names under whatever hash seed the process happens to get.",
 ["src/headers/headers.rs","src/headers/header_values.rs","src/headers/header_name.rs","src/headers/header_value.rs","src/headers/iter.rs","src/headers/names.rs","src/headers/values.rs","src/trailers.rs","src/request.rs","src/response.rs"],
 [("multimap","Headers::insert/append/remove/get, src/headers/headers.rs"),("case folding","HeaderName::from_bytes/from_str")],
 [("headers","name to values map","src/headers/headers.rs")],
 ["get, iter, names, values of Headers/Request/Response/Trailers"])

p("C15","Damaged or hostile header lines never bring a node down",
 "Whatever a faulty or hostile network does to header lines in transit - truncation, bit flips, duplication, reordering, splicing, loss - reading any typed header from the received message returns a value, nothing, or an error; it never crashes, hangs or exhausts memory, and neither does using a value that was read or writing it back out. A header that is not there reads as nothing. Where the error carries a status it is the sender's (400), except for the locations in Referer and SourceMap, which the library reports as 500. Damage to one header line never changes what another, intact header reads as.",
 ["fault_sequences","inputs"],"every sequence of in-transit faults applied to the lines of a message holding any of the typed headers the library reads",
 "The tests feed each parser a few well-formed values and a couple of fixed malformed ones; a damaged line is never generated.",
 ["src/auth","src/cache","src/conditional","src/content","src/other","src/proxies","src/security","src/server","src/trace","src/transfer","src/parse_utils.rs","src/utils/mod.rs","src/mime/parse.rs"],
 [("typed readers","every from_headers, src/**"),("shared parsing","src/parse_utils.rs, src/utils, src/mime/parse.rs")],
 [],["result of every typed reader; process liveness"])

p("C16","Rendered headers do not depend on process randomness",
 "Building the same header in different processes gives the same result: a content security policy built by the same calls renders to the same text whatever the process's hash randomness, with every directive and source present exactly once per call however often it is applied, and the set-valued and list-valued headers carry exactly the members that were put in, each in its defined order where it has one. Reading the rendered header on another node gives back the same members - none at all, one or many, with any text their syntax can carry - whether the members travel in one line or in several, however often relays read them and send them on, and when another implementation writes the same members in any spelling the syntax leaves free (white space, empty members, letter case, quoting).",
 ["configurations","histories"],"every hash seed of every node and every sequence of builder calls",
 "A test process sees one hash seed, and the existing tests use at most two directives or methods.",
 ["src/security/csp.rs","src/other/allow.rs","src/trace/server_timing/mod.rs","src/cache/cache_control/cache_control.rs","src/conditional/vary.rs","src/cache/clear_site_data/mod.rs"],
 [("sorted rendering","ContentSecurityPolicy::value, src/security/csp.rs"),("set header","Allow, src/other/allow.rs")],
 [("directives","hash map whose iteration order is random","src/security/csp.rs")],
 ["header text per node, members read back"])

p("C17","Memory follows received bytes, not declared lengths",
 "Converting a body to bytes, text, JSON or form data uses memory in proportion to the bytes actually received from its source, not to the length its sender declared: a tiny body that declares an enormous length is converted, or refused with an error, without a crash and without an allocation of the declared size. This holds on a node whose large allocations fail, however the source splits or stalls, and through chained bodies, requests and responses.",
 ["fault_sequences","inputs","schedules"],"every declared length up to the maximum, every actual content, chunking and stall schedule, with allocations above a limit failing",
 "No test declares a length larger than a few bytes over the content, measures memory, or fails an allocation.",
 ["src/body.rs"],[("initial capacity","Body::into_string/into_bytes/into_json, src/body.rs")],
 [("length","declared by the peer, untrusted","src/body.rs")],["peak and largest allocation during the conversion; panics and aborts"])

p("C18","A proxied request keeps its origin",
 "Wherever in a chain of proxies a request is looked at, its remote is the first `for` of its Forwarded headers, else the first entry of its X-Forwarded-For headers, else the transport's peer address; its host is the Forwarded `host`, else the first X-Forwarded-Host entry, else the Host header, else the host of its URL. This holds whichever of these headers each proxy wrote, in one line or several, joined or not on the way, with parameters in any order and case and values quoted or not, and whatever headers were lost. Reading the chain and adding an entry to it, in either family of headers, keeps every earlier entry in order. A line that states its receiver, its host or its protocol twice has no single answer and is refused.",
 ["histories","fault_sequences","inputs"],"every chain of proxies, each passing on, adding to or writing either family of forwarding headers in any legal spelling, over a network that joins, splits, re-cases, reorders and loses lines",
 "The tests look once at requests holding one well-formed line written by hand in one spelling, never at one that several proxies and a network have handled.",
 ["src/request.rs","src/proxies/forwarded.rs","src/parse_utils.rs"],
 [("resolution","Request::remote, Request::host, Request::forwarded_for, src/request.rs"),("reading and extending","Forwarded::from_headers, from_forwarded_header, add_for, src/proxies/forwarded.rs")],
 [("forwarded_for / host / proto / by","the chain as read","src/proxies/forwarded.rs")],
 ["remote() and host() of the request; members of Forwarded; lines written"])

p("C19","What a message carries besides its content survives every other operation",
 "Through any history of operations on messages - storing, changing, replacing and removing typed values, changing metadata, bodies, headers, channels and queries, copying, dropping, and cutting handlers short - a message holds at most one value per type, the one last stored; each value is handed back or destroyed exactly once and never lost, shared with a copy, or outliving its message. Method, URL, status, version and addresses stay as last set, a copy has them too, and a query set from a typed value reads back equal; one that cannot be decoded gives a 400 error.",
 ["histories","schedules","inputs"],"every interleaving of handlers over several messages, every type of stored value, every history of operations and every point at which a handler is cut short",
 "The tests store two values once and read them back, and set one query; no test copies, drops or abandons a message while it holds values, or counts what becomes of them.",
 ["src/extensions.rs","src/request.rs","src/response.rs"],
 [("type map","Extensions::insert/get/get_mut/remove/clear, src/extensions.rs"),("copying","Clone for Request and Response"),("query","Request::set_query/query, src/request.rs")],
 [("map","one boxed value per TypeId","src/extensions.rs")],
 ["values handed back, destructor calls, accessors of every message after every step"])

p("C20","Single-valued typed headers mean the same on every node",
 "Credentials, challenges, content and transfer codings, lengths, locations, media types, expectations, entity tags and ages written into a message by their header types read back as equal values on every node the message passes, however often relays copy the lines or read and rewrite them, when lines of different names arrive in any order, are repeated or renamed in another case. A header lost on the way reads as absent, of several lines of one name the last counts, a relative location is resolved against the reader's base and means the same everywhere once rewritten, and lines written by other implementations in another letter case or quoting, and lengths, codings, locations and types left with white space around them, read as the same values.",
 ["histories","fault_sequences","inputs"],"every value the types can hold (any realm and credentials, any URL, any number), every chain of relays that copy or rewrite, every base URL, and every loss, repetition and reordering of lines",
 "Each test writes one hand-picked value and reads it back at once from the same collection; none passes a relay, repeats or loses a line, or holds a quote, backslash, colon or large number.",
 ["src/auth","src/content/content_encoding.rs","src/content/encoding.rs","src/content/content_length.rs","src/content/content_location.rs","src/content/content_type.rs","src/transfer/transfer_encoding.rs","src/transfer/encoding.rs","src/other/expect.rs","src/other/referer.rs","src/other/source_map.rs","src/conditional/etag.rs","src/cache/age.rs"],
 [("writing","Header::header_value and apply_header of each type"),("reading","from_headers of each type")],
 [],["every reader's value on every node, after each hop"])

p("C21","Failures keep their status, cause and type through every layer",
 "An error keeps the status it was given, its causes and its concrete type from where it was raised to whoever handles it: conversion, annotation with a status or context, passing through handlers, tasks and whole-body conversions, inspection and failed downcasts change none of them except what they name. A later status replaces an earlier one, an error without one counts as a server error (500), a body refused for its content counts as a client error (422), a source's failure stays the cause of whatever the conversion of its body reports, values pass through annotation untouched, and annotations computed lazily are computed only for failures.",
 ["histories","fault_sequences","schedules"],"every stack of handlers that convert, annotate, inspect, re-raise or handle what comes from below, every failing source, and every point at which a handler is cut short",
 "The tests build one error, annotate it once and look at it at once; none passes through several layers or comes from a failing source.",
 ["src/error.rs","src/status.rs","src/macros.rs","src/body.rs"],
 [("annotation","Status::status / with_status, src/status.rs"),("error","Error::new, from_str, context, downcast, src/error.rs")],
 [("status","status carried beside the cause","src/error.rs"),("type_name","name of the concrete type","src/error.rs")],
 ["status, causes, type name and downcasts of the error at every layer"])

p("C22","Negotiation gives the same best acceptable choice on every node",
 "Wherever a request is looked at, choosing among offered media types, content codings or transfer codings gives the offer it wants most: the weight of an offer is that of the most specific member that covers it, a wildcard covers what nothing else names, a member with weight zero refuses, and when nothing offered is acceptable the choice is refused with 406. The choice does not depend on how the members were spread over lines, spelled, or written again by relays, on how often it was asked before, or on the process's hash randomness.",
 ["histories","fault_sequences","inputs"],"every list of weighted, overlapping, refused and wildcard members, every set of offers in any order, and every chain of relays that negotiate, look, and rewrite over a network that joins, splits and loses lines",
 "The tests negotiate once over two or three members straight after building them; none holds overlapping ranges, refuses a member, asks twice, or asks on another node.",
 ["src/content/accept.rs","src/content/accept_encoding.rs","src/transfer/te.rs","src/content/media_type_proposal.rs","src/content/encoding_proposal.rs","src/transfer/encoding_proposal.rs"],
 [("choice","Accept::negotiate, AcceptEncoding::negotiate, TE::negotiate"),("order","sort_by_weight and the proposals' comparison")],
 [("entries","weighted members in order","src/content/accept.rs"),("wildcard","whether anything else is acceptable","src/content/accept.rs")],
 ["the choice, or the status of the refusal, on every node; the lines relays send on"])

p("C23","Methods, statuses and versions mean the same in every record of a message",
 "Whatever one node writes about a message - its start line as text, or a serialised record of its method, URL, version and status - reads on any other node as exactly the values written, whichever of this library's text forms or conversions wrote and read it, however its source or disk splits, interrupts or stalls, and however often relays read and write it again. Each registered method, status code and version has one text or number, which reads back as it (method names in any letter case) and as no other; a status agrees with its number in every comparison and belongs to exactly the class of its first digit, versions are ordered by age, and only the read-only methods count as safe. Anything else - unknown, out of range, negative, fractional, torn by a crash or damaged - is refused with an error, never taken for another value, and never crashes the node.",
 ["histories","fault_sequences","crash_points","inputs"],"every registered value, every text and every number of every width, every damage to a start line, every log torn at any byte, and every splitting, interruption and failure of the medium it is read back from",
 "The tests convert a handful of values once in memory; none reads a value that is out of range, damaged or torn, or reads through a splitting or failing source.",
 ["src/method.rs","src/status_code.rs","src/version.rs","src/body.rs"],
 [("texts and numbers","FromStr/TryFrom/Display/serde of Method, StatusCode, Version")],
 [],["values read on every node, and their texts, numbers, classes and order"])

p("C24","Media types say what the standard says, wherever they are read",
 "A media type reads, on every node its text reaches and by every reader of it, as the WHATWG parsing algorithm the library follows says: type, subtype and parameter names in any letter case, values quoted or not, the first of several parameters of one name counting, unreadable parameters dropped, and a malformed type refused with an error (status 400 from the header reader), damaged texts included. Written by whichever way it reads back equal and its text does not change again, however often relays read and write it; looking at, comparing or removing a parameter (of a copy too) changes nothing else. One media type is within another exactly when type and subtype are covered by equality or wildcard and it has every parameter of the other with the same value. The library's own media types, by name and by file extension, are the ones documented.",
 ["histories","fault_sequences","inputs"],"every type, parameter list and spelling, every damage to the text in transit, and every chain of relays that read, strip, compare, and rewrite",
 "The tests parse a fixed table of texts once; none damages a text, passes it on, removes parameters in sequence, or compares types whose parameters differ.",
 ["src/mime","src/content/content_type.rs","src/request.rs","src/response.rs"],
 [("parsing and writing","parse/format, src/mime/parse.rs"),("ranges","Mime::subset_eq, src/mime/mod.rs"),("parameters","Mime::param/remove_param, src/mime/mod.rs")],
 [],["type, subtype, essence, parameters and text of the media type at every node"])

p("C25","A request's query means the same to its sender and to every reader",
 "A query put into a request reads back, on every node the request reaches, as exactly the record put in - any text in any field, numbers to their limits, fields absent or present, lists, nested records and maps in the order of any hash seed - whether the request travels as its URL's text, as a copy or through the http crate, and however relays escape, order or add to it. Putting a query in replaces the previous one and touches nothing else of the URL; what cannot be written is refused and changes nothing; reading changes nothing, and a request without any query reads as a record of absent fields. A query damaged in transit, or lacking what its reader needs, reads as a value or is refused as the sender's error (400); it never crashes or hangs the node.",
 ["histories","fault_sequences","inputs"],"every record, every chain of relays that pass on, respell, damage, lose part of or replace the query, and every hash seed",
 "The tests read three fixed URLs and write one record; none passes a query on, respells or damages it, or puts in text that needs escaping.",
 ["src/request.rs","src/hyperium_http.rs"],
 [("query","Request::query/set_query, src/request.rs")],
 [("url","the request's URL, its query among it","src/request.rs")],["the record read and the URL at every node; the status of a refusal"])

p("C26","Protection headers hold whatever a message carried before",
 "Applying one of the library's protections to a message, a reference to it, or its headers leaves exactly the one documented header for it, in one line, whatever the message already says under that name - in any letter case, in any number of lines, from the application, from other layers, or from an earlier attempt of the same layer that was cut short at any point - and changes no other header; applying it again changes nothing. The default set applies exactly its six documented members. Hiding what powers a server removes every line that says it, or leaves only the replacement; referrer policies add up in the order they were applied; an enforced and a report-only content policy stand beside each other, each in its latest form. Copies are independent, and every node the message reaches reads the same protections.",
 ["histories","crash_points"],"every prior content of the headers, every sequence and repetition of protections by any number of layers, every point at which a layer is cut short, and every hop between them",
 "The tests apply a few protections once to an empty message; none starts from a message that already says something, repeats or interrupts a layer, or looks at the other headers.",
 ["src/security/mod.rs","src/security/csp.rs"],
 [("protections","default, dns_prefetch_control, frameguard, powered_by, hsts, nosniff, xss_filter, referrer_policy in src/security/mod.rs"),("policy","ContentSecurityPolicy::apply, src/security/csp.rs")],
 [],["every header of the message after each call"])

p("C27","A cookie means the same to its sender and to every reader",
 "A cookie put into a message - name, value and every attribute - reads back as the same cookie on every node the message reaches, whether it is written plainly or with escapes, from a cookie or as text: one header value per cookie, in the order they were put in, with no other cookie or header changed, however many there are and however the network re-cases, reorders and loses lines of the message or it passes through copies and the http crate. Whatever text a cookie holds, the header value made from it is one a header line can carry (ASCII): text beyond it is written with escapes.",
 ["histories","fault_sequences","inputs"],"every cookie, every sequence of cookies put in or replaced, and every chain of hops that pass on, copy, convert, reorder or lose lines",
 "No test puts a cookie into a message.",
 ["src/headers/header_value.rs","src/headers/headers.rs","src/request.rs","src/response.rs","src/hyperium_http.rs"],
 [("conversion","From<Cookie> for HeaderValue, src/headers/header_value.rs"),("appending","append_header, src/request.rs, src/response.rs")],
 [],["cookie lines and the cookies read from them on every node"])

here=os.path.dirname(os.path.abspath(__file__))
out=os.path.join(here,"..","properties.jsonl")
with open(out,"w") as fh:
    for x in P: fh.write(json.dumps(x)+"\n")
print(len(P))
