use crate::engine::Scenario;
pub mod body;
pub mod chan;
pub mod failure;
pub mod file;
pub mod gateway;
pub mod hostile;
pub mod memory;
pub mod message;
pub mod multimap;
pub mod negotiate;
pub mod nodes;
pub mod proxy;
pub mod query;
pub mod render;
pub mod shield;
pub mod state;
pub mod media;
pub mod records;
pub mod typed;

pub struct Prop {
    pub id: &'static str,
    pub run: Scenario,
    pub quick_runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
const REAL_BODY: &[&str] = &["http_types::Body / Request / Response (all of it)", "futures-lite and async-std I/O combinators", "serde_json, serde_urlencoded"];
const STUB_BODY: &[&str] = &["byte source under the body (SimReader)", "task executor, wakers and time", "process hash seed and fastrand seed"];
const REAL_CHAN: &[&str] = &["http_types trailers and upgrade modules, Request, Response", "async-channel, event-listener, futures-lite"];
const STUB_CHAN: &[&str] = &["task executor, wakers and time", "duplex transport (SimConn)", "process hash seed and fastrand seed"];
const REAL_FILE: &[&str] = &["http_types::Body file constructors, Request, Response", "async-std fs::File and its cache state machine", "std::fs down to libc calls", "infer signature table"];
const STUB_FILE: &[&str] = &["libc open/read/pread/lseek/fstat/statx/close for /simdisk paths (in-memory disk)", "async-global-executor (blocking pool as a queue the scheduler drains)", "task executor, wakers and time"];
const ASSUME_FILE: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "the infer crate's signature table is the reference for what a signature means", "a file that shrinks below its size at opening may end early; its remaining bytes must still be exact"];
const REAL_HDR: &[&str] = &["http_types header collection, typed headers, Request, Response"];
const STUB_NET: &[&str] = &["network carrying header lines between nodes", "per-node wall clock (libc clock_gettime)", "task executor and time", "process hash seed and fastrand seed"];
const ASSUME_TRACE: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "damage that turns one hexadecimal digit into another, or drops or adds digits inside a field, is undetectable (no checksum; short fields are accepted by existing tests) and is not injected"];
const REAL_GATE: &[&str] = &["http_types hyperium_http conversions, Request, Response, Headers, Body", "the http crate"];
const ASSUME_GATE: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "URL fragments (which the http crate's URIs drop by design), method names in lower case (this library's method names ignore case) and relative URIs other than as refusals are not generated", "a message without a version may take any version at its first crossing"];
const ASSUME_TYPED: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "realms and credentials are printable ASCII; credentials neither begin nor end with a space; user names hold no colon (the format has no place for one)"];
const REAL_STATE: &[&str] = &["http_types Request, Response, Extensions, Body", "url, serde_qs"];
const STUB_STATE: &[&str] = &["task executor, wakers, cancellation and time", "process hash seed and fastrand seed"];
const REAL_FAIL: &[&str] = &["http_types Error, Status, macros, Body conversions, Response", "anyhow"];
const REAL_REC: &[&str] = &["http_types Method, StatusCode, Version, Request, Response, Body::into_json/from_json", "serde_json, serde value deserialisers, url"];
const STUB_REC: &[&str] = &["network carrying start lines", "disk holding the log", "byte source under bodies", "task executor, wakers and time"];
const ASSUME_MEDIA: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "parameter values beyond ASCII are not generated (header lines cannot hold them)", "a charset of utf-8 is written before the other parameters, wherever it stood"];
const REAL_COOKIE: &[&str] = &["http_types header values and collections, Request, Response, http crate conversions", "the cookie crate, which http_types re-exports"];
const ASSUME_COOKIE: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "names are tokens; values hold no semicolon, control character, outer space or outer quotes (the cookie crate, trusted, writes plain cookies as they are); a cookie with text beyond ASCII is read with escapes undone"];
const ASSUME_QUERY: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "optional texts are not empty, map keys begin with a letter and hold no brackets, and brackets travel unescaped (serde_qs, trusted, cannot tell these apart)"];
const ASSUME_NEG: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "codings without a weight rank below those with one (the existing tests fix this), an unlisted identity is not offered, and one member is not both refused and weighted in one list"];
const ASSUME_HDR: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "values are not moved out of a stored list into another (HeaderValues::append leaves its argument empty, against the type's own promise)"];
const ASSUME_PROXY: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "values hold no escaped characters (node identifiers never need them) and a list element that carries more than `for` is the last of its line (the library's reader refuses others with an error, as its tests expect)"];
const ASSUME: &[&str] = &["sampled, not exhaustive: a clean batch is evidence, not proof", "single-threaded interleaving at poll granularity; data races inside a poll are excluded by Rust's type system"];

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: body::c01, quick_runs: 500_000, level: "exploration", rule: "Random source content, declared length (absent, short, exact, long, beyond 32 and 64 bits), carrier stack (body, request, response, nested bodies, in-memory constructors), read-operation sequence and abandonment points, over a source that stalls, splits and wakes at random.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C02", run: body::c02, quick_runs: 500_000, level: "exploration", rule: "As C01, with random interleavings of fill/consume, read-until-delimiter, lines and plain reads.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C03", run: body::c03, quick_runs: 400_000, level: "exploration", rule: "As C01/C02 with up to four planted source errors (nine kinds, transient or sticky) at random positions, and whole-body conversions over the same sources.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C04", run: body::c04, quick_runs: 400_000, level: "exploration", rule: "Random valid and invalid text, JSON and form content, delivered in random chunks with stalls; conversions on bodies and messages, some abandoned part-way.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C05", run: body::c05, quick_runs: 400_000, level: "exploration", rule: "Random chain trees (up to five leaves) of bodies with random declared lengths and pre-read amounts, read plainly and buffered over stalling, splitting sources.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C06", run: message::c06, quick_runs: 400_000, level: "exploration", rule: "Random histories of up to 14 set/replace/swap/take/convert/clone/retype operations over up to six messages and loose bodies, interleaved with partial, stalled and abandoned reads; at the end every holder is read concurrently.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C07", run: file::c07, quick_runs: 300_000, level: "exploration", rule: "Random file contents (14 signatures whole or cut, text, zeros, noise; 0 to 11 kB), extensions, entry points and prior cursor positions, read and converted with random sizes through bodies, messages and chains over a simulated disk with short reads, planted open/stat/read/seek errors, concurrent growth and truncation, and abandoned operations.", real: REAL_FILE, stub: STUB_FILE, assumptions: ASSUME_FILE },
    Prop { id: "C08", run: chan::c08, quick_runs: 400_000, level: "exploration", rule: "Up to three messages; sender and receiver created in any order, before, during or after the other side's use, moved between tasks, delayed, dropped unsent or unpolled, or cancelled after any number of polls; the message's owner lets go at any time.", real: REAL_CHAN, stub: STUB_CHAN, assumptions: ASSUME },
    Prop { id: "C09", run: chan::c09, quick_runs: 500_000, level: "exploration", rule: "As C08 for upgrade ends, with a simulated transport holding bytes sent ahead of the hand-over; the delivered connection is used in both directions.", real: REAL_CHAN, stub: STUB_CHAN, assumptions: ASSUME },
    Prop { id: "C10", run: chan::c10, quick_runs: 250_000, level: "exploration", rule: "Both ends of a simulated duplex transport wrapped in Connection, each end reading and writing concurrently with random sizes, vectored calls and abandoned operations, over capacities from 1 byte, buffering or direct transports, injected read/write/flush/close errors and resets.", real: REAL_CHAN, stub: STUB_CHAN, assumptions: ASSUME },
    Prop { id: "C11", run: nodes::c11, quick_runs: 200_000, level: "exploration", rule: "Two to four nodes with clocks that differ, drift, jump and move between looks exchange up to nine kinds of time header over a network that delays, reorders, duplicates lines and rewrites dates in old forms; instants over 1970-9999 with turns of day, month, year, leap days and word sizes favoured.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME },
    Prop { id: "C12", run: nodes::c12, quick_runs: 300_000, level: "exploration", rule: "Random call trees (up to 24 hops, depth 4) of nodes passing trace contexts in requests, responses and bare header collections, from own or foreign roots, over a network that delays, duplicates, loses and damages lines.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_TRACE },
    Prop { id: "C13", run: gateway::c13, quick_runs: 400_000, level: "exploration", rule: "Requests and responses starting on either side, with random methods, statuses, versions, URLs and repeated headers, cross up to five times between this library's types and the http crate's at random points of reading a stalling, splitting or failing body; headers are added on either side on the way, and some crossings carry a part the other side has no form for.", real: REAL_GATE, stub: STUB_BODY, assumptions: ASSUME_GATE },
    Prop { id: "C14", run: multimap::c14, quick_runs: 75_000, level: "exploration", rule: "Up to three concurrent tasks work on up to four header collections (bare, request, response, trailers) with random histories of insert, append, in-place change, removal, refused lines, copying, taking apart and hops on which the network reorders, re-cases, repeats and loses lines; every way of looking is compared with a multimap after each step, in processes with different hash seeds.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_HDR },
    Prop { id: "C15", run: hostile::c15, quick_runs: 300_000, level: "exploration", rule: "Sound lines of up to seven of 37 header kinds pass one or two hops that truncate, flip bits, splice, lose, stutter, duplicate, reorder, misname, re-case or replace them with hostile bytes; 38 readers then read, use and write back everything, on a node with a memory limit; readers of intact lines are compared with the same lines alone.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME },
    Prop { id: "C16", run: render::c16, quick_runs: 120_000, level: "exploration", rule: "Policies (up to 40 builder calls with applications in between) and thirteen other many-membered headers (up to 30 members, wildcards) are rendered on nodes with different hash seeds, sent as one line or several, joined or not on the way, read back, extended by relays and sent on.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME },
    Prop { id: "C17", run: memory::c17, quick_runs: 400_000, level: "exploration", rule: "Random valid and invalid content for each conversion, in one to three chained, nested and re-carried parts whose declared lengths run up to the maximum, over stalling, splitting, failing sources; the node may use 256 KiB and a fixed amount per received byte, beyond which requests are counted or fail.", real: REAL_BODY, stub: STUB_BODY, assumptions: ASSUME },
    Prop { id: "C18", run: proxy::c18, quick_runs: 200_000, level: "exploration", rule: "One to three requests travel through up to five proxies each - passing on, writing Forwarded through this library, writing it as another implementation would (any order, case, quoting, own line or joined), or writing X-Forwarded lines - over a network that joins, splits, re-cases, reorders and loses lines; every look at who the request is from and where it goes is compared with a record of what was written, at every node.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_PROXY },
    Prop { id: "C19", run: state::c19, quick_runs: 300_000, level: "exploration", rule: "One or two tasks build up to seven messages each and hand them to handlers that store, change, replace, remove, clear and exchange typed values (eight types, counted while they live), change metadata, bodies, headers, channels and queries, copy messages, drop them or keep only their body, and are cut short at any point; after each step every value alive and everything the message says is compared with a record.", real: REAL_STATE, stub: STUB_STATE, assumptions: ASSUME },
    Prop { id: "C20", run: typed::c20, quick_runs: 300_000, level: "exploration", rule: "One or two messages travel up to five hops; on every node up to six of thirteen single-valued headers are written by their types, or as another implementation spells them, as a new line or a further one; the network loses, duplicates, reorders and re-cases lines; relays with different base URLs copy lines or read and rewrite them; every reader is compared with a record on every node.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_TYPED },
    Prop { id: "C21", run: failure::c21, quick_runs: 500_000, level: "exploration", rule: "Stacks of up to six handlers, inline or on tasks that may be cut short, over an innermost one that fails in sixteen ways (own errors, I/O errors, texts, macros, missing values, bodies whose source fails) or gives a value; each layer passes on, annotates (eagerly or lazily), converts, wraps, inspects, changes, re-raises or handles what comes from below; after each layer the failure is compared with a record.", real: REAL_FAIL, stub: STUB_STATE, assumptions: ASSUME },
    Prop { id: "C22", run: negotiate::c22, quick_runs: 300_000, level: "exploration", rule: "Up to three requests with up to seven weighted, overlapping, refused or wildcard members in Accept, Accept-Encoding or TE, built by the types or spelled by another implementation, travel up to four hops that join, split and lose lines, past relays that negotiate, look again, and rewrite; each choice among random offers is compared with a reference.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_NEG },
    Prop { id: "C23", run: records::c23, quick_runs: 300_000, level: "exploration", rule: "Start-line parts pass up to six relays that read and write them over a network that damages characters, and logs of up to seven serialised records, in this library's or a foreign spelling, are torn by crashes and read back through splitting, interrupted and failing disks and bodies; every text and number, registered or not and of any width, is compared with the registry tables.", real: REAL_REC, stub: STUB_REC, assumptions: ASSUME },
    Prop { id: "C24", run: media::c24, quick_runs: 200_000, level: "exploration", rule: "One or two messages carry a media type - declared by the library, by an extension, or with up to four parameters in any spelling - over up to six hops that damage, respell, repeat or lose its line, past relays that read, strip, compare and rewrite it; every reading is compared with a reference of the WHATWG algorithm.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME_MEDIA },
    Prop { id: "C25", run: query::c25, quick_runs: 300_000, level: "exploration", rule: "One or two requests travel up to six hops on which queries are put in (records of texts, numbers, lists, nested records and maps), written another way (escapes, order, unknown fields), damaged, partly lost, refused, or passed on as text, as copies and through the http crate; on every node the query is read three ways and compared with what was asked.", real: REAL_STATE, stub: STUB_STATE, assumptions: ASSUME_QUERY },
    Prop { id: "C26", run: shield::c26, quick_runs: 400_000, level: "exploration", rule: "One or two messages (requests, responses, bare header collections) that carry anything under any protective name pass up to five layers that apply protections, are cut short at any point and repeated, nodes that write what they like, and hops that reorder, re-case and lose lines, copy messages or take them through the http crate; after every single call every header is compared with a record.", real: REAL_HDR, stub: STUB_NET, assumptions: ASSUME },
    Prop { id: "C27", run: shield::c27, quick_runs: 500_000, level: "exploration", rule: "One or two messages are given up to eight cookies with random names, values and attributes, written plainly or with escapes, over up to six hops that reorder, re-case and lose lines, copy messages or take them through the http crate; on every node every cookie is read back and compared with what was set.", real: REAL_COOKIE, stub: STUB_NET, assumptions: ASSUME_COOKIE },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
