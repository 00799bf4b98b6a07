"""Which obligations, stand-ins and harnesses decide each property."""
VERUS = "contract-based deductive verification of extracted source (Verus)"
A_READ = "MemRead::read_mem returns at most the requested octets, in stream order (contract assumed in unit decode, discharged for Buffered in unit io)"
A_TR = "httparse/http decide the syntax of a complete trailer section (decode_trailers is a trusted contract; the bounded stand-in exercises it)"
A_MACH = "bytes::{Bytes,BytesMut} behave as byte sequences (assumed contracts); memory is not exhausted"
A_BUF = "the caller's Buf implementation meets the bytes::Buf contract (remaining/chunk/advance describe one octet sequence)"
A_WB = "WriteBuf::buffer appends the octets of the buffer it is given (assumed in unit encode, discharged in unit io, property C13)"
A_WIRE = "the caller's transport meets rt::Read/rt::Write: poll_read appends to the unfilled part, poll_write takes a prefix and reports its length"
A_HM = "http::HeaderMap/HeaderName/HeaderValue behave as an ordered multimap of case-folded names (assumed contracts)"
A_STR = "core::str split/trim/eq_ignore_ascii_case and HeaderValue::to_str behave as documented (assumed contracts)"
A_HEADS = "Client::parse and Server::parse meet the Heads law (what they make of octets depends on the octets alone, an incomplete head consumes at most interim responses, an octet sequence without a blank line is incomplete); httparse is a dependency, the bounded stand-in exercises the law on the real parsers"
A_CONN = "Buffered, Decoder and Encoder meet in Conn the contracts discharged for them in units io, decode and encode; what conn assumes of encode_headers is discharged by the contracts of Server::encode (unit sencode) and Client::encode (unit cencode)"
A_HP = "httparse: what a head says is a function of its octets, the positions it reports lie within them and its names are header names (assumed contract, uninterpreted result)"
A_CASE = "names kept in HeaderCaseMap differ from their key in letter case only; core::fmt displays a Uri and a u64 as http and std document (assumed contracts)"
A_TIMER = "the Timer given to the builder: now() does not go back, a Sleep is ready exactly once its deadline has passed and wakes the task that polled it then; reset moves the deadline (assumed contracts)"
A_PING = "h2::PingPong: one ping may be outstanding, poll_pong answers it once (assumed contract); the lock around the shared record is held by one task at a time, and every holder keeps its invariant (the proof is of each holder, run alone)"
A_FEED = "h2 checks DATA against content-length (over HTTP/1 the dispatcher is proved to feed the body channel exactly what the decoder delivers); channels deliver in order"
A_DISP = "the dispatcher's models of the body channel's Sender, of SenderDropGuard/OptGuard (the effect of their drop, by prophecy) and of the Dispatch trait's implementations; application bodies meet http_body::Body (nothing after the end)"
DISP = ["Dispatcher::*", "lemma_none_added"]
SEND = ["Conn::write_head", "Conn::encode_head", "Conn::write_body", "Conn::write_trailers", "Conn::write_body_and_end", "Conn::end_body"]
PROPS = {
    "C01": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: every function of the chunked decoder meets a contract against an octet-by-octet specification of the coding; the bounded search on the real code (direct, server, client) only supplies failing inputs. Trusted: trailer parsing by httparse, transport reads, bytes crate.",
        verus=[("decode", ["ChunkedState::*", "Decoder::*", "lemma_*", "witness_*", "DecodedLength::*"])],
        native="c01", hooks=["decode"], assumptions=[A_READ, A_TR, A_MACH]),
    "C02": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: the limits are part of the same octet-by-octet specification the decoder is verified against; the stand-in drives streams around every limit. Trusted: as C01.",
        verus=[("decode", ["ChunkedState::*", "Decoder::decode", "Decoder::new", "Decoder::chunked", "lemma_*", "witness_*"])],
        native="c02", hooks=["decode"], assumptions=[A_READ, A_TR, A_MACH]),
    "C03": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded in length and octets: Decoder::decode meets its contract for length-delimited and close-delimited bodies; Conn::poll_read_body and every function of the dispatcher are proved to hand the application exactly what the decoder delivered, in order, and to end the body without an error only where the decoder saw its end. Trusted: transport reads, the body channel, bytes crate.",
        verus=[("decode", ["Decoder::*", "DecodedLength::*", "lemma_grew", "lemma_empty_left"]), ("conn", DISP + ["theorem_kept", "Conn::poll_read_body", "Conn::poll_read_head"])],
        native="c03", hooks=["decode"], assumptions=[A_READ, A_DISP, A_MACH]),
    "C04": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Server::parse meets a contract giving, for every sequence of field lines a head holds, the framing, the lines handed on and when a head is refused; the header readers it calls meet theirs. Trusted: httparse (which lines a head holds, and that they lie within it), http::HeaderMap, str splitting, the pointer arithmetic of header positions is verified against modelled addresses.",
        verus=[("sparse", ["*"])],
        native="c04", hooks=["role"], assumptions=[A_HP, A_HM, A_STR, A_MACH]),
    "C05": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Client::decoder and Client::parse meet contracts giving, for every head, every method and any number of interim heads before it, the framing, tunnel decision and the lines handed on, or refusal. Trusted: httparse, http::HeaderMap, str splitting, replacement of line folds (off by default).",
        verus=[("cparse", ["*"])],
        native="c05", hooks=["role"], assumptions=[A_HP, A_HM, A_STR, A_MACH]),
    "C06": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: from_digits, the list and repetition readers and DecodedLength::checked_new meet contracts against a mathematical reading of decimal numbers and comma lists. Trusted: str splitting/trimming, http::HeaderValue/HeaderMap.",
        verus=[("headers", ["from_digits", "content_length_parse*", "DecodedLength::*", "witness_num", "witness_members", "lemma_*", "<From*", "impl&%*"])],
        native="c06", hooks=["role"], assumptions=[A_HM, A_STR]),
    "C07": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Encoder::encode, encode_and_end and end meet contracts over all lengths and buffers; lemma_len_wire lifts them to every sequence of buffers; the connection and the dispatcher are proved to hand the encoder exactly the octets the application's body delivered, in order, and to count a message as complete only when its body is over and nothing is owed. Trusted: bytes::Buf implementations.",
        verus=[("encode", ["Encoder::*", "EncodedBuf::*", "<Buf for EncodedBuf>::*", "<From*", "impl&%*"]), ("chunkrt", ["lemma_len_wire"]), ("conn", DISP + SEND)],
        native="c07", hooks=["encode", "io"], assumptions=[A_MACH, A_BUF, A_WB, A_DISP]),
    "C08": dict(
        level="proof", technique=VERUS + "; Kani, full domain, for the size line",
        note="Proof, unbounded: the encoder's octets equal chunk_of/last_chunk for every buffer, and lemma_roundtrip shows every sequence of them decodes, under the decoder's own grammar, to the concatenation, the end being recognised only after the last chunk; the connection and the dispatcher are proved to hand the encoder exactly the octets the application's body delivered and to end the message only when that body is over. The size line itself (ChunkSize::new with core::fmt) is decided by Kani for every usize, all loops fully unwound. Trusted: bytes::Buf.",
        verus=[("encode", ["Encoder::*", "ChunkSize::*", "<Buf for *", "<From*", "impl&%*", "lemma_*"]), ("chunkrt", ["lemma_*"]), ("conn", DISP + SEND)],
        kani=dict(quick=["c08::size_line"], complete=["size_line"], hooks=["encode", "io"], functions={"size_line": ["src/proto/h1/encode.rs ChunkSize::new", "src/proto/h1/encode.rs <fmt::Write for ChunkSize>::write_str"]}),
        native="c08", hooks=["encode", "io"], assumptions=[A_MACH, A_BUF, A_WB, A_DISP]),
    "C09": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: encode_trailers and the header writers meet contracts; theorem_trailers shows the section holds exactly the declared and permitted lines, as a multiset. Trusted: http::HeaderMap iteration and append.",
        verus=[("encode", ["Encoder::encode_trailers", "Encoder::into_chunked_with_trailing_fields", "is_valid_trailer_field", "write_headers*", "title_case", "extend", "theorem_trailers",
            "lemma_append_lines", "lemma_collect*", "lemma_kept", "lemma_render*", "lemma_tcase"])],
        native="c09", hooks=["encode", "io"], assumptions=[A_HM, A_MACH]),
    "C13": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: every function that queues, lists or flushes outbound octets meets a contract saying octets taken by the transport followed by octets still queued equals what was queued, in order; a completed flush leaves nothing; a zero-octet write ends in an error (the loops carry termination measures). Trusted: the transport meets rt::Write, buffers meet bytes::Buf.",
        verus=[("io", ["Buffered::new", "Buffered::set_*", "Buffered::can_*", "Buffered::headers_buf", "Buffered::write_buf", "Buffered::buffer", "Buffered::has_buffered_write", "Buffered::poll_flush*", "Buffered::poll_shutdown",
            "WriteBuf::*", "Cursor::*", "BufList::*", "<Buf for *", "impl&%*", "slices_len", "lemma_*", "vx_*"]), ("encode", ["<Buf for EncodedBuf>::*", "<From*"])],
        native="c13", hooks=["io"], assumptions=[A_WIRE, A_BUF, A_MACH]),
    "C14": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Rewind, Upgraded, H2Upgraded and the task that feeds an HTTP/2 tunnel meet contracts saying what is read is exactly the octets put back followed by the transport's, each once, and what is written passes through in order; theorem_handed lifts one read to any history of reads. Trusted: channels are first-in first-out, the transport meets rt::Read/rt::Write. That every upgrade path of the connection code uses them is exercised end to end by the stand-in.",
        verus=[("handover", ["*"]), ("h2up", ["*"]), ("io", ["Buffered::into_inner"]), ("sparse", ["Server::parse"]), ("conn", ["Dispatcher::into_inner", "Conn::into_inner", "Conn::pending_upgrade", "Conn::on_upgrade", "Conn::poll_read_head", "State::prepare_upgrade"])],
        native="c14", hooks=["common_io"], assumptions=[A_WIRE, A_MACH, "futures_channel::mpsc delivers in order; once the close flag is set nothing more is put into the channel; h2's SendStream sends what it is given in order"]),
    "C15": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: ReadBuf and ReadBufCursor are verified against a ghost record of which octets are initialized (slices of MaybeUninit carry the record, the unsafe casts are preconditions on it), and the tokio adapter Compat::poll_read against the same. Trusted: the modelled raw casts between [MaybeUninit<u8>] and [u8], tokio's ReadBuf.",
        verus=[("rtio", ["*"])],
        native="c15", hooks=["common_io"], assumptions=["casts between &mut [MaybeUninit<u8>] and &mut [u8] keep addresses and octets (assumed contracts with initializedness preconditions)", "tokio::io::ReadBuf meets its documented contract"]),
    "C16": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: poll_read_from_io never keeps more than the maximum, for every transport and every reading history; the adaptive size invariant holds after every record; set_max_buf_size returns only for limits of at least the minimum. Trusted: bytes::BytesMut, the transport meets rt::Read.",
        verus=[("io", ["Buffered::new", "Buffered::set_max_buf_size", "Buffered::set_read_buf_exact_size", "Buffered::poll_read_from_io", "Buffered::read_buf_remaining_mut", "ReadStrategy::*", "<Default for ReadStrategy>*", "incr_power_of_two", "prev_power_of_two", "lemma_suffix"]),
            ("rtio", ["ReadBuf::*", "ReadBufCursor::*"])],
        native="c16", hooks=["io"], assumptions=[A_WIRE, A_MACH]),
    "C17": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Buffered::parse, parse_headers and the fast completeness scan meet contracts saying the outcome is a function of all octets received, for every fragmentation; poll_read_from_io keeps them in order. Trusted: the head grammar itself (httparse) through the law assumed of Client::parse and Server::parse.",
        verus=[("io", ["Buffered::parse", "Buffered::poll_read_from_io", "Buffered::consume_leading_lines", "Buffered::into_inner", "Buffered::new", "is_complete_fast", "parse_headers", "lemma_*"])],
        native="c17", hooks=["role"], assumptions=[A_HEADS, A_WIRE, A_MACH]),
    "C18": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Incoming's constructors, poll_frame, is_end_stream and size_hint meet contracts over every sequence of frames still to come; theorem_true: under them the reported size is what is still delivered. Over HTTP/1 the feeding side is proved: the dispatcher announces the length the framing gives and theorem_kept: a body that ends without an error held exactly that many octets. Trusted: the h2 crate, the channel; the stand-in exercises HTTP/1, HTTP/2 and scripted HTTP/2 peers end to end.",
        verus=[("body", ["*"]), ("conn", DISP + ["theorem_kept", "Conn::poll_read_body", "Conn::poll_read_head"])],
        native="c18", hooks=[], assumptions=[A_FEED, A_DISP, A_MACH]),
    "C19": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: strip_connection_headers meets a contract giving, for every header map, the values each field keeps; that client and server apply it to every head they send is exercised end to end by the stand-in (the h2 crate itself refuses a trailer section with such fields). Trusted: http::HeaderMap, str trimming.",
        verus=[("strip", ["strip_connection_headers", "CONNECTION_HEADERS", "lemma_*", "witness_*"])],
        native="c19", hooks=["h2"], assumptions=[A_HM, A_STR]),
    "C20": dict(
        level="proof", technique="contract-based deductive verification of the real function (Kani, loop-free, full-domain symbolic inputs); Verus for the functions around it",
        note="Complete: the step contract of Bdp::calculate is discharged bit-precisely for every state meeting the invariant, every octet count below 2^63 and every round-trip time, floats included; the invariant makes it inductive over all histories. channel starts it in a state meeting the invariant; Ponger::poll, the client's connection future and the server's poll_ping are proved to ask h2 for a window exactly when the estimator has a new, larger one, and for that one. Trusted: h2 applies the window it is told; the stand-in exercises it end to end.",
        verus=[("ping", ["Ponger::poll", "channel", "<Future for Conn*", "Conn::*", "Serving::poll_ping", "Recorder::record_data"])],
        kani=dict(quick=["c20::calculate_contract", "c20::initial_state"], complete=["calculate_contract", "initial_state"], hooks=["ping"],
            functions={"calculate_contract": ["src/proto/h2/ping.rs Bdp::calculate", "src/proto/h2/ping.rs Bdp::stabilize_delay", "src/proto/h2/ping.rs seconds"]}),
        native="c20", hooks=["ping"], assumptions=["fewer than 2^63 octets are counted between two pings", "CBMC's IEEE-754 semantics; Duration is std's"]),
    "C21": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded in length and octets: is_valid_byte, find_invalid_byte, every checked constructor and every accessor meet contracts against the octet rule. Trusted: bytes::Bytes/String conversions keep octets. Server::encode's contract gives the status line octet for octet.",
        verus=[("reason", ["*"]), ("sencode", ["Server::encode"])],
        native="c21", hooks=[], assumptions=[A_MACH]),
    "C12": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: every function of State, KA and Conn meets a contract over the connection state; the invariant (a disabled connection is never made persistent again; both directions return to the start of a message only together, complete, with persistence agreed) is kept by each of them, so by every order of calls, and the head parsers' keep_alive is the one of the received fields. The dispatcher, too: every order in which it calls the connection meets the preconditions, and it ends only when closing or closed.",
        verus=[("conn", ["*"]), ("sparse", ["Server::parse", "connection_*", "lemma_*"]), ("cparse", ["Client::parse", "Client::decoder", "connection_*", "lemma_*"]), ("sencode", ["Server::encode"])],
        native="c12", hooks=[], assumptions=[A_CONN, A_DISP, A_HP, A_HM, A_STR, A_MACH]),
    "C22": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: 100 Continue is queued by Conn::poll_read_body alone, and its contract (with those of write_head, poll_read_head and try_keep_alive) allows that only in the Continue state, entered only by a head that expects it, is HTTP/1.1 and announces a body, before any octet of the response, and at most once. The dispatcher is proved to read such a body only after the channel's receiving end was polled for it.",
        verus=[("conn", ["*"]), ("sparse", ["Server::parse"])],
        native="c22", hooks=[], assumptions=[A_CONN, A_DISP, A_HP, A_HM, A_STR, A_MACH]),
    "C10": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Server::encode, encode_headers (its loop over every field line of every map), the can_* rules and both header name writers meet contracts: the octets appended are a status line, field lines and an empty line; at most one line delimits the body, it and the encoder handed back agree, bodiless answers get an encoder of length 0, chunked is never chosen for HTTP/1.0, and every other field goes out with the service's values. Trusted: http::HeaderMap::drain, HeaderCaseMap holds spellings of its names, itoa and the date text.",
        verus=[("sencode", ["*"])],
        native="c10", hooks=["role"], assumptions=[A_HM, A_STR, A_CASE, A_MACH]),
    "C11": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: Client::encode, set_length, set_content_length, add_chunked and the header writers meet contracts: for every head and body size, the octets appended are a request head whose framing fields and the encoder handed back agree, with every other field as given. Trusted: http::HeaderMap and its entries, the caller's HeaderCaseMap holds spellings of its names, display of a Uri; requests in versions other than 1.0, 1.1, 2 panic (documented).",
        verus=[("cencode", ["*"])],
        native="c11", hooks=["role"], assumptions=[A_HM, A_STR, A_CASE, A_MACH]),
    "C33": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: poll_read_head's contract says, for every state and every clock, that while a head is awaited a timer runs whose deadline is the time it was first awaited plus the configured duration, that it is polled (so its task is woken) whenever the head is still incomplete, that the timeout error comes exactly when that timer has elapsed, and that a complete head stops it; no other function of the connection touches it, and the dispatcher awaits a head whenever one is due and ends the connection with that error. Trusted: the caller's Timer and Sleep (elapsed at the deadline, and they wake the task).",
        verus=[("conn", ["Conn::*", "State::*", "Time::*"] + DISP)],
        native="c33", hooks=[], assumptions=[A_TIMER, A_CONN, A_DISP, A_MACH]),
    "C34": dict(
        level="proof", technique=VERUS,
        note="Proof, unbounded: every function of KeepAlive, the Ponger's poll and the shared record of frames and pings meet contracts over the state of the keep-alive, for every clock and every answer of h2's ping channel: a ping is asked for exactly when nothing was read in the interval, the wait for its answer is set to the timeout from then and ended by the answer, the connection is reported as timed out only when that wait has run out with the ping still outstanding, and while it is outstanding the timer is polled. Trusted: the caller's Timer and Sleep, h2's PingPong. The client's connection future is proved to end at once on that report, whatever the transport does, and the server's poll_ping to shut h2 down; channel gives the keep-alive the interval, timeout and idle rule of its configuration. That the server's accept loop then ends (also when the transport takes nothing more), and the wiring of the builder's settings, is driven by the bounded stand-in.",
        verus=[("ping", ["*"])],
        native="c34", hooks=[], assumptions=[A_TIMER, A_PING]),
}
