#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "HTTP/1 chunked bodies decode exactly",
     "For every octet stream received as a chunked HTTP/1 body, the data delivered is exactly the concatenation of the chunk payloads in order, and the end of the body is reported only once the whole terminating section (last chunk, trailers, final CRLF) has been consumed and not one octet beyond it. Any octet outside the chunked grammar, or a stream that stops early, makes the body fail rather than end. The outcome does not depend on how the transport splits the stream into reads, or on when reads are not ready.",
     ["inputs", "schedules"], "every octet string, every division of it into reads, every interleaving of not-ready reads",
     "Tests decode a few dozen literal bodies, mostly in one read; the octet strings and read boundaries are unbounded.",
     ["src/proto/h1/decode.rs"], [("per-octet state machine", "src/proto/h1/decode.rs ChunkedState::step and read_*"), ("decode loop", "src/proto/h1/decode.rs Decoder::decode")],
     [("chunk state", "position in the chunk grammar", "src/proto/h1/decode.rs enum ChunkedState / Kind::Chunked")],
     ["frames of the incoming body on client and server connections"], "decoder wrapper (cfg hyper_verif)")
prop("C02", "Chunked framing overhead is bounded",
     "A peer cannot make a chunked body consume unbounded framing: the chunk extensions of one body total less than 16 KiB, the trailer section stays within its byte limit, the number of trailer fields stays within the configured limit, and a chunk size that does not fit in 64 bits is an error. Going over any of these limits makes the body fail before the excess is buffered, whatever the stream and its read boundaries, and a stream within them is not rejected for them.",
     ["inputs", "schedules"], "every chunked stream and every division into reads",
     "Tests try one oversized example per limit, in a few read patterns; wrap-around at 64 bits and accumulation across chunks need all inputs.",
     ["src/proto/h1/decode.rs"], [("extension counter", "ChunkedState::read_extension"), ("trailer byte counter", "ChunkedState::read_trailer*"), ("checked size arithmetic", "ChunkedState::read_size")],
     [("extensions_cnt", "extension octets seen", "Kind::Chunked"), ("trailers_buf", "trailer octets so far", "Kind::Chunked")], ["body error on client and server connections"], "decoder wrapper (cfg hyper_verif)")
prop("C03", "Content-Length and close-delimited bodies end right",
     "A body with a declared length delivers exactly that many octets, in order, and then ends, leaving every later octet for the next message; if the stream stops earlier the body fails. A close-delimited body delivers every octet up to the end of the stream and then ends. Neither depends on read boundaries or not-ready reads.",
     ["inputs", "schedules"], "every declared length, every stream, every division into reads",
     "Tests use a handful of short bodies; lengths up to 2^64-2 and all read boundaries are out of reach.",
     ["src/proto/h1/decode.rs", "src/body/length.rs"], [("length countdown", "Decoder::decode, Kind::Length arm"), ("eof flag", "Decoder::decode, Kind::Eof arm")], [("remaining", "octets still owed", "Kind::Length")],
     ["frames of the incoming body"], "decoder wrapper (cfg hyper_verif)")
prop("C04", "Server request framing follows the headers",
     "For every request head, the server takes the body as chunked exactly when the final transfer coding is chunked on HTTP/1.1, otherwise by the agreed valid Content-Length (one number per field line, all equal), otherwise as empty. It refuses with an error: a transfer coding that does not end in chunked, any transfer coding on HTTP/1.0, and, where no transfer coding applies, differing or malformed Content-Length values. A well-formed head is not refused for its framing. When a transfer coding applies, Content-Length is not used for framing and not handed to the service.",
     ["inputs"], "every sequence of header fields, version and method", "Tests cover a few dozen literal heads; smuggling bugs live in combinations and orders of repeated fields.",
     ["src/proto/h1/role.rs", "src/headers.rs", "src/body/length.rs"], [("header scan", "role.rs Server::parse"), ("last-coding test", "headers.rs is_chunked_"), ("value parse", "headers.rs content_length_parse")],
     [], ["request delivered to the service, its body, or a 400 response"], "parse wrapper (cfg hyper_verif)")
prop("C05", "Client response framing follows RFC 9112",
     "For every response and the method of its request, the client takes the body as empty for HEAD, 204 and 304, as an empty body followed by a tunnel for 101 and for a 2xx other than 204 answering CONNECT; otherwise chunked if the last transfer coding is chunked, close-delimited for any other transfer coding, otherwise by the agreed valid Content-Length, otherwise close-delimited. Conflicting or malformed Content-Length is an error and a transfer coding on HTTP/1.0 is refused. Interim responses (1xx other than 101), however many, never stand in for the final response.",
     ["inputs"], "every status, version, request method and sequence of framing fields", "Tests sample a table of cases; the decision is over all combinations.",
     ["src/proto/h1/role.rs", "src/headers.rs"], [("framing decision", "role.rs Client::decoder"), ("interim loop", "role.rs Client::parse")], [], ["response and body given to the caller"], "decoder-decision wrapper (cfg hyper_verif)")
prop("C06", "Content-Length values parse strictly",
     "A Content-Length field value is accepted exactly when it is one or more ASCII digits whose value fits below the 64-bit limit, and is then read as that number; a list or repetition is accepted only when all members are valid and equal. Signs, blanks inside, other characters, the empty value and overflow are never read as a number.",
     ["inputs"], "every octet string as value and every multiset of values", "Digits near 2^64 and odd octets are not enumerated by tests.",
     ["src/headers.rs", "src/body/length.rs"], [("digit loop", "headers.rs from_digits"), ("list rule", "headers.rs content_length_parse_all"), ("reserved values", "body/length.rs DecodedLength::checked_new")], [],
     ["framing of requests and responses"], "value-parse wrapper (cfg hyper_verif)")
prop("C07", "Fixed-length outbound bodies match their length",
     "When a message is sent with a declared length, at most that many body octets are written, they are the caller's octets in order, and the message counts as complete only when exactly that many were written. Extra data from the caller is cut off and never reaches the wire, and a short body never leaves the connection reusable.",
     ["inputs", "histories"], "every length and every sequence of data buffers", "Tests send a few bodies; the split into buffers and the off-by-one cases at the end are unbounded.",
     ["src/proto/h1/encode.rs", "src/proto/h1/conn.rs"], [("countdown", "encode.rs Encoder::encode, encode_and_end"), ("end check", "encode.rs Encoder::end")], [("remaining", "octets still owed", "encode.rs Kind::Length")],
     ["octets on the wire"], "encoder wrapper (cfg hyper_verif)")
prop("C08", "Outbound chunked bodies round-trip",
     "Whatever non-empty data buffers the caller supplies, the chunked body written decodes, by the chunked grammar, to exactly their concatenation. The terminating chunk is written exactly once, at the end, and no data buffer can produce it early.",
     ["inputs", "histories"], "every sequence of data buffers of every size", "Tests check a few sizes; the hex size line must be right for all lengths.",
     ["src/proto/h1/encode.rs"], [("size line", "encode.rs ChunkSize"), ("terminator", "encode.rs Encoder::end, encode_and_end")], [], ["octets on the wire"], "encoder wrapper (cfg hyper_verif)")
prop("C09", "Only declared, permitted trailers are sent",
     "A trailer field is written only on a chunked body, only if the message's Trailer header named it (and, by a server, only to a client that said it takes trailers), and never if it is a framing, routing, authentication or content-describing field. Every declared and permitted trailer the caller supplies is written once with its value, after the last data chunk, in a section that parses back as trailers.",
     ["inputs"], "every set of trailer fields and every Trailer declaration", "Tests try a few names; the filter is over all names, cases and list syntaxes.",
     ["src/proto/h1/encode.rs"], [("filter", "encode.rs Encoder::encode_trailers, is_valid_trailer_field, allowed_trailer_field_map")], [], ["octets on the wire"], "encoder wrapper (cfg hyper_verif)")
prop("C10", "Response heads never contradict the body sent",
     "For every response the service returns, the head written carries at most one way of delimiting the body, and it is the one the body writer then uses (given that a service whose body reports its exact size does not set a different Content-Length). Responses to HEAD, and 1xx, 204 and 304 responses, carry no body octets, and 1xx, 204 and successful CONNECT responses carry neither Content-Length nor Transfer-Encoding; chunked is never used towards HTTP/1.0.",
     ["inputs", "configurations"], "every status, version, request method, header set and body size hint", "Tests sample a few dozen combinations of a large product.",
     ["src/proto/h1/role.rs"], [("header pass and encoder choice", "role.rs Server::encode, encode_headers"), ("bodiless statuses", "role.rs Server::can_have_body, can_chunked, can_have_content_length")], [], ["octets on the wire"], "head-encode wrapper (cfg hyper_verif)")
prop("C11", "Request heads never contradict the body sent",
     "For every request the caller makes, the head written carries at most one way of delimiting the body and it is the one the body writer then uses; a caller-supplied Content-Length is kept only if it is valid, and chunked is never used for HTTP/1.0. A request that has a body to send declares a delimiter (a body of unknown size is not sent at all with GET, HEAD or CONNECT, or in HTTP/1.0, unless the caller declared how it ends), and one without a body never announces octets that will not come. All other fields are sent with the caller's values, in order.",
     ["inputs", "configurations"], "every method, version, header set and body size hint", "Tests sample a few combinations.",
     ["src/proto/h1/role.rs", "src/headers.rs"], [("framing choice", "role.rs Client::set_length"), ("repair of transfer coding", "headers.rs add_chunked; role.rs set_content_length"), ("head writer", "role.rs Client::encode, write_headers*")], [], ["octets on the wire"], "head-encode wrapper (cfg hyper_verif)")
prop("C12", "A connection is reused only when clean",
     "A second message is exchanged on an HTTP/1 connection only if both directions of the previous exchange ended completely, neither side asked to close, the version and headers allow persistence, and no error happened. Once a connection is marked not to persist, nothing makes it persistent again, and the messages on it stay in order.",
     ["histories", "schedules", "inputs"], "every sequence of reads, writes, ends, errors and close requests", "Tests drive a few scripted exchanges; the order of the two directions' events is unbounded.",
     ["src/proto/h1/conn.rs", "src/proto/h1/role.rs", "src/headers.rs"], [("state", "conn.rs State::try_keep_alive, close, idle, disable_keep_alive"), ("tri-state", "conn.rs KA")],
     [("keep_alive", "Idle/Busy/Disabled", "conn.rs State"), ("reading, writing", "direction states", "conn.rs State")], ["second exchange or close on the connection"], "state wrapper (cfg hyper_verif)")
prop("C13", "Outbound octets are written exactly once, in order",
     "Whatever buffers are queued for writing and however few octets the transport takes at a time, the octets that reach the transport are exactly the queued octets, once each and in queueing order; a flush completes only when all have been taken. (With response pipelining switched on, a flush may wait while further received requests wait to be read; closing the connection writes everything out first.) A transport that takes zero octets makes the write fail instead of spinning.",
     ["inputs", "schedules"], "every sequence of buffers, every pattern of partial, vectored and not-ready writes", "Partial writes at every offset across several buffers are not enumerated by tests.",
     ["src/proto/h1/io.rs", "src/common/buf.rs", "src/proto/h1/encode.rs"], [("write queue", "io.rs WriteBuf, Buffered::poll_flush, poll_flush_flattened"), ("buffer list", "common/buf.rs BufList"), ("head cursor", "io.rs Cursor"), ("encoded buffers", "encode.rs EncodedBuf")], [],
     ["octets handed to the transport"], "write-queue wrapper (cfg hyper_verif)")
prop("C14", "Octets read past a message are handed over once",
     "When a connection is upgraded or taken apart, octets already read but not consumed by HTTP are returned first and exactly once, followed by what the transport yields, with none lost, repeated or reordered, for every size of read buffer. Writes pass through unchanged: what a write accepted before the writing side was closed reaches the peer before the end does.",
     ["inputs", "schedules"], "every leftover, every sequence of read sizes", "Tests use one or two leftovers and read sizes.",
     ["src/common/io/rewind.rs", "src/upgrade.rs", "src/proto/h1/io.rs", "src/proto/h2/upgrade.rs"], [("prefix", "common/io/rewind.rs Rewind"), ("hand over", "io.rs Buffered::into_inner; upgrade.rs Upgraded")], [], ["reads from the upgraded connection"], "rewind wrapper (cfg hyper_verif)")
prop("C15", "Read-buffer cursors never expose garbage",
     "For every sequence of operations on a read buffer, filled <= initialized <= capacity, the filled part is exactly the octets appended so far, and only initialized octets can be observed through safe methods. An operation that would overrun fails before changing anything. The adapter that reads through hyper's cursor into another runtime's buffer reports as filled and initialized exactly what was read, and reads into any such buffer.",
     ["histories", "inputs"], "every sequence of cursor operations and every capacity", "Tests run none of the unchecked paths over all sizes.",
     ["src/rt/io.rs", "src/common/io/compat.rs"], [("cursor arithmetic", "rt/io.rs ReadBuf, ReadBufCursor"), ("tokio adapter", "common/io/compat.rs Compat::poll_read")], [("filled, init", "cursor positions", "rt/io.rs ReadBuf")], ["public rt::ReadBuf and ReadBufCursor API"], None)
prop("C16", "The inbound head buffer is bounded",
     "A peer that sends an ever-growing message head makes the connection fail once the configured maximum is reached, rather than buffering more; the adaptive read size always stays between its minimum and that maximum. Setting the limit below the minimum is refused.",
     ["histories", "inputs"], "every sequence of read sizes and every configured limit", "Tests try a few sizes of read.",
     ["src/proto/h1/io.rs"], [("adaptive size", "io.rs ReadStrategy"), ("limit check", "io.rs Buffered::parse")], [], ["error on the connection, size of read buffers offered"], "read-strategy wrapper (cfg hyper_verif)")
prop("C17", "Head parsing does not depend on fragmentation",
     "A message head is parsed to the same result, and leaves the same octets unread, whether it arrives in one read or is split at any positions. A head that has not completely arrived is never acted on and a complete head is never left waiting.",
     ["inputs", "schedules"], "every head and every division into reads", "Tests split a few heads; each head has exponentially many divisions.",
     ["src/proto/h1/role.rs", "src/proto/h1/io.rs"], [("completeness pre-check", "role.rs is_complete_fast"), ("partial length", "io.rs Buffered::parse partial_len")], [("partial_len", "length already known incomplete", "io.rs Buffered")], ["head given to service or caller"], "pre-check wrapper (cfg hyper_verif)")
prop("C18", "Reported body size is true",
     "At every moment, the exact size an incoming body reports equals the octets it will still deliver if it completes, a body that says it has ended delivers nothing more, and a body of unknown length reports no upper bound. For a message that can have content, the length announced in its head and the size first reported agree.",
     ["inputs", "histories"], "every declared length and every sequence of data frames", "Tests look at the size at one or two points.",
     ["src/body/incoming.rs", "src/body/length.rs"], [("countdown", "body/length.rs DecodedLength::sub_if"), ("report", "body/incoming.rs size_hint, is_end_stream, poll_frame")], [], ["size_hint and is_end_stream of incoming bodies"], "body wrapper (cfg hyper_verif)")
prop("C19", "HTTP/2 messages carry no connection headers",
     "Whatever headers the user sets, a message sent over HTTP/2 has no Connection field, none of the fields named in one, no Keep-Alive, Proxy-Connection, Transfer-Encoding or Upgrade field, and, on a request, no TE other than trailers. All other fields are sent with unchanged values, those of one name in order (hyper may add Date and Content-Length).",
     ["inputs"], "every header map", "Tests try a few header sets.",
     ["src/proto/h2/mod.rs"], [("strip", "proto/h2/mod.rs strip_connection_headers")], [], ["fields received by the HTTP/2 peer"], "strip wrapper (cfg hyper_verif)")
prop("C20", "HTTP/2 adaptive window stays bounded",
     "With the adaptive window on, the window hyper asks for only grows, never exceeds 16 MiB, and never wraps, for every sequence of measured octet counts (below 2^63) and round-trip times.",
     ["inputs", "histories"], "every sequence of samples", "Tests have no adaptive-window coverage beyond a smoke test.",
     ["src/proto/h2/ping.rs"], [("estimator", "proto/h2/ping.rs Bdp::calculate")], [("bdp", "current window", "ping.rs Bdp")], ["window updates sent"], "estimator wrapper (cfg hyper_verif)")
prop("C21", "Reason phrases cannot break the status line",
     "A custom reason phrase can be built by the checked constructors exactly when every octet is a tab, a space, a visible ASCII character or an octet of 0x80 or above, so that a status line it is written into is never split; a phrase keeps its octets, one for one, from its construction to the status line a server writes.",
     ["inputs"], "every octet string", "Tests try a dozen strings.",
     ["src/ext/h1_reason_phrase.rs"], [("validity", "ext/h1_reason_phrase.rs is_valid_byte, find_invalid_byte")], [], ["ReasonPhrase constructors"], None)
prop("C22", "100 Continue is sent exactly when due",
     "The server sends 100 Continue only for an HTTP/1.1 request that expects it and has a body, at most once, only if the body is asked for before the response has begun, and ahead of any octet of the response. A request without such an expectation never gets one.",
     ["histories", "inputs"], "every order of polling the body and starting the response, every head", "Tests drive two or three orders.",
     ["src/proto/h1/conn.rs", "src/proto/h1/role.rs"], [("Continue state", "conn.rs Reading::Continue, poll_read_body"), ("expectation", "role.rs Server::parse")], [("reading", "Continue until asked", "conn.rs State")], ["octets on the wire"], "state wrapper (cfg hyper_verif)")
# --- listed, not claimed
prop("C30", "Graceful shutdown finishes in-flight work",
     "After a graceful shutdown is requested, a connection accepts no new request, completes every exchange already begun, and then closes; the connection future eventually resolves whenever the peer and the service make progress.",
     ["schedules", "histories"], "every moment of the request and every pending state", "Tests request shutdown at a few moments.",
     ["src/server/conn/http1.rs", "src/server/conn/http2.rs", "src/proto/h1/dispatch.rs", "src/proto/h2/server.rs"], [("disable keep-alive", "proto/h1/dispatch.rs disable_keep_alive"), ("h2 close", "proto/h2/server.rs graceful_shutdown")])
prop("C31", "Every client request resolves exactly once",
     "Every request accepted by a client connection is answered exactly once, with its own response or an error, also when the connection closes, is dropped, or the caller gives up at any moment; a request never sent is given back.",
     ["schedules", "histories", "crash_points"], "every interleaving of sending, cancelling and closing", "Tests sample a few interleavings.",
     ["src/client/dispatch.rs", "src/proto/h1/dispatch.rs", "src/proto/h2/client.rs"], [("callback", "client/dispatch.rs Callback, Envelope")])
prop("C32", "No wakeup is lost",
     "Whenever a task waits for body capacity, a channel message or readiness and that condition becomes true, the task is woken.",
     ["schedules"], "every interleaving of the two ends", "Tests run a few interleavings.",
     ["src/common/watch.rs", "src/body/incoming.rs", "src/client/dispatch.rs"], [("watch", "common/watch.rs"), ("want", "client/dispatch.rs giver/taker")])
prop("C33", "Header-read timeout fires exactly for slow heads",
     "With a header timeout set, a connection whose request head does not completely arrive within it, measured from when the head is first awaited, is closed with an error, and one whose head arrives in time is not.",
     ["schedules", "histories"], "every timing of arrivals", "Tests sample a few timings.",
     ["src/proto/h1/conn.rs"], [("timer", "proto/h1/conn.rs poll_read_head")])
prop("C34", "HTTP/2 keep-alive detects dead peers only",
     "With HTTP/2 keep-alive on, a ping is sent once no head, data, trailers or ping answer has been received for the interval (by a client only while requests are open, unless told to when idle too), and the connection is closed as timed out if and only if a ping goes unanswered for the configured time.",
     ["schedules", "histories"], "every timing of frames and timers", "Tests sample a few timings.",
     ["src/proto/h2/ping.rs"], [("keep-alive state", "proto/h2/ping.rs KeepAlive")])

NA = {
    "C30": "Liveness over whole connection histories across async state machines and the h2 crate; no contract on a single call expresses 'eventually resolves', and ghost histories over the dispatcher need every poll function, including user services and h2, inside the verifier. Its safety half (no reuse once persistence is off) is C12.",
    "C31": "Exactly-once over interleavings of two tasks through tokio channels and drop order; Verus cannot see Drop or the channel internals, and Kani has no threads, so a contract would only restate the assumed channel specification.",
    "C32": "Pure scheduling/liveness over atomics and AtomicWaker; outside sequential contracts.",
}


def main():
    claimed = [p["id"] for p in P if p["id"] in PROPS]
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    na = []
    for p in P:
        if p["id"] not in claimed:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")})
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
    checks = []
    for i in claimed:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"],
                       **({"theorems": c["theorems"]} if c.get("theorems") else {})})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "cfg(hyper_verif)",
         "enable": "RUSTFLAGS='--cfg hyper_verif' with HYPER_VERIF_HOOKS naming the directory of hook files (check.py writes it under target/hooks)", "source_commits": commits},
         "checks": checks, "not_applicable": na,
         "notes": "Each check re-extracts the functions under contract from /repo's working tree and has Verus discharge every obligation; a bounded search on the real code runs alongside and supplies failing inputs."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
