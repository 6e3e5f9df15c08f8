"""The properties, and how each is claimed: properties.jsonl and MANIFEST.json come from here."""

NOTES = (
    "Every check regenerates whole-program LLVM IR of the code under check from /repo's working tree, "
    "executes it symbolically with the executor in engine/, decides every branch and assertion with "
    "Z3 over all values within the harness's stated bounds, and replays counterexamples (and a sample "
    "of the explored paths) natively against the same code before reporting.."
)

TRUST = (
    "trusts Z3, the executor's semantics of rustc's IR (cross-checked by native replay of sampled "
    "paths) and rustc; nothing is claimed outside the bounds each harness states"
)


def note(s):
    return s + "; " + TRUST


PROPS = [
    dict(
        id="M01",
        title="Reliable stream delivers in order, exactly once",
        statement="Whatever packets arrive, in whatever order and however often, a receiver hands "
        "each message to the application at most once and in the sender's order, with no gap; "
        "arrivals outside its receive window are refused without changing anything. It acknowledges "
        "exactly what it has delivered or buffered in order, and a failed acknowledgement is retried.",
        over=["inputs", "histories", "fault_sequences"],
        text="every sequence of arriving packets with arbitrary 64-bit sequence numbers, duplicates, "
        "reordering and failures to send acknowledgements",
        why="The tests replay a few shuffles with small consecutive sequence numbers; duplicates, "
        "stale and far-future numbers in arbitrary interleavings are not enumerated.",
        files=["mrp/src/stream.rs", "mrp/src/window.rs"],
        mech=[("receive window and ack bookkeeping", "mrp/src/stream.rs MrpStream::receive")],
        observe=["values returned by receive", "headers passed to the send-ack callback"],
        note=note("Bounded: windows of 1 to 3 (thorough 4), 4 (5) arrivals with unconstrained "
                  "64-bit sequence numbers, decided for all values"),
    ),
    dict(
        id="M02",
        title="Reliable stream sends within its window and resends what is unacked",
        statement="A sender numbers its packets consecutively, never has more unacknowledged packets "
        "than its window allows, and drops a packet only when an acknowledgement it could have "
        "earned covers it. A packet whose deadline passed is sent again unchanged, with its "
        "original number, and stale or impossible acknowledgements change nothing.",
        over=["inputs", "histories", "fault_sequences"],
        text="every sequence of sends, failures, timeouts and arbitrary 64-bit acknowledgements",
        why="The tests use well-behaved peers and a handful of schedules; arbitrary acknowledgement "
        "values and failures at each point are out of their reach.",
        files=["mrp/src/stream.rs", "mrp/src/window.rs"],
        mech=[("send window, resend timers", "mrp/src/stream.rs MrpStream::try_send, try_resend")],
        observe=["headers and data given to the send callbacks"],
        note=note("Bounded: windows of 1 to 4, 4 operations (thorough 5) with unconstrained "
                  "acknowledgements and deadlines"),
    ),
    dict(
        id="M03",
        title="Reliable stream survives a lossy, reordering, duplicating channel",
        statement="Two streams joined by a channel that loses, duplicates and reorders packets in "
        "both directions never deliver anything the other side did not send, and never deliver out "
        "of order or twice. Once the channel works again everything sent is delivered and "
        "acknowledged, and the sender's window is empty.",
        over=["schedules", "fault_sequences", "histories"],
        text="every schedule of losses, duplications, reorderings and timeouts within the bound",
        why="The tests try fixed or random schedules; a rare schedule that wedges the stream or "
        "duplicates a message needs all of them.",
        files=["mrp/src/stream.rs", "mrp/src/window.rs"],
        mech=[("sequence numbers, cumulative acks, resends", "mrp/src/stream.rs")],
        observe=["delivered values at each end"],
        note=note("Bounded: windows of 2 and 3, 2 or 3 messages, 5 (thorough 7) channel events"),
    ),
    dict(
        id="M04",
        title="Fragmented messages are reassembled exactly",
        statement="A message sent in fragments is delivered once, whole, with its fragments in "
        "order, however the fragments arrive and whatever plain messages surround it; never partly, "
        "and never mixed with another message. Fragments of a send that does not fit the window are "
        "refused before any of them is sent.",
        over=["inputs", "schedules", "histories"],
        text="every arrival order of the fragments and their neighbours, with duplicates",
        why="The tests merge a few in-order sequences; arrival orders and malformed counts are not "
        "enumerated.",
        files=["mrp/src/stream.rs", "mrp/src/merge_buffer.rs"],
        mech=[("merge buffer", "mrp/src/merge_buffer.rs"), ("fragment headers", "mrp/src/stream.rs")],
        observe=["values returned by receive_and_merge"],
        note=note("Bounded: messages of 1 to 4 fragments among plain ones, 3 to 5 arrivals in any "
                  "order with any duplicates"),
    ),
    dict(
        id="B01",
        title="Call-link text form is canonical and round-trips",
        statement="The consonant text form of any bytes parses back to those bytes, and any text "
        "that parses is exactly what printing the result gives, separators included. All other text, "
        "whatever its characters, is refused with an error that points at the offending position, "
        "and never crashes the parser.",
        over=["inputs"],
        text="every byte string and every text within the bound, ASCII or not",
        why="The tests check a few literals; misplaced separators and multi-byte characters at each "
        "position are sampled at best.",
        files=["src/rust/src/lite/call_links/base16.rs"],
        mech=[("table-driven printer and parser", "src/rust/src/lite/call_links/base16.rs")],
        observe=["ConsonantBase16 Display and parse results"],
        note=note("Bounded: up to 3 bytes printed, any text up to 4 bytes (5 with separators) parsed"),
    ),
    dict(
        id="C01",
        title="Encrypted frames round-trip across key changes",
        statement="A media frame sealed by a sender is opened by every receiver holding that "
        "sender's secret to exactly the original bytes, however often the sender has advanced or "
        "replaced its key in between. Frame counters never repeat under one key, and a receiver "
        "that joins late is given state that opens all later frames, including past the wrap of "
        "the key counter.",
        over=["inputs", "histories"],
        text="every plaintext and every sequence of sealing, key advances and key replacements",
        why="The tests seal a few fixed buffers with a fixed order of key changes.",
        files=["src/rust/src/core/crypto.rs"],
        mech=[("sender and receiver ratchets", "src/rust/src/core/crypto.rs Context")],
        observe=["buffers and results of encrypt and decrypt"],
        note=note("Bounded: plaintexts up to 20 bytes, 5 operations, wrap at 254..257; SHA-2 is "
                  "modelled as ideal (equal digests only for equal inputs), AES is executed"),
    ),
    dict(
        id="C02",
        title="Tampered or misattributed frames are refused",
        statement="A frame whose ciphertext, authentication tag or counter differs from what the "
        "sender produced, or which is attributed to another sender, is refused with an error and "
        "the caller's buffer is left as it was. A refusal leaves the receiver able to open the "
        "genuine frame.",
        over=["inputs"],
        text="every wrong tag, ciphertext, counter and sender within the bound",
        why="The tests flip one or two fixed bytes; all other forgeries are untested.",
        files=["src/rust/src/core/crypto.rs"],
        mech=[("tag check before state change", "src/rust/src/core/crypto.rs decrypt")],
        observe=["result of decrypt, buffer contents"],
        note=note("Bounded: frames up to 4 bytes, any 16-byte tag, any 64-bit counter; SHA-2 is "
                  "modelled as ideal, AES is executed"),
    ),
    dict(
        id="C03",
        title="Late and reordered frames stay decryptable across key changes",
        statement="Frames arriving late, reordered or repeated while the sender's key advances are "
        "still opened as long as their key is within the documented look-back and look-ahead, and "
        "opening a late frame never makes a newer or older one undecryptable. A receiver keeps the "
        "five newest secrets of each sender and forgets older ones.",
        over=["inputs", "schedules", "histories"],
        text="every arrival order of frames sealed under keys a few changes apart",
        why="The tests deliver frames nearly in order; a late frame between two newer ones is not "
        "tried, and that case was broken.",
        files=["src/rust/src/core/crypto.rs"],
        mech=[("window of receiver keys", "src/rust/src/core/crypto.rs ReceiverState")],
        observe=["results of decrypt"],
        note=note("Bounded: 3 frames (thorough 4) up to 3 key changes apart, 4 arrivals in any "
                  "order with repetitions, up to 7 secrets; SHA-2 modelled as ideal"),
    ),
    dict(
        id="C04",
        title="Decryption-failure reports count what failed",
        statement="Each undecryptable frame is counted once, for the sender it is attributed to. "
        "A sender's failures are reported at the first check that finds none since the check "
        "before, with their exact number and the times of the first and the last, and are then "
        "counted afresh; other senders' counts are unaffected.",
        over=["inputs", "histories"],
        text="every interleaving of failures by two senders with requests for reports and pauses",
        why="One scripted order is tested at most; intervals and interleavings are not varied.",
        files=["src/rust/src/core/crypto.rs"],
        mech=[("error reporter", "src/rust/src/core/crypto.rs DecryptionErrorStats")],
        observe=["values returned by get_decryption_error_stats"],
        note=note("Bounded: 5 operations, 2 senders, any pauses in whole seconds"),
    ),
    dict(
        id="S01",
        title="Call setup messages survive the wire, and hostile ones are harmless",
        statement="Offers, answers, candidates and hangups carry what they were made from in the "
        "documented fields and give it back exactly. A removed candidate names the removed address, "
        "v4 or v6, and port, and stays inert for older clients. Received bytes that are malformed, "
        "missing a field or out of range are refused or ignored, and never crash.",
        over=["inputs"],
        text="every address, port, description, credential and hangup, and every received byte string",
        why="The tests check a literal or two; arbitrary addresses, odd lengths and hostile bytes "
        "from the peer are not tried.",
        files=["src/rust/src/core/signaling.rs", "src/rust/src/core/util.rs", "protobuf/src/lib.rs"],
        mech=[("wire forms of signaling messages", "src/rust/src/core/signaling.rs")],
        observe=["opaque bytes", "accessors of IceCandidate, Offer, Answer, Hangup"],
        note=note("Bounded: all addresses and ports, descriptions up to 8 characters, hostile inputs "
                  "up to 4 bytes and structured ones up to 17-byte addresses"),
    ),
    dict(
        id="A01",
        title="Only assets vouched for by the manifest are used",
        statement="Content becomes available as an asset only if its bytes are those that an enabled "
        "entry of the manifest for that feature vouches for by size and hash, and exactly those "
        "bytes are handed out under that entry's version. Anything else is refused and changes "
        "nothing; a registered asset stays available, and versions are listed in ascending order.",
        over=["inputs", "histories"],
        text="every offered content and every order of registration within the bound",
        why="The tests register a few fixed files; altered contents, padding, disabled entries and "
        "versions of several digits were not tried, and the last case was broken.",
        files=["src/rust/src/core/assets.rs"],
        mech=[("manifest match and registry", "src/rust/src/core/assets.rs AssetManager")],
        observe=["results of add_asset_for_feature, get_options_for, get_asset"],
        note=note("Bounded: 3 manifest entries of up to 3 bytes, any content of up to 5 bytes, "
                  "registrations of 3 versions; SHA-2 is modelled as ideal"),
    ),
    dict(
        id="A02",
        title="Version numbers parse, print and compare as numbers",
        statement="A version printed and parsed again is the same version. Text is a version exactly "
        "when it starts with three dot-separated 16-bit numbers, and any other text is refused. "
        "Versions compare by their parts as numbers, the first part first.",
        over=["inputs"],
        text="every three 16-bit parts and every short text",
        why="The tests compare a few literals.",
        files=["src/rust/src/common/versioning.rs"],
        mech=[("SemanticVersion", "src/rust/src/common/versioning.rs")],
        observe=["parse, Display and Ord of SemanticVersion"],
        note=note("Bounded: order for all 16-bit parts; printing for each part in 0..1023 and some "
                  "larger ones; parsing for any ASCII text up to 7 characters"),
    ),
    dict(
        id="U01",
        title="Data rates and sizes convert exactly",
        statement="Converting a data size or rate between units gives back the same count, with a "
        "kilo meaning 1000 and a byte 8 bits, and a larger unit rounding down. The smaller of two "
        "rates is the smaller number, and an absent limit limits nothing.",
        over=["inputs"],
        text="every count within the bound",
        why="No test covers the conversions beyond a literal or two.",
        files=["src/rust/src/common/units.rs"],
        mech=[("DataRate and DataSize", "src/rust/src/common/units.rs")],
        observe=["as_* accessors"],
        note=note("Bounded: conversions of any 16-bit count, comparisons of any 64-bit rates"),
    ),
    dict(
        id="G01",
        title="Fragments of SFU messages are joined in order",
        statement="Joining the fragments of a message exchanged with the call server gives the first "
        "fragment's header and all the contents in order, with missing contents counting as empty. "
        "A message that is not fragmented is never changed by what follows it.",
        over=["inputs"],
        text="every combination of headers and contents within the bound",
        why="No test covers missing contents or unfragmented headers.",
        files=["protobuf/src/lib.rs"],
        mech=[("Extend for SfuToDevice and DeviceToSfu", "protobuf/src/lib.rs")],
        observe=["content and mrp_header after extend"],
        note=note("Bounded: up to 3 fragments of up to 3 bytes, either direction"),
    ),
    dict(
        id="H01",
        title="Actors run each task once, in order, delayed ones not early",
        statement="An actor runs each task sent to it exactly once, tasks from one sender in the order "
        "sent, one at a time on its state. A delayed task never runs before its delay is over, runs "
        "once it is, in order of due time, and does not hold up other tasks. After it is stopped, or "
        "failed to start, no task runs and its thread ends without waiting for delayed tasks.",
        over=["schedules", "histories"],
        text="every schedule of senders, actor and stopper, and every sequence of sends, delays and "
        "clock steps within the bound",
        why="The tests run one schedule with real sleeps; which thread goes first and which of "
        "several delays is over when are left to chance.",
        files=["src/rust/src/common/actor.rs"],
        mech=[("Actor, Stopper and their thread", "src/rust/src/common/actor.rs")],
        observe=["tasks run, their order, time and state", "threads ending after stop"],
        note=note("Bounded: 2 senders of 2 (thorough 3) tasks, 5 (6) sends, delays and clock steps; "
                  "threads switch where they block, yield or end"),
    ),
    dict(
        id="W01",
        title="HTTP responses reach exactly their own request",
        statement="Each response delivered for an HTTP request calls that request's callback once and "
        "no other's, even when it arrives before sending returns, on another thread or inside a "
        "callback; unknown or repeated ids are ignored. A status is a success exactly when it is 200 "
        "to 299, and a body is parsed only then.",
        over=["histories", "schedules", "inputs"],
        text="every order of requests and responses, including repeated and unknown ids, and every status",
        why="The tests deliver one response to one request.",
        files=["src/rust/src/lite/http.rs"],
        mech=[("DelegatingClient and status handling", "src/rust/src/lite/http.rs")],
        observe=["callbacks made", "results of parse_json_response"],
        note=note("Bounded: 4 (thorough 5) operations over 3 requests; two threads in every schedule"),
    ),
    dict(
        id="N01",
        title="Network addresses and packets cross the WebRTC boundary unchanged",
        statement="An address or port converted to WebRTC's form and back is the same one. RTP packets "
        "received reach the observer with their header fields and payload unchanged, packets sent or "
        "injected reach WebRTC's side likewise, null pointers are ignored, and each sender is freed "
        "exactly once.",
        over=["inputs", "histories"],
        text="every address, port, RTP header value and payload within the bound",
        why="No test covers the FFI boundary.",
        files=["src/rust/src/webrtc/network.rs", "src/rust/src/webrtc/rtp.rs", "src/rust/src/webrtc/rtp_observer.rs",
               "src/rust/src/webrtc/injectable_network.rs"],
        mech=[("RffiIp and RffiIpPort conversions, RTP observer, injectable network",
               "src/rust/src/webrtc/network.rs, rtp_observer.rs, injectable_network.rs")],
        observe=["values seen on either side of the FFI"],
        note=note("Bounded: payloads of a few bytes, a few operations; WebRTC's C++ side replaced by a "
                  "recording stand-in"),
    ),
    dict(
        id="R01",
        title="The simulated network delivers what its settings say",
        statement="The simulated network hands a packet only to its destination, unaltered, at most "
        "once, and exactly when its transmission time and delay are over. It drops packets with the "
        "configured probabilities and when its queue is full, and no others; after it is stopped "
        "nothing is delivered.",
        over=["inputs", "schedules", "histories"],
        text="every random draw, packet size and configuration within the bound",
        why="No test covers the router; its draws are random.",
        files=["src/rust/src/simnet/router.rs"],
        mech=[("Router and links", "src/rust/src/simnet/router.rs")],
        observe=["packets handed to receivers and when"],
        note=note("Bounded: 1 to 3 packets, symbolic draws and sizes, chosen configurations; packets due "
                  "at the same instant may come in either order"),
    ),
    dict(
        id="T01",
        title="Call and connection states and ids mean what they say",
        statement="The predicates on call and connection states agree with the documented life cycle "
        "for every state, data modes give their documented limits, and call ids and device ids "
        "convert, compare and print without loss. Each setter of a call's settings changes that one only.",
        over=["inputs"],
        text="every state, mode and 64-bit id",
        why="No stable test covers the predicates or conversions.",
        files=["src/rust/src/common/mod.rs"],
        mech=[("CallState, ConnectionState, DataMode, CallId", "src/rust/src/common/mod.rs")],
        observe=["return values of the predicates and conversions"],
        note=note("Bounded: printing for ids of up to 20 digits with chosen digits symbolic; the rest "
                  "unbounded in the values"),
    ),
    dict(
        id="D01",
        title="Media settings and frames cross the WebRTC boundary unchanged",
        statement="An audio configuration reaches WebRTC field by field as set; DRED is given a "
        "registered asset for both encoder and decoder with FEC off, or is left disabled. A video "
        "frame keeps its size, rotation and pixels, and its buffers' references are taken and "
        "released in pairs. WebRTC reads and writes no memory but the buffer given for a frame.",
        over=["inputs", "histories"],
        text="every configuration, frame size, rotation and pixel value within the bound",
        why="No test covers these conversions.",
        files=["src/rust/src/webrtc/media.rs"],
        mech=[("AudioEncoderConfig, VideoFrame", "src/rust/src/webrtc/media.rs")],
        observe=["arguments and reference counts seen by WebRTC's stand-in"],
        note=note("Bounded: frames of a few pixels; WebRTC's C++ side replaced by a recording stand-in"),
    ),
    dict(
        id="X01",
        title="Shared helpers keep their contracts",
        statement="Null pointers from the platform are refused, and looking at shared data never frees it; "
        "a copy between slices happens only when the sizes agree, and changes nothing otherwise. An event "
        "stream gives each event sent before it closed once and in order, then none. A UUID prints as its "
        "16 bytes, minmax orders its arguments, and a failure in a scoped try is reported.",
        over=["inputs", "schedules"],
        text="every value, length, order of sends and closes, and schedule within the bound",
        why="The tests call each helper with a literal or two.",
        files=["src/rust/src/core/util.rs", "src/rust/src/common/slice.rs"],
        mech=[("pointer and slice helpers, events, UUIDs", "src/rust/src/core/util.rs")],
        observe=["return values, frees and wake-ups"],
        note=note("Bounded: buffers of a few bytes, two threads in every schedule"),
    ),
    dict(
        id="P01",
        title="Logged text never holds addresses or ICE secrets",
        statement="Redacting text replaces every IPv4 and IPv6 address in any standard notation, every "
        "line with an ICE password and every candidate foundation by its marker, and leaves the rest "
        "of the text as it was. Of the names and ids of audio devices in Cubeb's log lines only the beginning is kept. A signaling message is logged by kind and size, not content.",
        over=["inputs"],
        text="every notation of an address (any zero run, embedded IPv4, zone), with symbolic digits",
        why="The tests check lists of literal addresses; embedded IPv4 forms outside the list leaked.",
        files=["src/rust/src/core/util.rs", "src/rust/regex-aot/src/lib.rs", "src/rust/src/webrtc/audio_device_module_utils.rs", "src/rust/src/core/signaling.rs"],
        mech=[("redact_string", "src/rust/src/core/util.rs"), ("redact_by_regex", "src/rust/src/webrtc/audio_device_module_utils.rs"), ("messages", "src/rust/src/core/signaling.rs Message, Offer::to_info_string")],
        observe=["text returned by redact_string", "what is logged of Cubeb's lines"],
        note=note("Bounded: all placements of '::' and of an embedded IPv4 address, one symbolic digit per "
                  "path and chosen groups else; IPv4 with symbolic digits throughout; short surroundings"),
    ),
    dict(
        id="Q01",
        title="Session descriptions carry exactly the negotiated parameters",
        statement="A session description is built from exactly the negotiated parameters: ICE credentials, "
        "codecs and bitrate, SRTP keys, demux ids. A refusal by WebRTC is reported, never ignored. Each "
        "description is freed or handed over exactly once, and an observer's result reaches its waiter "
        "exactly once.",
        over=["inputs", "schedules", "fault_sequences"],
        text="every parameter value, refusal and order of callback and wait within the bound",
        why="No test covers these conversions; mixing up a client's and a server's key compiles and runs.",
        files=["src/rust/src/webrtc/sdp_observer.rs"],
        mech=[("SessionDescription and its observers", "src/rust/src/webrtc/sdp_observer.rs")],
        observe=["arguments, frees and results seen by WebRTC's stand-in"],
        note=note("Bounded: texts and keys of a few symbolic bytes, up to 3 remote devices or codecs, two "
                  "threads; WebRTC's C++ side replaced by a recording stand-in"),
    ),
    dict(
        id="O01",
        title="Peer connection calls and events cross the boundary unchanged",
        statement="Every call on a peer connection reaches WebRTC with its arguments unchanged, and its "
        "refusals are reported. ICE, media and encryption events reach the observer unchanged; null "
        "pointers are ignored. A connection is released before its observer and owner, and references "
        "are taken and released in pairs.",
        over=["inputs", "histories", "fault_sequences"],
        text="every argument, event and refusal within the bound",
        why="No stable test covers the boundary; its C++ side is absent in tests.",
        files=[
            "src/rust/src/webrtc/peer_connection.rs",
            "src/rust/src/webrtc/peer_connection_observer.rs",
            "src/rust/src/webrtc/ice_gatherer.rs",
            "src/rust/src/webrtc/media.rs",
            "src/rust/src/webrtc/arc.rs",
            "src/rust/src/webrtc/ptr.rs",
        ],
        mech=[
            ("PeerConnection", "src/rust/src/webrtc/peer_connection.rs"),
            ("PeerConnectionObserver", "src/rust/src/webrtc/peer_connection_observer.rs"),
        ],
        observe=["arguments and reference counts seen by WebRTC's stand-in", "observer callbacks"],
        note=note("Bounded: buffers and lists of a few entries, send rates below 2^31 bit/s; WebRTC's C++ "
                  "side replaced by a recording stand-in"),
    ),
    dict(
        id="K01",
        title="A call's life as the application is told it",
        statement="Whatever the application, the peers, the network and the clock do, one call at a time is "
        "active. Each call is started at most once, ends at most once and with one reason, and is then "
        "concluded exactly once with nothing reported about it after that. Calls refused while another "
        "is active, failed sends and resets never end or end again another call. Once the application "
        "hangs up and confirms what it sent, no call is left.",
        over=["histories", "schedules", "fault_sequences"],
        text="every sequence of 2 (thorough 3) of 23 kinds of event from each stage of a call, at once or in turn",
        why="The tests walk through chosen scripts; three defects showed only in unusual sequences.",
        files=["src/rust/src/core/call_manager.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs"],
        mech=[("call lifecycle", "src/rust/src/core/call_manager.rs terminate_call")],
        observe=["what the application is told of each call", "whether the call manager is busy"],
        note=note("Bounded: one call at any of 4 stages, then 2 (thorough 3) events; WebRTC is the crate's own "
                  "sim module; threads are not pre-empted, except events queued at once"),
    ),
    dict(
        id="K02",
        title="Signaling messages are sent one at a time, in order",
        statement="The application is asked to send one signaling message at a time, the next after it "
        "confirmed the last. ICE candidates are sent in the order in which they were found, each exactly "
        "once as long as the call goes on; messages overtaken by the call's end are dropped, the "
        "hangup is not. Nothing but hangups and busies is sent for a call that is over.",
        over=["histories", "fault_sequences"],
        text="every sequence of 5 of candidates, confirmations, failed sends, other offers and hangups",
        why="The tests confirm every message at once; a queue that loses or doubles messages needs a slow sender.",
        files=["src/rust/src/core/call_manager.rs", "src/rust/src/core/connection.rs"],
        mech=[("message queue", "src/rust/src/core/call_manager.rs send_next_message")],
        observe=["messages that the application is asked to send"],
        note=note("Bounded: 4 or 5 events per call, either direction; WebRTC is the crate's own sim module"),
    ),
    dict(
        id="K03",
        title="Each incoming offer has one lawful fate",
        statement="An offer older than 60 s is reported as expired and never rings. A fresh offer "
        "rings when no call is active; meeting another peer's or device's call it is answered busy and leaves "
        "that call alone. When two users call each other the call with the higher id survives on both "
        "sides, the other ends; a repeated call by the connected device replaces the dead one.",
        over=["inputs", "histories"],
        text="offers of every age and device id, meeting no call or one at any of 4 stages, of the same or another peer",
        why="Ages and ids at the borders and the stage of the meeting call multiply beyond the tests' scripts.",
        files=["src/rust/src/core/call_manager.rs"],
        mech=[("offer handling and glare", "src/rust/src/core/call_manager.rs handle_received_offer")],
        observe=["what the application is told of both calls", "the surviving call on both sides"],
        note=note("Bounded: one call meeting one offer with symbolic age and device; 4 x 4 call ids for crossing "
                  "calls; WebRTC is the crate's own sim module"),
    ),
    dict(
        id="K05",
        title="Signaling messages act on their own call only",
        statement="An answer, ICE candidate, hangup or busy from another peer, or for another call id, never "
        "changes a call, even when it arrives before that call's offer. ICE candidates and hangups of the "
        "right peer that overtake their offer take effect once it arrives: candidates in order (the "
        "last 30 messages), a hangup by ending the call.",
        over=["inputs", "histories"],
        text="every sequence of 4 early messages of two peers and two calls, with or without a call; every stray message at each stage",
        why="The tests send one stray message in a fresh call; mixed senders showed a defect.",
        files=["src/rust/src/core/call_manager.rs"],
        mech=[("messages before their offer", "src/rust/src/core/call_manager.rs PendingCallMessages")],
        observe=["candidates that reach the connection", "what the application is told", "the call's state"],
        note=note("Bounded: 3 or 4 early messages (up to 32 alike), one stray message; WebRTC is the crate's own sim module"),
    ),
    dict(
        id="K06",
        title="A hangup ends the call, and everyone who rings is told",
        statement="A hangup for the call from the device in question ends it exactly once, with the reason of its "
        "kind (normal, accepted / declined / busy on another device, need permission), and never the reverse: "
        "a hangup that names this device, or comes from a device that no longer matters, changes nothing. "
        "When a caller hangs up, when a device accepts, and when the caller's call is answered, every other "
        "ringing device is told once with the right kind and device; one device of a callee wins, never two.",
        over=["inputs", "histories"],
        text="every hangup type, device id and stage (4) of both directions, through signaling and through the data channel, followed by a second event",
        why="The tests cover each type once in one state.",
        files=["src/rust/src/core/call.rs", "src/rust/src/core/call_manager.rs", "src/rust/src/core/call_fsm.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/signaling.rs"],
        mech=[("reacting to hangups", "src/rust/src/core/call_fsm.rs CallStateMachine::handle_received_hangup"),
              ("telling the other devices", "src/rust/src/core/call.rs Call::send_hangup_via_rtp_data_and_signaling_to_all")],
        observe=["events the application is told", "hangup messages sent", "messages on the data channel", "the call's state"],
        note=note("Bounded: 1 or 2 hangups at each of 4 stages, 2 or 3 devices; hangups over the data channel are best effort and claimed only to be correct; WebRTC is the crate's own sim module"),
    ),
    dict(
        id="K07",
        title="What the sides of a call tell each other takes effect in order",
        statement="A status, bitrate limit or acceptance counts only if it is for this call and newer than the last one "
        "taken; the application is told of exactly the changes, and only once the call is accepted. The send rate "
        "is the least of the own data mode, the other side's limit and the relay limit, at least 30 kbps. "
        "What this side says carries all it said before under growing numbers. Data that is no such message does "
        "nothing, and no sound leaves this side before the call is accepted.",
        over=["inputs", "histories"],
        text="every 3 statuses or limits with any 64-bit numbers, ids and rates; every 2 packets with any RTP header; any 3 bytes; every 2 of 23 events at 4 stages",
        why="The tests send one status with fixed numbers.",
        files=["src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs"],
        mech=[("newer messages win", "src/rust/src/core/connection_fsm.rs ConnectionStateMachine::handle_received_sender_status_via_rtp_data"),
              ("the send rate", "src/rust/src/core/connection.rs Connection::update_bandwidth_controller"),
              ("what is said", "src/rust/src/core/connection.rs Connection::update_and_send_rtp_data_message")],
        observe=["events the application is told", "the rate set on the peer connection", "messages sent on the data channel", "whether audio is enabled"],
        note=note("Bounded: 2 or 3 messages in a call in either direction; WebRTC is the crate's own sim module"),
    ),
    dict(
        id="K08",
        title="No deadlock",
        statement="Whatever the application, the network and the clock do at the same time, no thread of a call waits "
        "forever for a lock or for another thread: every operation returns, later ones are still handled, and "
        "the call can be ended and is concluded.",
        over=["schedules", "histories"],
        text="every 2 of 14 operations at once during ringing and connected calls, from one or two threads, under every schedule with one delay at a lock",
        why="The tests run operations one after another; the lock order only matters in rare interleavings (one inversion was found).",
        files=["src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs", "src/rust/src/core/call_manager.rs", "src/rust/src/core/call_mutex.rs"],
        mech=[("locks", "src/rust/src/core/call_mutex.rs CallMutex"),
              ("the order of the locks", "src/rust/src/core/connection.rs Connection::update_bandwidth_controller")],
        observe=["that every thread gets on", "that the call is concluded"],
        note=note("Bounded: 2 operations, schedules that differ from the default one once (thorough: twice), at acquisitions of CallMutex and at waits; locks inside WebRTC are not there (the crate's own sim module)"),
    ),
    dict(
        id="J01",
        title="Statistics tell what happened since the last report",
        statement="Each snapshot of a stream is about the time since the previous report on that stream: rates, "
        "percentages and averages are of the growth of its counters, are always finite and not negative (0, or for "
        "the jitter buffer the last value, where nothing happened), delays are in milliseconds and those per packet "
        "or frame are of packets or frames. Counters that start over don't give wrong numbers, streams are never "
        "mixed up, and the network route reported is the one the time was spent on. A raw report is taken once.",
        over=["inputs", "histories"],
        text="two and three reports with counters that grow, stay or start over, any reason and size; 5 reports, route changes or reads in any order; 60 reports over 20 minutes",
        why="No test covers the statistics; the defects found need no time to pass between two reports, or a stream whose packets differ from its frames.",
        files=["src/rust/src/webrtc/stats_observer.rs"],
        mech=[("the snapshots", "src/rust/src/webrtc/stats_observer.rs derive"),
              ("what was reported before", "src/rust/src/webrtc/stats_observer.rs StatsObserver::on_stats_complete")],
        observe=["the snapshots given to the consumer", "take_stats_report"],
        note=note("Bounded: numerators symbolic up to 5000, what is divided by and energies from lists (solvers do not decide floating-point division by unknowns), elapsed times 0, 0.5 and 10 s; the log lines are not looked at"),
    ),
    dict(
        id="V01",
        title="The microphone is heard only when asked for, and every sample arrives",
        statement="Recorded sound reaches WebRTC only between the start and the stop of recording, whatever the "
        "devices do, and the same stream runs again after a change of device. While recording or playing, exactly one "
        "stream runs, on the device chosen or the default one. Every sample recorded is handed over, and every sample "
        "WebRTC gives is played on both channels, once and in order, 10 ms at a time. The application is offered the "
        "usable devices, the default first, is told once of each change, and can choose any of them; names are cut to "
        "fit between characters. Failures of the platform are reported, and it works once the platform does.",
        over=["inputs", "histories", "fault_sequences"],
        text="3 callbacks with any of 7 lengths and unknown samples; 5 operations (start, stop, warm-up, device choice, unplugging) in any order; 3 devices of any sort; each platform call failing",
        why="The tests check names of two devices and the cutting of text; nothing runs the device module.",
        files=["src/rust/src/webrtc/audio_device_module.rs", "src/rust/src/webrtc/audio_device_module_utils.rs"],
        mech=[("the streams and their worker thread", "src/rust/src/webrtc/audio_device_module.rs"),
              ("devices offered", "src/rust/src/webrtc/audio_device_module_utils.rs DeviceCollectionWrapper")],
        observe=["the streams open and running", "samples passed to and from WebRTC", "devices listed and observer called"],
        note=note("Bounded: Cubeb is a stand-in (Linux devices) and callbacks come between operations, not during them; "
                  "not claimed: a stop the platform refuses, initialising twice while recording, a playout delay read "
                  "after its 50 ms wait ran out"),
    ),
    dict(
        id="L01",
        title="Group call media keys reach only those in the call",
        statement="The key of a device's group call media is sent to users in the call and to nobody else. Whoever is "
        "in the call opens this device's current media with the keys it got, also after lost messages are sent "
        "again. Who joins cannot open what was sent before it came, and who leaves cannot open what is sent 5 s (or, "
        "if a replacement key was under way, 10 s) after. A device's media opens only with a key that the user the SFU "
        "names for that device sent, whichever arrives first; malformed keys are ignored.",
        over=["histories", "inputs", "schedules"],
        text="3 steps (anybody comes or goes, keys are sent again, 3 s pass) with 2 others after one or both were there; keys of 2 users about 2 devices in any order with any membership; any counter and 31-33 byte secrets",
        why="The tests of group calls need the simulated platform and follow single scripts; who holds which key when depends on the order of comings, goings and rotations.",
        files=["src/rust/src/core/group_call.rs", "src/rust/src/core/crypto.rs"],
        mech=[("sending and rotating keys", "src/rust/src/core/group_call.rs Client::advance_media_send_key_and_send_to_users_with_added_devices, Client::rotate_media_send_key_and_send_to_users_not_removed"),
              ("receiving keys", "src/rust/src/core/group_call.rs Client::add_media_receive_key_or_store_for_later"),
              ("the ratchet", "src/rust/src/core/crypto.rs Context")],
        observe=["call messages given to the application and their recipients", "what frames a holder of keys opens", "decrypt_media"],
        note=note("Bounded: at most 2 other users with a device each and 3 steps; AES and HMAC run on concrete keys; who is in the call is what the SFU says (Signal groups, not call links)"),
    ),
    dict(
        id="L02",
        title="What others say about a group call takes effect once, in order",
        statement="Every packet of a reliable SFU message takes effect once and in order, however late or often it "
        "arrives. Raised hands are as last reported or asked for, and what is asked for is repeated until the SFU has "
        "it. The speaker, and the mute states of each device, are those of the newest report, not of one that arrived "
        "late. A mute request or reaction concerns who sent it. Only a device's own user, or its media, says it is leaving. "
        "The devices shown are those of known users in the order the SFU gives, each since it came, with the video the SFU "
        "forwards; requests for video name devices that are here, the newest wins, at most one extra per second. Send rates "
        "follow the size of the call, and nothing is sent while nobody is there. Each change is told once.",
        over=["histories", "inputs", "schedules"],
        text="3 reliable messages of 1-2 packets with one late and one repeated; 2-3 reports, heartbeats, requests or membership lists in any order with any timestamps; 0-9 devices",
        why="The tests cover single messages in order; a defect found (packets released together were lost) needs messages out of order.",
        files=["src/rust/src/core/group_call.rs"],
        mech=[("SFU messages", "src/rust/src/core/group_call.rs Client::handle_sfu_to_device"),
              ("messages of devices", "src/rust/src/core/group_call.rs Client::handle_rtp_received"),
              ("devices", "src/rust/src/core/group_call.rs Client::set_peek_result_inner"),
              ("raised hands", "src/rust/src/core/group_call.rs Client::handle_raised_hands")],
        observe=["what the application is told", "RTP data sent to the SFU and the devices", "outgoing media enabled", "peeks asked for"],
        note=note("Bounded: few messages and devices, clock of whole seconds in most; a raised hand sequence number of 2^32-1 from the SFU is not considered"),
    ),
    dict(
        id="L03",
        title="A group call is connected, joined, left, rung and ended as told",
        statement="A group call's client connects, joins, is let in, leaves and ends exactly as the application, the "
        "SFU and the network say, and tells the application of each change once; it ends once, with the reason, 20 ms "
        "after. The device is busy while it is in a call or on its way into it, and free after, whatever happened. "
        "The SFU hears of leaving, no packet is sent or enabled outside the call, and no sequence number is used twice. "
        "A group is rung at most once and only in a call this user created, and a ring nobody followed is taken back. "
        "Accepting a ring is told to the user's other devices, once and only by who joins. Membership is proven when "
        "connecting, joining and every day.",
        over=["histories", "inputs", "schedules"],
        text="2 (thorough: 3) of 17 operations from each of 6 states, then the end with or without joining again; 5 (7) operations around rings; 2 days of proofs",
        why="The tests follow single scripts; a defect found (the device stayed busy for good) needs joining in the 20 ms of the end.",
        files=["src/rust/src/core/group_call.rs"],
        mech=[("joining and leaving", "src/rust/src/core/group_call.rs Client::join, Client::leave_inner, Client::end"),
              ("the SFU's answers", "src/rust/src/core/group_call.rs Client::on_sfu_client_join_success, Client::on_sfu_client_join_failure"),
              ("connection", "src/rust/src/core/group_call.rs PeerConnectionObserverImpl::handle_ice_connection_state_changed"),
              ("rings", "src/rust/src/core/group_call.rs Client::ring, RingId")],
        observe=["what the application is told", "the busy flag of the call manager", "packets sent", "outgoing media enabled", "call messages sent"],
        note=note("Bounded: 2-3 steps from each state; assumed of the application: it connects before it joins, does not "
                  "ring after it left, and does not use a connected client for another join"),
    ),
    dict(
        id="L04",
        title="What a group call asks of the SFU, and agrees with it",
        statement="The SFU is asked who is in the call when membership is proven, when somebody comes or goes, 10 s after "
        "it last said, and again when it does not answer or fails, never twice at a time. Approving, denying, "
        "removing and blocking reach the SFU once, for a device of the user meant, and are sent again until it "
        "has them. The SRTP keys are those the SFU derives, and with a key that gives none the call fails instead. Each "
        "device keeps the transceiver it got, no two share one, and free ones are used first. The "
        "video asked for keeps to the data mode chosen.",
        over=["histories", "inputs", "schedules"],
        text="4 (thorough: 6) steps of time passing, answers, failures and changes; 2 administrative actions of 4 kinds over 4 users with or without acknowledgement; 3 lists of up to 3 devices; 2 changes of data mode",
        why="The tests cover single requests in order; repeating, giving up and reusing depend on the order and time of events.",
        files=["src/rust/src/core/group_call.rs"],
        mech=[("who is there", "src/rust/src/core/group_call.rs Client::request_remote_devices_as_soon_as_possible, Client::tick"),
              ("administration", "src/rust/src/core/group_call.rs Client::approve_user, Client::deny_user, Client::remove_client, Client::block_client"),
              ("keys", "src/rust/src/core/group_call.rs DheState"),
              ("transceivers", "src/rust/src/core/group_call.rs State remote_transceiver_demux_ids")],
        observe=["requests made of the SFU client", "messages sent to the SFU", "SRTP keys", "transceivers per device"],
        note=note("Bounded: few steps; Diffie-Hellman is a stand-in of which only the all-zero key gives nothing"),
    ),
    dict(
        id="K04",
        title="Group rings ring, expire and are answered as they should",
        statement="A ring sent in the last 60 s is announced to the application, unless this device is busy, which "
        "it is told and its other devices hear; an older one is reported as expired. It is over when it is "
        "answered or refused on any of the user's devices, taken back by who rang, or 60 s after; nobody else ends it. "
        "Who joins the group's call accepts the ring that is open, and no other. What is cancelled by the user "
        "is told to the other devices. Messages that lack anything ring for nobody, and a message is announced as a ring "
        "exactly if it rings.",
        over=["histories", "inputs"],
        text="2 (thorough: 3) messages, cancellations or waits with 2 groups, 2 rings, 2 senders and any kind of message, during a call or not, then joining; any missing fields and ages",
        why="The tests of group rings need the simulated platform and take single messages; what is open depends on their order.",
        files=["src/rust/src/core/call_manager.rs"],
        mech=[("rings", "src/rust/src/core/call_manager.rs CallManager::received_call_message, cancel_group_ring, start_group_ring"),
              ("announcing", "src/rust/src/core/call_manager.rs validate_call_message_as_opaque_ring")],
        observe=["ring updates the application is told", "call messages to the user's other devices"],
        note=note("Bounded: 2-3 steps; a ring that is over may still be reported as expired 60 s after it came (the applications know of it)"),
    ),
    dict(
        id="F01",
        title="Connections, tracks and audio devices are made as asked",
        statement="A peer connection is made with exactly the ICE servers, kind and settings asked for, also with "
        "servers copied elsewhere, and a refusal is reported. The factory and observer last as long as the connection "
        "made with them, and references are taken and released in pairs. Each call of WebRTC's audio module reaches "
        "the function meant with its arguments and answer. Audio devices are listed and chosen as the platform has them.",
        over=["inputs", "fault_sequences"],
        text="0-2 servers of 0-2 URLs with unknown texts, any settings, every refusal, every entry of the callback table, 0-2 devices",
        why="No test makes a connection outside the simulation; a defect found (a copied server pointed to freed URLs) shows only when the original is gone.",
        files=["src/rust/src/webrtc/peer_connection_factory.rs", "src/rust/src/webrtc/ffi/audio_device_module.rs"],
        mech=[("factory", "src/rust/src/webrtc/peer_connection_factory.rs PeerConnectionFactory, IceServer"),
              ("audio callbacks", "src/rust/src/webrtc/ffi/audio_device_module.rs AudioDeviceCallbacks")],
        observe=["arguments, references and callbacks seen by WebRTC's stand-in", "results"],
        note=note("Bounded: texts of 2 characters, few servers and devices; WebRTC and Cubeb are recording stand-ins"),
    ),
    dict(
        id="E01",
        title="Call links keep their keys, hide their names and are asked for right",
        statement="Bytes or text are a call link's key exactly when they are of its form; text that is a key is what "
        "the key prints as. New keys look random and are unusable until the server made the link. Who has the "
        "key reads the name, nobody else, and its length tells only its blocks. Requests carry the link's room, epoch, "
        "rights and changes exactly; a key that is not ready, or is already, asks nothing. The answer is told once, as it "
        "came, or the error. Members of a link's call are resolved by its key, however many were before.",
        over=["inputs", "histories"],
        text="any bytes of 8 lengths, texts one character (or 3 at the end) away from a key's, names of up to 52 unknown bytes, every request with 5 kinds of answer, up to 20 members",
        why="The tests need libsignal's crates and take single examples; a defect found (text after a key's last group was ignored) needs texts of a form they don't try.",
        files=["src/rust/src/lite/call_links.rs", "src/rust/src/lite/call_links/root_key.rs", "src/rust/src/lite/call_links/member_resolver.rs", "src/rust/src/lite/call_links/base16.rs"],
        mech=[("keys", "src/rust/src/lite/call_links/root_key.rs CallLinkRootKey"),
              ("requests", "src/rust/src/lite/call_links.rs read_call_link, create_call_link, update_call_link, delete_call_link"),
              ("members", "src/rust/src/lite/call_links/member_resolver.rs CallLinkMemberResolver")],
        observe=["keys, their text and bytes", "requests made of the HTTP client and results told", "user ids resolved"],
        note=note("Bounded: see the text; AES-GCM-SIV is an ideal authenticated cipher and zkgroup an ideal stand-in"),
    ),
    dict(
        id="E02",
        title="Endorsements are used exactly while they are good",
        statement="Endorsements the SFU gives in a call link's call are kept per expiration, the newest for each user, "
        "and handed out (the latest, by expiration, by users, or as a token of exactly the users asked for) only if "
        "known for every user asked, not expired or marked bad since, and nothing doubtful came since. The "
        "application is told each set once as it is now, or what is wrong: missing, malformed, late or badly issued "
        "ones are never used. Who joins gets the media key once, with its own good endorsement if there is one, plainly otherwise.",
        over=["inputs", "histories"],
        text="every history of 3 inserts, marks, clearings and requests (4 thorough) over 2 expirations and 3 users with any endorsements; every 2 answers (3 thorough) of 8 kinds, with users joining between",
        why="The tests need libsignal's crates, which this sandbox lacks, and take one order of steps; marks and expirations combine in many.",
        files=["src/rust/src/core/endorsements.rs", "src/rust/src/core/group_call.rs"],
        mech=[("cache", "src/rust/src/core/endorsements.rs EndorsementsCache"),
              ("answers", "src/rust/src/core/group_call.rs handle_send_endorsements_response_inner, validate_and_cache_endorsements"),
              ("use", "src/rust/src/core/group_call.rs send_media_send_key_to_users_over_signaling")],
        observe=["what the cache hands out", "what the application is told", "key messages sent and their endorsements"],
        note=note("Bounded: see the text; zkgroup is an ideal stand-in, in which the issuer's number stands for a valid signature"),
    ),
    dict(
        id="E03",
        title="The SFU is asked right over HTTP, and its answers are told as they are",
        statement="A request to look into a call or to join it carries the caller's proof, room or link, keys and "
        "parameters exactly; a link that does not exist is not asked about. The answer is told once: devices, users "
        "as the group knows them (unknown ones as nobody), addresses and state as said, no call as an empty call, "
        "and every failure for what it is, never a malformed answer as a good one. Somebody whose state "
        "is not known counts as pending.",
        over=["inputs", "fault_sequences"],
        text="4 kinds of link, any status, 8 kinds of bodies, up to 2 devices and 3 pending of 4 kinds of users, every missing or spoilt field, any proof of up to 4 bytes",
        why="The tests need libsignal's crates, which this sandbox lacks, and parse single good answers.",
        files=["src/rust/src/lite/sfu.rs"],
        mech=[("peek", "src/rust/src/lite/sfu.rs peek, PeekInfo, classify_not_found"),
              ("join", "src/rust/src/lite/sfu.rs join, JoinResponse"),
              ("users", "src/rust/src/lite/sfu.rs MemberMap, ObfuscatedResolver, auth_header_from_membership_proof")],
        observe=["requests made of the HTTP client", "results told"],
        note=note("Bounded: see the text; the HTTP client is a recording stand-in"),
    ),
]
