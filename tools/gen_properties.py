import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=[{"name":"state","meaning":state,"where":files[0]}]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","TPM structures encode to the specified wire layout and decode back",
 "Encoding a TPM structure, union, list, attribute word, algorithm or handle value produces exactly the TPM 2.0 Part 2 layout: fields in specification order, every integer big-endian, sized buffers as a 16-bit length and only the used bytes, counted lists as a count and only the used elements, unions as the selector value of the specification and the selected member (the selector coming where the specification puts it, e.g. first in a public area). Decoding those bytes, whatever bytes follow them, gives back an equal value field by field and consumes exactly those bytes.",
 ["inputs"],"for every value of every public structure type and every byte string following its encoding",
 "A test checks one value of one type; a swapped pair of same-sized fields, a wrong selector, or an error that only shows for one union member, one list length or one buffer size survives every sampled round trip, and a symmetric mistake in encoder and decoder survives all round trips.",
 ["base/src/lib.rs","base/src/constants.rs","base/src/commands","marshalable/src/lib.rs","marshalable-derive/src/lib.rs"],
 [("derived field-by-field codec","marshalable-derive/src/lib.rs get_field_marshal_body/get_field_unmarshal"),("hand-written codecs with hoisted selectors","base/src/lib.rs impl Marshalable for TpmsAttest/TpmtPublic/TpmtSensitive"),("primitive big-endian codec","marshalable/src/lib.rs impl_be_prim_marshalable")],
 "try_marshal/try_unmarshal of every public type, public fields and accessors")

p("C02","Decoding untrusted bytes is total, exact and rejects truncation",
 "Decoding any byte string as any TPM structure returns either an error or a value, and never panics. When it returns a value, encoding that value again gives exactly the bytes that were consumed; every strict prefix of a valid encoding, every list count above the capacity of the list, every buffer length above the capacity of the buffer and every undefined selector is rejected with an error.",
 ["inputs"],"for every byte string of every length and every public structure type",
 "The decoder's input comes from outside (a TPM, a network peer, a client): hostile counts, lengths, selectors and truncation points form a space no list of examples covers.",
 ["marshalable/src/lib.rs","marshalable-derive/src/lib.rs","base/src/lib.rs"],
 [("bounded cursor","marshalable/src/lib.rs UnmarshalBuf::get"),("counted array bound","marshalable-derive/src/lib.rs get_named_field_unmarshal"),("sized buffer bound","marshalable-derive/src/lib.rs derive_tpm2b_simple try_unmarshal")],
 "try_unmarshal of every public type on every enumerated byte string; remaining length of the cursor")

p("C03","Encoding fits the output buffer exactly or fails cleanly",
 "Encoding a value into an output buffer of any length succeeds if and only if the whole encoding fits; it then reports the encoding's length and leaves every byte after the encoding unchanged. If it does not fit, or if a public length field of the value claims more elements than its array holds, an error is returned; encoding never panics.",
 ["inputs"],"for every value (including ones with out-of-range public length fields) and every output buffer length from zero upwards",
 "Tests encode into comfortably large buffers; off-by-one and short-buffer faults show only at one particular length for one particular value.",
 ["marshalable/src/lib.rs","marshalable-derive/src/lib.rs","base/src/lib.rs"],
 [("primitive and array encoders","marshalable/src/lib.rs impl Marshalable for [u8; M]"),("sized buffer encoder","marshalable-derive/src/lib.rs derive_tpm2b_simple try_marshal"),("counted array encoder","marshalable-derive/src/lib.rs get_named_field_marshal")],
 "try_marshal return value and the whole output buffer, including canary bytes after the encoding")

p("C04","Sized buffers hold exactly what was put in, up to their capacity",
 "Every sized-buffer type accepts any byte string up to its capacity, then reports exactly that length and exactly those bytes through every accessor, and equals the value obtained by decoding its own encoding; longer byte strings are refused with an error. For sized buffers that wrap a structure, wrapping any encodable structure and unwrapping it returns an equal structure, the wrapped bytes are the structure's encoding, and unwrapping arbitrary contents gives what decoding exactly those contents gives (incomplete contents are an error) and never panics.",
 ["inputs"],"for every length from zero past the capacity of each sized-buffer type, every content byte, and every wrapped structure value",
 "Tests use one or two lengths of one or two of the thirty sized-buffer types; capacity edges and lengths above 255 bytes of the others are never exercised.",
 ["marshalable-derive/src/lib.rs","base/src/lib.rs"],
 [("sized buffer construction and views","marshalable-derive/src/lib.rs derive_tpm2b_simple"),("struct wrapping","marshalable-derive/src/lib.rs derive_tpm2b_struct")],
 "from_bytes/get_size/get_buffer/as_ref/default/from_struct/to_struct of every TPM2B type",
 "declared size and backing array")

p("C05","Bounded lists behave like a vector with a fixed capacity",
 "For every history of building and appending, a TPM list contains exactly the elements added successfully, in order, with a matching count; an element is refused with a size error exactly when the list is full (or an initial slice is longer than the capacity), and a refused operation leaves the list unchanged. After any history the list encodes as its count followed by exactly those elements, and decodes back to an equal list from which appending continues correctly.",
 ["histories","inputs"],"for every sequence of construct, append, refuse, encode and decode operations, from the empty list to beyond capacity, of every list type",
 "The faults live at the capacity edge and in mixed histories (append after decode, refusal followed by append); tests stop after a couple of appends.",
 ["base/src/lib.rs"],
 [("list helpers","base/src/lib.rs impl_tpml")],
 "new/add/count/element accessor, try_marshal/try_unmarshal of every TPML type",
 "count and backing array")

p("C06","Unions decode exactly the specified selectors",
 "For every union and every numeric selector value, decoding picks the member the TPM specification assigns to that selector, and any selector with no assigned member is refused as an unknown selector. The selector emitted when encoding is the one assigned to the member held, the member can equally be encoded and decoded with the selector kept elsewhere, and the member of one selector is never interpreted with the layout of another.",
 ["inputs"],"for every selector value in the whole 16-bit selector space (and the 32-bit capability space), for every union and member",
 "Tests try one valid and one invalid selector per union; nothing in them excludes aliasing of other selector values or two members exchanged.",
 ["base/src/lib.rs","base/src/constants.rs","marshalable-derive/src/lib.rs"],
 [("selector dispatch","marshalable-derive/src/lib.rs get_enum_unmarshal_body"),("selector values","base/src/lib.rs union enums; base/src/constants.rs TpmAlgId/TpmSt/TpmCap")],
 "try_unmarshal, try_unmarshal_variant, try_marshal_variant and the discriminant of every union")

p("C07","The codec derive is correct for every shape of type it accepts",
 "For any structure or union a user may define with the supported field kinds (integers, byte arrays, arrays counted by an earlier field, nested structures, sized buffers, unions; named, positional or no fields), the derived codec encodes the fields in declaration order with no padding, decodes them back to an equal value consuming exactly the encoding, and reports an error (never a panic) on every truncation, short output and over-long count. A derived sized buffer around a structure holds exactly the structure's encoding, or wrapping is refused when a 16-bit size cannot express it.",
 ["programs","inputs"],"for every type definition over the supported field kinds up to a bounded number of fields and members, and every value and truncation of it",
 "The macro is a program generator: tests exercise a handful of definitions, while a fault shows only for a particular arrangement of fields (e.g. two counted arrays, or a counted array that is not last).",
 ["marshalable-derive/src/lib.rs","marshalable/src/lib.rs"],
 [("derive for structs","marshalable-derive/src/lib.rs get_named_field_marshal/get_named_field_unmarshal"),("derive for enums","marshalable-derive/src/lib.rs get_enum_impl")],
 "generated impls of Marshalable/MarshalableVariant on generated definitions")

p("C08","The core codec honours implementation limits and buffer bounds",
 "In the core crate, a value encodes to its specified big-endian bytes exactly when the buffer is large enough and the implementation's limits support it, returning the untouched rest of the buffer; the advertised size equals the bytes written and never exceeds the advertised maximum for those limits. Decoding accepts exactly the encodings of supported values, returns exactly the bytes that follow, and on an error leaves the destination value unchanged; neither ever panics.",
 ["inputs","configurations"],"for every set of supported hash algorithms, every value, every buffer length and every input byte string in the enumerated domain",
 "Correctness depends on the combination of limits, algorithm and buffer length; no existing test marshals anything in this crate.",
 ["crates/tpm2/src/marshal.rs","crates/tpm2/src/tpmt.rs","crates/tpm2/src/tpmi.rs","crates/tpm2/src/constants.rs"],
 [("blanket array codec","crates/tpm2/src/marshal.rs impl Marshal for T: MarshalArray"),("digest codec with limits","crates/tpm2/src/tpmt.rs impl Marshal/Unmarshal for TpmtHa"),("limits","crates/tpm2/src/marshal.rs Limits::max_digest_size")],
 "marshal/unmarshal/marshaled_size/marshaled_size_max")

p("C09","Response codes keep their meaning through building, decoding and conversion",
 "Every named TPM response code and client-layer error has the numeric value of the specification; a format-one code built for a parameter (1-15), handle (1-7) or session (1-7) carries the specified bits and decodes back to that kind and position, and a code is classified as a warning exactly when the specification says so. Conversion between error types preserves the 32-bit code for every non-zero value, zero is never an error, and codec errors map to their documented response codes.",
 ["inputs"],"for every 32-bit response code, every error kind and every position",
 "Two codes are tested out of a 32-bit space; the decoding of handles and sessions was wrong for years of green tests.",
 ["crates/tpm2/src/errors/tpm_rc/mod.rs","crates/tpm2/src/errors/tss_rc.rs","crates/tpm2/src/errors/mod.rs","marshalable/src/errors.rs","base/src/constants.rs"],
 [("format-one encoding","crates/tpm2/src/errors/tpm_rc/mod.rs ErrorType/ErrorPosition"),("warning classification","crates/tpm2/src/errors/tpm_rc/mod.rs is_warning"),("conversions","crates/tpm2/src/errors/mod.rs TryFrom<u32> for TssError; marshalable/src/errors.rs")],
 "public constants, constructors, format1_parameter, is_warning, From/TryFrom conversions")

p("C10","Every command reaches the TPM as one exactly framed message",
 "Running a command sends exactly one message: the tag telling whether sessions are present, a size equal to the number of bytes sent, the command's code, then the handles, then (only with sessions) the authorization area with its size, then the parameters, and nothing else. A command that does not fit the command buffer fails with an error without anything being sent, and no command, handle or session content can cause a panic.",
 ["inputs"],"for every command type, parameter and handle value, zero to three sessions, and every total size up to and beyond the command buffer",
 "The message depends on the combination of handles, sessions and parameter sizes, with boundary cases at each byte near the buffer end; tests send two small commands.",
 ["crates/tpm2-client/src/lib.rs"],
 [("command assembly","crates/tpm2-client/src/lib.rs run_command_with_handles"),("authorization area","crates/tpm2-client/src/lib.rs write_command_sessions"),("command header","crates/tpm2-client/src/lib.rs CmdHeader")],
 "bytes handed to Connection::transact by run_command/run_command_with_handles/get_capability")

p("C11","A response is accepted only if it is complete and well formed",
 "Whatever bytes a TPM returns, running a command returns either an error or exactly the handles and parameters encoded in the bytes received, and never panics. A non-zero response code is returned as that same error code, a transport error is passed through, and a response that is truncated, that announces a size larger than what was received or smaller than a header, or that has unconsumed bytes within its announced size is always an error; bytes that were not received are never treated as data.",
 ["inputs","fault_sequences"],"for every byte string returned by the connection, every announced size, every response code and every truncation point",
 "The peer is outside the program's control; tests use one good and one oversized response, and the zero-filled buffer hides truncation from them.",
 ["crates/tpm2-client/src/lib.rs"],
 [("response header check","crates/tpm2-client/src/lib.rs read_response_header"),("response parsing and size checks","crates/tpm2-client/src/lib.rs run_command_with_handles")],
 "result of run_command/run_command_with_handles against a scripted Connection")

p("C12","Every session authorizes the command and vets the response, in order",
 "With one to three sessions, the authorization area contains each session's authorization in the order given, and the command succeeds only if the response carries one authorization per session and each session, in the same order, accepted the one addressed to it; if any session rejects, its error is the result and no response data is returned. A password session sends the password handle, an empty nonce, no attributes and exactly the password, refuses passwords above the maximum, and accepts only a response with empty nonce, empty authorization value and exactly the continue-session attribute.",
 ["inputs","histories"],"for every number of sessions, every combination of accepting and rejecting sessions, every password length and content, and every response authorization in the enumerated domain",
 "Authorization is decided by a combination of sessions and response fields; a check that is skipped for one position or one attribute bit passes every test in which the peer is honest.",
 ["crates/tpm2-client/src/lib.rs","crates/tpm2-client/src/sessions"],
 [("session order","crates/tpm2-client/src/lib.rs write_command_sessions/read_response_sessions"),("password session","crates/tpm2-client/src/sessions/password.rs"),("authorization area shapes","crates/tpm2-client/src/sessions/authorization_area")],
 "bytes sent, the authorization each session was asked to validate, result of the command")

p("C13","A TCP transaction returns the exact response however the network behaves",
 "However the network splits reads and writes or fails, a transaction over TCP either returns exactly the response payload the server sent for that command, or an error; it never returns partial, stale or shifted data, never blocks waiting for bytes the protocol does not contain, and never panics. The command is framed with the simulator's send-command code, the current locality, the length and the command bytes, a non-zero terminator is an error, and a response too large for the caller's buffer is an error that leaves the connection usable for the next transaction.",
 ["schedules","fault_sequences","inputs"],"for every way the response stream is split across reads, every interruption, short write, error or disconnection point, and every payload and buffer size in the enumerated domain",
 "Segmentation and faults are chosen by the kernel and the peer, not by a test; the loopback tests always see whole messages.",
 ["crates/tpm2-client/src/connection/tcp.rs"],
 [("command transmission","crates/tpm2-client/src/connection/tcp.rs TcpConnection::transact"),("terminator check","crates/tpm2-client/src/connection/tcp.rs check_response_end")],
 "system calls on the socket (bytes written, bytes read, order) and the value returned by transact",
 "position in the byte stream, current locality")

p("C14","Simulator control operations keep both channels in protocol over any history",
 "Over any history of operations on a TCP connection, each operation sends exactly its protocol message on its own channel (commands, hash sequences, handshake and alternative results on the TPM channel; signals and platform queries on the platform channel), waits for exactly its reply, returns the reply's values, and reports a non-zero terminator or an unexpected reply length as an error. A locality change affects exactly the later commands, reinitialisation signals non-volatile storage off, power off, power on and storage on in that order stopping at the first failure, and ending or stopping a session notifies and shuts down both channels.",
 ["histories","fault_sequences","schedules"],"for every sequence of operations up to a bounded length, every reply value, and every point at which a channel fails",
 "Faults need a particular operation order (a leftover byte, a stale locality, a signal sent after a failure); the control operations need a simulator that is not part of the test suite.",
 ["crates/tpm2-client/src/connection/tcp.rs"],
 [("control operations","crates/tpm2-client/src/connection/tcp.rs TcpConnection::{hcrtm_sequence,remote_handshake,set_alternative_result,platform_signal,reinit,get_command_response_sizes,act_get_signaled,set_firmware_hash,set_firmware_svn,session_end,stop_simulator}")],
 "bytes and shutdowns on both sockets, returned values",
 "locality, stream positions of both channels")

p("C15","The TPM answers every request with one well-formed response",
 "For every request byte string and every response buffer size, processing never panics and, unless the random generator itself failed, never writes outside the reported response: if the response fits, it is a header with the no-sessions tag, a size equal to the returned length, and a response code, followed by the command's output; if not even an error response fits, zero is returned and the buffer is unchanged. Requests shorter than their required fields or whose size field differs from the real length are refused with the command-size code, unknown commands with the command-code code, outputs that do not fit with the memory code, a failing random generator with the failure code, and a refused request leaves later requests unaffected.",
 ["inputs","fault_sequences"],"for every request content and length, every response buffer length, and every platform failure",
 "The request is attacker-controlled and the buffers are chosen by the platform; two well-formed requests into one roomy buffer are all that is tested.",
 ["crates/tpm2-impl/src/tpmctx.rs","crates/tpm2-impl/src/req_resp.rs","crates/tpm2-impl/src/handler"],
 [("dispatch and header","crates/tpm2-impl/src/tpmctx.rs execute_command"),("error responses","crates/tpm2-impl/src/tpmctx.rs fill_error"),("bounded cursors","crates/tpm2-impl/src/req_resp.rs")],
 "return value and whole response buffer of execute_command_separate/execute_command_in_place")

p("C16","Processing in place is equivalent to using separate buffers",
 "For every request, request length and buffer size, and after every history, processing a request in place returns the same length and the same response bytes, and leaves the same random generator state, as processing it with a separate response buffer of the same size. A claimed request length beyond the buffer is treated as the buffer's length, bytes of the shared buffer beyond the request are never interpreted as part of the request, and a successful response leaves every byte after it unchanged.",
 ["inputs","histories"],"for every request, claimed request length, buffer size, buffer content beyond the request, and history of previous commands",
 "In-place operation overwrites the request while it is answered; whether a stale or trailing byte is ever read depends on lengths and contents tests do not vary.",
 ["crates/tpm2-impl/src/buffers","crates/tpm2-impl/src/req_resp.rs","crates/tpm2-impl/src/tpmctx.rs"],
 [("shared buffer view","crates/tpm2-impl/src/buffers/inout.rs InOutBuffer"),("separate view","crates/tpm2-impl/src/buffers/separate.rs")],
 "return value, buffer contents and generator calls of both entry points run side by side")

p("C17","Random output is fresh generator output under the reseeding rules",
 "At start-up the generator is instantiated once with entropy and then a nonce drawn from the entropy source in full, and an instantiation failure is reported instead of yielding a TPM. Over any history of commands, each successful random command returns exactly the next requested number of bytes of the generator's stream, the generator is reseeded with fresh full-length entropy before output whenever it demands it and never otherwise, and commands that are refused or that fail never return generator output and never consume it, except for what a failing generator itself consumed.",
 ["histories","fault_sequences"],"for every sequence of commands and sizes, every pattern of reseed demands, and every point at which instantiate, reseed or generate fails",
 "Reuse, skipping or missed reseeding shows only across several commands with a particular demand and failure pattern; the test generator never demands a reseed and never fails.",
 ["crates/tpm2-impl/src/handler/random.rs","crates/tpm2-impl/src/crypto.rs","crates/tpm2-impl/src/tpmctx.rs"],
 [("random handler","crates/tpm2-impl/src/handler/random.rs"),("instantiation","crates/tpm2-impl/src/crypto.rs Crypto::new")],
 "calls received by the platform's generator and entropy source, response bytes",
 "generator and entropy source state")

p("C18","Generator helper conversions preserve the generator's stream and errors",
 "For every destination length and additional input, filling bytes from integer outputs writes each generated integer in little-endian order, uses 64-bit outputs for every full or more-than-half block and one 32-bit output for a remainder of at most four bytes, fills every byte, and passes the additional input to the first call only. Integers derived from bytes or from smaller integers are little-endian with the first generated part least significant, and an error of the generator at any call stops the conversion and is returned.",
 ["inputs","fault_sequences"],"for every destination length, additional input and failing call position in the enumerated domain",
 "The remainder handling differs for each length modulo eight and the error path for each call index; no test covers the helpers beyond one fill.",
 ["crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs"],
 [("helpers","crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs")],
 "calls made to the generator and the bytes or integers returned")

p("C19","Random-access buffers confine every read and write to their bounds",
 "For plain byte buffers used as request or response, a read or write of any length at any offset succeeds exactly when it lies completely inside the buffer, and then transfers exactly those bytes and changes no others; otherwise it reports out of bounds, changes nothing and calls no callback. Integers read at an offset are big-endian, and no offset or length, however large, causes a panic or wraps around.",
 ["inputs"],"for every buffer length, offset and access length, including offsets and lengths near the largest representable value",
 "Out-of-range accesses differ at each boundary value and at arithmetic overflow; no test makes any out-of-range access.",
 ["crates/tpm2-impl/src/platform/buffer.rs"],
 [("byte slice buffers","crates/tpm2-impl/src/platform/buffer.rs impl TpmReadBuffer/TpmWriteBuffer for [u8]")],
 "read_into/read_be_u16/read_be_u32/write/write_callback/len/is_empty")

p("C20","Handle ranges and attribute fields are decided exactly",
 "For every 32-bit value, it is accepted as a non-volatile index, HMAC session, policy session or authorization session handle exactly when it lies in the range the specification (and the supported number of sessions) defines, the password handle being the only permanent handle accepted for authorization; refused values give the value error and accepted ones keep their number. Reading or setting the index type inside non-volatile attributes touches exactly its four bits for every attribute word and type, and every attribute flag has the bit position of the specification and can be tested, set and cleared without touching any other bit.",
 ["inputs"],"for every 32-bit handle value, every attribute word in the enumerated domain and every index type",
 "Range edges and bit fields are decided over a 32-bit space of which tests sample a few points.",
 ["base/src/lib.rs","base/src/constants.rs"],
 [("handle interface types","base/src/lib.rs TpmiRhNvIndex/TpmiShAuthSession TryFrom"),("handle ranges","base/src/constants.rs TpmHc"),("attribute fields","base/src/lib.rs TpmaNv get_index_type/set_type")],
 "TryFrom<u32>, range predicates, attribute accessors and flag constants")

p("C21","Hash algorithm identifiers convert consistently with their digest sizes",
 "Every 16-bit algorithm identifier converts to a hash algorithm exactly when it is one of the eight specified hash identifiers, converting back gives the same number, and encoding and decoding agree with that; every other identifier is refused. Each hash algorithm reports its specified digest size, a digest value reports the algorithm and bytes it was made from, and for every set of supported algorithms the maximum digest size is that of the largest supported one, or zero if none is.",
 ["inputs","configurations"],"for every 16-bit identifier and every one of the 256 sets of supported hash algorithms",
 "A mapping slip affects one identifier out of 65536 or one subset of algorithms; no test converts identifiers.",
 ["crates/tpm2/src/tpmi.rs","crates/tpm2/src/tpmt.rs","crates/tpm2/src/marshal.rs","crates/tpm2/src/constants.rs"],
 [("conversions","crates/tpm2/src/tpmi.rs"),("digest type","crates/tpm2/src/tpmt.rs TpmtHa"),("maximum","crates/tpm2/src/marshal.rs Limits::max_digest_size")],
 "From/TryFrom, digest_size, hash_alg, digest, max_digest_size")

p("C22","A managed simulator is connected, retried, stopped and never leaked",
 "Connecting uses the requested ports (or 2321 and 2322 by default), the TPM channel first, and the retrying form succeeds if any of four attempts made a second apart succeeds and otherwise returns the last error. Starting a managed simulator runs the given program with the given arguments in the given directory, waits for both published ports (an empty port file is not published yet) with up to four tries each, and connects to exactly those; if anything fails after the process was started, the error is returned and the process is no longer running, and dropping a started simulator tells it to stop on both channels or, if that cannot be delivered, kills it.",
 ["fault_sequences","histories","schedules"],"for every attempt at which the port files appear and each connection succeeds or fails, every port file content in the enumerated domain, and every failure point during start and stop",
 "Start-up races and failures depend on timing of another process; the simulator test needs an external binary and is not run.",
 ["crates/tpm2-client/src/connection/tcp.rs"],
 [("retrying connect","crates/tpm2-client/src/connection/tcp.rs connect_with_retries"),("process management","crates/tpm2-client/src/connection/tcp.rs TcpSimulator::{new,stop,stop_nicely,drop}")],
 "connect/sleep/write/shutdown calls, child processes alive after each history")

p("C23","Named identifiers carry the specification's numbers",
 "Every named command code, algorithm, curve, structure tag, capability, property, response code, handle, startup type and simulator-visible signal has exactly the numeric value the TPM 2.0 specification (or simulator protocol) assigns to it, and no two names of one space denote the same number. Values without a name are carried through encoding and decoding unchanged.",
 ["inputs"],"for every number in each identifier space (all 16-bit values, and every 32-bit value in the assigned ranges)",
 "One wrong constant out of several hundred breaks interoperability with real TPMs only for the command or property concerned; tests use fewer than ten of them.",
 ["base/src/constants.rs","base/src/lib.rs","crates/tpm2/src/constants.rs"],
 [("constants","base/src/constants.rs"),("core algorithm ids","crates/tpm2/src/constants.rs Alg")],
 "numeric value of each public constant; encode/decode of every value of each space")

p("C24","The client and the TPM implementation agree end to end",
 "For every command sent by the client to the TPM implementation over any transport that carries messages faithfully, the client's result is the decoded output the TPM produced or the error code the TPM answered with, and never a transport-level or format error; this holds for every history of commands on the same TPM.",
 ["histories","inputs"],"for every sequence of commands up to a bounded length, every requested size and both buffer modes of the TPM",
 "Each side is tested only against a fake of the other side written with the same assumptions.",
 ["crates/tpm2-client/src/lib.rs","crates/tpm2-impl/src/tpmctx.rs","crates/tpm2-impl/src/handler/random.rs","base/src/commands"],
 [("client","crates/tpm2-client/src/lib.rs run_command"),("server","crates/tpm2-impl/src/tpmctx.rs execute_command")],
 "result of run_command over a Connection backed by TpmContext")

p("C25","The decoding cursor hands out each byte once, in order, or nothing",
 "For every byte string and every history of taking a number of bytes and of decoding integers (of every width, signed or not), byte arrays and empty values from one cursor, an operation succeeds exactly when enough bytes remain; it then gives exactly the next bytes (an integer is those bytes read as a big-endian number) and leaves exactly the rest. An operation for which too few bytes remain is refused (a decode with the end-of-buffer error) and takes nothing, whatever length is asked for, and the reported number of remaining bytes is always exact. Values of these kinds encoded one after another occupy exactly consecutive bytes, touch no byte after them, are refused exactly when they do not fit, and are read back equal by the same sequence of decodes.",
 ["inputs","histories"],"for every sequence of operations up to a bounded length over every buffer length in the enumerated domain and every requested length including the largest representable ones",
 "Every structure of every crate is decoded through this cursor; off-by-one and overflow mistakes show only at particular remaining lengths after particular earlier operations.",
 ["marshalable/src/lib.rs"],
 [("cursor","marshalable/src/lib.rs UnmarshalBuf"),("primitive codecs","marshalable/src/lib.rs impl_be_prim_marshalable, Marshalable for [u8; M], Marshalable for ()")],
 "UnmarshalBuf::{new,get,len,is_empty}, Marshalable of integers, byte arrays and ()")

p("C26","Values are equal exactly when their encodings are",
 "For any two values of a TPM type that were decoded or made through the type's constructors (structures, unions, lists, sized buffers, identifiers, attribute words, commands and responses), the values compare equal if and only if their encodings are the same bytes, in both directions of the comparison; equal values have equal hashes. In particular buffers or lists that differ only in their length, or union members that hold the same bytes under different selectors, are different, and values that came to the same contents in different ways (built at once, appended, decoded with other bytes following, copied) are equal.",
 ["inputs","histories"],"for every pair of values in the enumerated domain of each type: every value within the deviation bounds against a set of reference values, its neighbours in the enumeration and itself obtained in another way",
 "Names, digests, policies and templates are compared to make security decisions; an equality that ignores a length, a selector or a field is right for almost every pair of values that a test would try.",
 ["base/src/lib.rs","base/src/constants.rs","base/src/commands","marshalable-derive/src/lib.rs"],
 [("type definitions","base/src/lib.rs derive(PartialEq, Hash)"),("identifiers","base/src/constants.rs"),("sized buffers and lists","base/src/lib.rs impl_tpml, marshalable-derive/src/lib.rs tpm2b_simple")],
 "PartialEq, Hash and Clone of every type with a codec")

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['statement'].count('. ')+1)
