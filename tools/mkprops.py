import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=hook
    P.append(d)
MSG="src/common/core/msg/mod.rs"; FMT="src/common/core/msg/format.rs"; DEC="src/common/core/decode_argument.rs"; ENC="src/common/core/encode_argument.rs"; IDS="src/common/core/identifiers.rs"
CON="src/server/connection.rs"; SMSG="src/server/core/msg.rs"; HS="src/server/core/handshake.rs"; AUTH="src/server/auth.rs"
TD="src/server/tokio/dispatch.rs"; TR="src/server/tokio/receiver.rs"; TT="src/server/tokio/transmitter.rs"
p("C01","A rendered message parses back to exactly what was rendered",
 "Whatever valid message type and list of argument byte strings is rendered into a message, parsing the rendered bytes, alone or followed by arbitrary further bytes, succeeds. It yields exactly that message type, exactly that many arguments, exactly those argument bytes in the same order, and a consumed length equal to the rendered length.",
 ["inputs"],"every valid message type, every argument list (any count, any lengths including 0, any bytes including delimiters and non-UTF-8) whose rendering fits in 1024 bytes, and every trailing byte string",
 "The tests render one fixed message plus two bulk ones and never parse what they rendered; delimiters inside arguments, length-prefix digit boundaries and trailing data are unsampled.",
 [FMT,MSG],[("length-prefixed rendering of every argument","MessageFormatter::add_argument in "+FMT),("length-driven tokenising that never scans argument contents","Cursor/MessageIterator in "+MSG)],
 ["MessageFormatter::new/add_argument/finalize","Message::parse, parsed_type(), arguments()"])
p("C02","Rendering reports sizes exactly and never exceeds the buffer or 1024 bytes",
 "Rendering a message into a buffer succeeds exactly when the complete message fits both into that buffer and into 1024 bytes, and then reports the exact number of bytes written. Otherwise it reports exactly how many bytes did not fit. Bytes of the buffer beyond the rendered message, and beyond the first 1024 bytes, are never modified.",
 ["inputs"],"every buffer length and every message shape (argument count and argument lengths, rendered sizes below, at and above the buffer length and the 1024-byte limit)",
 "The existing test walks one 19-byte message through small buffers and checks two large sizes; the digit-count boundaries of length prefixes and the exact 1024-byte edge are not covered.",
 [FMT],[("cropping the target to 1024 bytes","crop_buffer_to_max_msglen in "+FMT),("a cursor that keeps counting past the end of the buffer","MessageFormatter::encode/add_char/finalize in "+FMT)],
 ["MessageFormatter::finalize return value","contents of the caller's buffer"])
p("C03","Parsing any bytes is safe and accepts only the canonical encoding",
 "For every byte string, message parsing terminates without panicking or reading outside the input. If it succeeds, the consumed prefix is byte for byte the canonical rendering (minimal decimal counts, exact delimiters) of the returned message type and arguments; every well-formed message is accepted. If it fails, the reported error refers to the caller's input and its offset lies within it.",
 ["inputs"],"every byte string (valid, truncated, corrupted or hostile, including numbers that overflow the machine word)",
 "Tests parse about 30 hand-written inputs; the parser faces untrusted bytes from any client, so the guarantee is about all of them.",
 [MSG],[("cursor that checks every read against the buffer length and every addition for overflow","Cursor in "+MSG),("validation pass over all arguments before a message is returned","MessageIterator::consume_and_validate in "+MSG)],
 ["Message::parse result","MessageIterator items"])
p("C04","Parse verdicts are stable when more bytes arrive",
 "Every proper prefix of a well-formed message is reported as incomplete and never as invalid. Once a byte string has been judged a complete message or definitely invalid, appending further bytes never changes that: a complete message keeps its type, arguments and length, and invalid input stays invalid.",
 ["inputs","histories"],"every byte string and every extension of it",
 "Tests check a dozen truncations of one message; a receiver that reads from a socket can see any truncation of any message.",
 [MSG],[("UnexpectedEOF only when the buffer ends","Cursor::current / consume_string_contents in "+MSG)],
 ["Message::parse on growing prefixes","ParseError::is_incomplete"])
p("C05","Integer and boolean arguments have one canonical encoding, decoded exactly",
 "Every value of every supported integer type encodes to its minimal decimal representation in exactly the announced number of bytes, and decodes back to the same value. Decoding accepts nothing but such minimal decimal representations of values in range (no plus sign, leading zeroes, negative zero, whitespace or other characters). Booleans are exactly `t` and `f`.",
 ["inputs"],"every value of the twelve integer types and every byte string offered for decoding",
 "Tests sample a few values per type (0, 1, 42, extremes) and six invalid strings.",
 [ENC,DEC],[("digit loop on the absolute value widened to a common unsigned type","impl_EncodeArgument_for_integer in "+ENC),("leading-zero check before the standard parser","impl_DecodeArgument_for_integer in "+DEC)],
 ["EncodeArgument::get_size/encode","DecodeArgument::decode_argument"])
p("C06","Text, path, byte and optional arguments are carried unchanged",
 "Strings, byte strings, filesystem paths, identifiers and present optional values encode to exactly their own bytes in exactly the announced size and decode back to an equal value. An absent optional value is the empty argument and vice versa. Decoding a string accepts exactly valid UTF-8; decoding bytes or paths accepts everything.",
 ["inputs"],"every string, byte string, path, optional value",
 "Tests encode three strings and never decode them; optional values and paths are not tested at all.",
 [ENC,DEC],[("copying encoders and UTF-8 validated decoders",ENC+", "+DEC)],["EncodeArgument/DecodeArgument implementations for str, [u8], Path, Option and identifier types"])
p("C07","Identifiers, versions and message types follow their grammar exactly",
 "A string is accepted as identifier, module identifier, module version, scoped identifier or message type exactly when it belongs to the documented grammar (letters, digits, dashes, underscores; major version 1 to 65535 and minor version 0 to 65535 in minimal decimal form). Accepted values reproduce the original string, and the name, versions, module and member they report are exactly the corresponding parts of it.",
 ["inputs"],"every string, and every 16-bit major and minor version",
 "Tests check about 70 fixed spellings; numeric overflow, non-ASCII characters, characters in unusual positions and component accessors are sampled once or not at all.",
 [IDS],[("parse_ident_or_module_ident and the parse() constructors",IDS)],["Identifier/ModuleIdentifier/ModuleVersion/ScopedIdentifier/MessageType parse() and accessors"])
p("C08","Client IDs are nonempty alphanumerics; client selectors are prefix relations",
 "A string is accepted as a client ID exactly when it is nonempty and consists only of ASCII letters and digits. An at-or-below selector contains exactly the client IDs that start with its base ID; a strictly-below selector contains exactly those other than the base itself. Every ID contained in a selector for an ID that is itself at or below a base is also at or below that base.",
 ["inputs"],"every string offered as client ID, every pair and triple of client IDs",
 "Selectors have no tests at all and client ID parsing has one doc example.",
 [IDS,AUTH],[("ClientID::parse",IDS),("ClientSelector::contains",AUTH)],["ClientID::parse","ClientSelector::contains"])
p("C09","Derived client IDs are valid, unambiguous and mirror the process tree",
 "Every derived client ID (own, local lifetime, job, child of a job; for every index) is a valid client ID that starts with its base ID and occupies exactly the announced number of bytes. Different derivations from the same base never yield the same ID. One derived ID is at or below another only when the process tree says so: everything is below the own ID, children are below their own job, and nothing else is related.",
 ["inputs"],"every suffix kind, every 32-bit index (pairs of derivations), every base client ID",
 "One table test with indexes up to 122; uniqueness and prefix-freedom are statements about pairs of indexes over the full 32-bit range.",
 ["src/client/core/client_id.rs"],[("prefix-free number code with reserved 0 digit","get_size_for_number/encode_number in src/client/core/client_id.rs")],["ClientIDSuffix::below(..).encode/get_size"])
p("C10","Typed messages survive encode and decode, and decoding is strict",
 "Every typed message of the library (want, have, nope, client-make, client-new, client-end and the five hello messages) that is encoded and parsed decodes to a message with equal fields. Decoding as a given typed message succeeds only for a message of exactly that type with exactly the right number of arguments, each of which is valid for its field, and never mixes fields up.",
 ["inputs"],"every typed message with arbitrary field values, and every parsed message offered to every decoder",
 "No test encodes or decodes any typed message.",
 ["src/msg/mod.rs","src/msg/core.rs","src/msg/posix.rs",MSG],[("type-name check plus fixed-arity argument extraction","decode_message implementations; exactly1/2/4 in "+MSG)],["EncodeMessage::encode, Message::parse, DecodeMessage::decode_message"])
p("C11","Nothing but an authorized hello gets past the handshake",
 "On a fresh connection only a well-formed hello message whose secret the application authorizes moves the connection into message, stdin or stdout mode, and into the mode belonging to that hello; the application is asked about exactly the secret that was sent, once. Any other complete message or invalid input closes the connection, and nothing that follows on that connection is handled or answered. Until then no message reaches the application's message handling and nothing is sent.",
 ["inputs","histories"],"every byte stream on a fresh connection, every authorization decision of the application",
 "The server part has no behavioural tests.",
 [CON,HS],[("state machine in Connection::handle_incoming",CON),("HandshakeHandler::handle",HS)],["Connection::state()","authorize_* calls, notify, enqueue_message as seen by Application and Dispatch"],
 [("connection state","Handshake, Msgio, Stdin, Stdout or Teardown","Connection.state in "+CON)])
p("C12","The handshake reply states exactly the authorized identity",
 "After an authorized client hello the server sends exactly one message, a server hello that carries exactly the client ID and the stdin, stdout and stderr screen IDs of the identity the application returned (absent ones as absent), and the connection is bound to that identity. Authorized stdin and stdout hellos bind the connection to the returned screen and send nothing.",
 ["inputs"],"every identity (any client ID, any combination of screen IDs) and every secret",
 "The server part has no behavioural tests.",
 [HS,AUTH,"src/msg/posix.rs"],[("HandshakeHandler::handle",HS),("ClientIdentity accessors",AUTH)],["messages passed to the dispatch","connector identity in Connection::state()"])
p("C13","How a client's bytes are split into reads makes no difference",
 "However the byte stream of a client is cut into reads, the server handles the same messages in the same order, sends the same replies in the same order, delivers the same stdout bytes and ends in the same connection state. As long as the connection stays open, it discards the same bytes.",
 ["inputs","schedules"],"every byte stream and every way of cutting it into reads",
 "The server part has no behavioural tests; a socket may fragment anywhere.",
 [CON,MSG],[("incomplete messages stay in the receive buffer; handling repeats until no complete message is left","Connection::handle_incoming_msgio in "+CON)],["handler calls, replies, StdoutConnector::receive, notifications, state"])
p("C14","Malformed input is skipped to the next message opener, nothing more",
 "When input on a message connection is not a valid message, the server discards at least one byte and exactly the bytes before the next `{` (everything, if there is none), reports precisely the discarded bytes, and continues there. Well-formed messages before and after malformed input are all handled, each exactly once, and bytes of an incomplete message are kept until the rest arrives.",
 ["inputs","histories"],"every byte stream on an established message connection",
 "The server part has no behavioural tests.",
 [CON],[("skip-ahead recovery","error branch of Connection::handle_incoming_msgio in "+CON)],["IncomingBytesDiscarded notifications, handler calls, remaining buffer contents"])
p("C15","Every message on a message connection gets exactly the right reply",
 "A want message is answered with have, naming the supported version or just the module if unsupported. A scoped message nobody handles is answered with have for its module; a message that is invalid, an unexpected eternal message, or a hello after the handshake is answered with nope naming its exact type; a message handled by the application's own handler gets no automatic reply. Each message gets at most one automatic reply, in order, and none of this changes the connection state.",
 ["inputs"],"every well-formed message, every answer of the application's handlers about supported modules",
 "The server part has no behavioural tests.",
 [CON,SMSG,"src/server/reject.rs"],[("reply selection on handler result","Connection::handle_incoming_msgio in "+CON),("MessageHandler::handle",SMSG)],["messages passed to the dispatch, connection state"])
p("C16","Clients can only be created strictly below the requester and only if unused",
 "A client-make request registers a client exactly when its ID is strictly below the requester's own ID and no client at or below that ID is registered; otherwise nothing is registered and the request is answered with nope. The registered identity has exactly the requested ID and screen IDs, and the reply carries exactly the secret issued for it.",
 ["inputs","histories"],"every requester ID, requested ID, screen ID combination and registry content",
 "The server part has no behavioural tests.",
 [SMSG,AUTH],[("client-make branch of MessageHandler::handle",SMSG)],["register_client/has_clients calls on the Application, replies"])
p("C17","Ending a client ends everything at or below it and nothing else",
 "A client-end request is honoured exactly when the ended ID is strictly below the requester's own ID, and is otherwise answered with nope and has no effect. When honoured, every message connection whose client is at or below the ended ID is closed, the registrations and unredeemed credentials at or below it are released so that the ID can be used again, and all other connections and registrations are untouched.",
 ["inputs","histories"],"every requester ID, ended ID, set of live connections and registrations",
 "The server part has no behavioural tests.",
 [SMSG,AUTH,"src/server/application.rs"],[("client-end branch of MessageHandler::handle",SMSG)],["connection states, unregister_clients calls, replies"])
p("C18","Stdout bytes are delivered verbatim; bytes on a stdin socket close it",
 "Every byte a client sends after an authorized stdout hello is delivered to that screen's stdout, once, in order and unmodified, including bytes sent together with the hello. Any byte a client sends on a stdin connection closes the connection, is reported as discarded and is not interpreted. A closed connection interprets nothing.",
 ["inputs","schedules"],"every byte stream following a hello and every way of cutting it into reads",
 "The server part has no behavioural tests.",
 [CON],[("Stdin/Stdout/Teardown branches of Connection::handle_incoming",CON)],["StdoutConnector::receive, notifications, state"])
p("C19","Queued output reaches the client complete, once and in order",
 "Whatever sequence of messages and stdin data is queued for a connection, and however queueing interleaves with transmission and buffer reuse, the bytes transmitted to the client are the concatenation of what was queued, in order, with nothing lost, duplicated or altered; a message is never split across separate transmissions. Whatever has been queued is eventually offered for transmission without further stimulus.",
 ["inputs","schedules","histories"],"every sequence of queued items (any sizes, including larger than one send buffer) and every interleaving with the transmitter",
 "The Tokio dispatch has no tests; buffer boundaries (4072 bytes) and recycling need long histories.",
 [TD,TT],[("ordered list of send buffers with recycling","enqueue_message, enqueue_stdin, swap_send_buffer in "+TD),("SendBuffer and the transmitter job",TT)],["bytes written to the client socket"])
p("C20","Connections are isolated, broadcasts reach all of them, teardown is clean",
 "Connections get distinct IDs. A broadcast action runs exactly once on every connection that is alive when it runs, in the order broadcasts were queued, including broadcasts queued while a message is being handled and broadcasts queued by broadcasts. A connection that enters teardown is removed, reported closed exactly once, and afterwards handles no input and transmits nothing, while other connections continue undisturbed.",
 ["schedules","histories"],"every order of accepts, reads, writes, broadcasts and teardowns",
 "The Tokio dispatch has no tests, and its guarantees are about interleavings.",
 [TD,TR,TT],[("maintenance when a connection reference is released","do_maintenance, do_maintenance_on_conn in "+TD)],["notifications, broadcast calls, socket activity"])
p("C21","The Tokio receiver feeds every byte read, in order, and ends with the stream",
 "Every byte read from a client socket is offered to the connection in order and kept until the connection discards it, and discarding n bytes removes exactly the first n. At end of stream all data received so far is processed before the connection is closed; a read or write error is reported and closes the connection.",
 ["inputs","schedules","fault_sequences"],"every byte stream, every fragmentation, end of stream or error at any point",
 "The Tokio dispatch has no tests.",
 [TR,TT],[("receive buffer on a growable byte buffer","ReceiveBuffer for BytesMut in "+TR),("receiver job","spawn_receiver in "+TR)],["handler calls, notifications, connection state"])
p("C22","Issued secrets carry all their randomness and are safe to send",
 "Every issued client or screen secret is derived from freshly drawn random bytes, at least 192 bits, such that different random draws always give different secrets. Secrets are nonempty, consist only of URL-safe characters, are returned unchanged on every access, and a screen's stdin and stdout secrets are drawn independently.",
 ["inputs"],"every outcome of the random source",
 "No test exercises secret generation; one sample could not show that no entropy is lost.",
 [AUTH],[("generate_secret",AUTH)],["ClientCredentials::secret, ScreenCredentials::stdin_secret/stdout_secret"])
p("C23","The printed form of a message is faithful and unambiguous",
 "Printing a message yields only printable ASCII, shows the message type and every argument in order, leaves arguments made only of letters, digits, dots, underscores and dashes bare, and quotes and escapes every other argument (including empty ones). Two messages with different types or arguments never print the same.",
 ["inputs"],"every parsed message",
 "Tests print three fixed messages.",
 [MSG],[("Display for Message","fmt and char_needs_escaping in "+MSG)],["format!(\"{}\", message)"])
p("C24","Clients discover their terminal the same way however the hello arrives",
 "However the parent hello on the inherited descriptor is cut into reads, and whatever follows it, discovery yields the same server socket path as parsing the whole hello, and waits for a complete hello unless the stream ends, the data is invalid or the 1024-byte limit is reached. A missing descriptor is reported as no terminal, truncated or malformed data as a corrupt hello, and other well-formed messages as an invalid hello; nothing is ever reported as success in those cases.",
 ["inputs","schedules","fault_sequences"],"every byte stream on the descriptor, every fragmentation, read errors at any point",
 "Discovery has no tests.",
 ["src/client/env.rs"],[("Environment::discover read loop and Environment::parse","src/client/env.rs")],["Environment::discover, Environment::parse, EnvironmentRef::server_socket_path"])
p("C25","No client input can crash the server",
 "Whatever bytes a client sends, before or after its handshake and in however many pieces, the server's processing of them terminates without a panic, and its replies always respect the 1024-byte message limit (a reply that cannot be rendered within it is not sent in mangled form). Other clients' connections keep working.",
 ["inputs","schedules"],"every client byte stream, including messages far longer than 1024 bytes and long runs of garbage",
 "The server part has no behavioural tests.",
 [CON,TD,FMT],[("reply rendering in enqueue_message",TD),("Connection::handle_incoming",CON)],["absence of panics, transmitted bytes, other connections"])
p("C26","Shutdown and listener failure end the whole server cleanly",
 "After a shutdown request the event loop ends successfully, whatever reads, writes, accepts and messages are under way: no new connection is accepted, every client connection is closed, nothing more is handled or transmitted, and the socket file is removed. If accepting connections fails, the event loop ends and reports the error instead of hanging or claiming success.",
 ["schedules","fault_sequences"],"every point of time at which shutdown is requested or accepting fails, every set of connections and their activity",
 "The Tokio dispatch has no tests, and shutdown races with all other activity.",
 [TD,TR,TT],[("shutdown notification shared by the listener and all jobs","shutdown, run_listener in "+TD),("jobs that end with their connection",TR+", "+TT)],["result of run_listener, socket activity, handler calls, the socket file"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,s); assert len(d["title"])<=80,d["id"]
print(len(P))
