#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
L = 'libiqxmlrpc/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {'files': [L + f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Binary values: base64 encoding is exact and decoding is its strict inverse',
  "Encoding any byte string gives exactly its padded RFC 4648 base64 text, and decoding that text, with white space inserted anywhere, gives the same bytes back. "
  "A text is accepted exactly when its non-space characters form whole groups of four whose first two characters are in the base64 alphabet, whose third is in the alphabet or '=', and whose fourth is in the alphabet or '=' (anything if the third is '='); the decoded bytes are then the concatenation of the groups' bytes. "
  "Every other text is rejected with the malformed-base64 error.",
  ['inputs'], 'all byte strings and all texts of any length',
  'The tests decode one or two literals; they never vary length modulo 3, byte values above 0x7f, padding position or junk characters.',
  ['value_type.cc', 'value_type.h'],
  [('encode', L + 'value_type.cc: Binary_data::encode'), ('decode', L + 'value_type.cc: Binary_data::decode, decode_four, get_idx')],
  observe=['Binary_data::from_data/from_base64/get_data/get_base64'], hook=None)

p('C02', 'Date-time values: strict ISO 8601 parsing and exact formatting',
  "A text is accepted as a date-time exactly when it has the form YYYYMMDDThh:mm:ss in decimal digits with year at least 1900, month 1-12, day 1-31, hour at most 23, minute at most 59 and second at most 61; any other text is rejected with the malformed-date error. "
  "The broken-down time of an accepted text has exactly the written fields, and formatting it gives the same text again. "
  "Formatting a value made from a broken-down time with fields in those ranges gives the fields zero-padded in that form, and copies format equally.",
  ['inputs'], 'all texts of any length and content; all broken-down times in range (years 1900-9999)',
  'The tests parse one valid date and no invalid one.',
  ['value_type.cc', 'value_type.h'],
  [('parse', L + 'value_type.cc: Date_time::Date_time(const std::string&)'), ('format', L + 'value_type.cc: Date_time::to_string')],
  observe=['Date_time', 'Value::get_datetime'], hook=None)

p('C03', 'Values are type safe: one kind each, wrong-kind access always raises',
  "Every value has exactly one of the ten XML-RPC kinds: exactly one kind predicate is true and the reported type name is that kind's name. "
  "Reading a value as its own kind returns exactly what was stored; reading, indexing, appending or inserting as any other kind raises the bad-cast error and changes nothing.",
  ['inputs', 'programs'], 'all pairs of stored kind and requested access, all stored contents',
  'The tests try a handful of the kind/access pairs, and only right-kind accesses for most.',
  ['value.cc', 'value.h', 'value_type.cc', 'value_type.h'],
  [('checked cast', L + 'value.cc: Value::cast, Value::can_cast'), ('type names', L + 'value_type.cc: type_name')],
  observe=['Value::is_*, get_*, operator[], the_array, the_struct, size, has_field, push_back, insert, type_name'], hook=None)

p('C04', 'Arrays and structs behave as a list and a map of deeply copied values',
  "An array is the sequence of values appended to it: its size, iteration order and indexing agree, and an index outside it raises the out-of-range error. "
  "A struct is a map from names to values: inserting an existing name replaces its value, a missing name raises the no-field error, and removal and clearing remove exactly those members. "
  "Copying, assigning or appending a value makes a deep copy, so later changes to one never show in the other, and no stored value is freed twice or used after it was freed.",
  ['histories', 'inputs'], 'all sequences of container operations on all element values',
  'The tests build two small containers and read them back; they never assign over, erase, copy then mutate, or nest deeply.',
  ['value_type.cc', 'value_type.h', 'value_type.inl', 'value.cc', 'util.h'],
  [('deep copy', L + 'value_type.cc: Array/Struct copy constructors, clone; value.cc: Value(const Value&), operator='),
   ('replace on insert', L + 'value_type.cc: Struct::insert'), ('bulk delete', L + 'util.h: delete_ptrs')],
  observe=['Array, Struct, Value'], hook=None)

p('C05', 'Values survive serialization to XML-RPC and back',
  "Writing any value whose strings are valid XML text and parsing the result gives a value equal to the original in kind, structure, member names and contents, at any nesting depth and in both requests and responses. "
  "Each kind is written under its own XML-RPC tag with its canonical text, and string content is escaped so that it cannot introduce markup. "
  "With the option to omit string tags, responses write strings as bare text inside the value and everything else is unchanged (such a string reads back as empty if it is white space only).",
  ['inputs', 'configurations'], 'all values of all kinds, any nesting; string-tag option on and off',
  'The tests round-trip a few scalars and one struct; markup characters, white space, empty containers and deep nesting are not covered.',
  ['value_type_xml.cc', 'xml_builder.cc', 'value_parser.cc', 'parser2.cc', 'request.cc', 'response.cc'],
  [('writer visitor', L + 'value_type_xml.cc'), ('reader state machine', L + 'value_parser.cc, parser2.cc')],
  observe=['dump_request/parse_request', 'dump_response/parse_response'], hook=None)

p('C06', 'Only well-formed XML-RPC documents are accepted, and errors carry the right code',
  "Up to the end of its outermost element, a document is accepted as a call only if it opens methodCall, then methodName, then at most one params whose parameters are each a value in a param, and as a response only if it opens methodResponse and then one value in a param in params, or one value in a fault that is a struct of exactly an integer faultCode and a string faultString. "
  "Text that is not well-formed XML raises the parse error (code -32700), and an element that may not come next, a missing method name, response or required text raises the XML-RPC violation error (code -32600), as does a fault that is no such struct; unreadable numbers or dates and fault members of other kinds raise an error too, so nothing is returned. "
  "An accepted call has the name and the parameter values of the document in order, and a fault written by the library parses back as a fault with the same code and string.",
  ['inputs'], 'all documents, any element order, nesting and repetition, any length',
  'The tests parse about a dozen fixed documents.',
  ['parser2.cc', 'request_parser.cc', 'response_parser.cc', 'value_parser.cc', 'request.cc', 'response.cc', 'except.h'],
  [('state machine', L + 'parser2.cc: StateMachine::change'), ('builders', L + 'request_parser.cc, response_parser.cc, value_parser.cc')],
  observe=['parse_request', 'parse_response', 'dump_response'], hook=None)

p('C07', 'HTTP message framing does not depend on how the bytes are fragmented',
  "However a byte stream is cut into non-empty chunks, the reader yields the same message: the header ends at the first blank line (CRLF CRLF or LF LF, whichever comes first) and the body is exactly the content-length bytes that follow it. "
  "No message is produced before its last byte has arrived, and the reader is then ready for the next message with nothing left over from the previous one. "
  "Bytes received beyond the declared length are dropped, and an empty read before the header is complete is rejected as malformed.",
  ['inputs', 'histories'], 'all byte streams and all ways of cutting them into chunks; any number of messages on one connection',
  'The tests talk over loopback where messages arrive in one or two chunks.',
  ['http.cc', 'http.h'],
  [('header detection', L + 'http.cc: Packet_reader::read_header'), ('packet assembly', L + 'http.cc: Packet_reader::read_packet, clear')],
  state=[('header_cache', 'bytes before the blank line', L + 'http.h: Packet_reader'), ('content_cache', 'body bytes so far', L + 'http.h: Packet_reader')],
  observe=['Packet_reader::read_request/read_response'], hook=None)

p('C08', 'HTTP header parsing and validation give the documented status for every header',
  "Header names are case-insensitive and trimmed, values are trimmed, the last occurrence of a name wins, and a header line without a colon is rejected as malformed. "
  "A request is refused with status 405 unless its method is POST, 411 when it has no content-length, 400 when content-length is not an unsigned decimal number, 417 when its expectation does not begin with 100-continue in any letter case, and 415 for a content type without text/xml, the last only when the server is set to strict checking. "
  "Every other header block with a POST line is accepted, and its URI, host, agent and length are those written in it; it asks for keep-alive exactly when its connection option is keep-alive.",
  ['inputs', 'configurations'], 'all header blocks; weak and strict verification levels',
  'The tests send only headers produced by this library and curl.',
  ['http.cc', 'http.h', 'http_errors.h', 'server_conn.cc'],
  [('parse', L + 'http.cc: Header::parse'), ('validators', L + 'http.cc: namespace validator, Header::set_option_checked'), ('request line', L + 'http.cc: Request_header::Request_header'),
   ('400 mapping', L + 'server_conn.cc: Server_connection::read_request')],
  observe=['Request_header', 'Response_header', 'HTTP status sent by the server'], hook=None)

p('C09', 'The request size limit is enforced for every fragmentation and every header',
  "With a maximum request size set, a request whose header or whose bytes received so far reach the limit, or whose declared length plus header length reaches it, is refused with status 413 and never executed. "
  "A request whose total and declared sizes stay below the limit is never refused for its size, the count starts afresh for each request of a connection, and without a limit no request is refused for its size. "
  "A limit set on a running server applies on every connection from its next request on.",
  ['inputs', 'histories', 'configurations'], 'all limits, all declared lengths and all fragmentations, consecutive requests on a connection',
  'No test sets a size limit.',
  ['http.cc', 'http.h', 'server_conn.cc', 'server.cc'],
  [('size check', L + 'http.cc: Packet_reader::check_sz')],
  state=[('total_sz', 'bytes received for the current message', L + 'http.h: Packet_reader')],
  observe=['Packet_reader::read_request', 'HTTP status'], hook=None)

p('C10', 'Emitted HTTP messages are well-formed and self-consistent',
  "Every message produced is a start line, one 'name: value' line per option, an empty line and then exactly the body, with content-length equal to the number of body bytes and content type text/xml whenever the body is not empty. "
  "Requests start with 'POST <uri> HTTP/1.0' and carry host 'vhost:port' and the agent; responses start with 'HTTP/1.1 <code> <phrase>' and carry the server and date; the connection option is keep-alive exactly when that was asked for and close otherwise.",
  ['inputs', 'configurations'], 'all bodies, URIs, hosts, ports, codes, phrases, option sets free of CR and LF',
  'The tests only check that their own client can read the server, not the bytes.',
  ['http.cc', 'http.h', 'http_errors.h'],
  [('dump', L + 'http.cc: Header::dump, dump_head'), ('packet', L + 'http.cc: Packet::Packet, set_keep_alive'), ('lengths', L + 'http.cc: Header::set_content_length')],
  observe=['Packet::dump', 'bytes on the wire'], hook=None)

p('C11', 'Authentication gate: nothing runs without the credentials being accepted',
  "With an authentication plugin set, a method runs only if the plugin accepted the user and password that the request carried, or accepted anonymous access for a request carrying none; otherwise nothing is parsed or executed, and the answer is status 401 when the plugin refused. "
  "The credentials a client sets reach the plugin byte for byte (user up to the first colon, everything after it as password), and the method sees the accepted user name and no name when anonymous. "
  "An authorization header that is not 'Basic' (in any letter case) and one token is refused with status 401, and one whose token is not base64 is answered with a fault.",
  ['inputs', 'configurations'], 'all authorization headers and credentials, plugin decisions, with and without plugin',
  'The tests use one user, one password and one refusal.',
  ['http.cc', 'server.cc', 'auth_plugin.cc', 'client_conn.cc'],
  [('gate', L + 'server.cc: authenticate'), ('credential codec', L + 'http.cc: Request_header::get_authinfo/set_authinfo')],
  observe=['Auth_Plugin_base', 'Method::authname', 'HTTP status'], hook=None)

p('C12', 'Every request gets exactly one response, with the right outcome and fault code',
  "Each complete request is answered exactly once: with the method's result when it returns, and with a fault carrying the code and message of the library error it ended in (fault thrown by the method or an interceptor, unknown method -32601, violation -32600, unparsable XML -32700) when it does not. "
  "Any other exception becomes a fault with code -32500 under the serial executor, which passes on codes of library errors and HTTP errors as that status, and with code -1 under the pool executor. "
  "The method object and executor of a request are destroyed exactly once, whatever happened.",
  ['inputs', 'fault_sequences'], 'all requests and all ways a method, interceptor or dispatcher can end; serial and pool executors',
  'The tests use well-behaved methods and one throwing method.',
  ['server.cc', 'executor.cc', 'response.cc', 'server_conn.cc'],
  [('outcome mapping', L + 'server.cc: Server::schedule_execute'), ('executors', L + 'executor.cc: Serial_executor::execute, Pool_executor::process_actual_execution'),
   ('response', L + 'server.cc: Server::schedule_response')],
  observe=['Server', 'responses on the wire'], hook=None)

p('C13', 'Method dispatch order, registration and interceptor nesting',
  "A call goes to the first dispatcher, in order of registration and starting with the built-in one, that knows the method name, and fails as unknown method exactly when none does; registering a name again replaces its handler. "
  "Interceptors run in last-in first-out order around the method, each exactly once per call and the method exactly once when all of them pass the call on. "
  "The built-in method list names exactly the methods of all dispatchers, in order, and exists only when introspection was enabled.",
  ['histories', 'configurations'], 'all registration histories, dispatcher sets, interceptor stacks and call names',
  'The tests register a fixed set with one interceptor and no extra dispatcher.',
  ['dispatcher_manager.cc', 'method.cc', 'method.h', 'builtins.cc', 'server.cc'],
  [('dispatch', L + 'dispatcher_manager.cc: Method_dispatcher_manager::create_method'), ('interceptors', L + 'method.cc: Method::process_execution; method.h: Interceptor::yield; server.cc: push_interceptor')],
  observe=['Server::register_method, push_dispatcher, push_interceptor, enable_introspection'], hook=None)

p('C14', 'Responses and requests are transmitted completely and in order under partial I/O',
  "However the socket splits transfers, the bytes (less than 2 GiB) sent by a connection for one message are exactly the bytes of that message in order, nothing is sent twice or skipped, and the connection moves on only after the last byte was accepted. "
  "Bytes received are handed to the message reader exactly as they arrived, once each. "
  "A socket error ends that connection and is never taken for a successful transfer.",
  ['inputs', 'schedules', 'fault_sequences'], 'all message contents and all sequences of partial transfer sizes and errors',
  'Over loopback nearly every transfer is complete in one call.',
  ['http_server.cc', 'http_client.cc', 'https_client.cc', 'socket.cc', 'connection.cc'],
  [('server output', L + 'http_server.cc: Http_server_connection::handle_output'), ('client output', L + 'http_client.cc: Http_client_connection::handle_output'), ('socket', L + 'socket.cc: Socket::send, Socket::recv')],
  observe=['bytes on the wire'], hook=None)

p('C15', 'Connection life cycle: keep-alive, close and 100-continue are honoured',
  "After a response the server keeps the connection open for another request exactly when that request asked for keep-alive, and otherwise closes it after the last response byte; an HTTP error found while reading a request always closes it. "
  "A request expecting 100-continue whose body has not arrived gets exactly one interim 100 response, on every request of the connection, unless its body arrives before the interim response could be sent. "
  "A closed or failed connection is freed exactly once, without affecting other connections.",
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of requests, errors and disconnects on a connection',
  'The tests run one request per connection, plus one keep-alive client.',
  ['server_conn.cc', 'http_server.cc', 'http.cc', 'reactor_impl.h'],
  [('keep-alive decision', L + 'server_conn.cc: Server_connection::read_request, schedule_response'), ('connection states', L + 'http_server.cc')],
  observe=['connection behaviour on the wire'], hook=None)

p('C16', 'Client calls return their own answer or raise, and never poison later calls',
  "A client call returns the value or fault that the server sent in answer to that very request, raises an HTTP error carrying the status and the first word of the phrase when the status is not 200, and raises when connecting fails or the peer closes, times out or answers garbage. "
  "After a failed call the next call uses a fresh connection, so it never receives a previous call's answer. "
  "Without keep-alive every call uses its own connection; with it consecutive successful calls share one.",
  ['inputs', 'histories', 'fault_sequences'], 'all server answers and failures, all sequences of calls',
  'The tests talk only to a correct server.',
  ['client.cc', 'client_conn.cc', 'http_client.cc', 'client_opts.h', 'connector.cc', 'socket.cc'],
  [('session', L + 'client_conn.cc: Client_connection::process_session'), ('connection cache', L + 'client.cc: Auto_conn, Client_base::execute'), ('receive', L + 'http_client.cc: handle_input')],
  observe=['Client_base::execute'], hook=None)

p('C17', 'Event loop: handlers are invoked for exactly the events they are registered for',
  "Each turn polls exactly the registered descriptors for exactly their registered events, and every report of the operating system or posted event leads to one call of the handler registered for that descriptor at that moment (input before output, error and hang-up as output); a handler withdrawn meanwhile, even by another handler in the same turn, is neither called nor polled any more. "
  "A handler that asks to terminate, or raises while its errors are to be caught, is withdrawn and then finished exactly once, and such an error is logged and never leaves the loop. "
  "A turn reports a timeout exactly when nothing became ready in time, and no lock is held while a handler runs or the loop waits.",
  ['histories', 'schedules'], 'all registration histories and all readiness patterns',
  'The tests drive the loop only through whole client/server runs.',
  ['reactor_impl.h', 'reactor_poll_impl.cc', 'reactor.h'],
  [('registration', L + 'reactor_impl.h: register_handler, unregister_handler'), ('dispatch', L + 'reactor_impl.h: invoke_event_handler'), ('poll mapping', L + 'reactor_poll_impl.cc')],
  observe=['Event_handler callbacks'], hook=None)

p('C18', 'Firewall: denied peers never reach the server and leave nothing behind',
  "A connection whose peer the firewall denies is never handed to the server: it gets exactly the firewall's message if that is not empty, is closed, and its descriptor is released, also when the peer has already gone, and the server keeps serving. "
  "A granted connection, and every connection when no firewall is set, is handed over exactly once with the peer's address, and the decision is asked exactly once per connection.",
  ['inputs', 'histories'], 'all accept sequences, peer addresses, firewall decisions and messages',
  'No test installs a firewall.',
  ['acceptor.cc', 'socket.cc', 'firewall.h', 'server.cc'],
  [('gate', L + 'acceptor.cc: Acceptor::accept')],
  observe=['Firewall_base::grant', 'bytes and close on the denied socket'], hook=None)

p('C19', 'TLS: peer verification is installed as configured and I/O results are classified',
  "Before any handshake the connection gets the configured peer verification: none without a verifier, the verifier's verdict (an exception counting as refusal) with one, and for servers that require a client certificate a handshake without one fails. "
  "A would-block result of any TLS operation waits for exactly the direction TLS asked for and retries the same operation; an orderly close, a broken connection and a protocol error are each reported as such and never as data. "
  "Protocol versions SSLv2 and SSLv3 are disabled in every context, and fingerprints are the full 64-digit lower-case hex SHA-256.",
  ['configurations', 'fault_sequences'], 'all verifier configurations and verdicts, all result codes of TLS operations',
  'The tests run one handshake without verification.',
  ['ssl_lib.cc', 'ssl_connection.cc', 'https_server.cc', 'https_client.cc'],
  [('verify setup', L + 'ssl_lib.cc: Ctx::prepare_verify'), ('result classification', L + 'ssl_lib.cc: throw_io_exception'), ('retry', L + 'ssl_connection.cc: Reaction_connection::switch_state')],
  observe=['TLS handshakes', 'event registrations'], hook=None)

p('C20', 'Custom X-headers: only X- names, case-insensitive, carried unchanged',
  "A custom header can be set only under a name starting with X- or x- and any other name is refused; names are stored and looked up ignoring letter case. "
  "Custom headers given to a call or to the client reach the method with the same values, a call's own headers overriding the client's, and the method sees exactly the request's options whose names start with x-.",
  ['inputs', 'histories'], 'all names, values and sequences of settings',
  'The tests try a few names and one override.',
  ['xheaders.cc', 'xheaders.h', 'http.cc', 'client_conn.cc', 'server.cc'],
  [('validation', L + 'xheaders.cc: XHeaders::validate, operator[], find, operator='), ('transport', L + 'http.cc: Header::get_xheaders, set_xheaders')],
  observe=['XHeaders', 'Method::xheaders'], hook=None)

p('C21', 'Thread pool: each queued call runs once, and shutdown never hangs or leaks',
  "Unless the pool is destroyed first, every call handed to it is executed by one worker, exactly once, and calls are started in the order they were queued. "
  "Shared queue and shutdown state are accessed only under their locks, which are never taken in opposite orders, and no lock is held while a method runs. "
  "Destroying the pool ends every worker without waiting for a notification that was already sent, and frees every call still queued exactly once.",
  ['schedules', 'histories'], 'all interleavings of callers, workers and shutdown; any number of workers and calls',
  'Thread interleavings are left to chance; the shutdown race window is a few instructions wide.',
  ['executor.cc', 'executor.h'],
  [('worker loop', L + 'executor.cc: Pool_thread::operator()'), ('queue', L + 'executor.cc: register_executor'), ('shutdown', L + 'executor.cc: destruction_started, ~Pool_executor_factory')],
  state=[('req_queue', 'calls waiting', L + 'executor.h'), ('in_destructor', 'shutdown requested', L + 'executor.h')],
  observe=['Pool_executor_factory'], hook=None)

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P: f.write(json.dumps(q) + '\n')
