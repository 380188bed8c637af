#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  Run from anywhere: writes both files in /verif."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sofa/pbrpc/"
P = []


def prop(id, title, statement, over, quant, cant, files, mech, observe, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, cant=cant,
                  files=[S + f for f in files.split()], mech=mech, observe=observe, note=note, na=na))


prop("C01", "Binary requests are framed and answered correctly however the bytes arrive",
     "A server decodes every well-formed binary request exactly as sent, whatever the sizes of the messages and however the byte stream is cut into pieces, and runs the named method once per request with exactly the request that was sent. "
     "Each request gets exactly one well-formed response frame that carries its own sequence id and the method's response, or the method's failure. "
     "Any number of requests may be pipelined on one connection.",
     ["inputs", "histories"], "all sequences of well-formed request frames, all cuts of the byte stream into pieces, all message sizes up to the limit",
     "The tests only use the library's own client, which sends each message with one call; they never choose the cut points or speak the wire format.",
     "binary_rpc_request_parser.cc binary_rpc_request.cc rpc_server_message_stream.h rpc_message_header.h rpc_server_stream.h",
     [("request parser state machine", "binary_rpc_request_parser.cc"), ("reply framing", "binary_rpc_request.cc")],
     ["raw TCP connection to a running server"], "raw socket client with an independent encoder of the wire format; reference: the echo function")
prop("C02", "HTTP requests are framed and answered correctly however the bytes arrive",
     "A server decodes every well-formed HTTP/1.0 or 1.1 GET or POST request (path, query parameters, headers, body of the announced length) exactly as sent, however the byte stream is cut, on one persistent connection that may also carry binary requests. "
     "Each request gets exactly one HTTP response, with a Content-Length equal to the body that follows, and a request handler sees the path, parameters, headers and body that were sent.",
     ["inputs", "histories"], "all well-formed HTTP requests in sequence, all cuts of the byte stream, mixed with binary requests",
     "The HTTP path has a test with a few hand-written requests delivered in whole; cut points, header shapes, body sizes and mixtures are not sampled.",
     "http_rpc_request_parser.cc http_rpc_request.cc rpc_request_parser.h rpc_server_message_stream.h web_service.cc",
     [("HTTP parser state machine", "http_rpc_request_parser.cc")], ["raw TCP connection to a running server"],
     "raw socket client with an independent HTTP encoder and parser; servlet and method observations compared with what was sent")
prop("C03", "Malformed or hostile bytes never harm the server or other connections",
     "Whatever bytes a peer sends (random, truncated, or valid requests with any field altered), the server process does not crash, hang or touch memory it should not, and it keeps serving correct answers on other and on new connections. "
     "A request that cannot be decoded is answered with a failure or its connection is closed; it never runs a method with content other than the one the bytes encode.",
     ["inputs", "fault_sequences"], "all byte strings sent to a server port, including mutations of valid frames and of HTTP requests",
     "No test sends malformed input to a server.",
     "binary_rpc_request_parser.cc http_rpc_request_parser.cc http_rpc_request.cc binary_rpc_request.cc rpc_server_message_stream.h",
     [("header checks", "binary_rpc_request_parser.cc"), ("stream close on parse failure", "rpc_server_message_stream.h")],
     ["raw TCP connection to a running server under AddressSanitizer"], "structured mutation fuzzing under AddressSanitizer with a probe call after each case")
prop("C04", "Malformed bytes from a server never crash a client or corrupt a call",
     "Whatever bytes a server sends back (random, truncated, valid responses with any field altered, duplicated or unknown sequence ids), the client process does not crash or hang. "
     "Every outstanding call on that connection still completes exactly once, either with exactly the response that a well-formed frame for it carried or with a failure, and the client keeps working with other servers.",
     ["inputs", "fault_sequences"], "all byte strings sent back on a client connection, including mutations of valid response frames",
     "No test has a server that answers with malformed frames.",
     "rpc_message_stream.h rpc_client_stream.h rpc_client_impl.cc rpc_message_header.h",
     [("response header checks", "rpc_message_stream.h"), ("pending call map", "rpc_client_stream.h")],
     ["a fake server on a raw socket, the library's client under AddressSanitizer"], "structured mutation fuzzing of the response side under AddressSanitizer")
prop("C05", "Each call gets its own response, in whatever order responses come",
     "When many calls are outstanding on the same or on several connections, from any number of threads, every call that succeeds has in its response message exactly what the server answered to that very call, in whatever order and grouping the responses arrive. "
     "A response never reaches another call, and late or duplicate responses of finished calls are ignored.",
     ["schedules", "histories"], "all sets of concurrent calls, all orders, delays, duplications and cuts of the responses",
     "Existing tests answer calls in order from the library's own server; reordering, duplication and lateness are not produced.",
     "rpc_client_stream.h rpc_client_impl.cc rpc_controller_impl.h",
     [("sequence id to call map", "rpc_client_stream.h")], ["a fake server that answers in a generated order"], "generated response schedules from a fake server; unique payload per call")
prop("C06", "Every call completes exactly once, whatever fails",
     "Every call, synchronous or asynchronous, completes exactly once: its callback runs exactly once (a synchronous call returns) whatever happens to the connection or the server - refused, closed at any byte, stalled, stopped, or the client shut down. "
     "A call completes as failed unless its whole response arrived, and never completes before it was decided.",
     ["fault_sequences", "schedules", "crash_points"], "all fault points in the byte streams of both directions, all interleavings with timeout, cancel and shutdown",
     "The tests have a few fixed failure situations; the fault point is not varied and the number of completions is not checked.",
     "rpc_client_impl.cc rpc_client_stream.h rpc_message_stream.h rpc_byte_stream.h rpc_controller_impl.h rpc_timeout_manager.h",
     [("completion claimed once per call", "rpc_controller_impl.h")], ["callbacks counted per call"], "fault injection by a fake server or proxy at generated bytes and times; completion count oracle")
prop("C07", "Timeouts are kept: not early, not lost, and with the right precedence",
     "A call whose response does not come fails with the request-timeout error, never before its timeout has elapsed and within a bounded delay after it; a call answered in time does not time out. "
     "The timeout in force is the one of the controller if set, else of the method, else of the service, else the default, and the server is told the time that is left. "
     "A server gives up a request only when the time its client told has passed.",
     ["configurations", "schedules", "inputs"], "all combinations of controller, method and service timeouts, response delays around them, many concurrent calls",
     "One test uses one timeout value; precedence, bounds and concurrency are not sampled.",
     "rpc_client_impl.cc rpc_timeout_manager.h rpc_controller_impl.h timeout_manager.cc rpc_option.proto",
     [("timeout thread", "rpc_timeout_manager.h"), ("option lookup", "rpc_client_impl.cc")], ["completion time and error code of each call, timeout field on the wire"],
     "generated timeouts and delays against a fake server; lower bounds hard, upper bounds generous")
prop("C08", "A failed call tells the truth about why it failed",
     "The error code and text of a call state what happened: the failure reason a method sets arrives unchanged, unknown services and methods, undecodable requests, incomplete messages, refused and closed connections, timeouts and shut down or busy peers each report their own code, and a successful call reports no error. "
     "The controller of a failed call never shows a success, and a reused controller keeps nothing of an earlier call.",
     ["inputs", "configurations", "histories"], "all error texts, all failure causes, all sequences of calls on one controller",
     "Tests assert a handful of codes for a handful of situations.",
     "rpc_controller_impl.h rpc_error_code.cc binary_rpc_request.cc rpc_request.cc rpc_client_impl.cc",
     [("failure propagated in the meta data", "binary_rpc_request.cc")], ["controller of the call"], "generated failure causes with an expected code and text each")
prop("C09", "Compression followed by decompression gives back the same bytes",
     "For every compression type the library offers and every byte sequence, written in whatever pieces, with whatever give-backs, and read in whatever pieces with whatever give-backs and skips, what is read is exactly what was written, followed by the end of data. "
     "What gzip and zlib streams write is readable by, and what they read may come from, any standard implementation.",
     ["inputs", "histories"], "all byte sequences and sizes around block limits, all compression types, all sequences of stream operations",
     "Tests use a few fixed payloads and whole-message serialization, not block borders, give-backs or skips.",
     "compressed_stream.cc gzip_stream.cc block_wrappers.cc lz4.cc",
     [("block streams", "block_wrappers.cc"), ("gzip streams", "gzip_stream.cc")], ["in-process streams", "zlib and snappy as reference"],
     "round trip and differential (zlib, snappy) over generated operation sequences under AddressSanitizer")
prop("C10", "Corrupt compressed data is reported, never trusted and never fatal",
     "Decompressing any byte string with any offered compression type ends with either the original data or a reported failure; it never crashes, reads or writes outside its buffers, runs forever or needs memory out of proportion to the input limits. "
     "What it delivers before it stops is exactly what the well-formed beginning of the data encodes, and nothing is delivered after a failure.",
     ["inputs"], "all byte strings fed to the decompressing streams, in particular altered and truncated compressed data",
     "No test feeds corrupt data to the decompressors.",
     "gzip_stream.cc block_wrappers.cc lz4.cc binary_rpc_request.cc",
     [("decompress error checks", "block_wrappers.cc")], ["in-process streams under AddressSanitizer"], "mutation fuzzing of compressed data under AddressSanitizer with a reference decoder")
prop("C11", "A call over HTTP/JSON does the same as the binary call",
     "For every method and every request message, calling it over HTTP with the request as JSON (POST body or GET query) or as protobuf body gives the same response, or the same failure code and reason, as the binary protocol gives. "
     "The HTTP answer is well formed, its JSON parses under a strict parser, and a request that lacks required fields or cannot be parsed is answered with an error and does not run the method.",
     ["inputs", "configurations"], "all request messages and failure reasons, all HTTP request forms",
     "The HTTP test uses a few fixed requests and compares substrings.",
     "http_rpc_request.cc http_rpc_request_parser.cc pbjson.cc rpc_request.cc",
     [("JSON transcoding", "http_rpc_request.cc")], ["raw HTTP connection and binary client to the same server"], "differential: binary against HTTP on generated messages; strict independent JSON parser")
prop("C12", "Messages survive the conversion to JSON and back",
     "For every message of every field type, the JSON text that the library produces is valid JSON that shows each set field with its value, and parsing that text back gives an equal message (up to the six significant digits of printed floating point numbers). "
     "Going through a JSON value instead of text is exact.",
     ["inputs"], "all messages of all field types, including nested and repeated fields and all string and byte contents",
     "The test converts one or two fixed messages.",
     "pbjson.cc pbjson.h",
     [("message to JSON", "pbjson.cc")], ["in-process conversion functions"], "round trip, and an independent strict JSON parser as reference")
prop("C13", "Parsing arbitrary JSON text into a message is safe and faithful",
     "For every text, converting it into a message either fails with an error and a reason or yields a message in which each named field has the value the text gives; numbers outside the range of a field, wrong types and undecodable values are errors, not other values. "
     "It never crashes, and valid texts that agree with the message type are accepted.",
     ["inputs"], "all texts, valid or not, including deep nesting, extreme numbers and arbitrary bytes",
     "The test parses a few well-formed texts.",
     "pbjson.cc",
     [("type checks per field", "pbjson.cc")], ["in-process conversion functions under AddressSanitizer"], "grammar-based and mutation fuzzing with an independent parser as oracle, under AddressSanitizer")
prop("C14", "Chained buffers behave like byte strings",
     "A chained buffer filled through any sequence of appends, direct writes, give-backs, reservations and overwrites holds exactly the bytes a plain byte string would, and reading, skipping, splitting, sharing and trimming it gives exactly the corresponding parts. "
     "Buffers that share memory do not influence each other, and all memory is freed when the last user is gone.",
     ["histories", "inputs"], "all sequences of buffer operations and sizes around block limits",
     "Tests run a few fixed operation sequences.",
     "buffer.cc buffer.h tran_buf_pool.h buf_handle.h",
     [("block list with reference counts", "buffer.cc")], ["in-process operations"], "model-based testing against std::string under AddressSanitizer, allocation balance check")
prop("C15", "String and encoding helpers are exact for every input",
     "Splitting, joining, trimming, replacing, number conversion, hexadecimal, Base64, URL and JSON-escaping helpers compute the stated function for every byte string, decoding inverts encoding, and invalid input is reported and never read out of bounds.",
     ["inputs"], "all byte strings and numbers",
     "Tests use a few fixed strings.",
     "string_utils.cc bin2ascii.h",
     [("helpers", "string_utils.cc")], ["in-process calls"], "round trips and independent reference functions")
prop("C16", "Web servlets are routed by the longest matching path and answer correctly",
     "After any sequence of registrations and removals, an HTTP request is handled by the servlet registered for the longest path prefix (by whole components, repeated slashes ignored; the root path only for itself) or else reported as not found; registering an occupied path or removing an absent one is refused. "
     "The servlet's response (status, headers, body) reaches the client exactly.",
     ["histories", "inputs"], "all sequences of servlet registrations, removals and requests, all paths and response contents",
     "One test registers a few fixed paths.",
     "web_service.cc http_rpc_request.cc http.h",
     [("servlet map", "web_service.cc")], ["raw HTTP connection to a running server"], "model-based testing against a reference router")
prop("C17", "Calls reach exactly the registered service and method",
     "After any sequence of service registrations, a call reaches the named method of the named registered service and no other; unknown services or methods are refused with the not-found error and malformed names with the bad-name error, in binary and HTTP form. "
     "Registering a name twice is refused and changes nothing, and owned services are deleted exactly once with the server.",
     ["histories", "inputs"], "all sequences of registrations and calls, all method names",
     "Tests register one service and call its methods.",
     "service_pool.h rpc_request.cc rpc_server_impl.cc",
     [("service registry", "service_pool.h")], ["running server, calls by name"], "model-based testing against a reference registry")
prop("C18", "Service statistics add up",
     "The per-method and per-service counters the server reports over a period equal what was actually served: numbers of succeeded and failed calls, and average, maximum and total times consistent with the calls, in every history of calls and time ticks; old periods are forgotten and no call is lost or counted twice.",
     ["histories", "schedules"], "all histories of calls and ticks, all periods, concurrent callers",
     "No test looks at statistics beyond their presence.",
     "service_pool.h builtin_service_impl.cc",
     [("ring of stat slots", "service_pool.h")], ["statistics API"], "model-based testing of the statistics board against a list of events")
prop("C19", "Configured throughput limits are respected and lose nothing",
     "With an input or output throughput limit, the bytes a server or client moves over any period stay within the limit plus a bounded burst, all calls still complete with intact content, and lifting the limit at run time takes effect. "
     "Quota accounting never loses or invents quota under concurrent use.",
     ["configurations", "schedules", "histories"], "all limit settings, changes at run time and traffic patterns",
     "No test sets a throughput limit.",
     "flow_controller.h rpc_server_impl.cc rpc_client_impl.cc rpc_message_stream.h",
     [("quota per time slice", "flow_controller.h")], ["bytes over time on connections", "flow controller calls"], "model-based testing of the quota object, generated end-to-end transfers with limits")
prop("C20", "Timers fire once, on time and never after they were erased",
     "Every one-shot timer's callback runs exactly once: as timed out (not before its time), as erased (exactly when an erase reports success), or as cleared. A repeating timer keeps running, not more often than its interval, until it is erased or cleared, which it is told exactly once. "
     "This holds for any mix of adding, erasing and clearing from any threads, including from within callbacks.",
     ["schedules", "histories"], "all histories of add, erase and clear from several threads and callbacks, all intervals",
     "The test uses a few timers and one thread.",
     "timeout_manager.cc timeout_manager_impl.h timeout_manager_impl.cc",
     [("timer thread and timer sets", "timeout_manager_impl.cc")], ["in-process API"], "stateful testing with a reference model, under AddressSanitizer")
prop("C21", "Thread groups run every posted task exactly once and stop cleanly",
     "Every task given to a running thread group runs exactly once, on one of its threads, from any posting thread or task; stopping waits for all accepted tasks. "
     "Per-thread start and end functions run once per thread around the tasks, and a failing start function makes the start fail.",
     ["schedules", "histories"], "all numbers of threads, posters and tasks, stop at any time",
     "The tests post a few tasks.",
     "thread_group.h thread_group_impl.h thread_group.cc",
     [("io service per group", "thread_group_impl.h")], ["in-process API"], "stateful testing with counters, under AddressSanitizer")
prop("C22", "Closures call their target with the bound arguments and free themselves",
     "A closure calls its function or method with exactly the arguments bound when it was made followed by those given when run, and returns its result; a one-shot closure frees itself (and its copies of the arguments) after its only run, a permanent one can run any number of times.",
     ["inputs", "histories"], "all supported argument counts and kinds, all numbers of runs",
     "Tests cover some arities and do not check release of the arguments.",
     "closure.h ext_closure.h closure_helper.h",
     [("generated closure classes", "closure.h")], ["in-process API"], "generated arguments against direct calls, instance counting under AddressSanitizer")
prop("C23", "Connection limit and idle limit hold",
     "A server with a connection limit never serves more connections than that at once, accepts new ones again when others have gone, and does not disturb those it serves; a server or client with an idle limit closes connections that were idle for longer, never one that was active within the limit, and calls after an idle close still succeed.",
     ["histories", "configurations"], "all limits and all histories of connects, disconnects, calls and pauses",
     "No test sets a connection limit; idle limits are tested with one value.",
     "rpc_server_impl.cc rpc_client_impl.cc rpc_listener.h rpc_byte_stream.h",
     [("stream set and maintain timer", "rpc_server_impl.cc")], ["raw TCP connections and calls"], "model-based histories of connections against a running server")
prop("C24", "Servers start, stop, restart and reconfigure cleanly",
     "After any sequence of start, stop, restart and option changes, a started server serves on its address, a stopped one does not and has released the port, its connections and threads, and no method is still running after stop returned; failing starts (port in use, failing start function) report failure and leave the server startable. "
     "A response a client gets is correct at every moment of it.",
     ["histories", "schedules"], "all sequences of lifecycle operations with concurrent clients",
     "The tests start and stop once.",
     "rpc_server_impl.cc rpc_listener.h thread_group_impl.h",
     [("start and stop", "rpc_server_impl.cc")], ["server API, sockets and threads of the process"], "stateful testing of lifecycle histories with concurrent calls")
prop("C25", "Shutting down a client ends all its calls and frees its resources",
     "Shutting down or destroying a client ends every outstanding call exactly once with an error, from any state and with calls being made concurrently; later calls fail at once, a second shutdown does no harm, and once it returned no callback of an earlier asynchronous call is still to run. "
     "All sockets and threads of the client are released.",
     ["schedules", "histories"], "all moments of shutdown relative to calls, connects, responses and timeouts",
     "One test shuts down with one fixed situation.",
     "rpc_client_impl.cc rpc_client.cc rpc_client_stream.h",
     [("shutdown", "rpc_client_impl.cc")], ["callbacks, sockets and threads of the process"], "stateful testing with concurrent calls and a shutdown at a generated moment")
prop("C26", "A multi-server channel fails over and follows address changes",
     "A channel with several servers sends calls only to servers in its current address list, succeeds as long as one of them is reachable (after the failed ones were noticed), uses a server again once it is back, and follows added and removed addresses; failing servers do not make calls hang. "
     "With no usable server calls fail with the unavailable error.",
     ["histories", "fault_sequences"], "all histories of servers going down and up, addresses added and removed, and calls",
     "One test with a fixed scenario.",
     "dynamic_rpc_channel_impl.cc rpc_channel.cc simple_rpc_channel_impl.cc",
     [("server contexts", "dynamic_rpc_channel_impl.cc")], ["calls on the channel, server identities in responses"], "model-based histories over several servers")
prop("C27", "Load is spread over servers and per-server capacity is kept",
     "A channel with a capacity per server never has more calls outstanding at one server than that, fails further calls with the busy error only when every usable server is at capacity, and frees capacity exactly once when a call ends, however it ends. "
     "Without a limit, calls are spread over all usable servers.",
     ["schedules", "configurations", "histories"], "all capacities, numbers of servers and orders of call completion",
     "The tests do not set a capacity.",
     "dynamic_rpc_channel_impl.cc",
     [("pending call count per server", "dynamic_rpc_channel_impl.cc")], ["outstanding calls observed at servers"], "model-based histories with servers that hold their answers")
prop("C28", "The pending send buffer limit holds and overflow is reported",
     "When a peer does not read, a client or server buffers no more than the configured limit: further calls fail with the buffer-full error, and a server takes no further requests from that peer. Accepted calls and responses are delivered whole and unmixed once the peer reads again, and the space is usable again.",
     ["configurations", "histories", "fault_sequences"], "all limits, message sizes and stalls of the peer",
     "No test stalls the peer.",
     "rpc_message_stream.h rpc_client_stream.h rpc_server_stream.h rpc_client_impl.cc",
     [("pending data size", "rpc_message_stream.h")], ["a raw peer that reads when told"], "model-based histories with a peer that stalls")
prop("C29", "Locks, conditions, counters and swapped locks keep their contracts",
     "Mutual exclusion holds for every lock type under any schedule, read locks may be shared and exclude writers, waits end on signal or after (not before) the given time, no wake-up is lost, and atomic counters and reference counts lose no update.",
     ["schedules"], "all schedules of several threads over all lock types",
     "Tests do a little single-threaded use.",
     "fast_lock.h mutex_lock.h spin_lock.h rw_lock.h condition_variable.h wait_event.h atomic.h counter.h locks.h",
     [("lock types", "locks.h")], ["in-process API"], "generated multi-threaded programs with invariant checks and schedule perturbation")
prop("C30", "Smart pointers free each object exactly once, at the right time",
     "For any sequence of copying, assigning, casting, swapping, resetting and promoting shared, weak and scoped pointers, in any threads, an object lives exactly as long as it has an owner, is freed exactly once with its own deleter, and counts and comparisons are as the model says.",
     ["histories", "schedules"], "all sequences of pointer operations",
     "Tests cover fixed sequences.",
     "smart_ptr/shared_ptr.hpp smart_ptr/weak_ptr.hpp smart_ptr/scoped_ptr.hpp",
     [("reference counts", "smart_ptr/detail/sp_counted_base_gcc_x86.hpp")], ["in-process API"], "model-based testing against std::shared_ptr, under AddressSanitizer")
prop("C31", "Mock channels answer with the registered mock and only while mocking",
     "While mocking is on, a call through a mock channel runs exactly the mock method registered for its full name, with the given request, and completes once as the mock decides; unregistered names fail with the unknown-method error. Ordinary channels go on calling their real servers. "
     "When mocking is off, calls behave as ordinary calls.",
     ["histories", "inputs"], "all sequences of registrations, switches and calls",
     "One test with fixed mocks.",
     "mock_test_helper.cc mock_test_helper_impl.h rpc_channel.cc",
     [("mock registry", "mock_test_helper_impl.h")], ["calls through mock channels"], "model-based testing against a reference registry")
prop("C32", "Built-in services report the truth",
     "The built-in services answer with the server's real state: health, effective options, start time and uptime, the registered services with complete and correct descriptors, and the counts of connections and pending calls; option updates through them take effect exactly as reported, and an update that names nothing to update is refused.",
     ["histories", "configurations"], "all server configurations, registrations and updates",
     "One test calls them and looks at presence.",
     "builtin_service_impl.cc web_service.cc rpc_server_impl.cc",
     [("built-in service", "builtin_service_impl.cc")], ["calls of the built-in service"], "model-based testing: reported values against the generated configuration")
prop("C33", "End to end, every call is executed and answered faithfully",
     "Under any mix of clients, threads, channels, sizes, compression types and short reads and writes of the operating system, each call that succeeds had its method run with exactly the request given and returns exactly the response the method made; each request runs at most once. "
     "With healthy peers and enough time all calls succeed.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all mixes of concurrent calls, sizes, compression types and partial transfers",
     "Tests run a few sequential calls; perf tools check nothing.",
     "rpc_client_impl.cc rpc_message_stream.h rpc_server_impl.cc binary_rpc_request.cc rpc_byte_stream.h",
     [("whole request path", "rpc_client_impl.cc")], ["library client and server in one process"], "generated workloads with injected short reads and writes; unique payloads")
prop("C34", "Dynamic calls through the HTTP agent match direct calls",
     "For every registered service, calling a method through the dynamic agent with a JSON request (by service and method name, without compiled stubs) gives the same response as a direct call with the equivalent message, and failures are reported as such.",
     ["inputs"], "all request messages and method names",
     "No test exercises the agent.",
     "http-agent/http_agent.cc",
     [("dynamic messages from listed descriptors", "http-agent/http_agent.cc")], ["agent API against a running server"], "differential: agent against direct calls")
prop("C35", "The Python client speaks the same protocol as the C++ client",
     "For every request message, the Python client produces the same frames and yields the same responses and failures as the C++ client.",
     ["inputs"], "all request messages",
     "There is no test of the Python client.",
     "../../../python/sofa/pbrpc/client.py",
     [("Python channel", "../../../python/sofa/pbrpc/client.py")], ["frames on the wire"], "",
     na="The client is Python 2 code on the Python 2 protobuf runtime; neither a Python 2 interpreter nor a Python protobuf runtime is installed, so its code cannot be run here and generated-input search cannot decide it.")


def main():
    out, checks, na = [], [], []
    for p in P:
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                    "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["cant"],
                    "anchors": {"files": [os.path.normpath(f) for f in p["files"]],
                                "mechanism": [{"name": n, "where": os.path.normpath(S + w)} for n, w in p["mech"]],
                                "observe_at": p["observe"], "hook_needed": None}})
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for f in p["files"]:
            if not os.path.exists(os.path.join("/repo", f)):
                print("missing anchor", p["id"], f)
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not glob.glob(V + "/harness/" + p["id"].lower() + "_*.cc"):
            na.append({"property": p["id"], "reason": "No check built yet."})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
                           "technique": "property-based testing: " + p["note"], "level": "exploration",
                           "level_note": "Random search of the stated domain with a deterministic seed and shrinking; it shows the absence of violations only on the cases generated. Trusts the harness's reference model, the compiler and its sanitizer."})
    with open(V + "/properties.jsonl", "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
               "notes": "properties.jsonl and this file are written by tools/props.py. No hooks in /repo are needed."},
              open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
