# What each check runs: harness binaries and the rule of what counts as a non-trivial case
CHECKS = {
	"C01": dict(
		binaries=[dict(source="json.cpp", defines=["C01"])],
		rule="A random value of one of 9 Serialisable classes covering all member types is serialised to JSON and read into a fresh or used object; non-trivial if the JSON is over 40 bytes",
	),
	"C02": dict(
		binaries=[dict(source="json.cpp", defines=["C02"])],
		rule="Random objects and random call sequences on the output interface, output parsed by an independent strict RFC 8259 parser and compared with the model; non-trivial if over 40 bytes (objects) or a container with content (direct)",
		assumptions=["uint64_t values over 2^63-1, non-finite numbers and strings that are not UTF-8 are outside the domain"],
	),
	"C03": dict(
		binaries=[dict(source="json.cpp", defines=["C03"])],
		rule="A random value is written as JSON by an independent writer with random whitespace, escapes, number notation, member order, unknown and absent members, then read; non-trivial if any of these variations is used",
	),
	"C04": dict(
		binaries=[dict(source="json.cpp", defines=["C04"])],
		rule="A valid JSON text of a random object is truncated, damaged at up to 4 places or given a value of a wrong type and read from an exactly sized buffer under AddressSanitizer, then valid input is read; also random calls of the input interface on random texts; non-trivial if the input is over 4 bytes or over 2 operations are done",
		assumptions=["Nesting deep enough to overflow the stack is outside the domain"],
	),
	"C05": dict(
		binaries=[dict(source="binary.cpp", defines=["C05"])],
		rule="Random values of 9 classes with 5 size types, 3 ways of output, fresh or used target; an independent encoder decides if sizes are representable; non-trivial if over 20 bytes are written",
	),
	"C06": dict(
		binaries=[dict(source="binary.cpp", defines=["C06"]), dict(source="binary.cpp", defines=["C06B"])],
		rule="Bytes compared with those of an independent encoder of the documented format, both directions, for values and for messages of calls and responses; non-trivial if over 20 bytes",
	),
	"C07": dict(
		binaries=[dict(source="binary.cpp", defines=["C07"])],
		rule="Correct encodings are truncated or damaged (also within correct framing) and given from exactly sized buffers under AddressSanitizer to the decoder, server and client; non-trivial if the input is longer than a header",
	),
	"C08": dict(
		binaries=[dict(source="forms.cpp", defines=["C08"])],
		rule="Random flat objects in own and independently written forms, an independent decoder and damaged forms; non-trivial as counted per test, mostly if special characters are present or the text is over 20 bytes",
		assumptions=["Strings are Unicode text; literal character references in them and false bools without OMIT_FALSE are outside the domain"],
	),
	"C09": dict(
		binaries=[dict(source="rpc.cpp", defines=["C09"])],
		rule="Random histories of calls over an in-memory connection with random segmentation and delays, compared with local execution; non-trivial if at least 3 calls are done",
	),
	"C10": dict(
		binaries=[dict(source="rpc.cpp", defines=["C10"])],
		rule="Random histories of calls over an in-memory connection with random segmentation and delays, compared with local execution; non-trivial if at least 3 calls are done",
		assumptions=["Methods do not throw, the protocol has no representation of errors"],
	),
	"C11": dict(
		binaries=[dict(source="rpc.cpp", defines=["C11"])],
		rule="Random histories of calls through forms and URLs with random segmentation, compared with local execution; non-trivial if at least 3 calls are done or a request through URL is done",
		assumptions=["Methods called through forms return nothing"],
	),
	"C12": dict(
		binaries=[dict(source="jsonrpc.cpp", defines=["C12"])],
		rule="Random requests and batches with random styles of formatting, responses parsed by an independent parser and compared with a model of the specification; damaged requests; non-trivial as counted per test, mostly with more than one call or with reordered members",
	),
	"C13": dict(
		binaries=[dict(source="http.cpp", defines=["C13"])],
		rule="1 to 7 random requests on a connection with random division into segments, responses parsed by an independent strict parser; non-trivial if there are more requests and more segments",
	),
	"C14": dict(
		binaries=[dict(source="http.cpp", defines=["C14"])],
		rule="Damaged streams of requests given at once and in random segments must have the same effect, under AddressSanitizer with exactly sized buffers; non-trivial if over 20 bytes",
	),
	"C15": dict(
		binaries=[dict(source="http.cpp", defines=["C15"])],
		rule="Random requests checked by an independent parser, random responses delivered in random segments and read in random order with random polling; damaged responses; non-trivial with more than one request or any malformed response",
		assumptions=["Header values do not start with a colon and headers are not folded"],
	),
	"C16": dict(
		binaries=[dict(source="tcp.cpp", defines=["C16"])],
		rule="Random streams of messages in random segments given to the buffering layer of the TCP server, compared with a reference; non-trivial with more than one message and segment",
	),
	"C17": dict(
		binaries=[dict(source="net.cpp", defines=["C17"])],
		rule="Real sockets on the loopback: random histories of clients sending, waiting, finishing, resetting connections, with random partial receives and sends; a part with the server in a background thread with big transfers; non-trivial with over 3 steps",
		assumptions=["Receiving is not interrupted by signals", "Accepting connections does not fail"],
	),
	"C18": dict(
		binaries=[dict(source="net.cpp", defines=["C18"])],
		rule="The blocking client with real sockets against a scripted server delivering responses in random parts and order, closing or resetting the connection; non-trivial with more than one request",
	),
	"C19": dict(
		binaries=[dict(source="failures.cpp", defines=["C19"])],
		rule="Histories of calls answered by correct responses, 13 kinds of failures or a broken connection, in random segments; non-trivial if at least one call fails",
	),
	"C20": dict(
		binaries=[dict(source="files.cpp", defines=["C20"])],
		rule="Histories of requests, changes of files, reloading and generated files compared with a model; non-trivial with over 2 requests or files",
		assumptions=["Names do not begin or end with a dot, files do not change while being read, generated files have other names than files on the disk"],
	),
	"C21": dict(
		binaries=[dict(source="files.cpp", defines=["C21"])],
		rule="Random paths from traversal segments, names of existing files inside and outside, absolute paths and encodings; everything outside and hidden contains a mark that may not appear in any response; non-trivial with more than one request",
		assumptions=["No symbolic links in the folder"],
	),
	"C22": dict(
		binaries=[dict(source="files.cpp", defines=["C22"], sanitizer="tsan")],
		rule="Threads getting files under ThreadSanitizer while another thread replaces files, reloads, resets and adds generated files; each content must be one of the versions that could be current; non-trivial if files were obtained",
		assumptions=["Interleavings are those that occur during the run, data races are detected by happens-before analysis"],
	),
	"C23": dict(
		binaries=[dict(source="describe.cpp")] + [dict(source="gen%d.cpp" % i, generate="gen_types.py", defines=["C23"], thorough_only=i >= 2) for i in range(12)],
		rule="Random interfaces stated at runtime, and random compositions of classes and lambdas from randomly generated programs, described and compared with an independently made description; non-trivial with more than one argument or method",
		assumptions=["Names of classes don't begin with an underscore and aren't in namespaces"],
	),
	"C24": dict(
		binaries=[dict(source="gen%d.cpp" % i, generate="gen_types.py", defines=["C24"], thorough_only=i >= 6) for i in range(40)],
		rule="Randomly generated programs with classes, RPC objects and lambdas that state their members, defaults, names and arguments independently of the library's reflection; each is run with random values; non-trivial with more than one member or argument",
		assumptions=["An empty optional within an optional isn't used", "Unsigned integers in JSON fit in 63 bits"],
	),
	"C25": dict(
		binaries=[dict(source="dynamic.cpp")],
		rule="Histories of creating, moving, swapping, replacing and destroying holders of lambdas with captures of 13 kinds that track their instances; histories of composing and moving objects, checked completely against a model; non-trivial with at least 2 moves, or more than 3 callables and a move of an object",
		assumptions=["Objects referenced without owning outlive the calls and are not moved", "Children have unique nonempty names without slashes"],
	),
	"C26": dict(
		binaries=[dict(source="buffers.cpp")],
		rule="Histories of appending in all ways, clearing and flushing with 9 sizes of buffers and chunks near their multiples, compared with a plain string; non-trivial with over 2 appends and more content than a half of the static size",
		assumptions=["Less than 2 GiB are written"],
	),
	"C27": dict(
		binaries=[dict(source="js.cpp")],
		rule="Random interfaces described by the library, loaded by bomba.js in Node.js with stubs of fetch and of the page, random calls, also concurrent and with wrong types, and uses of the GUI, compared with a model; calls through the real C++ server compared with local calls; non-trivial if at least one argument was sent, or more than one call made",
		assumptions=["Names are valid JavaScript identifiers that don't clash with names of members of all objects or with gui and toJson", "Members of objects are present, integers fit into 53 bits"],
	),
	"C28": dict(
		binaries=[dict(source="custom.cpp")],
		rule="Random values, request streams and calls processed with a custom string without allocation, buffers of several static sizes and buffers that don't expand, compared with the same using std::string and default buffers; allocations counted by a replaced operator new; non-trivial if there is more than a header of a response, or a cut response, or a call",
		assumptions=["Contents fit into the custom string", "Fixed size buffers are larger than the header of a response"],
	),
	"C29": dict(
		binaries=[dict(source="format.cpp")],
		rule="Random values written into and read from a format that stores a tree and checks every call of the interfaces, damaged trees, random structures written by the convenience classes, histories of calls through a client and session implemented only from the documented interfaces; non-trivial with at least 2 members or elements, or 2 calls",
		assumptions=["The custom format preserves everything the interface can express"],
	),
	"C30": dict(
		binaries=[dict(source="tls.cpp", defines=["BINARY"], libs=["-lssl", "-lcrypto"]), dict(source="tls.cpp", defines=["HTTP"], libs=["-lssl", "-lcrypto"])],
		rule="The blocking TLS client with real sockets against a scripted TLS server (OpenSSL, TLS 1.2 and 1.3, session tickets, key updates) delivering responses in random parts of encrypted blocks and order, closing politely or not or resetting the connection; non-trivial with more than one request",
		assumptions=["Certificates are not verified by the client"],
	),
	"C31": dict(
		binaries=[dict(source="callables.cpp")],
		rule="Random trees of callables implemented directly through IRemoteCallable, random histories of requests encoded independently (JSON-RPC with batches and notifications, binary, forms and URLs) or sent through the provided clients, with random results and failures; the arguments each callable received and all responses are compared with what was sent and decided; non-trivial with at least 2 calls",
		assumptions=["A failing callable does not introduce a result"],
	),
	"C32": dict(
		binaries=[dict(source="e2e.cpp"), dict(source="e2e.cpp", defines=["RACES"], sanitizer="tsan")],
		rule="Up to 6 clients in threads with random histories of calls and downloads over real connections to a server in the background, with random partial receives and sends, under AddressSanitizer and ThreadSanitizer; results and the final state compared with local calls; every case makes calls",
		assumptions=["Interleavings are those that occur during the run, data races are detected by happens-before analysis"],
	),
}
