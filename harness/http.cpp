// Splitting of streams into HTTP messages by servers and clients
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_http.hpp"
using namespace pbt;
using namespace transport;
using namespace refhttp;

struct Plan { // what the responder should do
	enum Kind { KNOWN, UNKNOWN, NOTHING, REFUSE, THROW } kind = KNOWN;
	std::string type, content;
	std::vector<size_t> pieces;
};
static void writeContent(const Plan& plan, Bomba::GeneralisedBuffer& output) {
	size_t at = 0;
	for (size_t piece : plan.pieces) {
		output += std::string_view(plan.content).substr(at, piece);
		at += piece;
	}
	output += std::string_view(plan.content).substr(at);
}
static bool respondAsPlanned(const Plan& plan, Bomba::IWriteStarter& writer) {
	switch (plan.kind) {
		case Plan::KNOWN: writer.writeKnownSize(plan.type, plan.content.size(), [&] (Bomba::GeneralisedBuffer& output) { writeContent(plan, output); }); return true;
		case Plan::UNKNOWN: writer.writeUnknownSize(plan.type, [&] (Bomba::GeneralisedBuffer& output) { writeContent(plan, output); }); return true;
		case Plan::NOTHING: return true;
		case Plan::REFUSE: return false;
		case Plan::THROW: throw std::runtime_error("planned");
	}
	return false;
}
static Plan randomPlan(Src& src) {
	Plan p;
	p.kind = src.pick({Plan::KNOWN, Plan::UNKNOWN, Plan::KNOWN, Plan::UNKNOWN, Plan::NOTHING, Plan::REFUSE, Plan::THROW});
	p.type = src.pick({"text/html", "application/json", "a/b", "application/octet-stream; charset=utf-8"});
	p.content = src.text(Src::BYTES, src.chance(1, 6) ? 9000 : 300);
	size_t left = p.content.size();
	while (left && src.chance(1, 3)) { p.pieces.push_back(1 + src.raw(left - 1)); left -= p.pieces.back(); }
	return p;
}
static void checkResponse(const Plan& plan, const Message& got, bool isGet) {
	static const int refused[] = {400, 404};
	int status = plan.kind == Plan::NOTHING ? 204 : plan.kind == Plan::REFUSE ? refused[isGet] : plan.kind == Plan::THROW ? 500 : 200;
	requireEqual(status, got.status, "status of the response");
	if (status == 200) {
		requireEqual(plan.content, got.body, "body of the response");
		const std::string* type = got.header("content-type");
		require(type, "response without content type");
		requireEqual(plan.type, *type, "content type of the response");
	}
}

struct Recorder : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	struct Call { bool isGet; std::string path, type, body; };
	std::vector<Call> calls;
	std::vector<Plan> plans;
	Plan fallback;
	const Plan& next() { return calls.size() <= plans.size() ? plans[calls.size() - 1] : fallback; }
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		calls.push_back({true, std::string(path), "", ""});
		return respondAsPlanned(next(), writer);
	}
	bool post(std::string_view path, std::string_view type, std::span<char> body, Bomba::IWriteStarter& writer) override {
		calls.push_back({false, std::string(path), std::string(type), std::string(body.data(), body.size())});
		return respondAsPlanned(next(), writer);
	}
};

static std::string randomPath(Src& src) {
	if (src.chance(1, 4)) return "/";
	std::string path = "/";
	size_t n = src.chance(1, 20) ? src.raw(3000) : src.raw(20);
	for (size_t i = 0; i < n; i++) path += src.pick({'a', 'b', '/', '.', '?', '&', '=', '%', '+', '-', ':', '#', 'Z', '0', '~', '\xc5', 'x'});
	return path;
}

// C13: whatever the division into segments and the headers, every request gets its own response, in order
static void framing(Src& src) {
	struct Request { std::string method, path, type, body; bool hasLength, close; Plan plan; };
	std::vector<Request> requests;
	std::string stream;
	int count = int(src.range(1, 7));
	Recorder recorder;
	bool closed = false;
	std::vector<Request> processed; // not those after Connection: close
	for (int i = 0; i < count; i++) {
		Request r;
		r.method = src.pick({"GET", "POST", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "get", "GETS"});
		r.path = randomPath(src);
		bool post = r.method == "POST";
		r.hasLength = post || src.chance(1, 4);
		r.close = src.chance(1, 12);
		if (r.hasLength) {
			r.body = src.text(Src::BYTES, src.chance(1, 6) ? 7000 : 100);
			if (src.chance(1, 4)) r.body += src.pick({"\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "\r", "\n", "Content-Length: 5\r\n\r\n", "POST /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"});
		}
		if (src.coin()) r.type = src.pick({"application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=\"a:b\""});
		r.plan = randomPlan(src);
		std::vector<std::string> headers;
		if (r.hasLength) {
			headers.push_back(randomCase(src, "Content-Length") + colon(src) + std::string(src.chance(1, 10) ? "0" : "") + std::to_string(r.body.size()) + (src.chance(1, 10) ? " " : "") + "\r\n");
			if (src.chance(1, 20)) headers.push_back(headers.back());
		}
		if (!r.type.empty()) headers.push_back(randomCase(src, "Content-Type") + colon(src) + r.type + "\r\n");
		if (r.close) headers.push_back(randomCase(src, "Connection") + colon(src) + "close\r\n");
		else if (src.chance(1, 4)) headers.push_back("Connection: keep-alive\r\n");
		for (int j = int(src.raw(3)); j > 0; j--) headers.push_back(noiseHeader(src));
		src.shuffle(headers);
		std::string message = r.method + " " + r.path + " " + src.pick({"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}) + "\r\n";
		for (auto& h : headers) message += h;
		message += "\r\n" + r.body;
		src.note(printable(message));
		stream += message;
		if (!closed) {
			if (r.method == "GET" || post) recorder.plans.push_back(r.plan);
			processed.push_back(r);
			if (r.close) closed = true;
		}
		requests.push_back(r);
	}
	Bomba::HttpServer<> server(recorder, recorder);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	size_t at = 0, segments = 0;
	size_t most = largestSegment(src, stream.size());
	while (at < stream.size() && !feeder.disconnected) {
		size_t size = std::min(most, segment(src, stream.size() - at));
		feeder.receive(std::string_view(stream).substr(at, size));
		at += size;
		segments++;
	}
	if (feeder.disconnected != closed) fail(closed ? "the server did not disconnect though the client asked to" : "the server disconnected");
	if (!closed) require(feeder.pending.empty(), "the server did not process everything");
	size_t callIndex = 0;
	std::vector<Message> responses = parseAll(feeder.output, true);
	requireEqual(processed.size(), responses.size(), "number of responses");
	for (size_t i = 0; i < processed.size(); i++) {
		Request& r = processed[i];
		bool isGet = r.method == "GET";
		if (isGet || r.method == "POST") {
			require(callIndex < recorder.calls.size(), "a request did not reach its responder");
			auto& call = recorder.calls[callIndex++];
			requireEqual(isGet, call.isGet, "method of the request");
			requireEqual(r.path, call.path, "path of the request");
			if (!isGet) {
				requireEqual(r.type, call.type, "content type of the request");
				requireEqual(r.body, call.body, "body of the request");
			}
			checkResponse(r.plan, responses[i], isGet);
		} else requireEqual(501, responses[i].status, "status of response to an unknown method");
	}
	requireEqual(callIndex, recorder.calls.size(), "number of calls of responders");
	src.labelIf(closed, "closed"); src.labelIf(segments > size_t(count), "split requests"); src.labelIf(segments < size_t(count), "joined requests");
	src.nontrivial = count > 1 && segments > 1;
}

// C13: responders failing after responding or in the middle of it, among others, and responses of unusual sizes
static void lateFailures(Src& src) {
	enum Kind { GOOD, REFUSE_AFTER, THROW_AFTER, THROW_INSIDE, HUGE_SIZE };
	struct Step { Kind kind; bool known, post; std::string content; size_t after; int64_t size; };
	struct Responder : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
		std::vector<Step> steps;
		size_t called = 0;
		bool respond(Bomba::IWriteStarter& writer) {
			require(called < steps.size(), "more calls than requests");
			Step& s = steps[called++];
			int64_t size = s.kind == HUGE_SIZE ? s.size : int64_t(s.content.size());
			auto fill = [&] (Bomba::GeneralisedBuffer& output) {
				if (s.kind == THROW_INSIDE || s.kind == HUGE_SIZE) {
					output += std::string_view(s.content).substr(0, s.after);
					throw std::runtime_error("planned");
				}
				output += std::string_view(s.content);
			};
			if (s.known || s.kind == HUGE_SIZE) writer.writeKnownSize("text/plain", size, fill);
			else writer.writeUnknownSize("text/plain", fill);
			if (s.kind == THROW_AFTER) throw std::runtime_error("planned");
			return s.kind != REFUSE_AFTER;
		}
		bool get(std::string_view, Bomba::IWriteStarter& writer) override { return respond(writer); }
		bool post(std::string_view, std::string_view, std::span<char>, Bomba::IWriteStarter& writer) override { return respond(writer); }
	} responder;
	std::string stream;
	for (int i = int(src.range(1, 5)); i > 0; i--) {
		Step s;
		s.kind = src.chance(1, 3) ? GOOD : src.pick({REFUSE_AFTER, THROW_AFTER, THROW_INSIDE, HUGE_SIZE});
		s.known = src.coin();
		s.post = src.coin();
		s.content = src.text(Src::BYTES, src.chance(1, 3) ? 6000 : 100);
		s.after = src.raw(s.content.size());
		s.size = int64_t(1) << src.range(14, 38);
		s.size += src.range(-5, 5);
		if (s.kind == HUGE_SIZE && s.content.size() < 3000) s.content.resize(3000, 'x'), s.after = 3000; // The header has to be sent
		responder.steps.push_back(s);
		stream += s.post ? "POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nab" : "GET / HTTP/1.1\r\n\r\n";
		src.note(std::string(s.kind == GOOD ? "good" : s.kind == REFUSE_AFTER ? "refuse after" : s.kind == THROW_AFTER ? "throw after" : s.kind == THROW_INSIDE ? "throw inside after " + std::to_string(s.after) : "throw inside, size " + std::to_string(s.size))
				+ (s.known ? " known " : " unknown ") + std::to_string(s.content.size()));
	}
	Bomba::HttpServer<> server(responder, responder);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	while (!stream.empty() && !feeder.disconnected) {
		size_t size = segment(src, stream.size());
		feeder.receive(stream.substr(0, size));
		stream.erase(0, size);
	}
	size_t at = 0;
	require(responder.called == responder.steps.size() || feeder.disconnected, "not all requests reached the responder");
	require(responder.called > 0, "no request reached the responder");
	for (size_t i = 0; i < responder.called; i++) {
		Step& s = responder.steps[i];
		bool last = feeder.disconnected && i == responder.called - 1;
		std::string rest = feeder.output.substr(at);
		if (s.kind == HUGE_SIZE || (s.kind == THROW_INSIDE && last)) {
			require(last, "the connection was not closed after an incomplete response");
			size_t headerEnd = rest.find("\r\n\r\n");
			if (headerEnd == rest.npos) require(s.kind != HUGE_SIZE && s.known, "incomplete header was sent");
			else {
				size_t pos = 0;
				Message m = parse(rest.substr(0, headerEnd + 4) , pos, true, true);
				requireEqual(200, m.status, "status");
				requireEqual(std::to_string(s.kind == HUGE_SIZE ? s.size : int64_t(s.content.size())), *m.header("content-length"), "content length");
				std::string sent = rest.substr(headerEnd + 4);
				requireEqual(s.content.substr(0, std::min(s.after, sent.size())), sent, "beginning of the response");
				if (s.kind == HUGE_SIZE) src.label("unusual size");
			}
			at = feeder.output.size();
			break;
		}
		Message m = parse(feeder.output, at, true);
		if (s.kind == THROW_INSIDE || (s.kind == THROW_AFTER && m.status != 200)) {
			requireEqual(500, m.status, "status");
			src.label("500");
			continue;
		}
		requireEqual(200, m.status, "status");
		requireEqual(s.content, m.body, "body");
		if (s.kind == THROW_AFTER) { src.label("thrown after sending"); if (last) break; }
	}
	requireEqual(feeder.output.size(), at, "everything that was sent");
	src.nontrivial = responder.called > 1;
}

// C13: responders from the library
static void simple(Src& src) {
	Bomba::SimpleGetResponder simple;
	std::string resource = src.text(Src::BYTES, src.chance(1, 3) ? 5000 : 100), type = src.pick({"text/html", "image/png", "a/b; charset=utf-8"});
	simple.resource = resource;
	bool setType = src.coin(), useSimple = src.chance(2, 3), defaults = src.coin();
	if (setType) simple.resourceType = type;
	else type = "text/html";
	Bomba::DummyGetResponder dummyGet;
	Bomba::DummyPostResponder dummyPost;
	auto make = [&] {
		if (useSimple) return defaults ? Bomba::HttpServer<>(simple) : Bomba::HttpServer<>(simple, dummyPost);
		return defaults ? Bomba::HttpServer<>() : Bomba::HttpServer<>(dummyGet, dummyPost);
	};
	Bomba::HttpServer<> server = make();
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	std::string stream;
	std::vector<bool> gets;
	for (int i = int(src.range(1, 5)); i > 0; i--) {
		gets.push_back(src.chance(2, 3));
		stream += (gets.back() ? "GET " : "POST ") + randomPath(src) + " HTTP/1.1\r\n" + (gets.back() ? "" : "Content-Length: 3\r\n") + "\r\n" + (gets.back() ? "" : "abc");
	}
	src.note(printable(stream));
	while (!stream.empty()) {
		size_t size = segment(src, stream.size());
		feeder.receive(stream.substr(0, size));
		stream.erase(0, size);
	}
	require(!feeder.disconnected, "the server disconnected");
	std::vector<Message> responses = parseAll(feeder.output, true);
	requireEqual(gets.size(), responses.size(), "number of responses");
	for (size_t i = 0; i < gets.size(); i++) {
		requireEqual(!gets[i] ? 400 : useSimple ? 200 : 404, responses[i].status, "status");
		if (responses[i].status != 200) continue;
		requireEqual(resource, responses[i].body, "body");
		require(responses[i].header("content-type"), "no content type");
		requireEqual(type, *responses[i].header("content-type"), "content type");
	}
	src.nontrivial = gets.size() > 1;
}

// C13: large requests and responses
static void large(Src& src) {
	Recorder recorder;
	std::string stream;
	struct Request { bool isGet; std::string path, body; };
	std::vector<Request> requests;
	size_t biggest = 0;
	for (int i = int(src.range(1, 4)); i > 0; i--) {
		Request r{src.coin(), "/" + (src.chance(1, 6) ? src.bulk(Src::IDENT, 100000) : std::string("x")), ""};
		if (!r.isGet || src.chance(1, 4)) r.body = src.bulk(Src::BYTES, src.coin() ? 3000000 : 300);
		Plan plan;
		plan.kind = src.pick({Plan::UNKNOWN, Plan::KNOWN});
		plan.type = "a/b";
		plan.content = src.bulk(Src::BYTES, src.chance(2, 3) ? 3000000 : 300);
		for (size_t left = plan.content.size(); left && src.chance(2, 3);) { plan.pieces.push_back(1 + src.raw(left - 1)); left -= plan.pieces.back(); }
		biggest = std::max({biggest, plan.content.size(), r.body.size()});
		recorder.plans.push_back(plan);
		stream += (r.isGet ? "GET " : "POST ") + r.path + " HTTP/1.1\r\n" + (r.body.empty() && r.isGet ? "" : "Content-Length: " + std::to_string(r.body.size()) + "\r\n") + "\r\n" + r.body;
		src.note(std::string(r.isGet ? "GET" : "POST") + " with a path of " + std::to_string(r.path.size()) + " and a body of " + std::to_string(r.body.size()) + " bytes, response "
				+ (plan.kind == Plan::KNOWN ? "of known size " : "of unknown size ") + std::to_string(plan.content.size()));
		requests.push_back(std::move(r));
	}
	Bomba::HttpServer<> server(recorder, recorder);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	size_t most = std::max<size_t>(largestSegment(src, stream.size()), stream.size() / 20 + 1);
	for (size_t at = 0; at < stream.size();) {
		size_t size = std::min(most, std::max(stream.size() / 40, segment(src, stream.size() - at)));
		feeder.receive(std::string_view(stream).substr(at, size));
		at += size;
	}
	require(!feeder.disconnected, "the server disconnected");
	require(feeder.pending.empty(), "the server did not process everything");
	requireEqual(requests.size(), recorder.calls.size(), "number of calls");
	std::vector<Message> responses = parseAll(feeder.output, true);
	requireEqual(requests.size(), responses.size(), "number of responses");
	for (size_t i = 0; i < requests.size(); i++) {
		require(requests[i].isGet == recorder.calls[i].isGet && requests[i].path == recorder.calls[i].path, "wrong path");
		if (!requests[i].isGet) require(requests[i].body == recorder.calls[i].body, "wrong body of a request");
		requireEqual(200, responses[i].status, "status");
		requireEqual(recorder.plans[i].content.size(), responses[i].body.size(), "size of a response");
		require(recorder.plans[i].content == responses[i].body, "wrong body of a response");
	}
	src.labelIf(biggest >= 100000, "over 100 kB"); src.labelIf(biggest >= 1000000, "over 1 MB");
	src.nontrivial = biggest > 1000;
}

static std::string damage(Src& src, std::string input, int most) {
	for (int i = int(src.raw(most)); i > 0 && !input.empty(); i--) {
		size_t at = src.raw(input.size() - 1);
		size_t line = input.find("\r\n", at);
		switch (src.raw(10)) {
			case 10: // Another version
				if (size_t version = input.find("HTTP/1.1"); version != input.npos) {
					input.replace(version, 8, src.pick({"HTTP/1.11", "HTTP/1.0x", "HTTP/1.2", "HTTP/1.", "HTTP/2.0", "HTTP/0.9", "http/1.1", "HTTP/1,1", "XHTTP/1.1", "HTTP/1.1 x", "HTTP/1.1\t", "HTTP/1.01", "HTTP/1.1\r", "HTTP", "", "HTTP/1.1/1.1"}));
				}
				break;
			case 0: input[at] = src.pick({'\r', '\n', ' ', ':', '\0', '\t', '/', '0', '\xff'}); break;
			case 1: input.resize(at); break;
			case 2: input.erase(at, 1 + src.raw(4)); break;
			case 3: input.insert(at, src.pick({"\r\n", "\r\n\r\n", " ", ":", "\r", "\n", "Content-Length: 3\r\n", "HTTP/1.1", "GET / HTTP/1.1\r\n\r\n"})); break;
			case 4: input[at] = char(src.raw(255)); break;
			case 5: if (line != input.npos) input.erase(line, 2); break;
			case 6: if (line != input.npos) input.insert(line + 2, "Content-Length: " + std::string(src.pick({"-1", "5x", "99999999999999999999", "2147483647", "4294967297", "", "1 2", "0x10", "+3", "3, 3", "2147483648"})) + "\r\n"); break;
			case 7: if (line != input.npos) input.insert(line + 2, noiseHeader(src)); break;
			case 8: input.insert(at, src.text(Src::BYTES, 40)); break;
			default: input += input.substr(at, 1 + src.raw(100)); break;
		}
	}
	return input;
}

// C14: arbitrary input doesn't cause undefined behaviour, invalid responses and its division has no effect
static void hostile(Src& src) {
	std::string stream;
	for (int i = int(src.range(1, 3)); i > 0; i--) {
		std::string body = src.text(Src::BYTES, 40);
		switch (src.raw(3)) {
			case 0: stream += "GET " + randomPath(src) + " HTTP/1.1\r\nHost: a\r\n\r\n"; break;
			case 1: stream += "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\nContent-Type: a/b\r\n\r\n" + body; break;
			case 2: stream += "GET / HTTP/1.1\r\nAccept-Language:\r\nConnection: close\r\n\r\n"; break;
			default: stream += src.text(Src::BYTES, 60) + "\r\n\r\n"; break;
		}
	}
	stream = damage(src, stream, 5);
	src.note(printable(stream, 1000));
	Recorder whole, divided;
	whole.fallback = divided.fallback = randomPlan(src);
	Bomba::HttpServer<> server1(whole, whole), server2(divided, divided);
	auto session1 = server1.getSession();
	auto session2 = server2.getSession();
	Feeder feeder1(reinterpret_cast<Bomba::ITcpResponder&>(session1)), feeder2(reinterpret_cast<Bomba::ITcpResponder&>(session2));
	feeder1.receive(stream);
	size_t most = largestSegment(src, stream.size());
	for (size_t at = 0; at < stream.size() && !feeder2.disconnected;) {
		size_t size = std::min(most, segment(src, stream.size() - at));
		feeder2.receive(std::string_view(stream).substr(at, size));
		at += size;
	}
	std::vector<Message> responses = parseAll(feeder1.output, true);
	require(responses.size() <= feeder1.consumedSizes.size() + 1, "more responses than requests");
	for (auto& c : whole.calls) {
		std::string line = (c.isGet ? "GET " : "POST ") + c.path + " HTTP/1.";
		require(stream.find(line + "0\r\n") != stream.npos || stream.find(line + "1\r\n") != stream.npos, "a responder was called without a valid request line");
		if (c.path.find_first_of(" \r\n") != c.path.npos && c.path.find_first_of(" ") != c.path.npos) fail("path with a space");
	}
	requireEqual(feeder1.disconnected, feeder2.disconnected, "disconnection if the same data came divided");
	requireEqual(feeder1.output, feeder2.output, "output if the same data came divided");
	requireEqual(whole.calls.size(), divided.calls.size(), "number of calls if the same data came divided");
	for (size_t i = 0; i < whole.calls.size(); i++) {
		requireEqual(whole.calls[i].path, divided.calls[i].path, "path if the same data came divided");
		requireEqual(whole.calls[i].type, divided.calls[i].type, "type if the same data came divided");
		requireEqual(whole.calls[i].body, divided.calls[i].body, "body if the same data came divided");
	}
	src.labelIf(feeder1.disconnected, "disconnected"); src.labelIf(!responses.empty(), "responded"); src.labelIf(!feeder1.pending.empty() && !feeder1.disconnected, "waiting");
	src.nontrivial = stream.size() > 20;
}

// C15: requests are correct and responses are assigned to their requests
static void client(Src& src) {
	struct Expected { Bomba::RequestToken token; bool success; std::string body; size_t end; bool done; };
	std::vector<Expected> expected;
	ClientConnection connection(src);
	Bomba::HttpClient<> client(connection, "example.com");
	Bomba::IRpcResponder& polling = client;
	int count = int(src.range(1, 8));
	size_t next = 0;
	auto makeRequest = [&] {
		connection.written.clear();
		Expected e;
		e.done = false;
		std::string path = randomPath(src);
		if (src.coin()) {
			e.token = client.get(path);
			size_t pos = 0;
			Message m = parse(connection.written, pos, false);
			requireEqual(connection.written.size(), pos, "size of the request");
			requireEqual("GET", m.method, "method"); requireEqual(path, m.path, "path"); requireEqual(std::string(), m.body, "body");
			require(m.header("host") && *m.header("host") == "example.com", "wrong host");
		} else {
			std::string body = src.text(Src::BYTES, src.chance(1, 6) ? 9000 : 200), type = src.pick({"text/plain", "application/json"});
			e.token = client.post(type, [&] (auto& output, Bomba::RequestToken) { output += std::string_view(body); }, path);
			size_t pos = 0;
			Message m = parse(connection.written, pos, false);
			requireEqual(connection.written.size(), pos, "size of the request");
			requireEqual("POST", m.method, "method"); requireEqual(path, m.path, "path"); requireEqual(body, m.body, "body");
			require(m.header("host") && *m.header("host") == "example.com", "wrong host");
			require(m.header("content-type") && *m.header("content-type") == type, "wrong content type");
		}
		for (auto& other : expected) require(!(other.token == e.token), "a token was reused");
		int status = src.pick({200, 200, 200, 201, 204, 299, 300, 301, 400, 404, 500, 503, 199});
		std::vector<std::string> headers;
		e.success = status / 100 == 2;
		bool hasLength = status != 204 || src.coin();
		if (hasLength && status != 204) e.body = src.text(Src::BYTES, src.chance(1, 6) ? 9000 : 200);
		if (hasLength) headers.push_back(randomCase(src, "Content-Length") + colon(src) + std::to_string(e.body.size()) + std::string(src.raw(3) == 3 ? 3 : 0, ' ') + "\r\n");
		if (src.coin()) headers.push_back("Content-Type: text/html\r\n");
		for (int j = int(src.raw(3)); j > 0; j--) headers.push_back(noiseHeader(src));
		src.shuffle(headers);
		std::string response = src.pick({"HTTP/1.1 ", "HTTP/1.0 "}) + std::to_string(status) + src.pick({" OK", " Something Not Found", " ", ""}) + "\r\n";
		for (auto& h : headers) response += h;
		response += "\r\n" + e.body;
		src.note("request " + std::to_string(expected.size()) + ", response " + printable(response));
		connection.inbound += response;
		e.end = connection.inbound.size();
		expected.push_back(e);
	};
	auto read = [&] (size_t i) {
		Expected& e = expected[i];
		src.note("read " + std::to_string(i));
		int called = 0;
		client.getResponse(e.token, [&] (std::span<char> message, bool success) {
			called++;
			requireEqual(e.body, std::string(message.data(), message.size()), "body of a response");
			requireEqual(e.success, success, "success of a response");
			return true;
		});
		requireEqual(1, called, "number of calls of the reader");
		e.done = true;
	};
	for (int i = 0; i < count * 3; i++) {
		switch (src.raw(4)) {
			case 0: makeRequest(); break;
			case 1: connection.arrive(); break;
			case 2: case 3: {
				if (expected.empty()) break;
				size_t at = src.raw(expected.size() - 1);
				bool ready = polling.hasResponse(expected[at].token);
				if (!expected[at].done) {
					bool should = expected[at].end <= connection.arrived;
					src.note("check " + std::to_string(at));
					if (ready != should) fail(should ? "a response that arrived is not noticed" : "a response is claimed to be ready before it arrives");
				}
				break;
			}
			default:
				if (!expected.empty()) { size_t at = src.raw(expected.size() - 1); if (!expected[at].done) read(at); }
		}
	}
	std::vector<size_t> order;
	for (size_t i = 0; i < expected.size(); i++) if (!expected[i].done) order.push_back(i);
	src.shuffle(order);
	for (size_t i : order) read(i);
	requireEqual(connection.inbound.size(), connection.consumed, "consumed size");
	src.nontrivial = expected.size() > 1;
}

// C15: large requests and responses
static void largeClient(Src& src) {
	ClientConnection connection(src);
	Bomba::HttpClient<> client(connection, "example.com");
	struct Expected { Bomba::RequestToken token; std::string body; };
	std::vector<Expected> expected;
	size_t biggest = 0;
	for (int i = int(src.range(1, 4)); i > 0; i--) {
		std::string path = "/" + (src.chance(1, 6) ? src.bulk(Src::IDENT, 100000) : std::string("x")), body;
		Expected e;
		connection.written.clear();
		if (src.chance(1, 3)) e.token = client.get(path);
		else {
			body = src.bulk(Src::BYTES, src.coin() ? 3000000 : 300);
			e.token = client.post("a/b", [&] (auto& output, Bomba::RequestToken) { output += std::string_view(body); }, path);
		}
		size_t pos = 0;
		Message m = parse(connection.written, pos, false);
		requireEqual(connection.written.size(), pos, "size of the request");
		requireEqual(path, m.path, "path");
		requireEqual(body.size(), m.body.size(), "size of the body");
		require(body == m.body, "wrong body of the request");
		e.body = src.bulk(Src::BYTES, src.coin() ? 3000000 : 300);
		biggest = std::max({biggest, body.size(), e.body.size()});
		src.note("request with a body of " + std::to_string(body.size()) + " bytes, response of " + std::to_string(e.body.size()));
		connection.inbound += "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(e.body.size()) + "\r\n\r\n" + e.body;
		expected.push_back(std::move(e));
	}
	src.shuffle(expected);
	for (auto& e : expected) {
		int called = 0;
		client.getResponse(e.token, [&] (std::span<char> message, bool success) {
			called++;
			require(success, "a correct response is reported as failure");
			requireEqual(e.body.size(), message.size(), "size of a response");
			require(e.body == std::string_view(message.data(), message.size()), "wrong body of a response");
			return true;
		});
		requireEqual(1, called, "number of calls of the reader");
	}
	requireEqual(connection.inbound.size(), connection.consumed, "consumed size");
	src.labelIf(biggest >= 100000, "over 100 kB"); src.labelIf(biggest >= 1000000, "over 1 MB");
	src.nontrivial = biggest > 1000;
}

// C15: malformed responses are refused, not misinterpreted and don't cause waiting if they are complete
static void badResponses(Src& src) {
	ClientConnection connection(src);
	std::string good = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Type: a/b\r\n\r\nhello";
	bool certain = src.coin(); // surely wrong
	std::string bad;
	if (certain) bad = src.pick({"HTTP/1.1\r\n\r\n", "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5x\r\n\r\nhello",
			"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999\r\n\r\nhello", "\r\n\r\n", "HTTP/1.1 200 OK\r\nNo value\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 4\r\n\r\nhello", "nonsense\r\nis here\r\n\r\n",
			"HTTP/1.1 2x0 OK\r\nContent-Length: 5\r\n\r\nhello", "HTTP/1.1 200 OK\r\nContent-Length: \r\n\r\nhello"});
	else bad = damage(src, good, 4);
	connection.inbound = bad;
	src.note(printable(bad));
	Bomba::HttpClient<> client(connection, "example.com");
	Bomba::RequestToken token = client.get("/");
	Bomba::IRpcResponder& polling = client;
	bool called = false, succeeded = false;
	try {
		if (src.coin()) {
			connection.arrive();
			bool ready = polling.hasResponse(token);
			if (certain && connection.arrived == bad.size()) require(ready, "a response that is surely wrong is not available");
		}
		client.getResponse(token, [&] (std::span<char> message, bool success) {
			called = true;
			succeeded = success;
			std::string copied(message.data(), message.size()); // must be accessible
			if (success && copied.size() > bad.size()) fail("body larger than the input");
			return true;
		});
		require(called, "a malformed response was neither reported nor given");
	} catch (Bomba::RemoteError&) {
		require(!called, "error after the response was given");
		src.label("refused");
	} catch (NoMoreData&) {
		require(!certain, "waiting for more though the response is surely wrong");
		src.label("waiting");
	}
	if (certain) require(!called, "a malformed response was accepted");
	src.labelIf(succeeded, "accepted");
	src.nontrivial = true;
}

#ifdef C13
PBT_MAIN({"framing", framing, 120000, 1500000}, {"late_failures", lateFailures, 60000, 1500000}, {"simple", simple, 30000, 500000}, {"large", large, 600, 10000})
#elif defined(C14)
PBT_MAIN({"hostile", hostile, 300000, 4000000})
#elif defined(C15)
PBT_MAIN({"client", client, 200000, 2000000}, {"bad_responses", badResponses, 150000, 2000000}, {"large", largeClient, 600, 10000})
#endif
