// Custom string types and buffers in place of the default ones, and the absence of dynamic allocation with them
#include "types.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_json_wsp_description.hpp"
#include "bomba_dynamic_object.hpp"
using namespace pbt;
using namespace Bomba;
using model::Value;
using model::JsonStyle;

static thread_local int64_t allocations = 0;
static void* allocate(size_t size) {
	allocations++;
	void* got = malloc(size ? size : 1);
	if (!got) throw std::bad_alloc();
	return got;
}
void* operator new(size_t size) { return allocate(size); }
void* operator new[](size_t size) { return allocate(size); }
void* operator new(size_t size, const std::nothrow_t&) noexcept { allocations++; return malloc(size ? size : 1); }
void* operator new[](size_t size, const std::nothrow_t&) noexcept { allocations++; return malloc(size ? size : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Overflow : std::exception { const char* what() const noexcept override { return "the capacity of the custom string was exceeded"; } };

// Exactly what the documentation asks for (and assignment, as it's used for members too)
template <int Capacity>
class Inline {
	char _data[Capacity];
	int _used = 0;
public:
	Inline() = default;
	Inline(const Inline& other) { *this += std::string_view(other); }
	Inline& operator=(const Inline& other) { if (this != &other) { _used = 0; *this += std::string_view(other); } return *this; }
	operator std::string_view() const { return {_data, size_t(_used)}; }
	void clear() { memset(_data, '?', _used); _used = 0; }
	Inline& operator+=(char c) {
		if (_used == Capacity) throw Overflow();
		_data[_used++] = c;
		return *this;
	}
	Inline& operator+=(const char* added) { return *this += std::string_view(added); }
	Inline& operator+=(std::string_view added) {
		if (added.size() > size_t(Capacity - _used)) throw Overflow();
		memcpy(_data + _used, added.data(), added.size());
		_used += int(added.size());
		return *this;
	}
	Inline& operator=(std::string_view from) {
		Inline copy; // from could be a part of this
		copy += from;
		return *this = copy;
	}
	bool operator==(const Inline& other) const { return std::string_view(*this) == std::string_view(other); }
};
using Large = Inline<100000>;
using Medium = Inline<5000>;
using Text = Inline<4000>; // In arguments and in results

template <typename T> std::string str(const T& from) { return std::string(std::string_view(from)); }

// ---- Serialisation

template <typename Format, typename T, typename Buffer>
std::string through(T& from) {
	auto buffer = std::make_unique<Buffer>();
	from.template serialise<Format>(static_cast<GeneralisedBuffer&>(*buffer));
	return str(*buffer);
}

static void serialisation(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from, reference, custom;
		model::GenOptions options;
		options.maxText = 300;
		options.maxItems = 5;
		model::generate(src, from, options);
		if (src.coin()) { T used; model::generate(src, used, options); auto text = used.template serialise<BasicJson<>>(); reference.template deserialise<BasicJson<>>(text); custom.template deserialise<BasicJson<>>(text); }
		std::string expected = from.template serialise<BasicJson<>>();
		if (expected.size() > 90000) throw Discard{};
		src.note(std::string(name) + " " + expected);
		auto compare = [&] (std::string_view got, const char* what) { requireEqual(expected, std::string(got), what); };
		switch (src.raw(5)) {
			case 0: { auto text = std::make_unique<Large>(); from.template serialise<BasicJson<Large>>(*text); compare(*text, "JSON in the custom string"); break; }
			case 1: { std::string text; from.template serialise<BasicJson<Large, std::string>>(text); compare(text, "JSON in std::string, with custom auxiliary strings"); break; }
			case 2: compare((through<BasicJson<Large, GeneralisedBuffer>, T, ExpandingBuffer<>>(from)), "JSON in ExpandingBuffer"); break;
			case 3: compare((through<BasicJson<Large, GeneralisedBuffer>, T, ExpandingBuffer<50, std::vector<char>>>(from)), "JSON in ExpandingBuffer using std::vector"); break;
			case 4: compare((through<BasicJson<std::string, GeneralisedBuffer>, T, NonExpandingBuffer<100000>>(from)), "JSON in NonExpandingBuffer"); break;
			default: {
				std::string got = through<BasicJson<std::string, GeneralisedBuffer>, T, NonExpandingBuffer<200>>(from);
				requireEqual(expected.substr(0, 200), got, "JSON cut at the size of the buffer");
			}
		}
		// An equivalent text in a different style, so that strings need unescaping
		model::Value value = model::toValue(from);
		JsonStyle style(src);
		std::string styled = src.coin() ? style.text(value) : expected;
		transport::Exact one(styled), two(styled);
		bool good = reference.template deserialise<BasicJson<>>(one.view());
		bool customGood = custom.template deserialise<BasicJson<Large>>(two.view());
		requireEqual(good, customGood, "result of reading");
		requireEqual(std::string(), Value::diff(model::toValue(reference), model::toValue(custom)), "object read using the custom string type from " + styled);

		std::string binary;
		bool fits = true;
		try { from.template serialise<BinaryFormat<std::string, uint32_t>>(binary); } catch (std::logic_error&) { fits = false; }
		if (fits) {
			auto text = std::make_unique<Large>();
			from.template serialise<BinaryFormat<Large, uint32_t>>(*text);
			requireEqual(binary, str(*text), "binary form in the custom string");
			requireEqual(binary, (through<BinaryFormat<GeneralisedBuffer, uint32_t>, T, ExpandingBuffer<30, std::vector<char>>>(from)), "binary form in a buffer");
		}
		src.label(name);
		src.nontrivial = expected.size() > 40;
	});
}

// ---- Remote calls

#define API(NAME, STRING, POINT) \
struct POINT : Serialisable<POINT> { \
	int x = key<"x">; \
	STRING name = key<"name">; \
	bool flag = key<"flag">; \
	std::array<double, 2> reals = key<"reals">; \
}; \
struct NAME : RpcObject<NAME> { \
	int64_t total = 0; \
	STRING last; \
	RpcMember<[] (STRING text = name("text")) { return text; }> echo = child<"echo">; \
	RpcMember<[] (NAME* parent, int64_t added = name("added")) { return parent->total += added; }> add = child<"add">; \
	RpcMember<[] (NAME* parent, STRING text = name("text"), bool also_add = name("also_add")) { \
		parent->last = text; \
		if (also_add) parent->total++; \
	}> note = child<"note">; \
	RpcMember<[] (NAME* parent) { return parent->last; }> get = child<"get">; \
	RpcMember<[] (std::array<int, 3> values = name("values"), double factor = name("factor")) { return (int64_t(values[0]) - values[1] + values[2]) * factor; }> mix = child<"mix">; \
	RpcMember<[] (POINT point = name("point"), int by = name("by")) { point.x = int(unsigned(point.x) + unsigned(by)); point.flag = !point.flag; return point; }> shift = child<"shift">; \
	RpcMember<[] (STRING text = name("text"), int times = name("times")) { STRING r; for (int i = 0; i < times && std::string_view(r).size() < 1000; i++) r += std::string_view(text); return r; }> repeat = child<"repeat">; \
	RpcMember<[] (NAME* parent, STRING text = name("text")) { parent->total += 3; if (!std::string_view(text).empty()) throw std::runtime_error(std::string(std::string_view(text))); }> fail = child<"fail">; \
};
API(StdApi, std::string, StdPoint)
API(InlineApi, Text, InlinePoint)

template <typename String, typename Api>
struct Everything { // Nested objects, so that there are paths to assemble
	Api direct, nested;
	DynamicRpcObject root;
	Everything() {
		root.add("direct", RpcLambdaHolder::nonOwning(direct));
		DynamicRpcObject sub;
		sub.add("nested", RpcLambdaHolder::nonOwning(nested));
		root.add("sub", std::move(sub));
	}
	std::string state() { return std::to_string(direct.total) + " " + str(direct.last) + " " + std::to_string(nested.total) + " " + str(nested.last); }
};

struct Call {
	bool deep = false;
	int method = 0;
	std::string text;
	int64_t number = 0;
	bool flag = false;
	bool async = false; // The result is obtained through Future
	std::array<int, 3> values{};
	double factor = 0;
	const char* name() const { return std::array{"echo", "add", "note", "get", "mix", "shift", "repeat", "fail"}[method]; }
	std::string show() const { return std::string(deep ? "deep " : "") + name() + " " + printable(text) + " " + std::to_string(number) + (flag ? " true" : " false"); }

	// Futures need a client
	static Call make(Src& src, bool failing, size_t maxText = 300) {
		Call c;
		c.deep = src.chance(1, 3);
		c.method = int(src.raw(failing ? 7 : 6));
		c.text = src.text(src.coin() ? Src::UTF8 : Src::ASCII, maxText);
		if (c.text.size() > 950) c.text.resize(0);
		c.number = c.method == 1 ? src.range(-1000000, 1000000) : c.method == 6 ? int64_t(src.raw(900 / std::max<size_t>(c.text.size(), 10))) : src.range(INT32_MIN, INT32_MAX);
		c.flag = src.coin();
		for (int& i : c.values) i = int(src.integer(INT32_MIN, INT32_MAX));
		c.factor = double(src.range(-1000, 1000)) / 4;
		return c;
	}
	Value params() const {
		Value v = Value::object(true);
		auto arg = [&] (const char* name, const auto& a) { v.members.emplace_back(name, model::toValue(a)); };
		switch (method) {
			case 0: arg("text", text); break;
			case 1: arg("added", number); break;
			case 2: arg("text", text); arg("also_add", flag); break;
			case 3: break;
			case 4: arg("values", values); arg("factor", factor); break;
			case 5: {
				Value p = Value::object(false);
				p.members.emplace_back("x", model::toValue(number)); p.members.emplace_back("name", model::toValue(text)); p.members.emplace_back("flag", model::toValue(flag));
				p.members.emplace_back("reals", model::toValue(std::array<double, 2>{factor, factor / 2}));
				v.members.emplace_back("point", p); arg("by", int(values[0])); break;
			}
			case 6: arg("text", text); arg("times", number); break;
			default: arg("text", text); break;
		}
		return v;
	}
	// Called locally or through a client
	template <typename String, typename Point, typename Api>
	void perform(Api& api, String& result) const {
		String arg;
		arg = std::string_view(text);
		std::array<char, 500> line;
		auto number = [&] (auto v) { result += std::string_view(line.data(), std::to_chars(line.data(), line.data() + line.size(), v).ptr - line.data()); };
		switch (method) {
			case 0:
				if (async) {
					auto future = api.echo.async(arg);
					result += std::string_view(future.get());
				} else result += std::string_view(api.echo(arg));
				break;
			case 1:
				if (async) {
					auto future = api.add.async(this->number);
					number(int64_t(future.get()));
				} else number(int64_t(api.add(this->number)));
				break;
			case 2:
				if (async) {
					auto future = api.note.async(arg, flag);
					future.get();
				} else api.note(arg, flag);
				break;
			case 3: result += std::string_view(api.get()); break;
			case 4: number(double(api.mix(values, factor))); break;
			case 5: {
				Point p;
				p.x = int(this->number); p.name = arg; p.flag = flag; p.reals = {factor, factor / 2};
				Point got = api.shift(p, values[0]);
				number(got.x); result += ' '; result += std::string_view(got.name); result += got.flag ? " 1 " : " 0 "; number(got.reals[0]); result += ' '; number(got.reals[1]);
				break;
			}
			case 6: result += std::string_view(api.repeat(arg, int(this->number))); break;
			default: api.fail(arg);
		}
	}
};

template <typename Session> ITcpResponder& responder(Session& session) { return reinterpret_cast<ITcpResponder&>(session); }

// A request to any of the servers
enum Protocol { JSON_RPC, FORM, BINARY };

static std::string formEncode(std::string_view from) {
	std::string made;
	for (unsigned char c : from) {
		char coded[4];
		snprintf(coded, 4, "%%%02x", c);
		if (isalnum(c)) made += char(c); else made += coded;
	}
	return made;
}

static std::string request(Src& src, Protocol protocol, uint32_t id, std::string& log) {
	Call c = Call::make(src, protocol != BINARY);
	log += c.show() + "\n";
	if (protocol == JSON_RPC) {
		Value v = Value::object(false);
		v.members.emplace_back("jsonrpc", Value::str("2.0"));
		if (!src.chance(1, 8)) v.members.emplace_back("id", src.coin() ? Value::integer(id) : Value::str(src.text(Src::UTF8, 30)));
		v.members.emplace_back("method", Value::str(src.chance(1, 10) ? src.text(Src::ASCII, 20) : std::string(c.deep ? "sub.nested." : "direct.") + c.name()));
		v.members.emplace_back("params", c.params());
		if (src.chance(1, 3)) src.shuffle(v.members);
		JsonStyle style(src, src.coin());
		std::string body = style.text(v);
		if (src.chance(1, 6)) body = '[' + body + (src.coin() ? "," + body : "") + ']';
		if (src.chance(1, 6)) { // Also wrong ones
			if (src.coin()) body.resize(src.raw(body.size()));
			else body[src.raw(body.size() - 1)] = src.pick({'"', '{', ']', ',', ':', '\\', '0', 'x'});
		}
		return "POST / HTTP/1.1\r\nContent-Type: application/json\r\n" + (src.chance(1, 5) ? refhttp::noiseHeader(src) : "") + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
	} else if (protocol == FORM) {
		std::string path = src.chance(1, 12) ? "/nonexistent" : std::string(c.deep ? "/sub/nested/" : "/direct/") + c.name();
		std::string body;
		auto arg = [&] (const char* name, std::string_view value) { body += (body.empty() ? "" : "&") + std::string(name) + "=" + formEncode(value); };
		switch (c.method) {
			case 0: case 7: arg("text", c.text); break;
			case 1: arg("added", std::to_string(c.number)); break;
			case 2: arg("text", c.text); if (c.flag) arg("also_add", "true"); break;
			case 6: arg("times", std::to_string(c.number)); arg("text", c.text); break;
			default: break;
		}
		if (src.coin()) return "GET " + path + "?" + body + " HTTP/1.1\r\n\r\n";
		return "POST " + path + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
	} else {
		std::string body;
		auto number = [&] (auto v) { char bytes[sizeof(v)]; memcpy(bytes, &v, sizeof(v)); body.append(bytes, sizeof(v)); };
		auto text = [&] { number(uint16_t(c.text.size())); body += c.text; };
		number(id); number(uint16_t(0));
		if (c.deep) { number(uint8_t(1)); number(uint8_t(0)); } else number(uint8_t(0));
		number(uint8_t(c.method));
		switch (c.method) {
			case 0: case 7: text(); break;
			case 1: number(c.number); break;
			case 2: text(); number(uint8_t(c.flag)); break;
			case 4: for (int i : c.values) number(i); number(c.factor); break;
			case 5: number(int(c.number)); text(); number(uint8_t(c.flag)); number(c.factor); number(c.factor / 2); number(int(c.values[0])); break;
			case 6: text(); number(int(c.number)); break;
			default: break;
		}
		uint16_t size = uint16_t(body.size());
		memcpy(&body[4], &size, 2);
		return body;
	}
}

// Servers with the given strings and buffers
template <typename String, typename Buffer, typename Api>
struct Servers {
	Everything<String, Api> callable;
	DummyGetResponder noFiles;
	JsonRpcServer<String, Buffer> json{callable.root};
	RpcGetResponder<String> get{noFiles, callable.root};
	HtmlPostResponder<String> post{callable.root};
	HttpServer<Buffer> http{get, post};
	BinaryProtocolServer<uint16_t, Buffer> binary{callable.root};
	std::optional<decltype(json.getSession())> jsonSession;
	std::optional<decltype(http.getSession())> httpSession;
	std::optional<decltype(binary.getSession())> binarySession;

	ITcpResponder& start(Protocol protocol) {
		if (protocol == JSON_RPC) return responder(jsonSession.emplace(json.getSession()));
		if (protocol == FORM) return responder(httpSession.emplace(http.getSession()));
		return responder(binarySession.emplace(binary.getSession()));
	}
};
template <typename Buffer> using StdServers = Servers<std::string, Buffer, StdApi>;
template <typename Buffer> using InlineServers = Servers<Medium, Buffer, InlineApi>;



struct Traffic {
	Protocol protocol;
	std::vector<std::string> segments;
	std::vector<std::string> requests;
	Traffic(Src& src, int most) {
		protocol = Protocol(src.raw(2));
		std::string stream, log;
		for (int count = int(src.range(1, most)), i = 0; i < count; i++) {
			requests.push_back(request(src, protocol, uint32_t(i), log));
			stream += requests.back();
		}
		src.note(std::array{"JSON-RPC", "form", "binary"}[protocol] + std::string(":\n") + log + stream);
		src.label(std::array{"JSON-RPC", "form", "binary"}[protocol]);
		size_t most2 = transport::largestSegment(src, stream.size());
		for (size_t at = 0; at < stream.size(); ) {
			size_t size = std::min(most2, transport::segment(src, stream.size() - at));
			segments.push_back(stream.substr(at, size));
			at += size;
		}
	}
};
struct Outcome {
	std::string output, state;
	std::vector<size_t> ends;
	bool disconnected;
};
template <typename S>
Outcome serve(Traffic& traffic) {
	auto servers = std::make_unique<S>();
	transport::Feeder feeder(servers->start(traffic.protocol));
	for (auto& it : traffic.segments) if (!feeder.disconnected) feeder.receive(it);
	return {feeder.output, servers->callable.state(), feeder.responseEnds, feeder.disconnected};
}

static void servers(Src& src) {
	Traffic traffic(src, 6);
	Outcome expected = serve<StdServers<ExpandingBuffer<>>>(traffic);
	Outcome got;
	int which = int(src.raw(5));
	switch (which) {
		case 0: got = serve<InlineServers<NonExpandingBuffer<16384>>>(traffic); break;
		case 1: got = serve<InlineServers<ExpandingBuffer<64>>>(traffic); break;
		case 2: got = serve<StdServers<ExpandingBuffer<100, std::vector<char>>>>(traffic); break;
		case 3: got = serve<InlineServers<ExpandingBuffer<4096, std::vector<char>>>>(traffic); break;
		case 4: got = serve<StdServers<NonExpandingBuffer<16384>>>(traffic); break;
		default: got = serve<InlineServers<ExpandingBuffer<>>>(traffic); break;
	}
	src.label(std::array{"custom string, fixed buffer", "custom string, expanding buffer", "std::string, vector in buffer", "custom string, vector in buffer", "std::string, fixed buffer", "custom string, default buffer"}[which]);
	requireEqual(printable(expected.output, 5000), printable(got.output, 5000), "responses with different strings and buffers");
	requireEqual(expected.output.size(), got.output.size(), "size of responses with different strings and buffers");
	require(expected.output == got.output, "the responses are different");
	require(expected.ends == got.ends, "the responses came at different times");
	requireEqual(expected.disconnected, got.disconnected, "disconnected");
	requireEqual(expected.state, got.state, "state after the calls");
	src.nontrivial = expected.output.size() > 60;
}

// Responses too large for a fixed size buffer are cut, but the stream of responses stays readable
template <int Size>
void cutTo(Src& src) {
	Traffic traffic(src, 4);
	Outcome expected = serve<StdServers<ExpandingBuffer<>>>(traffic);
	Outcome got = serve<InlineServers<NonExpandingBuffer<Size>>>(traffic);
	requireEqual(expected.state, got.state, "state after the calls");
	require(expected.ends.size() == got.ends.size(), "a different number of responses");
	requireEqual(expected.disconnected, got.disconnected, "disconnected");
	int cuts = 0;
	size_t expectedAt = 0, gotAt = 0;
	for (size_t i = 0; i < expected.ends.size(); i++) {
		std::string full = expected.output.substr(expectedAt, expected.ends[i] - expectedAt), cut = got.output.substr(gotAt, got.ends[i] - gotAt);
		expectedAt = expected.ends[i];
		gotAt = got.ends[i];
		if (traffic.protocol == BINARY) {
			requireEqual(std::min<size_t>(full.size(), Size), cut.size(), "size of the response");
			uint16_t size = 0;
			memcpy(&size, &cut[4], 2);
			requireEqual(cut.size(), size_t(size), "size in the response");
			require(cut.substr(0, 4) == full.substr(0, 4) && cut.substr(6) == full.substr(6, cut.size() - 6), "the response is not a beginning of the whole one");
		} else {
			size_t fullPosition = 0, cutPosition = 0;
			refhttp::Message fullMessage = refhttp::parse(full, fullPosition, true), cutMessage = refhttp::parse(cut, cutPosition, true);
			requireEqual(cut.size(), cutPosition, "end of the response according to its content length");
			requireEqual(fullMessage.firstLine, cutMessage.firstLine, "status");
			bool buffered = fullMessage.header("content-type"); // Errors are constant
			if (buffered) requireEqual(std::min<size_t>(full.size(), Size), cut.size(), "size of the response");
			requireEqual(fullMessage.body.substr(0, cutMessage.body.size()), cutMessage.body, "beginning of the response");
			if (!buffered) requireEqual(full, cut, "a short response");
		}
		if (full.size() > cut.size()) cuts++;
	}
	src.labelIf(cuts > 0, "cut");
	src.nontrivial = cuts > 0;
}
static void cut(Src& src) {
	switch (src.raw(4)) {
		case 0: return cutTo<128>(src);
		case 1: return cutTo<150>(src);
		case 2: return cutTo<200>(src);
		case 3: return cutTo<257>(src);
		default: return cutTo<600>(src);
	}
}

// ---- Clients

template <typename String, typename Buffer, typename Api>
struct Clients {
	Everything<String, Api> callable;
	std::optional<JsonRpcClient<String, Buffer>> json;
	std::optional<HttpClient<String, Buffer>> http;
	std::optional<BinaryProtocolClient<uint16_t, Buffer>> binary;
	void connect(Protocol protocol, ITcpClient& connection) {
		if (protocol == JSON_RPC) json.emplace(callable.root, connection, "localhost");
		else if (protocol == FORM) {
			http.emplace(connection, "localhost");
			callable.root.setResponder(*http);
		} else binary.emplace(callable.root, connection);
	}
};

struct ClientOutcome { std::string requests; std::vector<std::string> results; std::string state; };

template <typename C, typename String, typename Point>
ClientOutcome converse(Src& src, Protocol protocol, std::vector<Call>& calls) {
	ClientOutcome outcome;
	auto servers = std::make_unique<StdServers<ExpandingBuffer<>>>();
	transport::Pipe pipe(src, servers->start(protocol));
	auto clients = std::make_unique<C>();
	clients->connect(protocol, pipe);
	for (auto& call : calls) {
		String result;
		try {
			call.perform<String, Point>(call.deep ? clients->callable.nested : clients->callable.direct, result);
		} catch (RemoteError& e) {
			result += "remote error: ";
			result += std::string_view(e.what());
		}
		outcome.results.push_back(str(result));
	}
	pipe.flush();
	outcome.requests = pipe.allRequests;
	outcome.state = servers->callable.state();
	return outcome;
}
static void clients(Src& src) {
	Protocol protocol = Protocol(src.raw(2));
	std::vector<Call> calls;
	std::string log;
	for (int count = int(src.range(1, 5)); count > 0; count--) {
		Call call = Call::make(src, protocol == JSON_RPC);
		bool async = src.chance(1, 3);
		if (protocol == FORM) { // Only those returning nothing, false is represented by omission
			call.method = 2;
			call.flag = true;
		}
		call.async = async;
		calls.push_back(call);
		log += call.show() + "\n";
	}
	src.note(std::array{"JSON-RPC", "form", "binary"}[protocol] + std::string(":\n") + log);
	ClientOutcome expected = converse<Clients<std::string, ExpandingBuffer<>, StdApi>, std::string, StdPoint>(src, protocol, calls);
	Everything<std::string, StdApi> local;
	for (size_t i = 0; i < calls.size(); i++) {
		std::string result;
		try {
			Call call = calls[i];
			call.async = false;
			call.perform<std::string, StdPoint>(call.deep ? local.nested : local.direct, result);
		} catch (std::runtime_error& e) {
			result = std::string("remote error: ") + e.what();
		}
		requireEqual(result, expected.results[i], "result with the default types");
	}
	ClientOutcome got;
	int which = int(src.raw(4));
	switch (which) {
		case 0: got = converse<Clients<Medium, NonExpandingBuffer<16384>, InlineApi>, Text, InlinePoint>(src, protocol, calls); break;
		case 1: got = converse<Clients<Medium, ExpandingBuffer<64>, InlineApi>, Text, InlinePoint>(src, protocol, calls); break;
		case 2: got = converse<Clients<std::string, ExpandingBuffer<100, std::vector<char>>, StdApi>, std::string, StdPoint>(src, protocol, calls); break;
		case 3: got = converse<Clients<Medium, ExpandingBuffer<>, StdApi>, std::string, StdPoint>(src, protocol, calls); break;
		default: got = converse<Clients<std::string, NonExpandingBuffer<16384>, InlineApi>, Text, InlinePoint>(src, protocol, calls); break;
	}
	for (size_t i = 0; i < calls.size(); i++) requireEqual(expected.results[i], got.results[i], "result of call " + calls[i].show());
	requireEqual(printable(expected.requests, 5000), printable(got.requests, 5000), "requests with different strings and buffers");
	require(expected.requests == got.requests, "the requests are different");
	requireEqual(expected.state, got.state, "state of the server");
	src.label(std::array{"JSON-RPC", "form", "binary"}[protocol]);
	src.label(std::array{"custom string, fixed buffer", "custom string, expanding buffer", "std::string, vector in buffer", "custom string, default buffer", "std::string, fixed buffer"}[which]);
	src.nontrivial = expected.requests.size() > 60;
}

// ---- No dynamic allocation

template <typename String>
struct StaticConnection : ITcpClient { // Everything is kept in static memory
	ITcpResponder& session;
	String response;
	StaticConnection(ITcpResponder& session) : session(session) {}
	void writeRequest(std::span<char> written) override {
		auto [reaction, consumed] = session.respond(written, [this] (std::span<const char> output) {
			response += std::string_view(output.data(), output.size());
		});
		if (reaction != ServerReaction::OK || consumed != std::ssize(written)) fail("the server did not process a request");
	}
	void getResponse(RequestToken, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char> input, bool identified)> reader) override {
		std::string_view view = response;
		auto [reaction, token, size] = reader(std::span<char>(const_cast<char*>(view.data()), view.size()), false);
		if (reaction != ServerReaction::OK || size != std::ssize(view)) fail("the client did not process a response");
		response.clear();
	}
};
// A whole call, from the client to the server and back
static void calls(Src& src) {
	Protocol protocol = Protocol(src.raw(2));
	using Server = InlineServers<NonExpandingBuffer<8192>>;
	using Client = Clients<Medium, NonExpandingBuffer<8192>, InlineApi>;
	auto servers = std::make_unique<Server>();
	auto connection = std::make_unique<StaticConnection<Inline<10000>>>(servers->start(protocol));
	auto clients = std::make_unique<Client>();
	clients->connect(protocol, *connection);
	Everything<std::string, StdApi> local;
	size_t texts = 0;
	for (int count = int(src.range(1, 5)); count > 0; count--) {
		Call call = Call::make(src, false);
		if (protocol == FORM) {
			call.method = 2;
			call.flag = true;
		}
		src.note(call.show());
		std::string expected;
		call.perform<std::string, StdPoint>(call.deep ? local.nested : local.direct, expected);
		auto result = std::make_unique<Text>();
		call.async = src.chance(1, 3);
		int64_t before = allocations;
		call.perform<Text, InlinePoint>(call.deep ? clients->callable.nested : clients->callable.direct, *result);
		int64_t made = allocations - before;
		requireEqual(int64_t(0), made, "dynamic allocations in " + call.show());
		requireEqual(expected, str(*result), "result of " + call.show());
		texts += call.text.size();
	}
	requireEqual(local.state(), servers->callable.state(), "state of the server");
	src.label(std::array{"JSON-RPC", "form", "binary"}[protocol]);
	src.nontrivial = texts > 20;
}

struct Static : Serialisable<Static> {
	int number = key<"number"> = 4;
	Text text = key<"text">;
	std::array<Text, 2> texts = key<"texts">;
	Bomba::Optional<double> maybe = key<"maybe">;
	InlinePoint point = key<"point">;
	std::array<InlinePoint, 2> points = key<"points">;
	bool last = key<"last">;
};
static void objects(Src& src) {
	auto from = std::make_unique<Static>(), to = std::make_unique<Static>();
	auto text = [&] (Text& at) { std::string made = src.text(Src::UTF8, 200); at = std::string_view(made).substr(0, 900); };
	auto point = [&] (InlinePoint& at) { at.x = int(src.integer(INT32_MIN, INT32_MAX)); text(at.name); at.flag = src.coin(); at.reals = {double(src.range(-100, 100)) / 8, 1e300}; };
	from->number = int(src.integer(INT32_MIN, INT32_MAX));
	text(from->text); text(from->texts[0]); text(from->texts[1]);
	if (src.coin()) from->maybe = double(src.range(-1000, 1000)) / 16;
	point(from->point); point(from->points[0]); point(from->points[1]);
	from->last = src.coin();
	auto written = std::make_unique<Large>();
	auto same = [&] (const InlinePoint& a, const InlinePoint& b) { return a.x == b.x && a.name == b.name && a.flag == b.flag && a.reals == b.reals; };
	for (int format = 0; format < 2; format++) {
		written->clear();
		int64_t before = allocations;
		if (format) from->serialise<BinaryFormat<Large>>(*written); else from->serialise<BasicJson<Medium, Large>>(*written);
		int64_t inWriting = allocations - before;
		src.note(str(*written));
		transport::Exact exact(*written);
		before = allocations;
		bool good = format ? to->deserialise<BinaryFormat<Large>>(exact.view()) : to->deserialise<BasicJson<Medium>>(exact.view());
		int64_t inReading = allocations - before;
		require(good, "reading own output failed");
		requireEqual(int64_t(0), inWriting, "dynamic allocations in serialisation");
		requireEqual(int64_t(0), inReading, "dynamic allocations in deserialisation");
		require(from->number == to->number && from->text == to->text && from->texts == to->texts && bool(from->maybe) == bool(to->maybe)
				&& (!from->maybe || *from->maybe == *to->maybe) && same(from->point, to->point) && same(from->points[0], to->points[0]) && same(from->points[1], to->points[1])
				&& from->last == to->last, "the object read is different");
	}
	src.nontrivial = std::string_view(*written).size() > 100;
}

// Description in a custom string
static void description(Src& src) {
	auto callable = std::make_unique<Everything<std::string, StdApi>>();
	std::string url = "http://" + src.text(Src::IDENT, 20), name = src.text(Src::IDENT, 20);
	src.note(url + " " + name);
	std::string expected = describeInJsonWsp<>(callable->root, url, name);
	switch (src.raw(2)) {
		case 0: { auto got = std::make_unique<Large>(describeInJsonWsp<Large>(callable->root, url, name)); requireEqual(expected, str(*got), "description in the custom string"); break; }
		case 1: { auto got = describeInJsonWsp<std::string, Medium>(callable->root, url, name); requireEqual(expected, got, "description with custom auxiliary strings"); break; }
		default: { auto got = std::make_unique<Large>(describeInJsonWsp<Large, Medium>(callable->root, url, name)); requireEqual(expected, str(*got), "description in the custom string with other auxiliary strings"); break; }
	}
	src.nontrivial = true;
}

PBT_MAIN({"serialisation", serialisation, 60000, 1000000}, {"servers", servers, 60000, 1500000}, {"cut", cut, 60000, 1500000}, {"clients", clients, 40000, 800000}, {"calls", calls, 40000, 800000},
		{"objects", objects, 20000, 300000}, {"description", description, 400, 20000})
