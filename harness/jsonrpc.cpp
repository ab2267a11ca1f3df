// The JSON-RPC server as seen by a client written by somebody else
#include "api.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_json_rpc.hpp"
using namespace pbt;
using namespace transport;
using model::Value;
using model::JsonStyle;
using model::StrictJson;

struct Expectation {
	enum Kind { NOTHING, RESULT, ERROR, ANY } kind = NOTHING;
	Value id, result;
	int code = 0;
	std::string message;
	std::string show() const {
		switch (kind) {
			case NOTHING: return "no response";
			case RESULT: return "result " + result.show(200);
			case ERROR: return "error " + std::to_string(code);
			default: return "any";
		}
	}
};
struct Request { Value value; Expectation expected; };

struct Generator {
	Src& src;
	Api &local, &deep;
	Tree& tree;
	model::GenOptions options;
	Generator(Src& src, Api& local, Api& deep, Tree& tree) : src(src), local(local), deep(deep), tree(tree) {
		options.maxText = 100;
		options.maxItems = 4;
	}
	template <typename T> T value() { T t{}; model::generate(src, t, options); return t; }

	Request make() {
		Request r;
		bool useDeep = src.chance(1, 3);
		Api& api = useDeep ? deep : local;
		std::string prefix = useDeep ? "sub.deep." : "api.";
		std::string method;
		Value params = Value::object(true);
		bool paramsOptional = false;
		Expectation& e = r.expected;
		bool notification = src.chance(1, 5);
		e.kind = Expectation::RESULT;
		auto arg = [&] (const char* name, const auto& v) { params.members.emplace_back(name, model::toValue(v)); return v; };
		auto result = [&] (const auto& v) { e.result = model::toValue(v); };
		auto error = [&] (int code, std::string message = "") { e.kind = Expectation::ERROR; e.code = code; e.message = message; };
		auto junk = [&] { JsonStyle style(src); return style.junk(1); };
		switch (src.raw(19)) {
			case 0: { method = "set"; auto key = arg("key", value<std::string>()); auto v = arg("value", value<std::string>()); api.set(key, v); e.result = Value::null(); break; }
			case 1: { method = "get"; auto key = arg("key", src.coin() && !api.store.empty() ? api.store.begin()->first : value<std::string>()); result(api.get(key)); break; }
			case 2: method = "count"; paramsOptional = true; result(api.count()); break;
			case 3: method = "nothing"; paramsOptional = true; api.nothing(); e.result = Value::null(); break;
			case 4: method = "echo_int"; result(api.echoInt(arg("value", value<int64_t>()))); break;
			case 5: { method = "weigh"; auto a = arg("a", value<int8_t>()); auto b = arg("b", value<uint16_t>()); auto c = arg("c", value<uint32_t>()); auto d = arg("d", value<int16_t>()); result(api.weigh(a, b, c, d)); break; }
			case 6: method = "echo_real"; result(api.echoReal(arg("value", value<double>()))); break;
			case 7: method = "negate"; result(api.negate(arg("value", src.coin()))); break;
			case 8: method = "echo_text"; result(api.echoText(arg("value", value<std::string>()))); break;
			case 9: { method = "echo_list"; auto l = arg("value", value<std::vector<std::string>>()); result(api.echoList(l, arg("reverse", src.coin()))); break; }
			case 10: method = "echo_map"; result(api.echoMap(arg("value", value<std::map<std::string, int>>()))); break;
			case 11: { method = "plan"; auto t = arg("value", value<Trip>()); result(api.plan(t, arg("extra", src.coin()))); break; }
			case 12: { method = "maybe"; auto t = arg("value", value<std::shared_ptr<std::string>>()); result(api.maybe(t, arg("other", value<std::string>()))); break; }
			case 13: { // some arguments missing, they have default values
				method = "combine";
				std::string second; std::vector<int> fifth;
				if (src.coin()) second = arg("second", value<std::string>());
				bool third = src.coin() ? arg("third", src.coin()) : false;
				if (src.coin()) fifth = arg("fifth", value<std::vector<int>>());
				paramsOptional = true;
				result(api.combine(0, second, third, 0, fifth));
				break;
			}
			case 14: { method = "failing"; auto m = arg("message", value<std::string>()); try { api.failing(m); } catch (std::exception& ex) { error(-32603, ex.what()); } break; }
			case 15: { // no such method
				method = src.pick({"nonexistent", "sett", "se", "", "set.x", "SET", "api", "echo_int.value", "combine "});
				error(-32601);
				break;
			}
			case 16: { // wrong types
				struct Wrong { const char* method; const char* arg; Value value; };
				static const Wrong wrong[] = {{"echo_int", "value", Value::str("text")}, {"echo_int", "value", Value::null()}, {"echo_text", "value", Value::integer(3)},
						{"echo_int", "value", Value::array()}, {"echo_text", "value", Value::object()}, {"negate", "value", Value::integer(1)}, {"negate", "value", Value::str("true")},
						{"echo_list", "value", Value::str("a")}, {"echo_map", "value", Value::array()}, {"shift", "value", Value::integer(2)}, {"echo_real", "value", Value::str("1.5")}};
				const Wrong& w = src.pick(wrong);
				method = w.method;
				params.members.emplace_back(w.arg, w.value);
				error(-32602);
				break;
			}
			case 17: { // a lambda
				prefix = ""; method = "add";
				int64_t v = arg("value", src.range(-100000, 100000));
				result(tree.adder(v));
				break;
			}
			case 18: method = ""; prefix = ""; error(-32601); break; // no method
			default: method = "get_log"; paramsOptional = true; result(api.getLog()); break;
		}
		if (src.chance(1, 4)) for (int i = int(src.raw(2)); i > 0; i--) params.members.emplace_back("unknown" + std::to_string(i), junk());
		src.shuffle(params.members);
		r.value = Value::object(false);
		auto& m = r.value.members;
		m.emplace_back("jsonrpc", Value::str("2.0"));
		if (!notification) {
			switch (src.raw(5)) {
				case 0: case 1: e.id = Value::integer(src.integer()); break;
				case 2: case 3: e.id = Value::str(src.text(Src::UTF8, 30)); break;
				case 4: e.id = Value::real(double(src.range(-1000, 1000)) / 8); break;
				default: e.id = Value::null(); break;
			}
			m.emplace_back("id", e.id);
		} else e.kind = Expectation::NOTHING;
		bool noMethod = prefix.empty() && method.empty();
		if (!noMethod) m.emplace_back("method", Value::str(prefix + method));
		if (!paramsOptional || !params.members.empty() || src.coin()) m.emplace_back("params", params);
		if (src.coin()) src.shuffle(m);
		src.note(r.value.show(600) + " -> " + (notification ? "no response" : e.show()));
		src.label(notification ? "notification" : e.kind == Expectation::RESULT ? "result" : "error " + std::to_string(e.code));
		return r;
	}
};

static void checkResponse(const Value& got, const Expectation& expected) {
	require(got.kind == Value::OBJ, "response is not an object");
	const Value* version = got.find("jsonrpc");
	require(version && version->kind == Value::STR && version->s == "2.0", "wrong version in the response");
	const Value *id = got.find("id"), *result = got.find("result"), *error = got.find("error");
	require(id, "response without id");
	require(!result != !error, "response must have either a result or an error");
	requireEqual(size_t(3), got.members.size(), "number of members of the response");
	if (error) {
		require(error->kind == Value::OBJ, "error is not an object");
		const Value *code = error->find("code"), *message = error->find("message");
		require(code && code->kind == Value::INT, "error without a code");
		require(message && message->kind == Value::STR, "error without a message");
	}
	if (expected.kind == Expectation::ANY) return;
	requireEqual(std::string(), Value::diff(expected.id, *id), "id of the response");
	if (expected.kind == Expectation::RESULT) {
		if (error) fail("the call failed: " + error->show());
		requireEqual(std::string(), Value::diff(expected.result, *result), "result");
	} else {
		if (!error) fail("the call succeeded instead of failing with code " + std::to_string(expected.code));
		requireEqual(int64_t(expected.code), error->find("code")->i, "error code in " + error->show());
		if (expected.code == -32603) requireEqual(expected.message, error->find("message")->s, "error message");
	}
}

struct Fixture {
	Api serverApi, serverDeep, localApi, localDeep;
	Tree server{serverApi, serverDeep}, local{localApi, localDeep};
	Bomba::JsonRpcServer<> rpc{server.root};
	Bomba::JsonRpcServer<>::Session session = rpc.getSession();
	Feeder feeder{reinterpret_cast<Bomba::ITcpResponder&>(session)};
	size_t outputSeen = 0;

	refhttp::Message send(const std::string& body, std::string type = "application/json") {
		size_t before = feeder.responseEnds.size();
		feeder.receive("POST / HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\nContent-Type: " + type + "\r\n\r\n" + body);
		require(!feeder.disconnected, "the server disconnected");
		requireEqual(before + 1, feeder.responseEnds.size(), "number of HTTP responses");
		refhttp::Message m = refhttp::parse(feeder.output, outputSeen, true);
		requireEqual(feeder.output.size(), outputSeen, "size of the HTTP response");
		return m;
	}
	void compare() {
		for (auto [s, l] : {std::pair{&serverApi, &localApi}, std::pair{&serverDeep, &localDeep}}) {
			requireEqual(l->counter, s->counter, "state of the server (counter)");
			requireEqual(std::string(), Value::diff(model::toValue(l->store), model::toValue(s->store)), "state of the server (store)");
			requireEqual(std::string(), Value::diff(model::toValue(l->log), model::toValue(s->log)), "state of the server (log)");
		}
		requireEqual(local.sum, server.sum, "state of the server (sum)");
	}
};

static void conformance(Src& src) {
	Fixture f;
	Generator generator(src, f.localApi, f.localDeep, f.local);
	int count = int(src.range(1, 4));
	for (int i = 0; i < count; i++) {
		JsonStyle style(src, false);
		if (src.chance(1, 3)) { // batch
			src.note("batch:");
			std::vector<Expectation> expected;
			Value batch = Value::array();
			int size = int(src.range(1, 5));
			for (int j = 0; j < size; j++) {
				Request r = generator.make();
				batch.items.push_back(r.value);
				if (r.expected.kind != Expectation::NOTHING) expected.push_back(r.expected);
			}
			refhttp::Message m = f.send(style.text(batch));
			requireEqual(200, m.status, "HTTP status");
			if (!expected.empty() || !m.body.empty()) {
				Value got = StrictJson::parse(m.body);
				require(got.kind == Value::ARR, "response to a batch is not an array");
				requireEqual(expected.size(), got.items.size(), "number of responses in the batch");
				for (size_t j = 0; j < expected.size(); j++) checkResponse(got.items[j], expected[j]);
			}
			src.label("batch");
		} else {
			Request r = generator.make();
			refhttp::Message m = f.send(style.text(r.value));
			if (r.expected.kind == Expectation::NOTHING) {
				require(m.body.empty(), "response to a notification");
				requireEqual(2, m.status / 100, "HTTP status");
			} else {
				requireEqual(200, m.status, "HTTP status");
				const std::string* type = m.header("content-type");
				require(type && *type == "application/json", "wrong content type");
				checkResponse(StrictJson::parse(m.body), r.expected);
			}
		}
		f.compare();
	}
	src.nontrivial = true;
}

// Wrong requests in a batch don't affect the others
static void mixedBatch(Src& src) {
	Fixture f;
	Generator generator(src, f.localApi, f.localDeep, f.local);
	JsonStyle style(src, true);
	Value batch = Value::array();
	std::vector<Expectation> expected;
	int wrong = 0;
	for (int i = int(src.range(1, 6)); i > 0; i--) {
		if (src.coin()) {
			Request r = generator.make();
			batch.items.push_back(r.value);
			if (r.expected.kind != Expectation::NOTHING) expected.push_back(r.expected);
			continue;
		}
		wrong++;
		Value params = Value::object(), v = Value::object();
		params.members.emplace_back("value", Value::integer(3));
		std::map<std::string, Value> parts = {{"jsonrpc", Value::str("2.0")}, {"id", Value::integer(src.range(1, 50))}, {"method", Value::str("api.echo_int")}, {"params", params}};
		auto other = [&] (const std::string& name) {
			while (true) {
				Value j = style.junk(1);
				if (j.kind == parts[name].kind || (name == "id" && (j.kind == Value::REAL || j.kind == Value::STR || j.kind == Value::NUL))) continue;
				parts[name] = j;
				return;
			}
		};
		switch (src.raw(6)) {
			case 0: v = style.junk(0); if (v.kind == Value::OBJ) v = Value::integer(1); break;
			case 1: other("id"); src.label("wrong id"); break;
			case 2: other("method"); break;
			case 3: other("params"); break;
			case 4: other("jsonrpc"); break;
			case 5: parts["jsonrpc"] = Value::str(src.pick({"1.0", "2", "", "2.0.0"})); break;
			default: parts["method"] = Value::str("nothing.of.this"); if (src.coin()) other("id"); break;
		}
		if (v.kind == Value::OBJ) {
			for (auto& p : parts) v.members.push_back(p);
			src.shuffle(v.members);
			if (src.chance(1, 6)) v.members.pop_back();
		}
		src.note("wrong: " + v.show(300));
		batch.items.push_back(v);
	}
	refhttp::Message m = f.send(style.text(batch));
	requireEqual(200, m.status, "HTTP status");
	if (!expected.empty() || !m.body.empty()) {
		Value got = StrictJson::parse(m.body);
		require(got.kind == Value::ARR, "response to a batch is not an array");
		size_t at = 0;
		Expectation any;
		any.kind = Expectation::ANY;
		for (auto& it : got.items) {
			checkResponse(it, any);
			if (at < expected.size() && Value::diff(expected[at].id, *it.find("id")).empty()) {
				try {
					checkResponse(it, expected[at]);
					at++;
				} catch (Failure&) { } // Can be a response to a wrong one with the same identifier
			}
		}
		if (at < expected.size()) fail("missing or wrong response with " + expected[at].show() + " in " + printable(m.body, 1500));
		require(got.items.size() <= expected.size() + wrong, "more responses than requests");
	}
	f.compare();
	src.nontrivial = wrong && !expected.empty();
}

// A request that's wrong in one thing known before it could be called is not called and reported as such
static void refused(Src& src) {
	Fixture f;
	JsonStyle style(src, true);
	style.extras = style.reorder = false;
	int count = int(src.range(1, 4));
	Value batch = Value::array();
	std::vector<Expectation> expected;
	bool single = count == 1 && src.coin();
	for (int i = 0; i < count; i++) {
		Value params = Value::object();
		int64_t value = src.range(1, 1000);
		params.members.emplace_back("value", Value::integer(value));
		Value id = src.coin() ? Value::integer(src.integer()) : Value::str(src.text(Src::UTF8, 10));
		std::vector<std::pair<std::string, Value>> parts = {{"method", Value::str("add")}, {"params", params}}, late = {{"jsonrpc", Value::str("2.0")}};
		auto wrongKind = [&] (int allowed) {
			while (true) {
				Value made = style.junk(1);
				if (made.kind != allowed && !(allowed == Value::OBJ && made.kind == Value::NUL)) return made;
			}
		};
		Expectation e;
		e.kind = Expectation::ERROR; e.id = id;
		std::pair<std::string, Value> defect;
		switch (src.raw(5)) {
			case 0:
				defect = {"jsonrpc", Value::str(src.pick({"1.0", "2", "", "2.0.0", "2.1", "2.00", "02.0", " 2.0", "2.0 ", "3.0", "2,0", "20", "v2.0"}))};
				late.clear();
				e.code = -32600;
				break;
			case 1:
				defect = {src.pick({"version", "Method", "parameters", "", "ids", "jsonrp", "jsonrpc2", "param", "i", "result"}), style.junk(1)};
				e.code = -32600;
				break;
			case 2: defect = {"jsonrpc", wrongKind(Value::STR)}; late.clear(); e.code = -32602; break;
			case 3: parts.erase(parts.begin()); defect = {"method", wrongKind(Value::STR)}; e.code = -32602; break;
			case 4: parts.erase(parts.begin()); defect = {"method", Value::str(src.pick({"ad", "addd", "Add", "add.add", "", "api", "api.ad", " add", "add "}))}; e.code = -32601; break;
			default: { // It's fine
				e.kind = Expectation::RESULT;
				e.result = Value::integer(f.local.sum += value);
				defect = late[0];
				late.clear();
			}
		}
		src.label(e.kind == Expectation::RESULT ? "fine" : std::to_string(e.code));
		// The defect comes after the identifier, but before everything needed for calling it is known
		auto& m = parts;
		size_t position = src.raw(m.size() - 1);
		m.insert(m.begin() + position, defect);
		m.insert(m.begin() + src.raw(position), {"id", id});
		for (auto& it : late) m.insert(m.begin() + src.raw(m.size()), it);
		Value request = Value::object();
		request.members = m;
		src.note(request.show(400) + " -> " + e.show());
		batch.items.push_back(request);
		expected.push_back(e);
	}
	refhttp::Message m = f.send(style.text(single ? batch.items[0] : batch));
	requireEqual(200, m.status, "HTTP status");
	Value got = StrictJson::parse(m.body);
	if (single) { Value array = Value::array(); array.items.push_back(got); got = array; }
	require(got.kind == Value::ARR, "response to a batch is not an array");
	requireEqual(expected.size(), got.items.size(), "number of responses");
	for (size_t i = 0; i < expected.size(); i++) checkResponse(got.items[i], expected[i]);
	f.compare();
	src.nontrivial = true;
}

// What isn't a request at all is refused
static void scalars(Src& src) {
	Fixture f;
	JsonStyle style(src, true);
	Value v;
	switch (src.raw(4)) {
		case 0: v = Value::null(); break;
		case 1: v = Value::boolean(src.coin()); break;
		case 2: v = Value::integer(src.integer()); break;
		case 3: v = Value::real(double(src.range(-1000, 1000)) / 8); break;
		default: v = Value::str(src.text(Src::UTF8, 100)); break;
	}
	std::string body = src.chance(1, 8) ? src.pick({"", " ", "\n"}) : style.text(v);
	src.note("sent: " + printable(body, 1500));
	refhttp::Message m = f.send(body);
	requireEqual(400, m.status, "HTTP status");
	refhttp::Message after = f.send("{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"api.echo_int\",\"params\":{\"value\":5}}");
	Expectation expected;
	expected.kind = Expectation::RESULT; expected.id = Value::integer(77); expected.result = Value::integer(5);
	checkResponse(StrictJson::parse(after.body), expected);
	src.nontrivial = body.size() > 1;
}

// Damaged requests get valid responses or none and don't break the following ones
static void damaged(Src& src) {
	Fixture f;
	Generator generator(src, f.localApi, f.localDeep, f.local);
	JsonStyle style(src, true);
	std::string body;
	if (src.chance(1, 6)) body = style.text(style.junk(0));
	else if (src.chance(1, 4)) {
		Value batch = Value::array();
		for (int j = int(src.range(1, 4)); j > 0; j--) batch.items.push_back(src.chance(1, 4) ? style.junk(0) : generator.make().value);
		body = style.text(batch);
	} else {
		Value v = generator.make().value;
		if (src.coin()) {
			auto& m = v.members;
			switch (src.raw(4)) {
				case 0: src.pick(m).second = style.junk(0); break;
				case 1: m.emplace_back("other", style.junk(0)); src.shuffle(m); break;
				case 2: m.push_back(m[src.raw(m.size() - 1)]); src.shuffle(m); break;
				case 3: m.erase(m.begin() + src.raw(m.size() - 1)); break;
				default: m.emplace_back(m[0].first, style.junk(0)); break;
			}
		}
		body = style.text(v);
	}
	int mutations = int(src.raw(3));
	for (int i = 0; i < mutations && !body.empty(); i++) {
		size_t at = src.raw(body.size() - 1);
		switch (src.raw(5)) {
			case 0: body[at] = src.pick({'"', '{', '}', '[', ']', ',', ':', '\\', '0', '\0', '-', ' '}); break;
			case 1: body.resize(at); break;
			case 2: body.erase(at, 1 + src.raw(4)); break;
			case 3: body.insert(at, src.pick({"\"", "{", "}", "[", "]", ",", ":", "\\", "null", "\"id\":1,", "\\u12"})); break;
			case 4: body[at] = char(src.raw(255)); break;
			default: body += body.substr(at); break;
		}
	}
	std::string type = src.chance(1, 10) ? src.pick({"text/plain", "", "application/jso", "application/x-www-form-urlencoded"}) : "application/json";
	src.note("sent: " + printable(body, 1500));
	refhttp::Message m = f.send(body, type);
	if (type != "application/json") {
		requireEqual(400, m.status, "status of response to a wrong content type");
		requireEqual(int64_t(0), f.serverApi.counter, "a call in a wrong content type was processed");
	}
	if (m.status == 200 && !m.body.empty()) {
		Value got = StrictJson::parse(m.body);
		Expectation any;
		any.kind = Expectation::ANY;
		if (got.kind == Value::ARR) for (auto& it : got.items) checkResponse(it, any);
		else checkResponse(got, any);
		src.label("responded");
	} else if (m.status != 200 && m.status != 204) {
		if (m.status != 400 && m.status != 500) fail("unexpected HTTP status " + std::to_string(m.status));
		src.label("HTTP error");
	} else src.label("no response");
	// The next one is not affected
	refhttp::Message after = f.send("{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"api.echo_int\",\"params\":{\"value\":123456789012}}");
	Expectation expected;
	expected.kind = Expectation::RESULT; expected.id = Value::integer(77); expected.result = Value::integer(123456789012);
	checkResponse(StrictJson::parse(after.body), expected);
	src.nontrivial = body.size() > 10;
}

#ifdef C12
PBT_MAIN({"conformance", conformance, 80000, 2000000}, {"damaged", damaged, 120000, 3000000}, {"mixed_batch", mixedBatch, 60000, 1500000}, {"refused", refused, 50000, 1000000}, {"scalars", scalars, 20000, 400000})
#endif
