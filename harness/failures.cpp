// Calls that fail in any way must raise exceptions and not influence other calls
#include "api.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "refbin.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
using namespace pbt;
using namespace transport;
using model::Value;

// Answers by whatever was prepared for the next request
struct Canned : ClientConnection {
	std::function<std::string(const std::string&)> answer;
	using ClientConnection::ClientConnection;
	void writeRequest(std::span<char> w) override {
		inbound += answer(std::string(w.data(), w.size()));
	}
};

struct Pending {
	std::string name;
	std::function<bool()> ready;
	std::function<void()> get; // Throws if the future throws
	bool fails;
	std::string message; // Must be in the exception
	size_t end; // of the response in the stream
};

struct History {
	Src& src;
	Canned& connection;
	std::vector<Pending> pending;
	bool broken = false; // Nothing else can be received
	int failures = 0, successes = 0, after = 0;
	bool pollable = true;

	// The plan decides how the call will end
	void finish(Pending& p, bool sync) {
		try {
			p.get();
			if (p.fails) fail(p.name + " was expected to fail, but it succeeded");
			successes++;
			if (failures) after++;
		} catch (Failure&) { throw; }
		catch (std::exception& e) {
			if (!p.fails) fail(p.name + " failed: " + e.what());
			if (!p.message.empty() && std::string(e.what()).find(p.message) == std::string::npos)
				fail(p.name + " failed with " + printable(e.what()) + " instead of " + printable(p.message));
			failures++;
		}
	}
	template <typename Object, typename Method, typename Prepare, typename... Args>
	void invoke(const char* name, Object& client, Object& reference, Method Object::* method, Prepare prepare, const Args&... args) {
		using Returned = decltype((reference.*method)(args...));
		Pending p;
		p.name = name;
		std::function<void(Value)> check = [] (Value) {};
		if constexpr(std::is_void_v<Returned>) p.fails = prepare.template operator()<Returned>(Value::null(), p);
		else {
			Returned expected = (reference.*method)(args...);
			Value value = model::toValue(expected);
			p.fails = prepare.template operator()<Returned>(expected, p);
			check = [value, n = p.name] (Value got) {
				std::string d = Value::diff(value, got);
				if (!d.empty()) fail(n + " returned a wrong value: " + d);
			};
		}
		if (src.coin()) {
			src.note("synchronous " + p.name + (p.fails ? " (fails)" : ""));
			p.get = [&] {
				if constexpr(std::is_void_v<Returned>) (client.*method)(args...);
				else check(model::toValue((client.*method)(args...)));
			};
			return finish(p, true);
		}
		src.note("asynchronous " + p.name + (p.fails ? " (fails)" : ""));
		auto future = std::shared_ptr<Bomba::Future<Returned>>(new Bomba::Future<Returned>((client.*method).async(args...)));
		p.end = connection.inbound.size();
		p.ready = [future] { return future->is_ready(); };
		p.get = [future, check] {
			if constexpr(std::is_void_v<Returned>) future->get();
			else check(model::toValue(future->get()));
		};
		pending.push_back(p);
	}
	void settle(size_t i) {
		src.note("get " + pending[i].name);
		Pending p = pending[i];
		pending.erase(pending.begin() + i);
		finish(p, false);
	}
	template <typename Call> void run(Call call) {
		int steps = int(src.range(1, 16));
		for (int i = 0; i < steps; i++) {
			switch (src.raw(6)) {
				default: call(); break;
				case 4: if (!pending.empty()) settle(src.raw(pending.size() - 1)); break;
				case 5:
					if (!pending.empty() && !broken) {
						Pending& p = src.pick(pending);
						src.note("poll " + p.name);
						bool got = p.ready();
						require(got == (p.end <= connection.arrived), "is_ready is wrong");
					}
					break;
				case 6: connection.arrive(); break;
			}
		}
		while (!pending.empty()) settle(src.raw(pending.size() - 1));
		src.labelIf(after > 0, "success after failure"); src.labelIf(broken, "broken connection");
		src.nontrivial = failures > 0;
	}
};

static std::string httpResponse(Src& src, int status, const std::string& body) {
	std::string r = "HTTP/1.1 " + std::to_string(status) + " Whatever\r\n";
	if (src.coin()) r += "Content-Type: " + std::string(src.pick({"application/json", "text/html", "application/json; charset=utf-8"})) + "\r\n";
	if (!body.empty() || src.coin()) r += "Content-Length: " + std::to_string(body.size()) + "\r\n";
	return r + "\r\n" + body;
}
static int badStatus(Src& src) { return src.pick({300, 301, 304, 400, 401, 403, 404, 405, 418, 429, 500, 501, 502, 503, 504, 599}); }

// Replaces a random value with one of a type that can't be there
static void spoil(Src& src, Value& doc) {
	Value* at = &doc;
	while (true) {
		Value* next = nullptr;
		if (at->kind == Value::OBJ && !at->members.empty()) next = &src.pick(at->members).second;
		else if (at->kind == Value::ARR && !at->items.empty()) next = &at->items[src.raw(at->items.size() - 1)];
		if (!next || next->kind == Value::NUL || src.chance(1, 3)) break;
		at = next;
	}
	bool isNumber = at->kind == Value::INT || at->kind == Value::REAL;
	std::vector<Value> wrong;
	if (at->kind != Value::BOOL) wrong.push_back(Value::boolean(src.coin()));
	if (!isNumber) wrong.push_back(Value::integer(src.range(0, 1000)));
	if (at->kind != Value::STR) wrong.push_back(Value::str(src.text(Src::UTF8, 8)));
	if (at->kind != Value::ARR) wrong.push_back(Value::array());
	if (at->kind != Value::OBJ) wrong.push_back(Value::object());
	*at = src.pick(wrong);
}
// Damage of the connection, returns what is sent instead
static std::string breaking(Src& src, const std::string& good, History& history) {
	history.broken = true;
	switch (src.raw(2)) {
		case 0: return good.substr(0, src.raw(good.size() - 1)); // The end doesn't come
		case 1: return "";
		default: return src.pick({"HTTP/1.1 what OK\r\nContent-Length: 2\r\n\r\n{}", "nonsense\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n{}",
				"HTTP/1.1 200 OK\r\nContent-Length: xyz\r\n\r\n{}"});
	}
}

template <typename Fn> void anyMethod(Src& src, History& history, Api& client, Api& local, Src::Text text, Fn prepare) {
	model::GenOptions o;
	o.text = text; o.maxText = 100; o.maxItems = 5;
	auto value = [&] <typename T> (T t) { model::generate(src, t, o); return t; };
	switch (src.raw(8)) {
		case 0: return history.invoke("echo_int", client, local, &Api::echoInt, prepare, value(int64_t()));
		case 1: return history.invoke("echo_text", client, local, &Api::echoText, prepare, value(std::string()));
		case 2: return history.invoke("echo_list", client, local, &Api::echoList, prepare, value(std::vector<std::string>()), false);
		case 3: return history.invoke("shift", client, local, &Api::shift, prepare, value(Point()), value(int()));
		case 4: return history.invoke("nothing", client, local, &Api::nothing, prepare);
		case 5: return history.invoke("negate", client, local, &Api::negate, prepare, src.coin());
		case 6: return history.invoke("echo_real", client, local, &Api::echoReal, prepare, value(double()));
		case 7: return history.invoke("plan", client, local, &Api::plan, prepare, value(Trip()), false);
		default: return history.invoke("set", client, local, &Api::set, prepare, value(std::string()), value(std::string()));
	}
}

static void jsonRpcFailures(Src& src) {
	Api clientApi, local;
	Canned connection(src);
	Bomba::JsonRpcClient<> client(clientApi, connection, "example.com");
	History history{src, connection};
	history.run([&] {
		anyMethod(src, history, clientApi, local, Src::UTF8, [&] <typename Returned> (const auto& result, Pending& p) -> bool {
			Value value;
			if constexpr(std::is_void_v<Returned>) value = Value::null();
			else value = model::toValue(result);
			bool already = history.broken;
			size_t kind = already ? 0 : src.coin() ? 0 : src.range(1, 13);
			if constexpr(std::is_void_v<Returned>) if (kind == 9) kind = 5;
			model::JsonStyle style(src, false);
			std::string message;
			int status = src.chance(1, 5) ? int(src.pick({201, 202, 203, 299})) : 200;
			bool fails = kind != 0 || already;
			Value error = Value::object();
			if (kind == 2 || kind == 3 || kind == 4) {
				error.members.emplace_back("code", Value::integer(src.pick({-32700, -32600, -32601, -32602, -32603, -32000, 1})));
				message = src.text(Src::ASCII, 30);
				for (char& c : message) if (c == '"' || c == '\\') c = '_';
				error.members.emplace_back("message", Value::str(message));
				if (src.chance(1, 3)) error.members.emplace_back("data", src.coin() ? Value::str("explanation") : Value::array());
				if (style.reorder) src.shuffle(error.members);
				if (kind != 4) p.message = message;
			}
			if (kind == 1) status = badStatus(src);
			src.label(kind == 0 ? "correct" : "failure " + std::to_string(kind));
			connection.answer = [kind, value, error, status, already, style, &src, &history] (const std::string& request) mutable -> std::string {
				if (already) return "";
				size_t pos = 0;
				refhttp::Message m = refhttp::parse(request, pos, false);
				Value asked = model::StrictJson::parse(m.body);
				const Value* id = asked.find("id");
				require(id && id->kind == Value::INT, "no id in a request");
				Value response = Value::object();
				auto& r = response.members;
				r.emplace_back("jsonrpc", Value::str("2.0"));
				r.emplace_back("id", *id);
				Value spoiled = value;
				switch (kind) {
					case 2: case 3: r.emplace_back("error", error); break;
					case 4: r.emplace_back("error", error); r[1].second = Value::null(); break;
					case 5: break; // no result
					case 6: r[1].second = Value::integer(id->i + src.pick({-1, 1, 100, 65536})); r.emplace_back("result", value); break;
					case 7: r[0].second = src.pick(std::vector<Value>{Value::str("1.0"), Value::str(""), Value::str("2.1"), Value::str("2.00")}); r.emplace_back("result", value); break;
					case 8: r.emplace_back("error", src.pick(std::vector<Value>{Value::object(), Value::str("problem"), Value::integer(5), Value::array(), Value::null()})); break;
					case 9: spoil(src, spoiled); r.emplace_back("result", spoiled); break;
					default: r.emplace_back("result", value); break;
				}
				if (src.coin()) src.shuffle(r);
				std::string body = style.text(response);
				switch (kind) {
					case 10: // Not a whole response
						body.resize(src.raw(body.find_last_of('}') - 1));
						break;
					case 11: body = src.pick({"", "null", "[]", "5", "\"text\"", "true", "{}", "nonsense", "<html></html>", "{\"result\"", "{\"jsonrpc\":\"2.0\",}", "}"}); break;
					default: break;
				}
				std::string sent = httpResponse(src, status, body);
				if (kind == 12 || kind == 13) sent = breaking(src, sent, history);
				src.note("response to it: " + printable(sent, 500));
				return sent;
			};
			return fails;
		});
	});
}

static void binaryFailures(Src& src) {
	Api clientApi, local;
	Canned connection(src);
	Bomba::BinaryProtocolClient<uint32_t> client(clientApi, connection);
	History history{src, connection};
	uint32_t id = 0;
	history.run([&] {
		anyMethod(src, history, clientApi, local, Src::BYTES, [&] <typename Returned> (const auto& result, Pending& p) -> bool {
			std::string good;
			if constexpr(std::is_void_v<Returned>) good = refbin::message<uint32_t>(id, {});
			else good = refbin::message<uint32_t>(id, {}, result);
			id++;
			std::string sent = history.broken ? "" : good;
			bool fails = history.broken;
			if (!fails && src.coin()) {
				size_t kind = src.raw(2);
				fails = true;
				if (kind == 0 && good.size() > 8) { // The value ends too early
					sent.resize(8 + src.raw(good.size() - 9));
					uint32_t size = uint32_t(sent.size());
					memcpy(sent.data() + 4, &size, 4);
				} else {
					history.broken = true;
					if (kind <= 1) sent.resize(src.raw(good.size() - 1));
					else { uint32_t size = uint32_t(src.raw(7)); memcpy(sent.data() + 4, &size, 4); } // Shorter than its header
				}
				src.label("failure " + std::to_string(kind));
			}
			src.note("response to it: " + printable(sent, 300));
			connection.answer = [sent] (const std::string&) { return sent; };
			return fails;
		});
	});
}

static void formFailures(Src& src) {
	Api clientApi, local;
	Canned connection(src);
	Bomba::HttpClient<> client(connection, "example.com");
	clientApi.setResponder(client);
	History history{src, connection};
	history.run([&] {
		auto prepare = [&] <typename Returned> (const auto&, Pending&) -> bool {
			bool fails = history.broken || src.coin();
			std::string sent;
			if (!history.broken) {
				bool breaks = fails && src.chance(1, 5);
				std::string content = src.text(Src::ASCII, 50);
				sent = httpResponse(src, fails && !breaks ? badStatus(src) : int(src.pick({200, 200, 201, 202, 204, 299})), src.coin() ? content : "");
				if (breaks) sent = breaking(src, sent, history);
			}
			src.note("response to it: " + printable(sent, 300));
			connection.answer = [sent] (const std::string&) { return sent; };
			return fails;
		};
		if (src.coin()) history.invoke("nothing", clientApi, local, &Api::nothing, prepare);
		else history.invoke("set", clientApi, local, &Api::set, prepare, src.text(Src::ASCII, 20), src.text(Src::ASCII, 20));
	});
}

PBT_MAIN({"json_rpc", jsonRpcFailures, 60000, 1500000}, {"binary", binaryFailures, 60000, 1500000}, {"forms", formFailures, 40000, 1000000})
