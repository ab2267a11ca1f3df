// Included at the end of the generated programs
#include "refbin.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_json_wsp_description.hpp"
using namespace transport;
using model::Value;
using model::JsonStyle;
using model::StrictJson;

static int depthOf(const Value& v) {
	int most = 0;
	for (auto& it : v.items) most = std::max(most, depthOf(it));
	for (auto& it : v.members) most = std::max(most, depthOf(it.second));
	return v.kind == Value::ARR || v.kind == Value::OBJ ? most + 1 : most;
}

#if defined(C24)
constexpr int Depth = 64;
using Binary = Bomba::BinaryFormat<std::string, uint32_t, Bomba::LittleEndianNumberFormat<std::string>, Depth>;
using Json = Bomba::BasicJson<>;

template <typename T> struct Guarded { // Overwriting what is around is detected
	char before[16] = "before the obj.";
	T value;
	char after[16] = "after the obje.";
	void check() { require(!memcmp(before, "before the obj.", 16) && !memcmp(after, "after the obje.", 16), "memory around the object was overwritten"); }
};

template <typename T> void fillPlain(T& t) {
	t.plainMembers([] <typename V> (V& member, const std::type_identity_t<V>& value) { member = value; });
}
template <typename T> void checkPlain(T& t) {
	t.plainMembers([] <typename V> (V& member, const std::type_identity_t<V>& value) {
		require(member == value, "a member that isn't serialised was changed");
	});
}
static void sameOrder(const Value& expected, const Value& got, const std::string& where) {
	if (expected.kind == Value::OBJ && expected.isStruct) {
		for (size_t i = 0; i < expected.members.size(); i++)
			requireEqual(expected.members[i].first, got.members[i].first, "order of members of " + where);
	}
	for (size_t i = 0; i < expected.items.size(); i++) sameOrder(expected.items[i], got.items[i], where + "[]");
	for (auto& it : expected.members) sameOrder(it.second, *got.find(it.first), where + "." + it.first);
}

static void members(Src& src) {
	withType(src, [&] <typename T> (const char* name, const char* defaults) {
		src.label(name);
		auto made = std::make_unique<Guarded<T>>();
		T& from = made->value;
		std::string d = Value::diff(StrictJson::parse(defaults), model::toValue(from));
		if (!d.empty()) fail(std::string("a new instance of ") + name + " has wrong values: " + d);
		auto target = std::make_unique<Guarded<T>>();
		model::GenOptions o;
		o.unsignedAsSigned = true;
		o.maxText = 60; o.maxItems = 4; o.budget = 60;
		model::generate(src, from, o);
		Value want = model::toValue(from);
		if (depthOf(want) > 50) throw Discard{};
		bool used = src.coin();
		if (used) { model::GenOptions o2 = o; o2.budget = 60; model::generate(src, target->value, o2); }
		fillPlain(from);
		fillPlain(target->value);
		src.note(std::string(name) + (used ? " into used" : "") + ": " + want.show());
		src.nontrivial = want.members.size() > 1;
		auto compare = [&] (const char* what) {
			std::string d = Value::diff(want, model::toValue(target->value));
			if (!d.empty()) fail(std::string(what) + " of " + name + " changed " + d);
			checkPlain(target->value);
			checkPlain(from);
			made->check();
			target->check();
		};
		switch (src.raw(2)) {
			case 0: {
				std::string text = from.template serialise<Json>();
				Value parsed = StrictJson::parse(text);
				std::string d = Value::diff(want, parsed);
				if (!d.empty()) fail(std::string("JSON written from ") + name + ": " + d + " in " + printable(text, 500));
				sameOrder(want, parsed, name);
				require(target->value.template deserialise<Json>(Exact(text).view()), "own JSON was refused");
				compare("round trip through JSON");
				break;
			}
			case 1: {
				JsonStyle style(src);
				std::string text = style.text(want);
				src.note(printable(text, 600));
				require(target->value.template deserialise<Json>(Exact(text).view()), "valid JSON was refused");
				compare("reading from JSON");
				break;
			}
			default: {
				std::string bytes = from.template serialise<Binary>();
				if (!T::flagged) {
					refbin::Encoder<uint32_t> e;
					e.add(from);
					requireEqual(e.out, bytes, std::string("binary encoding of ") + name);
				} else src.label("numeric flags");
				require(target->value.template deserialise<Binary>(Exact(bytes).view()), "own binary was refused");
				compare("round trip through binary");
				break;
			}
		}
	});
}

// Instances on the server, on the client and called locally, in a random place in a tree
template <typename Obj> struct Place {
	Obj object;
	std::vector<Bomba::DynamicRpcObject> holders;
	Bomba::IRemoteCallable* root = &object;

	void put(const std::vector<int>& positions) { // number of other children before it
		for (int position : positions) {
			Bomba::DynamicRpcObject holder;
			for (int i = 0; i < position; i++) holder.add("other" + std::to_string(i), [] (int64_t a = Bomba::name("a")) { return a; });
			if (holders.empty()) holder.add("inner", Bomba::RpcLambdaHolder::nonOwning(object));
			else holder.add("inner", std::move(holders.back()));
			holders.clear();
			holders.push_back(std::move(holder));
		}
		if (!holders.empty()) root = &holders[0];
	}
};
static std::vector<int> randomPositions(Src& src) {
	std::vector<int> r;
	for (int i = src.coin() ? int(src.range(1, 3)) : 0; i > 0; i--) r.push_back(int(src.raw(3)));
	return r;
}
static std::string prefixFor(const std::vector<int>& positions) {
	std::string r;
	for (size_t i = 0; i < positions.size(); i++) r += "inner.";
	return r;
}

template <typename Obj> void randomMethod(Src& src, auto fn) {
	int chosen = int(src.raw(Obj::methodCount - 1)), at = 0;
	Obj::methods([&] (auto method) { if (at++ == chosen) fn(method, chosen); });
}
template <typename Tuple> Tuple randomArgs(Src& src, model::GenOptions o) {
	Tuple t{};
	std::apply([&] (auto&... arg) { (model::generate(src, arg, o), ...); }, t);
	return t;
}
template <typename Tuple> std::vector<Value> valuesOf(const Tuple& t) {
	std::vector<Value> r;
	std::apply([&] (auto&... arg) { (r.push_back(model::toValue(arg)), ...); }, t);
	return r;
}
static int depthOf(const std::vector<Value>& values) {
	int r = 0;
	for (auto& v : values) r = std::max(r, depthOf(v));
	return r;
}
static void compareLogs(const std::vector<std::string>& expected, const std::vector<std::string>& got) {
	requireEqual(expected.size(), got.size(), "number of calls of methods with state");
	for (size_t i = 0; i < expected.size(); i++) requireEqual(expected[i], got[i], "arguments of a call");
}

template <bool UseJson> void calls(Src& src) {
	withObject(src, [&] <typename Obj> (const char* name) {
		src.label(name);
		std::vector<int> positions = randomPositions(src);
		Place<Obj> server, client, local;
		server.put(positions); client.put(positions); local.put(positions);
		auto responder = [&] {
			if constexpr(UseJson) return std::make_unique<Bomba::JsonRpcServer<>>(*server.root);
			else return std::make_unique<Bomba::BinaryProtocolServer<uint32_t, Bomba::ExpandingBuffer<>, Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>, Depth>>(*server.root);
		}();
		auto session = responder->getSession();
		Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
		auto rpcClient = [&] {
			if constexpr(UseJson) return std::make_unique<Bomba::JsonRpcClient<>>(*client.root, pipe, "example.com");
			else return std::make_unique<Bomba::BinaryProtocolClient<uint32_t, Bomba::ExpandingBuffer<>, Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>, Depth>>(*client.root, pipe);
		}();
		int count = int(src.range(1, 6));
		model::GenOptions o;
		o.unsignedAsSigned = true;
		o.maxText = 60; o.maxItems = 4; o.budget = 40;
		if (!UseJson && src.coin()) o.text = Src::BYTES;
		size_t argCount = 0;
		for (int i = 0; i < count; i++) randomMethod<Obj>(src, [&] (auto method, int index) {
			using Returned = typename decltype(method)::Returned;
			auto args = randomArgs<typename decltype(method)::Arguments>(src, o);
			if constexpr(!UseJson) {
				size_t at = 0;
				std::apply([&] (auto&... arg) { auto one = [&] (auto& a) { if constexpr(std::is_same_v<std::decay_t<decltype(a)>, bool>) if (method.omit[at]) a = true; at++; }; (one(arg), ...); }, args);
			}
			std::vector<Value> values = valuesOf(args);
			if (depthOf(values) > 50) throw Discard{};
			argCount += values.size();
			std::string shown;
			for (size_t j = 0; j < values.size(); j++) shown += std::string(j ? ", " : "") + method.argNames[j] + "=" + values[j].show(200);
			bool async = src.coin();
			src.note(std::string(async ? "async " : "") + name + "." + method.name + "(" + shown + ")");
			Value expected, got;
			std::apply([&] (auto&... arg) {
				if constexpr(std::is_void_v<Returned>) {
					(local.object.*decltype(method)::pointer)(arg...);
					if (async) (client.object.*decltype(method)::pointer).async(arg...).get();
					else (client.object.*decltype(method)::pointer)(arg...);
				} else {
					expected = model::toValue((local.object.*decltype(method)::pointer)(arg...));
					if (async) got = model::toValue((client.object.*decltype(method)::pointer).async(arg...).get());
					else got = model::toValue((client.object.*decltype(method)::pointer)(arg...));
				}
			}, args);
			pipe.flush();
			std::string d = Value::diff(expected, got);
			if (!d.empty()) fail(std::string(method.name) + " returned another value: " + d);
			// What was sent?
			std::string sent = pipe.allRequests.substr(pipe.requestStarts.back());
			if constexpr(UseJson) {
				size_t pos = 0;
				auto message = refhttp::parse(sent, pos, false);
				requireEqual(sent.size(), pos, "size of the request");
				Value body = StrictJson::parse(message.body);
				require(body.kind == Value::OBJ && body.find("method") && body.find("params"), "the request has no method or params");
				requireEqual(std::string(), Value::diff(Value::str(prefixFor(positions) + method.name), *body.find("method")), "name of the method");
				const Value& params = *body.find("params");
				Value wanted = Value::object(true);
				for (size_t j = 0; j < values.size(); j++)
					if (!(method.omit[j] && !values[j].b)) wanted.members.emplace_back(method.argNames[j], values[j]);
				requireEqual(std::string(), Value::diff(wanted, params), "params sent");
				sameOrder(wanted, params, "params");
			} else if (!method.flagged) {
				refbin::Encoder<uint32_t> body;
				for (size_t j = positions.size(); j > 0; j--) body.bytes(positions[j - 1], 1);
				body.bytes(index, 1);
				std::apply([&] (auto&... arg) { (body.add(arg), ...); }, args);
				refbin::Encoder<uint32_t> size;
				size.size(body.out.size() + 8);
				requireEqual(size.out + body.out, sent.substr(4), "binary request (after the identifier)");
			}
		});
		require(client.object.log.empty(), "a method was executed on the client");
		compareLogs(local.object.log, server.object.log);
		src.nontrivial = argCount > 1;
	});
}

// A request by somebody else, with arguments in any order, missing and unknown
static void rawCalls(Src& src) {
	withObject(src, [&] <typename Obj> (const char* name) {
		src.label(name);
		std::vector<int> positions = randomPositions(src);
		Place<Obj> server, local;
		server.put(positions); local.put(positions);
		Bomba::JsonRpcServer<> responder(*server.root);
		auto session = responder.getSession();
		Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
		int count = int(src.range(1, 4));
		model::GenOptions o;
		o.unsignedAsSigned = true;
		o.maxText = 40; o.maxItems = 4; o.budget = 40;
		size_t position = 0, argCount = 0;
		for (int i = 0; i < count; i++) randomMethod<Obj>(src, [&] (auto method, int) {
			using Returned = typename decltype(method)::Returned;
			auto args = randomArgs<typename decltype(method)::Arguments>(src, o);
			std::vector<Value> values = valuesOf(args);
			if (depthOf(values) > 50) throw Discard{};
			argCount += values.size();
			bool all = src.coin();
			JsonStyle style(src);
			Value params = Value::object(true);
			size_t at = 0;
			std::apply([&] (auto&... arg) {
				auto one = [&] (auto& a) {
					style.known.insert(method.argNames[at]);
					if (!all && src.coin()) a = std::decay_t<decltype(a)>{}; // missing
					else params.members.emplace_back(method.argNames[at], values[at]);
					at++;
				};
				(one(arg), ...);
			}, args);
			Value expected;
			std::apply([&] (auto&... arg) {
				if constexpr(std::is_void_v<Returned>) (local.object.*decltype(method)::pointer)(arg...);
				else expected = model::toValue((local.object.*decltype(method)::pointer)(arg...));
			}, args);
			std::string paramsText = style.text(params), methodText;
			style.string(methodText, prefixFor(positions) + method.name);
			std::string body = "{\"jsonrpc\":\"2.0\",\"method\":" + methodText + ",\"params\":" + paramsText + ",\"id\":" + std::to_string(i + 1) + "}";
			src.note(printable(body, 800));
			feeder.receive("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body);
			require(!feeder.disconnected, "the server disconnected");
			auto message = refhttp::parse(feeder.output, position, true);
			Value response = StrictJson::parse(message.body);
			const Value *result = response.find("result"), *id = response.find("id");
			if (!result) fail(std::string(method.name) + " was not executed: " + printable(message.body));
			std::string d = Value::diff(expected, *result);
			if (!d.empty()) fail(std::string(method.name) + " returned another value: " + d);
			require(id && id->kind == Value::INT && id->i == i + 1, "wrong id of the response");
		});
		compareLogs(local.object.log, server.object.log);
		src.nontrivial = argCount > 1;
	});
}

PBT_MAIN(
	Test{"members", members, 2500, 40000},
	Test{"json-rpc", calls<true>, 700, 12000},
	Test{"binary", calls<false>, 700, 12000},
	Test{"requests", rawCalls, 700, 12000}
)
#endif

#if defined(C23)
#include "describe.hpp"
struct Described {
	Value types = Value::object(), methods = Value::object();
	void add(const char* text, const std::string& prefix) {
		Value v = StrictJson::parse(text);
		describe::addTypes(types, *v.find("types"));
		describe::addMethods(methods, *v.find("methods"), prefix);
	}
};
struct Keeper { // Everything not owned by the objects described
	std::vector<std::shared_ptr<void>> kept;
};

static Bomba::DynamicRpcObject randomTree(Src& src, Keeper& keeper, Described& described, const std::string& prefix, int depth) {
	Bomba::DynamicRpcObject made;
	int count = int(src.raw(4));
	std::set<std::string> used;
	for (int i = 0; i < count; i++) {
		std::string name = src.text(Src::UTF8, 12);
		std::replace(name.begin(), name.end(), '.', '-');
		if (name.empty() || !used.insert(name).second) continue;
		switch (src.raw(depth > 2 ? 1 : 2)) {
			case 0:
				withObject(src, [&] <typename Obj> (const char*) {
					auto obj = std::make_shared<Obj>();
					keeper.kept.push_back(obj);
					described.add(Obj::description, prefix + name + ".");
					made.add(name, Bomba::RpcLambdaHolder::nonOwning(*obj));
				});
				break;
			case 1: {
				const char* text = nullptr;
				made.add(name, makeLambda(int(src.raw(lambdaCount - 1)), text));
				described.add(text, prefix + name);
				break;
			}
			default:
				made.add(name, randomTree(src, keeper, described, prefix + name + ".", depth + 1));
				break;
		}
	}
	return made;
}

static void compositions(Src& src) {
	Described described;
	Keeper keeper;
	if (src.chance(1, 5)) {
		withObject(src, [&] <typename Obj> (const char* name) {
			src.label("a class");
			Obj obj;
			described.add(Obj::description, "");
			describe::compare(src, obj, described.types, described.methods);
		});
	} else {
		Bomba::DynamicRpcObject root = randomTree(src, keeper, described, "", 0);
		describe::compare(src, root, described.types, described.methods);
	}
	src.labelIf(described.types.members.size() > 0, "with types");
	src.nontrivial = described.methods.members.size() > 1;
}

PBT_MAIN(Test{"compositions", compositions, 4000, 60000})
#endif
