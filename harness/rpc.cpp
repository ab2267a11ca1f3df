// Remote calls must be indistinguishable from local calls
#include "history.hpp"
#include "form_history.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bigendian.hpp"
#include "refhttp.hpp"

template <typename MakeServer, typename MakeClient, typename Afterwards>
void histories(Src& src, Settings settings, MakeServer makeServer, MakeClient makeClient, Afterwards afterwards) {
	Api serverApi, serverDeep, clientApi, clientDeep, localApi, localDeep;
	settings.options.maxText = src.chance(1, 20) ? 6000 : 200;
	settings.options.maxItems = 6;
	if (src.coin()) { // one object
		src.note("single object");
		auto server = makeServer(serverApi);
		auto session = server->getSession();
		Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
		auto client = makeClient(clientApi, pipe);
		PipeChannel channel(pipe);
		History history{src, channel, settings};
		history.run([&] { history.callSomething(clientApi, localApi); });
		afterwards(pipe);
		history.compareState(serverApi, localApi);
		require(clientApi.counter == 0 && clientApi.log.empty(), "a call was executed locally");
	} else {
		src.note("tree of objects");
		src.label("tree of objects");
		Tree serverTree(serverApi, serverDeep), clientTree(clientApi, clientDeep), localTree(localApi, localDeep);
		auto server = makeServer(serverTree.root);
		auto session = server->getSession();
		Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
		auto client = makeClient(clientTree.root, pipe);
		PipeChannel channel(pipe);
		History history{src, channel, settings};
		history.run([&] {
			switch (src.raw(4)) {
				case 0: {
					int64_t v = src.range(-100000, 100000);
					history.calls++;
					src.note("add " + std::to_string(v));
					requireEqual(localTree.adder(v), clientTree.adder(v), "result of the lambda");
					break;
				}
				case 1: case 2: return history.callSomething(clientApi, localApi);
				default: return history.callSomething(clientDeep, localDeep);
			}
		});
		afterwards(pipe);
		history.compareState(serverApi, localApi);
		history.compareState(serverDeep, localDeep);
		requireEqual(localTree.sum, serverTree.sum, "sum");
		require(clientApi.counter == 0 && clientDeep.log.empty() && clientTree.sum == 0, "a call was executed locally");
	}
}

static void jsonRpcHistory(Src& src, size_t large) {
	Settings settings;
	settings.large = large;
	settings.options.text = Src::UTF8;
	histories(src, settings, [] (auto& api) { return std::make_unique<Bomba::JsonRpcServer<>>(api); },
			[] (auto& api, Pipe& pipe) { return std::make_unique<Bomba::JsonRpcClient<>>(api, pipe, "example.com"); },
			[] (Pipe& pipe) { // What is sent has to be valid not only for this library
				for (auto& m : refhttp::parseAll(pipe.allRequests, false)) {
					Value request = model::StrictJson::parse(m.body);
					require(request.find("method") && request.find("method")->kind == Value::STR, "request without a method");
					require(request.find("id") && request.find("jsonrpc"), "incomplete request");
				}
				for (auto& m : refhttp::parseAll(pipe.server.output, true)) {
					if (m.status == 200) model::StrictJson::parse(m.body);
				}
			});
}
static void jsonRpc(Src& src) { jsonRpcHistory(src, 0); }
static void largeJsonRpc(Src& src) { jsonRpcHistory(src, 1500000); }

template <typename SizeType, template <typename> typename NumWriter = Bomba::LittleEndianNumberFormat> void binaryWithSize(Src& src, size_t large) {
	Settings settings;
	settings.large = large;
	settings.options.text = src.coin() ? Src::BYTES : Src::UTF8;
	settings.failing = false;
	histories(src, settings, [] (auto& api) { return std::make_unique<Bomba::BinaryProtocolServer<SizeType, Bomba::ExpandingBuffer<>, NumWriter<Bomba::ExpandingBuffer<>>>>(api); },
			[] (auto& api, Pipe& pipe) { return std::make_unique<Bomba::BinaryProtocolClient<SizeType, Bomba::ExpandingBuffer<>, NumWriter<Bomba::ExpandingBuffer<>>>>(api, pipe); }, [] (Pipe&) {});
}
static void binaryHistory(Src& src, size_t large) {
	switch (src.raw(4)) {
		case 0: case 1: src.label("uint32_t"); return binaryWithSize<uint32_t>(src, large);
		case 2: case 3: src.label("uint64_t"); return binaryWithSize<uint64_t>(src, large);
		default: src.label("big endian"); return binaryWithSize<uint32_t, BigEndianNumberFormat>(src, large);
	}
}
static void binaryRpc(Src& src) { binaryHistory(src, 0); }
static void largeBinaryRpc(Src& src) { binaryHistory(src, 3000000); }


// Deeply nested arguments and results if the depth is increased, also in deeply nested objects
template <typename T, int depth> struct NestedVector { using Type = std::vector<typename NestedVector<T, depth - 1>::Type>; };
template <typename T> struct NestedVector<T, 0> { using Type = T; };
struct TowerApi : Bomba::RpcObject<TowerApi> {
	using Five = NestedVector<int16_t, 5>::Type;
	using Six = NestedVector<std::string, 6>::Type;
	Five kept;
	Bomba::RpcMember<[] (TowerApi* parent, NestedVector<int16_t, 5>::Type value = Bomba::name("value")) {
		std::swap(parent->kept, value);
		return value;
	}> exchange = child<"exchange">;
	Bomba::RpcMember<[] (NestedVector<std::string, 6>::Type value = Bomba::name("value"), std::string last = Bomba::name("last")) {
		std::reverse(value.begin(), value.end());
		if (!value.empty()) value[0].resize(value[0].size() + 1);
		if (5 < last.size()) value.clear();
		return value;
	}> reverse = child<"reverse">;
};
static void deepArrays(Src& src) {
	TowerApi serverApi, clientApi, localApi;
	// Deep in a tree of objects
	int levels = int(src.range(0, 4));
	std::function<Bomba::DynamicRpcObject(TowerApi&, int)> nest = [&] (TowerApi& api, int level) {
		Bomba::DynamicRpcObject made;
		if (level % 2) made.add("unused", [] (int a = Bomba::name("a")) { return a; });
		if (level == levels) made.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
		else made.add("level", nest(api, level + 1));
		return made;
	};
	auto serverRoot = nest(serverApi, 0), clientRoot = nest(clientApi, 0);
	constexpr int depth = 6;
	using Number = Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>;
	Bomba::BinaryProtocolServer<uint32_t, Bomba::ExpandingBuffer<>, Number, depth> server(serverRoot);
	auto session = server.getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	Bomba::BinaryProtocolClient<uint32_t, Bomba::ExpandingBuffer<>, Number, depth> client(clientRoot, pipe);
	PipeChannel channel(pipe);
	Settings settings;
	settings.options.maxItems = 2;
	settings.options.maxText = 20;
	History history{src, channel, settings};
	history.run([&] {
		if (src.coin()) history.invoke("exchange", clientApi, localApi, &TowerApi::exchange, history.template value<TowerApi::Five>());
		else history.invoke("reverse", clientApi, localApi, &TowerApi::reverse, history.template value<TowerApi::Six>(), history.template value<std::string>());
	});
	requireEqual(std::string(), Value::diff(model::toValue(localApi.kept), model::toValue(serverApi.kept)), "state of the server");
}

// Objects nested up to the set depth can be called, nothing is sent when calling deeper ones
template <int MaxDepth> void deepPathsWith(Src& src) {
	int levels = int(src.range(1, MaxDepth + 3));
	std::vector<int> fillers(levels);
	for (int& it : fillers) it = src.chance(1, 30) ? int(src.range(100, 252)) : int(src.raw(2)); // Indexes have one byte
	std::vector<std::unique_ptr<Api>> server, client, local;
	for (int i = 0; i < levels; i++)
		for (auto* side : {&server, &client, &local}) side->push_back(std::make_unique<Api>());
	std::function<Bomba::DynamicRpcObject(std::vector<std::unique_ptr<Api>>&, int)> nest = [&] (std::vector<std::unique_ptr<Api>>& apis, int level) {
		Bomba::DynamicRpcObject made;
		for (int i = 0; i < fillers[level]; i++) made.add((i % 3 ? "a" : "z") + std::to_string(i), [] (int a = Bomba::name("a")) { return a; });
		made.add("api", Bomba::RpcLambdaHolder::nonOwning(*apis[level]));
		if (level + 1 < levels) made.add("level", nest(apis, level + 1));
		return made;
	};
	auto serverRoot = nest(server, 0), clientRoot = nest(client, 0);
	using Number = Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>;
	Bomba::BinaryProtocolServer<uint16_t, Bomba::ExpandingBuffer<>, Number, MaxDepth> responder(serverRoot);
	auto session = responder.getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	Bomba::BinaryProtocolClient<uint16_t, Bomba::ExpandingBuffer<>, Number, MaxDepth> caller(clientRoot, pipe);
	int calls = int(src.range(1, 8)), refused = 0;
	for (int i = 0; i < calls; i++) {
		int level = int(src.raw(levels - 1));
		bool callable = level + 2 <= MaxDepth;
		std::string key = src.text(Src::BYTES, 10), value = src.text(Src::BYTES, 20);
		src.note("call at level " + std::to_string(level) + " of " + std::to_string(levels) + ", depth limited to " + std::to_string(MaxDepth));
		size_t before = pipe.inbound.size() + pipe.outbound.size();
		try {
			client[level]->set(key, value);
			std::string got = client[level]->get(key);
			require(callable, "a call of a too deeply nested object succeeded");
			local[level]->set(key, value);
			requireEqual(local[level]->get(key), got, "result");
		} catch (std::logic_error& e) {
			require(!callable, "a call was refused although its depth is allowed");
			requireEqual(before, pipe.inbound.size() + pipe.outbound.size(), "data waiting after a refused call");
			refused++;
		}
	}
	pipe.flush();
	for (int i = 0; i < levels; i++) requireEqual(std::string(), Value::diff(valueOf(local[i]->store), valueOf(server[i]->store)), "state of the server");
	src.labelIf(refused > 0, "too deep");
	src.nontrivial = calls > 2 && levels > 1;
}
static void deepPaths(Src& src) {
	switch (src.raw(5)) {
		case 0: return deepPathsWith<2>(src);
		case 1: case 2: return deepPathsWith<3>(src);
		case 3: return deepPathsWith<4>(src);
		case 4: return deepPathsWith<7>(src);
		default: return deepPathsWith<8>(src);
	}
}

static void formHistory(Src& src, size_t large) {
	FormApi serverApi, serverDeep, clientApi, clientDeep, localApi, localDeep;
	Settings settings;
	settings.options.text = Src::UTF8;
	settings.options.maxText = src.chance(1, 20) ? 6000 : 100;
	settings.failureMessages = false;
	settings.large = large;
	auto compose = [] (FormApi& api, FormApi& deep) {
		Bomba::DynamicRpcObject root, sub;
		sub.add("deep", Bomba::RpcLambdaHolder::nonOwning(deep));
		root.add("sub", std::move(sub));
		root.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
		return root;
	};
	Bomba::DynamicRpcObject serverRoot = compose(serverApi, serverDeep), clientRoot = compose(clientApi, clientDeep), localRoot = compose(localApi, localDeep);
	Bomba::HtmlPostResponder<> responder(serverRoot);
	Bomba::DummyGetResponder get;
	Bomba::HttpServer<> server(get, responder);
	auto session = server.getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	Bomba::HttpClient<> client(pipe, "example.com");
	clientRoot.setResponder(client);
	PipeChannel channel(pipe);
	FormHistory history{src, channel, settings};
	history.run([&] {
		if (src.coin()) history.callForm(clientApi, localApi);
		else history.callForm(clientDeep, localDeep);
	});
	compareForms(serverApi, localApi);
	compareForms(serverDeep, localDeep);
}
static void formRpc(Src& src) { formHistory(src, 0); }
static void largeFormRpc(Src& src) { formHistory(src, 1000000); }

// What cannot be called is refused whatever the data are
static void uncallable(Src& src) {
	FormApi api, deep;
	Bomba::DynamicRpcObject root, sub;
	sub.add("deep", Bomba::RpcLambdaHolder::nonOwning(deep));
	root.add("sub", std::move(sub));
	root.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
	Bomba::DummyGetResponder noPages;
	Bomba::RpcGetResponder<> getResponder(noPages, root);
	Bomba::HtmlPostResponder<> postResponder(root);
	Bomba::HttpServer<> server(getResponder, postResponder);
	auto session = server.getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	Bomba::HttpClient<> client(pipe, "example.com");
	struct Request { Bomba::RequestToken token; bool callable; };
	std::vector<Request> requests;
	for (int i = int(src.range(1, 5)); i > 0; i--) {
		bool callable = src.chance(1, 4);
		bool post = src.coin();
		std::string path = callable ? post ? src.pick({"/api/nothing", "/sub/deep/nothing"}) : src.pick({"/api/greet", "/sub/deep/greet"}) // There's no page that could be a response to those without a result
				: src.pick({"/", "/api", "/sub", "/sub/deep", "/missing", "/api/missing", "/sub/missing", "/sub/deep/nothin", "/api/nothing/more", "/sub/api", "/api/nothingg", "/API", "/sub/deep/deep", "//"});
		std::string data;
		for (int j = int(src.raw(3)); j > 0; j--) data += std::string(data.empty() ? "" : "&") + src.pick({"key=a", "value+of+it=b", "value=3", "a=on", "first=1"});
		src.note((post ? "POST " : "GET ") + path + " " + data);
		Request r{{}, callable};
		if (post) r.token = client.post("application/x-www-form-urlencoded", [&] (auto& output, Bomba::RequestToken) { output += std::string_view(data); }, path);
		else r.token = client.get(path + "?" + data);
		requests.push_back(r);
	}
	src.shuffle(requests);
	size_t called = 0;
	for (auto& r : requests) {
		client.getResponse(r.token, [&] (std::span<char>, bool success) {
			requireEqual(r.callable, success, "success of a request");
			return true;
		});
		called += r.callable;
	}
	requireEqual(called, api.log.size() + deep.log.size(), "number of calls");
	require(api.store.empty() && deep.store.empty() && !api.flags && !deep.flags && !api.sum && !deep.sum, "something else was called");
	src.nontrivial = requests.size() > called;
}

// Methods called by accessing an URL with arguments
static void getRpc(Src& src) {
	FormApi serverApi, localApi;
	Bomba::SimpleGetResponder page;
	struct Pages : Bomba::IHttpGetResponder {
		bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
			if (path != "/set" && path != "/page") return false;
			writer.writeKnownSize("text/html", path.size(), [&] (Bomba::GeneralisedBuffer& output) { output += path; });
			return true;
		}
	} pages;
	Bomba::RpcGetResponder<> responder(pages, serverApi);
	Bomba::HttpServer<> server(responder);
	auto session = server.getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	Bomba::HttpClient<> client(pipe, "example.com");
	model::GenOptions options;
	options.text = Src::UTF8;
	options.maxText = 100;
	auto text = [&] { std::string s; model::generate(src, s, options); return withoutReferences(s); };
	bool sparing = src.coin(); // Some characters don't have to be encoded in an URL
	auto encode = [&] (std::string_view s) { // the convention of browsers for encodings without the character
		std::string r;
		for (size_t i = 0; i < s.size(); i++) {
			unsigned char c = s[i];
			char buf[32];
			if (c == ' ') r += src.coin() ? "+" : "%20";
			else if (isalnum(c) || (c && strchr(sparing ? ".-_*~'()!,:@$/?" : ".-_*", c))) r += char(c);
			else if (c < 0x80) { snprintf(buf, 32, src.coin() ? "%%%02x" : "%%%02X", c); r += buf; }
			else {
				int extra = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
				uint32_t code = c & (0x3f >> extra);
				while (extra--) code = code << 6 | (s[++i] & 0x3f);
				if (code <= 0xff) snprintf(buf, 32, src.coin() ? "%%%02x" : "%%%02X", code);
				else snprintf(buf, 32, "%%26%%23%u%%3%c", code, src.coin() ? 'B' : 'b');
				r += buf;
			}
		}
		return r;
	};
	struct Request { Bomba::RequestToken token; bool found; std::string body; bool decoded; };
	std::vector<Request> requests;
	int steps = int(src.range(1, 8));
	for (int i = 0; i < steps; i++) {
		std::string url;
		Request request{{}, true, "", false};
		std::vector<std::string> args;
		auto finish = [&] (std::string path) {
			src.shuffle(args);
			url = path + "?";
			for (size_t j = 0; j < args.size(); j++) url += (j ? "&" : "") + args[j];
		};
		switch (src.raw(5)) {
			case 0: {
				int a = int(src.integer(INT_MIN, INT_MAX)), b = int(src.integer(INT_MIN, INT_MAX));
				args = {"first=" + std::to_string(a), "second=" + std::to_string(b)};
				if (src.chance(1, 4)) args.push_back("other=" + encode(text()));
				finish("/subtract");
				request.body = std::to_string(int64_t(a) - b);
				break;
			}
			case 1: {
				std::string name = text();
				bool yell = src.coin();
				args = {"name=" + encode(name)};
				if (yell) args.push_back("yell=on");
				finish("/greet");
				request.body = localApi.greet(name, yell);
				request.decoded = true;
				break;
			}
			case 2: { // both a file and a method
				std::string key = text(), value = text();
				args = {"key=" + encode(key), "value" + std::string(src.coin() ? "+" : "%20") + "of+it=" + encode(value)};
				finish("/set");
				localApi.set(key, value);
				request.body = "/set";
				break;
			}
			case 3: url = "/page"; request.body = "/page"; break;
			case 4: url = "/page?a=b"; request.body = "/page"; break;
			default: url = src.coin() ? "/subtract" : "/missing?first=3"; request.found = false; break;
		}
		src.note("GET " + url);
		request.token = client.get(url);
		requests.push_back(request);
		src.nontrivial = true;
	}
	src.shuffle(requests);
	for (auto& request : requests) {
		client.getResponse(request.token, [&] (std::span<char> message, bool success) {
			requireEqual(request.found, success, "success of the request");
			if (success) {
				std::string got(message.data(), message.size());
				if (request.decoded) {
					std::string decoded;
					Bomba::demangleHttpResponse(got, decoded);
					got = decoded;
				}
				requireEqual(request.body, got, "response to GET");
			}
			return true;
		});
	}
	compareForms(serverApi, localApi);
}

#ifdef C09
PBT_MAIN({"json_rpc", jsonRpc, 100000, 2000000}, {"large", largeJsonRpc, 400, 8000})
#elif defined(C10)
PBT_MAIN({"binary_rpc", binaryRpc, 100000, 2000000}, {"deep_arrays", deepArrays, 20000, 400000}, {"deep_paths", deepPaths, 20000, 400000}, {"large", largeBinaryRpc, 600, 10000})
#elif defined(C11)
PBT_MAIN({"form_rpc", formRpc, 100000, 2000000}, {"get_rpc", getRpc, 60000, 1500000}, {"uncallable", uncallable, 40000, 800000}, {"large", largeFormRpc, 400, 8000})
#endif
