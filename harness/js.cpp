// The JavaScript client, run by Node.js with a stub of the network (and of the page)
#include "api.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include <poll.h>
using namespace pbt;
using model::Value;
using model::StrictJson;

static std::string compact(const Value& v) {
	auto text = [] (std::string_view s) {
		std::string r = "\"";
		for (unsigned char c : s) {
			char hex[8];
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 0x20) { snprintf(hex, sizeof hex, "\\u%04x", c); r += hex; }
			else r += char(c);
		}
		return r + '"';
	};
	std::string r;
	switch (v.kind) {
		case Value::NUL: return "null";
		case Value::BOOL: return v.b ? "true" : "false";
		case Value::INT: return std::to_string(v.i);
		case Value::REAL: { char n[40]; snprintf(n, sizeof n, "%.17g", v.d); return n; }
		case Value::STR: return text(v.s);
		case Value::ARR:
			for (auto& it : v.items) r += (r.empty() ? "" : ",") + compact(it);
			return "[" + r + "]";
		default:
			for (auto& it : v.members) r += (r.empty() ? "" : ",") + text(it.first) + ":" + compact(it.second);
			return "{" + r + "}";
	}
}

struct Node {
	int input = -1, output = -1;
	pid_t pid = -1;
	int uses = 0;
	bool clean = false;
	std::string received;

	static Node& get() {
		static Node node;
		if (node.pid > 0 && (!node.clean || node.uses++ > 400)) node.stop();
		if (node.pid <= 0) node.start();
		node.clean = false;
		return node;
	}
	void stop() {
		kill(pid, SIGKILL);
		waitpid(pid, nullptr, 0);
		close(input); close(output);
		pid = -1;
	}
	void start() {
		int in[2], out[2];
		if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) throw std::runtime_error("no pipes");
		const char* repo = getenv("BOMBA_REPO");
		const char* harness = getenv("PBT_HARNESS");
		std::string script = std::string(harness ? harness : "/verif/harness") + "/driver.mjs";
		std::string client = std::string(repo ? repo : "/repo") + "/public_html/bomba.js";
		pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			dup2(in[0], 0); dup2(out[1], 1);
			int null = open("/dev/null", O_WRONLY);
			dup2(null, 2);
			rlimit unlimited{RLIM_INFINITY, RLIM_INFINITY};
			setrlimit(RLIMIT_CPU, &unlimited);
			setrlimit(RLIMIT_AS, &unlimited);
			execlp("node", "node", "--experimental-vm-modules", "--no-warnings", script.c_str(), client.c_str(), nullptr);
			_exit(127);
		}
		close(in[0]); close(out[1]);
		input = in[1]; output = out[0];
		uses = 0;
		received.clear();
	}
	void send(const Value& value) {
		std::string line = compact(value) + "\n";
		for (size_t at = 0; at < line.size(); ) {
			ssize_t written = write(input, line.data() + at, line.size() - at);
			if (written <= 0) fail("the JavaScript process ended");
			at += written;
		}
	}
	Value receive() {
		while (true) {
			size_t end = received.find('\n');
			if (end != std::string::npos) {
				std::string line = received.substr(0, end);
				received.erase(0, end + 1);
				return StrictJson::parse(line);
			}
			pollfd waited{output, POLLIN, 0};
			int ready = poll(&waited, 1, 100000);
			if (ready < 0 && errno == EINTR) continue;
			if (ready == 0) fail("the JavaScript client did not finish");
			char buffer[65536];
			ssize_t got = read(output, buffer, sizeof buffer);
			if (got < 0 && errno == EINTR) continue;
			if (got <= 0) fail("the JavaScript process ended");
			received.append(buffer, got);
		}
	}
};

static Value object(std::initializer_list<std::pair<std::string, Value>> members) {
	Value v = Value::object();
	v.members.assign(members.begin(), members.end());
	return v;
}
static Value array(std::vector<Value> items) { Value v = Value::array(); v.items = std::move(items); return v; }
static const Value& member(const Value& of, std::string_view name) {
	const Value* found = of.find(name);
	if (!found) fail("the JavaScript client sent no " + std::string(name) + ": " + of.show(300));
	return *found;
}

struct Fetch { int64_t id; std::string url; Value options; };
struct Answer { int status; std::string body; bool broken = false; };

// Sends a command and answers the requests it leads to, collecting as many as expected first
static Value command(Src& src, Node& node, const Value& what, size_t concurrent, const std::function<Answer(const Fetch&)>& answer) {
	node.send(what);
	std::vector<Fetch> waiting;
	size_t answered = 0;
	while (true) {
		if (!waiting.empty() && waiting.size() + answered >= concurrent) {
			size_t index = src.raw(waiting.size() - 1);
			Answer a = answer(waiting[index]);
			node.send(object({{"answer", Value::integer(waiting[index].id)}, {"status", Value::integer(a.status)}, {"body", Value::str(a.body)}, {"broken", Value::boolean(a.broken)}}));
			waiting.erase(waiting.begin() + index);
			answered++;
			if (!waiting.empty()) continue;
		}
		Value message = node.receive();
		if (const Value* done = message.find("done")) {
			if (message.find("failed")) fail("the JavaScript client failed: " + done->show(500));
			if (answered != concurrent) fail("the JavaScript client made " + std::to_string(answered) + " requests instead of " + std::to_string(concurrent));
			return *done;
		}
		waiting.push_back({member(message, "fetch").i, member(message, "url").s, member(message, "options")});
		if (waiting.size() + answered > concurrent) fail("the JavaScript client made an extra request " + message.show(500));
	}
}

struct Location { std::optional<std::string> given; bool window = false; std::string base; };
static Location location(Src& src) {
	Location r;
	r.window = src.coin();
	if (r.window) {
		if (src.chance(1, 3)) { r.given = src.pick({"http://other:99/", "/api/", "https://a.b/c/"}); r.base = *r.given; }
		return r;
	}
	switch (src.raw(6)) {
		case 5: r.given = "https://a.b:80/c/d.e"; r.base = "https://a.b:80/c/d.e/"; break;
		case 6: r.given = "example.com/sub/more"; r.base = "http://example.com/sub/more/"; break;
		case 0: r.base = "http://0.0.0.0:8080/"; break;
		case 1: r.given = "0.0.0.0:8080"; r.base = "http://0.0.0.0:8080/"; break;
		case 2: r.given = "http://example:1234/"; r.base = *r.given; break;
		case 3: r.given = "https://example"; r.base = "https://example/"; break;
		default: r.given = "example.com/sub/"; r.base = "http://example.com/sub/"; break;
	}
	return r;
}
static Value load(Src& src, Node& node, const Location& where, const std::function<Answer(const Fetch&)>& answer) {
	return command(src, node, object({{"load", where.given ? Value::str(*where.given) : Value::null()}, {"window", Value::boolean(where.window)}}), 1, [&] (const Fetch& fetch) {
		requireEqual(where.base + "api_description.json", fetch.url, "address of the description");
		return answer(fetch);
	});
}
static void checkPost(const Location& where, const Fetch& fetch) {
	requireEqual(where.base, fetch.url, "address of a call");
	requireEqual(std::string("POST"), member(fetch.options, "method").s, "HTTP method");
	bool found = false;
	for (auto& [name, value] : member(fetch.options, "headers").members) {
		std::string lower = name;
		std::transform(lower.begin(), lower.end(), lower.begin(), [] (char c) { return char(tolower(c)); });
		if (lower == "content-type") { requireEqual(std::string("application/json"), value.s, "content type of a call"); found = true; }
	}
	require(found, "no content type");
}

// An interface stated at runtime
struct Type {
	enum Kind { NUMBER, STRING, BOOLEAN, ARRAY, CLASS, MAP } kind = NUMBER;
	std::shared_ptr<Type> inner;
	int type = -1;
};
struct Member { std::string name; Type type; bool optional = false; std::string doc = {}; };
struct Class { std::string name; std::vector<Member> members; };
struct Method { std::vector<std::string> path; std::string doc; std::vector<Member> params; std::optional<Type> result; };
struct Stated : Bomba::IRemoteCallable {
	std::vector<Class> classes;
	std::vector<Method> methods;

	void fill(Bomba::IPropertyDescriptionFiller& filler, const Type& type) const {
		switch (type.kind) {
			case Type::NUMBER: filler.addInteger(); break;
			case Type::STRING: filler.addString(); break;
			case Type::BOOLEAN: filler.addBoolean(); break;
			case Type::ARRAY: filler.addArray([&] (Bomba::IPropertyDescriptionFiller& f) { fill(f, *type.inner); }); break;
			case Type::CLASS: filler.addSubobject(classes[type.type].name, [] (Bomba::IPropertyDescriptionFiller&) {}); break;
			case Type::MAP: filler.addSubobject(std::nullopt, [] (Bomba::IPropertyDescriptionFiller&) {}); break;
		}
	}
	void fill(Bomba::IPropertyDescriptionFiller& filler, const std::vector<Member>& members, bool docs) const {
		for (auto& it : members) filler.addMember(it.name, it.doc, [&] {
			if (it.optional) filler.addOptional([&] (Bomba::IPropertyDescriptionFiller& f) { fill(f, it.type); });
			else fill(filler, it.type);
		});
	}
	void describe(Bomba::IRemoteCallableDescriptionFiller& filler, const std::vector<std::string>& path) const {
		std::set<std::string> done;
		for (auto& it : methods) {
			if (it.path.size() <= path.size() || !std::equal(path.begin(), path.end(), it.path.begin())) continue;
			const std::string& next = it.path[path.size()];
			if (it.path.size() == path.size() + 1) {
				filler.addMethod(next, it.doc, [&] (Bomba::IPropertyDescriptionFiller& f) { fill(f, it.params, true); }, [&] (Bomba::IPropertyDescriptionFiller& f) {
					if (it.result) f.addMember("result", "", [&] { fill(f, *it.result); });
				});
			} else if (done.insert(next).second) filler.addSubobject(next, [&] (Bomba::IRemoteCallableDescriptionFiller& f) {
				auto longer = path;
				longer.push_back(next);
				describe(f, longer);
			});
		}
	}
	void generateDescription(Bomba::IRemoteCallableDescriptionFiller& filler) const override { describe(filler, {}); }
	void listTypes(Bomba::ISerialisableDescriptionFiller& filler) const override {
		for (auto& it : classes) filler.fillMembers(it.name, [&] (Bomba::IPropertyDescriptionFiller& f) { fill(f, it.members, false); });
	}
};

static std::string identifier(Src& src) {
	static const std::set<std::string> unusable = {"constructor", "__proto__", "gui", "toJson", "toJSON", "then", "hasOwnProperty", "isPrototypeOf", "toString", "valueOf", "toLocaleString", "propertyIsEnumerable",
			"__defineGetter__", "__defineSetter__", "__lookupGetter__", "__lookupSetter__"};
	static const char first[] = "abcdefghijklmnopqrstuvwxyzABCXYZ_$", other[] = "abcdeXYZ_$0123456789";
	if (src.chance(1, 3)) return src.pick({"name", "result", "params", "request", "response", "id", "class", "new", "function", "value", "method", "path", "index", "types", "description", "i0", "code", "if", "arg", "_", "E1", "made"});
	std::string r(1, first[src.raw(sizeof(first) - 2)]);
	for (size_t i = src.raw(5); i > 0; i--) r += other[src.raw(sizeof(other) - 2)];
	return unusable.count(r) ? "other" : r;
}
static Type randomType(Src& src, int classes, int depth = 0) {
	Type r;
	switch (src.raw(depth > 2 ? 3 : 7)) {
		case 0: case 6: r.kind = Type::NUMBER; break;
		case 1: r.kind = Type::STRING; break;
		case 2: r.kind = Type::BOOLEAN; break;
		case 3: case 7: if (classes) { r.kind = Type::CLASS; r.type = int(src.raw(classes - 1)); } break;
		case 4: r.kind = Type::ARRAY; r.inner = std::make_shared<Type>(randomType(src, classes, depth + 1)); break;
		default: r.kind = Type::MAP; break;
	}
	return r;
}
static std::string documentation(Src& src) {
	std::string made;
	for (int i = 1 + int(src.raw(3)); i > 0; i--) made += src.coin() ? src.text(Src::UTF8, 20) : src.pick<std::string>({"*/", "\n", "`", "${x}", "\\", "//", "/*", "\r", "\xe2\x80\xa8", "\"", "'"});
	return made;
}
static std::vector<Member> randomMembers(Src& src, int classes, size_t most, bool optionals) {
	std::vector<Member> r;
	std::set<std::string> used;
	for (size_t i = src.raw(most); i > 0; i--) {
		Member made{identifier(src), randomType(src, classes), optionals && src.chance(1, 4)};
		if (optionals && src.chance(1, 4)) made.doc = documentation(src);
		if (used.insert(made.name).second) r.push_back(std::move(made));
	}
	return r;
}
static void randomise(Src& src, Stated& made) {
	std::set<std::string> used, usedPaths;
	for (int i = int(src.raw(3)); i > 0; i--) {
		std::string name = "C" + std::to_string(i) + identifier(src);
		made.classes.push_back({name, randomMembers(src, int(made.classes.size()), src.chance(1, 10) ? 20 : 4, false)});
	}
	std::vector<std::vector<std::string>> prefixes = {{}};
	for (int i = int(src.raw(2)); i > 0; i--) {
		auto longer = src.pick(prefixes);
		longer.push_back("in" + identifier(src));
		prefixes.push_back(longer);
	}
	for (int i = 1 + int(src.raw(4)); i > 0; i--) {
		Method method;
		method.path = src.pick(prefixes);
		method.path.push_back("do" + identifier(src));
		std::string joined;
		for (auto& it : method.path) joined += it + ".";
		if (!usedPaths.insert(joined).second) continue;
		if (src.chance(1, 3)) method.doc = documentation(src);
		method.params = randomMembers(src, int(made.classes.size()), src.chance(1, 10) ? 30 : 5, true);
		if (src.coin()) method.result = randomType(src, int(made.classes.size()));
		made.methods.push_back(std::move(method));
	}
}
static Value randomNumber(Src& src) {
	switch (src.raw(2)) {
		case 0: return Value::integer(src.range(-1000, 1000));
		case 1: return Value::integer(src.integer(-(int64_t(1) << 53), int64_t(1) << 53));
		default: { double d = src.real(); return d == 0 ? Value::integer(0) : Value::real(d); }
	}
}
// Both the value as made by the client and as it is expected in the request
struct Both { Value made, expected; };
static Both randomValue(Src& src, const Stated& in, const Type& type, int depth = 0) {
	switch (type.kind) {
		case Type::NUMBER: { Value v = randomNumber(src); return {v, v}; }
		case Type::STRING: { Value v = Value::str(src.text(Src::UTF8, 30)); return {v, v}; }
		case Type::BOOLEAN: { Value v = Value::boolean(src.coin()); return {v, v}; }
		case Type::ARRAY: {
			Both r{Value::array(), Value::array()};
			for (int i = int(src.raw(depth > 1 ? 1 : 3)); i > 0; i--) {
				Both inner = randomValue(src, in, *type.inner, depth + 1);
				r.made.items.push_back(inner.made); r.expected.items.push_back(inner.expected);
			}
			return r;
		}
		case Type::MAP: {
			Both r{Value::object(), Value::object()};
			std::set<std::string> used = {"__proto__"};
			for (int i = int(src.raw(2)); i > 0; i--) {
				std::string key = src.text(Src::UTF8, 8);
				Both inner = randomValue(src, in, Type{Type::Kind(src.raw(2))}, depth + 1);
				if (!used.insert(key).second) continue;
				r.made.members.emplace_back(key, inner.made); r.expected.members.emplace_back(key, inner.expected);
			}
			r.made = object({{"$map", r.made}});
			return r;
		}
		default: {
			const Class& of = in.classes[type.type];
			Both r{Value::object(), Value::object()};
			Value members = Value::array();
			for (auto& it : of.members) {
				Both inner = randomValue(src, in, it.type, depth + 1);
				members.items.push_back(array({Value::str(it.name), inner.made}));
				r.expected.members.emplace_back(it.name, inner.expected);
			}
			r.made = object({{"$class", Value::str(of.name)}, {"$construct", Value::boolean(src.coin())}, {"$members", members}});
			return r;
		}
	}
}
// Damages one value so that it has a type that must be refused
static Value wrongValue(Src& src, const Stated& in, const Type& type, bool nested = false) {
	Value map = object({{"$map", Value::object()}});
	switch (type.kind) {
		case Type::NUMBER: return src.pick({Value::str("5"), Value::boolean(true), Value::array(), map, Value::str(""), Value::null()});
		case Type::STRING: return src.pick({Value::integer(5), Value::boolean(false), Value::array(), map, Value::null()});
		case Type::BOOLEAN: return src.pick({Value::integer(0), Value::str("true"), Value::array(), map, Value::null()});
		case Type::ARRAY: {
			if (src.coin()) { // Only one element is wrong
				Value r = Value::array();
				size_t before = src.raw(2), after = src.raw(2);
				for (size_t i = 0; i < before; i++) r.items.push_back(randomValue(src, in, *type.inner, 1).made);
				r.items.push_back(wrongValue(src, in, *type.inner, true));
				for (size_t i = 0; i < after; i++) r.items.push_back(randomValue(src, in, *type.inner, 1).made);
				return r;
			}
			return src.pick({Value::integer(5), Value::boolean(false), Value::str("abc"), map});
		}
		case Type::MAP: return src.pick({Value::integer(5), Value::boolean(false), Value::str("abc")});
		default: {
			const Class& of = in.classes[type.type];
			if (!nested && !of.members.empty() && src.coin()) { // Only one member is wrong
				Value r = randomValue(src, in, type).made;
				size_t index = src.raw(of.members.size() - 1);
				// The client checks only classes of objects deeper in the structure, not their members
				if (of.members[index].type.kind <= Type::ARRAY) {
					for (auto& it : r.members) if (it.first == "$members") it.second.items[index].items[1] = wrongValue(src, in, of.members[index].type, true);
					return r;
				}
			}
			return src.pick({Value::integer(5), Value::boolean(false), Value::str("abc"), Value::array(), map});
		}
	}
}

static Value randomResult(Src& src, const Stated& in, const std::optional<Type>& type) {
	if (!type) return Value::null();
	return randomValue(src, in, *type).expected;
}
static std::string joined(const std::vector<std::string>& path) {
	std::string r;
	for (auto& it : path) r += (r.empty() ? "" : ".") + it;
	return r;
}
static Value pathValue(const std::vector<std::string>& path) {
	Value r = Value::array();
	for (auto& it : path) r.items.push_back(Value::str(it));
	return r;
}

// Without what comments may need altered
static std::string withoutSpaces(std::string s) {
	for (auto drop : {"\xe2\x80\xa8", "\xe2\x80\xa9"}) for (size_t at; (at = s.find(drop)) != s.npos;) s.erase(at, 3);
	std::erase_if(s, [] (char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '*' || c == '/'; });
	return s;
}
static void checkLoaded(const Stated& stated, const Value& loaded, const std::string& service) {
	size_t index = 0;
	requireEqual(service, member(loaded, "service").s, "name of the service");
	std::set<std::string> expected, got;
	for (auto& it : stated.methods) expected.insert(joined(it.path));
	for (auto& it : member(loaded, "methods").items) {
		std::vector<std::string> path;
		for (auto& part : it.items) path.push_back(part.s);
		require(got.insert(joined(path)).second, "a duplicate method");
		const std::string& source = member(loaded, "sources").items[index++].s;
		size_t commentEnd = source.find("*/");
		if (commentEnd == source.npos) fail("no documentation of " + joined(path));
		std::string comment = withoutSpaces(source.substr(0, commentEnd));
		for (auto& it : stated.methods) if (it.path == path) {
			if (comment.find(withoutSpaces(it.doc)) == comment.npos) fail("documentation of " + joined(path) + " is missing");
			for (auto& param : it.params) if (comment.find(withoutSpaces(param.doc)) == comment.npos) fail("documentation of argument " + param.name + " of " + joined(path) + " is missing");
		}
	}
	require(expected == got, "the JavaScript client has other methods than the interface");
	requireEqual(stated.classes.size(), member(loaded, "types").members.size(), "number of types");
	for (auto& it : stated.classes) {
		const Value& members = member(member(loaded, "types"), it.name);
		requireEqual(it.members.size(), members.items.size(), "number of members of a type");
		for (size_t i = 0; i < it.members.size(); i++) requireEqual(it.members[i].name, members.items[i].s, "member of a type");
	}
}

struct Prepared { const Method* method; Value args, expectedParams; bool refused = false; enum { RESULT, ERROR, BROKEN } outcome; Value result; std::string message; bool answered = false; };

static void stated(Src& src) {
	Stated api;
	randomise(src, api);
	Location where = location(src);
	std::string service = src.text(Src::UTF8, 10);
	std::string description = Bomba::describeInJsonWsp<>(api, "somewhere", service);
	Node& node = Node::get();
	checkLoaded(api, load(src, node, where, [&] (const Fetch&) { return Answer{200, description}; }), service);
	std::set<int64_t> ids;
	size_t made = 0, params = 0;
	for (int round = int(src.range(1, 4)); round > 0; round--) {
		std::vector<Prepared> calls(src.chance(1, 3) ? 1 + src.raw(4) : 1);
		size_t fetches = 0;
		Value list = Value::array();
		for (auto& call : calls) {
			call.method = &src.pick(api.methods);
			call.args = Value::array();
			call.expectedParams = Value::object();
			size_t wrong = src.chance(1, 5) && !call.method->params.empty() ? src.raw(call.method->params.size() - 1) : size_t(-1);
			size_t given = call.method->params.size();
			if (wrong == size_t(-1)) while (given > 0 && call.method->params[given - 1].optional && src.coin()) given--; // The last arguments can be left out
			for (size_t i = 0; i < given; i++) {
				const Member& param = call.method->params[i];
				if (i == wrong) {
					Value value = wrongValue(src, api, param.type);
					if (value.kind == Value::NUL && param.optional) value = Value::array(); // It means absence
					if (value.kind == Value::ARR && param.type.kind == Type::ARRAY && value.items.empty()) value = Value::integer(1);
					call.args.items.push_back(value);
					call.refused = true;
					continue;
				}
				if (param.optional && src.coin()) {
					call.args.items.push_back(src.coin() ? Value::null() : object({{"$undefined", Value::boolean(true)}}));
					continue;
				}
				Both value = randomValue(src, api, param.type);
				call.args.items.push_back(value.made);
				call.expectedParams.members.emplace_back(param.name, value.expected);
				params++;
			}
			call.outcome = src.chance(1, 5) ? Prepared::ERROR : src.chance(1, 10) ? Prepared::BROKEN : Prepared::RESULT;
			call.result = randomResult(src, api, call.method->result);
			call.message = src.text(Src::UTF8, 20);
			if (!call.refused) fetches++;
			list.items.push_back(object({{"path", pathValue(call.method->path)}, {"args", call.args}}));
			src.note(joined(call.method->path) + compact(call.args).substr(0, 300) + (call.refused ? " refused" : ""));
			src.labelIf(call.refused, "refused");
		}
		Value results = command(src, node, object({{"calls", list}}), fetches, [&] (const Fetch& fetch) {
			checkPost(where, fetch);
			Value body = StrictJson::parse(member(fetch.options, "body").s);
			requireEqual(size_t(4), body.members.size(), "number of members of a request");
			requireEqual(std::string("2.0"), member(body, "jsonrpc").s, "version of a request");
			const Value& id = member(body, "id");
			require(id.kind == Value::INT && ids.insert(id.i).second, "identifier of a request is not a unique number");
			// Concurrent calls are started in their order, the identifiers tell which one it is
			Prepared* found = nullptr;
			std::string difference;
			for (auto& call : calls) {
				if (call.refused || call.answered || joined(call.method->path) != member(body, "method").s) continue;
				difference = Value::diff(call.expectedParams, member(body, "params"));
				if (difference.empty()) { found = &call; break; }
			}
			if (!found) fail("wrong request " + body.show(500) + " " + difference);
			found->answered = true;
			made++;
			// Several equal calls could be exchanged, so they get the same result
			for (auto& call : calls) if (&call != found && call.method == found->method && Value::diff(call.expectedParams, found->expectedParams).empty()) { call.outcome = found->outcome; call.result = found->result; call.message = found->message; }
			if (found->outcome == Prepared::BROKEN) return src.coin() ? Answer{200, "", true} : Answer{200, src.pick({"", "{\"jsonrpc\":", "<html>", "nonsense"})};
			if (found->outcome == Prepared::ERROR)
				return Answer{200, compact(object({{"jsonrpc", Value::str("2.0")}, {"id", id}, {"error", object({{"code", Value::integer(-32603)}, {"message", Value::str(found->message)}})}}))};
			return Answer{200, compact(object({{"jsonrpc", Value::str("2.0")}, {"id", id}, {"result", found->result}}))};
		});
		requireEqual(calls.size(), results.items.size(), "number of results");
		for (size_t i = 0; i < calls.size(); i++) {
			auto& call = calls[i];
			const Value& result = results.items[i];
			if (call.refused) {
				if (!result.find("thrown")) fail("wrong arguments were accepted: " + compact(call.args));
			} else if (call.outcome == Prepared::ERROR) requireEqual(call.message, member(result, "thrown").s, "error");
			else if (call.outcome == Prepared::BROKEN) require(result.find("thrown"), "a call without a response succeeded");
			else {
				if (!result.find("result")) fail("a correct call failed: " + result.show(500));
				requireEqual(std::string(), Value::diff(call.result, *result.find("result")), "result");
			}
		}
		src.labelIf(calls.size() > 1, "concurrent");
	}
	node.clean = true;
	src.labelIf(where.window, "in a browser");
	src.labelIf(!api.classes.empty(), "classes");
	src.nontrivial = made > 0 && params > 0;
}

// The GUI collects arguments from fields
static bool fields(Src& src, const Stated& in, const Type& type, std::vector<Value>& into, std::vector<std::string>& kinds, Value& expected) {
	switch (type.kind) {
		case Type::NUMBER: expected = randomNumber(src); kinds.push_back("number"); into.push_back(expected); return true;
		case Type::STRING: expected = Value::str(src.text(Src::UTF8, 20)); kinds.push_back("string"); into.push_back(expected); return true;
		case Type::BOOLEAN: expected = Value::boolean(src.coin()); kinds.push_back("boolean"); into.push_back(expected); return true;
		case Type::ARRAY: expected = Value::array(); return true;
		case Type::MAP: expected = Value::object(); return true;
		default:
			expected = Value::object();
			for (auto& it : in.classes[type.type].members) {
				Value inner;
				fields(src, in, it.type, into, kinds, inner);
				expected.members.emplace_back(it.name, inner);
			}
			return true;
	}
}
static void gui(Src& src) {
	Stated api;
	randomise(src, api);
	Location where;
	where.window = true;
	std::string description = Bomba::describeInJsonWsp<>(api, "somewhere", "something");
	Node& node = Node::get();
	checkLoaded(api, load(src, node, where, [&] (const Fetch&) { return Answer{200, description}; }), "something");
	requireEqual(int64_t(api.methods.size()), member(command(src, node, object({{"wholeGui", Value::boolean(true)}}), 0, nullptr), "questionnaires").i, "number of methods in the GUI");
	size_t total = 0;
	for (int round = int(src.range(1, 3)); round > 0; round--) {
		const Method& method = src.pick(api.methods);
		std::vector<Value> values;
		std::vector<std::string> kinds;
		Value params = Value::object();
		for (auto& it : method.params) {
			Value expected;
			fields(src, api, it.type, values, kinds, expected);
			params.members.emplace_back(it.name, expected);
		}
		total += values.size();
		bool error = src.chance(1, 5);
		Value result = randomResult(src, api, method.result);
		src.note(joined(method.path) + compact(array(values)).substr(0, 300));
		Value got = command(src, node, object({{"gui", pathValue(method.path)}, {"fields", array(values)}}), 1, [&] (const Fetch& fetch) {
			checkPost(where, fetch);
			Value body = StrictJson::parse(member(fetch.options, "body").s);
			requireEqual(joined(method.path), member(body, "method").s, "method");
			requireEqual(std::string(), Value::diff(params, member(body, "params")), "arguments from the GUI");
			Value response = object({{"jsonrpc", Value::str("2.0")}, {"id", member(body, "id")}});
			if (error) response.members.emplace_back("error", object({{"code", Value::integer(-32603)}, {"message", Value::str("wrong")}}));
			else response.members.emplace_back("result", result);
			return Answer{200, compact(response)};
		});
		const Value& gotKinds = member(got, "kinds");
		requireEqual(kinds.size(), gotKinds.items.size(), "number of fields");
		for (size_t i = 0; i < kinds.size(); i++) requireEqual(kinds[i], gotKinds.items[i].s, "kind of field");
		if (error) requireEqual(std::string("wrong"), member(got, "thrown").s, "error");
		else {
			const Value& shown = member(got, "shown");
			require(shown.items.size() == 1, "not one place for the result");
			if (result.kind == Value::STR) { if (result.s != "null") requireEqual(result.s, shown.items[0].s, "shown result"); }
			else if (result.kind == Value::INT) requireEqual(std::to_string(result.i), shown.items[0].s, "shown result");
			else if (result.kind == Value::BOOL) requireEqual(std::string(result.b ? "true" : "false"), shown.items[0].s, "shown result");
			else if (result.kind == Value::NUL) requireEqual(std::string(), shown.items[0].s, "shown result");
		}
	}
	node.clean = true;
	src.labelIf(!api.classes.empty(), "classes");
	src.nontrivial = total > 0;
}

// The whole way to C++ functions
static void served(Src& src) {
	Api serverApi, serverDeep, local, localDeep;
	Tree server(serverApi, serverDeep);
	std::string description = Bomba::describeInJsonWsp<>(server.root, "somewhere", "Test");
	struct Downloads : Bomba::IHttpGetResponder {
		std::string& description;
		Downloads(std::string& description) : description(description) {}
		bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
			if (path != "/api_description.json" && path != "api_description.json") return false;
			writer.writeKnownSize("application/json", description.size(), [&] (Bomba::GeneralisedBuffer& buffer) { buffer += std::string_view(description); });
			return true;
		}
	} downloads(description);
	Bomba::JsonRpcServer<> rpc(server.root, downloads);
	auto session = rpc.getSession();
	transport::Feeder feeder{reinterpret_cast<Bomba::ITcpResponder&>(session)};
	size_t seen = 0;
	auto answer = [&] (const Fetch& fetch) {
		size_t start = fetch.url.find("/", fetch.url.find("//") + 2);
		std::string request;
		if (fetch.options.kind == Value::NUL || !fetch.options.find("method")) request = "GET " + fetch.url.substr(start) + " HTTP/1.1\r\nHost: a\r\n\r\n";
		else {
			request = member(fetch.options, "method").s + " " + fetch.url.substr(start) + " HTTP/1.1\r\n";
			for (auto& [name, value] : member(fetch.options, "headers").members) request += name + ": " + value.s + "\r\n";
			const std::string& body = member(fetch.options, "body").s;
			request += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		}
		feeder.receive(request);
		require(!feeder.disconnected, "the server disconnected");
		refhttp::Message m = refhttp::parse(feeder.output, seen, true);
		requireEqual(feeder.output.size(), seen, "size of the HTTP response");
		return Answer{m.status, m.body};
	};
	Location where;
	where.given = "0.0.0.0:8080";
	where.base = "http://0.0.0.0:8080/";
	Node& node = Node::get();
	load(src, node, where, answer);
	model::GenOptions options;
	options.maxText = 60;
	options.maxItems = 4;
	auto arbitrary = [&] (auto type) { model::generate(src, type, options); return type; };
	size_t calls = 0;
	auto made = [&] (const auto& value) { return model::toValue(value); };
	auto text = [&] { return arbitrary(std::string()); };
	auto point = [&] (const Point& p) {
		return object({{"$class", Value::str("Point")}, {"$construct", Value::boolean(src.coin())}, {"$members", array({
			array({Value::str("x"), made(p.x)}), array({Value::str("name"), made(p.name)}), array({Value::str("flag"), made(p.flag)})})}});
	};
	for (int round = int(src.range(1, 6)); round > 0; round--) {
		bool deep = src.coin();
		Api& api = deep ? localDeep : local;
		std::vector<std::string> path = deep ? std::vector<std::string>{"sub", "deep"} : std::vector<std::string>{"api"};
		Value args = Value::array(), expected;
		std::string error;
		bool fails = false;
		auto arg = [&] (const auto& value) { args.items.push_back(made(value)); return value; };
		auto number = [&] { return src.integer(-(int64_t(1) << 53), int64_t(1) << 53); };
		switch (src.raw(13)) {
			case 0: { path.push_back("set"); auto key = arg(text()); api.set(key, arg(text())); break; }
			case 1: { path.push_back("get"); auto key = arg(!api.store.empty() && src.coin() ? api.store.begin()->first : text()); expected = made(api.get(key)); break; }
			case 2: path.push_back("count"); expected = made(api.count()); break;
			case 3: path.push_back("echo_int"); expected = made(api.echoInt(arg(number()))); break;
			case 4: { path.push_back("weigh"); auto a = arg(arbitrary(int8_t())); auto b = arg(arbitrary(uint16_t())); auto c = arg(arbitrary(uint32_t())); auto d = arg(arbitrary(int16_t())); expected = made(api.weigh(a, b, c, d)); break; }
			case 5: { path.push_back("echo_real"); double d = arbitrary(double()); if (d == 0) d = 1; expected = made(api.echoReal(arg(d))); break; }
			case 6: path.push_back("negate"); expected = made(api.negate(arg(src.coin()))); break;
			case 7: { path.push_back("echo_list"); auto l = arg(arbitrary(std::vector<std::string>())); expected = made(api.echoList(l, arg(src.coin()))); break; }
			case 8: {
				path.push_back("echo_map");
				auto map = arbitrary(std::map<std::string, int>());
				map.erase("__proto__");
				args.items.push_back(object({{"$map", made(map)}}));
				expected = made(api.echoMap(map));
				break;
			}
			case 9: {
				path.push_back("shift");
				auto p = arbitrary(Point());
				args.items.push_back(point(p));
				expected = made(api.shift(p, arg(arbitrary(int()))));
				break;
			}
			case 10: {
				path.push_back("plan");
				auto trip = arbitrary(Trip());
				if (!trip.extra) trip.extra = arbitrary(Point());
				trip.costs.erase("__proto__");
				std::vector<Value> points;
				for (auto& it : trip.points) points.push_back(point(it));
				args.items.push_back(object({{"$class", Value::str("Trip")}, {"$construct", Value::boolean(src.coin())}, {"$members", array({
					array({Value::str("title"), made(trip.title)}), array({Value::str("points"), array(points)}), array({Value::str("extra"), point(*trip.extra)}),
					array({Value::str("costs"), object({{"$map", made(trip.costs)}})}), array({Value::str("pair"), made(trip.pair)})})}}));
				expected = made(api.plan(trip, arg(src.coin())));
				break;
			}
			case 11: {
				path.push_back("maybe");
				auto t = arbitrary(std::shared_ptr<std::string>());
				args.items.push_back(t ? made(*t) : src.coin() ? Value::null() : object({{"$undefined", Value::boolean(true)}}));
				expected = made(api.maybe(t, arg(text())));
				break;
			}
			case 12: path.push_back("failing"); fails = true; try { api.failing(arg(text())); } catch (std::exception& e) { error = e.what(); } break;
			default: path.push_back("get_log"); expected = made(api.getLog()); break;
		}
		src.note(joined(path) + compact(args).substr(0, 300));
		Value got = command(src, node, object({{"calls", array({object({{"path", pathValue(path)}, {"args", args}})})}}), 1, answer).items.at(0);
		if (fails) requireEqual(error, member(got, "thrown").s, "error");
		else {
			if (!got.find("result")) fail("the call failed: " + got.show(500));
			requireEqual(std::string(), Value::diff(expected, *got.find("result")), "result");
		}
		calls++;
	}
	node.clean = true;
	for (auto [s, l] : {std::pair{&serverApi, &local}, std::pair{&serverDeep, &localDeep}}) {
		requireEqual(l->counter, s->counter, "state of the server (counter)");
		requireEqual(std::string(), Value::diff(model::toValue(l->store), model::toValue(s->store)), "state of the server (store)");
	}
	src.nontrivial = calls > 1;
}

PBT_MAIN({"stated", stated, 8000, 150000}, {"gui", gui, 4500, 80000}, {"served", served, 5500, 120000})
