// C31: callables implemented by the user are served and called like the built-in ones
#include "api.hpp"
#include "transport.hpp"
#include "refhttp.hpp"
#include "refbin.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_dynamic_object.hpp"
using namespace pbt;
using namespace transport;
using model::Value;
using model::JsonStyle;
using model::StrictJson;
using Flags = Bomba::SerialisationFlags::Flags;

struct Outcome {
	enum Kind { RESULT, ERROR, REFUSED, THROWN } kind = RESULT;
	Value result;
	std::string message;
	int repeated = 1;
	bool returned = false; // After reporting an error
	int thrown = 0;
};
enum ArgKind { INTEGER, TEXT, REAL, TRUTH, LIST };
struct Arg { std::string name; ArgKind kind; };

static void write(Bomba::IStructuredOutput& out, const Value& v) {
	switch (v.kind) {
		case Value::NUL: return out.writeNull(Flags::NONE);
		case Value::BOOL: return out.writeBool(Flags::NONE, v.b);
		case Value::INT: return out.writeInt(Flags::INT_64, v.i);
		case Value::REAL: return out.writeFloat(Flags::FLOAT_64, v.d);
		case Value::STR: return out.writeString(Flags::NONE, v.s);
		case Value::ARR:
			out.startWritingArray(Flags::NONE, int(v.items.size()));
			for (size_t i = 0; i < v.items.size(); i++) { out.introduceArrayElement(Flags::NONE, int(i)); write(out, v.items[i]); }
			return out.endWritingArray(Flags::NONE);
		case Value::OBJ:
			out.startWritingObject(Flags::OBJECT_LAYOUT_KNOWN, int(v.members.size()));
			for (size_t i = 0; i < v.members.size(); i++) { out.introduceObjectMember(Flags::OBJECT_LAYOUT_KNOWN, v.members[i].first, int(i)); write(out, v.members[i].second); }
			return out.endWritingObject(Flags::OBJECT_LAYOUT_KNOWN);
	}
}
static Value read(Bomba::IStructuredInput& in, ArgKind kind) {
	switch (kind) {
		case INTEGER: return Value::integer(in.readInt(Flags::INT_64));
		case TEXT: return Value::str(in.readString(Flags::NONE));
		case REAL: return Value::real(in.readFloat(Flags::FLOAT_64));
		case TRUTH: return Value::boolean(in.readBool(Flags::NONE));
		default: {
			Value list = Value::array();
			in.startReadingArray(Flags::NONE);
			while (in.nextArrayElement(Flags::NONE)) list.items.push_back(Value::integer(in.readInt(Flags::INT_64)));
			in.endReadingArray(Flags::NONE);
			return list;
		}
	}
}
// Reads a value of the same form
static Value readLike(Bomba::IStructuredInput& in, const Value& form) {
	switch (form.kind) {
		case Value::NUL: in.readNull(Flags::NONE); return Value::null();
		case Value::BOOL: return read(in, TRUTH);
		case Value::INT: return read(in, INTEGER);
		case Value::REAL: return read(in, REAL);
		case Value::STR: return read(in, TEXT);
		case Value::ARR: return read(in, LIST);
		default: {
			Value made = Value::object(true);
			in.readObject(Flags::OBJECT_LAYOUT_KNOWN, [&] (std::optional<std::string_view> name, int index) {
				size_t at = 0;
				while (at < form.members.size() && !(name ? *name == form.members[at].first : index == int(at))) at++;
				if (at < form.members.size()) made.members.emplace_back(form.members[at].first, readLike(in, form.members[at].second));
				else if (name) in.skipObjectElement(Flags::NONE);
				return name || index + 1 < int(form.members.size());
			});
			return made;
		}
	}
}

struct Strange {}; // Not derived from std::exception
struct Leaf : Bomba::IRemoteCallable {
	std::vector<Arg> args;
	mutable std::deque<Outcome> outcomes; // Of the next calls
	mutable std::vector<std::optional<Value>> calls; // Arguments received

	bool call(Bomba::IStructuredInput* arguments, Bomba::IStructuredOutput& result, Bomba::Callback<> introduceResult, Bomba::Callback<void(std::string_view)> introduceError,
			std::optional<Bomba::UserId>) const override {
		if (arguments) {
			Value got = Value::object(true);
			arguments->readObject(Flags::OBJECT_LAYOUT_KNOWN, [&] (std::optional<std::string_view> name, int index) {
				size_t at = 0; // The name isn't valid any more after reading something
				while (at < args.size() && !(name ? *name == args[at].name : index == int(at))) at++;
				if (at < args.size()) got.members.emplace_back(args[at].name, read(*arguments, args[at].kind));
				else if (name) arguments->skipObjectElement(Flags::NONE);
				return name || index + 1 < int(args.size());
			});
			calls.push_back(got);
		} else calls.push_back(std::nullopt);
		if (outcomes.empty()) return false;
		Outcome outcome = outcomes.front();
		outcomes.pop_front();
		switch (outcome.kind) {
			case Outcome::RESULT:
				introduceResult();
				write(result, outcome.result);
				return true;
			case Outcome::ERROR:
				for (int i = 0; i < outcome.repeated; i++) introduceError(i ? "another" : std::string_view(outcome.message));
				return outcome.returned;
			case Outcome::REFUSED: return false;
			default:
				if (outcome.thrown == 0) throw std::runtime_error(outcome.message);
				if (outcome.thrown == 1) throw std::logic_error(outcome.message);
				if (outcome.thrown == 2) Bomba::remoteError(outcome.message);
				throw std::out_of_range(outcome.message);
		}
	}
	// As a client
	Bomba::RequestToken send(const std::vector<Value>& values) const {
		return getResponder()->send({}, this, [&] (Bomba::IStructuredOutput& out, Bomba::RequestToken) {
			out.startWritingObject(Flags::OBJECT_LAYOUT_KNOWN, int(args.size()));
			for (size_t i = 0; i < args.size(); i++) {
				out.introduceObjectMember(Flags::OBJECT_LAYOUT_KNOWN, args[i].name, int(i));
				write(out, values[i]);
			}
			out.endWritingObject(Flags::OBJECT_LAYOUT_KNOWN);
		});
	}
	bool ready(Bomba::RequestToken token) const { return getResponder()->hasResponse(token); }
	Value get(Bomba::RequestToken token, const Value& form) const {
		Value got;
		int times = 0;
		getResponder()->getResponse(token, [&] (Bomba::IStructuredInput& in) { got = readLike(in, form); times++; });
		requireEqual(1, times, "number of results read");
		return got;
	}
};
struct Branch : Bomba::IRemoteCallable {
	std::vector<std::pair<std::string, std::unique_ptr<Bomba::IRemoteCallable>>> children;
	const Bomba::IRemoteCallable* wild = nullptr; // What is found under any name starting with "any"

	void add(std::string name, std::unique_ptr<Bomba::IRemoteCallable> child) {
		setSelfAsParent(&*child);
		children.emplace_back(name, std::move(child));
	}
	const Bomba::IRemoteCallable* getChild(std::string_view name) const override {
		for (auto& it : children) if (it.first == name) return &*it.second;
		return name.starts_with("any") ? wild : nullptr;
	}
	const Bomba::IRemoteCallable* getChild(int index) const override { return size_t(index) < children.size() ? &*children[index].second : nullptr; }
	std::pair<std::string_view, int> childName(const Bomba::IRemoteCallable* child) const override {
		for (size_t i = 0; i < children.size(); i++) if (&*children[i].second == child) return {children[i].first, int(i)};
		return {"", NO_SUCH_STRUCTURE};
	}
};
struct Anything : Bomba::IRemoteCallable { // Its children are found only by name
	const Bomba::IRemoteCallable* leaf;
	std::string prefix;
	const Bomba::IRemoteCallable* getChild(std::string_view name) const override { return name.starts_with(prefix) ? leaf : nullptr; }
};
struct Located { Leaf* leaf; std::vector<std::string> names; std::vector<int> indexes; };
struct Structure {
	std::unique_ptr<Bomba::IRemoteCallable> root;
	Branch* wildParent = nullptr;
	Anything* anything = nullptr;
	std::vector<Located> leaves;
};
// The same choices make the same structure
static std::string name(Src& src, int index) { return src.text(Src::IDENT, 6) + "x" + std::to_string(index); }
static std::unique_ptr<Leaf> makeLeaf(Src& src, bool forms) {
	auto leaf = std::make_unique<Leaf>();
	for (int i = 0, count = int(src.raw(4)); i < count; i++) leaf->args.push_back({name(src, i), ArgKind(src.raw(forms ? 2 : 4))});
	return leaf;
}
static void build(Src& src, Branch& branch, Structure& structure, bool forms, int depth, std::vector<std::string> names, std::vector<int> indexes) {
	int count = src.chance(1, 60) ? int(src.range(100, 250)) : int(src.range(1, 4));
	for (int i = 0; i < count; i++) {
		auto childNames = names;
		auto childIndexes = indexes;
		childNames.push_back(name(src, i));
		childIndexes.push_back(i);
		if (depth < 2 && count < 10 && src.chance(1, 4)) {
			auto child = std::make_unique<Branch>();
			build(src, *child, structure, forms, depth + 1, childNames, childIndexes);
			branch.add(childNames.back(), std::move(child));
		} else {
			auto leaf = makeLeaf(src, forms);
			structure.leaves.push_back({&*leaf, childNames, childIndexes});
			branch.add(childNames.back(), std::move(leaf));
		}
	}
}
static Structure build(Src& src, bool forms) {
	Structure made;
	if (src.chance(1, 8)) { // Without any object
		auto leaf = makeLeaf(src, forms);
		made.leaves.push_back({&*leaf, {}, {}});
		made.root = std::move(leaf);
	} else {
		auto branch = std::make_unique<Branch>();
		build(src, *branch, made, forms, 0, {}, {});
		made.wildParent = &*branch;
		branch->wild = made.leaves[0].leaf;
		auto anything = std::make_unique<Anything>();
		anything->leaf = made.leaves[0].leaf;
		anything->prefix = name(src, 7);
		made.anything = &*anything;
		branch->add("~", std::move(anything));
		made.root = std::move(branch);
	}
	return made;
}

static Value makeValue(Src& src, ArgKind kind, bool forms = false) {
	switch (kind) {
		case INTEGER: return Value::integer(src.integer(INT64_MIN, INT64_MAX));
		case TEXT: return Value::str(src.text(forms ? Src::IDENT : Src::UTF8, src.chance(1, 20) ? 3000 : 30));
		case REAL: return Value::real(double(src.integer(-(1ll << 50), 1ll << 50)) / 1024);
		case TRUTH: return Value::boolean(src.coin());
		default: {
			Value list = Value::array();
			for (int i = int(src.raw(5)); i > 0; i--) list.items.push_back(makeValue(src, INTEGER));
			return list;
		}
	}
}
static Value makeResult(Src& src) {
	switch (src.raw(6)) {
		case 0: return Value::null();
		case 1: {
			Value object = Value::object(true);
			for (int i = 0, count = int(src.range(1, 4)); i < count; i++) object.members.emplace_back(name(src, i), makeValue(src, ArgKind(src.raw(4))));
			return object;
		}
		default: return makeValue(src, ArgKind(src.raw(4)));
	}
}
static Outcome makeOutcome(Src& src, int failures) {
	Outcome outcome;
	if (src.chance(failures, 10)) {
		outcome.kind = Outcome::Kind(src.raw(2) + 1);
		outcome.message = src.text(Src::UTF8, 30);
		std::erase(outcome.message, char(0)); // Exceptions have zero terminated messages
		outcome.repeated = src.chance(1, 4) ? int(src.range(2, 4)) : 1;
		outcome.returned = src.coin();
		outcome.thrown = int(src.raw(3));
	} else outcome.result = makeResult(src);
	return outcome;
}
static std::string show(const Outcome& outcome) {
	switch (outcome.kind) {
		case Outcome::RESULT: return "result " + outcome.result.show(200);
		case Outcome::ERROR: return "error " + printable(outcome.message) + " reported " + std::to_string(outcome.repeated) + " times, returning " + (outcome.returned ? "true" : "false");
		case Outcome::REFUSED: return "refused";
		default: return "exception " + std::to_string(outcome.thrown) + " " + printable(outcome.message);
	}
}
static void encode(refbin::Encoder<uint32_t>& e, const Value& v) {
	switch (v.kind) {
		case Value::NUL: return;
		case Value::BOOL: return e.add(v.b);
		case Value::INT: return e.add(v.i);
		case Value::REAL: return e.add(v.d);
		case Value::STR: return e.text(v.s);
		case Value::ARR: e.size(v.items.size()); for (auto& it : v.items) encode(e, it); return;
		case Value::OBJ: for (auto& it : v.members) encode(e, it.second); return;
	}
}
static std::string join(const std::vector<std::string>& parts, char separator) {
	std::string r;
	for (auto& it : parts) r += (r.empty() ? "" : std::string(1, separator)) + it;
	return r;
}
struct Expected { Leaf* leaf; std::optional<Value> args; };
static void compareCalls(Structure& structure, const std::vector<Expected>& expected) {
	for (auto& located : structure.leaves) {
		size_t at = 0;
		for (auto& it : expected) if (it.leaf == located.leaf) {
			require(at < located.leaf->calls.size(), "something was not called");
			auto& got = located.leaf->calls[at++];
			requireEqual(it.args.has_value(), got.has_value(), "whether arguments were supplied");
			if (got) {
				std::string d = Value::diff(*it.args, *got);
				if (!d.empty()) fail("a callable got different arguments: " + d);
			}
		}
		requireEqual(at, located.leaf->calls.size(), "number of calls");
	}
}

static std::string httpPost(const std::string& path, const std::string& type, const std::string& body) {
	return "POST " + path + " HTTP/1.1\r\nHost: a\r\nContent-Type: " + type + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
}
static void feed(Src& src, Feeder& feeder, const std::string& stream) {
	for (size_t at = 0; at < stream.size() && !feeder.disconnected;) {
		size_t size = segment(src, stream.size() - at);
		feeder.receive(std::string_view(stream).substr(at, size));
		at += size;
	}
}

static void jsonRpc(Src& src) {
	Structure structure = build(src, false);
	Bomba::JsonRpcServer<> server(*structure.root);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	std::vector<Expected> calls;
	struct Response { Value id; Outcome outcome; };
	struct Message { bool batch; std::vector<Response> responses; };
	std::vector<Message> messages;
	std::string stream;
	int failures = 0;
	for (int i = int(src.range(1, 6)); i > 0; i--) {
		Message message{src.chance(1, 3), {}};
		Value batch = Value::array();
		for (int j = message.batch ? int(src.range(1, 5)) : 1; j > 0; j--) {
			auto& located = structure.leaves[src.raw(structure.leaves.size() - 1)];
			std::string method = join(located.names, '.');
			Leaf* leaf = located.leaf;
			if (structure.wildParent && src.chance(1, 8)) { leaf = structure.leaves[0].leaf; method = "any" + src.text(Src::IDENT, 5); }
			else if (structure.anything && src.chance(1, 8)) { leaf = structure.leaves[0].leaf; method = "~." + structure.anything->prefix + src.text(Src::IDENT, 5); }
			Value request = Value::object(true), params = Value::object(true), sent;
			for (auto& arg : leaf->args) params.members.emplace_back(arg.name, makeValue(src, arg.kind));
			sent = params;
			if (src.chance(1, 4)) { JsonStyle style(src); sent.members.emplace_back("another", style.junk(2)); }
			if (src.coin()) src.shuffle(sent.members);
			Outcome outcome = makeOutcome(src, 4);
			failures += outcome.kind != Outcome::RESULT;
			src.note(method + sent.show(200) + ": " + show(outcome));
			request.members.emplace_back("jsonrpc", Value::str("2.0"));
			if (src.chance(5, 6)) {
				Value id = src.coin() ? Value::integer(src.range(-1000, 1000)) : Value::str(src.text(Src::UTF8, 10));
				request.members.emplace_back("id", id);
				message.responses.push_back({id, outcome});
			}
			request.members.emplace_back("method", Value::str(method));
			bool omitted = leaf->args.empty() && src.coin();
			if (!omitted) request.members.emplace_back("params", sent);
			src.shuffle(request.members);
			leaf->outcomes.push_back(outcome);
			calls.push_back({leaf, omitted ? std::nullopt : std::optional<Value>(params)});
			if (message.batch) batch.items.push_back(request);
			else batch = request;
		}
		JsonStyle style(src);
		style.extras = style.reorder = false;
		stream += httpPost("/", "application/json", style.text(batch));
		messages.push_back(message);
	}
	feed(src, feeder, stream);
	require(!feeder.disconnected, "the server disconnected");
	compareCalls(structure, calls);
	auto responses = refhttp::parseAll(feeder.output, true);
	requireEqual(messages.size(), responses.size(), "number of HTTP responses");
	for (size_t i = 0; i < messages.size(); i++) {
		auto& wanted = messages[i].responses;
		auto& body = responses[i].body;
		requireEqual(2, responses[i].status / 100, "HTTP status");
		if (wanted.empty()) {
			require(body.empty() || (messages[i].batch && StrictJson::parse(body).items.empty()), "a notification was responded to");
			continue;
		}
		Value got = StrictJson::parse(body);
		if (!messages[i].batch) { Value array = Value::array(); array.items.push_back(got); got = array; }
		requireEqual(wanted.size(), got.items.size(), "number of responses");
		for (size_t j = 0; j < wanted.size(); j++) {
			Value &response = got.items[j];
			Value want = Value::object();
			want.members.emplace_back("jsonrpc", Value::str("2.0"));
			want.members.emplace_back("id", wanted[j].id);
			auto& outcome = wanted[j].outcome;
			if (outcome.kind == Outcome::RESULT) want.members.emplace_back("result", outcome.result);
			else {
				const Value* error = response.find("error");
				require(error && error->kind == Value::OBJ, "a failure was not reported");
				const Value* code = error->find("code"), *text = error->find("message");
				require(code && code->kind == Value::INT, "an error without a code");
				require(text && text->kind == Value::STR, "an error without a message");
				if (outcome.kind != Outcome::REFUSED) requireEqual(outcome.message, text->s, "message of the error");
				requireEqual(size_t(2), error->members.size(), "number of members of the error");
				want.members.emplace_back("error", *error);
			}
			std::string d = Value::diff(want, response);
			if (!d.empty()) fail("wrong response to " + wanted[j].id.show() + ": " + d);
		}
	}
	src.labelIf(failures > 0, "failures");
	src.nontrivial = calls.size() > 1;
}

static void binary(Src& src) {
	Structure structure = build(src, false);
	Bomba::BinaryProtocolServer<uint32_t> server(*structure.root);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	std::vector<Expected> calls;
	std::string stream, expected;
	bool failed = false;
	for (int i = int(src.range(1, 8)); i > 0; i--) {
		auto& located = structure.leaves[src.raw(structure.leaves.size() - 1)];
		refbin::Encoder<uint32_t> request, result;
		uint32_t id = uint32_t(src.raw(~0u));
		for (int index : located.indexes) request.bytes(index, 1);
		Value params = Value::object(true);
		for (auto& arg : located.leaf->args) {
			params.members.emplace_back(arg.name, makeValue(src, arg.kind));
			encode(request, params.members.back().second);
		}
		Outcome outcome = makeOutcome(src, 1);
		src.note(join(located.names, '.') + params.show(200) + ": " + show(outcome));
		stream += refbin::message<uint32_t>(id, {}).substr(0, 4);
		refbin::Encoder<uint32_t> size;
		size.size(8 + request.out.size());
		stream += size.out + request.out;
		if (failed) continue;
		calls.push_back({located.leaf, params});
		located.leaf->outcomes.push_back(outcome);
		if (outcome.kind == Outcome::RESULT) {
			encode(result, outcome.result);
			expected += refbin::message<uint32_t>(id, {}).substr(0, 4);
			refbin::Encoder<uint32_t> resultSize;
			resultSize.size(8 + result.out.size());
			expected += resultSize.out + result.out;
		} else failed = true;
	}
	feed(src, feeder, stream);
	requireEqual(expected, feeder.output, "responses");
	requireEqual(failed, feeder.disconnected, "whether the server disconnected");
	compareCalls(structure, calls);
	src.labelIf(failed, "failures");
	src.nontrivial = calls.size() > 1;
}

static void forms(Src& src) {
	Structure structure = build(src, true);
	struct Pages : Bomba::IHttpGetResponder {
		bool get(std::string_view, Bomba::IWriteStarter&) override { return false; }
	} pages;
	Bomba::RpcGetResponder<> getResponder(pages, *structure.root);
	Bomba::HtmlPostResponder<> postResponder(*structure.root);
	Bomba::HttpServer<> server(getResponder, postResponder);
	auto session = server.getSession();
	Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	std::vector<Expected> calls;
	struct Response { bool success; std::optional<std::string> body; };
	std::vector<Response> expected;
	std::string stream;
	int failures = 0;
	for (int i = int(src.range(1, 6)); i > 0; i--) {
		auto& located = structure.leaves[src.raw(structure.leaves.size() - 1)];
		Value params = Value::object(true);
		std::vector<std::string> fields;
		for (auto& arg : located.leaf->args) {
			params.members.emplace_back(arg.name, makeValue(src, arg.kind, true));
			const Value& v = params.members.back().second;
			char real[64];
			snprintf(real, sizeof(real), "%.17g", v.d);
			for (char& c : real) if (c == '+') c = ' ';
			std::string text = v.kind == Value::INT ? std::to_string(v.i) : v.kind == Value::STR ? v.s : "";
			if (v.kind == Value::REAL) for (char* c = real; *c; c++) text += *c == ' ' ? std::string("%2B") : std::string(1, *c);
			fields.push_back(arg.name + "=" + text);
		}
		if (src.chance(1, 4)) fields.push_back("another=5");
		if (src.coin()) src.shuffle(fields);
		bool post = src.coin();
		Outcome outcome = makeOutcome(src, 4);
		std::optional<std::string> body;
		if (outcome.kind == Outcome::RESULT && !post) {
			outcome.result = makeValue(src, src.coin() ? INTEGER : TEXT, true);
			body = outcome.result.kind == Value::INT ? std::to_string(outcome.result.i) : outcome.result.s;
		}
		failures += outcome.kind != Outcome::RESULT;
		std::vector<std::string> names = located.names;
		if (structure.anything && located.leaf == structure.leaves[0].leaf && src.coin()) names = {"~", structure.anything->prefix + src.text(Src::IDENT, 5)};
		std::string path = "/" + join(names, '/'), data = join(fields, '&');
		src.note((post ? "POST " : "GET ") + path + " " + printable(data, 200) + ": " + show(outcome));
		if (post) stream += httpPost(path, "application/x-www-form-urlencoded", data);
		else stream += "GET " + path + "?" + data + " HTTP/1.1\r\nHost: a\r\n\r\n";
		located.leaf->outcomes.push_back(outcome);
		calls.push_back({located.leaf, params});
		expected.push_back({outcome.kind == Outcome::RESULT, body});
	}
	feed(src, feeder, stream);
	require(!feeder.disconnected, "the server disconnected");
	compareCalls(structure, calls);
	auto responses = refhttp::parseAll(feeder.output, true);
	requireEqual(expected.size(), responses.size(), "number of responses");
	for (size_t i = 0; i < expected.size(); i++) {
		requireEqual(expected[i].success, responses[i].status / 100 == 2, "success reported by the status");
		if (expected[i].body) requireEqual(*expected[i].body, responses[i].body, "result");
	}
	src.labelIf(failures > 0, "failures");
	src.nontrivial = calls.size() > 1;
}

// The same callables used as a client
template <typename MakeServer, typename MakeClient> void clientWith(Src& src, int failures, MakeServer makeServer, MakeClient makeClient) {
	u64 seed = src.raw(~0ull);
	auto same = [&] {
		Recording recording;
		Src other(recording, seed);
		return build(other, false);
	};
	Structure served = same(), called = same();
	auto server = makeServer(*served.root);
	auto session = server->getSession();
	Pipe pipe(src, reinterpret_cast<Bomba::ITcpResponder&>(session));
	auto client = makeClient(*called.root, pipe);
	std::vector<Expected> calls;
	struct Waiting { Leaf* leaf; Bomba::RequestToken token; Outcome outcome; };
	std::vector<Waiting> waiting;
	int failed = 0;
	auto resolve = [&] (size_t at) {
		Waiting it = waiting[at];
		waiting.erase(waiting.begin() + at);
		try {
			Value got = it.leaf->get(it.token, it.outcome.result);
			if (it.outcome.kind != Outcome::RESULT) fail("a failed call returned " + got.show(200));
			std::string d = Value::diff(it.outcome.result, got);
			if (!d.empty()) fail("a call returned a different result: " + d);
		} catch (Failure&) { throw; }
		catch (std::exception& e) {
			if (it.outcome.kind == Outcome::RESULT) fail(std::string("a successful call failed: ") + e.what());
			if (it.outcome.kind != Outcome::REFUSED) require(std::string(e.what()).find(it.outcome.message) != std::string::npos, "the message of an error was lost");
			failed++;
		}
	};
	for (int i = int(src.range(1, 10)); i > 0; i--) {
		switch (src.raw(4)) {
			case 0: if (!waiting.empty()) resolve(src.raw(waiting.size() - 1)); break;
			case 1: if (!waiting.empty()) { auto& it = waiting[src.raw(waiting.size() - 1)]; it.leaf->ready(it.token); } break;
			default: {
				size_t which = src.raw(served.leaves.size() - 1);
				Leaf *leaf = called.leaves[which].leaf, *target = served.leaves[which].leaf;
				Value params = Value::object(true);
				std::vector<Value> values;
				for (auto& arg : leaf->args) {
					values.push_back(makeValue(src, arg.kind));
					params.members.emplace_back(arg.name, values.back());
				}
				Outcome outcome = makeOutcome(src, failures);
				src.note(join(served.leaves[which].names, '.') + params.show(200) + ": " + show(outcome));
				target->outcomes.push_back(outcome);
				calls.push_back({target, params});
				waiting.push_back({leaf, leaf->send(values), outcome});
			}
		}
	}
	while (!waiting.empty()) resolve(src.raw(waiting.size() - 1));
	compareCalls(served, calls);
	for (auto& it : called.leaves) require(it.leaf->calls.empty(), "a call was executed locally");
	src.labelIf(failed > 0, "failures");
	src.nontrivial = calls.size() > 2;
}
static void client(Src& src) {
	if (src.coin()) {
		src.label("JSON-RPC");
		clientWith(src, 3, [] (Bomba::IRemoteCallable& root) { return std::make_unique<Bomba::JsonRpcServer<>>(root); },
				[] (Bomba::IRemoteCallable& root, Pipe& pipe) { return std::make_unique<Bomba::JsonRpcClient<>>(root, pipe, "example.com"); });
	} else {
		src.label("binary");
		clientWith(src, 0, [] (Bomba::IRemoteCallable& root) { return std::make_unique<Bomba::BinaryProtocolServer<uint32_t>>(root); },
				[] (Bomba::IRemoteCallable& root, Pipe& pipe) { return std::make_unique<Bomba::BinaryProtocolClient<uint32_t>>(root, pipe); });
	}
}

PBT_MAIN({"json_rpc", jsonRpc, 60000, 1500000}, {"binary", binary, 60000, 1500000}, {"forms", forms, 60000, 1500000}, {"client", client, 60000, 1500000})
