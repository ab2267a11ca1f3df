// C29: formats and protocols added through the documented interfaces
#include "history.hpp"
#include "bomba_json.hpp"
#include <deque>

using Bomba::IStructuredOutput, Bomba::IStructuredInput, Bomba::IRemoteCallable, Bomba::RequestToken;
namespace Sf = Bomba::SerialisationFlags;
using Sf::Flags;
constexpr int FORWARDED = Sf::DETERMINED_NUMERIC_TYPE | Sf::OMIT_FALSE | Sf::EMPTY_IS_NULL | Sf::MANDATORY;

// What goes through the interface
struct Node {
	enum Kind { UNSET, INT, FLOAT, STRING, BOOL, NONE, ARRAY, OBJECT, OPTIONAL } kind = UNSET;
	int flags = 0; // Those that describe the value
	bool layoutKnown = false;
	int64_t i = 0;
	double d = 0;
	bool b = false; // Of a boolean, or if an optional value is present
	std::string s;
	std::vector<std::string> names; // Of an object
	std::vector<Node> items;

	std::string show(int depth = 0) const {
		std::string extra = flags ? "'" + std::to_string(flags) : "";
		switch (kind) {
			case UNSET: return "nothing";
			case INT: return std::to_string(i) + extra;
			case FLOAT: { char buf[64]; snprintf(buf, 64, "%a", d); return buf + extra; }
			case STRING: return "\"" + printable(s, 60) + "\"" + extra;
			case BOOL: return (b ? "true" : "false") + extra;
			case NONE: return "null" + extra;
			case OPTIONAL: return b ? "?" + extra + items[0].show(depth + 1) : "absent" + extra;
			default: {
				std::string r = kind == ARRAY ? "[" : layoutKnown ? "struct{" : "map{";
				for (size_t at = 0; at < items.size(); at++) {
					if (at) r += ", ";
					if (r.size() > 500 || depth > 6) { r += "..."; break; }
					if (kind == OBJECT) r += printable(names[at], 20) + ": ";
					r += items[at].show(depth + 1);
				}
				return r + (kind == ARRAY ? "]" : "}") + extra;
			}
		}
	}
	static std::string diff(const Node& want, const Node& got, const std::string& path = "") {
		auto wrong = [&] { return (path.empty() ? "the value" : path) + ": expected " + want.show() + ", got " + got.show(); };
		if (want.kind != got.kind || want.flags != got.flags) return wrong();
		switch (want.kind) {
			case INT: return want.i == got.i ? "" : wrong();
			case FLOAT: return Value::sameReal(want.d, got.d) ? "" : wrong();
			case STRING: return want.s == got.s ? "" : wrong();
			case BOOL: return want.b == got.b ? "" : wrong();
			case OPTIONAL: if (want.b != got.b) return wrong(); break;
			case OBJECT: if (want.layoutKnown != got.layoutKnown) return wrong(); break;
			default: break;
		}
		if (want.items.size() != got.items.size()) return wrong();
		if (want.names != got.names) return wrong();
		for (size_t at = 0; at < want.items.size(); at++) {
			std::string r = diff(want.items[at], got.items[at], path + (want.kind == OBJECT ? "." + printable(want.names[at], 30) : "[" + std::to_string(at) + "]"));
			if (!r.empty()) return r;
		}
		return "";
	}
};

// The same made independently from the object
template <typename T> constexpr int numericType() {
	if constexpr(std::is_floating_point_v<T>) return sizeof(T) == 4 ? 0x190 : 0x1a0;
	else return 0x100 + 0x20 * (sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3) + (std::is_signed_v<T> ? 0 : 0x10);
}
template <typename T> Node nodeOf(const T& t, int flags = 0) {
	Node n;
	n.flags = flags;
	auto number = [&] { if (!(flags & 0x100)) n.flags |= numericType<T>(); };
	if constexpr(std::is_same_v<T, bool>) { n.kind = Node::BOOL; n.b = t; }
	else if constexpr(std::is_integral_v<T>) { n.kind = Node::INT; n.i = int64_t(t); number(); }
	else if constexpr(std::is_floating_point_v<T>) { n.kind = Node::FLOAT; n.d = t; number(); }
	else if constexpr(std::is_convertible_v<T, std::string_view>) { n.kind = Node::STRING; n.s = std::string_view(t); }
	else if constexpr(model::HasFields<T>) {
		n.kind = Node::OBJECT;
		n.layoutKnown = true;
		auto add = [&] (const char* name, auto& member, int memberFlags = 0) { n.names.push_back(name); n.items.push_back(nodeOf(member, flags | memberFlags)); };
		if constexpr(requires { const_cast<T&>(t).fieldsWithFlags(add); }) const_cast<T&>(t).fieldsWithFlags(add);
		else const_cast<T&>(t).fields(add);
	} else if constexpr(model::MapLike<T>) {
		n.kind = Node::OBJECT;
		for (auto& it : t) { n.names.push_back(std::string(it.first)); n.items.push_back(nodeOf(it.second, flags)); }
	} else if constexpr(model::OptionalLike<T>) {
		n.kind = Node::OPTIONAL;
		n.b = bool(t);
		if (t) n.items.push_back(nodeOf(*t, flags));
	} else {
		n.kind = Node::ARRAY;
		for (auto& it : t) n.items.push_back(nodeOf(it, flags));
	}
	return n;
}

static void sortMaps(Node& n) {
	for (auto& it : n.items) sortMaps(it);
	if (n.kind != Node::OBJECT || n.layoutKnown) return;
	std::vector<size_t> order;
	for (size_t i = 0; i < n.items.size(); i++) order.push_back(i);
	std::sort(order.begin(), order.end(), [&] (size_t a, size_t b) { return n.names[a] < n.names[b]; });
	Node copy = n;
	for (size_t i = 0; i < order.size(); i++) { n.items[i] = copy.items[order[i]]; n.names[i] = copy.names[order[i]]; }
}
// The order in unordered maps depends on history
static std::string diffUnordered(Node want, Node got) {
	sortMaps(want);
	sortMaps(got);
	return Node::diff(want, got);
}

struct Misuse : Failure { Misuse(const std::string& what) : Failure("the interface was misused: " + what) {} };

// An output format that stores a tree and checks that the calls form one
class Recorder : public IStructuredOutput {
	struct Frame { Node* node; int declared; bool introduced = false; int lastIndex = -1; };
	Node& _root;
	Node* _slot; // Where a value is expected
	std::vector<Frame> _stack;
	bool _canOmit;

	Node& value(Flags flags, Node::Kind kind) {
		if (!_slot) throw Misuse(_stack.empty() ? "a second value was written" : "a value was written without being introduced");
		Node& n = *_slot;
		_slot = nullptr;
		n.kind = kind;
		n.flags = flags & FORWARDED;
		return n;
	}
	Frame& top(Node::Kind kind, const char* what) {
		if (_stack.empty() || _stack.back().node->kind != kind) throw Misuse(std::string(what) + " outside of one");
		if (_slot) throw Misuse(std::string(what) + " while a value was expected");
		return _stack.back();
	}
	void numeric(const Node& n, bool real) {
		int type = n.flags & Sf::DETERMINED_NUMERIC_TYPE;
		if (!type) throw Misuse("a number of undetermined type was written");
		(void) real;
	}
public:
	Recorder(Node& root, bool canOmit = true) : _root(root), _slot(&root), _canOmit(canOmit) {}
	bool started() const { return _slot != &_root || !_stack.empty(); }
	void finish() const {
		if (!_stack.empty()) throw Misuse("an array or object was not ended");
		if (_slot) throw Misuse("no value was written");
	}

	void writeInt(Flags flags, int64_t v) override { Node& n = value(flags, Node::INT); n.i = v; numeric(n, false); }
	void writeFloat(Flags flags, double v) override { Node& n = value(flags, Node::FLOAT); n.d = v; numeric(n, true); }
	void writeString(Flags flags, std::string_view v) override { value(flags, Node::STRING).s = v; }
	void writeBool(Flags flags, bool v) override { value(flags, Node::BOOL).b = v; }
	void writeNull(Flags flags) override { value(flags, Node::NONE); }
	void startWritingArray(Flags flags, int size) override {
		if (size < 0 && size != UNKNOWN_SIZE) throw Misuse("an array of size " + std::to_string(size));
		_stack.push_back({&value(flags, Node::ARRAY), size});
		if (size > 0) _stack.back().node->items.reserve(size);
	}
	void introduceArrayElement(Flags, int index) override {
		Frame& frame = top(Node::ARRAY, "an array element");
		if (index != int(frame.node->items.size())) throw Misuse("array index " + std::to_string(index) + " after " + std::to_string(frame.node->items.size()) + " elements");
		_slot = &frame.node->items.emplace_back();
	}
	void endWritingArray(Flags) override { end(Node::ARRAY); }
	void startWritingObject(Flags flags, int size) override {
		if (size < 0 && size != UNKNOWN_SIZE) throw Misuse("an object of size " + std::to_string(size));
		Node& n = value(flags, Node::OBJECT);
		n.layoutKnown = flags & Sf::OBJECT_LAYOUT_KNOWN;
		_stack.push_back({&n, size});
	}
	void introduceObjectMember(Flags flags, std::string_view name, int index) override {
		Frame& frame = top(Node::OBJECT, "an object member");
		if (_canOmit && frame.node->layoutKnown ? index <= frame.lastIndex : index != frame.lastIndex + 1)
			throw Misuse("member " + printable(name) + " with index " + std::to_string(index) + " after " + std::to_string(frame.lastIndex));
		if (bool(flags & Sf::OBJECT_LAYOUT_KNOWN) != frame.node->layoutKnown) throw Misuse("a member and its object disagree about OBJECT_LAYOUT_KNOWN");
		frame.lastIndex = index;
		frame.node->names.push_back(std::string(name));
		_slot = &frame.node->items.emplace_back();
	}
	void endWritingObject(Flags) override { end(Node::OBJECT); }
	void end(Node::Kind kind) {
		Frame& frame = top(kind, "an end of an array or object");
		int size = int(frame.node->items.size());
		if (frame.declared != UNKNOWN_SIZE && (_canOmit && frame.node->layoutKnown ? frame.lastIndex >= frame.declared : size != frame.declared))
			throw Misuse("size " + std::to_string(frame.declared) + " was declared, but there were " + std::to_string(size));
		_stack.pop_back();
	}
	void writeOptional(Flags flags, bool present, Bomba::Callback<> writeValue) override {
		Node& n = value(flags, Node::OPTIONAL);
		n.b = present;
		if (!present) return;
		_slot = &n.items.emplace_back();
		size_t depth = _stack.size();
		writeValue();
		if (_stack.size() != depth || _slot) throw Misuse("an optional value was not written completely");
	}
	bool canOmitMembers(Flags) const override { return _canOmit; }
};

// An input format that reads such a tree, invalidating everything as early as it may, and checks that it's read properly
struct Reading {
	bool named = true; // Members are identified by names
	bool untilFalse = false; // The number of members isn't known
	int failAt = -1; // After how many operations the input appears to be wrong
	bool failWithException = false;
};
struct BadInput : std::runtime_error { BadInput() : std::runtime_error("bad input") {} };
class Player : public IStructuredInput {
	struct Frame { const Node* array; int next = 0; bool ended = false; };
	const Node* _slot;
	Reading _reading;
	std::vector<Frame> _arrays;
	std::vector<std::pair<const Node*, std::vector<Frame>>> _stored;
	std::unique_ptr<char[]> _temporary;
	int _operations = 0;

	std::string_view temporary(const std::string& s) {
		_temporary.reset(new char[s.size() + 1]);
		memset(_temporary.get(), '?', s.size() + 1);
		memcpy(_temporary.get(), s.data(), s.size());
		return {_temporary.get(), s.size()};
	}
	bool fails() {
		_temporary.reset();
		if (_reading.failAt < 0 || _operations++ < _reading.failAt) return false;
		if (_reading.failWithException) throw BadInput();
		good = false;
		return true;
	}
	const Node* value(Flags flags, Node::Kind kind, const char* what) {
		if (fails() || !good) { _slot = nullptr; return nullptr; }
		if (!_slot) throw Misuse(std::string(what) + " was read where there is no value");
		const Node* n = _slot;
		if (n->kind != kind) throw Misuse(std::string(what) + " was read instead of " + n->show());
		if ((flags & FORWARDED) != n->flags) throw Misuse(n->show() + " was read with flags " + std::to_string(flags));
		_slot = nullptr;
		return n;
	}
public:
	Player(const Node& root, Reading reading) : _slot(&root), _reading(reading) {}
	void finish() const {
		if (_slot) throw Misuse(_slot->show() + " was not read");
		if (!_arrays.empty()) throw Misuse("reading an array was not ended");
	}
	MemberType identifyType(Flags) override {
		if (!_slot) throw Misuse("identifying a type where there is no value");
		const Node* n = _slot;
		if (n->kind == Node::OPTIONAL) { if (!n->b) return TYPE_NULL; n = &n->items[0]; }
		switch (n->kind) {
			case Node::INT: return TYPE_INTEGER;
			case Node::FLOAT: return TYPE_FLOAT;
			case Node::STRING: return TYPE_STRING;
			case Node::BOOL: return TYPE_BOOLEAN;
			case Node::ARRAY: return TYPE_ARRAY;
			case Node::OBJECT: return TYPE_OBJECT;
			default: return TYPE_NULL;
		}
	}
	int64_t readInt(Flags flags) override { const Node* n = value(flags, Node::INT, "an integer"); return n ? n->i : 0; }
	double readFloat(Flags flags) override { const Node* n = value(flags, Node::FLOAT, "a real number"); return n ? n->d : 0; }
	std::string_view readString(Flags flags) override { const Node* n = value(flags, Node::STRING, "a string"); return n ? temporary(n->s) : std::string_view(); }
	bool readBool(Flags flags) override { const Node* n = value(flags, Node::BOOL, "a boolean"); return n && n->b; }
	void readNull(Flags flags) override { value(flags, Node::NONE, "a null"); }
	void startReadingArray(Flags flags) override { _arrays.push_back({value(flags, Node::ARRAY, "an array")}); }
	bool nextArrayElement(Flags) override {
		fails();
		if (_arrays.empty()) throw Misuse("an array element outside of an array");
		Frame& frame = _arrays.back();
		if (!good || !frame.array) { _slot = nullptr; frame.ended = true; return false; }
		if (frame.ended) throw Misuse("an element was asked for after the end of an array");
		if (_slot) throw Misuse("element " + _slot->show() + " of an array was not read");
		if (frame.next == int(frame.array->items.size())) { frame.ended = true; return false; }
		_slot = &frame.array->items[frame.next++];
		return true;
	}
	void endReadingArray(Flags) override {
		if (_arrays.empty()) throw Misuse("the end of an array outside of an array");
		if (good && _slot) throw Misuse("an element of an array was not read");
		_arrays.pop_back();
	}
	void readObject(Flags flags, Bomba::Callback<bool(std::optional<std::string_view> memberName, int index)> onEach) override {
		const Node* n = value(flags, Node::OBJECT, "an object");
		if (!n) return;
		bool known = flags & Sf::OBJECT_LAYOUT_KNOWN;
		if (known != n->layoutKnown) throw Misuse("OBJECT_LAYOUT_KNOWN is wrong when reading " + n->show());
		size_t depth = _arrays.size();
		auto check = [&] (size_t at) {
			if (!good) return;
			if (_slot) throw Misuse("member " + printable(n->names[at]) + " was not read");
			if (_arrays.size() != depth) throw Misuse("reading an array in a member was not ended");
		};
		bool unnamed = !_reading.named && known;
		for (size_t at = 0; at < n->items.size() && good; at++) {
			_slot = &n->items[at];
			bool more = onEach(unnamed ? std::nullopt : std::optional<std::string_view>(temporary(n->names[at])), int(at));
			check(at);
			if (!more && at + 1 < n->items.size() && good) throw Misuse("reading an object ended before member " + printable(n->names[at + 1]));
			if (!more) return;
		}
		if (unnamed && _reading.untilFalse && good) {
			_slot = nullptr;
			for (int at = int(n->items.size()), tries = 0; onEach(std::nullopt, at); at++)
				if (++tries > 5) throw Misuse("reading an object without names never ends");
		}
		_slot = nullptr;
	}
	void skipObjectElement(Flags) override {
		if (fails() || !good) return;
		if (!_slot) throw Misuse("skipping where there is no value");
		_slot = nullptr;
	}
	bool readOptional(Flags flags, Bomba::Callback<> readValue) override {
		const Node* n = value(flags, Node::OPTIONAL, "an optional value");
		if (!n || !n->b) return false;
		_slot = &n->items[0];
		readValue();
		if (_slot && good) throw Misuse("an optional value was not read");
		return true;
	}
	Location storePosition(Flags) override { _stored.push_back({_slot, _arrays}); return {int(_stored.size()) - 1}; }
	void restorePosition(Flags, Location location) override { _slot = _stored[location.loc].first; _arrays = _stored[location.loc].second; }
};

// Used as an argument of serialise() and deserialise()
struct Custom {
	struct Output : Recorder {
		Output(Node& root) : Recorder(root) {}
		~Output() { last = this->complete(); }
		bool complete() const { try { finish(); return true; } catch (Misuse&) { return false; } }
		static inline thread_local bool last = false;
	};
	struct Input : Player {
		static inline thread_local Reading reading;
		static inline thread_local std::string problem;
		Input(const Node& root) : Player(root, reading) {}
		~Input() { problem.clear(); if (good) try { finish(); } catch (Misuse& e) { problem = e.what(); } }
	};
};

// Members with flags, which are passed to the format
struct Flagged : Bomba::Serialisable<Flagged> {
	int a = key<"a", Flags::INT_8>;
	int64_t b = key<"b", Flags::UINT_16>;
	double c = key<"c", Flags::FLOAT_16>;
	bool d = key<"d", Flags::OMIT_FALSE>;
	Bomba::Optional<std::string> e = key<"e", Flags::EMPTY_IS_NULL>;
	std::string f = key<"f", Flags::MANDATORY>;
	std::vector<uint16_t> g = key<"g", Flags::MANDATORY>;
	std::map<std::string, Point> h = key<"h", Flags::EMPTY_IS_NULL>;
	Point i = key<"i", Flags(Flags::MANDATORY | Flags::OMIT_FALSE)>;
	std::unique_ptr<int16_t> j = key<"j", Flags::UINT_64>;
	float k = key<"k">;
	template <typename Fn> void fields(Fn f) { fieldsWithFlags([&] (const char* name, auto& member, int) { f(name, member); }); }
	template <typename Fn> void fieldsWithFlags(Fn fn) {
		fn("a", a, 0x100); fn("b", b, 0x130); fn("c", c, 0x180); fn("d", d, 4); fn("e", e, 8); fn("f", f, 2); fn("g", g, 2); fn("h", h, 8); fn("i", i, 6); fn("j", j, 0x170); fn("k", k, 0);
	}
};
template <typename Fn> void anyType(Src& src, Fn fn) {
	if (src.chance(1, 6)) fn.template operator()<Flagged>("Flagged");
	else withAnyType(src, fn);
}
static model::GenOptions options(Src& src) {
	model::GenOptions o;
	o.text = src.coin() ? Src::BYTES : Src::UTF8;
	o.maxText = 200;
	o.budget = 80;
	return o;
}

template <typename T> void generateOne(Src& src, T& t) {
	auto o = options(src);
	model::generate(src, t, o);
}

static void output(Src& src) {
	anyType(src, [&] <typename T> (const char* name) {
		T from;
		generateOne(src, from);
		Node want = nodeOf(from), got;
		src.note(std::string(name) + ": " + want.show());
		from.template serialise<Custom>(got);
		require(Custom::Output::last, "the output is incomplete");
		std::string d = Node::diff(want, got);
		if (!d.empty()) fail("the output format received something else: " + d);
		requireEqual(std::string(), Node::diff(want, nodeOf(from)), "serialisation changed the object");
		// And when used as a part of something
		Node part;
		Recorder recorder(part);
		{
			auto array = recorder.writeArray(2);
			Bomba::TypedSerialiser<T>::serialiseMember(array.introduceMember(), from, Sf::NONE);
			array.writeBool(true);
		}
		recorder.finish();
		d = Node::diff(want, part.items[0]);
		if (!d.empty()) fail("the output format received something else in an array: " + d);
		src.label(name);
		src.nontrivial = want.items.size() > 1;
	});
}

static Node randomNode(Src& src, int depth = 0) {
	Node n;
	switch (src.raw(depth > 2 ? 4 : 6)) {
		case 0: n.kind = Node::INT; n.i = src.integer(); break;
		case 1: n.kind = Node::FLOAT; n.d = src.real(); break;
		case 2: n.kind = Node::STRING; n.s = src.text(Src::UTF8, 20); break;
		case 3: n.kind = Node::BOOL; n.b = src.coin(); break;
		case 4: n.kind = Node::NONE; break;
		case 5: n.kind = Node::ARRAY; for (int i = int(src.raw(3)); i > 0; i--) n.items.push_back(randomNode(src, depth + 1)); break;
		default:
			n.kind = Node::OBJECT;
			for (int i = int(src.raw(3)); i > 0; i--) { n.names.push_back(i == 2 && src.chance(1, 4) ? src.text(Src::UTF8, 1) : "k" + std::to_string(i) + src.text(Src::UTF8, 6)); n.items.push_back(randomNode(src, depth + 1)); }
	}
	return n;
}
// Changes an encoded struct into what could come from another version of the program
static void rearrange(Src& src, Node& n) {
	for (auto& it : n.items) rearrange(src, it);
	if (n.kind != Node::OBJECT || !n.layoutKnown) return;
	for (int i = int(src.raw(2)); i > 0; i--) {
		size_t at = src.raw(n.items.size());
		n.items.insert(n.items.begin() + at, randomNode(src));
		n.names.insert(n.names.begin() + at, "unknown " + src.text(Src::UTF8, 5));
	}
	if (src.coin()) {
		std::vector<size_t> order;
		for (size_t i = 0; i < n.items.size(); i++) order.push_back(i);
		src.shuffle(order);
		Node copy = n;
		for (size_t i = 0; i < order.size(); i++) { n.items[i] = copy.items[order[i]]; n.names[i] = copy.names[order[i]]; }
	}
}

static void input(Src& src) {
	anyType(src, [&] <typename T> (const char* name) {
		T from, to;
		generateOne(src, from);
		bool dirty = src.coin();
		if (dirty) generateOne(src, to);
		Node want = nodeOf(from), given = want;
		Reading reading;
		reading.named = src.coin();
		reading.untilFalse = src.coin();
		if (reading.named) rearrange(src, given);
		if (reading.named && src.chance(1, 3)) { // Members that are absent keep their values
			Node before = nodeOf(to);
			size_t at = src.raw(want.items.size() - 1);
			for (size_t i = 0; i < given.names.size(); i++) if (given.names[i] == want.names[at]) {
				given.names.erase(given.names.begin() + i);
				given.items.erase(given.items.begin() + i);
				break;
			}
			want.items[at] = before.items[at];
			src.label("missing");
		}
		src.note(std::string(name) + (reading.named ? " with names " : reading.untilFalse ? " by order until refused " : " by order ") + (dirty ? "into " + nodeOf(to).show() : "") + ": " + given.show());
		Custom::Input::reading = reading;
		require(to.template deserialise<Custom>(given), "deserialisation reported failure");
		if (!Custom::Input::problem.empty()) fail(Custom::Input::problem);
		std::string d = diffUnordered(want, nodeOf(to));
		if (!d.empty()) fail("the value read is different: " + d);
		src.label(name);
		src.labelIf(reading.named, "names");
		src.labelIf(dirty, "used target");
		src.nontrivial = want.items.size() > 1;
	});
}

// Bad input is reported and the object stays usable
static void badInput(Src& src) {
	anyType(src, [&] <typename T> (const char* name) {
		T from, to;
		generateOne(src, from);
		if (src.coin()) generateOne(src, to);
		Node given = nodeOf(from);
		Reading reading;
		reading.named = src.coin();
		reading.failAt = int(src.raw(src.coin() ? 5 : 40));
		reading.failWithException = src.coin();
		if (reading.named) rearrange(src, given);
		src.note(std::string(name) + (reading.named ? " with names " : " by order ") + (reading.failWithException ? "exception at " : "failure at ") + std::to_string(reading.failAt) + ": " + given.show());
		Custom::Input::reading = reading;
		bool thrown = false, ok = false;
		try { ok = to.template deserialise<Custom>(given); } catch (BadInput&) { thrown = true; }
		if (ok) {
			require(!thrown, "both success and failure");
			if (!Custom::Input::problem.empty()) fail(Custom::Input::problem);
			std::string d = diffUnordered(nodeOf(from), nodeOf(to));
			if (!d.empty()) fail("success although the input was bad: " + d);
			src.label("read before the failure");
		} else {
			requireEqual(reading.failWithException, thrown, "failure reported by an exception");
			src.nontrivial = true;
		}
		Custom::Input::reading = Reading{};
		require(to.template deserialise<Custom>(given), "deserialisation after a failed one reported failure");
		std::string d = diffUnordered(nodeOf(from), nodeOf(to));
		if (!d.empty()) fail("value read after a failure is different: " + d);
		src.label(name);
	});
}

// Writing with the convenience classes
static void fill(IStructuredOutput::ArrayFiller& filler, const Node& n, Src& src);
static void fill(IStructuredOutput::ObjectFiller& filler, const Node& n, Src& src);
template <typename Filler, typename... Name> void fillOne(Filler& filler, const Node& n, Src& src, Name... name) {
	int size = src.coin() ? int(n.items.size()) : IStructuredOutput::UNKNOWN_SIZE;
	switch (n.kind) {
		case Node::INT: filler.writeInt(name..., n.i); break;
		case Node::FLOAT: filler.writeFloat(name..., n.d); break;
		case Node::STRING: if (src.coin()) filler.writeString(name..., n.s); else filler.introduceMember(name...).writeString(Sf::NONE, n.s); break;
		case Node::BOOL: filler.writeBool(name..., n.b); break;
		case Node::NONE: filler.writeNull(name...); break;
		case Node::ARRAY: { auto inner = filler.writeArray(name..., size); fill(inner, n, src); break; }
		default: { auto inner = filler.writeObject(name..., size); fill(inner, n, src); break; }
	}
}
static void fill(IStructuredOutput::ArrayFiller& filler, const Node& n, Src& src) { for (auto& it : n.items) fillOne(filler, it, src); }
static void fill(IStructuredOutput::ObjectFiller& filler, const Node& n, Src& src) {
	for (size_t i = 0; i < n.items.size(); i++) fillOne(filler, n.items[i], src, std::string_view(n.names[i]));
}
struct LaxRecorder : Recorder { // The numeric types aren't known here
	using Recorder::Recorder;
	void writeInt(Flags flags, int64_t v) override { Recorder::writeInt(Flags(flags | Sf::INT_64), v); }
	void writeFloat(Flags flags, double v) override { Recorder::writeFloat(Flags(flags | Sf::FLOAT_64), v); }
};
static void setTypes(Node& n) {
	if (n.kind == Node::INT) n.flags = Sf::INT_64;
	if (n.kind == Node::FLOAT) n.flags = Sf::FLOAT_64;
	for (auto& it : n.items) setTypes(it);
}
static Value jsonValue(const Node& n) {
	switch (n.kind) {
		case Node::INT: return Value::integer(n.i);
		case Node::FLOAT: return Value::real(n.d);
		case Node::STRING: return Value::str(n.s);
		case Node::BOOL: return Value::boolean(n.b);
		case Node::ARRAY: { Value v = Value::array(); for (auto& it : n.items) v.items.push_back(jsonValue(it)); return v; }
		case Node::OBJECT: { Value v = Value::object(); for (size_t i = 0; i < n.items.size(); i++) v.members.emplace_back(n.names[i], jsonValue(n.items[i])); return v; }
		default: return Value::null();
	}
}
static void fillers(Src& src) {
	Node want;
	do want = randomNode(src); while (want.kind != Node::ARRAY && want.kind != Node::OBJECT && src.raw(20));
	if (want.kind != Node::ARRAY && want.kind != Node::OBJECT) throw Discard{};
	src.note(want.show());
	auto write = [&] (IStructuredOutput& output) {
		if (want.kind == Node::ARRAY) { auto filler = output.writeArray(src.coin() ? int(want.items.size()) : -1); fill(filler, want, src); require(&filler.underlyingOutput() == &output, "underlying output"); }
		else { auto filler = output.writeObject(src.coin() ? int(want.items.size()) : -1); fill(filler, want, src); require(&filler.underlyingOutput() == &output, "underlying output"); }
	};
	Node got;
	LaxRecorder recorder(got, false);
	write(recorder);
	recorder.finish();
	setTypes(want);
	std::string d = Node::diff(want, got);
	if (!d.empty()) fail("written with fillers: " + d);
	std::string json;
	Bomba::BasicJson<>::Output output(json);
	write(output);
	std::string d2 = Value::diff(jsonValue(want), model::StrictJson::parse(json));
	if (!d2.empty()) fail("JSON written with fillers: " + d2 + " in " + printable(json));
	src.nontrivial = want.items.size() > 1;
}

// ---- A protocol

class Direct : public Channel, public Bomba::IRpcResponder {
	struct Request { uint32_t id; std::vector<std::string> names; std::vector<int> indexes; std::string path; Node arguments; };
	struct Answer { Node result; std::optional<std::string> error; bool arrived = false; };
	Src& _src;
	const IRemoteCallable &_clientRoot, &_serverRoot;
	std::deque<Request> _requests;
	std::map<uint32_t, Answer> _answers;
	std::vector<uint32_t> _ids; // In order of requests
	std::set<uint32_t> _got;
	uint32_t _nextId;
	bool _lazy, _named;
	size_t _processed = 0;

	void process() {
		Request request = std::move(_requests.front());
		_requests.pop_front();
		_processed++;
		const IRemoteCallable* method = &_serverRoot;
		for (size_t i = 0; i < request.names.size(); i++) {
			const IRemoteCallable *byName = method->getChild(std::string_view(std::string(request.names[i]))), *byIndex = method->getChild(request.indexes[i]);
			if (!byName) fail("there is no " + request.names[i]);
			require(byName == byIndex, "different children were obtained by name and by index");
			require(!method->getChild(request.names[i] + "x"), "a child with a wrong name was found");
			method = byName;
		}
		require(!method->getChild(0), "a method has children");
		require((Bomba::PathWithSeparator<"/">::findCallable(request.path, &_serverRoot) == method), "another method was found by its path");
		Answer& answer = _answers[request.id];
		int introduced = 0;
		Recorder recorder(answer.result);
		if (_named) rearrange(_src, request.arguments);
		Player player(request.arguments, {_named, _src.coin()});
		bool none = request.arguments.items.empty() && _src.coin();
		try {
			bool called = method->call(none ? nullptr : &player, recorder, [&] {
				require(!recorder.started(), "the result was introduced after writing it");
				introduced++;
			}, [&] (std::string_view error) {
				answer.error = error;
			});
			require(called, "the call was refused");
			if (!none) player.finish();
			requireEqual(1, introduced, "number of introductions of the result");
			if (!answer.error) recorder.finish();
		} catch (Failure&) { throw; }
		catch (std::exception& e) {
			requireEqual(0, introduced, "introductions of the result before an exception");
			require(!recorder.started(), "something was written before an exception");
			if (!none) player.finish();
			answer.error = e.what();
		}
	}
public:
	Direct(Src& src, const IRemoteCallable& client, const IRemoteCallable& server) : _src(src), _clientRoot(client), _serverRoot(server),
			_nextId(uint32_t(src.coin() ? src.raw(3) : -src.raw(5))), _lazy(src.coin()), _named(src.coin()) {}
	bool named() { return _named; }
	bool simple = _src.chance(1, 4); // Does not implement asking for the presence of a response

	// As a channel
	void arrive() override { for (auto& it : _answers) if (_src.coin()) it.second.arrived = true; }
	void serverStep() override { if (!_requests.empty()) process(); }
	bool responseArrived(size_t index) override { if (simple) return true; auto found = _answers.find(_ids[index]); return found != _answers.end() && found->second.arrived; }
	bool lazy() override { return _lazy; }
	void finish(size_t calls) override {
		while (!_requests.empty()) process();
		requireEqual(calls, _processed, "number of processed requests");
	}

	// As a client
	RequestToken send(Bomba::UserId, const IRemoteCallable* method, Bomba::Callback<void(IStructuredOutput&, RequestToken)> request) override {
		Request made;
		made.id = _nextId;
		_nextId += 1 + uint32_t(_src.raw(2));
		made.path = Bomba::PathWithSeparator<"/">::constructPath(method);
		for (const IRemoteCallable* it = method; it->parent(); it = it->parent()) {
			auto [name, index] = it->parent()->childName(it);
			made.names.insert(made.names.begin(), std::string(name));
			made.indexes.insert(made.indexes.begin(), index);
			if (!it->parent()->parent()) require(it->parent() == &_clientRoot, "the method is in another tree");
		}
		std::string joined;
		for (auto& it : made.names) joined += (joined.empty() ? "" : "/") + it;
		requireEqual(joined, made.path, "path to the method");
		Recorder recorder(made.arguments, _named);
		request(recorder, RequestToken{made.id});
		recorder.finish();
		require(made.arguments.kind == Node::OBJECT && made.arguments.layoutKnown, "arguments are not an object of known layout");
		_ids.push_back(made.id);
		_requests.push_back(std::move(made));
		if (!_lazy) process();
		return {_ids.back()};
	}
	bool getResponse(RequestToken token, Bomba::Callback<void(IStructuredInput&)> reader) override {
		require(std::find(_ids.begin(), _ids.end(), token.id) != _ids.end(), "asking for a response to no request");
		while (!_answers.contains(token.id)) {
			require(!_requests.empty(), "asking for a response that was already obtained");
			process();
		}
		Answer answer = std::move(_answers[token.id]);
		_answers.erase(token.id);
		require(_got.insert(token.id).second, "a response was obtained twice");
		if (answer.error) Bomba::remoteError(*answer.error);
		if (_named) rearrange(_src, answer.result);
		Player player(answer.result, {_named, _src.coin()});
		reader(player);
		player.finish();
		return true;
	}
	bool hasResponse(RequestToken token) override {
		if (simple) return IRpcResponder::hasResponse(token);
		require(std::find(_ids.begin(), _ids.end(), token.id) != _ids.end(), "asking for a response to no request");
		require(!_got.contains(token.id), "asking if there is a response that was obtained already");
		auto found = _answers.find(token.id);
		return found != _answers.end() && found->second.arrived;
	}
};

static void protocol(Src& src) {
	Api serverApi, serverDeep, clientApi, clientDeep, localApi, localDeep;
	Settings settings;
	settings.options = options(src);
	if (src.coin()) {
		src.note("single object");
		Direct direct(src, clientApi, serverApi);
		clientApi.setResponder(direct);
		History history{src, direct, settings};
		history.run([&] { history.callSomething(clientApi, localApi); });
		history.compareState(serverApi, localApi);
		src.labelIf(direct.named(), "named");
	} else {
		src.note("tree of objects");
		src.label("tree of objects");
		Tree serverTree(serverApi, serverDeep), clientTree(clientApi, clientDeep), localTree(localApi, localDeep);
		Direct direct(src, clientTree.root, serverTree.root);
		clientTree.root.setResponder(direct);
		History history{src, direct, settings};
		history.run([&] {
			switch (src.raw(4)) {
				case 0: {
					int64_t v = src.range(-100000, 100000);
					history.calls++;
					src.note("add " + std::to_string(v));
					requireEqual(localTree.adder(v), clientTree.adder(v), "result of the lambda");
					break;
				}
				case 1: case 2: return history.callSomething(clientApi, localApi);
				default: return history.callSomething(clientDeep, localDeep);
			}
		});
		history.compareState(serverApi, localApi);
		history.compareState(serverDeep, localDeep);
		requireEqual(localTree.sum, serverTree.sum, "sum");
		src.labelIf(direct.named(), "named");
	}
	require(clientApi.counter == 0 && clientDeep.counter == 0 && clientApi.log.empty() && clientDeep.log.empty(), "a call was executed locally");
}

PBT_MAIN({"output", output, 60000, 1500000}, {"input", input, 60000, 1500000}, {"bad_input", badInput, 60000, 1500000}, {"fillers", fillers, 60000, 1500000}, {"protocol", protocol, 80000, 2000000})
