#include "large.hpp"
#include "refbin.hpp"
#include "bomba_binary_protocol.hpp"
#include "bigendian.hpp"
#include "api.hpp"
#include "transport.hpp"
using namespace pbt;
using model::Value;

// Numeric types overridden by flags; each member has the type that is on the wire
using Bomba::SerialisationFlags::Flags;
struct Flagged : Bomba::Serialisable<Flagged> {
	int a = key<"a", Flags::INT_8>;
	int64_t b = key<"b", Flags::UINT_16>;
	int16_t c = key<"c", Flags::INT_64>;
	double d = key<"d", Flags::FLOAT_32>;
	float e = key<"e", Flags::FLOAT_64>;
	uint32_t f = key<"f", Flags::UINT_8>;
	std::string g = key<"g", Flags::UINT_8>;
	std::string h = key<"h", Flags::UINT_32>;
	float i = key<"i", Flags::FLOAT_16>;
	bool j = key<"j", Flags::UINT_32>; // no effect
	Bomba::Optional<int> k = key<"k", Flags::INT_16>;
	uint8_t l = key<"l", Flags::INT_32>;
};

template <typename Fn> void withSizeType(Src& src, Fn fn) {
	switch (src.raw(5)) {
		case 0: case 1: return fn.template operator()<uint16_t>("uint16_t");
		case 2: return fn.template operator()<uint32_t>("uint32_t");
		case 3: return fn.template operator()<uint8_t>("uint8_t");
		case 4: return fn.template operator()<uint64_t>("uint64_t");
		default: return fn.template operator()<int32_t>("int32_t");
	}
}
static std::string_view exactCopy(std::unique_ptr<char[]>& memory, std::string_view from) {
	memory.reset(new char[from.size()]);
	memcpy(memory.get(), from.data(), from.size());
	return {memory.get(), from.size()};
}
static Src::Text textKind(Src& src) { return src.coin() ? Src::BYTES : Src::UTF8; }

#if defined(C05)
// C05
static void roundtrip(Src& src) {
	withSizeType(src, [&] <typename SizeType> (const char* sizeName) { withAnyType(src, [&] <typename T> (const char* name) {
		using Format = Bomba::BinaryFormat<std::string, SizeType>;
		T from, to;
		model::GenOptions o;
		o.text = textKind(src);
		if (sizeof(SizeType) == 1) o.maxText = 300;
		if (src.chance(1, 40)) o.maxText = 70000;
		model::generate(src, from, o);
		bool dirty = src.coin();
		if (dirty) model::generate(src, to);
		Value want = model::toValue(from);
		src.note(std::string(name) + " with size " + sizeName + (dirty ? " into " + model::toValue(to).show(200) : "") + ": " + want.show());
		bool representable = true;
		try { refbin::Encoder<SizeType> e; e.add(from); } catch (refbin::TooLong) { representable = false; }
		std::string written;
		try {
			if (src.chance(1, 4)) {
				std::string prefix = src.text(Src::BYTES, 20), whole = prefix;
				from.template serialise<Format>(whole);
				requireEqual(prefix, whole.substr(0, prefix.size()), "what was in the output before");
				written = whole.substr(prefix.size());
			} else if (src.chance(1, 3)) {
				Bomba::ExpandingBuffer<64> buffer;
				from.template serialise<Bomba::BinaryFormat<Bomba::GeneralisedBuffer, SizeType, Bomba::LittleEndianNumberFormat<Bomba::GeneralisedBuffer>>>(buffer);
				written = std::string_view(buffer);
			} else written = from.template serialise<Format>();
		} catch (std::logic_error& e) {
			require(!representable, "serialising failed although all sizes can be represented");
			src.label("does not fit the size type");
			return;
		}
		require(representable, "serialising a size that can't be represented was reported as success");
		requireEqual(std::string(), Value::diff(want, model::toValue(from)), "serialisation changed the object");
		std::unique_ptr<char[]> memory;
		bool ok = to.template deserialise<Format>(exactCopy(memory, written));
		require(ok, "deserialisation of own output reported failure");
		std::string d = Value::diff(want, model::toValue(to));
		if (!d.empty()) fail("round trip through the binary format changed " + d + " in " + printable(written, 500));
		src.label(name); src.label(sizeName);
		src.labelIf(dirty, "used target");
		src.nontrivial = written.size() > 20;
	}); });
}
#endif

#if defined(C05) || defined(C06)
// Large data; in C06, the bytes are compared with the reference
template <typename SizeType> static void largeWithSize(Src& src) {
	using Format = Bomba::BinaryFormat<std::string, SizeType>;
	LargeData from, to;
	size_t size = generateLarge(src, from, textKind(src));
	if (src.coin()) {
		to.words.assign(src.raw(3000), "used"); to.numbers.assign(src.raw(3000), 7); to.table["used"] = "yes"; to.text.assign(src.raw(3000), 'u');
	}
	bool representable = true;
	std::string expected;
	try {
		refbin::Encoder<SizeType> e;
		e.add(from);
		expected = std::move(e.out);
	} catch (refbin::TooLong) { representable = false; }
	std::string written;
	try {
		if (src.coin()) {
			Bomba::ExpandingBuffer<64> buffer;
			from.template serialise<Bomba::BinaryFormat<Bomba::GeneralisedBuffer, SizeType, Bomba::LittleEndianNumberFormat<Bomba::GeneralisedBuffer>>>(buffer);
			written = std::string_view(buffer);
		} else written = from.template serialise<Format>();
	} catch (std::logic_error& e) {
		require(!representable, "serialising failed although all sizes can be represented");
		src.label("does not fit the size type");
		return;
	}
	require(representable, "serialising a size that can't be represented was reported as success");
#ifdef C06
	size_t at = std::mismatch(written.begin(), written.end(), expected.begin(), expected.end()).first - written.begin();
	if (written != expected) fail("wrong bytes at " + std::to_string(at) + " of " + std::to_string(expected.size()) + ", the size is " + std::to_string(written.size()));
	require(to.template deserialise<Format>(expected), "bytes made according to the documentation were refused");
#else
	require(to.template deserialise<Format>(written), "deserialisation of own output reported failure");
#endif
	std::string d = Value::diff(model::toValue(from), model::toValue(to));
	if (!d.empty()) fail("large data changed: " + d.substr(0, 500));
	src.labelIf(size > 65536, "over 64 kB"); src.labelIf(size > 1000000, "over 1 MB");
	src.nontrivial = size > 1000;
}
static void large(Src& src) {
	switch (src.raw(3)) {
		case 0: src.label("uint16_t"); return largeWithSize<uint16_t>(src);
		case 1: src.label("uint32_t"); return largeWithSize<uint32_t>(src);
		case 2: src.label("int32_t"); return largeWithSize<int32_t>(src);
		default: src.label("uint64_t"); return largeWithSize<uint64_t>(src);
	}
}
#endif

#if defined(C05)
// Nested arrays up to the set depth are read, deeper ones are refused
template <typename T, int depth> struct NestedVector { using Type = std::vector<typename NestedVector<T, depth - 1>::Type>; };
template <typename T> struct NestedVector<T, 0> { using Type = T; };
struct Towers : Bomba::Serialisable<Towers> {
	NestedVector<int, 2>::Type two = key<"two">;
	NestedVector<std::string, 3>::Type three = key<"three">;
	NestedVector<uint8_t, 4>::Type four = key<"four">;
	std::array<NestedVector<int, 4>::Type, 2> five = key<"five">;
	std::map<std::string, NestedVector<int, 3>::Type> table = key<"table">;
	std::string last = key<"last">;
	template <typename Fn> void fields(Fn f) { f("two", two); f("three", three); f("four", four); f("five", five); f("table", table); f("last", last); }
};
static int arrayDepth(const Value& v) {
	int deepest = 0;
	for (auto& it : v.items) deepest = std::max(deepest, arrayDepth(it));
	for (auto& it : v.members) deepest = std::max(deepest, arrayDepth(it.second));
	return deepest + (v.kind == Value::ARR);
}
template <int MaxDepth> void depthLimited(Src& src) {
	Towers from, to;
	model::GenOptions o;
	o.maxText = 20;
	o.maxItems = src.pick({1, 2, 3});
	model::generate(src, from, o);
	if (src.chance(1, 4)) from.five[0].clear(), from.five[1].clear();
	if (src.chance(1, 4)) from.four.clear();
	Value want = model::toValue(from);
	int depth = arrayDepth(want);
	using Format = Bomba::BinaryFormat<std::string, uint16_t, Bomba::LittleEndianNumberFormat<std::string>, MaxDepth>;
	std::string written = from.serialise<Format>();
	src.note("depth " + std::to_string(depth) + ", limit " + std::to_string(MaxDepth) + ": " + want.show(600));
	std::unique_ptr<char[]> memory;
	try {
		require(to.deserialise<Format>(exactCopy(memory, written)), "deserialisation of own output reported failure");
		require(depth <= MaxDepth, "a depth over the limit was read");
		std::string d = Value::diff(want, model::toValue(to));
		if (!d.empty()) fail("round trip through the binary format changed " + d);
	} catch (std::logic_error& e) {
		if (depth <= MaxDepth) fail("deserialisation refused a depth within the limit: " + std::string(e.what()));
		src.label("refused");
	}
	src.nontrivial = depth > 2;
}
static void depths(Src& src) {
	switch (src.raw(4)) {
		case 0: return depthLimited<5>(src);
		case 1: return depthLimited<4>(src);
		case 2: return depthLimited<3>(src);
		case 3: return depthLimited<2>(src);
		default: return depthLimited<7>(src);
	}
}
#endif

#if defined(C05) || defined(C06)
// C05: values survive in the types set by flags if representable in them
static void flagged(Src& src) {
	Flagged from, to;
	from.a = int8_t(src.integer(-128, 127)); from.b = src.integer(0, 65535); from.c = int16_t(src.integer(-32768, 32767));
	from.d = float(src.real()); if (!std::isfinite(from.d)) from.d = 0.5;
	from.e = float(src.real()); if (!std::isfinite(from.e)) from.e = 0.5;
	if (src.chance(1, 20)) from.d = src.coin() ? INFINITY : -INFINITY;
	if (src.chance(1, 20)) from.e = src.coin() ? INFINITY : -INFINITY;
	from.f = uint32_t(src.integer(0, 255)); from.g = src.text(Src::BYTES, 255); from.h = src.text(Src::BYTES, 3000);
	// any finite half precision number
	int exponent = int(src.range(0, 30)); int mantissa = int(src.range(0, 1023));
	from.i = float(exponent ? std::ldexp(1024 + mantissa, exponent - 25) : std::ldexp(mantissa, -24)) * (src.coin() ? -1 : 1);
	// or infinity, too large, not a number, or one that isn't representable exactly
	enum { EXACT, INFINITE, NOT_NUMBER, INEXACT } kind = EXACT;
	float original = from.i;
	if (src.chance(1, 4)) {
		kind = std::array{INFINITE, INFINITE, NOT_NUMBER, INEXACT}[src.raw(3)];
		if (kind == INFINITE) {
			exponent = 31, mantissa = 0;
			from.i = std::array{INFINITY, 65536.f, 1e30f, float(std::ldexp(1 + double(src.raw(1023)) / 1024, int(src.range(16, 127))))}[src.raw(3)];
		} else if (kind == NOT_NUMBER) {
			exponent = 31;
			uint32_t bits = 0x7f800000 | uint32_t(src.coin() ? 1 + src.raw(0x7ffffe) : 1u << src.raw(22));
			memcpy(&from.i, &bits, sizeof(bits));
		} else {
			exponent = int(src.range(-20, 29)); mantissa = int(src.range(0, 1023));
			from.i = float(std::ldexp(1024 + mantissa + double(src.raw(1022) + 1) / 1024, exponent - 25));
		}
		if (src.coin()) from.i = -from.i;
		original = from.i;
		src.label("half precision " + std::string(kind == INFINITE ? "infinite" : kind == NOT_NUMBER ? "NaN" : "inexact"));
	}
	from.j = src.coin();
	if (src.coin()) from.k = int16_t(src.integer(-32768, 32767));
	from.l = uint8_t(src.integer(0, 255));
	auto show = [] (Flagged& f) {
		char buf[300];
		snprintf(buf, 300, "%d %lld %d %a %a %u %zu %zu %a %d %d %d %d", f.a, (long long)f.b, f.c, f.d, double(f.e), f.f, f.g.size(), f.h.size(), double(f.i), f.j, bool(f.k), f.k ? *f.k : 0, f.l);
		return std::string(buf) + f.g + f.h;
	};
	src.note(printable(show(from)));
	using Format = Bomba::BinaryFormat<std::string>;
	std::string written = from.serialise<Format>();
	// The wire contains the types from the flags
	refbin::Encoder<uint16_t> e;
	e.add(int8_t(from.a)); e.add(uint16_t(from.b)); e.add(int64_t(from.c)); e.add(float(from.d)); e.add(double(from.e)); e.add(uint8_t(from.f));
	e.bytes(from.g.size(), 1); e.out += from.g;
	e.bytes(from.h.size(), 4); e.out += from.h;
	uint16_t half = (exponent ? exponent << 10 : 0) | mantissa;
	if (std::signbit(from.i)) half |= 0x8000;
	size_t halfAt = e.out.size();
	if (kind == NOT_NUMBER || kind == INEXACT) { // The bits are not entirely determined
		memcpy(&half, written.data() + std::min(halfAt, written.size() - 2), 2);
		auto value = [] (uint16_t bits) { // Independent of the library
			int exponent = (bits >> 10) & 31, mantissa = bits & 1023;
			double result = exponent == 31 ? (mantissa ? NAN : INFINITY) : exponent ? std::ldexp(1024 + mantissa, exponent - 25) : std::ldexp(mantissa, -24);
			return bits & 0x8000 ? -result : result;
		};
		if (kind == NOT_NUMBER) {
			require(std::isnan(value(half)), "not a number was encoded as a number");
			from.i = NAN;
		} else {
			double unit = std::ldexp(1, std::max(exponent, 1) - 25);
			require(std::abs(value(half) - original) < unit, "a number was encoded with needless loss of precision");
			require(value(half) == 0 || std::signbit(value(half)) == std::signbit(original), "a number was encoded with a wrong sign");
			from.i = float(value(half));
		}
	} else if (kind == INFINITE) from.i = original > 0 ? INFINITY : -INFINITY;
	e.add(half); e.add(from.j); e.add(bool(from.k)); if (from.k) e.add(int16_t(*from.k)); e.add(int32_t(from.l));
	requireEqual(e.out, written, "the encoding with numeric types set by flags");
	std::unique_ptr<char[]> memory;
	require(to.deserialise<Format>(exactCopy(memory, written)), "deserialisation reported failure");
	if (kind == NOT_NUMBER && std::isnan(to.i)) from.i = to.i; // May have another sign
	requireEqual(show(from), show(to), "values with numeric types set by flags");
	src.nontrivial = from.b > 255 || from.c < 0;
}
#endif

#if defined(C06)
// C06: the bytes are those described by the documentation
template <typename SizeType, typename Format> void layoutWith(Src& src, const char* sizeName);
static void layout(Src& src) {
	if (src.chance(1, 4)) {
		refbin::BigEndian order;
		src.label("big endian");
		return layoutWith<uint16_t, Bomba::BinaryFormat<std::string, uint16_t, BigEndianNumberFormat<std::string>>>(src, "uint16_t, big endian");
	}
	withSizeType(src, [&] <typename SizeType> (const char* sizeName) { layoutWith<SizeType, Bomba::BinaryFormat<std::string, SizeType>>(src, sizeName); });
}
template <typename SizeType, typename Format> void layoutWith(Src& src, const char* sizeName) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from, to;
		model::GenOptions o;
		o.text = textKind(src);
		if (sizeof(SizeType) == 1) o.maxText = 255, o.maxItems = 30;
		model::generate(src, from, o);
		if (src.coin()) model::generate(src, to);
		src.note(std::string(name) + " with size " + sizeName + ": " + model::toValue(from).show());
		refbin::Encoder<SizeType> e;
		e.add(from);
		requireEqual(e.out, from.template serialise<Format>(), "binary encoding");
		std::unique_ptr<char[]> memory;
		to.template deserialise<Format>(exactCopy(memory, e.out));
		std::string d = Value::diff(model::toValue(from), model::toValue(to));
		if (!d.empty()) fail("bytes made according to the documentation were misread: " + d);
		src.label(name); src.label(sizeName);
		src.nontrivial = e.out.size() > 20;
	});
}
#endif

#if defined(C07)
// C07: truncated or damaged input never causes undefined behaviour; truncated input is never accepted
static void damaged(Src& src) {
	withSizeType(src, [&] <typename SizeType> (const char* sizeName) { withAnyType(src, [&] <typename T> (const char* name) {
		using Format = Bomba::BinaryFormat<std::string, SizeType>;
		T from;
		model::GenOptions o;
		o.maxText = sizeof(SizeType) == 1 ? 60 : 300;
		o.maxItems = 5;
		model::generate(src, from, o);
		refbin::Encoder<SizeType> e;
		e.add(from);
		std::string input = e.out;
		int mutations = int(src.raw(4));
		bool truncated = mutations == 0;
		if (truncated && !e.sizes.empty() && src.coin()) { // As if the message had been longer
			size_t at = e.sizes[src.raw(e.sizes.size() - 1)];
			const uint64_t left = input.size() - at - sizeof(SizeType), most = uint64_t(std::numeric_limits<SizeType>::max());
			uint64_t size = left + 1 + src.raw(20);
			if (src.chance(2, 3)) size = src.pick<uint64_t>({0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 127, 128, 255}) - src.raw(3);
			if (size <= left || size > most) size = most;
			if (size > left) {
				refbin::Encoder<SizeType> changed;
				changed.size(size);
				input.replace(at, sizeof(SizeType), changed.out);
				src.label("size out of bounds");
			} else input.resize(src.raw(input.size() - 1));
		} else if (truncated) input.resize(src.raw(input.size() - 1));
		for (int i = 0; i < mutations; i++) {
			size_t at = input.empty() ? 0 : src.raw(input.size() - 1);
			switch (src.raw(5)) {
				case 0: if (!input.empty()) input[at] = char(src.raw(255)); break;
				case 1: if (!input.empty()) input[at] = src.pick({'\0', '\1', '\x7f', '\x80', '\xff'}); break;
				case 2: input.erase(at, src.length(12)); break;
				case 3: input.insert(at, src.text(Src::BYTES, 12)); break;
				case 4: for (size_t j = at; j < std::min(input.size(), at + sizeof(SizeType)); j++) input[j] = '\xff'; break;
				default: input.resize(src.raw(input.size())); break;
			}
		}
		src.note(std::string(name) + " with size " + sizeName + (truncated ? " truncated: " : " damaged: ") + printable(input));
		T to;
		std::unique_ptr<char[]> memory;
		bool accepted = false;
		try {
			accepted = to.template deserialise<Format>(exactCopy(memory, input));
		} catch (std::exception& e) {
			src.label("exception");
		}
		if (truncated) require(!accepted, "a truncated message was accepted");
		src.labelIf(accepted, "accepted");
		// The target can still be used
		std::unique_ptr<char[]> memory2;
		require(to.template deserialise<Format>(exactCopy(memory2, e.out)), "valid input was refused after damaged input");
		std::string d = Value::diff(model::toValue(from), model::toValue(to));
		if (!d.empty()) fail("valid input was misread after damaged input: " + d);
		src.label(name);
		src.nontrivial = input.size() > 4;
	}); });
}
#endif

#if defined(C06B) || defined(C07)
// Picks a method of the sample interface and random arguments
template <typename Fn> void withCall(Src& src, model::GenOptions o, Fn fn) {
	auto value = [&] <typename T> (T t) { model::generate(src, t, o); return t; };
	auto key = [&] { return src.coin() ? std::string(src.pick({"a", "b"})) : value(std::string()); };
	switch (src.raw(16)) {
		case 16: return fn(19, &Api::mark, src.coin(), value(int()), src.coin(), src.coin());
		case 0: return fn(0, &Api::set, key(), value(std::string()));
		case 1: return fn(1, &Api::get, key());
		case 2: return fn(2, &Api::count);
		case 3: return fn(3, &Api::nothing);
		case 4: return fn(4, &Api::echoInt, value(int64_t()));
		case 5: return fn(5, &Api::weigh, value(int8_t()), value(uint16_t()), value(uint32_t()), value(int16_t()));
		case 6: return fn(6, &Api::echoReal, value(double()));
		case 7: return fn(7, &Api::negate, src.coin());
		case 8: return fn(8, &Api::echoText, value(std::string()));
		case 9: return fn(9, &Api::echoList, value(std::vector<std::string>()), src.coin());
		case 10: return fn(10, &Api::echoMap, value(std::map<std::string, int>()));
		case 11: return fn(11, &Api::shift, value(Point()), value(int()));
		case 12: return fn(12, &Api::plan, value(Trip()), src.coin());
		case 13: return fn(13, &Api::turn, value(std::array<int16_t, 3>()));
		case 14: return fn(14, &Api::maybe, value(std::shared_ptr<std::string>()), value(std::string()));
		default: return fn(15, &Api::combine, value(int()), value(std::string()), src.coin(), double(src.range(-1000, 1000)), value(std::vector<int>()));
	}
}
#endif

#if defined(C06B)
// C06: calls and responses are framed according to the documentation
template <typename SizeType, template <typename> typename NumWriter = Bomba::LittleEndianNumberFormat> void framesWithSize(Src& src) {
	Api singleClientApi, treeClientApi, clientDeep, serverApi, treeServerApi, serverDeep, localApi, localDeep;
	Tree clientTree(treeClientApi, clientDeep), serverTree(treeServerApi, serverDeep);
	bool tree = src.coin();
	Api& clientApi = tree ? treeClientApi : singleClientApi;
	transport::ClientConnection connection(src);
	Bomba::IRemoteCallable &clientRoot = singleClientApi, &serverRoot = serverApi;
	Bomba::BinaryProtocolClient<SizeType, Bomba::ExpandingBuffer<>, NumWriter<Bomba::ExpandingBuffer<>>> client(tree ? clientTree.root : clientRoot, connection);
	Bomba::BinaryProtocolServer<SizeType, Bomba::ExpandingBuffer<>, NumWriter<Bomba::ExpandingBuffer<>>> server(tree ? serverTree.root : serverRoot);
	auto session = server.getSession();
	transport::Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	std::vector<std::function<void()>> futures;
	model::GenOptions o;
	o.text = textKind(src);
	o.maxText = sizeof(SizeType) == 1 ? 30 : 1000;
	o.maxItems = sizeof(SizeType) == 1 ? 2 : 6;
	int calls = int(src.range(1, 8));
	std::string requests, expectedOutput;
	uint32_t id = 0;
	for (int i = 0; i < calls; i++) {
		bool deep = tree && src.coin();
		Api &called = deep ? clientDeep : clientApi, &local = deep ? localDeep : localApi;
		withCall(src, o, [&] (int index, auto method, const auto&... args) {
			std::string request;
			try {
				request = !tree ? refbin::message<SizeType>(id, {index}, args...) : deep ? refbin::message<SizeType>(id, {1, 1, index}, args...)
						: refbin::message<SizeType>(id, {0, index}, args...);
			} catch (refbin::TooLong) { return; }
			using Returned = decltype((local.*method)(args...));
			std::string response;
			if constexpr(std::is_void_v<Returned>) {
				(local.*method)(args...);
				response = refbin::message<SizeType>(id, {});
			} else {
				Returned result = (local.*method)(args...);
				try { response = refbin::message<SizeType>(id, {}, result); } catch (refbin::TooLong) { fail("too large sample"); }
				connection.written.clear();
				auto future = std::shared_ptr<Bomba::Future<Returned>>(new Bomba::Future<Returned>((called.*method).async(args...)));
				futures.push_back([future, result] {
					std::string d = Value::diff(model::toValue(result), model::toValue(future->get()));
					if (!d.empty()) fail("a response made according to the documentation was misread: " + d);
				});
			}
			if constexpr(std::is_void_v<Returned>) {
				connection.written.clear();
				auto future = std::shared_ptr<Bomba::Future<void>>(new Bomba::Future<void>((called.*method).async(args...)));
				futures.push_back([future] { future->get(); });
			}
			src.note("method " + std::to_string(index) + (deep ? " of the nested object" : "") + ": " + printable(request));
			requireEqual(request, connection.written, "encoding of a call");
			connection.inbound += response;
			requests += request;
			expectedOutput += response;
			id++;
		});
	}
	for (size_t at = 0; at < requests.size() && !feeder.disconnected;) {
		size_t size = transport::segment(src, requests.size() - at);
		feeder.receive(std::string_view(requests).substr(at, size));
		at += size;
	}
	require(!feeder.disconnected, "the server disconnected on a correct request");
	requireEqual(expectedOutput, feeder.output, "encoding of the responses");
	src.shuffle(futures);
	for (auto& future : futures) future();
	src.labelIf(tree, "tree");
	src.nontrivial = requests.size() > 20;
}
static void frames(Src& src) {
	switch (src.raw(5)) {
		case 4: { src.label("big endian"); refbin::BigEndian order; return framesWithSize<uint32_t, BigEndianNumberFormat>(src); }
		case 5: { src.label("big endian"); refbin::BigEndian order; return framesWithSize<uint16_t, BigEndianNumberFormat>(src); }
		case 0: src.label("uint16_t"); return framesWithSize<uint16_t>(src);
		case 1: src.label("uint32_t"); return framesWithSize<uint32_t>(src);
		case 2: src.label("int32_t"); return framesWithSize<int32_t>(src);
		default: src.label("uint64_t"); return framesWithSize<uint64_t>(src);
	}
}
#endif

#if defined(C07)
// C07: the same for requests received by a server: only complete requests are processed and nothing is written unless the whole response is
template <typename SizeType> void hostileWithSize(Src& src) {
	Api api, treeApi, deep;
	Tree tree(treeApi, deep);
	bool nested = src.coin();
	Bomba::IRemoteCallable& root = api;
	Bomba::BinaryProtocolServer<SizeType> server(nested ? tree.root : root);
	auto session = server.getSession();
	auto& responder = reinterpret_cast<Bomba::ITcpResponder&>(session);
	model::GenOptions o;
	o.maxText = 60;
	o.maxItems = 4;
	std::string input;
	const size_t header = 4 + sizeof(SizeType);
	withCall(src, o, [&] (int index, auto, const auto&... args) {
		input = !nested ? refbin::message<SizeType>(uint32_t(src.raw(~0u)), {index}, args...) : src.coin() ? refbin::message<SizeType>(7, {1, 1, index}, args...)
				: refbin::message<SizeType>(8, {0, index}, args...);
	});
	bool shortened = src.chance(1, 5); // The declared size ends within the message
	if (shortened) {
		src.label("ends too early");
		size_t size = header + src.raw(input.size() - header - 1);
		refbin::Encoder<SizeType> e;
		e.size(size);
		input.replace(4, sizeof(SizeType), e.out);
		if (src.coin()) input += src.text(Src::BYTES, 30);
		else if (src.coin()) input.resize(size);
	}
	bool consistent = src.coin(); // damaged within a correctly framed message
	for (int i = shortened ? 0 : int(src.raw(3)); i > 0; i--) {
		size_t at = consistent ? header : 0;
		if (input.size() > at) at += src.raw(input.size() - at - 1);
		switch (src.raw(4)) {
			case 0: if (at < input.size()) input[at] = char(src.raw(255)); break;
			case 1: if (at < input.size()) input[at] = src.pick({'\0', '\1', '\x7f', '\x80', '\xff'}); break;
			case 2: input.erase(at, src.length(12)); break;
			case 3: input.insert(at, src.text(Src::BYTES, 12)); break;
			default: if (!consistent) input.resize(src.raw(input.size())); break;
		}
	}
	if (consistent && !shortened) { refbin::Encoder<SizeType> e; e.size(input.size()); input.replace(4, sizeof(SizeType), e.out); }
	bool more = src.coin();
	std::string rest = more ? src.text(Src::BYTES, 30) : "";
	if (consistent && !shortened) input += rest;
	src.note(printable(input));
	transport::Exact exact(input);
	std::string output;
	int writes = 0;
	auto [reaction, consumed] = responder.respond(exact.span(), [&] (std::span<const char> written) { output.append(written.data(), written.size()); writes++; });
	std::make_signed_t<SizeType> declaredSigned = 0;
	SizeType declared = 0;
	if (input.size() >= header) memcpy(&declared, input.data() + 4, sizeof(declared));
	declaredSigned = declared;
	if (input.size() < header) {
		require(reaction == Bomba::ServerReaction::READ_ON, "incomplete header was not waited for");
	} else if (declared < header || (sizeof(SizeType) == 8 && declaredSigned < 0)) {
		require(reaction == Bomba::ServerReaction::DISCONNECT, "a message smaller than its header was not refused");
	} else if (declared > input.size()) {
		require(reaction == Bomba::ServerReaction::READ_ON, "incomplete message was not waited for");
	} else require(reaction != Bomba::ServerReaction::READ_ON, "waiting for more data although the message is complete");
	if (shortened) require(reaction == Bomba::ServerReaction::DISCONNECT, "a request without a part of the arguments was accepted");
	if (reaction == Bomba::ServerReaction::OK) {
		requireEqual(int64_t(declared), consumed, "size of the message");
		requireEqual(1, writes, "number of responses");
		require(output.size() >= header, "response shorter than a header");
		requireEqual(input.substr(0, 4), output.substr(0, 4), "identifier in the response");
		SizeType size = 0;
		memcpy(&size, output.data() + 4, sizeof(size));
		requireEqual(output.size(), size_t(size), "size in the response");
		src.label("responded");
	} else {
		requireEqual(std::string(), output, "data written without processing the message");
		src.label(reaction == Bomba::ServerReaction::READ_ON ? "waiting" : "disconnected");
	}
	src.nontrivial = input.size() > header;
}
static void hostileServer(Src& src) {
	switch (src.raw(2)) {
		case 0: return hostileWithSize<uint16_t>(src);
		case 1: return hostileWithSize<uint32_t>(src);
		default: return hostileWithSize<uint64_t>(src);
	}
}

// C07: damaged responses received by a client raise an error or are waited for
static void hostileClient(Src& src) {
	using SizeType = uint16_t;
	Api api;
	transport::ClientConnection connection(src);
	Bomba::BinaryProtocolClient<SizeType> client(api, connection);
	model::GenOptions o;
	o.maxText = 60;
	o.maxItems = 4;
	Api local;
	bool truncated = src.coin();
	withCall(src, o, [&] (int index, auto method, const auto&... args) {
		using Returned = decltype((local.*method)(args...));
		if constexpr(!std::is_void_v<Returned>) {
			Returned result = (local.*method)(args...);
			std::string whole = refbin::message<SizeType>(0, {}, result), response = whole;
			size_t header = 4 + sizeof(SizeType);
			if (truncated) { // with correct size of the message, but lacking a part of the content
				if (response.size() == header) return;
				size_t size = header + src.raw(response.size() - header - 1);
				refbin::Encoder<SizeType> e; e.size(size); response.replace(4, sizeof(SizeType), e.out);
				if (src.coin()) response.resize(size); // Otherwise, the part is there, but belongs to the next message
			} else for (int i = int(src.raw(3)); i > 0 && !response.empty(); i--) {
				size_t at = src.raw(response.size() - 1);
				switch (src.raw(3)) {
					case 0: response[at] = char(src.raw(255)); break;
					case 1: response[at] = src.pick({'\0', '\1', '\x7f', '\x80', '\xff'}); break;
					case 2: response.erase(at, src.length(12)); break;
					default: response.insert(at, src.text(Src::BYTES, 12)); break;
				}
			}
			src.note("method " + std::to_string(index) + ", response " + printable(response));
			connection.inbound = response;
			bool accepted = false;
			try {
				auto got = (api.*method)(args...);
				accepted = true;
				model::toValue(got);
			} catch (transport::NoMoreData&) {
				require(!truncated, "waiting for more though the response is complete");
				src.label("waiting");
			} catch (Failure&) { throw; }
			catch (std::exception&) { src.label("error"); }
			require(!(truncated && accepted), "a response without a part of the value was accepted");
			if (accepted) src.label("accepted");
			src.nontrivial = true;
		}
	});
}
#endif

#if defined(C06B)
// C06: a lone function instead of an object, messages of sizes around the largest representable one
static int pinged;
template <typename SizeType> void limitsWithSize(Src& src) {
	using Repeat = Bomba::RpcStatelessLambda<[] (std::string text = Bomba::name("text"), int size = Bomba::name("size")) { return std::string(size_t(size), text.empty() ? '-' : text[0]); }>;
	using Ping = Bomba::RpcStatelessLambda<[] { pinged++; }>;
	Repeat clientRepeat, serverRepeat;
	Ping clientPing, serverPing;
	transport::ClientConnection connection(src);
	bool simple = src.chance(1, 4);
	Bomba::IRemoteCallable &clientRoot = simple ? static_cast<Bomba::IRemoteCallable&>(clientPing) : clientRepeat, &serverRoot = simple ? static_cast<Bomba::IRemoteCallable&>(serverPing) : serverRepeat;
	Bomba::BinaryProtocolClient<SizeType> client(clientRoot, connection);
	Bomba::BinaryProtocolServer<SizeType> server(serverRoot);
	auto session = server.getSession();
	transport::Feeder feeder(reinterpret_cast<Bomba::ITcpResponder&>(session));
	if (simple) {
		int count = int(src.range(1, 5));
		std::string requests, responses;
		for (int i = 0; i < count; i++) {
			connection.written.clear();
			connection.inbound += refbin::message<SizeType>(i, {});
			clientPing();
			requireEqual(refbin::message<SizeType>(i, {}), connection.written, "encoding of a call");
			requests += connection.written;
			responses += refbin::message<SizeType>(i, {});
		}
		pinged = 0;
		feeder.receive(requests);
		requireEqual(count, pinged, "number of calls");
		requireEqual(responses, feeder.output, "encoding of the responses");
		src.label("without arguments");
		return;
	}
	const int64_t most = std::numeric_limits<SizeType>::max();
	const int header = 4 + sizeof(SizeType);
	auto about = [&] (int64_t value) { return std::max<int64_t>(0, src.chance(2, 3) ? value - 3 + int64_t(src.raw(6)) : int64_t(src.raw(uint64_t(std::min<int64_t>(value, 1000))))); };
	std::string text(size_t(about(most - header - int(sizeof(SizeType)) - 4)), src.pick({'a', 'b'}));
	int size = int(about(most - header - int(sizeof(SizeType))));
	src.note(std::to_string(text.size()) + " characters, result " + std::to_string(size));
	int64_t requestSize = header + int(sizeof(SizeType)) + int64_t(text.size()) + 4, responseSize = header + int(sizeof(SizeType)) + size;
	bool sendable = requestSize <= most, answerable = responseSize <= most;
	std::string result(size_t(size), text.empty() ? '-' : text[0]);
	if (answerable) connection.inbound = refbin::message<SizeType>(0, {}, result);
	try {
		std::unique_ptr<Bomba::Future<std::string>> future(new Bomba::Future<std::string>(clientRepeat.async(text, size)));
		require(sendable, "a request of a size that can't be represented was sent");
		requireEqual(refbin::message<SizeType>(0, {}, text, size), connection.written, "encoding of a call");
		if (answerable) requireEqual(result, future->get(), "result");
		else try { connection.inbound.clear(); future.reset(); } catch (...) {}
	} catch (std::logic_error& e) {
		require(!sendable, "a request was not sent although its size can be represented");
		requireEqual(std::string(), connection.written, "data written by a failed call");
	}
	if (sendable) {
		feeder.receive(refbin::message<SizeType>(5, {}, text, size));
		requireEqual(!answerable, feeder.disconnected, "whether the server disconnected");
		requireEqual(answerable ? refbin::message<SizeType>(5, {}, result) : std::string(), feeder.output, "encoding of the response");
	}
	src.labelIf(requestSize == most, "largest request"); src.labelIf(responseSize == most, "largest response"); src.labelIf(!sendable, "too large request"); src.labelIf(!answerable, "too large response");
	src.nontrivial = true;
}
static void limits(Src& src) {
	switch (src.raw(9)) {
		case 0: return limitsWithSize<uint16_t>(src);
		case 1: return limitsWithSize<int16_t>(src);
		case 2: case 3: return limitsWithSize<int8_t>(src);
		default: return limitsWithSize<uint8_t>(src);
	}
}
#endif

#ifdef C05
PBT_MAIN({"roundtrip", roundtrip, 160000, 4000000}, {"flagged", flagged, 80000, 1500000}, {"depths", depths, 40000, 800000}, {"large", large, 300, 6000})
#elif defined(C06)
PBT_MAIN({"layout", layout, 200000, 4000000}, {"flagged", flagged, 80000, 1500000}, {"large", large, 300, 6000})
#elif defined(C06B)
PBT_MAIN({"frames", frames, 120000, 3000000}, {"limits", limits, 60000, 1500000})
#elif defined(C07)
PBT_MAIN({"damaged", damaged, 150000, 4000000}, {"hostile_server", hostileServer, 400000, 10000000}, {"hostile_client", hostileClient, 300000, 6000000})
#endif
