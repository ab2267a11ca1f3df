// The encoding of HTML forms
#include "types.hpp"
#include "transport.hpp"
#include "bomba_http.hpp"
using namespace pbt;
using transport::Exact;
using model::Value;

using Form = Bomba::HtmlMessageEncoding<std::string, std::string>;

struct FormData : Bomba::Serialisable<FormData> {
	int64_t large = key<"large">;
	int8_t small = key<"small">;
	uint32_t number = key<"a number">;
	double real = key<"real">;
	float shorter = key<"shorter">;
	bool agree = key<"agree">;
	std::string text = key<"text">;
	std::string other = key<"other text & more">;
	Bomba::Optional<std::string> maybe = key<"maybe">;
	std::shared_ptr<int> pointer = key<"pointer">;
	template <typename Fn> void fields(Fn f) { f("large", large); f("small", small); f("a number", number); f("real", real); f("shorter", shorter); f("agree", agree);
		f("text", text); f("other text & more", other); f("maybe", maybe); f("pointer", pointer); }
};

static std::string withoutReferences(std::string s) {
	for (size_t at = 0; (at = s.find("&#", at)) != s.npos; at++) s[at] = '+';
	return s;
}
static void generate(Src& src, FormData& data) {
	model::GenOptions o;
	o.text = Src::UTF8;
	o.maxText = src.chance(1, 20) ? 5000 : 60;
	model::generate(src, data, o);
	data.agree = true; // false is represented by omission
	if (!data.maybe) data.maybe = src.text(Src::UTF8, 10); // no null in the format
	if (!data.pointer) data.pointer = std::make_shared<int>(7);
	if (src.chance(1, 5)) { // Resembling encoded references
		data.text += src.pick({"&x35;", "&?2#65;", "&x235;", "& #35;", "&%2335;", "%26%2335%3b", "&amp;#35;", "&a#35;", "+#35;", "&3b35;"});
		if (src.coin()) data.text += src.text(Src::UTF8, 8);
	}
	data.text = withoutReferences(data.text);
	data.other = withoutReferences(data.other);
	data.maybe = withoutReferences(*data.maybe);
}

static void roundtrip(Src& src) {
	FormData from, to;
	generate(src, from);
	bool dirty = src.coin();
	if (dirty) generate(src, to); else to.agree = false;
	Value want = model::toValue(from);
	src.note(want.show());
	std::string written;
	if (src.chance(1, 3)) {
		std::string prefix = src.text(Src::ASCII, 20), whole = prefix;
		from.serialise<Form>(whole);
		requireEqual(prefix, whole.substr(0, prefix.size()), "what was in the output before");
		written = whole.substr(prefix.size());
	} else written = from.serialise<Form>();
	src.note(written);
	requireEqual(std::string(), Value::diff(want, model::toValue(from)), "serialisation changed the object");
	int separators = 0, assignments = 0;
	for (unsigned char c : written) {
		if (c <= ' ' || c >= 127 || c == '#' || c == '"') fail("a character that may not appear in a form was written: " + printable(written));
		if (c == '&') separators++;
		if (c == '=') assignments++;
	}
	requireEqual(9, separators, "number of unencoded &"); requireEqual(10, assignments, "number of unencoded =");
	Exact copy(written);
	require(to.deserialise<Form>(copy.view()), "deserialisation of own output reported failure");
	std::string d = Value::diff(want, model::toValue(to));
	if (!d.empty()) fail("round trip changed " + d + " in " + printable(written, 500));
	src.labelIf(dirty, "used target");
	src.nontrivial = written.size() > 100;
}

// Large texts
static void large(Src& src) {
	FormData from, to;
	generate(src, from);
	for (std::string* text : {&from.text, &from.other, &*from.maybe})
		if (src.coin()) *text = withoutReferences(src.bulk(Src::UTF8, 3000000));
	src.note(std::to_string(from.text.size()) + ", " + std::to_string(from.other.size()) + " and " + std::to_string(from.maybe->size()) + " bytes");
	if (src.coin()) generate(src, to);
	std::string written;
	if (src.coin()) {
		Bomba::ExpandingBuffer<64> buffer;
		from.serialise<Bomba::HtmlMessageEncoding<std::string, Bomba::GeneralisedBuffer>>(buffer);
		written = std::string_view(buffer);
	} else written = from.serialise<Form>();
	Exact copy(written);
	require(to.deserialise<Form>(copy.view()), "deserialisation of own output reported failure");
	std::string d = Value::diff(model::toValue(from), model::toValue(to));
	if (!d.empty()) fail("round trip of large data changed " + d.substr(0, 500));
	src.labelIf(written.size() > 65536, "over 64 kB"); src.labelIf(written.size() > 1000000, "over 1 MB");
	src.nontrivial = written.size() > 2000;
}

// Like browsers do, with all the allowed variants
static std::string encode(Src& src, std::string_view s) {
	std::string r;
	char buf[32];
	auto percent = [&] (unsigned c) { snprintf(buf, 32, src.coin() ? "%%%02x" : "%%%02X", c); r += buf; };
	int eagerness = int(src.raw(3));
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == ' ') r += src.coin() ? "+" : "%20";
		else if (c < 0x80 && (isalnum(c) || (c && strchr(".-_*", c)))) { if (eagerness == 3 && src.chance(1, 4)) percent(c); else r += char(c); }
		else if (c < 0x80 && eagerness == 0 && c && strchr("~'()!,;:@$/?[]{}<>|^`\\\"", c)) r += char(c);
		else if (c < 0x80) percent(c);
		else {
			int extra = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
			uint32_t code = c & (0x3f >> extra);
			while (extra--) code = code << 6 | (s[++i] & 0x3f);
			if (code <= 0xff) percent(code);
			else { percent('&'); percent('#'); r += std::to_string(code); percent(';'); }
		}
	}
	return r;
}

static void browser(Src& src) {
	FormData from, to;
	generate(src, from);
	generate(src, to);
	to.agree = src.coin();
	Value expected = model::toValue(to);
	std::vector<std::pair<std::string, std::string>> fields;
	bool variation = false;
	auto real = [&] (double v) {
		char buf[64];
		snprintf(buf, 64, src.coin() ? "%.17g" : "%.17e", v);
		return encode(src, buf);
	};
	auto add = [&] (const char* name, const std::string& value, auto& target, const auto& source) {
		if (src.chance(1, 6)) { variation = true; return; } // absent, keeps the value
		fields.push_back({encode(src, name), value});
		target = source;
	};
	FormData want;
	*&want = to; // Members are copied
	want.pointer = std::make_shared<int>(*to.pointer);
	add("large", std::to_string(from.large), want.large, from.large);
	add("small", std::to_string(from.small), want.small, from.small);
	add("a number", std::to_string(from.number), want.number, from.number);
	add("real", real(from.real), want.real, from.real);
	add("shorter", real(from.shorter), want.shorter, from.shorter);
	add("agree", src.pick({"true", "on", "1", ""}), want.agree, from.agree);
	add("text", encode(src, from.text), want.text, from.text);
	add("other text & more", encode(src, from.other), want.other, from.other);
	add("maybe", encode(src, *from.maybe), want.maybe, from.maybe);
	add("pointer", std::to_string(*from.pointer), want.pointer, from.pointer);
	for (int i = int(src.raw(2)); i > 0; i--) {
		variation = true;
		fields.push_back({encode(src, "x" + withoutReferences(src.text(Src::UTF8, 8))), encode(src, withoutReferences(src.text(Src::UTF8, 20)))});
	}
	if (src.coin()) { src.shuffle(fields); variation = true; }
	std::string written;
	for (auto& [name, value] : fields) {
		if (!written.empty()) written += '&';
		written += name + '=' + value;
	}
	src.note(written);
	Exact copy(written);
	require(to.deserialise<Form>(copy.view()), "deserialisation reported failure");
	std::string d = Value::diff(model::toValue(want), model::toValue(to));
	if (!d.empty()) fail("form was misread: " + d + " in " + printable(written, 500));
	src.nontrivial = variation && written.size() > 20;
}

// Through the input interface: identification of types, skipping, positions
static void interface(Src& src) {
	using Bomba::IStructuredInput;
	struct Entry { std::string name, value, encoded; IStructuredInput::MemberType type; };
	std::vector<Entry> entries;
	int count = int(src.range(1, 6));
	std::string written;
	for (int i = 0; i < count; i++) {
		Entry e;
		e.name = withoutReferences(src.text(Src::UTF8, 10));
		switch (src.raw(3)) {
			case 0: e.value = std::to_string(src.integer()); e.type = IStructuredInput::TYPE_INTEGER; break;
			case 1: { char buf[500]; snprintf(buf, 500, src.coin() ? "%.17e" : "%.3f", src.real()); e.value = buf; e.type = IStructuredInput::TYPE_FLOAT; break; }
			case 2: e.value = ""; e.type = IStructuredInput::TYPE_STRING; break;
			default: e.value = withoutReferences(src.text(Src::UTF8, 30)) + "?"; e.type = IStructuredInput::TYPE_STRING; break;
		}
		e.encoded = encode(src, e.value);
		if (i) written += '&';
		written += encode(src, e.name) + '=' + e.encoded;
		entries.push_back(e);
	}
	src.note(written);
	Exact copy(written);
	Form::Input input(copy.view());
	auto noFlags = Bomba::SerialisationFlags::NONE;
	int seen = 0;
	input.readObject(noFlags, [&] (std::optional<std::string_view> name, int index) {
		require(seen < count, "more entries were read than there are");
		Entry& e = entries[seen];
		require(name.has_value(), "no name");
		requireEqual(e.name, *name, "name of an entry");
		requireEqual(seen, index, "index of an entry");
		seen++;
		if (src.coin()) requireEqual(int(e.type), int(input.identifyType(noFlags)), "identified type of " + e.encoded);
		auto readIt = [&] {
			if (e.type == IStructuredInput::TYPE_INTEGER && src.coin()) requireEqual(int64_t(strtoll(e.value.c_str(), nullptr, 10)), input.readInt(noFlags), "integer");
			else if (e.type == IStructuredInput::TYPE_FLOAT && src.coin()) {
				double got = input.readFloat(noFlags), want = strtod(e.value.c_str(), nullptr);
				requireEqual(want, got, "real number " + e.value);
			} else requireEqual(e.value, input.readString(noFlags), "string");
		};
		switch (src.raw(3)) {
			case 0: readIt(); break;
			case 1: input.skipObjectElement(noFlags); break;
			case 2: { // read twice
				auto position = input.storePosition(noFlags);
				readIt();
				input.restorePosition(noFlags, position);
				readIt();
				break;
			}
			default: {
				auto position = input.storePosition(noFlags);
				input.skipObjectElement(noFlags);
				auto after = input.storePosition(noFlags);
				input.restorePosition(noFlags, position);
				readIt();
				input.restorePosition(noFlags, after);
			}
		}
		return true;
	});
	requireEqual(count, seen, "number of entries");
	require(input.good, "input is not good");
	src.nontrivial = count > 1;
}

// Anything can come, it must not cause undefined behaviour
static void damaged(Src& src) {
	std::string input;
	if (src.coin()) {
		FormData from;
		generate(src, from);
		input = from.serialise<Form>();
	} else {
		int pieces = int(src.raw(12));
		while (pieces--) input += src.pick({"%", "&", "=", "+", "%2", "%26%23", "%3b", "%26%23123%3B", "%26%23999999999999%3b", "small=", "text=", "a+number=1", "%ff", "%zz", "large=-", "-", "e", "1e999", "12", "maybe", ".5"});
	}
	for (int i = int(src.raw(3)); i > 0 && !input.empty(); i--) {
		size_t at = src.raw(input.size() - 1);
		switch (src.raw(3)) {
			case 0: input[at] = src.pick({'%', '&', '=', '+', '\0', '\xff', '-', '0'}); break;
			case 1: input.resize(at); break;
			case 2: input.erase(at, 1 + src.raw(4)); break;
			default: input[at] = char(src.raw(255)); break;
		}
	}
	src.note(input);
	FormData to;
	bool ok = false;
	Exact copy(input);
	try {
		ok = to.deserialise<Form>(copy.view());
	} catch (std::exception& e) { src.label("refused with an exception"); }
	src.labelIf(ok, "accepted");
	std::string plain;
	Exact again(input);
	Bomba::demangleUtf8Url(again.view(), plain);
	plain.clear();
	Bomba::demangleHttpResponse(again.view(), plain);
	std::string mangled;
	Bomba::mangleHttpResponse(again.view(), mangled); // may be invalid UTF-8
	src.nontrivial = input.size() > 3;
}

// What can't be represented is refused rather than lost or misread
struct Inner : Bomba::Serialisable<Inner> {
	std::string text = key<"text">;
};
struct Unsupported : Bomba::Serialisable<Unsupported> {
	std::string before = key<"before">;
	std::vector<std::string> list = key<"list">;
	std::string after = key<"after">;
};
struct UnsupportedNested : Bomba::Serialisable<UnsupportedNested> {
	std::string before = key<"before">;
	Inner list = key<"list">;
	std::string after = key<"after">;
};
struct UnsupportedMap : Bomba::Serialisable<UnsupportedMap> {
	std::string before = key<"before">;
	std::map<std::string, std::string> list = key<"list">;
	std::string after = key<"after">;
};
template <typename T> static void refuse(Src& src) {
	T from, to;
	from.before = withoutReferences(src.text(Src::UTF8, 10));
	from.after = withoutReferences(src.text(Src::UTF8, 10));
	if constexpr(requires { from.list.push_back(""); }) for (int i = int(src.raw(3)); i > 0; i--) from.list.push_back(src.text(Src::UTF8, 5));
	else if constexpr(requires { from.list[""]; }) for (int i = int(src.raw(3)); i > 0; i--) from.list[src.text(Src::UTF8, 5)] = src.text(Src::UTF8, 5);
	else from.list.text = src.text(Src::UTF8, 5);
	bool refused = false;
	try { from.template serialise<Form>(); } catch (std::logic_error&) { refused = true; }
	require(refused, "content that can't be represented in a form was written");
	std::vector<std::string> entries = {"before=" + encode(src, from.before), "after=" + encode(src, from.after), "list=" + encode(src, withoutReferences(src.text(Src::UTF8, 10)))};
	for (int i = int(src.raw(2)); i > 0; i--) entries.push_back("list=" + encode(src, withoutReferences(src.text(Src::UTF8, 10))));
	src.shuffle(entries);
	std::string input;
	for (auto& it : entries) input += (input.empty() ? "" : "&") + it;
	src.note(printable(input));
	refused = false;
	Exact exact(input);
	try { refused = !to.template deserialise<Form>(exact.view()); } catch (std::runtime_error&) { refused = true; }
	require(refused, "an entry of a form was accepted as something that can't be represented in it");
	src.nontrivial = true;
}
static void unsupported(Src& src) {
	switch (src.raw(4)) {
		case 0: return refuse<Unsupported>(src);
		case 1: return refuse<UnsupportedNested>(src);
		case 2: return refuse<UnsupportedMap>(src);
		case 3: { // No false
			FormData from;
			generate(src, from);
			from.agree = false;
			bool refused = false;
			try { from.serialise<Form>(); } catch (std::logic_error&) { refused = true; }
			require(refused, "false was written into a form");
			break;
		}
		default: { // No null
			FormData from;
			generate(src, from);
			if (src.coin()) from.maybe = Bomba::Optional<std::string>(); else from.pointer = nullptr;
			bool refused = false;
			try { from.serialise<Form>(); } catch (std::logic_error&) { refused = true; }
			require(refused, "null was written into a form");
			break;
		}
	}
}

#ifdef C08
PBT_MAIN({"roundtrip", roundtrip, 150000, 3000000}, {"large", large, 500, 10000}, {"browser", browser, 150000, 3000000}, {"interface", interface, 150000, 3000000}, {"damaged", damaged, 200000, 4000000}, {"unsupported", unsupported, 30000, 1000000})
#endif
