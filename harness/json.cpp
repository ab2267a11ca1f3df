#include "large.hpp"
#include "bomba_json.hpp"
using namespace pbt;
using model::Value;

// C01: serialise, deserialise into a fresh or a used object, get the same
static void roundtrip(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from, to;
		model::generate(src, from);
		bool dirty = src.coin();
		if (dirty) model::generate(src, to);
		Value want = model::toValue(from);
		src.note(std::string(name) + (dirty ? " (used target " + model::toValue(to).show(200) + ")" : "") + ": " + want.show());
		std::string written;
		bool append = src.chance(1, 4);
		if (append) {
			std::string prefix = src.coin() ? "" : src.text(Src::ASCII, 20);
			std::string whole = prefix;
			from.template serialise<Bomba::BasicJson<>>(whole);
			require(std::string_view(whole).substr(0, prefix.size()) == prefix, "appending serialisation changed what was already in the output");
			written = whole.substr(prefix.size());
			requireEqual(from.template serialise<Bomba::BasicJson<>>(), written, "the two ways to serialise");
		} else written = from.template serialise<Bomba::BasicJson<>>();
		requireEqual(std::string(), Value::diff(want, model::toValue(from)), "serialisation changed the object");
		std::unique_ptr<char[]> exact(new char[written.size()]); // Out of bounds reads become visible
		memcpy(exact.get(), written.data(), written.size());
		bool ok = to.template deserialise<Bomba::BasicJson<>>(std::string_view(exact.get(), written.size()));
		require(ok, "deserialisation of own output reported failure");
		Value got = model::toValue(to);
		std::string d = Value::diff(want, got);
		if (!d.empty()) fail("round trip through JSON changed " + d + " in " + printable(written, 500));
		src.label(name);
		src.labelIf(dirty, "used target"); src.labelIf(append, "append"); src.labelIf(written.size() > 1024, "over 1 KB"); src.labelIf(written.size() > 10000, "over 10 KB");
		src.nontrivial = written.size() > 40;
	});
}

// C02: output is strictly valid JSON denoting the value
static void validity(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from;
		model::GenOptions o;
		o.unsignedAsSigned = true;
		model::generate(src, from, o);
		Value want = model::toValue(from);
		src.note(std::string(name) + ": " + want.show());
		std::string written = from.template serialise<Bomba::BasicJson<>>();
		std::string d = Value::diff(want, model::StrictJson::parse(written));
		if (!d.empty()) fail("the JSON written denotes something else: " + d + " in " + printable(written, 500));
		src.label(name);
		src.nontrivial = written.size() > 40;
	});
}

// C02: the same for the output interface used directly
struct Direct {
	Src& src;
	int budget = 60;
	Value any(int depth) {
		budget--;
		switch (depth ? src.raw(depth > 5 || budget < 0 ? 4 : 6) : 4 + src.raw(2)) {
			case 0: return Value::integer(src.integer());
			case 1: return Value::str(src.text(Src::UTF8, 2000));
			case 2: return Value::null();
			case 3: return Value::boolean(src.coin());
			case 4: return Value::real(src.real());
			case 5: { Value v = Value::array(); int n = int(src.raw(5)); for (int i = 0; i < n; i++) v.items.push_back(any(depth + 1)); return v; }
			default: { Value v = Value::object(); int n = int(src.raw(5)); for (int i = 0; i < n; i++) v.members.emplace_back(std::to_string(i) + src.text(Src::UTF8, 20), any(depth + 1)); return v; }
		}
	}
	static constexpr auto NoFlags = Bomba::SerialisationFlags::NONE;
	void write(Bomba::IStructuredOutput& out, const Value& v) {
		if (src.chance(1, 5)) { out.writeOptional(NoFlags, v.kind != Value::NUL, [&] { writeInner(out, v); }); return; }
		writeInner(out, v);
	}
	void writeInner(Bomba::IStructuredOutput& out, const Value& v) {
		switch (v.kind) {
			case Value::NUL: out.writeNull(NoFlags); break;
			case Value::BOOL: out.writeBool(NoFlags, v.b); break;
			case Value::INT: out.writeInt(NoFlags, v.i); break;
			case Value::REAL: out.writeFloat(NoFlags, v.d); break;
			case Value::STR: out.writeString(NoFlags, v.s); break;
			case Value::ARR: {
				bool known = src.coin();
				if (src.coin()) {
					out.startWritingArray(NoFlags, known ? int(v.items.size()) : Bomba::IStructuredOutput::UNKNOWN_SIZE);
					int index = 0;
					for (auto& it : v.items) { out.introduceArrayElement(NoFlags, index++); write(out, it); }
					out.endWritingArray(NoFlags);
				} else {
					auto filler = out.writeArray(known ? int(v.items.size()) : Bomba::IStructuredOutput::UNKNOWN_SIZE);
					for (auto& it : v.items) fillOne(filler, it);
				}
				break;
			}
			case Value::OBJ: {
				bool known = src.coin();
				if (src.coin()) {
					out.startWritingObject(NoFlags, known ? int(v.members.size()) : Bomba::IStructuredOutput::UNKNOWN_SIZE);
					int index = 0;
					for (auto& it : v.members) { out.introduceObjectMember(NoFlags, it.first, index++); write(out, it.second); }
					out.endWritingObject(NoFlags);
				} else {
					auto filler = out.writeObject(known ? int(v.members.size()) : Bomba::IStructuredOutput::UNKNOWN_SIZE);
					for (auto& it : v.members) fillMember(filler, it.first, it.second);
				}
			}
		}
	}
	void fillOne(Bomba::IStructuredOutput::ArrayFiller& filler, const Value& v) {
		switch (v.kind) {
			case Value::NUL: filler.writeNull(); break;
			case Value::BOOL: filler.writeBool(v.b); break;
			case Value::INT: filler.writeInt(v.i); break;
			case Value::REAL: filler.writeFloat(v.d); break;
			case Value::STR: filler.writeString(v.s); break;
			case Value::ARR: { auto sub = filler.writeArray(src.coin() ? int(v.items.size()) : -1); for (auto& it : v.items) fillOne(sub, it); break; }
			case Value::OBJ: { auto sub = filler.writeObject(src.coin() ? int(v.members.size()) : -1); for (auto& it : v.members) fillMember(sub, it.first, it.second); break; }
		}
	}
	void fillMember(Bomba::IStructuredOutput::ObjectFiller& filler, const std::string& name, const Value& v) {
		switch (v.kind) {
			case Value::NUL: filler.writeNull(name); break;
			case Value::BOOL: filler.writeBool(name, v.b); break;
			case Value::INT: filler.writeInt(name, v.i); break;
			case Value::REAL: filler.writeFloat(name, v.d); break;
			case Value::STR: filler.writeString(name, v.s); break;
			case Value::ARR: { auto sub = filler.writeArray(name, src.coin() ? int(v.items.size()) : -1); for (auto& it : v.items) fillOne(sub, it); break; }
			case Value::OBJ: { auto sub = filler.writeObject(name, src.coin() ? int(v.members.size()) : -1); for (auto& it : v.members) fillMember(sub, it.first, it.second); break; }
		}
	}
};
static void direct(Src& src) {
	Direct d{src};
	Value v = d.any(0);
	src.note(v.show());
	std::string out;
	Bomba::BasicJson<>::Output format(out);
	d.write(format, v);
	std::string diff = Value::diff(v, model::StrictJson::parse(out));
	if (!diff.empty()) fail("the JSON written denotes something else: " + diff + " in " + printable(out, 500));
	src.nontrivial = v.kind >= Value::ARR && out.size() > 10;
}

// C03: any standard JSON text denoting the value is read, unknown members are ignored, absent ones keep their values
static void reading(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from, to;
		model::GenOptions o;
		o.unsignedAsSigned = true;
		model::generate(src, from, o);
		if (src.coin()) model::generate(src, to);
		Value doc = model::toValue(from), before = model::toValue(to), want = doc;
		bool dropped = src.chance(1, 3);
		if (dropped) for (size_t i = 0; i < doc.members.size();) {
			if (src.coin()) {
				*want.find(doc.members[i].first) = *before.find(doc.members[i].first);
				doc.members.erase(doc.members.begin() + i);
			} else i++;
		}
		model::JsonStyle style(src);
		for (auto& it : want.members) style.known.insert(it.first);
		std::string text = style.text(doc);
		src.note(std::string(name) + " into " + before.show(200) + ": " + printable(text, 800));
		std::unique_ptr<char[]> exact(new char[text.size()]);
		memcpy(exact.get(), text.data(), text.size());
		bool ok = to.template deserialise<Bomba::BasicJson<>>(std::string_view(exact.get(), text.size()));
		require(ok, "reading valid JSON reported failure");
		std::string d = Value::diff(want, model::toValue(to));
		if (!d.empty()) fail("valid JSON was misread: " + d + " from " + printable(text, 1500));
		src.label(name);
		src.labelIf(style.extraCount > 0, "unknown members"); src.labelIf(dropped, "absent members"); src.labelIf(style.whitespace, "whitespace");
		src.labelIf(style.escapes, "escapes"); src.labelIf(style.numbers, "number styles"); src.labelIf(style.reorder, "reordered");
		src.nontrivial = text.size() > 40 && (style.whitespace || style.escapes || style.numbers || style.extraCount || style.reorder);
	});
}

// C03 through the input interface: identifyType tells the type of what follows, positions can be restored, values can be skipped
struct DirectReader {
	Src& src;
	Bomba::IStructuredInput& in;
	static constexpr auto NoFlags = Bomba::SerialisationFlags::NONE;
	void read(const Value& v, const std::string& path) {
		using I = Bomba::IStructuredInput;
		static const I::MemberType types[] = {I::TYPE_NULL, I::TYPE_BOOLEAN, I::TYPE_INTEGER, I::TYPE_FLOAT, I::TYPE_STRING, I::TYPE_ARRAY, I::TYPE_OBJECT};
		if (src.coin()) requireEqual(int(types[v.kind]), int(in.identifyType(NoFlags)), "identifyType at " + path);
		if (src.chance(1, 6)) {
			auto position = in.storePosition(NoFlags);
			if (src.coin()) in.skipObjectElement(NoFlags); else read(v, path);
			in.restorePosition(NoFlags, position);
		}
		if (src.chance(1, 6)) { in.skipObjectElement(NoFlags); return; }
		switch (v.kind) {
			case Value::NUL: if (src.coin()) in.readNull(NoFlags); else require(!in.readOptional(NoFlags, [] {}), "readOptional on null"); break;
			case Value::BOOL: requireEqual(v.b, in.readBool(NoFlags), "bool at " + path); break;
			case Value::INT: requireEqual(v.i, in.readInt(NoFlags), "int at " + path); break;
			case Value::REAL: require(Value::sameReal(v.d, in.readFloat(NoFlags)), "float"); break;
			case Value::STR: requireEqual(v.s, in.readString(NoFlags), "string at " + path); break;
			case Value::ARR: {
				in.startReadingArray(NoFlags);
				size_t i = 0;
				while (in.nextArrayElement(NoFlags)) {
					require(i < v.items.size(), "extra array elements");
					read(v.items[i], path + "[]"); i++;
				}
				requireEqual(v.items.size(), i, "array length at " + path);
				in.endReadingArray(NoFlags);
				break;
			}
			case Value::OBJ: {
				size_t i = 0;
				in.readObject(NoFlags, [&] (std::optional<std::string_view> name, int index) {
					require(i < v.members.size(), "extra members");
					require(name.has_value(), "member without name");
					requireEqual(v.members[i].first, *name, "member name at " + path);
					requireEqual(int(i), index, "member index");
					read(v.members[i].second, path + ".");
					i++;
					return true;
				});
				requireEqual(v.members.size(), i, "object size at " + path);
			}
		}
	}
};
static void directReading(Src& src) {
	Direct d{src};
	Value v = d.any(0);
	model::JsonStyle style(src, false);
	style.numbers = false; // The type as written is to be identified
	std::string text = style.text(v);
	// Make sure that reals look like reals
	src.note(printable(text));
	Value seen = model::StrictJson::parse(text);
	std::unique_ptr<char[]> exact(new char[text.size()]);
	memcpy(exact.get(), text.data(), text.size());
	Bomba::BasicJson<>::Input in(std::string_view(exact.get(), text.size()));
	DirectReader{src, in}.read(seen, "");
	require(in.good, "valid input marked as bad");
	src.nontrivial = v.kind >= Value::ARR && text.size() > 10;
}

// Arrays of other lengths than the member can hold don't affect anything else
static void lengths(Src& src) {
	auto apply = [&] <typename T> (const char* name, std::initializer_list<const char*> fixed) {
		T from, to;
		model::GenOptions o;
		o.maxText = 40;
		o.maxItems = 4;
		model::generate(src, from, o);
		model::generate(src, to, o);
		Value doc = model::toValue(from), expected = doc, before = model::toValue(to);
		for (auto& m : doc.members) {
			bool isFixed = false;
			for (const char* f : fixed) if (m.first == f) isFixed = true;
			if (!isFixed || src.chance(1, 4)) continue;
			if (src.chance(2, 3)) {
				model::JsonStyle style(src);
				for (int i = int(src.range(1, 5)); i > 0; i--) m.second.items.push_back(src.coin() ? m.second.items[src.raw(m.second.items.size() - 1)] : style.junk(1));
				src.label("longer");
			} else {
				Value* now = nullptr;
				for (auto& e : expected.members) if (e.first == m.first) now = &e.second;
				size_t left = src.raw(m.second.items.size() - 1);
				m.second.items.resize(left);
				for (size_t i = left; i < now->items.size(); i++) now->items[i] = before.find(m.first)->items[i]; // The rest is as it was
				src.label("shorter");
			}
			src.nontrivial = true;
		}
		std::string text = model::JsonStyle(src).text(doc);
		src.note(std::string(name) + ": " + printable(text, 1000));
		require(to.template deserialise<Bomba::BasicJson<>>(text), "valid JSON refused");
		std::string d = Value::diff(expected, model::toValue(to));
		if (!d.empty()) fail("valid JSON was misread: " + d);
	};
	if (src.coin()) apply.template operator()<Containers>("Containers", {"fixedInts", "fixedStrings", "fixedNested"});
	else apply.template operator()<Nested>("Nested", {"pair"});
}

// C01-C03: large documents
static void large(Src& src) {
	LargeData from, to;
	size_t size = generateLarge(src, from, Src::UTF8);
	Value want = model::toValue(from);
	bool dirty = src.chance(1, 3);
	if (dirty) generateLarge(src, to, Src::UTF8, 100000, 1000);
#ifdef C03
	model::JsonStyle style(src);
	style.whitespace = style.escapes = style.numbers = style.extras = style.reorder = false;
	std::string text = style.text(want);
#else
	std::string text = src.coin() ? from.serialise<Bomba::BasicJson<>>() : [&] {
		Bomba::ExpandingBuffer<> buffer;
		from.serialise<Bomba::BasicJson<std::string, Bomba::GeneralisedBuffer>>(buffer);
		return std::string(std::string_view(buffer));
	}();
#endif
#ifdef C02
	std::string written = Value::diff(want, model::StrictJson::parse(text));
	if (!written.empty()) fail("wrong JSON was written: " + written.substr(0, 500));
#else
	require(to.deserialise<Bomba::BasicJson<>>(text), "large JSON was refused");
	std::string d = Value::diff(want, model::toValue(to));
	if (!d.empty()) fail("large data were changed: " + d.substr(0, 500));
#endif
	src.labelIf(size >= 100000, "over 100 kB"); src.labelIf(size >= 1000000, "over 1 MB"); src.labelIf(dirty, "used target");
	src.nontrivial = size > 10000;
}

// C04: whatever the input, no undefined behaviour, no endless loop; truncated input is refused; the target can be used afterwards
static std::string damagedText(Src& src, std::string input, int most) {
	for (int i = 1 + int(src.raw(most - 1)); i > 0; i--) {
		size_t at = input.empty() ? 0 : src.raw(input.size() - 1);
		switch (src.raw(8)) {
			case 0: if (!input.empty()) input[at] = src.pick({'"', '\\', '{', '}', '[', ']', ',', ':', '-', '\0', 'e', '.', ' ', '\xff', 'u'}); break;
			case 1: if (!input.empty()) input[at] = char(src.raw(255)); break;
			case 2: input.erase(at, src.length(12)); break;
			case 3: input.insert(at, src.pick({"\"", "\\", "\\u", "\\ud800", "\\ud800\\u", "\\ud800\\udc", "\\u12", "{", "[", "null", "nul", "tru", "-", "1e", "1e999", "-.", "0x", "\\x", "[[[[[", "}}", "]", "99999999999999999999", "1e19", "-1e400", "NaN", "inf", ",,", "::"})); break;
			case 4: input.insert(at, src.text(Src::BYTES, 12)); break;
			case 5: input.resize(at); break;
			case 6: { size_t from = input.empty() ? 0 : src.raw(input.size() - 1); input.insert(at, input.substr(from, src.length(40))); break; }
			case 7: { auto found = input.find(src.pick({"\"", "}", "]", ":", ",", "{", "["}), at); if (found != input.npos) input.erase(found, 1); break; }
			default: input.insert(at, src.dictString()); break;
		}
	}
	return input;
}
static void damaged(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from;
		model::GenOptions o;
		o.maxText = 200;
		o.maxItems = 5;
		o.unsignedAsSigned = true;
		model::generate(src, from, o);
		model::JsonStyle style(src);
		std::string text = style.text(model::toValue(from));
		while (!text.empty() && strchr(" \t\r\n", text.back())) text.pop_back();
		bool truncated = src.chance(1, 3);
		std::string input = truncated ? text.substr(0, src.raw(text.size() - 1)) : damagedText(src, text, 4);
		src.note(std::string(name) + (truncated ? " truncated: " : " damaged: ") + printable(input, 800));
		T to;
		bool accepted = false;
		std::unique_ptr<char[]> exact(new char[input.size()]);
		memcpy(exact.get(), input.data(), input.size());
		try {
			accepted = to.template deserialise<Bomba::BasicJson<>>(std::string_view(exact.get(), input.size()));
		} catch (std::exception&) { src.label("exception"); }
		if (truncated) require(!accepted, "truncated JSON was accepted");
		src.labelIf(accepted, "accepted");
		model::toValue(to); // Readable
		std::string valid = to.template serialise<Bomba::BasicJson<>>();
		std::unique_ptr<char[]> again(new char[text.size()]);
		memcpy(again.get(), text.data(), text.size());
		require(to.template deserialise<Bomba::BasicJson<>>(std::string_view(again.get(), text.size())), "valid input was refused after damaged input");
		Value got = model::toValue(to);
		Value doc = model::toValue(from);
		std::string d = Value::diff(doc, got);
		if (!d.empty()) fail("valid input was misread after damaged input: " + d);
		src.label(name);
		src.nontrivial = input.size() > 4;
	});
}

// C04: values of types other than the member has are refused
static void wrongType(Src& src) {
	withAnyType(src, [&] <typename T> (const char* name) {
		T from, to;
		model::GenOptions o;
		o.maxText = 40;
		o.maxItems = 4;
		o.unsignedAsSigned = true;
		model::generate(src, from, o);
		Value doc = model::toValue(from);
		std::string path;
		Value* at = &doc;
		while (true) {
			Value* next = nullptr;
			if (at->kind == Value::OBJ && !at->members.empty()) { auto& m = src.pick(at->members); path += "." + m.first; next = &m.second; }
			else if (at->kind == Value::ARR && !at->items.empty()) { size_t i = src.raw(at->items.size() - 1); path += "[" + std::to_string(i) + "]"; next = &at->items[i]; }
			if (!next || (at != &doc && src.chance(1, 3))) break;
			at = next;
		}
		if (at == &doc || at->kind == Value::NUL) return; // Anything may be wanted where null is
		bool isNumber = at->kind == Value::INT || at->kind == Value::REAL;
		std::vector<Value> wrong;
		if (at->kind != Value::BOOL) wrong.push_back(Value::boolean(src.coin()));
		if (!isNumber) wrong.push_back(Value::integer(src.range(0, 1000)));
		if (!isNumber) wrong.push_back(Value::real(0.5 + double(src.range(-100, 100))));
		if (at->kind != Value::STR) wrong.push_back(Value::str(src.text(Src::UTF8, 8)));
		if (at->kind != Value::ARR) wrong.push_back(Value::array());
		if (at->kind != Value::OBJ) wrong.push_back(Value::object());
		*at = src.pick(wrong);
		std::string text = model::JsonStyle(src).text(doc);
		src.note(std::string(name) + " with wrong type of " + path + ": " + printable(text, 800));
		bool accepted = false;
		std::unique_ptr<char[]> exact(new char[text.size()]);
		memcpy(exact.get(), text.data(), text.size());
		try { accepted = to.template deserialise<Bomba::BasicJson<>>(std::string_view(exact.get(), text.size())); }
		catch (std::exception&) {}
		require(!accepted, "a value of a wrong type was accepted");
		src.label(name);
		src.nontrivial = true;
	});
}

// C04: any calls of the input interface on any text
static void wildReading(Src& src) {
	Direct d{src};
	std::string text;
	if (src.chance(1, 3)) text = src.text(Src::BYTES, 60);
	else {
		text = model::JsonStyle(src, false).text(d.any(0));
		if (src.coin()) text = damagedText(src, text, 3);
	}
	src.note(printable(text));
	std::unique_ptr<char[]> exact(new char[text.size()]);
	memcpy(exact.get(), text.data(), text.size());
	Bomba::BasicJson<>::Input in(std::string_view(exact.get(), text.size()));
	constexpr auto no = Bomba::SerialisationFlags::NONE;
	std::vector<Bomba::IStructuredInput::Location> positions;
	size_t total = 0;
	int operations = 0;
	std::function<void(int)> operation = [&] (int depth) {
		if (operations++ > 200) return;
		switch (src.raw(depth > 6 ? 10 : 13)) {
			case 0: in.identifyType(no); break;
			case 1: in.readInt(no); break;
			case 2: in.readFloat(no); break;
			case 3: { std::string_view s = in.readString(no); for (char c : s) total += c; require(s.size() <= text.size() * 3, "string longer than the input"); break; }
			case 4: in.readBool(no); break;
			case 5: in.readNull(no); break;
			case 6: in.skipObjectElement(no); break;
			case 7: positions.push_back(in.storePosition(no)); break;
			case 8: if (!positions.empty()) in.restorePosition(no, src.pick(positions)); break;
			case 9: in.startReadingArray(no); break;
			case 10: if (in.nextArrayElement(no)) total++; else in.endReadingArray(no); break;
			case 11: in.readOptional(no, [&] { operation(depth + 1); }); break;
			case 12: in.startReadingArray(no); while (in.nextArrayElement(no) && operations < 200) operation(depth + 1); in.endReadingArray(no); break;
			default: in.readObject(no, [&] (std::optional<std::string_view> name, int) { for (char c : *name) total += c; operation(depth + 1); return operations < 200; }); break;
		}
	};
	int errors = 0;
	for (int i = int(src.range(1, 20)); i > 0; i--) {
		try { operation(0); } catch (Failure&) { throw; } catch (Discard&) { throw; } catch (std::exception&) { errors++; }
	}
	src.labelIf(errors > 0, "errors");
	src.nontrivial = operations > 2;
}

#ifdef C01
PBT_MAIN({"roundtrip", roundtrip, 160000, 4000000}, {"large", large, 200, 4000})
#elif defined(C02)
PBT_MAIN({"validity", validity, 120000, 3000000}, {"direct", direct, 100000, 2500000}, {"large", large, 200, 4000})
#elif defined(C03)
PBT_MAIN({"reading", reading, 120000, 3000000}, {"directReading", directReading, 100000, 2500000}, {"lengths", lengths, 40000, 1000000}, {"large", large, 200, 4000})
#elif defined(C04)
PBT_MAIN({"damaged", damaged, 120000, 3000000}, {"wrong_type", wrongType, 60000, 1500000}, {"wild_reading", wildReading, 150000, 4000000})
#endif
