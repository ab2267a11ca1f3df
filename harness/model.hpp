// Independent model of structured data: values, a strict RFC 8259 parser and a writer with random style.
#pragma once
#include "engine.hpp"
#include <memory>
#include <optional>
#include <array>
#include <unordered_map>

namespace model {
using pbt::Src;

struct Value {
	enum Kind { NUL, BOOL, INT, REAL, STR, ARR, OBJ } kind = NUL;
	bool isStruct = false; // an object with fixed members, unlike a map
	bool b = false;
	int64_t i = 0;
	double d = 0;
	std::string s;
	std::vector<Value> items;
	std::vector<std::pair<std::string, Value>> members;

	static Value null() { return {}; }
	static Value boolean(bool b) { Value v; v.kind = BOOL; v.b = b; return v; }
	static Value integer(int64_t i) { Value v; v.kind = INT; v.i = i; return v; }
	static Value real(double d) { Value v; v.kind = REAL; v.d = d; return v; }
	static Value str(std::string_view s) { Value v; v.kind = STR; v.s = s; return v; }
	static Value array() { Value v; v.kind = ARR; return v; }
	static Value object(bool isStruct = false) { Value v; v.kind = OBJ; v.isStruct = isStruct; return v; }
	const Value* find(std::string_view name) const {
		for (auto& it : members) if (it.first == name) return &it.second;
		return nullptr;
	}
	Value* find(std::string_view name) { return const_cast<Value*>(const_cast<const Value*>(this)->find(name)); }

	static bool sameReal(double a, double b) { return memcmp(&a, &b, sizeof(a)) == 0 || (std::isnan(a) && std::isnan(b)); }

	// Returns a description of the first difference or an empty string. Numbers are compared by value; objects regardless of order
	static std::string diff(const Value& want, const Value& got, const std::string& path = "") {
		auto kindName = [] (Kind k) { static const char* n[] = {"null", "bool", "int", "real", "string", "array", "object"}; return std::string(n[k]); };
		if (want.kind != got.kind) {
			if (want.kind == REAL && got.kind == INT && want.d == double(got.i)) return "";
			if (want.kind == INT && got.kind == REAL && got.d == double(want.i) && std::abs(got.d) < 1e18 && int64_t(got.d) == want.i) return "";
			return path + ": expected " + kindName(want.kind) + " " + want.show(80) + ", got " + kindName(got.kind) + " " + got.show(80);
		}
		switch (want.kind) {
			case NUL: return "";
			case BOOL: if (want.b == got.b) return ""; break;
			case INT: if (want.i == got.i) return ""; break;
			case REAL: if (sameReal(want.d, got.d)) return ""; break;
			case STR: if (want.s == got.s) return ""; break;
			case ARR:
				if (want.items.size() != got.items.size())
					return path + ": expected " + std::to_string(want.items.size()) + " elements, got " + std::to_string(got.items.size());
				for (size_t i = 0; i < want.items.size(); i++) {
					std::string r = diff(want.items[i], got.items[i], path + "[" + std::to_string(i) + "]");
					if (!r.empty()) return r;
				}
				return "";
			case OBJ: {
				for (auto& it : want.members) {
					const Value* other = got.find(it.first);
					if (!other) return path + ": missing member \"" + pbt::printable(it.first, 60) + '"';
					std::string r = diff(it.second, *other, path + "." + pbt::printable(it.first, 60));
					if (!r.empty()) return r;
				}
				for (auto& it : got.members) if (!want.find(it.first)) return path + ": extra member \"" + pbt::printable(it.first, 60) + '"';
				if (want.members.size() != got.members.size()) return path + ": duplicate members";
				return "";
			}
		}
		return path + ": expected " + want.show(200) + ", got " + got.show(200);
	}
	void showTo(std::string& out) const {
		if (out.size() > 4000) return;
		switch (kind) {
			case NUL: out += "null"; break;
			case BOOL: out += b ? "true" : "false"; break;
			case INT: out += std::to_string(i); break;
			case REAL: { char buf[40]; snprintf(buf, 40, "%.17g", d); out += buf; if (!strpbrk(buf, ".en")) out += ".0"; break; }
			case STR: out += '"'; out += pbt::printable(s, 120); out += '"'; break;
			case ARR: out += '['; for (size_t i = 0; i < items.size(); i++) { if (i) out += ','; items[i].showTo(out); } out += ']'; break;
			case OBJ: out += '{'; for (size_t i = 0; i < members.size(); i++) { if (i) out += ','; out += '"' + pbt::printable(members[i].first, 60) + "\":"; members[i].second.showTo(out); } out += '}'; break;
		}
	}
	std::string show(size_t limit = 700) const { std::string r; showTo(r); if (r.size() > limit) { r.resize(limit); r += "..."; } return r; }
};

// Strict RFC 8259 parser
class StrictJson {
	std::string_view _in;
	size_t _pos = 0;
	bool _repeating = false; // Identical duplicates are tolerated
	[[noreturn]] void bad(const std::string& why) { throw pbt::Failure("not valid JSON: " + why + " at byte " + std::to_string(_pos) + " of " + pbt::printable(_in.substr(_pos > 60 ? _pos - 60 : 0, 160))); }
	bool at(char c) const { return _pos < _in.size() && _in[_pos] == c; }
	void ws() { while (_pos < _in.size() && (_in[_pos] == ' ' || _in[_pos] == '\t' || _in[_pos] == '\n' || _in[_pos] == '\r')) _pos++; }
	void expect(char c) { if (!at(c)) bad(std::string("expected '") + c + "'"); _pos++; }
	static bool digit(char c) { return c >= '0' && c <= '9'; }
	bool atDigit() const { return _pos < _in.size() && digit(_in[_pos]); }
	unsigned hex4() {
		unsigned v = 0;
		for (int i = 0; i < 4; i++) {
			if (_pos >= _in.size()) bad("short \\u");
			char c = _in[_pos++];
			v = v * 16 + (digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad("bad hex digit"), 0));
		}
		return v;
	}
	std::string string() {
		expect('"');
		std::string r;
		while (true) {
			if (_pos >= _in.size()) bad("unterminated string");
			unsigned char c = _in[_pos++];
			if (c == '"') return r;
			if (c < 0x20) bad("raw control character in string");
			if (c != '\\') { r += char(c); continue; }
			if (_pos >= _in.size()) bad("unterminated escape");
			c = _in[_pos++];
			switch (c) {
				case '"': case '\\': case '/': r += char(c); break;
				case 'b': r += '\b'; break;
				case 'f': r += '\f'; break;
				case 'n': r += '\n'; break;
				case 'r': r += '\r'; break;
				case 't': r += '\t'; break;
				case 'u': {
					uint32_t v = hex4();
					if (v >= 0xd800 && v < 0xdc00) {
						expect('\\'); expect('u');
						uint32_t w = hex4();
						if (w < 0xdc00 || w >= 0xe000) bad("bad surrogate pair");
						v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
					} else if (v >= 0xdc00 && v < 0xe000) bad("lone surrogate");
					Src::appendUtf8(r, v);
					break;
				}
				default: bad("unknown escape");
			}
		}
	}
	Value value(int depth) {
		if (depth > 400) bad("too deep");
		ws();
		if (_pos >= _in.size()) bad("missing value");
		char c = _in[_pos];
		if (c == '{') {
			Value v = Value::object();
			_pos++; ws();
			if (at('}')) { _pos++; return v; }
			while (true) {
				ws();
				std::string name = string();
				ws(); expect(':');
				const Value* known = v.find(name);
				if (known && !_repeating) bad("duplicate member " + name);
				Value got = value(depth + 1);
				if (!known) v.members.emplace_back(name, std::move(got));
				else if (!Value::diff(*known, got).empty()) bad("conflicting members " + name);
				ws();
				if (at(',')) { _pos++; continue; }
				expect('}');
				return v;
			}
		}
		if (c == '[') {
			Value v = Value::array();
			_pos++; ws();
			if (at(']')) { _pos++; return v; }
			while (true) {
				v.items.push_back(value(depth + 1));
				ws();
				if (at(',')) { _pos++; continue; }
				expect(']');
				return v;
			}
		}
		if (c == '"') return Value::str(string());
		auto word = [&] (std::string_view w) { if (_in.substr(_pos, w.size()) != w) bad("unknown word"); _pos += w.size(); };
		if (c == 't') { word("true"); return Value::boolean(true); }
		if (c == 'f') { word("false"); return Value::boolean(false); }
		if (c == 'n') { word("null"); return Value::null(); }
		size_t start = _pos;
		bool real = false;
		if (at('-')) _pos++;
		if (!atDigit()) bad("unexpected character");
		if (at('0')) _pos++; else while (atDigit()) _pos++;
		if (at('.')) { real = true; _pos++; if (!atDigit()) bad("no digits after decimal point"); while (atDigit()) _pos++; }
		if (at('e') || at('E')) { real = true; _pos++; if (at('+') || at('-')) _pos++; if (!atDigit()) bad("no digits in exponent"); while (atDigit()) _pos++; }
		std::string text(_in.substr(start, _pos - start));
		if (!real) {
			errno = 0;
			long long got = strtoll(text.c_str(), nullptr, 10);
			if (!errno) return Value::integer(got);
		}
		return Value::real(strtod(text.c_str(), nullptr));
	}
public:
	StrictJson(std::string_view in) : _in(in) {}
	static Value parse(std::string_view in, bool repeating = false) {
		StrictJson p(in);
		p._repeating = repeating;
		Value v = p.value(0);
		p.ws();
		if (p._pos != in.size()) p.bad("trailing characters");
		return v;
	}
};

// Writes any standard JSON text denoting the value
struct JsonStyle {
	Src& src;
	bool whitespace, escapes, numbers, extras, reorder;
	int extraCount = 0;
	std::set<std::string> known; // Names not to be used for unknown members
	JsonStyle(Src& src, bool extras = true) : src(src), whitespace(src.coin()), escapes(src.coin()), numbers(src.coin()), extras(extras && src.coin()), reorder(src.coin()) {}

	void ws(std::string& out) {
		if (!whitespace) return;
		int n = int(src.raw(3)); if (n == 3) n = int(src.raw(6));
		for (int i = 0; i < n; i++) out += src.pick({' ', '\n', '\t', '\r'});
	}
	void string(std::string& out, std::string_view s) {
		out += '"';
		for (size_t i = 0; i < s.size(); i++) {
			unsigned char c = s[i];
			const char* shortForm = nullptr;
			switch (c) { case '"': shortForm = "\\\""; break; case '\\': shortForm = "\\\\"; break; case '\n': shortForm = "\\n"; break; case '\r': shortForm = "\\r"; break;
				case '\t': shortForm = "\\t"; break; case '\b': shortForm = "\\b"; break; case '\f': shortForm = "\\f"; break; case '/': if (escapes && src.coin()) shortForm = "\\/"; break; }
			bool must = c < 0x20 || c == '"' || c == '\\';
			if (shortForm && (!escapes || src.coin())) { out += shortForm; continue; }
			if (!must && ((c & 0xc0) == 0x80 || !(escapes && s.size() < 300 && src.chance(1, 4)))) { out += char(c); continue; }
			// \u escape of a whole code point
			uint32_t cp = c; int extra = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0;
			if (extra) cp &= (0x3f >> extra);
			for (int k = 0; k < extra; k++) cp = cp << 6 | (s[++i] & 0x3f);
			char buf[32];
			bool upper = escapes && src.coin();
			auto unit = [&] (unsigned u) { snprintf(buf, sizeof(buf), upper ? "\\u%04X" : "\\u%04x", u); out += buf; };
			if (cp >= 0x10000) { unit(0xd800 + ((cp - 0x10000) >> 10)); unit(0xdc00 + ((cp - 0x10000) & 0x3ff)); }
			else unit(cp);
		}
		out += '"';
	}
	void integer(std::string& out, int64_t i) {
		if (numbers && std::abs(double(i)) < 1e15 && src.chance(1, 4)) {
			char buf[64];
			switch (src.raw(2)) {
				case 0: snprintf(buf, 64, "%lld.0", (long long)i); break;
				case 1: snprintf(buf, 64, "%llde0", (long long)i); break;
				default: if (i && i % 10 == 0) snprintf(buf, 64, "%lldE+1", (long long)i / 10); else snprintf(buf, 64, "%lld.000e00", (long long)i); break;
			}
			out += buf;
		} else out += std::to_string(i);
	}
	void real(std::string& out, double d) {
		char buf[400];
		if (numbers && src.coin()) {
			switch (src.raw(3)) {
				case 0: snprintf(buf, 400, "%.17e", d); break;
				case 1: snprintf(buf, 400, "%.20E", d); break;
				case 2: if (std::abs(d) < 1e15 && d == std::floor(d) && !(d == 0 && std::signbit(d))) snprintf(buf, 400, "%.0f", d); else snprintf(buf, 400, "%.17g", d); break;
				default: if (std::abs(d) < 1e200 && std::abs(d) > 1e-5) snprintf(buf, 400, "%.30f", d); else snprintf(buf, 400, "%.18e", d); break;
			}
		} else snprintf(buf, 400, "%.17g", d);
		if (!(std::strtod(buf, nullptr) == d)) snprintf(buf, 400, "%.17g", d);
		out += buf;
	}
	Value junk(int depth) {
		switch (src.raw(depth > 3 ? 5 : 7)) {
			case 0: return Value::integer(src.integer());
			case 1: return Value::str(src.text(Src::UTF8, 40));
			case 2: return Value::null();
			case 3: return Value::boolean(src.coin());
			case 4: return Value::real(src.real());
			case 5: return Value::str(src.pick({"\"", "\\", "}", "]", "{", "[", "\\\"", "a\\", ",", ":", "}]", "\\u0022"}));
			case 6: { Value v = Value::array(); int n = int(src.raw(3)); for (int i = 0; i < n; i++) v.items.push_back(junk(depth + 1)); return v; }
			default: { Value v = Value::object(); int n = int(src.raw(3)); for (int i = 0; i < n; i++) v.members.emplace_back("k" + std::to_string(i) + src.text(Src::UTF8, 8), junk(depth + 1)); return v; }
		}
	}
	void value(std::string& out, const Value& v) {
		switch (v.kind) {
			case Value::NUL: out += "null"; break;
			case Value::BOOL: out += v.b ? "true" : "false"; break;
			case Value::INT: integer(out, v.i); break;
			case Value::REAL: real(out, v.d); break;
			case Value::STR: string(out, v.s); break;
			case Value::ARR:
				out += '['; ws(out);
				for (size_t i = 0; i < v.items.size(); i++) { if (i) { out += ','; ws(out); } value(out, v.items[i]); ws(out); }
				out += ']';
				break;
			case Value::OBJ: {
				std::vector<std::pair<std::string, const Value*>> order;
				for (auto& it : v.members) order.emplace_back(it.first, &it.second);
				std::vector<std::unique_ptr<Value>> junkValues;
				if (extras && v.isStruct && src.chance(1, 2)) {
					int n = int(src.range(1, 3));
					for (int i = 0; i < n; i++) {
						junkValues.push_back(std::make_unique<Value>(junk(0)));
						std::string name = src.chance(1, 4) ? "" : src.text(Src::UTF8, 10);
						bool clash = known.count(name);
						for (auto& o : order) if (o.first == name) clash = true;
						if (clash || name.size() < 3) name = "unknown" + std::to_string(extraCount) + name;
						extraCount++;
						order.insert(order.begin() + src.raw(order.size()), {name, junkValues.back().get()});
					}
				}
				if (reorder && v.isStruct) src.shuffle(order);
				out += '{'; ws(out);
				for (size_t i = 0; i < order.size(); i++) {
					if (i) { out += ','; ws(out); }
					string(out, order[i].first); ws(out); out += ':'; ws(out);
					value(out, *order[i].second); ws(out);
				}
				out += '}';
			}
		}
	}
	std::string text(const Value& v) { std::string r; ws(r); value(r, v); ws(r); return r; }
};

// Conversion of C++ objects to the model, comparing, generating

template <typename T> concept HasFields = requires(T t) { t.fields([] (const char*, auto&) {}); };
template <typename T> struct IsArray : std::false_type {};
template <typename T, size_t N> struct IsArray<std::array<T, N>> : std::true_type {};
template <typename T> concept MapLike = requires { typename T::mapped_type; };
template <typename T> concept OptionalLike = requires(T t) { *t; t.reset(); bool(t); };

struct GenOptions {
	Src::Text text = Src::UTF8;
	size_t maxText = 4200;
	size_t maxItems = 8;
	bool unsignedAsSigned = false; // keep uint64_t within int64_t
	int budget = 120; // items in one value
};

template <typename T>
Value toValue(const T& t) {
	if constexpr(std::is_same_v<T, bool>) return Value::boolean(t);
	else if constexpr(std::is_integral_v<T>) return Value::integer(int64_t(t));
	else if constexpr(std::is_floating_point_v<T>) return Value::real(double(t));
	else if constexpr(std::is_same_v<T, std::string> || std::is_convertible_v<T, std::string_view>) return Value::str(std::string_view(t));
	else if constexpr(HasFields<T>) {
		Value v = Value::object(true);
		const_cast<T&>(t).fields([&] (const char* name, auto& member) { v.members.emplace_back(name, toValue(member)); });
		return v;
	} else if constexpr(MapLike<T>) {
		Value v = Value::object();
		for (auto& it : t) v.members.emplace_back(std::string(std::string_view(it.first)), toValue(it.second));
		return v;
	} else if constexpr(OptionalLike<T>) return t ? toValue(*t) : Value::null();
	else {
		Value v = Value::array();
		for (auto& it : t) v.items.push_back(toValue(it));
		return v;
	}
}

template <typename T>
void generate(Src& src, T& t, GenOptions& o) {
	if constexpr(std::is_same_v<T, bool>) t = src.coin();
	else if constexpr(std::is_integral_v<T>) {
		if constexpr(std::is_same_v<T, uint64_t> || std::is_same_v<T, unsigned long long>) {
			t = T(o.unsignedAsSigned ? src.integer(0) : src.integer());
		} else t = T(src.integer(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
	} else if constexpr(std::is_same_v<T, float>) { t = float(src.real()); if (!std::isfinite(t)) t = 2.5f; }
	else if constexpr(std::is_floating_point_v<T>) t = src.real();
	else if constexpr(std::is_same_v<T, std::string>) t = src.text(o.text, o.budget > 0 ? o.maxText : 5);
	else if constexpr(HasFields<T>) t.fields([&] (const char*, auto& member) { generate(src, member, o); });
	else if constexpr(MapLike<T>) {
		t.clear();
		size_t n = src.raw(o.budget > 0 ? std::min<size_t>(o.maxItems, 6) : 1);
		for (size_t i = 0; i < n; i++) {
			o.budget -= 2;
			typename T::key_type key(src.text(o.text, 30));
			generate(src, t[key], o);
		}
	} else if constexpr(OptionalLike<T>) {
		if (src.coin()) {
			using E = std::decay_t<decltype(*t)>;
			if constexpr(requires(T p, E* raw) { T(raw); }) t = T(new E());
			else t = E();
			generate(src, *t, o);
		} else t.reset();
	} else {
		if constexpr(!IsArray<T>::value) {
			size_t n = o.budget > 0 ? src.length(o.maxItems) : src.raw(1);
			t.clear(); t.resize(n);
			o.budget -= int(n);
		}
		for (auto& it : t) generate(src, it, o);
	}
}
template <typename T>
void generate(Src& src, T& t) { GenOptions o; generate(src, t, o); }

} // namespace model
