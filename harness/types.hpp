// Serialisable classes covering the documented member types, each listing its members independently for the model
#pragma once
#include "model.hpp"
#include <memory>
#include <deque>
#include "bomba_core.hpp"
#include "bomba_object.hpp"

#define F(NAME) f(#NAME, NAME)

struct Numbers : Bomba::Serialisable<Numbers> {
	int8_t i8 = key<"i8">;
	uint8_t u8 = key<"u8">;
	int16_t i16 = key<"i16">;
	uint16_t u16 = key<"u16">;
	int i32 = key<"i32"> = 5;
	uint32_t u32 = key<"u32">;
	int64_t i64 = key<"i64">;
	uint64_t u64 = key<"u64">;
	long long ll = key<"ll">;
	unsigned long long ull = key<"ull">;
	char c = key<"c">;
	char16_t c16 = key<"c16">;
	char32_t c32 = key<"c32">;
	wchar_t wide = key<"wide">;
	float f32 = key<"f32">;
	double f64 = key<"f64"> = 1.5;
	bool yes = key<"yes">;
	template <typename Fn> void fields(Fn f) { F(i8); F(u8); F(i16); F(u16); F(i32); F(u32); F(i64); F(u64); F(ll); F(ull); F(c); F(c16); F(c32); F(wide); F(f32); F(f64); F(yes); }
};

struct Point : Bomba::Serialisable<Point> {
	int x = key<"x">;
	std::string name = key<"name"> = "point";
	bool flag = key<"flag">;
	template <typename Fn> void fields(Fn f) { F(x); F(name); F(flag); }
};

struct Containers : Bomba::Serialisable<Containers> {
	std::vector<int> ints = key<"ints">;
	std::vector<std::string> strings = key<"strings">;
	std::vector<double> doubles = key<"doubles">;
	std::vector<std::vector<int16_t>> nested = key<"nested">;
	std::array<int, 3> fixedInts = key<"fixedInts">;
	std::array<std::string, 2> fixedStrings = key<"fixedStrings">;
	std::array<std::vector<uint8_t>, 2> fixedNested = key<"fixedNested">;
	std::deque<int64_t> longs = key<"longs">;
	template <typename Fn> void fields(Fn f) { F(ints); F(strings); F(doubles); F(nested); F(fixedInts); F(fixedStrings); F(fixedNested); F(longs); }
};

struct Maps : Bomba::Serialisable<Maps> {
	std::map<std::string, int> numbers = key<"numbers">;
	std::unordered_map<std::string, std::string> texts = key<"texts">;
	std::map<std::string, Point> points = key<"points">;
	std::map<std::string, std::vector<std::string>> lists = key<"lists">;
	std::map<std::string, std::map<std::string, bool>> nested = key<"nested">;
	template <typename Fn> void fields(Fn f) { F(numbers); F(texts); F(points); F(lists); F(nested); }
};

struct Optionals : Bomba::Serialisable<Optionals> {
	Bomba::Optional<int> number = key<"number">;
	Bomba::Optional<std::string> text = key<"text">;
	std::unique_ptr<Point> point = key<"point">;
	std::shared_ptr<double> real = key<"real">;
	Bomba::Optional<std::vector<int>> list = key<"list">;
	std::vector<std::optional<int>> holes = key<"holes">;
	Bomba::Optional<Point> sub = key<"sub">;
	std::unique_ptr<std::string> owned = key<"owned">;
	Bomba::Optional<bool> maybe = key<"maybe">;
	Bomba::Optional<std::map<std::string, int>> table = key<"table">;
	template <typename Fn> void fields(Fn f) { F(number); F(text); F(point); F(real); F(list); F(holes); F(sub); F(owned); F(maybe); F(table); }
};

struct Nested : Bomba::Serialisable<Nested> {
	Point first = key<"first">;
	std::vector<Point> points = key<"points">;
	std::array<Point, 2> pair = key<"pair">;
	std::vector<std::unique_ptr<Point>> owned = key<"owned">;
	std::string last = key<"last">;
	template <typename Fn> void fields(Fn f) { F(first); F(points); F(pair); F(owned); F(last); }
};

struct Deep : Bomba::Serialisable<Deep> {
	int before = key<"before">;
	Nested nested = key<"nested">;
	Containers containers = key<"containers">;
	std::vector<Optionals> optionals = key<"optionals">;
	std::map<std::string, Nested> table = key<"table">;
	double after = key<"after">;
	template <typename Fn> void fields(Fn f) { F(before); F(nested); F(containers); F(optionals); F(table); F(after); }
};

struct OddNames : Bomba::Serialisable<OddNames> {
	int a = key<"with space">;
	std::string b = key<"quote\"and\\backslash">;
	int c = key<"tab\tnewline\n">;
	std::vector<int> d = key<"\xc4\x8d\xc3\xa1rka">;
	bool e = key<"a">;
	int g = key<"ab">;
	template <typename Fn> void fields(Fn f) { f("with space", a); f("quote\"and\\backslash", b); f("tab\tnewline\n", c); f("\xc4\x8d\xc3\xa1rka", d); f("a", e); f("ab", g); }
};

struct Single : Bomba::Serialisable<Single> {
	std::string text = key<"text">;
	template <typename Fn> void fields(Fn f) { F(text); }
};
#undef F

template <typename Fn> void withAnyType(pbt::Src& src, Fn fn) {
	switch (src.raw(8)) {
		case 0: return fn.template operator()<Point>("Point");
		case 1: return fn.template operator()<Numbers>("Numbers");
		case 2: return fn.template operator()<Containers>("Containers");
		case 3: return fn.template operator()<Maps>("Maps");
		case 4: return fn.template operator()<Optionals>("Optionals");
		case 5: return fn.template operator()<Nested>("Nested");
		case 6: return fn.template operator()<Deep>("Deep");
		case 7: return fn.template operator()<OddNames>("OddNames");
		default: return fn.template operator()<Single>("Single");
	}
}
