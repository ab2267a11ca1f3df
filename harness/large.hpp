// A large object made of few choices
#pragma once
#include "types.hpp"

struct LargeData : Bomba::Serialisable<LargeData> {
	std::string text = key<"text">;
	std::vector<int64_t> numbers = key<"numbers">;
	std::vector<std::string> words = key<"words">;
	std::map<std::string, std::string> table = key<"table">;
	std::vector<Point> points = key<"points">;
	std::vector<double> reals = key<"reals">;
	std::string last = key<"last">;
	template <typename Fn> void fields(Fn f) { f("text", text); f("numbers", numbers); f("words", words); f("table", table); f("points", points); f("reals", reals); f("last", last); }
};
inline size_t generateLarge(pbt::Src& src, LargeData& data, pbt::Src::Text kind, size_t mostText = 2000000, size_t mostItems = 100000) {
	auto text = [&] { return src.coin() ? src.bulk(kind, mostText) : src.text(kind, 30); };
	auto count = [&] { return src.chance(1, 3) ? src.largeSize(mostItems) : src.raw(5); };
	data.text = text();
	pbt::u64 seed = src.raw(~0ull);
	auto next = [&] { return seed = pbt::mix(seed); };
	for (size_t i = count(); i > 0; i--) data.numbers.push_back(int64_t(next()) >> (next() % 64));
	std::string word = src.text(kind, 20);
	for (size_t i = count(); i > 0; i--) data.words.push_back(word + std::to_string(next() % 100000));
	for (size_t i = count() / 4; i > 0; i--) data.table[std::to_string(i) + word] = std::to_string(next());
	for (size_t i = count() / 4; i > 0; i--) { data.points.emplace_back(); data.points.back().x = int(next()); data.points.back().name = std::to_string(i); }
	for (size_t i = count(); i > 0; i--) data.reals.push_back(double(int64_t(next())) / 1024);
	data.last = text();
	src.note("texts of " + std::to_string(data.text.size()) + " and " + std::to_string(data.last.size()) + " bytes, " + std::to_string(data.numbers.size()) + " numbers, " + std::to_string(data.words.size()) + " words starting with "
			+ pbt::printable(word) + ", map of " + std::to_string(data.table.size()) + ", " + std::to_string(data.points.size()) + " objects, " + std::to_string(data.reals.size()) + " real numbers");
	return data.text.size() + data.last.size() + (data.numbers.size() + data.words.size() + data.reals.size()) * 10 + (data.table.size() + data.points.size()) * 30;
}
