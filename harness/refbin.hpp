// Independent encoder of the binary format as documented in the README
#pragma once
#include "model.hpp"

namespace refbin {

inline thread_local bool bigEndian = false;
struct BigEndian { // While it exists, numbers are in the opposite order
	BigEndian() { bigEndian = true; }
	~BigEndian() { bigEndian = false; }
};
struct TooLong {}; // A size can't be represented in the size type

template <typename SizeType>
struct Encoder {
	std::string out;
	std::vector<size_t> sizes; // Where sizes were written
	void bytes(uint64_t value, int count) {
		for (int i = 0; i < count; i++) out += char(value >> 8 * (bigEndian ? count - 1 - i : i));
	}
	void size(uint64_t size) {
		if (size > uint64_t(std::numeric_limits<SizeType>::max())) throw TooLong{};
		sizes.push_back(out.size());
		bytes(size, sizeof(SizeType));
	}
	void text(std::string_view s) { size(s.size()); out += s; }
	void add(const std::string& s) { text(s); }
	void add(std::string_view s) { text(s); }
	template <typename T> void add(const T& t) {
		if constexpr(std::is_same_v<T, bool>) bytes(t ? 1 : 0, 1);
		else if constexpr(std::is_integral_v<T>) bytes(uint64_t(int64_t(t)), sizeof(T));
		else if constexpr(std::is_same_v<T, float>) { uint32_t raw; memcpy(&raw, &t, 4); bytes(raw, 4); }
		else if constexpr(std::is_same_v<T, double>) { uint64_t raw; memcpy(&raw, &t, 8); bytes(raw, 8); }
		else if constexpr(model::HasFields<T>) const_cast<T&>(t).fields([&] (const char*, auto& member) { add(member); });
		else if constexpr(model::MapLike<T>) { size(t.size()); for (auto& it : t) { text(it.first); add(it.second); } }
		else if constexpr(model::OptionalLike<T>) { bytes(t ? 1 : 0, 1); if (t) add(*t); }
		else { size(t.size()); for (const auto& it : t) add(it); }
	}
};

template <typename SizeType, typename... Args>
std::string message(uint32_t id, std::initializer_list<int> path, const Args&... args) {
	Encoder<SizeType> body;
	for (int p : path) body.bytes(p, 1);
	(body.add(args), ...);
	Encoder<SizeType> whole;
	whole.bytes(id, 4);
	whole.size(body.out.size() + 4 + sizeof(SizeType));
	return whole.out + body.out;
}

} // namespace refbin
