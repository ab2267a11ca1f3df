// A replacement of LittleEndianNumberFormat with the opposite endianness
#pragma once
#include "bomba_binary_protocol.hpp"
#include <algorithm>

template <typename OutputStringType>
struct BigEndianNumberFormat {
	template <typename T> static std::array<char, sizeof(T)> prepareNumber(T value) {
		std::array<char, sizeof(T)> bytes;
		memcpy(bytes.data(), &value, sizeof(T));
		std::reverse(bytes.begin(), bytes.end());
		return bytes;
	}
	template <typename T> static void writeNumber(T value, Bomba::SerialisationFlags::Flags flags, OutputStringType& output) {
		Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) {
			typed = value;
			auto bytes = prepareNumber(typed);
			output += std::string_view(bytes.data(), bytes.size());
		});
	}
	template <typename T> static std::tuple<bool, T, int> readNumber(Bomba::SerialisationFlags::Flags flags, std::span<const char> data) {
		return Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) -> std::tuple<bool, T, int> {
			if (data.size() < sizeof(typed)) return {false, T(0), 0};
			std::array<char, sizeof(typed)> bytes;
			std::reverse_copy(data.begin(), data.begin() + sizeof(typed), bytes.begin());
			memcpy(&typed, bytes.data(), sizeof(typed));
			return {true, T(typed), int(sizeof(typed))};
		});
	}
};
