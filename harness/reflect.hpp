// Used by the generated programs (see gen_types.py): what they state about themselves
#pragma once
#include "model.hpp"
#include <deque>
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
using namespace pbt;

namespace reflect {

template <typename T> Bomba::Optional<T> optional(const T& value) {
	Bomba::Optional<T> made;
	made = value;
	return made;
}

// Complete text of a value; order in maps isn't significant
inline void dump(std::string& out, const model::Value& v) {
	using model::Value;
	switch (v.kind) {
		case Value::STR: out += std::to_string(v.s.size()) + ":" + v.s; break;
		case Value::ARR: out += '['; for (auto& it : v.items) { dump(out, it); out += ','; } out += ']'; break;
		case Value::OBJ: {
			std::map<std::string, const Value*> sorted;
			for (auto& it : v.members) sorted[it.first] = &it.second;
			out += '{';
			for (auto& it : sorted) { out += it.first + "="; dump(out, *it.second); out += ','; }
			out += '}';
			break;
		}
		default: out += v.show(); break;
	}
}
template <typename... Args> std::string digest(const char* identifier, const Args&... args) {
	std::string text = identifier;
	((text += '|', dump(text, model::toValue(args))), ...);
	std::string hash = std::to_string(hashBytes(text));
	if (text.size() > 200) text.resize(200); // Long ones are unhandy
	for (char& c : text) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
	return text + "#" + hash;
}

template <auto Ptr, typename Ret, typename... Args>
struct Method {
	using Returned = Ret;
	using Arguments = std::tuple<Args...>;
	static constexpr auto pointer = Ptr;
	const char* name;
	std::array<const char*, sizeof...(Args)> argNames;
	std::array<bool, sizeof...(Args)> omit; // omitted if false
	bool flagged; // has a representation in the binary format different from the usual one
};

} // namespace reflect
