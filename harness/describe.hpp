// What the tests of JSON-WSP descriptions have in common
#pragma once
#include "model.hpp"
#include "bomba_core.hpp"
#include "bomba_json_wsp_description.hpp"

namespace describe {
using namespace pbt;
using model::Value;
using model::StrictJson;

// Description of a method with a name prefixed
inline void addMethods(Value& into, const Value& methods, const std::string& prefix) {
	for (auto& it : methods.members) into.members.emplace_back(prefix + it.first, it.second);
}
inline void addTypes(Value& into, const Value& types) {
	for (auto& it : types.members) if (!into.find(it.first)) into.members.push_back(it);
}

inline void compare(Src& src, Bomba::IRemoteCallable& callable, const Value& types, const Value& methods) {
	std::string url = src.text(Src::UTF8, 30), name = src.text(Src::UTF8, 20);
	std::string text = Bomba::describeInJsonWsp<>(callable, url, name);
	src.note(printable(text, 1500));
	Value want = Value::object();
	want.members = {{"type", Value::str("jsonwsp/description")}, {"version", Value::str("1.0")}, {"servicename", Value::str(name)}, {"url", Value::str(url)}, {"types", types}, {"methods", methods}};
	std::string d = Value::diff(want, StrictJson::parse(text, true));
	if (!d.empty()) fail("description: " + d + " in " + printable(text, 1200));
	requireEqual(text, Bomba::describeInJsonWsp<>(callable, url, name), "description generated again");
}
} // namespace describe
