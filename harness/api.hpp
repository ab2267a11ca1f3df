// The remote interface used by the RPC checks: echoing methods for all kinds of types, stateful methods, failing methods, nesting
#pragma once
#include "types.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"

struct Trip : Bomba::Serialisable<Trip> {
	std::string title = key<"title">;
	std::vector<Point> points = key<"points">;
	Bomba::Optional<Point> extra = key<"extra">;
	std::map<std::string, int> costs = key<"costs">;
	std::array<std::string, 2> pair = key<"pair">;
	template <typename Fn> void fields(Fn f) { f("title", title); f("points", points); f("extra", extra); f("costs", costs); f("pair", pair); }
};

struct Api : Bomba::RpcObject<Api> {
	std::map<std::string, std::string> store;
	std::vector<std::string> log;
	int64_t counter = 0;

	Bomba::RpcMember<[] (Api* parent, std::string key = Bomba::name("key"), std::string value = Bomba::name("value")) {
		parent->store[key] = value;
		parent->log.push_back("set " + key);
	}> set = child<"set">;
	Bomba::RpcMember<[] (Api* parent, std::string key = Bomba::name("key")) {
		auto found = parent->store.find(key);
		return found == parent->store.end() ? std::string("nothing") : found->second;
	}> get = child<"get">;
	Bomba::RpcMember<[] (Api* parent) {
		return ++parent->counter;
	}> count = child<"count">;
	Bomba::RpcMember<[] (Api* parent) {
		parent->counter += 1000;
	}> nothing = child<"nothing">;
	Bomba::RpcMember<[] (int64_t value = Bomba::name("value")) {
		return value;
	}> echoInt = child<"echo_int">;
	Bomba::RpcMember<[] (int8_t a = Bomba::name("a"), uint16_t b = Bomba::name("b"), uint32_t c = Bomba::name("c"), int16_t d = Bomba::name("d")) {
		return int64_t(a) * 3 + int64_t(b) * 5 + int64_t(c) * 7 + int64_t(d) * 11;
	}> weigh = child<"weigh">;
	Bomba::RpcMember<[] (double value = Bomba::name("value")) {
		return value;
	}> echoReal = child<"echo_real">;
	Bomba::RpcMember<[] (bool value = Bomba::name("value")) {
		return !value;
	}> negate = child<"negate">;
	Bomba::RpcMember<[] (std::string value = Bomba::name("value")) {
		return value;
	}> echoText = child<"echo_text">;
	Bomba::RpcMember<[] (std::vector<std::string> value = Bomba::name("value"), bool reverse = Bomba::name("reverse")) {
		if (reverse) std::reverse(value.begin(), value.end());
		return value;
	}> echoList = child<"echo_list">;
	Bomba::RpcMember<[] (std::map<std::string, int> value = Bomba::name("value")) {
		return value;
	}> echoMap = child<"echo_map">;
	Bomba::RpcMember<[] (Point value = Bomba::name("value"), int added = Bomba::name("added")) {
		value.x = int(uint32_t(value.x) + uint32_t(added));
		return value;
	}> shift = child<"shift">;
	Bomba::RpcMember<[] (Trip value = Bomba::name("value"), bool extra = Bomba::name("extra")) {
		if (extra && value.extra) value.points.push_back(*value.extra);
		return value;
	}> plan = child<"plan">;
	Bomba::RpcMember<[] (std::array<int16_t, 3> value = Bomba::name("value")) {
		return std::vector<int64_t>{value[2], value[1], value[0]};
	}> turn = child<"turn">;
	Bomba::RpcMember<[] (std::shared_ptr<std::string> value = Bomba::name("value"), std::string other = Bomba::name("other")) {
		return value ? std::make_shared<std::string>(*value + other) : std::shared_ptr<std::string>();
	}> maybe = child<"maybe">;
	Bomba::RpcMember<[] (int first = Bomba::name("first"), std::string second = Bomba::name("second"), bool third = Bomba::name("third"),
			double fourth = Bomba::name("fourth"), std::vector<int> fifth = Bomba::name("fifth")) {
		std::string r = std::to_string(first) + "|" + second + "|" + (third ? "yes" : "no") + "|" + std::to_string(int64_t(fourth));
		for (int i : fifth) r += "," + std::to_string(i);
		return r;
	}> combine = child<"combine">;
	Bomba::RpcMember<[] (Api* parent, std::string message = Bomba::name("message")) -> int {
		parent->counter += 7;
		throw std::runtime_error(message);
	}> failing = child<"failing">;
	Bomba::RpcMember<[] (Api* parent, std::string message = Bomba::name("message")) {
		parent->counter += 9;
		if (!message.empty()) throw std::logic_error(message);
	}> failingVoid = child<"failing_void">;
	Bomba::RpcMember<[] (Api* parent) {
		return parent->log;
	}> getLog = child<"get_log">;
	Bomba::RpcMember<[] (Api* parent, bool first = Bomba::name("first") | Bomba::SerialisationFlags::OMIT_FALSE, int value = Bomba::name("value"),
			bool second = Bomba::name("second") | Bomba::SerialisationFlags::OMIT_FALSE, bool third = Bomba::name("third") | Bomba::SerialisationFlags::OMIT_FALSE) {
		parent->counter += (first ? 1 : 0) + (second ? 2 : 0) + (third ? 4 : 0) + value % 1000 * 8;
		return parent->counter;
	}> mark = child<"mark">;
};

// A tree of objects composed at runtime: root -> {api, deeper -> {api, second}, lambda}
struct Tree {
	Api& api; // directly in the root
	Api& deep; // in a subobject
	int64_t sum = 0;
	Bomba::TypedRpcLambdaHolder<int64_t(int64_t)> adder = [this] (int64_t value = Bomba::name("value")) { return sum += value; };
	Bomba::DynamicRpcObject root;

	Tree(Api& api, Api& deep) : api(api), deep(deep) {
		root.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
		Bomba::DynamicRpcObject sub;
		sub.add("unused", [] (int a = Bomba::name("a")) { return a; });
		sub.add("deep", Bomba::RpcLambdaHolder::nonOwning(deep));
		root.add("sub", std::move(sub));
		root.add("add", Bomba::RpcLambdaHolder::nonOwning(*adder));
	}
};
