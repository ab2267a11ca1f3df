// Histories of calls that can be made through HTML forms
#pragma once
#include "history.hpp"

struct FormApi : Bomba::RpcObject<FormApi> {
	std::map<std::string, std::string> store;
	std::vector<std::string> log;
	int64_t sum = 0;
	double real = 0;
	int flags = 0;

	Bomba::RpcMember<[] (FormApi* parent, std::string key = Bomba::name("key"), std::string value = Bomba::name("value of it")) {
		parent->store[key] = value;
		parent->log.push_back(key);
	}> set = child<"set">;
	Bomba::RpcMember<[] (FormApi* parent, int64_t value = Bomba::name("value"), int8_t small = Bomba::name("small"), uint32_t big = Bomba::name("big")) {
		parent->sum = int64_t(uint64_t(parent->sum) + uint64_t(value) * 3 + uint64_t(int64_t(small)) * 5 + big);
	}> add = child<"add_int">;
	Bomba::RpcMember<[] (FormApi* parent, double value = Bomba::name("value")) {
		parent->real = value;
	}> setReal = child<"set_real">;
	Bomba::RpcMember<[] (FormApi* parent, bool a = Bomba::name("a") | Bomba::SerialisationFlags::OMIT_FALSE, int value = Bomba::name("value"),
			bool b = Bomba::name("b") | Bomba::SerialisationFlags::OMIT_FALSE) {
		parent->flags = parent->flags * 31 % 1000003 + (a ? 1 : 0) + (b ? 2 : 0) + value % 1000 * 4;
	}> flag = child<"flag">;
	Bomba::RpcMember<[] (FormApi* parent) {
		parent->log.push_back("no arguments");
	}> nothing = child<"nothing">;
	Bomba::RpcMember<[] (FormApi* parent, std::string text = Bomba::name("text")) {
		parent->log.push_back("failing");
		if (!text.empty()) throw std::runtime_error(text);
	}> failing = child<"failing">;
	// Only called locally or with GET
	Bomba::RpcMember<[] (int first = Bomba::name("first"), int second = Bomba::name("second")) {
		return int64_t(first) - second;
	}> subtract = child<"subtract">;
	Bomba::RpcMember<[] (FormApi* parent, std::string name = Bomba::name("name"), bool yell = Bomba::name("yell") | Bomba::SerialisationFlags::OMIT_FALSE) {
		parent->log.push_back("greet " + name);
		return "Hello " + name + (yell ? "!" : "");
	}> greet = child<"greet">;
};

// References to characters are used for characters that can't be represented otherwise, so they can't be sent literally
static std::string withoutReferences(std::string s) {
	for (size_t at = 0; (at = s.find("&#", at)) != s.npos; at++) s[at] = '+';
	return s;
}

struct FormHistory : History {
	std::string text() { return withoutReferences(settings.large && src.coin() ? bulk() : value<std::string>()); }
	void callForm(FormApi& client, FormApi& local) {
		switch (src.raw(5)) {
			case 0: return invoke("set", client, local, &FormApi::set, withoutReferences(key()), text());
			case 1: return invoke("add_int", client, local, &FormApi::add, value<int64_t>(), value<int8_t>(), value<uint32_t>());
			case 2: return invoke("set_real", client, local, &FormApi::setReal, value<double>());
			case 3: return invoke("flag", client, local, &FormApi::flag, src.coin(), value<int>(), src.coin());
			case 4: return invoke("nothing", client, local, &FormApi::nothing);
			default: return invoke("failing", client, local, &FormApi::failing, src.coin() ? text() : "");
		}
	}
};
static void compareForms(FormApi& server, FormApi& local) {
	requireEqual(local.sum, server.sum, "state of the server (sum)");
	requireEqual(local.real, server.real, "state of the server (real)");
	requireEqual(local.flags, server.flags, "state of the server (flags)");
	requireEqual(std::string(), Value::diff(valueOf(local.store), valueOf(server.store)), "state of the server (store)");
	requireEqual(std::string(), Value::diff(valueOf(local.log), valueOf(server.log)), "state of the server (log)");
}
