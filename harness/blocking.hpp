// Histories of a blocking client (plain or encrypted) against a scripted server in the same thread, which acts when the client waits for data
#pragma once
#include "sockets.hpp"
#include "refhttp.hpp"
#include "api.hpp"
#include "refbin.hpp"
#include <utility>
#include "bomba_http.hpp"
#include "bomba_binary_protocol.hpp"
using namespace pbt;
using namespace sockets;
using refhttp::Message;

template <typename Fn> void until(Fn done, const char* what, int ms = 8000) {
	auto start = std::chrono::steady_clock::now();
	while (!done())
		if (std::chrono::steady_clock::now() - start > std::chrono::milliseconds(ms)) fail(what);
}
struct ScriptedServer {
	Src& src;
	Socket listener = listening(), connection;
	std::string received;
	struct Response { std::string data; int id; };
	std::vector<Response> waiting; // Can be sent
	std::string current; // Being sent
	int currentId = -1;
	std::set<int> delivered;
	bool closed = false, reset = false;
	bool polling = false; // The client isn't waiting
	bool ordered; // Responses have to be in order
	int64_t received0 = 0;

	ScriptedServer(Src& src, bool ordered) : src(src), ordered(ordered) {
		beforeReceive = [this] (int fd) {
			int available = 0;
			ioctl(fd, FIONREAD, &available);
			if (available > 0 || closed || polling) return;
			produce();
		};
	}
	virtual ~ScriptedServer() { beforeReceive = nullptr; }
	// What an encrypted connection does otherwise
	virtual std::string encode(std::string data) { return data; }
	virtual std::string decode(std::string data) { return data; }
	virtual void beforeClosing() {}
	void accept() {
		if (connection.fd >= 0 || closed) return;
		listener.wait(5000);
		int fd = ::accept(listener.fd, nullptr, nullptr);
		require(fd >= 0, "the client did not connect");
		connection = Socket(fd);
		connection.unblock();
	}
	// Sends a part of a response, false if there is nothing to send
	bool deliver() {
		if (current.empty()) {
			if (waiting.empty()) return false;
			size_t which = ordered ? 0 : src.raw(waiting.size() - 1);
			current = encode(std::move(waiting[which].data));
			currentId = waiting[which].id;
			waiting.erase(waiting.begin() + which);
		}
		size_t part = src.coin() ? current.size() : 1 + src.raw(current.size() - 1);
		size_t sent = connection.write(std::string_view(current).substr(0, part));
		current.erase(0, sent);
		if (current.empty()) delivered.insert(currentId);
		return sent > 0;
	}
	virtual void produce() {
		if (!deliver()) end(false);
	}
	void end(bool withReset) {
		closed = true;
		reset = withReset;
		takeReceived(); // Unread data would cause a reset
		if (withReset) connection.abort();
		else {
			beforeClosing();
			connection.close();
		}
	}
	void takeReceived() {
		connection.read();
		received += decode(std::exchange(connection.received, {}));
	}
	void readRequests() {
		accept();
		if (!closed) takeReceived();
	}
	void checkReceived(const std::string& expected) {
		until([&] { readRequests(); return received.size() >= expected.size(); }, "a request was not entirely sent");
		requireEqual(expected, received, "data sent by the client");
	}
};

struct Awaited {
	int id;
	std::string name;
	std::function<bool()> ready;
	std::function<void()> resolve; // Throws Failure if the result is wrong, another exception if not obtained
	bool resolved = false;
};

// Common histories of requests, deliveries, polling, obtaining and closing
template <typename MakeRequest> void clientHistory(Src& src, ScriptedServer& server, std::vector<Awaited>& awaited, MakeRequest makeRequest) {
	size_t outOfOrder = 0;
	auto isReady = [&] (Awaited& a) {
		bool expected = server.delivered.count(a.id);
		server.polling = true;
		bool got = false;
		try {
			got = a.ready();
		} catch (Failure&) { throw; }
		catch (std::exception& e) { // Noticing that it will not arrive is fine
			if (!server.closed || (expected && !server.reset)) fail(std::string("polling failed: ") + e.what());
		}
		if (!expected) require(!got, "a response is claimed to be ready before it arrives");
		else if (!server.reset) until([&] { return a.ready(); }, "a response that arrived is not noticed", 2000);
		server.polling = false;
		src.note("poll " + a.name + ": " + (got ? "ready" : "not ready"));
	};
	auto resolve = [&] (size_t i) {
		Awaited& a = awaited[i];
		src.note("get " + a.name);
		for (size_t j = 0; j < i; j++) if (!awaited[j].resolved) outOfOrder++;
		bool mayFail = server.closed && !server.delivered.count(a.id);
		bool could = server.reset;
		try {
			a.resolve();
			require(!mayFail || server.reset, "a response that did not arrive was obtained");
		} catch (Failure&) { throw; }
		catch (std::exception& e) {
			if (!mayFail && !could) fail(std::string("a response could not be obtained: ") + e.what());
		}
		a.resolved = true;
	};
	int steps = int(src.range(1, 30));
	bool failing = src.chance(1, 4);
	for (int i = 0; i < steps; i++) {
		switch (src.raw(8)) {
			default: if (!server.closed) makeRequest(); break;
			case 3: case 4: if (server.connection.fd >= 0 && !server.closed) { server.deliver(); src.note("deliver some"); } break;
			case 5: if (!awaited.empty()) { size_t at = src.raw(awaited.size() - 1); if (!awaited[at].resolved) isReady(awaited[at]); } break;
			case 6: case 7: if (!awaited.empty()) { size_t at = src.raw(awaited.size() - 1); if (!awaited[at].resolved) resolve(at); } break;
			case 8: if (failing && server.connection.fd >= 0 && !server.closed && src.chance(1, 4)) { server.end(src.chance(1, 4)); src.note("the server closes the connection"); } break;
		}
	}
	if (server.closed) {
		// Nothing may be obtained any more
		try { makeRequest(); } catch (Failure&) { throw; } catch (std::exception&) { src.label("requesting failed"); }
	}
	std::vector<size_t> order;
	for (size_t i = 0; i < awaited.size(); i++) if (!awaited[i].resolved) order.push_back(i);
	src.shuffle(order);
	for (size_t i : order) {
		if (src.chance(1, 4)) isReady(awaited[i]);
		resolve(i);
	}
	src.labelIf(server.closed, server.reset ? "reset" : "closed");
	src.labelIf(outOfOrder, "out of order");
	src.nontrivial = awaited.size() > 1;
}
inline void limitTransfers(Src& src) {
	if (!src.coin()) return;
	u64 seed = src.raw(0xffff);
	size_t most = size_t(src.pick({1, 7, 100, 1500}));
	limitReceive = [=] (size_t wanted) mutable { seed = mix(seed); return 1 + seed % std::min(wanted, std::max<size_t>(most, 7)); };
	limitSend = [=] (size_t wanted) mutable -> size_t { seed = mix(seed); return 1 + seed % std::max<size_t>(1, wanted / 2); };
	src.label("partial transfers");
}
template <typename Server> void binaryClient(Src& src) {
	ResetHooks reset;
	Server server(src, false);
	auto network = server.client();
	Api remote, local;
	Bomba::BinaryProtocolClient<uint32_t> client(remote, *network);
	std::vector<Awaited> awaited;
	limitTransfers(src);
	model::GenOptions o;
	o.text = Src::BYTES;
	o.maxText = 6000;
	o.maxItems = 5;
	std::string requests;
	auto add = [&] (const char* name, auto method, int index, const auto&... args) {
		using Returned = decltype((local.*method)(args...));
		int id = int(awaited.size());
		Awaited a{id, std::string(name) + " " + std::to_string(id)};
		src.note("request " + a.name);
		std::string request = refbin::message<uint32_t>(uint32_t(id), {index}, args...), response;
		auto future = std::shared_ptr<Bomba::Future<Returned>>(new Bomba::Future<Returned>((remote.*method).async(args...)));
		if constexpr(std::is_void_v<Returned>) {
			response = refbin::message<uint32_t>(uint32_t(id), {});
			a.resolve = [future] { future->get(); };
		} else {
			Returned result = (local.*method)(args...);
			response = refbin::message<uint32_t>(uint32_t(id), {}, result);
			a.resolve = [future, result] {
				auto got = future->get();
				std::string d = model::Value::diff(model::toValue(result), model::toValue(got));
				if (!d.empty()) fail("a future got a wrong value: " + d);
			};
		}
		a.ready = [future] { return future->is_ready(); };
		awaited.push_back(a);
		if (server.closed) return;
		requests += request;
		server.checkReceived(requests);
		server.waiting.push_back({response, id});
	};
	clientHistory(src, server, awaited, [&] {
		auto value = [&] <typename T> (T t) { model::generate(src, t, o); return t; };
		switch (src.raw(5)) {
			case 0: return add("echo_int", &Api::echoInt, 4, value(int64_t()));
			case 1: return add("echo_text", &Api::echoText, 8, value(std::string()));
			case 2: return add("nothing", &Api::nothing, 3);
			case 3: return add("echo_list", &Api::echoList, 9, value(std::vector<std::string>()), src.coin());
			case 4: return add("shift", &Api::shift, 11, value(Point()), value(int()));
			default: return add("negate", &Api::negate, 7, src.coin());
		}
	});
}
template <typename Server> void httpClient(Src& src) {
	ResetHooks reset;
	Server server(src, true);
	auto network = server.client();
	Bomba::HttpClient<> client(*network, "example.com");
	Bomba::IRpcResponder& polling = client;
	std::vector<Awaited> awaited;
	limitTransfers(src);
	size_t parsed = 0;
	clientHistory(src, server, awaited, [&] {
		int id = int(awaited.size());
		Awaited a{id, "page " + std::to_string(id)};
		src.note("request " + a.name);
		std::string path = "/" + std::to_string(id), body = src.coin() ? src.text(Src::BYTES, src.chance(1, 8) ? 50000 : 9000) : "";
		bool get = src.coin();
		Bomba::RequestToken token = get ? client.get(path) : client.post("a/b", [&] (auto& output, Bomba::RequestToken) { output += std::string_view(body); }, path);
		std::string content = src.text(Src::BYTES, src.chance(1, 10) ? 60000 : 5000);
		bool success = !src.chance(1, 5);
		a.ready = [&polling, token] { return polling.hasResponse(token); };
		a.resolve = [&client, token, content, success] {
			int called = 0;
			client.getResponse(token, [&] (std::span<char> message, bool succeeded) {
				called++;
				requireEqual(content, std::string(message.data(), message.size()), "body of a response");
				requireEqual(success, succeeded, "success of a request");
				return true;
			});
			requireEqual(1, called, "number of calls of the reader");
		};
		awaited.push_back(a);
		if (server.closed) return;
		until([&] {
			server.readRequests();
			size_t end = server.received.find("\r\n\r\n", parsed);
			return end != std::string::npos && server.received.size() >= end + 4 + (get ? 0 : body.size());
		}, "a request was not entirely sent");
		Message m = refhttp::parse(server.received, parsed, false);
		requireEqual(server.received.size(), parsed, "size of the request");
		requireEqual(path, m.path, "path"); requireEqual(get ? "GET" : "POST", m.method, "method"); requireEqual(get ? std::string() : body, m.body, "body");
		server.waiting.push_back({"HTTP/1.1 " + std::string(success ? "200 OK" : "500 Problem") + "\r\nContent-Length: " + std::to_string(content.size()) + "\r\n\r\n" + content, id});
	});
}
