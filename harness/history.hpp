// Random histories of calls through a client, compared with local calls
#pragma once
#include "api.hpp"
#include "transport.hpp"
using namespace pbt;
using namespace transport;
using model::Value;

template <typename T> Value valueOf(const T& t) { return model::toValue(t); }

struct Settings {
	model::GenOptions options;
	bool failing = true; // Can failures be represented?
	bool failureMessages = true;
	size_t large = 0; // If not zero, some arguments are up to this large
};

// What happens between the client and the server
struct Channel {
	virtual void arrive() = 0; // More responses reach the client
	virtual void serverStep() = 0; // The server processes more requests, if there are any
	virtual bool responseArrived(size_t index) = 0;
	virtual bool lazy() = 0;
	virtual bool arrivalKnown() { return true; }
	virtual void finish(size_t calls) = 0;
	virtual ~Channel() = default;
};
struct PipeChannel : Channel {
	Pipe& pipe;
	PipeChannel(Pipe& pipe) : pipe(pipe) {}
	void arrive() override { pipe.arrive(); }
	void serverStep() override { if (pipe.lazy && !pipe.outbound.empty()) pipe.serverReceives(); }
	bool responseArrived(size_t index) override { return pipe.responseArrived(index); }
	bool lazy() override { return pipe.lazy; }
	void finish(size_t calls) override {
		pipe.flush();
		require(!pipe.server.disconnected, "the server disconnected");
		require(pipe.server.pending.empty(), "the server did not process all it received");
		requireEqual(calls, pipe.server.responseEnds.size(), "number of responses");
	}
};

struct Pending {
	std::function<bool()> ready;
	std::function<void()> resolve;
	std::function<void()> move, get;
	size_t index;
	bool resolved = false, failing = false;
	std::string name;
};

// client and local are the same interface, client with a responder set
struct History {
	Src& src;
	Channel& channel;
	Settings settings;
	std::vector<Pending> pending;
	size_t calls = 0, outOfOrder = 0, pipelined = 0;

	template <typename Returned, typename Fn> Value local(Fn& fn, std::string& error) {
		try {
			if constexpr(std::is_void_v<Returned>) { fn(); return Value(); }
			else return valueOf(fn());
		} catch (std::exception& e) { error = e.what(); error.insert(0, "!"); return Value(); }
	}
	void compareError(const std::string& name, const std::string& expected, const char* got) {
		if (expected.empty()) fail(name + " failed remotely, but not locally: " + got);
		if (settings.failureMessages && std::string(got).find(expected.substr(1)) == std::string::npos)
			fail(name + " failed with " + printable(got) + " instead of " + printable(expected));
	}
	template <typename Object, typename Method, typename... Args>
	void invoke(const char* name, Object& client, Object& reference, Method Object::* method, const Args&... args) {
		using Returned = decltype((reference.*method)(args...));
		std::string error;
		bool localFuture = src.chance(1, 4); // Without a client, the result is available immediately
		auto callLocal = [&] () -> Returned {
			if (!localFuture) return (reference.*method)(args...);
			Bomba::Future<Returned> future = (reference.*method).async(args...);
			require(future.is_ready(), "the result of a local call isn't ready immediately");
			return future.get();
		};
		Value expected = local<Returned>(callLocal, error);
		size_t index = calls++;
		bool async = src.chance(1, 2);
		if (src.wantDescription) {
			std::string shown;
			((shown += (shown.empty() ? "" : ", ") + valueOf(args).show(200)), ...);
			src.note(std::string(async ? "async " : "") + name + "(" + shown + ") -> " + (error.empty() ? expected.show(200) : error));
		}
		if (!async) {
			src.labelIf(pending.size() > 0, "synchronous call while others are pending");
			try {
				if constexpr(std::is_void_v<Returned>) (client.*method)(args...);
				else {
					Value got = valueOf((client.*method)(args...));
					std::string d = Value::diff(expected, got);
					if (error.empty() && !d.empty()) fail(std::string(name) + " returned another value: " + d);
				}
				if (!error.empty()) fail(std::string(name) + " succeeded remotely, but failed locally");
			} catch (Failure&) { throw; }
			catch (Bomba::RemoteError& e) { compareError(name, error, e.what()); }
			return;
		}
		auto future = std::shared_ptr<Bomba::Future<Returned>>(new Bomba::Future<Returned>((client.*method).async(args...)));
		Pending p;
		p.name = name; p.index = index; p.failing = !error.empty();
		p.ready = [future] { return future->is_ready(); };
		p.resolve = [this, future, expected, error, name = p.name] {
			try {
				if constexpr(std::is_void_v<Returned>) future->get();
				else {
					std::string d = Value::diff(expected, valueOf(future->get()));
					if (error.empty() && !d.empty()) fail("future of " + name + " got another value: " + d);
				}
				if (!error.empty()) fail("future of " + name + " succeeded, but the call failed locally");
			} catch (Failure&) { throw; }
			catch (Bomba::RemoteError& e) { compareError(name, error, e.what()); }
		};
		p.get = [future] { future->get(); };
		p.move = [future] {
			if constexpr(std::is_void_v<Returned>) {
				Bomba::Future<void> other = std::move(*future), another;
				another = std::move(other);
				*future = std::move(another);
			} else {
				Bomba::Future<Returned> other = Bomba::Future<Returned>(Returned{});
				other = std::move(*future);
				*future = std::move(other);
			}
		};
		pending.push_back(std::move(p));
		if (pending.size() > 1) pipelined++;
	}
	template <typename T> T value() {
		T t{};
		model::generate(src, t, settings.options);
		return t;
	}
	std::string key() { static const char* keys[] = {"a", "b", "key", "", "a.b"}; return src.coin() ? std::string(src.pick(keys)) : value<std::string>(); }

	size_t largest = 0;
	std::string bulk() {
		std::string text = src.bulk(settings.options.text, settings.large);
		largest = std::max(largest, text.size());
		return text;
	}
	void callLarge(Api& client, Api& local) {
		switch (src.raw(7)) {
			case 0: case 6: return invoke("set", client, local, &Api::set, key(), bulk());
			case 1: case 7: return invoke("echo_text", client, local, &Api::echoText, bulk());
			case 2: {
				std::vector<std::string> list;
				std::string word = src.text(settings.options.text, 20);
				for (size_t i = src.largeSize(settings.large / 200); i > 0; i--) list.push_back(word + std::to_string(i));
				largest = std::max(largest, list.size() * 10);
				return invoke("echo_list", client, local, &Api::echoList, list, src.coin());
			}
			case 3: {
				std::map<std::string, int> map;
				std::string word = src.text(settings.options.text, 20);
				for (size_t i = src.largeSize(settings.large / 600); i > 0; i--) map[word + std::to_string(i)] = int(i);
				largest = std::max(largest, map.size() * 20);
				return invoke("echo_map", client, local, &Api::echoMap, map);
			}
			case 4: {
				Trip trip;
				for (size_t i = src.largeSize(settings.large / 600); i > 0; i--) { trip.points.emplace_back(); trip.points.back().x = int(i); }
				largest = std::max(largest, trip.points.size() * 20);
				return invoke("plan", client, local, &Api::plan, trip, src.coin());
			}
			default: {
				std::vector<int> numbers;
				for (size_t i = src.largeSize(settings.large / 200); i > 0; i--) numbers.push_back(int(i * 7));
				largest = std::max(largest, numbers.size() * 4);
				return invoke("combine", client, local, &Api::combine, value<int>(), value<std::string>(), src.coin(), 1.5, numbers);
			}
		}
	}
	void callSomething(Api& client, Api& local) {
		if (settings.large && src.coin()) return callLarge(client, local);
		switch (src.raw(settings.failing ? 19 : 17)) {
			case 0: return invoke("set", client, local, &Api::set, key(), value<std::string>());
			case 1: return invoke("get", client, local, &Api::get, key());
			case 2: return invoke("count", client, local, &Api::count);
			case 3: return invoke("nothing", client, local, &Api::nothing);
			case 4: return invoke("echo_int", client, local, &Api::echoInt, value<int64_t>());
			case 5: return invoke("weigh", client, local, &Api::weigh, value<int8_t>(), value<uint16_t>(), value<uint32_t>(), value<int16_t>());
			case 6: return invoke("echo_real", client, local, &Api::echoReal, value<double>());
			case 7: return invoke("negate", client, local, &Api::negate, src.coin());
			case 8: return invoke("echo_text", client, local, &Api::echoText, value<std::string>());
			case 9: return invoke("echo_list", client, local, &Api::echoList, value<std::vector<std::string>>(), src.coin());
			case 10: return invoke("echo_map", client, local, &Api::echoMap, value<std::map<std::string, int>>());
			case 11: return invoke("shift", client, local, &Api::shift, value<Point>(), value<int>());
			case 12: return invoke("plan", client, local, &Api::plan, value<Trip>(), src.coin());
			case 13: return invoke("turn", client, local, &Api::turn, value<std::array<int16_t, 3>>());
			case 14: return invoke("maybe", client, local, &Api::maybe, value<std::shared_ptr<std::string>>(), value<std::string>());
			case 15: return invoke("combine", client, local, &Api::combine, value<int>(), value<std::string>(), src.coin(), double(src.range(-1000, 1000)), value<std::vector<int>>());
			case 16: return invoke("get_log", client, local, &Api::getLog);
			case 17: return invoke("mark", client, local, &Api::mark, src.coin(), value<int>(), src.coin(), src.coin());
			case 18: return invoke("failing", client, local, &Api::failing, value<std::string>());
			default: return invoke("failing_void", client, local, &Api::failingVoid, value<std::string>());
		}
	}
	void checkReady(Pending& p) {
		if (!channel.arrivalKnown()) {
			bool ready = p.ready();
			if (p.resolved) require(ready, "a result obtained already isn't ready");
			return;
		}
		bool ready = p.ready(), expected = p.resolved || channel.responseArrived(p.index);
		if (ready != expected) fail("is_ready of " + p.name + " returned " + (ready ? "true" : "false") + " while the response " + (expected ? "arrived" : "did not arrive"));
	}
	void resolve(size_t i) {
		Pending& p = pending[i];
		if (p.failing && p.resolved) { // No other response will come
			src.note("get the result of " + p.name + " again after failing");
			try {
				p.get();
			} catch (Failure&) { throw; }
			catch (std::logic_error&) { return; }
			fail(p.name + " failed, but its future has a result");
		}
		src.note("get the result of " + p.name + " (" + std::to_string(p.index) + ")");
		if (i > 0 && !pending[i - 1].resolved) outOfOrder++;
		p.resolve();
		p.resolved = true;
	}
	template <typename Call> void run(Call&& call) {
		int steps = int(src.range(1, settings.large ? 10 : 24));
		for (int i = 0; i < steps; i++) {
			switch (src.raw(7)) {
				default: call(); break;
				case 3: channel.arrive(); break;
				case 4: channel.serverStep(); break;
				case 5: if (!pending.empty()) resolve(src.raw(pending.size() - 1)); break;
				case 6: if (!pending.empty()) { auto& p = src.pick(pending); if (!(p.failing && p.resolved)) { src.note("is_ready of " + p.name); checkReady(p); } } break;
				case 7:
					if (!pending.empty()) {
						size_t at = src.raw(pending.size() - 1);
						if (src.coin()) { src.note("move the future of " + pending[at].name); pending[at].move(); }
						else { src.note("drop the future of " + pending[at].name); pending.erase(pending.begin() + at); }
					}
					break;
			}
		}
		// Everything left, in random order
		std::vector<size_t> order;
		for (size_t i = 0; i < pending.size(); i++) order.push_back(i);
		src.shuffle(order);
		for (size_t i : order) {
			if (src.chance(1, 4) && !(pending[i].failing && pending[i].resolved)) checkReady(pending[i]);
			if (!pending[i].resolved) resolve(i);
		}
		pending.clear();
		channel.finish(calls);
		src.labelIf(outOfOrder > 0, "responses obtained out of order");
		src.labelIf(pipelined > 0, "more requests underway");
		src.labelIf(channel.lazy(), "pipelining");
		src.nontrivial = settings.large ? largest > 1000 : calls >= 3;
		src.labelIf(largest >= 100000, "over 100 kB"); src.labelIf(largest >= 1000000, "over 1 MB");
	}
	void compareState(const Api& server, const Api& local) {
		requireEqual(local.counter, server.counter, "state of the server (counter)");
		requireEqual(std::string(), Value::diff(valueOf(local.store), valueOf(server.store)), "state of the server (store)");
		requireEqual(std::string(), Value::diff(valueOf(local.log), valueOf(server.log)), "state of the server (log)");
	}
};
