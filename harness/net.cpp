// The TCP server and the blocking client over real sockets
#include "sockets.hpp"
#include "refhttp.hpp"
#include "api.hpp"
#include "refbin.hpp"
#include "blocking.hpp"
#include "bomba_tcp_server.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_http.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
using namespace pbt;
using namespace sockets;
using refhttp::Message;

static std::string pattern(std::string_view name, size_t size) {
	std::string r;
	u64 seed = hashBytes(name);
	r.reserve(size + 8);
	while (r.size() < size) { seed = mix(seed); for (int i = 0; i < 8; i++) r += char(seed >> (8 * i)); }
	r.resize(size);
	return r;
}
// Serves contents computed from the path, its last part is the size, the first tells how to write it
struct Pages : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	static size_t size(std::string_view path) { return size_t(atoi(std::string(path.substr(path.rfind('/') + 1)).c_str())); }
	static void write(std::string_view path, std::string_view content, Bomba::IWriteStarter& writer) {
		if (path[1] == 'k') writer.writeKnownSize("a/b", content.size(), [&] (Bomba::GeneralisedBuffer& output) {
			for (size_t at = 0; at < content.size(); at += 3000) output += content.substr(at, 3000);
		});
		else writer.writeUnknownSize("a/b", [&] (Bomba::GeneralisedBuffer& output) { output += content; });
	}
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		if (path[1] == 'm') return false;
		if (path[1] == 't') throw std::runtime_error("thrown");
		write(path, pattern(path, size(path)), writer);
		return true;
	}
	bool post(std::string_view path, std::string_view, std::span<char> body, Bomba::IWriteStarter& writer) override {
		std::string reversed(body.rbegin(), body.rend());
		write(path, reversed, writer);
		return true;
	}
};

struct WebClient {
	Socket socket;
	std::string unsent;
	struct Request { std::string path, body; int status; };
	std::vector<Request> requests;
	size_t answered = 0, parsed = 0;
	bool closing = false, finished = false;
	size_t outstanding = 0;

	void request(Src& src, size_t maxSize, bool allowClose) {
		Request r;
		size_t size = maxSize > 100000 && src.coin() ? src.raw(maxSize) : src.length(maxSize);
		r.path = "/" + std::string(src.pick({"k", "u", "k", "u", "m", "t"})) + "/" + std::to_string(src.raw(99)) + "/" + std::to_string(size);
		char kind = r.path[1];
		bool post = (kind == 'k' || kind == 'u') && src.chance(1, 3);
		std::string noise;
		if (src.chance(1, 3)) noise = refhttp::noiseHeader(src);
		if (allowClose && src.chance(1, 15)) { noise += "Connection: close\r\n"; closing = true; }
		if (post) {
			std::string body = pattern(r.path + "body", size);
			unsent += "POST " + r.path + " HTTP/1.1\r\nContent-Type: c/d\r\n" + noise + "Content-Length: " + std::to_string(size) + "\r\n\r\n" + body;
			r.body.assign(body.rbegin(), body.rend());
		} else {
			unsent += "GET " + r.path + " HTTP/1.1\r\n" + noise + "\r\n";
			r.body = pattern(r.path, size);
		}
		r.status = kind == 'm' ? 404 : kind == 't' ? 500 : 200;
		outstanding += size + 300;
		requests.push_back(r);
	}
	void check() {
		socket.read();
		while (parsed < socket.received.size()) {
			// Is the response complete?
			size_t headerEnd = socket.received.find("\r\n\r\n", parsed);
			if (headerEnd == std::string::npos) return;
			size_t length = socket.received.find("ontent-", parsed);
			if (length == std::string::npos || length > headerEnd) fail("response without length: " + printable(socket.received.substr(parsed)));
			size_t lengthAt = socket.received.find("Length:", parsed);
			if (lengthAt == std::string::npos || lengthAt > headerEnd) fail("response without length: " + printable(socket.received.substr(parsed)));
			size_t size = size_t(atoll(socket.received.c_str() + lengthAt + 7));
			if (socket.received.size() < headerEnd + 4 + size) return;
			Message m = refhttp::parse(socket.received, parsed, true);
			require(answered < requests.size(), "more responses than requests");
			Request& r = requests[answered++];
			requireEqual(r.status, m.status, "status of response to " + r.path);
			if (r.status == 200 && m.body != r.body) fail("wrong content of response to " + r.path);
			outstanding -= std::min(outstanding, Pages::size(r.path) + 300);
		}
	}
	bool done() const { return answered == requests.size() && unsent.empty() && (!closing || socket.ended); }
};

// C17 with the server driven by the same thread, with partial receives and sends
static void driven(Src& src) {
	ResetHooks reset;
	Pages pages;
	Bomba::HttpServer<> http(pages, pages);
	Bomba::TcpServer<Bomba::HttpServer<>> server(http, 0);
	int serverPort = port(lastListening);
	int descriptors = openDescriptors();
	if (src.chance(1, 10)) require(server.averageResponseTime().count() == 0, "average response time before the first response");
	std::vector<WebClient> clients;
	auto start = std::chrono::steady_clock::now();
	int steps = int(src.range(1, 40));
	bool limited = src.coin();
	u64 seed = src.raw(0xffff);
	if (limited) {
		size_t most = size_t(src.pick({1, 5, 100, 1000, 2000}));
		bool tiny = most < 100;
		limitReceive = [=] (size_t wanted) mutable { seed = mix(seed); return 1 + seed % std::min(wanted, tiny ? std::max<size_t>(most, 20) : most); };
		limitSend = [=] (size_t wanted) mutable -> size_t { seed = mix(seed); return seed % 7 == 0 ? 0 : 1 + seed % std::max<size_t>(1, std::min(wanted, wanted / 4 + 400)); };
	}
	auto progress = [&] (WebClient& c) {
		if (!c.unsent.empty()) c.unsent.erase(0, c.socket.write(std::string_view(c.unsent).substr(0, 8000)));
		server.runARound();
		c.check();
	};
	int aborted = 0, maximum = 0;
	for (int i = 0; i < steps; i++) {
		if (clients.empty() || (clients.size() < 6 && src.chance(1, 5))) {
			clients.emplace_back();
			if (src.chance(1, 10)) { // The connection isn't accepted immediately
				acceptError = src.pick({ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EINTR, EPROTO, EAGAIN});
				failAccepting = int(src.range(1, 3));
				src.note("accepting will fail with " + std::string(strerrorname_np(acceptError)));
				src.label("accepting failed");
			}
			clients.back().socket = Socket::connected(serverPort);
			src.note("client " + std::to_string(clients.size() - 1) + " connects");
			maximum = std::max(maximum, int(clients.size()));
			continue;
		}
		size_t index = src.raw(clients.size() - 1);
		WebClient& c = clients[index];
		std::string name = "client " + std::to_string(index);
		switch (src.raw(7)) {
			case 0: case 1: case 2:
				if (!c.closing && !c.finished && c.outstanding < 30000) { c.request(src, limited ? 3000 : 20000, true); src.note(name + " requests " + c.requests.back().path + (c.closing ? " and the end" : "")); }
				break;
			case 3: if (!c.unsent.empty()) { size_t part = 1 + src.raw(c.unsent.size() - 1); c.unsent.erase(0, c.socket.write(std::string_view(c.unsent).substr(0, std::min<size_t>(part, 8000)))); src.note(name + " sends a part"); } break;
			case 4: server.runARound(); break;
			case 5: src.note(name + " waits for everything"); until([&] { progress(c); return c.done(); }, "requests were not answered"); break;
			case 6:
				src.note(name + " disappears");
				if (!c.unsent.empty()) c.socket.write(std::string_view(c.unsent).substr(0, src.raw(c.unsent.size())));
				if (src.coin()) server.runARound();
				if (src.coin()) c.socket.abort(); else c.socket.close();
				clients.erase(clients.begin() + index);
				aborted++;
				break;
			default:
				if (c.finished) break;
				src.note(name + " finishes writing");
				until([&] { if (c.unsent.empty()) return true; progress(c); return false; }, "the server does not receive");
				c.socket.finishWriting();
				c.finished = c.closing = true; // The server is expected to disconnect
				break;
		}
	}
	for (WebClient& c : clients) until([&] { progress(c); return c.done(); }, "requests were not answered");
	// It accepts other connections afterwards
	WebClient last;
	last.socket = Socket::connected(serverPort);
	last.request(src, 100, false);
	until([&] { progress(last); return last.done(); }, "a new client was not answered");
	auto average = server.averageResponseTime();
	require(average.count() >= 0 && average <= std::chrono::steady_clock::now() - start, "the average response time is impossible");
	// Nothing is left after they disconnect
	last.socket.close();
	clients.clear();
	until([&] { server.runARound(); return openDescriptors() <= descriptors; }, "connections of disconnected clients are left open");
	src.labelIf(aborted > 0, "client disappeared"); src.labelIf(limited, "partial receives and sends"); src.labelIf(maximum > 1, "more clients");
	src.nontrivial = steps > 3;
}

// C17 with many connections at once
static void crowd(Src& src) {
	ResetHooks reset;
	Pages pages;
	Bomba::HttpServer<> http(pages, pages);
	Bomba::TcpServer<Bomba::HttpServer<>> server(http, 0);
	int serverPort = port(lastListening);
	int descriptors = openDescriptors();
	std::vector<WebClient> clients;
	size_t count = src.chance(1, 4) ? size_t(src.range(50, 300)) : src.length(70) + 1;
	auto progress = [&] (WebClient& c) {
		if (!c.unsent.empty()) c.unsent.erase(0, c.socket.write(std::string_view(c.unsent).substr(0, 8000)));
		server.runARound();
		c.check();
	};
	int rounds = int(src.range(1, 3));
	src.note(std::to_string(count) + " clients, " + std::to_string(rounds) + " times");
	for (int round = 0; round < rounds; round++) {
		while (clients.size() < count) {
			clients.emplace_back();
			clients.back().socket = Socket::connected(serverPort);
			if (src.coin()) server.runARound();
		}
		// Partially sent requests of all of them are processed at the same time
		for (auto& c : clients) {
			c.request(src, 500, true);
			if (src.coin()) c.unsent.erase(0, c.socket.write(std::string_view(c.unsent).substr(0, src.raw(c.unsent.size()))));
		}
		std::vector<size_t> order;
		for (size_t i = 0; i < clients.size(); i++) order.push_back(i);
		src.shuffle(order);
		for (size_t i : order) until([&] { progress(clients[i]); return clients[i].done(); }, "requests were not answered");
		bool all = src.chance(1, 4);
		for (size_t i = clients.size(); i > 0; i--) {
			if (!clients[i - 1].closing && !all && src.coin()) continue;
			if (src.coin()) clients[i - 1].socket.abort();
			clients.erase(clients.begin() + (i - 1));
		}
	}
	clients.clear();
	until([&] { server.runARound(); return openDescriptors() <= descriptors; }, "connections of disconnected clients are left open");
	src.labelIf(count >= 64, "64 clients or more"); src.labelIf(count >= 200, "200 clients or more");
	src.nontrivial = count > 1;
}

// C17 with a server in another thread, large requests and responses
static void background(Src& src) {
	Pages pages;
	Bomba::HttpServer<> http(pages, pages);
	std::vector<WebClient> clients;
	{
		Bomba::BackgroundTcpServer<Bomba::HttpServer<>> server(http, 0);
		int serverPort = port(lastListening);
		int count = int(src.range(1, 5));
		bool some = src.coin();
		for (int i = 0; i < count; i++) {
			clients.emplace_back();
			clients.back().socket = Socket::connected(serverPort);
			for (int j = int(src.range(1, 5)); j > 0 && !clients.back().closing; j--) {
				clients.back().request(src, src.chance(1, 3) ? 600000 : 4000, true);
				src.note("client " + std::to_string(i) + ": " + clients.back().requests.back().path);
			}
		}
		std::vector<size_t> cuts;
		for (auto& c : clients) cuts.push_back(some && src.chance(1, 4) ? src.raw(c.unsent.size()) : 0); // Where it disappears
		auto start = std::chrono::steady_clock::now();
		u64 seed = src.raw(0xffff);
		for (bool left = true; left;) {
			left = false;
			for (size_t i = 0; i < clients.size(); i++) {
				WebClient& c = clients[i];
				if (c.socket.fd < 0) continue;
				seed = mix(seed);
				c.unsent.erase(0, c.socket.write(std::string_view(c.unsent).substr(0, 1 + seed % 30000)));
				if (cuts[i] && c.unsent.size() <= cuts[i]) { if (seed & (1 << 20)) c.socket.abort(); else c.socket.close(); continue; }
				c.check();
				if (!c.done()) { left = true; if (c.unsent.empty()) c.socket.wait(1); }
			}
			if (std::chrono::steady_clock::now() - start > std::chrono::seconds(15)) fail("requests were not answered");
		}
		src.nontrivial = true;
		src.labelIf(some, "clients disappear");
	} // Stops with clients still connected
}

// C18
struct PlainServer : ScriptedServer {
	using ScriptedServer::ScriptedServer;
	auto client() { return std::make_unique<Bomba::SyncNetworkClient>("127.0.0.1", std::to_string(port(listener.fd))); }
};

#ifdef C17
PBT_MAIN({"driven", driven, 6000, 150000, false, 20, 60}, {"background", background, 600, 15000, true, 30, 60}, {"crowd", crowd, 500, 12000, false, 20, 60})
#elif defined(C18)
PBT_MAIN({"binary_client", binaryClient<PlainServer>, 5000, 200000, false, 10, 30}, {"http_client", httpClient<PlainServer>, 5000, 200000, false, 10, 30})
#endif
