// C32: clients in several threads calling one server over real connections
#include "form_history.hpp"
#include "sockets.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_tcp_server.hpp"
using namespace sockets;

struct Network : Channel {
	Src& src;
	Network(Src& src) : src(src) {}
	void wait() { if (src.coin()) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(src.raw(300))); }
	void arrive() override { wait(); }
	void serverStep() override { wait(); }
	bool responseArrived(size_t) override { return false; }
	bool arrivalKnown() override { return false; }
	bool lazy() override { return false; }
	void finish(size_t) override {}
};
static std::string pageContent(std::string_view path) {
	std::string content(path);
	for (size_t i = 0, count = size_t(std::hash<std::string_view>()(path) % 3000); i < count; i++) content += char('a' + i % 26);
	return content;
}
struct Pages : Bomba::IHttpGetResponder {
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		if (!path.starts_with("/page")) return false;
		std::string content = pageContent(path);
		if (content.size() % 2) writer.writeKnownSize("text/plain", content.size(), [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view(content); });
		else writer.writeUnknownSize("text/plain", [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view(content); });
		return true;
	}
};
// The same functions for each client, so that their histories are independent
template <typename A> struct Side {
	std::vector<std::unique_ptr<A>> apis;
	Bomba::DynamicRpcObject root;
	Side(int count) {
		for (int i = 0; i < count; i++) {
			apis.push_back(std::make_unique<A>());
			root.add("client" + std::to_string(i), Bomba::RpcLambdaHolder::nonOwning(*apis.back()));
		}
	}
};

static void compareState(const Api& got, const Api& expected) {
	requireEqual(expected.counter, got.counter, "state of the server (counter)");
	requireEqual(std::string(), Value::diff(valueOf(expected.store), valueOf(got.store)), "state of the server (store)");
	requireEqual(std::string(), Value::diff(valueOf(expected.log), valueOf(got.log)), "state of the server (log)");
}
static void compareState(FormApi& got, FormApi& expected) { compareForms(got, expected); }
static void callSomething(History& history, Api& client, Api& local) { history.callSomething(client, local); }
static void callSomething(FormHistory& history, FormApi& client, FormApi& local) { history.callForm(client, local); }

template <typename HistoryType = History, typename A, typename Server, typename MakeClient>
static void withServer(Src& src, Server& responder, Side<A>& served, Settings settings, bool pages, const MakeClient& makeClient) {
	int count = int(served.apis.size());
	struct Client { u64 seed; bool downloading; Side<A> local; std::string problem, description; std::set<std::string> labels; };
	std::vector<std::unique_ptr<Client>> clients;
	for (int i = 0; i < count; i++) clients.push_back(std::unique_ptr<Client>(new Client{src.raw(~0ull), pages && src.chance(1, 4), Side<A>(count)}));
	{
		Bomba::BackgroundTcpServer<Server> server(responder, 0);
		int serverPort = port(lastListening);
		auto work = [&] (Src& own, int index) {
			ResetHooks reset;
			auto limit = [&own] (size_t size) { return own.coin() ? size : std::min(size, size_t(own.range(1, 20))); };
			if (own.chance(1, 3)) limitReceive = limit;
			if (own.chance(1, 4)) limitSend = limit;
			Client& client = *clients[index];
			int connections = int(own.range(1, 2));
			Network network(own);
			while (connections--) {
				Bomba::SyncNetworkClient tcp("127.0.0.1", std::to_string(serverPort));
				if (client.downloading) {
					Bomba::HttpClient<> http(tcp, "example.com");
					std::vector<std::pair<Bomba::RequestToken, std::string>> waiting;
					auto resolve = [&] (size_t at) {
						auto [token, path] = waiting[at];
						waiting.erase(waiting.begin() + at);
						int times = 0;
						http.getResponse(token, [&, &path = path] (std::span<char> content, bool success) {
							times++;
							require(success, "a download failed");
							requireEqual(pageContent(path), std::string(content.data(), content.size()), "downloaded page");
							return true;
						});
						requireEqual(1, times, "number of responses");
					};
					for (int steps = int(own.range(1, 20)); steps > 0; steps--) {
						if (!waiting.empty() && own.coin()) resolve(own.raw(waiting.size() - 1));
						else {
							std::string path = "/page" + own.text(Src::IDENT, 10);
							own.note("download " + path);
							waiting.emplace_back(http.get(path), path);
						}
					}
					while (!waiting.empty()) resolve(own.raw(waiting.size() - 1));
					own.label("downloads");
				} else {
					Side<A> side(count);
					auto caller = makeClient(side.root, tcp);
					HistoryType history{own, network, settings};
					history.run([&] { callSomething(history, *side.apis[index], *client.local.apis[index]); });
					// Calls whose futures were dropped may be still unprocessed, and closing the connection may cancel them
					side.apis[index]->nothing();
					client.local.apis[index]->nothing();
				}
			}
		};
		if (count == 1) work(src, 0);
		else {
			std::vector<std::thread> threads;
			for (int i = 0; i < count; i++) threads.emplace_back([&, i] {
				Recording recording;
				Src own(recording, clients[i]->seed);
				own.wantDescription = src.wantDescription;
				try {
					work(own, i);
				} catch (std::exception& e) { clients[i]->problem = e.what(); }
				clients[i]->description = own.description;
			});
			for (auto& it : threads) it.join();
			for (int i = 0; i < count; i++) {
				src.note("client " + std::to_string(i) + ":\n" + clients[i]->description);
				if (!clients[i]->problem.empty()) fail("client " + std::to_string(i) + ": " + clients[i]->problem);
			}
		}
	}
	for (int i = 0; i < count; i++) {
		compareState(*served.apis[i], *clients[i]->local.apis[i]);
	}
	src.labelIf(count > 1, "more clients");
	src.nontrivial = true;
}
static void jsonRpc(Src& src) {
	Side<Api> served(int(src.range(1, 6)));
	Pages pages;
	Bomba::JsonRpcServer<> server(served.root, pages);
	Settings settings;
	settings.options.text = Src::UTF8;
	settings.options.maxText = src.chance(1, 8) ? 20000 : 200;
	settings.options.maxItems = 6;
	withServer(src, server, served, settings, true, [] (Bomba::IRemoteCallable& root, Bomba::ITcpClient& tcp) { return std::make_unique<Bomba::JsonRpcClient<>>(root, tcp, "example.com"); });
}
static void binary(Src& src) {
	Side<Api> served(int(src.range(1, 6)));
	Bomba::BinaryProtocolServer<uint32_t> server(served.root);
	Settings settings;
	settings.options.text = Src::BYTES;
	settings.options.maxText = src.chance(1, 8) ? 20000 : 200;
	settings.options.maxItems = 6;
	settings.failing = false;
	withServer(src, server, served, settings, false, [] (Bomba::IRemoteCallable& root, Bomba::ITcpClient& tcp) { return std::make_unique<Bomba::BinaryProtocolClient<uint32_t>>(root, tcp); });
}

static void forms(Src& src) {
	Side<FormApi> served(int(src.range(1, 6)));
	Pages pages;
	Bomba::HtmlPostResponder<> responder(served.root);
	Bomba::HttpServer<> server(pages, responder);
	Settings settings;
	settings.options.text = Src::UTF8;
	settings.failureMessages = false;
	withServer<FormHistory>(src, server, served, settings, true, [] (Bomba::IRemoteCallable& root, Bomba::ITcpClient& tcp) {
		auto made = std::make_unique<Bomba::HttpClient<>>(tcp, "example.com");
		root.setResponder(*made);
		return made;
	});
}

PBT_MAIN({"json_rpc", jsonRpc, 600, 30000, true, 30, 60}, {"binary", binary, 800, 40000, true, 30, 60}, {"forms", forms, 600, 20000, true, 30, 60})
