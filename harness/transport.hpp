// In-memory connection between a client and a server session with random segmentation and timing of the delivery.
// Every buffer is given as an exactly sized heap allocation, so that reading out of it is detected.
#pragma once
#include "engine.hpp"
#include "bomba_core.hpp"

namespace transport {
using namespace pbt;

struct Exact { // Exactly sized copy on the heap
	std::unique_ptr<char[]> memory;
	size_t size;
	Exact(std::string_view from) : memory(new char[from.size()]), size(from.size()) { memcpy(memory.get(), from.data(), size); }
	std::span<char> span() { return {memory.get(), size}; }
	std::string_view view() const { return {memory.get(), size}; }
};

// Size of the next segment, often tiny, often everything
inline size_t segment(Src& src, size_t available) {
	if (available <= 1) return available;
	switch (src.raw(3)) {
		case 0: case 1: return available;
		case 2: return 1 + src.raw(available - 1);
		default: return 1 + src.raw(std::min<size_t>(available - 1, 30));
	}
}

// Limit to segment sizes within a case
inline size_t largestSegment(Src& src, size_t total) {
	size_t most = src.pick({size_t(~0u), size_t(1000), size_t(100), size_t(17), size_t(3), size_t(1)});
	return std::max(most, total / 500 + 1);
}

// Feeds a stream to a responder the way a TCP server does, but without limits
struct Feeder {
	Bomba::ITcpResponder& session;
	std::string pending; // Received, but not processed
	std::string output;
	std::vector<size_t> responseEnds; // In the output
	std::vector<size_t> consumedSizes;
	bool disconnected = false;

	Feeder(Bomba::ITcpResponder& session) : session(session) {}

	void receive(std::string_view segment) {
		pending += segment;
		while (!disconnected) {
			Exact input(pending);
			size_t before = output.size();
			auto [reaction, consumed] = session.respond(input.span(), [&] (std::span<const char> written) {
				output.append(written.data(), written.size());
			});
			if (reaction == Bomba::ServerReaction::READ_ON) {
				require(output.size() == before, "the server responded to an incomplete request");
				pending = std::string(input.view()); // Changes of the input are kept like in the real server
				return;
			}
			if (reaction == Bomba::ServerReaction::DISCONNECT) {
				// Response with disconnection afterwards consumes the message
				disconnected = true;
				if (output.size() != before) responseEnds.push_back(output.size());
				return;
			}
			if (reaction != Bomba::ServerReaction::OK) fail("the server returned a reaction it may not return");
			if (consumed <= 0) fail("the server claims to have processed a message with no bytes");
			if (size_t(consumed) > pending.size()) fail("the server consumed more than it received");
			responseEnds.push_back(output.size());
			consumedSizes.push_back(consumed);
			pending = std::string(input.view().substr(consumed));
			if (pending.empty()) return;
		}
	}
};

struct NoMoreData : std::runtime_error { using std::runtime_error::runtime_error; };

// Client side of the connection; the server's responses arrive when the client waits or when arrive() is called
struct ClientConnection : Bomba::ITcpClient {
	Src& src;
	std::string inbound; // Everything sent by the server so far
	size_t arrived = 0;
	size_t consumed = 0;
	std::map<uint32_t, std::string> stored;
	int64_t waits = 0;
	std::string written;

	ClientConnection(Src& src) : src(src) {}

	void writeRequest(std::span<char> w) override { written.append(w.data(), w.size()); }

	// To be called when the client waits for data and none is underway
	virtual bool produce() { return false; }

	void arrive() {
		arrived += segment(src, inbound.size() - arrived);
	}
	using Reader = Bomba::Callback<std::tuple<Bomba::ServerReaction, Bomba::RequestToken, int64_t>(std::span<char> input, bool identified)>;

	void getResponse(Bomba::RequestToken token, Reader reader) override { search(token, reader, true); }
	void tryToGetResponse(Bomba::RequestToken token, Reader reader) override { search(token, reader, false); }

	void search(Bomba::RequestToken token, Reader& reader, bool wait) {
		using Bomba::ServerReaction;
		auto found = stored.find(token.id);
		if (found != stored.end()) {
			Exact copy(found->second);
			if (wait) stored.erase(found);
			auto [reaction, got, size] = reader(copy.span(), true);
			require(reaction != ServerReaction::READ_ON, "a complete response is claimed to be incomplete");
			return;
		}
		while (true) {
			while (arrived > consumed) {
				Exact input(std::string_view(inbound).substr(consumed, arrived - consumed));
				auto [reaction, got, size] = reader(input.span(), false);
				if (reaction == ServerReaction::DISCONNECT) return;
				if (reaction == ServerReaction::READ_ON) break;
				require(size > 0 && size_t(size) <= arrived - consumed, "the client consumed a wrong number of bytes");
				if (reaction == ServerReaction::WRONG_REPLY || !wait) {
					require(reaction != ServerReaction::WRONG_REPLY || got.id != token.id, "WRONG_REPLY with the right token");
					stored[got.id] = inbound.substr(consumed, size);
				}
				consumed += size;
				if (reaction == ServerReaction::OK) return;
			}
			if (!wait) return;
			waits++;
			if (arrived == inbound.size() && !produce()) throw NoMoreData("waiting for a response that never comes");
			arrive();
		}
	}
};

// Connected to a server session in the same process
struct Pipe : ClientConnection {
	Feeder server;
	std::string outbound; // Written by the client, not yet received by the server
	size_t outputTaken = 0;
	bool lazy; // The server doesn't process the request before the client waits
	std::string allRequests;
	std::vector<size_t> requestStarts;

	Pipe(Src& src, Bomba::ITcpResponder& session) : ClientConnection(src), server(session), lazy(src.coin()) {}

	void serverReceives() {
		size_t size = segment(src, outbound.size());
		std::string part = outbound.substr(0, size);
		outbound.erase(0, size);
		server.receive(part);
		inbound.append(server.output, outputTaken);
		outputTaken = server.output.size();
	}
	void writeRequest(std::span<char> written) override {
		require(!written.empty(), "wrote an empty request");
		requestStarts.push_back(allRequests.size());
		allRequests.append(written.data(), written.size());
		outbound.append(written.data(), written.size());
		while (!lazy && !outbound.empty() && !server.disconnected) serverReceives();
	}
	bool produce() override {
		while (arrived == inbound.size()) {
			if (outbound.empty() || server.disconnected) return false;
			serverReceives();
		}
		return true;
	}
	void flush() {
		while (!outbound.empty() && !server.disconnected) serverReceives();
	}
	// Has the response to the index-th request arrived?
	bool responseArrived(size_t index) {
		return server.responseEnds.size() > index && server.responseEnds[index] <= arrived;
	}
};

} // namespace transport
