// Buffering of received data by the TCP server
#include "engine.hpp"
#include "bomba_tcp_server.hpp"
using namespace pbt;

// C16: A session sees exactly the unprocessed part of the stream
struct StreamSession : Bomba::ITcpServerSession {
	Src& src;
	std::string stream; // Everything that was received
	size_t consumed = 0;
	int parsed = 0, ok = 0;
	size_t feeds = 0;
	bool disconnected = false;
	size_t disconnectAt;
	StreamSession(Src& src) : src(src) {}

	// Messages are 2 bytes of size and content of that size
	std::pair<Bomba::ServerReaction, int> feedToResponder(std::span<char> data) override {
		require(!disconnected, "data given to a session that disconnected");
		feeds++;
		std::string_view expected = std::string_view(stream).substr(consumed);
		if (data.size() != expected.size()) fail("the session was given " + std::to_string(data.size()) + " bytes instead of " + std::to_string(expected.size()) + " unprocessed bytes");
		if (memcmp(data.data(), expected.data(), expected.size()))
			for (size_t i = 0; i < expected.size(); i++) if (expected[i] != data[i]) fail("the session was given wrong data at byte " + std::to_string(i) + " of " + std::to_string(expected.size()));
		if (consumed >= disconnectAt) { disconnected = true; return {Bomba::ServerReaction::DISCONNECT, 0}; }
		if (expected.size() < 2) return {Bomba::ServerReaction::READ_ON, 0};
		size_t size = 2 + uint8_t(expected[0]) * 256u + uint8_t(expected[1]);
		if (expected.size() < size) return {Bomba::ServerReaction::READ_ON, 0};
		consumed += size;
		ok++;
		return {Bomba::ServerReaction::OK, int(size)};
	}
	void notifyMessageWasParsed() override { parsed++; }
};

static void buffering(Src& src) {
	// The messages, their number and sizes are biased to the size of the buffer
	std::string all;
	int messages = int(src.range(1, 14));
	u64 seed = src.raw(0xffff);
	std::string sizes;
	size_t style = src.raw(4);
	for (int i = 0; i < messages; i++) {
		size_t size = 0;
		switch (style == 4 ? src.raw(3) : style) {
			case 0: size = src.length(60); break;
			case 1: size = src.length(5000); break;
			case 2: size = size_t(src.pick({1022, 1023, 1024, 2045, 2046, 2047, 3068, 3069, 3070, 3071, 4094, 5118, 6140, 6142, 6143}) + src.range(-2, 2)); break;
			default: size = src.chance(1, 3) ? src.length(60000) : src.length(3000); break;
		}
		sizes += std::to_string(size) + " ";
		all += char(size / 256); all += char(size % 256);
		for (size_t j = 0; j < size; j++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; all += char(seed >> 40); }
	}
	StreamSession session(src);
	session.disconnectAt = src.chance(1, 6) ? src.raw(all.size()) : ~size_t(0);
	auto buffer = std::make_unique<Bomba::TcpServerBuffer>();
	size_t most = src.pick({size_t(1 << 20), size_t(1 << 20), size_t(2000), size_t(700), size_t(50)});
	most = std::max(most, all.size() / 2000 + 1);
	std::string segments; src.note("messages of sizes " + sizes);
	size_t at = 0, receives = 0;
	bool finished = false, failing = src.chance(1, 5);
	auto check = [&] {
		requireEqual(session.ok, session.parsed, "notifications of parsed messages");
	};
	while (at < all.size()) {
		std::span<char> space = buffer->space();
		require(!space.empty(), "no space to receive more data");
		memset(space.data(), '#', space.size()); // Everything in it may be overwritten
		size_t size = std::min({space.size(), all.size() - at, most});
		switch (src.raw(3)) {
			case 0: case 1: break;
			case 2: size = 1 + src.raw(size - 1); break;
			default: size = 1 + src.raw(std::min<size_t>(size, 20) - 1); break;
		}
		memcpy(space.data(), all.data() + at, size);
		session.stream.append(all, at, size);
		at += size;
		receives++;
		segments += std::to_string(size) + " ";
		size_t feedsBefore = session.feeds;
		bool more = buffer->receive(session, {}, int(size));
		require(session.feeds > feedsBefore, "data were received, but not given to the session");
		check();
		requireEqual(!session.disconnected, more, "result of receiving");
		if (!more) { finished = true; break; }
		// All that could be processed is
		size_t pending = session.stream.size() - session.consumed;
		if (pending >= 2) {
			size_t first = 2 + uint8_t(session.stream[session.consumed]) * 256u + uint8_t(session.stream[session.consumed + 1]);
			require(pending < first || session.consumed >= session.disconnectAt, "a complete message was not processed");
		}
		if (failing && src.chance(1, 10)) break;
	}
	if (!finished) {
		size_t feedsBefore = session.feeds;
		bool more = src.coin() ? buffer->receive(session, {}, 0) : buffer->receive(session, std::make_error_code(std::errc::connection_reset), src.coin() ? 0 : int(src.raw(10)));
		require(!more, "the communication is expected to continue after its end");
		requireEqual(feedsBefore, session.feeds, "number of times data was given to the session after the end of stream");
		if (at == all.size()) requireEqual(messages, session.parsed, "number of parsed messages");
	}
	src.note("segments " + segments);
	src.labelIf(all.size() > 3072, "more than the buffer"); src.labelIf(session.disconnected, "disconnected"); src.labelIf(receives > 20, "over 20 segments");
	src.nontrivial = receives > 2 && messages > 1;
}

PBT_MAIN({"buffering", buffering, 60000, 1500000})
