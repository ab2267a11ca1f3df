// The buffers all messages are assembled in
#include "engine.hpp"
#include "transport.hpp"
#include "bomba_core.hpp"
using namespace pbt;
using namespace Bomba;

static std::string chunk(Src& src, size_t unit) {
	switch (src.raw(6)) {
		case 0: return std::string(src.raw(3), 'x');
		case 1: return src.text(Src::BYTES, 12);
		case 2: { std::string r(unit, 'u'); for (size_t i = 0; i < r.size(); i++) r[i] = char('a' + i % 26); return r; }
		case 3: { std::string r(unit + src.raw(2) - 1, 'b'); if (!r.empty()) r.back() = 'e'; return r; }
		case 4: { std::string r(unit * (1 + src.raw(4)) + src.raw(3), 0); for (size_t i = 0; i < r.size(); i++) r[i] = char(i * 7 + i / 256); return r; }
		case 5: { std::string r(std::min<size_t>(unit * 40, 40000) , 0); r.resize(src.raw(r.size())); for (size_t i = 0; i < r.size(); i++) r[i] = char(i * 3 + i / 251); return r; }
		default: return src.text(Src::UTF8, 40);
	}
}
// Appends to the buffer in one of the supported ways, returns what was appended
static std::string append(Src& src, GeneralisedBuffer& buffer, size_t unit) {
	switch (src.raw(4)) {
		case 0: { char c = char(src.raw(255)); buffer += c; return {c}; }
		case 1: { transport::Exact data(chunk(src, unit)); buffer += std::span<const char>(data.span()); return std::string(data.view()); }
		case 2: { transport::Exact data(chunk(src, unit)); buffer += data.view(); return std::string(data.view()); }
		case 3: {
			std::string text = chunk(src, unit);
			text = text.substr(0, text.find('\0'));
			std::unique_ptr<char[]> terminated(new char[text.size() + 1]);
			memcpy(terminated.get(), text.c_str(), text.size() + 1);
			const char* start = terminated.get();
			buffer += start;
			return text;
		}
		default: { std::string r; for (size_t i = src.raw(3 + unit % 300); i > 0; i--) { char c = char('A' + i % 57); buffer += c; r += c; } return r; }
	}
}
static std::string view(std::string_view v) { return std::string(v); }
static std::string view(std::span<char> v) { return std::string(v.data(), v.size()); }

template <typename Buffer>
void history(Src& src, size_t unit, size_t limit, Buffer& buffer) {
	std::string expected;
	std::string log;
	size_t clears = 0, appends = 0, most = 0;
	for (int steps = 1 + int(src.raw(25)); steps > 0; steps--) {
		if (src.chance(1, 7)) {
			buffer.clear();
			expected.clear();
			clears++;
			log += "clear ";
		} else {
			std::string added = append(src, buffer, unit);
			expected += added;
			appends++;
			log += std::to_string(added.size()) + " ";
		}
		if (expected.size() > limit) expected.resize(limit);
		most = std::max(most, expected.size());
		requireEqual(expected.size(), size_t(buffer.size()), "size");
		if (src.coin()) {
			const Buffer& constant = buffer;
			std::string_view seen = constant;
			if (view(seen) != expected) fail("the content differs from what was appended: " + printable(seen) + " instead of " + printable(expected));
		}
		if (src.chance(1, 3)) {
			std::span<char> writable = buffer;
			if (view(writable) != expected) fail("the writable content differs from what was appended");
			if (!writable.empty() && src.coin()) { // Messages whose size is filled in afterwards
				size_t at = src.raw(writable.size() - 1);
				writable[at] = expected[at] = char(src.raw(255));
			}
		}
	}
	std::string_view seen = buffer;
	if (view(seen) != expected) fail("the final content differs from what was appended");
	src.note(log);
	src.labelIf(clears > 0, "cleared"); src.labelIf(most > unit, "over the static size"); src.labelIf(most > 10 * unit, "over 10 times the static size");
	src.nontrivial = appends > 2 && most > unit / 2;
}

template <typename F>
void withSize(Src& src, const F& f) {
	switch (src.raw(8)) {
		case 0: return f(std::integral_constant<int, 1>());
		case 1: return f(std::integral_constant<int, 2>());
		case 2: return f(std::integral_constant<int, 3>());
		case 3: return f(std::integral_constant<int, 4>());
		case 4: return f(std::integral_constant<int, 7>());
		case 5: return f(std::integral_constant<int, 16>());
		case 6: return f(std::integral_constant<int, 50>());
		case 7: return f(std::integral_constant<int, 100>());
		default: return f(std::integral_constant<int, 1024>());
	}
}

static void expanding(Src& src) {
	withSize(src, [&] <int Size> (std::integral_constant<int, Size>) {
		if (src.coin()) {
			auto buffer = std::make_unique<ExpandingBuffer<Size>>();
			history(src, Size, SIZE_MAX, *buffer);
		} else {
			auto buffer = std::make_unique<ExpandingBuffer<Size, std::vector<char>>>();
			history(src, Size, SIZE_MAX, *buffer);
		}
	});
}
static void fixed(Src& src) {
	withSize(src, [&] <int Size> (std::integral_constant<int, Size>) {
		auto buffer = std::make_unique<NonExpandingBuffer<Size>>();
		history(src, Size, Size, *buffer);
	});
}

template <int Size>
struct Remembering : StreamingBuffer<Size> {
	std::string& written;
	size_t writes = 0;
	int position = 0;
	void flush() override {
		int amount = this->size() - this->_sizeAtLastFlush;
		require(amount >= 0 && amount <= Size, "more in the buffer than it can hold");
		written.append(this->_basic.data(), amount);
		writes++;
	}
	Remembering(std::string& written) : written(written) {}
	~Remembering() { flush(); }
};

static void streaming(Src& src) {
	withSize(src, [&] <int Size> (std::integral_constant<int, Size>) {
		std::string written, expected, log;
		size_t appends = 0, flushes = 0, writes = 0;
		if (src.chance(1, 4)) { // A custom one, like in the documentation
			auto buffer = std::make_unique<Remembering<Size>>(written);
			for (int steps = 1 + int(src.raw(25)); steps > 0; steps--) {
				expected += append(src, *buffer, Size);
				appends++;
				requireEqual(expected.size(), size_t(buffer->size()), "size");
				require(expected.substr(0, written.size()) == written, "other data were written than what was appended");
				require(expected.size() - written.size() < Size, "data stay in a full buffer");
			}
		} else {
			auto writer = [&] (std::span<const char> data) {
				require(!data.empty(), "nothing is written");
				require(data.size() <= Size, "more is written than what the buffer can hold");
				transport::Exact copy({data.data(), data.size()}); // Reads all of it
				written += copy.view();
				writes++;
			};
			auto buffer = std::make_unique<NonOwningStreamingBuffer<Size>>(writer);
			for (int steps = 1 + int(src.raw(25)); steps > 0; steps--) {
				if (src.chance(1, 5)) {
					buffer->flush();
					flushes++;
					log += "flush ";
					require(written == expected, "what was flushed differs from what was appended");
				} else {
					std::string added = append(src, *buffer, Size);
					expected += added;
					appends++;
					log += std::to_string(added.size()) + " ";
				}
				requireEqual(expected.size(), size_t(buffer->size()), "size");
				require(expected.substr(0, written.size()) == written, "other data were written than what was appended");
				require(expected.size() - written.size() < Size, "data stay in a full buffer");
			}
		}
		if (written != expected) fail("what was written differs from what was appended: " + printable(written) + " instead of " + printable(expected));
		src.note(log);
		src.labelIf(flushes > 0, "flushed explicitly"); src.labelIf(writes > 10, "over 10 writes");
		src.nontrivial = appends > 2 && expected.size() > Size;
	});
}

PBT_MAIN({"expanding", expanding, 200000, 3000000}, {"fixed", fixed, 200000, 3000000}, {"streaming", streaming, 200000, 3000000})
