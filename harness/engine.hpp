// A small property-based testing engine: every random choice is a recorded draw ("choice sequence"),
// so that any failure (exception, sanitizer report, signal, hang) can be shrunk and replayed.
// Cases run in forked workers; the choice sequence of the running case is in shared memory, so it
// survives crashes. The number of cases is fixed per tier: a run is a pure function of code and seed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <string_view>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <iostream>
#include <limits>
#include <span>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace pbt {

using u64 = uint64_t;

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

inline u64 mix(u64 x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
inline u64 hashBytes(std::string_view s, u64 h = 1469598103934665603ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return mix(h);
}

constexpr int MAX_CHOICES = 60000;
constexpr int MAX_LABELS = 96;
constexpr int MAX_WORKERS = 16;
constexpr int HASH_SLOTS = 1 << 20;
constexpr int MAX_SAMPLES = 6;

struct Recording { // in shared memory
	std::atomic<int> count;
	std::atomic<int64_t> caseIndex;
	std::atomic<int64_t> evaluations, discards, nontrivial;
	u64 choices[MAX_CHOICES];
	char failure[4096];
};
struct Shared {
	Recording workers[MAX_WORKERS];
	std::atomic<int> labelCount;
	struct Label { std::atomic<int> state; char name[56]; std::atomic<int64_t> count; } labels[MAX_LABELS];
	std::atomic<u64> hashes[HASH_SLOTS];
	std::atomic<int64_t> distinct;
	std::atomic<int> sampleCount;
	char samples[MAX_SAMPLES][1600];
};
inline Shared* shared = nullptr;

struct Dictionary {
	std::vector<std::string> strings;
	std::vector<int64_t> numbers;
	static Dictionary& get() {
		static Dictionary d = [] {
			Dictionary d;
			const char* fn = getenv("PBT_DICT");
			if (fn) {
				std::ifstream in(fn);
				std::string line;
				auto unhex = [] (const std::string& h) {
					std::string r;
					for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16));
					return r;
				};
				while (std::getline(in, line)) {
					if (line.size() < 2) continue;
					if (line[0] == 's') d.strings.push_back(unhex(line.substr(2)));
					else d.numbers.push_back(std::stoll(line.substr(2)));
				}
			}
			if (d.strings.empty()) d.strings.push_back("true");
			if (d.numbers.empty()) d.numbers.push_back(0);
			return d;
		}();
		return d;
	}
};

inline std::string printable(std::string_view s, size_t limit = 300) {
	std::string r;
	for (unsigned char c : s.substr(0, limit)) {
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
		else if (c == '\\') r += "\\\\";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
		else r += char(c);
	}
	if (s.size() > limit) r += "...(" + std::to_string(s.size()) + " bytes)";
	return r;
}

class Src {
	Recording& _rec;
	bool _replay;
	std::vector<u64> _fixed;
	size_t _pos = 0;
	u64 _state;
	bool _forced = false;
public:
	std::string description;
	bool nontrivial = false;
	u64 identity = 1469598103934665603ull;
	bool wantDescription = false;
	int noteFd = -1; // if set, notes are written at once, to survive crashes

	Src(Recording& rec, u64 seed) : _rec(rec), _replay(false), _state(seed) { _rec.count = 0; }
	Src(Recording& rec, const std::vector<u64>& fixed) : _rec(rec), _replay(true), _fixed(fixed), _state(0) { _rec.count = 0; }

	// uniform in [0, max]; 0 is the simplest
	u64 raw(u64 max) {
		u64 got;
		if (_replay) {
			got = _pos < _fixed.size() ? _fixed[_pos] : 0;
			_pos++;
			if (got > max) got = max == ~0ull ? got : got % (max + 1);
		} else {
			_state += 0x9e3779b97f4a7c15ull;
			u64 r = mix(_state);
			got = max == ~0ull ? r : r % (max + 1);
		}
		int at = _rec.count.load(std::memory_order_relaxed);
		if (at < MAX_CHOICES) {
			_rec.choices[at] = got;
			_rec.count.store(at + 1, std::memory_order_relaxed);
		} else throw Discard{};
		identity = (identity ^ got) * 1099511628211ull;
		return got;
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(raw(u64(hi) - u64(lo))); }
	bool coin() { return raw(1); }
	bool chance(int num, int den) { return raw(den - 1) >= u64(den - num); } // true with num/den, shrinks to false
	template <typename C> auto& pick(C& c) { return c[raw(std::size(c) - 1)]; }
	template <typename C> const auto& pick(const C& c) { return c[raw(std::size(c) - 1)]; }
	template <typename T> T pick(std::initializer_list<T> c) { return *(c.begin() + raw(c.size() - 1)); }

	const std::string& dictString() { return pick(Dictionary::get().strings); }
	int64_t dictNumber() { return pick(Dictionary::get().numbers) + int64_t(raw(2)) - 1; }

	// integers biased to boundaries
	int64_t integer(int64_t lo = INT64_MIN, int64_t hi = INT64_MAX) {
		int64_t v;
		switch (raw(7)) {
			case 0: v = range(0, 20); break;
			case 1: v = -range(0, 20); break;
			case 2: { // near powers of two
				int bits = range(0, 63);
				v = int64_t((1ull << bits) + u64(range(-2, 2)));
				if (coin()) v = int64_t(0 - u64(v));
				break;
			}
			case 3: { // near powers of ten
				int digits = range(0, 18);
				int64_t p = 1; while (digits--) p *= 10;
				v = p * range(1, 9) + range(-1, 1);
				if (coin()) v = int64_t(0 - u64(v));
				break;
			}
			case 4: v = dictNumber(); break;
			case 5: v = pick({lo, hi, int64_t(u64(lo) + 1), int64_t(u64(hi) - 1)}); break;
			default: v = int64_t(raw(~0ull)) >> range(0, 63); break;
		}
		if (v < lo || v > hi) {
			u64 span = u64(hi) - u64(lo);
			v = span == ~0ull ? v : lo + int64_t(u64(v) % (span + 1));
		}
		return v;
	}
	double real() { // finite
		double v;
		switch (raw(8)) {
			case 0: v = double(range(-20, 20)); break;
			case 1: v = double(range(-2000, 2000)) / 8; break;
			case 2: v = double(integer()); break;
			case 3: v = std::ldexp(double(range(1, 1 << 20)), int(range(-1074, 1000))); break;
			case 4: v = pick({0.1, -0.0, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.30000000000000004, 1e21, 1e22, 123456789012345680.0, 1e15, 1e16, 1e17, -1e-5, 1e-7}); break;
			case 5: { u64 bits = raw(~0ull); memcpy(&v, &bits, 8); break; }
			case 6: v = double(float(range(-1000000, 1000000)) / 1000.0f); break;
			case 7: v = double(range(-99999, 99999)) / 100; break;
			default: v = std::ldexp(double(int64_t(raw(~0ull))), -int(range(0, 90))); break;
		}
		if (!std::isfinite(v)) v = 1.5;
		return v;
	}
	size_t length(size_t max) {
		static const size_t bounds[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 22, 23, 24, 30, 31, 32, 33, 60, 63, 64, 65, 100, 120, 126, 127, 128, 129,
			200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 1500, 1535, 1536, 1537, 2046, 2047, 2048, 2049, 2050, 3000, 3071, 3072, 3073, 4000,
			4095, 4096, 4097, 6143, 6144, 6145, 8191, 8192, 8193, 12287, 12288, 12289, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537};
		size_t n;
		switch (raw(5)) {
			case 0: case 1: case 2: n = raw(std::min<size_t>(max, 12)); break;
			case 3: n = pick(bounds); break;
			case 4: { int64_t d = dictNumber(); n = d < 0 ? 0 : size_t(std::min<int64_t>(d, 1 << 20)); break; }
			default: n = raw(std::min<size_t>(max, 1 << raw(12))); break;
		}
		return n > max ? raw(std::min<size_t>(max, 40)) : n;
	}
	// Sizes of large data, mostly around powers of 2 and 10
	size_t largeSize(size_t most) {
		double limit = std::log2(double(most));
		size_t size = 1;
		switch (raw(2)) {
			case 0: size = size_t(1) << raw(u64(limit)); break;
			case 1: for (int i = int(raw(u64(limit / 3.33))); i > 0; i--) size *= 10; break;
			default: size = raw((u64(1) << raw(u64(limit))) - 1); break;
		}
		return std::min<size_t>(most, size + raw(4) > 2 ? size + raw(4) - 2 : size);
	}
	static void appendUtf8(std::string& s, uint32_t c) {
		if (c < 0x80) s += char(c);
		else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 0x3f)); }
		else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | ((c >> 6) & 0x3f)); s += char(0x80 | (c & 0x3f)); }
		else { s += char(0xf0 | c >> 18); s += char(0x80 | ((c >> 12) & 0x3f)); s += char(0x80 | ((c >> 6) & 0x3f)); s += char(0x80 | (c & 0x3f)); }
	}
	enum Text { BYTES, UTF8, ASCII, IDENT };
	// A long text made of few choices
	std::string bulk(Text kind, size_t most) {
		size_t size = largeSize(most);
		std::string part = text(kind, 60), s;
		s.reserve(size);
		for (int i = 0; s.size() + part.size() + 12 < size; i++) { s += part; s += std::to_string(i); }
		while (s.size() < size) s += char('a' + s.size() % 26);
		return s;
	}
	void character(std::string& s, Text kind) {
		switch (kind) {
			case IDENT: s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[raw(62)]; break;
			case ASCII: s += char(32 + (raw(94) + 'a' - 32) % 95); break;
			case BYTES: s += char((raw(255) + 'a') & 0xff); break;
			case UTF8:
				switch (raw(7)) {
					case 0: case 1: s += char('a' + raw(25)); break;
					case 2: s += char(32 + raw(94)); break;
					case 3: s += "\"\\/&=+%;:,{}[]#?. \n\r\t\b\f<>'()-0123456789"[raw(40)]; break;
					case 4: s += char(raw(127)); break;
					case 5: appendUtf8(s, uint32_t(range(0x80, 0x7ff))); break;
					case 6: { uint32_t c = uint32_t(range(0x800, 0xffff)); if (c >= 0xd800 && c < 0xe000) c -= 0x800; appendUtf8(s, c); break; }
					default: {
						static const uint32_t edge[] = {0x7f, 0x80, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2028, 0};
						appendUtf8(s, pick(edge));
					}
				}
		}
	}
	std::string text(Text kind, size_t max = 4200) {
		std::string s;
		if (kind != IDENT && max > 3 && chance(1, 8)) {
			const std::string& d = dictString();
			bool ok = true;
			for (unsigned char c : d) if (c >= 128 || (kind == ASCII && (c < 32 || c > 126))) ok = false;
			if (ok && d.size() <= max) s = d;
			if (!coin()) return s;
		}
		size_t n = length(max);
		if (n > 24) {
			// long: a few distinct drawn pieces, repeated pseudorandomly under a drawn seed
			u64 seed = raw(0xffff);
			std::vector<std::string> pieces;
			int count = int(range(1, 6));
			for (int i = 0; i < count; i++) { pieces.emplace_back(); character(pieces.back(), kind); }
			while (s.size() < n) {
				seed = mix(seed);
				const std::string& p = pieces[seed % pieces.size()];
				if (s.size() + p.size() > n) s += 'z'; else s += p;
			}
			if (s.size() > max) s.resize(n);
		} else
			for (size_t i = 0; i < n && s.size() < max; i++) character(s, kind);
		return s;
	}
	template <typename C> void shuffle(C& c) {
		for (size_t i = c.size(); i > 1; i--) {
			size_t j = size_t(raw(i - 1));
			std::swap(c[i - 1], c[i - 1 - j]); // zero draws keep the order
		}
	}

	void label(const std::string& name) {
		for (int i = 0; i < MAX_LABELS; i++) {
			auto& l = shared->labels[i];
			int state = l.state.load();
			if (state == 0) {
				int expected = 0;
				if (l.state.compare_exchange_strong(expected, 1)) {
					snprintf(l.name, sizeof(l.name), "%s", name.c_str());
					l.state = 2;
				}
			}
			while (l.state == 1) {}
			if (name.substr(0, sizeof(l.name) - 1) == l.name) { l.count++; return; }
		}
	}
	void labelIf(bool cond, const char* name) { if (cond) label(name); }
	void note(const std::string& s) { if (wantDescription && description.size() < 20000) { description += s; description += '\n'; }
		if (noteFd >= 0) { std::string l = s + "\n"; if (write(noteFd, l.data(), l.size())) {} } }
};

[[noreturn]] inline void fail(const std::string& what) { throw Failure(what); }
inline void require(bool cond, const char* what) { if (!cond) throw Failure(what); }
template <typename F> inline void requireF(bool cond, F&& describe) { if (!cond) throw Failure(describe()); }
template <typename A, typename B> void requireEqual(const A& expected, const B& got, const std::string& what) {
	if (expected == got) return;
	std::ostringstream s;
	if constexpr(std::is_convertible_v<A, std::string_view> && std::is_convertible_v<B, std::string_view>)
		s << what << ": expected \"" << printable(std::string_view(expected)) << "\", got \"" << printable(std::string_view(got)) << '"';
	else if constexpr(requires { s << expected; s << got; })
		s << what << ": expected " << expected << ", got " << got;
	else s << what << ": differs";
	throw Failure(s.str());
}

struct Test {
	std::string name;
	std::function<void(Src&)> body;
	int64_t quick, thorough; // numbers of cases
	bool racy = false; // depends on scheduling, a failure need not reproduce every time
	int cpuLimit = 20;
	int wallLimit = 0; // for tests that may block
};

struct Runner {
	std::vector<Test> tests;
	u64 seed = 1;
	bool thorough = false;
	int workers = 8;
	double scale = 1;

	static std::string jsonString(std::string_view s) {
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}

	static Recording*& current() { static Recording* r = nullptr; return r; }
	static void onAlarm(int) {
		if (current()) snprintf(current()->failure, sizeof(current()->failure), "Hang: the case did not finish within its time limit");
		_exit(77);
	}

	// Runs one case in this process; returns true if passed
	static bool runCase(const Test& test, Src& src, Recording& rec) {
		rec.failure[0] = 0;
		current() = &rec;
		itimerval t{}; t.it_value.tv_sec = test.cpuLimit;
		setitimer(ITIMER_PROF, &t, nullptr);
		if (test.wallLimit) { itimerval w{}; w.it_value.tv_sec = test.wallLimit; setitimer(ITIMER_REAL, &w, nullptr); }
		auto done = [&] {
			itimerval z{};
			setitimer(ITIMER_PROF, &z, nullptr);
			if (test.wallLimit) setitimer(ITIMER_REAL, &z, nullptr);
		};
		try {
			test.body(src);
			done();
		} catch (Discard&) {
			done();
			rec.discards++;
		} catch (std::exception& e) {
			done();
			int status = 0;
			char* name = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
			if (dynamic_cast<Failure*>(&e)) snprintf(rec.failure, sizeof(rec.failure), "%s", e.what());
			else snprintf(rec.failure, sizeof(rec.failure), "Unexpected exception %s: %s", name ? name : "?", e.what());
			free(name);
			return false;
		} catch (...) {
			done();
			snprintf(rec.failure, sizeof(rec.failure), "Unexpected exception of unknown type");
			return false;
		}
		return true;
	}

	static void childSetup(const std::string& errFile) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		signal(SIGPROF, onAlarm);
		signal(SIGALRM, onAlarm);
		int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd >= 0) { dup2(fd, 2); if (!getenv("PBT_STDOUT")) dup2(fd, 1); close(fd); }
	}
	static std::string crashReport(int status, Recording& rec, const std::string& errFile) {
		if (rec.failure[0]) return rec.failure;
		std::ifstream in(errFile);
		std::string line, summary;
		while (std::getline(in, line)) {
			if (line.find("ERROR: AddressSanitizer") != line.npos || line.find("SUMMARY:") != line.npos || line.find("terminate called") != line.npos
						|| line.find("what():") != line.npos || line.find("WARNING: ThreadSanitizer") != line.npos)
				summary += line + " | ";
			else if (line.find("    #") == 0 && line.find("bomba_") != line.npos && summary.size() < 1500)
				summary += line.substr(4) + " | ";
		}
		std::string how = WIFSIGNALED(status) ? "Killed by signal " + std::to_string(WTERMSIG(status)) : "Exited with code " + std::to_string(WEXITSTATUS(status));
		return how + ": " + summary.substr(0, 3000);
	}

	std::string scratch;

	// Runs one replay in a forked child; returns failure message or empty
	std::string replayOnce(const Test& test, const std::vector<u64>& choices, std::vector<u64>* recorded = nullptr, std::string* description = nullptr) {
		Recording& rec = shared->workers[MAX_WORKERS - 1];
		std::string errFile = scratch + "/replay.err";
		std::string descFile = scratch + "/replay.desc";
		rec.failure[0] = 0;
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			childSetup(errFile);
			Src src(rec, choices);
			src.wantDescription = bool(description);
			if (description) src.noteFd = open(descFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			bool passed = runCase(test, src, rec);
			_exit(passed ? 0 : 78);
		}
		int status = 0;
		waitpid(pid, &status, 0);
		kill(-pid, SIGKILL);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
		if (recorded) recorded->assign(rec.choices, rec.choices + rec.count.load());
		if (description) { std::ifstream in(descFile); std::stringstream s; s << in.rdbuf(); *description = s.str(); unlink(descFile.c_str()); }
		std::string r = crashReport(status, rec, errFile);
		return r.empty() ? "Failed without a message" : r;
	}

	struct Found { std::string test, message, description; std::vector<u64> choices; bool reproducible = false; };

	std::chrono::steady_clock::time_point started = std::chrono::steady_clock::now();
	int elapsed() const { return int(std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - started).count()); }

	void shrink(const Test& test, Found& found, int budget) {
		// Cases failing by waiting for something take long
		int until = thorough ? elapsed() + 600 : std::min(elapsed() + 90, 600);
		auto attempt = [&] (const std::vector<u64>& candidate) {
			if (elapsed() >= until) budget = 0;
			if (budget <= 0) return false;
			budget--;
			std::vector<u64> recorded;
			std::string message = replayOnce(test, candidate, &recorded);
			if (message.empty()) return false;
			if (message.find("Hang") == 0 && found.message.find("Hang") != 0) return false;
			bool better = recorded.size() < found.choices.size() || (recorded.size() == found.choices.size() && recorded < found.choices);
			if (!better) return false;
			found.choices = recorded;
			found.message = message;
			return true;
		};
		bool progress = true;
		while (progress && budget > 0) {
			progress = false;
			for (size_t chunk = std::max<size_t>(1, found.choices.size() / 2); chunk >= 1; chunk /= 2) {
				for (size_t i = 0; i + chunk <= found.choices.size() && budget > 0;) {
					auto c = found.choices;
					c.erase(c.begin() + i, c.begin() + i + chunk);
					if (attempt(c)) progress = true; else i += chunk;
				}
				if (chunk == 1) break;
			}
			for (size_t i = 0; i < found.choices.size() && budget > 0; i++) {
				if (!found.choices[i]) continue;
				auto c = found.choices;
				c[i] = 0;
				if (attempt(c)) { progress = true; continue; }
				u64 lo = 0, hi = i < found.choices.size() ? found.choices[i] : 0; // lo passes, hi fails
				while (lo + 1 < hi && budget > 0) {
					u64 mid = lo + (hi - lo) / 2;
					c = found.choices;
					if (i >= c.size()) break;
					c[i] = mid;
					if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
				}
			}
		}
	}

	bool runTest(const Test& test, std::vector<Found>& failures, std::string& json) {
		memset(static_cast<void*>(shared), 0, sizeof(Shared));
		int64_t total = std::max<int64_t>(1, int64_t(double(thorough ? test.thorough : test.quick) * scale));
		int count = int(std::min<int64_t>(workers, total));
		std::vector<pid_t> pids;
		timeval begin; gettimeofday(&begin, nullptr);
		fflush(stdout); fflush(stderr);
		for (int w = 0; w < count; w++) {
			pid_t pid = fork();
			if (pid == 0) {
				childSetup(scratch + "/worker" + std::to_string(w) + ".err");
				Recording& rec = shared->workers[w];
				for (int64_t i = w; i < total; i += count) {
					rec.caseIndex = i;
					Src src(rec, mix(seed * 1000003 + hashBytes(test.name)) ^ mix(u64(i)));
					src.wantDescription = i < 40;
					bool ok = runCase(test, src, rec);
					rec.evaluations++;
					if (!ok) _exit(78);
					if (src.nontrivial) {
						rec.nontrivial++;
						u64 h = src.identity | 1;
						for (size_t slot = h % HASH_SLOTS, tries = 0; tries < 64; slot = (slot + 1) % HASH_SLOTS, tries++) {
							u64 expected = 0;
							if (shared->hashes[slot].compare_exchange_strong(expected, h)) { shared->distinct++; break; }
							if (expected == h) break;
						}
						if (src.wantDescription && !src.description.empty()) {
							int s = shared->sampleCount++;
							if (s < MAX_SAMPLES) snprintf(shared->samples[s], sizeof(shared->samples[s]), "%s", src.description.substr(0, 1500).c_str());
						}
					}
				}
				_exit(0);
			}
			pids.push_back(pid);
		}
		bool failed = false;
		Found found;
		for (int left = count; left > 0; left--) {
			int status = 0;
			pid_t pid = waitpid(-1, &status, 0);
			int w = int(std::find(pids.begin(), pids.end(), pid) - pids.begin());
			if (w == count) { left++; continue; }
			kill(-pid, SIGKILL); // leftovers of the worker
			pids[w] = 0;
			if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && !failed) {
				failed = true;
				Recording& rec = shared->workers[w];
				found.test = test.name;
				found.choices.assign(rec.choices, rec.choices + rec.count.load());
				found.message = crashReport(status, rec, scratch + "/worker" + std::to_string(w) + ".err");
				found.message += " [case " + std::to_string(rec.caseIndex.load()) + "]";
				for (pid_t p : pids) if (p) { kill(p, SIGKILL); kill(-p, SIGKILL); }
			}
		}
		timeval end; gettimeofday(&end, nullptr);
		int64_t evaluations = 0, discards = 0, nontrivial = 0;
		for (int w = 0; w < count; w++) {
			evaluations += shared->workers[w].evaluations; discards += shared->workers[w].discards; nontrivial += shared->workers[w].nontrivial;
		}
		std::ostringstream out;
		out << "{\"test\": " << jsonString(test.name) << ", \"evaluations\": " << evaluations << ", \"discarded\": " << discards
			<< ", \"nontrivial\": " << nontrivial << ", \"distinct_nontrivial\": " << shared->distinct
			<< ", \"seconds\": " << (end.tv_sec - begin.tv_sec + (end.tv_usec - begin.tv_usec) / 1e6) << ", \"labels\": {";
		for (int i = 0, n = 0; i < MAX_LABELS; i++) if (shared->labels[i].state == 2)
			out << (n++ ? ", " : "") << jsonString(shared->labels[i].name) << ": " << shared->labels[i].count;
		out << "}, \"samples\": [";
		for (int i = 0; i < std::min<int>(MAX_SAMPLES, shared->sampleCount); i++)
			out << (i ? ", " : "") << jsonString(shared->samples[i]);
		out << "]}";
		json = out.str();
		if (failed) {
			int tries = test.racy ? 20 : 3, reproduced = 0;
			for (int i = 0; i < tries && reproduced < (test.racy ? 1 : 3); i++) {
				if (reproduced && !thorough && elapsed() > 600) { reproduced = 3; break; } // There must be an answer
				std::string message = replayOnce(test, found.choices);
				if (!message.empty()) { reproduced++; if (!test.racy) found.message = message; }
				else if (!test.racy) break;
			}
			found.reproducible = test.racy ? reproduced > 0 : reproduced == 3;
			if (found.reproducible) {
				if (!test.racy) {
					shrink(test, found, found.message.find("Hang") == 0 ? 25 : 1500);
				}
				std::string message = replayOnce(test, found.choices, nullptr, &found.description);
				if (!message.empty()) found.message = message;
			}
			failures.push_back(found);
		}
		return !failed;
	}

	int main(int argc, char** argv) {
		// usage: prog OUT.json [--tier T] [--seed N] [--only NAME] [--replay TEST FILE-with-choices] [--scale X] [--workers N]
		std::string outFile, only, replayTest, replayFile;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") thorough = next() == "thorough";
			else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
			else if (a == "--only") only = next();
			else if (a == "--scale") scale = std::stod(next());
			else if (a == "--workers") workers = std::stoi(next());
			else if (a == "--replay") { replayTest = next(); replayFile = next(); }
			else outFile = a;
		}
		workers = std::min(workers, MAX_WORKERS - 1);
		Dictionary::get();
		signal(SIGPIPE, SIG_DFL);
		shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		char dir[] = "/tmp/pbtXXXXXX";
		if (!mkdtemp(dir)) { perror("mkdtemp"); return 2; }
		scratch = dir;
		setenv("PBT_SCRATCH", dir, 1);
		std::vector<Found> failures;
		std::vector<std::string> results;
		if (!replayTest.empty()) {
			std::vector<u64> choices;
			std::ifstream in(replayFile);
			u64 v; while (in >> v) choices.push_back(v);
			for (auto& t : tests) if (t.name == replayTest) {
				Found f; f.test = t.name; f.choices = choices;
				f.message = replayOnce(t, choices, nullptr, &f.description);
				for (int i = 0; t.racy && i < 20 && f.message.empty(); i++) f.message = replayOnce(t, choices, nullptr, &f.description);
				f.reproducible = true;
				if (!f.message.empty()) failures.push_back(f);
			}
		} else for (auto& t : tests) {
			if (!only.empty() && only != t.name) continue;
			if (!failures.empty() && !thorough && elapsed() > 300) continue; // It already failed
			std::string json;
			runTest(t, failures, json);
			results.push_back(json);
		}
		std::ofstream out(outFile.empty() ? "/dev/stdout" : outFile);
		out << "{\"tests\": [";
		for (size_t i = 0; i < results.size(); i++) out << (i ? ",\n" : "\n") << results[i];
		out << "],\n\"failures\": [";
		for (size_t i = 0; i < failures.size(); i++) {
			auto& f = failures[i];
			out << (i ? ",\n" : "\n") << "{\"test\": " << jsonString(f.test) << ", \"message\": " << jsonString(f.message)
				<< ", \"case\": " << jsonString(f.description.substr(0, 6000)) << ", \"reproducible\": " << (f.reproducible ? "true" : "false") << ", \"choices\": [";
			for (size_t j = 0; j < f.choices.size(); j++) out << (j ? "," : "") << f.choices[j];
			out << "]}";
		}
		out << "]}\n";
		out.close();
		std::string cleanup = "rm -rf " + scratch;
		if (scratch.find("/tmp/pbt") == 0 && system(cleanup.c_str())) {}
		return failures.empty() ? 0 : 1;
	}
};

} // namespace pbt

#define PBT_MAIN(...) int main(int argc, char** argv) { pbt::Runner r; r.tests = { __VA_ARGS__ }; return r.main(argc, argv); }
