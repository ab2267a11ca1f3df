// File servers. Everything is within a scratch directory and files are only read by the tested code.
#include "transport.hpp"
#include "refhttp.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_download_server.hpp"
#include <atomic>
using namespace pbt;
using namespace transport;
namespace fs = std::filesystem;

struct Scratch {
	fs::path path;
	Scratch() {
		std::string name = std::string(getenv("PBT_SCRATCH")) + "/caseXXXXXX";
		if (!mkdtemp(name.data())) fail("could not create a scratch directory");
		path = name;
	}
	~Scratch() { std::error_code e; fs::remove_all(path, e); }
};
static void writeFile(const fs::path& path, std::string_view content) {
	std::error_code e;
	fs::create_directories(path.parent_path(), e);
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(content.data(), content.size());
	f.close();
	if (!f) fail("could not write a file");
}
static void silence() { std::cout.rdbuf(nullptr); }

static std::string expectedType(std::string_view name) {
	size_t dot = name.rfind('.');
	if (dot == name.npos) return "application/octet-stream";
	std::string ext(name.substr(dot + 1));
	for (char& c : ext) c = char(tolower(c));
	static const std::map<std::string, std::string> known = {{"html", "text/html"}, {"js", "text/javascript"}, {"css", "text/css"}, {"json", "application/json"},
		{"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"png", "image/png"}, {"gif", "image/gif"}, {"ico", "image/vnd.microsoft.icon"}, {"svg", "image/svg+xml"},
		{"bmp", "image/bmp"}, {"ttf", "font/ttf"}, {"gz", "application/gzip"}, {"xml", "application/xml"}};
	auto found = known.find(ext);
	return found == known.end() ? "application/" + ext : found->second;
}
static std::string randomName(Src& src, bool upper) {
	std::string base;
	if (src.chance(1, 4)) base = src.pick({"index", "a", "b", "c", "readme", "api_description"});
	else {
		size_t n = 1 + src.raw(8);
		for (size_t i = 0; i < n; i++) base += char(src.pick({'a', 'b', 'z', 'A', '0', '9', '-', '_', '~', '+', '!', '$', '\'', '(', ')', ',', ';', '=', '@', '&', '\xc3'}));
	}
	static const char* extensions[] = {"html", "js", "css", "json", "jpg", "jpeg", "png", "gif", "ico", "svg", "bmp", "ttf", "gz", "xml", "txt", "wasm", "x", "htm", "h"};
	for (int i = src.chance(1, 8) ? 2 : src.chance(1, 6) ? 0 : 1; i > 0; i--) {
		std::string ext = src.pick(extensions);
		if (upper && src.chance(1, 6)) for (char& c : ext) c = char(toupper(c));
		base += "." + ext;
	}
	return base;
}
static std::string randomContent(Src& src) {
	size_t size;
	switch (src.raw(5)) {
		case 0: size = 0; break;
		case 1: size = 4096 * (1 + src.raw(4)) + src.raw(4) - 2; break;
		case 2: size = src.chance(1, 5) ? 100000 + src.raw(200000) : src.raw(10000); break;
		default: return src.text(Src::BYTES, 300);
	}
	std::string r;
	u64 seed = src.raw(0xffffff);
	r.reserve(size + 8);
	while (r.size() < size) { seed = mix(seed); for (int i = 0; i < 8; i++) r += char(seed >> (8 * i)); }
	r.resize(size);
	return r;
}

template <typename Session> struct Wrapped : Bomba::ITcpResponder {
	Session session;
	Wrapped(Session&& session) : session(std::move(session)) {}
	std::pair<Bomba::ServerReaction, int64_t> respond(std::span<char> input, Bomba::Callback<void(std::span<const char>)> writer) override { return session.respond(input, writer); }
};
template <typename Session> std::shared_ptr<Bomba::ITcpResponder> wrapped(Session&& session) { return std::make_shared<Wrapped<Session>>(std::move(session)); }
struct Server { // behind HTTP
	Bomba::IHttpGetResponder& files;
	struct Nothing : Bomba::RpcObject<Nothing> { Bomba::RpcMember<[] { return 1; }> one = child<"one">; } object;
	std::unique_ptr<Bomba::HttpServer<>> http;
	std::unique_ptr<Bomba::JsonRpcServer<>> json;
	std::shared_ptr<Bomba::ITcpResponder> session;
	std::unique_ptr<Feeder> feeder;
	size_t parsed = 0;
	Server(Src& src, Bomba::IHttpGetResponder& files) : files(files) {
		if (src.coin()) {
			http = std::make_unique<Bomba::HttpServer<>>(files);
			session = wrapped(http->getSession());
		} else {
			json = std::make_unique<Bomba::JsonRpcServer<>>(object, files);
			session = wrapped(json->getSession());
		}
		feeder = std::make_unique<Feeder>(*session);
	}
	refhttp::Message get(std::string_view path) {
		feeder->receive("GET " + std::string(path) + " HTTP/1.1\r\nHost: a\r\n\r\n");
		require(parsed < feeder->output.size(), "no response");
		refhttp::Message m = refhttp::parse(feeder->output, parsed, true);
		requireEqual(feeder->output.size(), parsed, "size of the response");
		require(!feeder->disconnected, "the server disconnected");
		return m;
	}
};

struct Model {
	std::map<std::string, std::string> disk, generated;
	const std::string* find(const std::string& path) const {
		auto found = disk.find(path == "/" ? "/index.html" : path);
		if (found != disk.end()) return &found->second;
		found = generated.find(path);
		return found == generated.end() ? nullptr : &found->second;
	}
};
static void checkGet(Server& server, const Model& model, const std::string& path) {
	refhttp::Message m = server.get(path);
	const std::string* expected = model.find(path);
	if (!expected) { requireEqual(404, m.status, "status of the response to a request of a missing file " + path); return; }
	requireEqual(200, m.status, "status of the response to " + path);
	requireEqual(expected->size(), m.body.size(), "size of " + path);
	if (*expected != m.body) fail("wrong content of " + path);
	const std::string* type = m.header("content-type");
	require(type, "missing content type");
	requireEqual(expectedType(path == "/" ? "/index.html" : path), *type, "content type of " + path);
}
static std::string randomPath(Src& src, bool upper, const Model& model) {
	// A place where a file can be, files are never where directories are because directories have no extension and start with d
	std::string path = "/";
	for (int i = int(src.raw(3)); i > 1; i--) path += "d" + std::string(src.pick({"a", "b", "-x", ""})) + std::to_string(i) + "/";
	if (path == "/" && src.chance(1, 4)) return "/index.html";
	std::string name = randomName(src, upper);
	return path + (name[0] == 'd' ? "e" + name : name);
}
template <typename Files> void fileHistory(Src& src) {
	constexpr bool caching = std::is_same_v<Files, Bomba::CachingFileServer>;
	silence();
	Scratch scratch;
	fs::path root = scratch.path / "root";
	fs::create_directory(root);
	Model disk, served;
	auto store = [&] (const std::string& path) {
		std::string content = randomContent(src);
		src.note("file " + printable(path) + " of " + std::to_string(content.size()) + " bytes");
		writeFile(root / path.substr(1), content);
		disk.disk[path] = content;
	};
	for (int i = int(src.raw(6)); i > 0; i--) store(randomPath(src, caching, disk));
	Files files(root);
	Server server(src, files);
	served.disk = disk.disk;
	int steps = int(src.range(1, 20)), gets = 0, changes = 0;
	int modified = 0, expectedModified = 0, modifiers = 0;
	for (int i = 0; i < steps; i++) {
		switch (src.raw(9)) {
			default: {
				std::string path;
				const Model& from = src.coin() ? served : disk;
				if (!from.disk.empty() && src.chance(3, 4)) { auto it = from.disk.begin(); std::advance(it, src.raw(from.disk.size() - 1)); path = it->first; }
				else if (!served.generated.empty() && src.coin()) { auto it = served.generated.begin(); std::advance(it, src.raw(served.generated.size() - 1)); path = it->first; }
				else path = src.chance(1, 3) ? "/" : randomPath(src, caching, disk);
				if (src.chance(1, 8)) if (size_t folder = path.rfind('/'); folder != 0 && folder != std::string::npos) path.resize(folder); // A directory isn't a file
				if (src.chance(1, 12)) path += src.pick({"x", ".html", "/a"});
				if (src.chance(1, 12) && path.size() > 2) path.pop_back();
				if (path.size() > 1 && (path.back() == '/' || path.back() == '.')) break;
				src.note("get " + printable(path));
				checkGet(server, served, path);
				gets++;
				break;
			}
			case 4:
				if (!disk.disk.empty() && src.chance(1, 3)) {
					auto it = disk.disk.begin(); std::advance(it, src.raw(disk.disk.size() - 1));
					src.note("delete " + printable(it->first));
					fs::remove(root / it->first.substr(1));
					disk.disk.erase(it);
				} else if (!disk.disk.empty() && src.coin()) {
					auto it = disk.disk.begin(); std::advance(it, src.raw(disk.disk.size() - 1));
					store(std::string(it->first));
				} else {
					std::string path = randomPath(src, caching, disk);
					if (served.generated.count(path)) break; // Which one is preferred is not specified
					store(path);
				}
				changes++;
				if (!caching) served.disk = disk.disk;
				break;
			case 5: {
				std::string path = randomPath(src, caching, disk), content = randomContent(src);
				if (path == "/index.html" || disk.find(path) || served.find(path)) break; // Which one is preferred is not specified
				src.note("generated " + printable(path) + " of " + std::to_string(content.size()) + " bytes");
				if constexpr(caching) {
					if (src.coin()) files.addGeneratedFile(path.substr(1), content);
					else files.addGeneratedFile(path.substr(1), std::vector<char>(content.begin(), content.end()));
				} else {
					bool whole = src.coin();
					std::vector<size_t> sizes;
					for (size_t left = content.size(); left;) { sizes.push_back(whole ? left : 1 + src.raw(left - 1)); left -= sizes.back(); if (sizes.size() > 20) whole = true; }
					whole = sizes.size() == 1;
					files.addGeneratedFile(path.substr(1), whole, [content, sizes] (Bomba::Callback<void(std::span<const char> chunk)> write) {
						size_t at = 0;
						for (size_t size : sizes) { write(std::span<const char>(content.data() + at, size)); at += size; }
					});
				}
				served.generated[path] = content;
				disk.generated[path] = content;
				break;
			}
			case 6:
				if constexpr(caching) {
					for (auto& it : disk.disk) if (served.generated.count(it.first)) return; // Not specified
					src.note("reload");
					files.reload();
					served.disk = disk.disk;
					expectedModified += modifiers;
				}
				break;
			case 7:
				if constexpr(caching) if (src.chance(1, 3)) {
					src.note("reset");
					files.reset();
					served.disk = disk.disk;
					served.generated.clear();
					disk.generated.clear();
					modifiers = 0;
				}
				break;
			case 8:
				if (src.chance(1, 4)) {
					src.note("add a modifier");
					files.addModifier([&modified] { modified++; });
					modifiers++; expectedModified++;
				}
				break;
		}
		requireEqual(expectedModified, modified, "number of calls of modifiers");
	}
	for (auto& it : served.disk) checkGet(server, served, it.first);
	for (auto& it : served.generated) checkGet(server, served, it.first);
	src.labelIf(changes > 0, "files changed"); src.labelIf(!served.generated.empty(), "generated files");
	src.nontrivial = gets + served.disk.size() > 2;
}

// The size and the beginning of files too large to be sent here whole. Nearly all of them is a hole, so they don't occupy the disk.
static void largeFiles(Src& src) {
	silence();
	static Scratch scratch;
	static const std::string beginning = [] {
		std::string r;
		for (u64 seed = 1; r.size() < 200000; seed = mix(seed)) r += char(seed);
		return r;
	}();
	int64_t size = (int64_t(1) << src.range(20, 34)) + src.range(-5000, 5000);
	fs::path path = scratch.path / "large.bin";
	writeFile(path, beginning);
	std::error_code failed;
	fs::resize_file(path, size, failed);
	if (failed) throw Discard();
	src.note("file of " + std::to_string(size) + " bytes");
	Bomba::DynamicFileServer files(scratch.path);
	struct Enough {};
	struct Starter : Bomba::IWriteStarter {
		std::string out;
		int64_t size = -1;
		size_t limit;
		void writeUnknownSize(std::string_view, Bomba::Callback<void(Bomba::GeneralisedBuffer&)>) override { fail("the size of a file is known"); }
		void writeKnownSize(std::string_view, int64_t given, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override {
			size = given;
			auto write = [&] (std::span<const char> part) {
				if (out.size() >= limit) return; // The destructor also writes
				out.append(part.data(), part.size());
				if (out.size() >= limit) throw Enough();
			};
			Bomba::NonOwningStreamingBuffer<1024> buffer{write};
			filler(buffer);
		}
	} starter;
	starter.limit = src.range(1, 190000);
	bool enough = false;
	try {
		require(files.get("/large.bin", starter), "a file was not found");
	} catch (Enough&) { enough = true; }
	requireEqual(size, starter.size, "size of the file");
	require(enough, "not everything was sent");
	require(starter.out == beginning.substr(0, starter.out.size()), "wrong content was sent");
	src.nontrivial = true;
}

// C21
static const char secret[] = "This must not be revealed";
struct Fenced {
	Scratch scratch;
	fs::path base = scratch.path / "web", root;
	std::map<std::string, std::string> contents;
	std::vector<fs::path> outside;
	Fenced(const std::string& rootName, bool caching) : root(base / rootName) {
		auto put = [&] (const std::string& path) { contents[path] = "content of " + path; writeFile(root / path.substr(1), contents[path]); };
		put("/index.html"); put("/a.html"); put("/sub/b.html"); put("/sub/deep/c.txt"); put("/etc/passwd"); put("/a..b"); put("/...");  put("/sub/x.y..z");
		writeFile(root / ".hidden", caching ? "hidden" : secret);
		writeFile(root / ".git/config", caching ? "hidden" : secret);
		writeFile(root / "sub/.htaccess", caching ? "hidden" : secret);
		outside = {scratch.path / "secret.txt", base / "secret.txt", base / (rootName + "2") / "secret.txt", base / (rootName + ".bak"), base / "index.html", scratch.path / "index.html",
				scratch.path / "a.html", base / "sub/b.html", base / "a.html", base / "a", base / "..."};
		for (auto& it : outside) writeFile(it, secret);
	}
};
template <typename Files> void containment(Src& src) {
	constexpr bool caching = std::is_same_v<Files, Bomba::CachingFileServer>;
	silence();
	static std::map<std::string, std::shared_ptr<Fenced>> all;
	std::string rootName = src.pick({"root", "public_html", "r.d"});
	auto& fenced = all[rootName];
	if (!fenced) fenced = std::make_shared<Fenced>(rootName, caching);
	auto& [scratch, base, root, contents, outside] = *fenced;
	fs::path given = root;
	switch (src.raw(4)) {
		case 0: break;
		case 1: given = root.string() + "/"; break;
		case 2: given = base / "." / rootName; break;
		case 3: given = root / "sub" / ".."; break;
		default: fs::current_path(base); given = rootName; break;
	}
	struct Back { ~Back() { fs::current_path("/"); } } back;
	Files files(given);
	Server server(src, files);
	int count = int(src.range(1, 12));
	bool succeeded = false;
	for (int i = 0; i < count; i++) {
		std::string path = src.chance(1, 10) ? "" : "/";
		int segments = int(src.range(0, 7));
		for (int j = 0; j < segments; j++) {
			switch (src.raw(9)) {
				case 0: case 1: path += ".."; break;
				case 2: path += src.pick({".", "", "...", "....", ".;", "..;", "..\\..", "..\\", "%2e%2e", "..%2f", ".%2e", "%2e.", "%252e%252e", "..%00", "\xc0\xae\xc0\xae", "..?", "..#"}); break;
				case 3: path += std::string(src.pick({"sub", "deep", "a", "root", "etc", "~", "web"})); break;
				case 4: path += src.pick({".hidden", ".git", ".htaccess", "config"}); break;
				case 5: path += rootName; path += std::string(src.pick({"", "2", ".bak", "/.."})); break;
				case 6: path += src.pick({"secret.txt", "index.html", "a.html", "b.html", "c.txt", "passwd"}); break;
				case 7: { std::string whole = src.pick(outside).string(); path += src.coin() ? whole : whole.substr(1); break; }
				case 8: { auto it = contents.begin(); std::advance(it, src.raw(contents.size() - 1)); path += it->first.substr(1); break; }
				default: path += src.text(Src::ASCII, 4); break;
			}
			if (j + 1 < segments || src.chance(1, 8)) path += src.pick({"/", "/", "/", "//", "/./", "\\", "%2f", "/../"});
		}
		if (src.chance(1, 10)) path += src.pick({"?", "?a=b", "#", "/", "%00", "/."});
		for (char& c : path) if (c == ' ' || c == '\r' || c == '\n') c = '_';
		bool direct = path.empty() || path[0] != '/' || src.chance(1, 3);
		src.note((direct ? "directly get " : "get ") + printable(path));
		std::string body;
		bool ok;
		if (direct) { // The interface itself may be given anything
			struct Starter : Bomba::IWriteStarter {
				std::string out;
				void writeUnknownSize(std::string_view, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override { Bomba::ExpandingBuffer<> b; filler(b); out = std::string(std::string_view(b)); }
				void writeKnownSize(std::string_view, int64_t, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override { Bomba::ExpandingBuffer<> b; filler(b); out = std::string(std::string_view(b)); }
			} starter;
			Exact exact(path);
			try { ok = files.get(exact.view(), starter); } catch (std::exception&) { ok = false; }
			body = starter.out;
		} else {
			refhttp::Message m = server.get(path);
			ok = m.status == 200;
			body = m.body;
		}
		require(body.find(secret) == std::string::npos, "content of a file outside of the folder or of a hidden file was sent");
		if (ok) {
			bool known = caching && body == "hidden";
			for (auto& it : contents) known = known || it.second == body;
			if (!known) fail("sent something that is not a content of a file: " + printable(body));
			succeeded = true;
		}
		auto exactly = contents.find(path);
		if (exactly != contents.end() && path.find("/.") == path.npos) {
			require(ok && body == exactly->second, "a file was not sent");
		}
	}
	src.labelIf(succeeded, "some file was sent");
	src.nontrivial = count > 1;
}

// C22: version of content is in each part of the file, so mixing of versions is found
struct Collector : Bomba::IWriteStarter {
	std::string out, type;
	int64_t size = -1;
	void writeUnknownSize(std::string_view type, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override {
		this->type = type; Bomba::ExpandingBuffer<> b; filler(b); out = std::string(std::string_view(b)); size = out.size();
	}
	void writeKnownSize(std::string_view type, int64_t size, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override {
		this->type = type; this->size = size; Bomba::ExpandingBuffer<> b; filler(b); out = std::string(std::string_view(b));
	}
};
static std::string versioned(std::string_view name, int version, size_t parts) {
	std::string r;
	for (size_t i = 0; i < parts; i++) r += std::string(name) + " " + std::to_string(version) + "\n";
	return r;
}
static void concurrent(Src& src) {
	silence();
	Scratch scratch;
	fs::path root = scratch.path / "root", temporary = scratch.path / "temporary";
	size_t files = 1 + src.raw(3), threads = 1 + src.raw(3);
	std::vector<size_t> sizes;
	std::vector<std::string> names;
	for (size_t i = 0; i < files; i++) { sizes.push_back(1 + src.raw(200)); names.push_back("/" + (i ? std::string("sub/") : std::string()) + "f" + std::to_string(i) + ".html"); }
	auto publish = [&] (int version) {
		for (size_t i = 0; i < files; i++) {
			writeFile(temporary, versioned(names[i], version, sizes[i]));
			fs::create_directories((root / names[i].substr(1)).parent_path());
			fs::rename(temporary, root / names[i].substr(1));
		}
	};
	publish(0);
	Bomba::CachingFileServer server(root);
	std::atomic<int> loaded = 0, writing = 0, generatedVersion = 0;
	std::atomic<bool> stop = false;
	std::atomic<u64> gets = 0;
	std::mutex problemMutex;
	std::string problem;
	auto check = [&] (size_t file) {
		int from = loaded;
		Collector c;
		bool ok = server.get(names[file], c);
		int to = writing;
		auto complain = [&] (const std::string& what) { std::lock_guard lock(problemMutex); if (problem.empty()) problem = what; };
		if (!ok) return complain("a file disappeared during reloading");
		gets++;
		if (c.type != "text/html") complain("wrong type");
		if (c.size != int64_t(c.out.size())) complain("wrong size");
		for (int v = from; v <= to; v++) if (c.out == versioned(names[file], v, sizes[file])) return;
		complain("content of a file is not any version between " + std::to_string(from) + " and " + std::to_string(to) + ": " + printable(c.out, 200));
	};
	auto checkGenerated = [&] (int version) {
		Collector c;
		if (!server.get("/g" + std::to_string(version), c)) return;
		if (c.out != versioned("generated", version, 20)) { std::lock_guard lock(problemMutex); problem = "wrong content of a generated file"; }
	};
	std::vector<std::thread> pool;
	for (size_t t = 0; t < threads; t++) pool.emplace_back([&, t] {
		u64 seed = t;
		while (!stop) { seed = mix(seed); check(seed % files); if (seed & 256) checkGenerated(generatedVersion); }
	});
	int rounds = int(src.range(1, 6));
	if (src.coin()) { // Others can cause changes too
		src.note("with another thread changing it");
		pool.emplace_back([&, seed = src.raw(~0ull)] () mutable {
			for (int i = 0; !stop; i++) {
				seed = mix(seed);
				if (seed % 4 == 0) server.reset();
				else if (seed % 4 == 1 && i < 100) {
					std::string name = "h" + std::to_string(i);
					server.addGeneratedFile(name, versioned("other", i, 20));
					Collector c; // Another thread may have reset it
					if (server.get("/" + name, c) && c.out != versioned("other", i, 20)) { std::lock_guard lock(problemMutex); problem = "wrong content of another generated file"; }
				} else server.reload();
				std::this_thread::yield();
			}
		});
	}
	std::vector<std::string> expectedGenerated;
	for (int version = 1; version <= rounds; version++) {
		// reload() reads files one by one, a response must not mix them
		publish((writing = version));
		switch (src.raw(2)) {
			case 0: src.note("reload"); server.reload(); break;
			case 1: src.note("reset"); server.reset(); break;
			default: src.note("generated and reload"); server.addGeneratedFile("g" + std::to_string(version), versioned("generated", version, 20)); generatedVersion = version; server.reload(); break;
		}
		loaded = version;
		u64 until = gets + src.raw(20);
		while (gets < until && problem.empty()) std::this_thread::yield();
	}
	stop = true;
	for (auto& it : pool) it.join();
	if (!problem.empty()) fail(problem);
	src.nontrivial = gets > 0;
}

#if defined(C20)
PBT_MAIN({"dynamic", fileHistory<Bomba::DynamicFileServer>, 12000, 300000}, {"caching", fileHistory<Bomba::CachingFileServer>, 12000, 300000}, {"large", largeFiles, 400, 5000})
#elif defined(C21)
PBT_MAIN({"dynamic", containment<Bomba::DynamicFileServer>, 200000, 5000000}, {"caching", containment<Bomba::CachingFileServer>, 80000, 2000000})
#elif defined(C22)
PBT_MAIN({"concurrent", concurrent, 600, 20000, true, 30, 60})
#endif
