// Independent strict reader of HTTP messages
#pragma once
#include "engine.hpp"

namespace refhttp {
using pbt::fail;
using pbt::printable;

struct Message {
	std::string firstLine;
	std::vector<std::pair<std::string, std::string>> headers; // names in lowercase
	std::string body;
	int status = 0;
	std::string method, path;

	const std::string* header(std::string_view name) const {
		const std::string* found = nullptr;
		for (auto& [n, v] : headers) if (n == name) {
			if (found) fail("repeated header " + n);
			found = &v;
		}
		return found;
	}
};

inline Message parse(const std::string& stream, size_t& pos, bool response, bool headerOnly = false) {
	Message m;
	size_t end = stream.find("\r\n\r\n", pos);
	if (end == stream.npos) fail("HTTP message without end of header: " + printable(stream.substr(pos)));
	std::string header = stream.substr(pos, end - pos);
	size_t bodyStart = end + 4, at = 0;
	bool first = true;
	while (at <= header.size()) {
		size_t lineEnd = header.find("\r\n", at);
		if (lineEnd == header.npos) lineEnd = header.size();
		std::string line = header.substr(at, lineEnd - at);
		if (line.find_first_of("\r\n") != line.npos) fail("broken line in HTTP header: " + printable(line));
		if (first) m.firstLine = line;
		else {
			size_t colon = line.find(':');
			if (colon == line.npos || colon == 0) fail("HTTP header line without name: " + printable(line));
			std::string name = line.substr(0, colon), value = line.substr(colon + 1);
			for (char& c : name) {
				if (!isalnum((unsigned char)c) && c != '-') fail("wrong character in HTTP header name: " + printable(line));
				c = char(tolower(c));
			}
			size_t a = value.find_first_not_of(" \t"), b = value.find_last_not_of(" \t");
			m.headers.push_back({name, a == value.npos ? "" : value.substr(a, b - a + 1)});
		}
		first = false;
		at = lineEnd + 2;
	}
	if (response) {
		if (m.firstLine.size() < 13 || m.firstLine.substr(0, 9) != "HTTP/1.1 " || m.firstLine[12] != ' ') fail("wrong status line: " + printable(m.firstLine));
		for (int i = 9; i < 12; i++) if (!isdigit((unsigned char)m.firstLine[i])) fail("wrong status line: " + printable(m.firstLine));
		m.status = stoi(m.firstLine.substr(9, 3));
	} else {
		size_t a = m.firstLine.find(' '), b = m.firstLine.rfind(' ');
		if (a == m.firstLine.npos || a == b || m.firstLine.substr(b) != " HTTP/1.1") fail("wrong request line: " + printable(m.firstLine));
		m.method = m.firstLine.substr(0, a);
		m.path = m.firstLine.substr(a + 1, b - a - 1);
		if (m.path.empty() || m.path[0] != '/') fail("wrong path in request line: " + printable(m.firstLine));
	}
	const std::string* length = m.header("content-length");
	size_t size = 0;
	if (length) {
		if (length->empty() || length->size() > 12 || length->find_first_not_of("0123456789") != length->npos) fail("wrong content length: " + printable(*length));
		size = stoull(*length);
	} else if (response && m.status != 204 && m.status / 100 != 1) fail("HTTP response without content length");
	if (stream.size() - bodyStart < size) {
		if (headerOnly) size = stream.size() - bodyStart;
		else fail("the HTTP message is shorter than its content length");
	}
	m.body = stream.substr(bodyStart, size);
	pos = bodyStart + size;
	return m;
}

inline std::vector<Message> parseAll(const std::string& stream, bool response) {
	std::vector<Message> result;
	for (size_t pos = 0; pos < stream.size();) result.push_back(parse(stream, pos, response));
	return result;
}

// Random harmless headers, put also around the important ones
inline std::string noiseHeader(pbt::Src& src) {
	std::string name = "X-" + src.text(pbt::Src::IDENT, 10);
	if (src.chance(1, 4)) name = src.pick({"Accept", "User-Agent", "Cookie", "Host", "Referer", "x-content-length", "Content-Type-Options", "Content-Length-X", "Expires"});
	std::string value;
	size_t n = src.chance(1, 20) ? 1000 + src.raw(3000) : src.raw(20);
	for (size_t i = 0; i < n; i++) {
		char c = char(src.pick({'a', 'b', ' ', '\t', '/', '=', ';', ',', '"', '\xc3', '1', 'Z', ':', '<'}));
		if (value.empty() && (c == ':' || c == ' ' || c == '\t')) c = 'v';
		value += c;
	}
	return name + (src.chance(1, 8) ? ":" : ": ") + value + "\r\n";
}
inline std::string randomCase(pbt::Src& src, std::string name) {
	switch (src.raw(3)) {
		case 0: case 1: break;
		case 2: for (char& c : name) c = char(tolower(c)); break;
		default: for (char& c : name) if (src.coin()) c = char(toupper(c)); break;
	}
	return name;
}
inline std::string colon(pbt::Src& src) { return src.pick({": ", ": ", ":", ":  ", ":\t", " : "}); }

} // namespace refhttp
