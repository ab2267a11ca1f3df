// Real sockets on the loopback with interposed system calls: the port of a server listening at port 0 becomes known,
// receiving and sending can be made partial or interrupted and a test can act when the tested code waits for data
#pragma once
#include "engine.hpp"
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <atomic>

namespace sockets {
inline thread_local int lastListening = -1; // The last socket that started to listen
inline thread_local std::function<size_t(size_t)> limitReceive, limitSend; // 0 means interruption
inline thread_local std::function<void(int)> beforeReceive;
inline std::atomic<int> failAccepting = 0, acceptError = 0; // How many times will accepting a connection fail and how

inline int port(int fd) {
	sockaddr_in address{};
	socklen_t size = sizeof(address);
	if (getsockname(fd, reinterpret_cast<sockaddr*>(&address), &size)) pbt::fail("getsockname failed");
	return ntohs(address.sin_port);
}
inline sockaddr_in loopback(int port) {
	sockaddr_in address{};
	address.sin_family = AF_INET;
	address.sin_port = htons(uint16_t(port));
	address.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	return address;
}

// Socket used by the test itself
struct Socket {
	int fd = -1;
	std::string received;
	bool ended = false; // The other side closed it or there was an error
	Socket() = default;
	Socket(int fd) : fd(fd) {}
	Socket(Socket&& other) { *this = std::move(other); }
	Socket& operator=(Socket&& other) { std::swap(fd, other.fd); std::swap(received, other.received); std::swap(ended, other.ended); return *this; }
	~Socket() { abort(); }
	static Socket connected(int port) {
		Socket s(socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
		sockaddr_in address = loopback(port);
		if (connect(s.fd, reinterpret_cast<sockaddr*>(&address), sizeof(address))) pbt::fail(std::string("could not connect: ") + strerror(errno));
		s.unblock();
		return s;
	}
	void unblock() {
		fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
		int one = 1;
		setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	}
	void close() { if (fd >= 0) ::close(fd); fd = -1; }
	void abort() { // with RST, not leaving the port occupied
		if (fd < 0) return;
		linger l{1, 0};
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
		close();
	}
	void finishWriting() { shutdown(fd, SHUT_WR); }
	size_t write(std::string_view data) { // what fits
		ssize_t sent = syscall(SYS_sendto, fd, data.data(), data.size(), MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
		return sent < 0 ? 0 : size_t(sent);
	}
	void read() {
		char buffer[65536];
		while (!ended) {
			ssize_t got = syscall(SYS_recvfrom, fd, buffer, sizeof(buffer), MSG_DONTWAIT, nullptr, nullptr);
			if (got > 0) received.append(buffer, got);
			else if (got < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) return;
			else if (got < 0 && errno == EINTR) continue;
			else ended = true;
		}
	}
	void wait(int ms, bool writing = false) {
		pollfd p{fd, short(POLLIN | (writing ? POLLOUT : 0)), 0};
		poll(&p, 1, ms);
	}
};
inline Socket listening() {
	Socket s(socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
	sockaddr_in address = loopback(0);
	int one = 1;
	setsockopt(s.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
	if (bind(s.fd, reinterpret_cast<sockaddr*>(&address), sizeof(address)) || listen(s.fd, 8)) pbt::fail("could not listen");
	return s;
}
struct ResetHooks { ~ResetHooks() { limitReceive = nullptr; limitSend = nullptr; beforeReceive = nullptr; failAccepting = 0; } };
inline int openDescriptors() { int r = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) r++; return r; }
} // namespace sockets

extern "C" int listen(int fd, int backlog) noexcept {
	sockets::lastListening = fd;
	return int(syscall(SYS_listen, fd, backlog));
}
extern "C" int accept(int fd, sockaddr* address, socklen_t* size) {
	for (int left = sockets::failAccepting; left > 0;) if (sockets::failAccepting.compare_exchange_weak(left, left - 1)) { errno = sockets::acceptError; return -1; }
	return int(syscall(SYS_accept, fd, address, size));
}
inline ssize_t limitedMessage(long call, int fd, msghdr msg, int flags, std::function<size_t(size_t)>& limit) {
	iovec part;
	if (limit && msg.msg_iovlen >= 1 && msg.msg_iov[0].iov_len > 0) {
		part = msg.msg_iov[0];
		if (call == SYS_sendmsg) { // Partial sends would be delayed
			int one = 1;
			setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
		}
		size_t allowed = limit(part.iov_len);
		if (allowed == 0) { errno = EINTR; return -1; }
		part.iov_len = std::min(allowed, part.iov_len);
		msg.msg_iov = &part;
		msg.msg_iovlen = 1;
	}
	return syscall(call, fd, &msg, flags);
}
extern "C" ssize_t recvmsg(int fd, msghdr* msg, int flags) {
	if (sockets::beforeReceive) sockets::beforeReceive(fd);
	return limitedMessage(SYS_recvmsg, fd, *msg, flags, sockets::limitReceive);
}
extern "C" ssize_t sendmsg(int fd, const msghdr* msg, int flags) {
	return limitedMessage(SYS_sendmsg, fd, *msg, flags, sockets::limitSend);
}
// Used by boost
extern "C" ssize_t recv(int fd, void* data, size_t size, int flags) {
	if (sockets::beforeReceive) sockets::beforeReceive(fd);
	if (sockets::limitReceive && size) {
		size_t allowed = sockets::limitReceive(size);
		if (allowed == 0) { errno = EINTR; return -1; }
		size = std::min(size, allowed);
	}
	return syscall(SYS_recvfrom, fd, data, size, flags, nullptr, nullptr);
}
extern "C" ssize_t send(int fd, const void* data, size_t size, int flags) {
	iovec part{const_cast<void*>(data), size};
	msghdr msg{};
	msg.msg_iov = &part;
	msg.msg_iovlen = 1;
	return limitedMessage(SYS_sendmsg, fd, msg, flags, sockets::limitSend);
}
