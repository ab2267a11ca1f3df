// C30: the blocking client over TLS against a scripted TLS server in the same thread
#include "blocking.hpp"
#include "bomba_sync_client.hpp" // Both may be used in a program
#include "tls/tls_sync_client.hpp"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/evp.h>

static SSL_CTX* context(bool tls13) {
	static SSL_CTX* made[2] = {};
	if (made[tls13]) return made[tls13];
	static EVP_PKEY* key = EVP_EC_gen("P-256");
	static X509* certificate = [] {
		X509* c = X509_new();
		X509_set_version(c, 2);
		ASN1_INTEGER_set(X509_get_serialNumber(c), 1);
		X509_gmtime_adj(X509_getm_notBefore(c), -3600);
		X509_gmtime_adj(X509_getm_notAfter(c), 3600 * 24 * 365);
		X509_set_pubkey(c, key);
		X509_NAME* name = X509_get_subject_name(c);
		X509_NAME_add_entry_by_txt(name, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
		X509_set_issuer_name(c, name);
		X509_sign(c, key, EVP_sha256());
		return c;
	}();
	SSL_CTX* ctx = SSL_CTX_new(TLS_server_method());
	if (!ctx || SSL_CTX_use_certificate(ctx, certificate) != 1 || SSL_CTX_use_PrivateKey(ctx, key) != 1) fail("could not prepare TLS");
	if (tls13) SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
	else SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION);
	return made[tls13] = ctx;
}

struct TlsServer : ScriptedServer {
	SSL* ssl;
	BIO* input = BIO_new(BIO_s_mem());
	BIO* output = BIO_new(BIO_s_mem());
	bool tls13, established = false, politely, inside = false;
	TlsServer(Src& src, bool ordered) : ScriptedServer(src, ordered) {
		tls13 = !src.chance(1, 3);
		politely = src.coin();
		ssl = SSL_new(context(tls13));
		BIO_set_mem_eof_return(input, -1);
		BIO_set_mem_eof_return(output, -1);
		SSL_set_bio(ssl, input, output);
		SSL_set_accept_state(ssl);
		if (tls13) SSL_set_num_tickets(ssl, size_t(src.raw(2)));
		src.label(tls13 ? "TLS 1.3" : "TLS 1.2");
	}
	~TlsServer() { SSL_free(ssl); }
	auto client() { return std::make_unique<Bomba::TlsSyncClient>("127.0.0.1", port(listener.fd)); }
	std::string encrypted() {
		std::string data(BIO_ctrl_pending(output), 0);
		if (!data.empty()) BIO_read(output, data.data(), int(data.size()));
		return data;
	}
	std::string decode(std::string data) override {
		if (!data.empty()) BIO_write(input, data.data(), int(data.size()));
		std::string result;
		if (!established) {
			established = SSL_do_handshake(ssl) == 1;
			if (!established && SSL_get_error(ssl, 0) == SSL_ERROR_SSL) ERR_clear_error();
			std::string answer = encrypted();
			require(connection.write(answer) == answer.size(), "the handshake was not sent");
		}
		if (established) {
			char buffer[16384];
			int got;
			while ((got = SSL_read(ssl, buffer, sizeof(buffer))) > 0) result.append(buffer, got);
			ERR_clear_error();
		}
		return result;
	}
	std::string encode(std::string data) override {
		std::string result;
		while (!data.empty()) {
			if (tls13 && src.chance(1, 20)) {
				SSL_key_update(ssl, src.coin() ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED);
				src.label("key update");
			}
			size_t part = src.chance(2, 3) ? std::min<size_t>(data.size(), 16384) : 1 + src.raw(std::min<size_t>(data.size(), 16384) - 1);
			require(SSL_write(ssl, data.data(), int(part)) == int(part), "could not encrypt");
			data.erase(0, part);
			result += encrypted();
		}
		return result;
	}
	void beforeClosing() override {
		if (!current.empty() || !politely || !established) return;
		SSL_shutdown(ssl);
		connection.write(encrypted());
	}
	void produce() override {
		if (inside) return;
		inside = true;
		struct Leave { bool& inside; ~Leave() { inside = false; } } leave{inside};
		while (!established) {
			accept();
			connection.wait(2000);
			connection.read();
			require(!connection.ended && !connection.received.empty(), "the client expects data without a handshake");
			received += decode(std::exchange(connection.received, {}));
			if (!established || !tls13) return; // Something was sent, the client waits for it
		}
		ScriptedServer::produce();
	}
};

#ifdef BINARY
PBT_MAIN({"binary_client", binaryClient<TlsServer>, 3000, 150000, false, 10, 30})
#else
PBT_MAIN({"http_client", httpClient<TlsServer>, 3000, 150000, false, 10, 30})
#endif
