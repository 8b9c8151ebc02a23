// A throw-away key and self-signed certificate, and plain or TLS byte channels for peers of the library.
#ifndef VERIF_TLS_H
#define VERIF_TLS_H
#include "net.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include "libiqxmlrpc/ssl_lib.h"
#include "libiqxmlrpc/https_client.h"
#include "libiqxmlrpc/https_server.h"

namespace tls {
struct Cert {
  EVP_PKEY* key; X509* crt; std::string dir, cfile, kfile;
  explicit Cert(const char* cn = "verif"): key(0), crt(0)
  {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, 0);
    EVP_PKEY_keygen_init(c); EVP_PKEY_CTX_set_rsa_keygen_bits(c, 2048); EVP_PKEY_keygen(c, &key); EVP_PKEY_CTX_free(c);
    crt = X509_new();
    X509_set_version(crt, 2); ASN1_INTEGER_set(X509_get_serialNumber(crt), 1);
    X509_gmtime_adj(X509_get_notBefore(crt), -3600); X509_gmtime_adj(X509_get_notAfter(crt), 86400);
    X509_set_pubkey(crt, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(crt), "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
    X509_set_issuer_name(crt, X509_get_subject_name(crt));
    X509_sign(crt, key, EVP_sha256());
    char t[] = "/tmp/verif_tls_XXXXXX";
    if (!mkdtemp(t)) return;
    dir = t; cfile = dir + "/c.pem"; kfile = dir + "/k.pem";
    FILE* f = fopen(cfile.c_str(), "w"); PEM_write_X509(f, crt); fclose(f);
    f = fopen(kfile.c_str(), "w"); PEM_write_PrivateKey(f, key, 0, 0, 0, 0, 0); fclose(f);
  }
  void remove() { if (!dir.empty()) { unlink(cfile.c_str()); unlink(kfile.c_str()); rmdir(dir.c_str()); } dir.clear(); }
  ~Cert() { remove(); X509_free(crt); EVP_PKEY_free(key); }
};
inline Cert& cert() { static Cert c; return c; }
inline SSL_CTX* server_ctx()
{
  static SSL_CTX* c = 0;
  if (!c) { c = SSL_CTX_new(TLS_server_method()); SSL_CTX_use_certificate(c, cert().crt); SSL_CTX_use_PrivateKey(c, cert().key); }
  return c;
}
// a blocking byte channel with a time limit
struct Chan {
  int fd; SSL* s;
  explicit Chan(int f): fd(f), s(0) { timeval tv = {10, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); }
  bool accept_tls() { s = SSL_new(server_ctx()); SSL_set_fd(s, fd); return SSL_accept(s) == 1; }
  bool connect_tls(SSL_CTX* c) { s = SSL_new(c); SSL_set_fd(s, fd); return SSL_connect(s) == 1; }
  long rd(char* b, size_t n) { return s ? SSL_read(s, b, int(n)) : raw_recv(fd, b, n, 0); }
  bool wr(const std::string& d) { size_t at = 0; while (at < d.size()) { long k = s ? SSL_write(s, d.data() + at, int(d.size() - at)) : raw_send(fd, d.data() + at, d.size() - at, MSG_NOSIGNAL); if (k <= 0) return false; at += size_t(k); } return true; }
  void drop() { if (fd >= 0) { if (s) { SSL_free(s); s = 0; } close(fd); fd = -1; } }
  void polite() { if (s) SSL_shutdown(s); drop(); }
  ~Chan() { drop(); }
};
// passes bytes between plain connections and TLS connections to a port of this machine
struct Relay {
  int port, ls, to; std::thread acc;
  explicit Relay(int target): to(target)
  {
    ls = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(ls, (sockaddr*)&a, sizeof a); listen(ls, 64);
    socklen_t l = sizeof a; getsockname(ls, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
    acc = std::thread([this] { for (;;) { int f = accept(ls, 0, 0); if (f < 0) continue; int t = to; std::thread([f, t] { pass(f, t); }).detach(); } });
  }
  static SSL_CTX* make() { SSL_CTX* c = SSL_CTX_new(TLS_client_method()); SSL_CTX_clear_mode(c, SSL_MODE_AUTO_RETRY); return c; }
  static SSL_CTX* ctx() { static SSL_CTX* c = make(); return c; }
  static void pass(int f, int target)
  {
    int g = net::Srv::try_connect(target);
    int one = 1; setsockopt(f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (g >= 0) {
      setsockopt(g, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      Chan c(g);
      if (c.connect_tls(ctx())) {
        std::vector<char> b(65536);
        for (bool open = true; open;) {
          pollfd p[2] = {{f, POLLIN, 0}, {g, POLLIN, 0}};
          if (!SSL_pending(c.s) && poll(p, 2, 20000) <= 0) break;
          if (p[1].revents || SSL_pending(c.s)) {
            long n = c.rd(b.data(), b.size());
            if (n <= 0 && SSL_get_error(c.s, int(n)) != SSL_ERROR_WANT_READ) break;
            for (long at = 0; at < n;) { long k = raw_send(f, b.data() + at, size_t(n - at), MSG_NOSIGNAL); if (k <= 0) { open = false; break; } at += k; }
          }
          if (p[0].revents) {
            long n = raw_recv(f, b.data(), b.size(), 0);
            if (n <= 0) { if (n == 0) c.polite(); break; }
            if (!c.wr(std::string(b.data(), size_t(n)))) break;
          }
        }
      }
    }
    close(f);
  }
};
}
#endif
