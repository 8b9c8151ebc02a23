// C19: TLS set-up against real peers, and connections of the library against scripted results of the TLS library.
#include "tls.h"
#include <dlfcn.h>
#include <openssl/sha.h>
#include "libiqxmlrpc/ssl_connection.h"
#include "libiqxmlrpc/reactor.h"
using namespace rt;
using namespace net;
namespace ssl = iqnet::ssl;

// ---- scripted TLS results
struct Script {
  bool on; std::vector<std::string> items; size_t at; int code, flags; std::vector<std::string> log;
  Script(): on(false), at(0), code(0), flags(0) {}
  // result of the next operation
  int next(const std::string& what, int good)
  {
    log.push_back(what);
    std::string r = at < items.size() ? items[at++] : "ok";
    if (r == "ok") { code = 0; return good; }
    if (r == "0") { code = 0; return 0; }
    if (r == "R") { code = SSL_ERROR_WANT_READ; return -1; }
    if (r == "W") { code = SSL_ERROR_WANT_WRITE; return -1; }
    if (r == "Z") { code = SSL_ERROR_ZERO_RETURN; flags |= SSL_RECEIVED_SHUTDOWN; return 0; }
    if (r == "S0") { code = SSL_ERROR_SYSCALL; return 0; }
    if (r == "S-") { code = SSL_ERROR_SYSCALL; errno = ECONNRESET; return -1; }
    if (r == "E") { code = SSL_ERROR_SSL; return -1; }
    if (r == "X") { code = SSL_ERROR_WANT_X509_LOOKUP; return -1; }
    code = atoi(r.c_str()); return -1;
  }
};
static Script& script() { static Script s; return s; }
template <class F> static F real(const char* n, F) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static std::string pl(const void* p, long n) { std::ostringstream o; o << " " << p << " " << n; return o.str(); }
extern "C" {
int SSL_accept(SSL* s) { static auto f = real("SSL_accept", &SSL_accept); return script().on ? script().next("accept", 1) : f(s); }
int SSL_connect(SSL* s) { static auto f = real("SSL_connect", &SSL_connect); return script().on ? script().next("connect", 1) : f(s); }
int SSL_read(SSL* s, void* b, int n) { static auto f = real("SSL_read", &SSL_read); if (!script().on) return f(s, b, n); int r = script().next("receive" + pl(b, n), n > 5 ? 5 : n); if (r > 0) memset(b, 'q', r); return r; }
int SSL_write(SSL* s, const void* b, int n) { static auto f = real("SSL_write", &SSL_write); return script().on ? script().next("send" + pl(b, n), n) : f(s, b, n); }
int SSL_shutdown(SSL* s)
{
  static auto f = real("SSL_shutdown", &SSL_shutdown);
  if (!script().on) return f(s);
  int r = script().next("close", 1);
  if (r == 1) script().flags = 3; else if (r == 0 && !script().code) script().flags |= 1;
  return r;
}
int SSL_get_error(const SSL* s, int r) { static auto f = real("SSL_get_error", &SSL_get_error); return script().on ? (r > 0 ? 0 : script().code) : f(s, r); }
int SSL_get_shutdown(const SSL* s) { static auto f = real("SSL_get_shutdown", &SSL_get_shutdown); return script().on ? script().flags : f(s); }
void SSL_set_shutdown(SSL* s, int m) { static auto f = real("SSL_set_shutdown", &SSL_set_shutdown); if (script().on) script().flags |= m; else f(s, m); }
}
struct On { On(const std::string& s, int flags) { Script& x = script(); x = Script(); std::istringstream is(s); std::string w; while (std::getline(is, w, ',')) x.items.push_back(w); x.flags = flags; x.on = true; } ~On() { script().on = false; } };

static ssl::Ctx* both() { return ssl::Ctx::client_server(tls::cert().cfile, tls::cert().kfile); }
// what an exception in flight is
static std::string kind()
{
  try { throw; }
  catch (const ssl::need_read&) { return "need_read"; }
  catch (const ssl::need_write&) { return "need_write"; }
  catch (const ssl::connection_close& e) { return e.is_clean() ? "clean close" : "broken close"; }
  catch (const ssl::not_initialized&) { return "not initialized"; }
  catch (const ssl::exception& e) { return std::string(e.what()).compare(0, 5, "SSL: ") ? "bad message" : "ssl error"; }
  catch (const iqnet::network_error&) { return "network error"; }
  catch (...) { return exc_name(); }
}
static std::string kind_of(const std::string& item, int flags)
{
  if (item == "R") return "need_read";
  if (item == "W") return "need_write";
  if (item == "Z") return flags & 2 ? "clean close" : "broken close";
  if (item == "S0") return "broken close";
  if (item == "S-") return "network error";
  return "ssl error";
}

// ---- connections
struct Rec: iqnet::Reactor_base {
  int mask; std::string what;
  Rec(): mask(0) {}
  void register_handler(iqnet::Event_handler*, Event_mask m) { mask |= m; }
  void unregister_handler(iqnet::Event_handler*, Event_mask m) { mask &= ~m; }
  void unregister_handler(iqnet::Event_handler*) { mask = 0; }
  void fake_event(iqnet::Event_handler*, Event_mask) {}
  bool handle_events(Timeout) { return false; }
};
struct Conn: ssl::Reaction_connection {
  std::vector<std::string> done; size_t got;
  Conn(const iqnet::Socket& s, iqnet::Reactor_base* r): ssl::Reaction_connection(s, r), got(0) {}
  void accept_succeed() { done.push_back("accept"); }
  void connect_succeed() { done.push_back("connect"); }
  void recv_succeed(bool&, size_t, size_t n) { done.push_back("receive"); got = n; }
  void send_succeed(bool&) { done.push_back("send"); }
  bool begin(const std::string& w, std::string& out, std::string& in)
  {
    if (w == "accept") post_accept(); else if (w == "connect") post_connect();
    else if (w == "send") reg_send(out.data(), out.size()); else if (w == "receive") reg_recv(&in[0], in.size());
    else return reg_shutdown();
    return false;
  }
};
struct Pair { int fd[2]; Pair() { if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) rt::fail("socketpair"); } ~Pair() { close(fd[0]); close(fd[1]); } };
// op <what> <initial closing flags> <results>
static void op_(const Args& a)
{
  std::string what = a.at(0), cur = what;
  ssl::ctx = both();
  Pair p;
  Rec r;
  iqnet::Socket s(p.fd[0], iqnet::Inet_addr("127.0.0.1", 1));
  int keep = dup(p.fd[0]);                                       // the connection closes its descriptor
  {
    Conn* c = new Conn(s, &r);
    On on(a.at(2), std::stoi(a.at(1)));
    Script& x = script();
    std::string out(700, 'm'), in(300, ' ');
    bool over = c->begin(what, out, in);
    if (over) { expect(what == "close" && x.flags == 3, "begun and over at once although not closed by both sides"); return; }
    expect(r.mask != 0, "nothing is waited for after beginning");
    if (what == "close") expect_eq(r.mask, x.flags & 1 ? 1 : 2, "direction waited for when closing begins");
    std::string first;
    for (size_t i = 0; i < 40; ++i) {
      size_t n = c->done.size(), at = x.at, lg = x.log.size();
      bool term = false;
      std::string err, item = at < x.items.size() ? x.items[at] : "ok";
      int flags0 = x.flags;
      try { if (r.mask & 1) c->handle_input(term); else c->handle_output(term); } catch (const Fail&) { throw; } catch (...) { err = kind(); }
      if (cur == "close" && flags0 == 3) { expect(term, "closed by both sides, but the connection goes on"); return; }
      expect(x.log.size() > lg, "no TLS operation was tried");
      std::string want = cur == "send" ? "send" + pl(out.data(), long(out.size())) : cur == "receive" ? "receive" + pl(in.data(), long(in.size())) : cur;
      expect_str(x.log[lg], want, "operation tried (step " + std::to_string(i) + ")");
      std::string step = " (step " + std::to_string(i) + ", result " + item + ")";
      if (item == "ok" || (item == "0" && cur == "close")) {
        expect_str(err, "", "error after success" + step);
        if (cur == "close") { expect(term, "closed, but the connection goes on" + step); expect_eq(c->done.size(), n, "reports" + step); return; }
        expect_eq(c->done.size(), n + 1, "reports of a success" + step);
        expect_str(c->done.back(), cur, "report" + step);
        expect_eq(r.mask, 0, "still waiting" + step);
        expect(!term, "terminated" + step);
        if (cur == "receive") { expect_eq(c->got, size_t(5), "bytes reported"); expect_str(in.substr(0, 6), "qqqqq ", "received"); }
        return;
      }
      expect_eq(c->done.size(), n, "a failed operation was reported as done" + step);
      if (item == "R" || item == "W") {
        expect_str(err, "", "error" + step);
        expect(!term, "terminated" + step);
        expect_eq(r.mask, item == "R" ? 1 : 2, "direction waited for (1 input, 2 output)" + step);
        continue;
      }
      if (item == "Z" || item == "S0") {
        expect_str(err, "", "error after the peer closed" + step);
        if (term) return;
        if (x.flags == 3) return;
        expect_eq(r.mask, x.flags & 1 ? 1 : 2, "direction waited for when closing" + step);
        cur = "close";
        continue;
      }
      expect_str(err, kind_of(item, x.flags), "reported as" + step);
      return;
    }
  }
  close(keep);
}
// class <result> <flags>: what a result is reported as
static void class_(const Args& a)
{
  On on(a.at(0), std::stoi(a.at(1)));
  int fl = script().flags | (a.at(0) == "Z" && a.at(1) != "0" ? 2 : 0);
  int ret = script().next("x", 1);
  script().flags = fl = std::stoi(a.at(1));
  std::string got;
  try { ssl::throw_io_exception(0, ret); } catch (...) { got = kind(); }
  expect_str(got, a.at(0) == "ok" ? "" : kind_of(a.at(0), fl), "reported as");
}
// plain <what> <result>: operations of a blocking connection
static void plain_(const Args& a)
{
  ssl::ctx = both();
  Pair p;
  iqnet::Socket s(p.fd[0], iqnet::Inet_addr("127.0.0.1", 1));
  ssl::Connection* c = new ssl::Connection(s);
  On on(a.at(1), 0);
  std::string got;
  char b[300];
  size_t n = 77;
  try { if (a[0] == "accept") c->post_accept(); else if (a[0] == "connect") c->post_connect(); else if (a[0] == "send") n = c->send("0123456789", 10); else if (a[0] == "receive") n = c->recv(b, sizeof b); else c->shutdown(); } catch (...) { got = kind(); }
  bool fine = a[1] == "ok" || (a[0] == "close" && a[1] == "0");
  expect_str(got, fine ? "" : kind_of(a[1], script().flags), "reported as");
  if (fine && a[0] == "send") expect_eq(n, size_t(10), "sent");
  if (fine && a[0] == "receive") expect_eq(n, size_t(5), "received");
}

// ---- verification
static std::string digest(X509* c)
{
  unsigned char md[64]; unsigned n = 0;
  X509_digest(c, EVP_sha256(), md, &n);
  return hex(std::string((char*)md, n));
}
struct Ver: ssl::ConnectionVerifier {
  std::string how; mutable int asked; mutable std::string finger, want; mutable bool ok; mutable std::mutex m;
  explicit Ver(const std::string& h): how(h), asked(0), ok(true) {}
  std::string fp(X509_STORE_CTX* x) const { return cert_finger_sha256(x); }
  int do_verify(bool prev, X509_STORE_CTX* x) const
  {
    std::lock_guard<std::mutex> l(m);
    ++asked; finger = cert_finger_sha256(x); want = digest(X509_STORE_CTX_get_current_cert(x)); ok = prev;
    if (how == "throw") throw std::runtime_error("verifier");
    if (how == "throwint") throw 7;
    if (how == "prev") return prev;
    return how == "yes";
  }
};
struct TSrv {
  int port; Serial_executor_factory ef; std::unique_ptr<Https_server> s; std::thread t; std::atomic<bool> ended;
  TSrv(): port(free_port()), ended(false)
  {
    s.reset(new Https_server(iqnet::Inet_addr("127.0.0.1", port), &ef));
    register_method(*s, "echo", m_echo); register_method(*s, "big", m_big);
    Https_server* p = s.get(); std::atomic<bool>* e = &ended;
    t = std::thread([p, e] { try { p->work(); } catch (...) {} *e = true; });
    for (int i = 0; i < 500; ++i) { int c = Srv::try_connect(port); if (c >= 0) { close(c); return; } usleep(2000); }
  }
  ~TSrv() { s->set_exit_flag(); for (int i = 0; i < 500 && !ended; ++i) { s->interrupt(); usleep(2000); } if (ended) t.join(); else t.detach(); }
};
static SSL_CTX* client_ctx(bool cert)
{
  SSL_CTX* c = SSL_CTX_new(TLS_client_method());
  if (cert) { SSL_CTX_use_certificate(c, tls::cert().crt); SSL_CTX_use_PrivateKey(c, tls::cert().key); }
  return c;
}
// server <verifier of clients> <certificate required> <client has one> <verifier of servers>
static void server_(const Args& a)
{
  bool req = a.at(1) == "1", has = a.at(2) == "1";
  ssl::ctx = both();
  Ver v(a[0]), other(a.at(3));
  if (a[0] != "none") ssl::ctx->verify_client(req, &v); else if (req) ssl::ctx->verify_client(true, 0);
  if (a[3] != "none") ssl::ctx->verify_server(&other);
  TSrv s;
  tls::Chan c(Srv::try_connect(s.port));
  SSL_CTX* x = client_ctx(has);
  bool ok = c.connect_tls(x) && c.wr(http_req(call("echo", p_str("hello")), "close"));
  std::string got;
  char b[4096]; long n;
  while (ok && (n = c.rd(b, sizeof b)) > 0) got.append(b, size_t(n));
  c.drop(); SSL_CTX_free(x);
  bool answered = got.find("hello") != std::string::npos;
  bool unknown = a[0] == "prev" && has;                                  // a self-signed certificate is not trusted
  bool want = req && !has ? false : !has ? true : a[0] == "none" ? !req : a[0] == "yes" && !unknown;
  expect(answered == want, std::string("a client ") + (has ? "with" : "without") + " certificate was " + (answered ? "answered" : "refused") + ": " + show(got.substr(0, 100)));
  expect_eq(v.asked > 0, a[0] != "none" && has, "the verifier was asked");
  expect_eq(other.asked, 0, "the verifier of servers was asked about a client");
  if (v.asked) { expect_str(v.finger, v.want, "fingerprint"); expect_eq(v.finger.size(), size_t(64), "digits"); }
}
// client <verifier of servers> <verifier of clients>
static void client_(const Args& a)
{
  ssl::ctx = a.at(1) == "none" ? ssl::Ctx::client_only() : both();
  Ver v(a[0]), other(a[1]);
  if (a[0] != "none") ssl::ctx->verify_server(&v);
  if (a[1] != "none") ssl::ctx->verify_client(true, &other);
  int l = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in ad = sockaddr_in(); ad.sin_family = AF_INET; ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(l, (sockaddr*)&ad, sizeof ad); socklen_t sl = sizeof ad; getsockname(l, (sockaddr*)&ad, &sl); listen(l, 4);
  std::string got;
  tls::server_ctx();
  std::thread t([&] {
    tls::Chan c(accept(l, 0, 0));
    if (!c.accept_tls()) return;
    char b[4096]; long n;
    while (got.find("</methodCall>") == std::string::npos && (n = c.rd(b, sizeof b)) > 0) got.append(b, size_t(n));
    if (got.find("</methodCall>") == std::string::npos) return;
    std::string body = "<?xml version=\"1.0\"?><methodResponse><params><param><value><i4>42</i4></value></param></params></methodResponse>";
    c.wr("HTTP/1.1 200 OK\r\ncontent-type: text/xml\r\ncontent-length: " + std::to_string(body.size()) + "\r\n\r\n" + body);
    c.polite();
  });
  std::string err; int val = 0;
  try {
    Client<Https_client_connection> c(iqnet::Inet_addr("127.0.0.1", ntohs(ad.sin_port)));
    c.set_timeout(8);
    Response r = c.execute("m", Value(1));
    val = r.is_fault() ? -1 : r.value().get_int();
  } catch (...) { err = kind(); }
  t.join(); close(l);
  bool want = a[0] == "none" || a[0] == "yes";
  if (want) { expect_str(err, "", "error"); expect_eq(val, 42, "value"); }
  else { expect(!err.empty(), "a call to a server that was refused returned"); expect_str(got, "", "sent to a server that was refused"); }
  expect_eq(v.asked > 0, a[0] != "none", "the verifier was asked");
  expect_eq(other.asked, 0, "the verifier of clients was asked about a server");
  if (v.asked) expect_str(v.finger, v.want, "fingerprint");
}
// finger <serial>: of a certificate of its own
static void finger_(const Args& a)
{
  X509* c = X509_dup(tls::cert().crt);
  ASN1_INTEGER_set(X509_get_serialNumber(c), std::stol(a.at(0)));
  X509_sign(c, tls::cert().key, EVP_sha256());
  X509* d = 0; unsigned char* der = 0; int n = i2d_X509(c, &der); const unsigned char* q = der; d = d2i_X509(0, &q, n);
  unsigned char md[32];
  SHA256(der, size_t(n), md);
  X509_STORE_CTX* x = X509_STORE_CTX_new();
  X509_STORE* st = X509_STORE_new();
  X509_STORE_CTX_init(x, st, d, 0);
  X509_STORE_CTX_set_current_cert(x, d);
  Ver v("yes");
  std::string got = v.fp(x);
  X509_STORE_CTX_free(x); X509_STORE_free(st); X509_free(c); X509_free(d); OPENSSL_free(der);
  expect_str(got, hex(std::string((char*)md, 32)), "fingerprint");
}
// verify <verdict> <so far>: of a verifier asked directly
static void verify_(const Args& a)
{
  struct V: ssl::ConnectionVerifier { std::string how; mutable int prev; int do_verify(bool p, X509_STORE_CTX*) const { prev = p; if (how == "throw") throw std::runtime_error("v"); if (how == "throwint") throw 3; return atoi(how.c_str()); } } v;
  v.how = a.at(0); v.prev = -1;
  int r = v.verify(a.at(1) == "1", 0);
  expect_eq(r != 0, atoi(a[0].c_str()) != 0, "accepted");
  expect_eq(v.prev, a[1] == "1" ? 1 : 0, "verdict so far");
}
// ctx <kind>: versions
static void ctx_(const Args& a)
{
  tls::Cert& k = tls::cert();
  ssl::Ctx* c = a.at(0) == "client" ? ssl::Ctx::client_only() : a[0] == "server" ? ssl::Ctx::server_only(k.cfile, k.kfile) : both();
  expect((SSL_CTX_get_options(c->context()) & SSL_OP_NO_SSLv3) || SSL_CTX_get_min_proto_version(c->context()) > SSL3_VERSION, "SSLv3 is not disabled");
  if (a[0] != "client") expect(SSL_CTX_get0_certificate(c->context()) && X509_cmp(SSL_CTX_get0_certificate(c->context()), k.crt) == 0, "not the certificate given");
}
// badctx <kind> <what>: unusable files
static void badctx_(const Args& a)
{
  tls::Cert& k = tls::cert();
  static tls::Cert second("second");
  std::string cf = k.cfile, kf = k.kfile;
  if (a.at(1) == "nocert") cf = k.dir + "/missing"; else if (a[1] == "nokey") kf = k.dir + "/missing"; else if (a[1] == "otherkey") kf = second.kfile; else cf = k.kfile;
  std::string e;
  try { if (a[0] == "server") ssl::Ctx::server_only(cf, kf); else ssl::Ctx::client_server(cf, kf); } catch (...) { e = kind(); }
  expect_str(e, "ssl error", "unusable files");
}
static void none_(const Args&)
{
  ssl::ctx = 0;
  Pair p;
  iqnet::Socket s(p.fd[0], iqnet::Inet_addr("127.0.0.1", 1));
  std::string e;
  try { ssl::Connection c(s); } catch (...) { e = kind(); }
  expect_str(e, "not initialized", "connection without a context");
}
// big <bytes> <calls>: transfers that block in both directions
static void big_(const Args& a)
{
  ssl::ctx = both();
  TSrv s;
  Client<Https_client_connection> c(iqnet::Inet_addr("127.0.0.1", s.port));
  c.set_timeout(10); c.set_keep_alive(true);
  for (int i = 0; i < std::stoi(a.at(1)); ++i) {
    std::string t(std::stoul(a.at(0)) + i, char('a' + i));
    Response r = c.execute("echo", Value(t));
    expect(!r.is_fault() && r.value().get_string() == t, "text sent and returned over TLS differ");
  }
}
static void battery(Rng& g, bool thorough)
{
  const char* res[] = {"ok", "R", "W", "Z", "S0", "S-", "E", "X", "7", "8", "9", "10", "11"};
  for (const char* r : res) for (const char* f : {"0", "1", "2", "3"}) run(std::string("class ") + r + " " + f);
  const char* what[] = {"accept", "connect", "send", "receive", "close"};
  for (const char* w : what) for (const char* r : res) if (strcmp(w, "close") || (strcmp(r, "Z") && strcmp(r, "S0"))) run(std::string("plain ") + w + " " + r);
  run("plain close 0");
  for (const char* w : what) {
    for (const char* r : res) {
      run(std::string("op ") + w + " 0 " + r);
      for (const char* q : res) if (strlen(r) == 1 && strchr("RW", *r)) for (const char* t : {"", "R,", "W,", "R,W,R,W,W,"}) run(std::string("op ") + w + " 0 " + r + "," + t + q);
    }
    for (const char* t : {"Z,ok", "Z,R,ok", "Z,W,W,ok", "Z,0", "S0,ok", "S0,R,E", "Z,S-", "R,Z,R,W,ok"}) for (const char* f : {"0", "1"}) run(std::string("op ") + w + " " + f + " " + t);
  }
  for (const char* f : {"0", "1", "2", "3"}) for (const char* t : {"ok", "0", "R,ok", "W,ok", "R,0", "S-", "E"}) run(std::string("op close ") + f + " " + t);
  for (const char* h : {"0", "1", "throw", "throwint"}) for (const char* p : {"0", "1"}) run(std::string("verify ") + h + " " + p);
  for (const char* k : {"client", "server", "both"}) run(std::string("ctx ") + k);
  for (const char* k : {"server", "both"}) for (const char* w : {"nocert", "nokey", "otherkey", "wrong"}) run(std::string("badctx ") + k + " " + w);
  run("none");
  for (unsigned i = 0; i < (thorough ? 400u : 60u); ++i) run("finger " + std::to_string(i + 2));
  for (const char* v : {"none", "yes", "no", "throw", "throwint", "prev"}) for (const char* q : {"0", "1"}) for (const char* h : {"0", "1"}) run(std::string("server ") + v + " " + q + " " + h + " " + (g.coin() ? "no" : "none"));
  for (const char* v : {"none", "yes", "no", "throw", "throwint", "prev"}) for (const char* o : {"none", "no"}) run(std::string("client ") + v + " " + o);
  run("big 100 2"); run("big 300000 2"); run("big 3000000 1");
  for (unsigned i = 0; i < (thorough ? 2000u : 200u); ++i) {
    std::string t;
    for (unsigned k = g.upto(6); k; --k) t += g.coin() ? "R," : "W,";
    run(std::string("op ") + what[g.upto(5)] + " " + (g.coin() ? "0" : "1") + " " + t + res[g.upto(13)]);
  }
}
int main(int c, char** v)
{
  signal(SIGPIPE, SIG_IGN);
  ops()["op"] = op_; ops()["class"] = class_; ops()["plain"] = plain_; ops()["server"] = server_; ops()["client"] = client_; ops()["finger"] = finger_; ops()["verify"] = verify_;
  ops()["ctx"] = ctx_; ops()["badctx"] = badctx_; ops()["none"] = none_; ops()["big"] = big_;
  return main_(c, v, battery);
}
