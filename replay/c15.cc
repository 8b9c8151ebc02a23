// C15: histories of requests on real connections; what comes back and when the connection closes.
#define NET_INTERPOSE
#include "tls.h"
using namespace rt;
using namespace net;

static Srv& plain() { static Srv* s = new Srv; return *s; }
// a TLS server, reached through a relay
struct Tsrv { Serial_executor_factory ef; int sport; std::unique_ptr<Https_server> s; std::thread t; std::atomic<bool> ended; std::string died; std::unique_ptr<tls::Relay> r;
  Tsrv(): sport(free_port()), ended(false)
  {
    iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(tls::cert().cfile, tls::cert().kfile);
    s.reset(new Https_server(iqnet::Inet_addr("127.0.0.1", sport), &ef));
    register_method(*s, "echo", m_echo); register_method(*s, "fault", m_fault);
    t = std::thread([this] { try { s->work(); } catch (const std::exception& x) { died = x.what(); } catch (...) { died = "unknown"; } ended = true; });
    for (int i = 0; i < 500; ++i) { int c = Srv::try_connect(sport); if (c >= 0) { close(c); break; } usleep(5000); }
    r.reset(new tls::Relay(sport));
  } };
static Tsrv& secure() { static Tsrv* s = new Tsrv; return *s; }
static bool& use_tls() { static bool b = false; return b; }
static int port() { return use_tls() ? secure().r->port : plain().port; }
static bool ended() { return use_tls() ? secure().ended.load() : plain().ended.load(); }
static std::string died() { return use_tls() ? secure().died : plain().died; }
// one request: letters  k keep-alive  K Keep-Alive  c close  n no connection option  |  e expects 100-continue, body after the interim answer
//   E expects, body in the same packet  |  f fault  x unknown method  b malformed xml  |  1 byte by byte  |  errors: g GET, m malformed header, l no length, t wrong expectation, L reaches the size limit
//   then /<n>: a text of n characters more
static void one(Cli& c, const std::string& q0, bool& stay, const std::string& at)
{
  std::string q = q0.substr(0, q0.find('/')), pad = q0.size() == q.size() ? std::string() : std::string(std::stoul(q0.substr(q.size() + 1)), 'p');
  auto has = [&](char x) { return q.find(x) != std::string::npos; };
  std::string tag = "t" + std::to_string(count()) + at + pad;
  std::string body = has('f') ? call("fault", p_int(7) + p_str(tag)) : has('x') ? call("nosuch", p_str(tag)) : has('b') ? std::string("<methodCall>") : call("echo", p_str(tag));
  std::string conn = has('k') ? "connection: keep-alive\r\n" : has('K') ? "connection: Keep-Alive\r\n" : has('c') ? "Connection: close\r\n" : "";
  std::string len = "content-length: " + std::to_string(body.size()) + "\r\n";
  std::string h = std::string(has('g') ? "GET" : "POST") + " / HTTP/1.1\r\n" + conn + (has('l') ? "" : len) + (has('e') || has('E') ? "expect: 100-continue\r\n" : "") + (has('t') ? "expect: 200-ok\r\n" : "") + (has('m') ? "garbage\r\n" : "") + "\r\n";
  int err = has('g') ? 405 : has('m') ? 400 : has('l') ? 411 : has('t') ? 417 : has('L') ? 413 : 0;
  struct Limit { bool on; void set(size_t n) { if (use_tls()) secure().s->set_max_request_sz(n); else plain().s->set_max_request_sz(n); } Limit(bool b, size_t n): on(b) { if (on) set(n); } ~Limit() { if (on) set(0); } } limit(err == 413, h.size() + body.size());
  if (has('e') && !err) {
    if (has('1')) for (char ch : h) { c.put(std::string(1, ch)); } else c.put(h);
    Ans i = c.get();
    expect(!i.eof, "closed instead of an interim answer" + at);
    expect_str(i.start, "HTTP/1.1 100", "interim answer" + at);
    // part of the body first: no second interim answer
    c.put(body.substr(0, body.size() / 2));
    expect(c.quiet(30), "something was sent before the request was complete" + at + ": " + show(c.buf));
    c.put(body.substr(body.size() / 2));
  } else if (has('1')) for (char ch : h + body) c.put(std::string(1, ch));
  else c.put(h + body);
  Ans a = c.get();
  while (a.code == 100 && ((!err && (has('E') || has('1'))) || err == 413)) a = c.get();
  expect(!a.eof, "closed instead of an answer" + at);
  expect_eq(a.code, err ? err : 200, "status" + at);
  if (!err) {
    bool fault = a.body.find("<fault>") != std::string::npos;
    expect_eq(fault, has('f') || has('x') || has('b'), "fault" + at);
    if (!has('x') && !has('b')) expect(a.body.find(tag) != std::string::npos, "the answer is not that of this request" + at + ": " + show(a.body.substr(0, 400)));
  }
  stay = !err && has('k');
  expect_str(a.o["connection"], stay ? "keep-alive" : "close", "connection option of the answer" + at);
}
// hist <request>,<request>,...
static void hist(const Args& a)
{
  std::istringstream is(a.at(0)); std::string q;
  std::unique_ptr<Cli> c(new Cli(port()));
  int i = 0;
  while (std::getline(is, q, ',')) {
    bool stay = false;
    std::string at = " of request " + std::to_string(i++) + " (" + q + ")";
    one(*c, q, stay, at);
    if (stay) expect(c->quiet(5), "connection not kept after the answer" + at);
    else { expect(c->eof(), "connection not closed after the answer" + at); c.reset(new Cli(port())); }
  }
}
// two <requests> <requests>: two connections interleaved, the first may end at any time
static void two(const Args& a)
{
  Cli c(port());
  bool st = false;
  one(c, "k", st, " before");
  {
    std::istringstream is(a.at(0)); std::string q; Cli d(port()); bool s2 = true;
    while (std::getline(is, q, ',') && s2) one(d, q, s2, " of the other connection");
    if (a.at(1) == "half") d.put("POST / HTTP/1.1\r\ncontent-length: 100\r\n\r\nabc");
  }
  one(c, "k", st, " after the other connection ended");
  one(c, "c", st, " at the end");
  expect(c.eof(), "not closed at the end");
}
// gone <bytes sent>: the peer disappears in the middle of a request; the server lives on
static void gone(const Args& a)
{
  std::string r = http_req(call("echo", p_str("x")), "keep-alive");
  { Cli c(port()); c.put(r.substr(0, std::min(r.size(), size_t(std::stoul(a.at(0)))))); }
  { Cli c(port()); c.put(r); linger l = {1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
  Cli d(port()); bool st;
  one(d, "kf", st, " after a disconnect"); one(d, "c", st, " after a disconnect");
  expect(!ended(), "the server stopped: " + died());
}
// fds: connections ended do not stay open in the server
static long nfds() { long n = 0; for (int i = 0; i < 4096; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static void fds(const Args& a)
{
  port();
  usleep(20000);
  long n0 = nfds();
  for (int i = 0; i < 40; ++i) { Cli c(port()); bool st; if (i % 4 == 3) c.put("POST"); else one(c, i % 4 == 0 ? "c" : i % 4 == 1 ? "g" : "k", st, ""); }
  long n1 = 0;
  for (int i = 0; i < 100; ++i) { n1 = nfds(); if (n1 <= n0) break; usleep(10000); }
  expect(n1 <= n0, std::to_string(n1 - n0) + " descriptors left open after 40 connections ended");
}
static void battery(Rng& g, bool thorough)
{
  const char* hs[] = {"k", "c", "n", "K", "k,k,k,c", "k,k,n", "ke", "ke,ke,ke", "ke,k,ke,c", "ce", "ce,ce", "kE,kE,c", "kf,kx,kb,c", "cf", "cx", "cb", "g", "m", "l", "t", "kg", "km", "kl", "kt", "k,kg", "k,km,k", "k,kl", "ke,kt", "L", "kL", "cL", "k,kL", "k,k,kL,k", "ke,kL1", "kt", "k,kt", "k,ct", "k1,k1,c1", "ke1,ke1,c", "kef,kex,keb", "nf", "ne", "Ke,ke"};
  for (const char* h : hs)
    run(std::string("hist ") + h);
  for (const char* h : {"k", "c", "k,k", "g", "kf,cf", "km"}) { run(std::string("two ") + h + " end"); run(std::string("two ") + h + " half"); }
  for (int n : {0, 1, 10, 60, 100, 150, 10000}) run("gone " + std::to_string(n));
  for (auto v : sizes(3000000)) { run("hist k/" + std::to_string(v) + ",k,kf/" + std::to_string(v) + ",c"); run("hist ke/" + std::to_string(v) + ",c/" + std::to_string(v)); }
  run("fds");
  for (const char* h : hs) run(std::string("shist ") + h);
  for (const char* h : {"k", "c", "k,k", "g"}) { run(std::string("stwo ") + h + " end"); run(std::string("stwo ") + h + " half"); }
  for (int n : {0, 10, 150, 10000}) run("sgone " + std::to_string(n));
  for (const char* v : {"1000", "16384", "20000", "65536", "300000"}) run(std::string("shist k/") + v + ",k,c/" + v);
  unsigned n = thorough ? 300 : 40;
  for (unsigned i = 0; i < n; ++i) {
    std::string h;
    for (unsigned k = 1 + g.upto(5); k; --k) { h += (h.empty() ? "" : ","); h += "kkkcnK"[g.upto(6)]; if (g.coin()) h += "feExb1gmltL"[g.upto(11)]; }
    run((i % 4 == 3 ? "shist " : "hist ") + h);
  }
}
struct Mode { Mode() { use_tls() = true; } ~Mode() { use_tls() = false; } };
int main(int c, char** v)
{
  signal(SIGPIPE, SIG_IGN);
  ops()["hist"] = hist; ops()["two"] = two; ops()["gone"] = gone; ops()["fds"] = fds;
  ops()["shist"] = [](const Args& a) { Mode m; hist(a); }; ops()["stwo"] = [](const Args& a) { Mode m; two(a); }; ops()["sgone"] = [](const Args& a) { Mode m; gone(a); };
  int r = main_(c, v, battery);
  // servers and relay still run: nothing is torn down under them
  tls::cert().remove();
  fflush(0);
  _exit(r);
}
