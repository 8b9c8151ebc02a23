// C16: clients of the library against a scripted peer.
//   seq <h|s|p|t> <k|n> <words>   calls of one client: plain, TLS, plain through a proxy, TLS through a proxy; with or without keep-alive
//   refused | full | stall <k|n> <size> | proxyno <code>
//   conn <h|s|p|t> <now|later> <errno>   the attempt to connect fails at once, or later; 0: it succeeds
#include "tls.h"
#include <sys/syscall.h>
// what the attempts to connect of this thread come to
static thread_local int conn_now = 0, conn_later = -1;
extern "C" int connect(int fd, const sockaddr* a, socklen_t n)
{
  if (conn_now) { errno = conn_now; return -1; }
  int r = int(syscall(SYS_connect, fd, a, n));
  if (conn_later >= 0 && !r) { errno = EINPROGRESS; return -1; }
  return r;
}
extern "C" int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept
{
  if (l == SOL_SOCKET && o == SO_ERROR && conn_later > 0) { *(int*)v = conn_later; conn_later = 0; return 0; }
  return int(syscall(SYS_getsockopt, fd, l, o, v, n));
}
using namespace rt;
using namespace net;

static std::string code_of(const std::string& w) { return w.substr(1, w.find('_') - 1); }
static std::string phrase_of(const std::string& w) { size_t i = w.find('_'); if (i == std::string::npos) return "E" + w.substr(1); std::string r = w.substr(i + 1); for (auto& x : r) if (x == '_') x = ' '; return r; }
// ---- the peer: does with the request of call k what the script says
struct Got { int conn; std::string line, head, body; };
struct Peer {
  int port, ls; bool use_tls, tunnel; std::vector<std::string> script; std::vector<Got> got; std::mutex m; std::thread acc; std::vector<std::thread> ts; std::atomic<bool> stop; std::atomic<int> nconn; int refuse; std::vector<std::string> connects;
  std::vector<int> fds;
  Peer(bool t, bool tu): use_tls(t), tunnel(tu), stop(false), nconn(0), refuse(0)
  {
    ls = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(ls, (sockaddr*)&a, sizeof a); listen(ls, 64);
    socklen_t l = sizeof a; getsockname(ls, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
    acc = std::thread([this] {
      while (!stop) {
        pollfd p = {ls, POLLIN, 0};
        if (poll(&p, 1, 20) <= 0) continue;
        int f = accept(ls, 0, 0);
        if (f < 0) continue;
        int n = nconn++;
        std::lock_guard<std::mutex> l(m);
        fds.push_back(f);
        ts.emplace_back([this, f, n] { try { serve(f, n); } catch (...) {} });
      }
    });
  }
  ~Peer() { stop = true; acc.join(); for (auto f : fds) shutdown(f, SHUT_RDWR); for (auto& t : ts) t.join(); close(ls); }
  static bool fill(tls::Chan& c, std::string& b) { char x[65536]; long k = c.rd(x, sizeof x); if (k <= 0) return false; b.append(x, size_t(k)); return true; }
  void serve(int fd, int n)
  {
    tls::Chan c(fd);
    std::string b;
    if (tunnel) {
      size_t h;
      while ((h = b.find("\r\n\r\n")) == std::string::npos) if (!fill(c, b)) return;
      { std::lock_guard<std::mutex> l(m); connects.push_back(b.substr(0, b.find("\r\n"))); }
      b.erase(0, h + 4);
      if (refuse) { c.wr("HTTP/1.0 " + std::to_string(refuse) + " Nope\r\ncontent-length: 0\r\n\r\n"); usleep(200000); return; }
      c.wr("HTTP/1.0 200 OK\r\n\r\n");
    }
    if (use_tls && !c.accept_tls()) return;
    for (;;) {
      size_t h;
      while ((h = b.find("\r\n\r\n")) == std::string::npos) if (!fill(c, b)) return;
      std::string head = b.substr(0, h + 2);
      size_t cl = head.find("content-length: "), len = cl == std::string::npos ? 0 : size_t(atol(head.c_str() + cl + 16));
      while (b.size() < h + 4 + len) if (!fill(c, b)) return;
      std::string body = b.substr(h + 4, len);
      b.erase(0, h + 4 + len);
      size_t at = body.find("<methodName>m");
      int k = at == std::string::npos ? -1 : atoi(body.c_str() + at + 13);
      std::string w;
      { std::lock_guard<std::mutex> l(m); got.push_back({n, head.substr(0, head.find("\r\n")), head, body}); w = k >= 0 && size_t(k) < script.size() ? script[k] : "ok"; }
      if (!answer(c, w, k)) return;
    }
  }
  static std::string msg(int k, const std::string& w)
  {
    std::string x = "<?xml version=\"1.0\"?><methodResponse>";
    if (w == "fault") x += "<fault><value><struct><member><name>faultCode</name><value><int>" + std::to_string(1000 + k) + "</int></value></member><member><name>faultString</name><value><string>f" + std::to_string(k) + "</string></value></member></struct></value></fault>";
    else x += "<params><param><value><string>answer " + std::to_string(k) + (w == "big" ? std::string(200000, 'b') : std::string()) + "</string></value></param></params>";
    return x + "</methodResponse>";
  }
  static std::string http(const std::string& body, const std::string& st = "200 OK") { return "HTTP/1.1 " + st + "\r\ncontent-length: " + std::to_string(body.size()) + "\r\ncontent-type: text/xml\r\n\r\n" + body; }
  bool answer(tls::Chan& c, const std::string& w, int k)
  {
    if (w == "ok" || w == "fault" || w == "big") return c.wr(http(msg(k, w)));
    if (w == "slow") { std::string t = http(msg(k, w)); for (size_t i = 0; i < t.size(); i += 37) { if (!c.wr(t.substr(i, 37))) return false; usleep(300); } return true; }
    if (w == "extra") return c.wr(http(msg(k, w)) + http(msg(k + 500, w)));           // bytes beyond the message in the same packet are dropped
    if (w == "okclose") { c.wr(http(msg(k, w))); usleep(30000); c.polite(); return false; }
    if (w[0] == 'e') return c.wr(http("", code_of(w) + " " + phrase_of(w)));             // e404, e404_Not_Found
    if (w[0] == '=') return c.wr(http(msg(k, "ok"), w.substr(1) + " OK"));                // =abc: a good answer but for the status
    if (w == "close") { c.drop(); return false; }
    if (w == "bye") { c.polite(); return false; }
    if (w == "half") { std::string t = http(msg(k, w)); c.wr(t.substr(0, t.size() - 20)); usleep(30000); c.polite(); return false; }
    if (w == "halfhead") { c.wr("HTTP/1.1 200 OK\r\ncontent-le"); usleep(30000); c.polite(); return false; }
    if (w == "garbage") return c.wr("this is not\r\nan http\r\n\r\nanswer");
    if (w == "nocolon") return c.wr("HTTP/1.1 200 OK\r\nnonsense\r\n\r\n");
    if (w == "notxml") return c.wr(http("this is not xml"));
    if (w == "wrongxml") return c.wr(http("<?xml version=\"1.0\"?><methodCall/>"));
    if (w == "empty") return c.wr(http(""));
    if (w == "late") { usleep(1500000); c.wr(http(msg(k, w))); return true; }          // after the client gave up
    if (w == "mute") { for (int i = 0; i < 40 && !stop; ++i) usleep(100000); return false; }
    return c.wr(http(msg(k, w)));
  }
};
static bool good(const std::string& w) { return w == "ok" || w == "fault" || w == "big" || w == "slow" || w == "extra" || w == "okclose"; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; std::istringstream is(s); std::string q; while (std::getline(is, q, ',')) r.push_back(q); return r; }

struct Outcome { std::string exc; int code; std::string text; bool fault; Outcome(): code(0), fault(false) {} };
static Outcome one(Client_base& c, int k)
{
  Outcome o;
  try {
    Response r = c.execute("m" + std::to_string(k), Param_list(1, Value("p" + std::to_string(k))));
    o.fault = r.is_fault();
    if (o.fault) { o.code = r.fault_code(); o.text = r.fault_string(); } else o.text = r.value().get_string();
  }
  catch (const Fail&) { throw; }
  catch (const http::Error_response& e) { o.exc = "http"; o.code = e.response_header()->code(); o.text = e.response_header()->phrase(); }
  catch (const Client_timeout&) { o.exc = "timeout"; }
  catch (const std::exception& e) { o.exc = "error"; o.text = e.what(); }
  return o;
}
static void seq(const Args& a)
{
  char mode = a.at(0)[0];
  bool use_tls = mode == 's' || mode == 't', keep = a.at(1) == "k";
  auto ws = words(a.at(2));
  Peer p(use_tls, mode == 't');
  p.script = ws;
  std::unique_ptr<Client_base> c;
  int dead = 1;                                                            // with a proxy the named server is never contacted
  iqnet::Inet_addr to("127.0.0.1", mode == 'p' || mode == 't' ? dead : p.port);
  if (use_tls) c.reset(new Client<Https_client_connection>(to, "/RPC", "vhost")); else c.reset(new Client<Http_client_connection>(to, "/RPC", "vhost"));
  if (mode == 'p' || mode == 't') c->set_proxy(iqnet::Inet_addr("127.0.0.1", p.port));
  c->set_keep_alive(keep);
  c->set_timeout(a.at(2).find("late") != std::string::npos || a.at(2).find("mute") != std::string::npos ? 1 : 5);
  int last = -1; bool prev_ok = false, maybe = false;
  for (size_t k = 0; k < ws.size(); ++k) {
    const std::string& w = ws[k];
    std::string at = " of call " + std::to_string(k) + " (" + w + ")";
    Outcome o = one(*c, int(k));
    // a peer that closed the connection after a good answer: the next call may fail, but must not lie
    if (maybe && !o.exc.empty() && o.exc != "http") { prev_ok = false; maybe = false; last = p.nconn - 1; continue; }
    bool was_maybe = maybe;
    maybe = keep && mode != 't' && w == "okclose";
    if (good(w)) {
      expect(o.exc.empty(), "error " + o.exc + " " + o.text + at);
      expect_eq(o.fault, w == "fault", "fault" + at);
      if (o.fault) { expect_eq(o.code, 1000 + int(k), "fault code" + at); expect_str(o.text, "f" + std::to_string(k), "fault text" + at); }
      else expect_str(o.text.substr(0, 30), ("answer " + std::to_string(k) + (w == "big" ? std::string(200000, 'b') : std::string())).substr(0, 30), "answer" + at);
      if (w == "big") expect_eq(o.text.size(), 200007 + std::to_string(k).size() - 0u, "length of the answer" + at);
    }
    else if (w[0] == 'e' && w != "empty") { expect_eq(o.exc, "http", "outcome" + at); expect_eq(std::to_string(o.code), code_of(w), "status" + at); expect_str(o.text, phrase_of(w).substr(0, phrase_of(w).find(' ')), "phrase" + at); }
    else if (w == "late" || w == "mute") expect_eq(o.exc, "timeout", "outcome" + at);
    else expect(!o.exc.empty() && (use_tls || o.exc != "timeout"), "no error" + at + ": outcome '" + o.exc + "' " + o.text);
    int cn, nreq = 0; Got g;
    { std::lock_guard<std::mutex> l(p.m); for (auto& x : p.got) if (x.body.find("<methodName>m" + std::to_string(k) + "<") != std::string::npos) { g = x; ++nreq; } cn = nreq ? g.conn : -1; }
    expect_eq(nreq, 1, "requests sent" + at);
    expect(g.body.find("p" + std::to_string(k) + "<") != std::string::npos, "parameters" + at);
    expect_str(g.line, mode == 'p' ? "POST http://vhost:1/RPC HTTP/1.0" : "POST /RPC HTTP/1.0", "request line" + at);
    expect(g.head.find(keep ? "connection: keep-alive\r\n" : "connection: close\r\n") != std::string::npos, "connection option" + at + " " + show(g.head));
    if (mode == 't') { if (!p.connects.empty()) expect_str(p.connects.back(), "CONNECT 127.0.0.1:1 HTTP/1.0", "tunnel request" + at); }
    if (k && !was_maybe && mode != 't') {
      if (keep && prev_ok) expect_eq(cn, last, "connection" + at + " after a success with keep-alive");
      else expect(cn != last, "connection used again" + at);
    }
    last = cn; prev_ok = o.exc.empty();
  }
}
static void conn(const Args& a)
{
  char mode = a.at(0)[0];
  bool use_tls = mode == 's' || mode == 't'; int e = atoi(a.at(2).c_str());
  Peer p(use_tls, mode == 't');
  p.script = {"ok", "ok", "ok"};
  std::unique_ptr<Client_base> c;
  iqnet::Inet_addr to("127.0.0.1", mode == 'p' || mode == 't' ? 1 : p.port);
  if (use_tls) c.reset(new Client<Https_client_connection>(to, "/RPC", "vhost")); else c.reset(new Client<Http_client_connection>(to, "/RPC", "vhost"));
  if (mode == 'p' || mode == 't') c->set_proxy(iqnet::Inet_addr("127.0.0.1", p.port));
  c->set_timeout(4);
  (a.at(1) == "now" ? conn_now : conn_later) = e;
  Outcome o = one(*c, 0);
  conn_now = 0; conn_later = -1;
  size_t n; { std::lock_guard<std::mutex> l(p.m); n = p.got.size(); }
  if (e) { expect_eq(o.exc, "error", "outcome when connecting fails " + a[1] + " with " + strerror(e)); expect_eq(n, size_t(0), "requests sent although connecting failed"); }
  else { expect_eq(o.exc, "", "outcome of a connection that takes its time"); expect_str(o.text, "answer 0", "answer"); }
  o = one(*c, 1);
  expect_eq(o.exc, "", "outcome of the call after that"); expect_str(o.text, "answer 1", "answer after that");
}
// toggle <h|s|p> <letters>: keep-alive switched on (k) or off (n) before each call
static void toggle(const Args& a)
{
  char mode = a.at(0)[0]; const std::string& w = a.at(1);
  Peer p(mode == 's', false);
  std::unique_ptr<Client_base> c;
  iqnet::Inet_addr to("127.0.0.1", mode == 'p' ? 1 : p.port);
  if (mode == 's') c.reset(new Client<Https_client_connection>(to, "/RPC", "vhost")); else c.reset(new Client<Http_client_connection>(to, "/RPC", "vhost"));
  if (mode == 'p') c->set_proxy(iqnet::Inet_addr("127.0.0.1", p.port));
  c->set_timeout(5);
  int last = -1, most = -1;
  for (size_t i = 0; i < w.size(); ++i) {
    std::string at = " of call " + std::to_string(i) + " (" + w + ")";
    c->set_keep_alive(w[i] == 'k');
    Outcome o = one(*c, int(i));
    expect_eq(o.exc, "", "outcome" + at); expect_str(o.text, "answer " + std::to_string(i), "answer" + at);
    int cn; std::string head; { std::lock_guard<std::mutex> l(p.m); expect_eq(p.got.size(), i + 1, "requests" + at); cn = p.got[i].conn; head = p.got[i].head; }
    expect(head.find(w[i] == 'k' ? "connection: keep-alive\r\n" : "connection: close\r\n") != std::string::npos, "connection option" + at);
    if (i) { if (w[i] == 'k' && w[i - 1] == 'k') expect_eq(cn, last, "connection" + at); else expect(cn > most, "connection used again" + at); }
    last = cn; most = std::max(most, cn);
  }
}
static void refused(const Args&)
{
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", free_port()), "/RPC");
  c.set_timeout(3);
  for (int i = 0; i < 3; ++i) expect_eq(one(c, i).exc, "error", "outcome of a refused connection");
}
static void full(const Args&)
{
  int ls = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(ls, (sockaddr*)&a, sizeof a); listen(ls, 0);
  socklen_t l = sizeof a; getsockname(ls, (sockaddr*)&a, &l);
  std::vector<int> fs;
  for (int i = 0; i < 6; ++i) { int f = socket(AF_INET, SOCK_STREAM, 0); fcntl(f, F_SETFL, O_NONBLOCK); connect(f, (sockaddr*)&a, sizeof a); fs.push_back(f); }
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", ntohs(a.sin_port)), "/RPC");
  c.set_timeout(1);
  auto n = [] { int k = 0; for (int i = 0; i < 1024; ++i) if (fcntl(i, F_GETFD) != -1) ++k; return k; };
  int before = n();
  std::string e = one(c, 0).exc;
  int after = n();
  for (int f : fs) close(f);
  close(ls);
  expect_eq(e, "timeout", "outcome when the server does not accept");
  expect_eq(after, before, "open descriptors after a timeout");
}
// the peer takes the connection but nothing of a request larger than the buffers between them
static void stall(const Args& a)
{
  bool keep = a.at(0) == "k"; size_t n = size_t(atol(a.at(1).c_str()));
  int ls = socket(AF_INET, SOCK_STREAM, 0);
  int small = 4096; setsockopt(ls, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
  sockaddr_in ad = sockaddr_in(); ad.sin_family = AF_INET; ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(ls, (sockaddr*)&ad, sizeof ad); listen(ls, 4);
  socklen_t l = sizeof ad; getsockname(ls, (sockaddr*)&ad, &l);
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", ntohs(ad.sin_port)), "/RPC");
  c.set_keep_alive(keep); c.set_timeout(1);
  std::string e = "none"; auto t0 = time(0);
  try { c.execute("m", Param_list(1, Value(std::string(n, 'a')))); } catch (const Client_timeout&) { e = "timeout"; } catch (const std::exception& x) { e = x.what(); }
  long took = long(time(0) - t0);
  close(ls);
  expect_eq(e, "timeout", "outcome when the server does not take the request");
  expect(took <= 30, "the timeout was reported after " + std::to_string(took) + " s");
}
// now <h|s> <k|n>: no time to wait
static void now(const Args& a)
{
  bool use_tls = a.at(0) == "s";
  Peer p(use_tls, false);
  p.script = {"mute", "mute"};
  std::unique_ptr<Client_base> c;
  iqnet::Inet_addr to("127.0.0.1", p.port);
  if (use_tls) c.reset(new Client<Https_client_connection>(to, "/RPC", "vhost")); else c.reset(new Client<Http_client_connection>(to, "/RPC", "vhost"));
  c->set_keep_alive(a.at(1) == "k"); c->set_timeout(0);
  Outcome o = one(*c, 0);
  p.stop = true;
  expect_eq(o.exc, "timeout", "outcome when there is no time to wait");
}
static void proxyno(const Args& a)
{
  Peer p(true, true);
  p.refuse = atoi(a.at(0).c_str());
  Client<Https_client_connection> c(iqnet::Inet_addr("127.0.0.1", 1), "/RPC", "vhost");
  c.set_proxy(iqnet::Inet_addr("127.0.0.1", p.port));
  c.set_timeout(3);
  Outcome o = one(c, 0);
  expect_eq(o.exc, "http", "outcome when the proxy refuses"); expect_eq(o.code, p.refuse, "status of the proxy"); expect_str(o.text, "Nope", "phrase of the proxy");
}
static void battery(Rng& g, bool thorough)
{
  std::vector<std::string> w = {"ok", "fault", "slow", "extra", "e404", "e500", "e201", "e100", "close", "bye", "half", "halfhead", "garbage", "nocolon", "notxml", "wrongxml", "empty", "okclose", "big"};
  for (const char* m : {"h", "p", "s"}) for (const char* k : {"k", "n"}) {
    for (auto& x : w) { if (m[0] != 'h' && (x == "e201" || x == "nocolon")) continue; run(std::string("seq ") + m + " " + k + " ok," + x + ",ok,ok"); }
    run(std::string("seq ") + m + " " + k + " ok,late,ok,ok");
    run(std::string("seq ") + m + " " + k + " mute,ok");
  }
  for (const char* x : {"ok", "fault", "e404", "close", "garbage", "notxml", "half"}) { run(std::string("seq t n ") + x + ",ok"); run(std::string("seq t n ok,") + x); }
  for (const char* x : {"=abc", "=20", "=2000", "=0", "=200x", "=0x200", "=-200", "=199", "=206", "=299", "=304"}) { run(std::string("seq h k ok,") + x + ",ok"); run(std::string("seq h n ") + x + ",ok"); run(std::string("seq s n ") + x); }
  for (const char* m : {"h", "s", "p", "t"}) for (const char* k : {"now", "later"}) {
    run(std::string("conn ") + m + " " + k + " 0");
    for (int e : {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES, EADDRNOTAVAIL}) run(std::string("conn ") + m + " " + k + " " + std::to_string(e));
  }
  std::set<long> codes = {101, 199, 202, 204, 206, 299, 300, 301, 302, 304, 399, 400, 401, 403, 407, 408, 411, 413, 417, 499, 501, 502, 503, 504, 599, 600, 700, 999};
  for (auto v : lit_nums()) for (long d : {-1, 0, 1}) if (long(v) + d >= 100 && long(v) + d <= 999 && long(v) + d != 200) codes.insert(long(v) + d);
  std::string all; unsigned nc = 0;
  for (long v : codes) { all += (all.empty() ? "e" : ",e") + std::to_string(v); if (++nc % 8 == 0) { run("seq h n " + all); all.clear(); } }
  if (!all.empty()) run("seq h k " + all);
  run("seq h k e404_Not_Found,ok,e500_Internal_Server_Error,e401_A_b_c_d,ok"); run("seq s n e404_Not_Found"); run("seq h n e599_x,e302_" + std::string(300, 'p'));
  for (const char* m : {"h", "s", "p"}) for (const char* w : {"kn", "nk", "kkn", "knk", "nkkn", "kknnkk", "knn", "nn"}) run(std::string("toggle ") + m + " " + w);
  run("now h k"); run("now h n"); run("now s n");
  run("seq t n mute");
  run("refused"); run("full"); run("stall k 8000000"); run("stall n 8000000"); run("stall n 100"); run("proxyno 403"); run("proxyno 407"); run("proxyno 201");
  for (unsigned i = 0, n = thorough ? 200 : 40; i < n; ++i) { std::string s; for (unsigned k = 2 + g.upto(6); k; --k) s += (s.empty() ? "" : ",") + w[g.upto(w.size())]; run(std::string("seq ") + (g.coin(3) ? "s" : g.coin(4) ? "p" : "h") + (g.coin(3) ? " n " : " k ") + s); }
}
int main(int c, char** v)
{
  signal(SIGPIPE, SIG_IGN);
  iqnet::ssl::ctx = iqnet::ssl::Ctx::client_only();
  ops()["seq"] = seq; ops()["refused"] = refused; ops()["full"] = full; ops()["stall"] = stall; ops()["proxyno"] = proxyno; ops()["now"] = now; ops()["conn"] = conn; ops()["toggle"] = toggle;
  return main_(c, v, battery);
}
