// C09: byte streams cut into chunks under a size limit.
#include "http_oracle.h"
#include "net.h"
using namespace rt;
using namespace iqxmlrpc;

// stream <limit> <chunk> <chunk> ...
static void stream(const Args& a)
{
  size_t limit = strtoull(a.at(0).c_str(), 0, 10);
  http::Packet_reader rd;
  if (limit) rd.set_max_size(limit);
  std::string b;
  int msgs = 0;
  for (size_t i = 1; i < a.size(); ++i) {
    std::string s = unhex(a[i]), at = "limit " + a[0] + ", chunk " + std::to_string(i - 1) + " of message " + std::to_string(msgs);
    size_t l = 0, t = ho::term(b, l);
    bool hadhdr = t != std::string::npos;
    unsigned long n = 0;
    int st = 0; bool msg = false; std::string body;
    if (hadhdr && limit) { ho::H h = ho::header(b.substr(0, t), false, true); ho::number(h.o["content-length"], n); if (n + t >= limit) st = 413; }
    b += s;
    if (limit && b.size() >= limit) st = 413;
    if (!st && !hadhdr && s.empty()) st = ho::MALFORMED;
    if (!st && (t = ho::term(b, l)) != std::string::npos) {
      ho::H h = ho::header(b.substr(0, t), false, true);
      std::string rest = b.substr(t + l);
      if (h.status) st = h.status;
      else if (!h.o.count("content-length")) st = 411;
      else { ho::number(h.o["content-length"], n); if (rest.size() >= n) { msg = true; body = rest.substr(0, n); } }
    }
    std::unique_ptr<http::Packet> p;
    int got = ho::status([&]{ p.reset(rd.read_request(s)); });
    expect_eq(got, st, at + ": status [0 none, 1 malformed]");
    if (st) return;
    expect_eq(bool(p), msg, at + ": message delivered");
    if (!msg) continue;
    expect_str(p->content(), body, at + ": body");
    b.clear(); msgs++;
  }
}

static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string q; for (char x : s) if (x == c) { r.push_back(q); q.clear(); } else q += x; r.push_back(q); return r; }
// srv <limit> <request size>,<request size>,...: complete requests of these sizes on one connection of a real server; a size ":L" sets the limit anew
static void srv(const Args& a)
{
  net::Srv x(0, false);
  size_t limit = strtoull(a.at(0).c_str(), 0, 10);
  if (limit || a.at(0) == "0") x.s->set_max_request_sz(limit);
  expect_eq(x.s->get_max_request_sz(), limit, "limit set");
  x.start();
  net::seen().take();
  net::Cli c(x.port);
  int k = 0;
  for (const std::string& w : split(a.at(1), ',')) {
    if (w[0] == ':') { limit = strtoull(w.c_str() + 1, 0, 10); x.s->set_max_request_sz(limit); continue; }
    size_t n = strtoull(w.c_str(), 0, 10);
    std::string b = net::call("echo", net::p_str("v"));
    std::string m = net::http_req(b, "keep-alive");
    for (int i = 0; i < 4 && m.size() != n; i++) { b += std::string(n > m.size() ? n - m.size() : 0, ' '); m = net::http_req(b, "keep-alive"); if (m.size() > n) { b.resize(b.size() - (m.size() - n)); m = net::http_req(b, "keep-alive"); } }
    std::string at = "request " + std::to_string(k++) + " of " + std::to_string(m.size()) + " bytes under limit " + std::to_string(limit);
    bool refuse = limit && m.size() >= limit;
    c.put(m);
    net::Ans r = c.get();
    expect(!r.eof, at + ": answered");
    expect_eq(r.code, refuse ? 413 : 200, at + ": status");
    expect_eq(net::seen().take().size(), refuse ? 0u : 1u, at + ": methods executed");
    if (refuse) return;
  }
}

static std::vector<std::string> cut(Rng& g, const std::string& s, unsigned mode)
{
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t n = mode == 0 ? 1 : mode == 1 ? s.size() : 1 + g.upto(mode == 2 ? 3 : 20);
    r.push_back(s.substr(i, n)); i += n;
  }
  return r;
}
static std::string line(const std::string& kind, const std::vector<std::string>& c)
{
  std::string r = "stream " + kind;
  for (auto& x : c) r += " " + hex(x);
  return r;
}
static std::string msg(Rng& g, unsigned n, unsigned declared)
{
  static const std::vector<std::string> eol = {"\r\n", "\n"};
  std::string e = g.pick(eol), end = g.coin(3) ? (e == "\n" ? "\r\n\r\n" : "\n\n") : e + e;
  static const std::vector<std::string> fill = {"\r", "\n", "a", "\r\n", "\n\n", "\r\n\r\n", "z"};
  std::string body;
  while (body.size() < n) body += g.pick(fill);
  body.resize(n);
  std::string h = "POST /p HTTP/1.0";
  h += e + "a: 1";
  if (!g.coin(12)) h += e + "Content-Length: " + std::to_string(declared);
  if (g.coin(9)) h += e + ho::gen_line(g);
  return h + end + body;
}
static void battery(Rng& g, bool thorough)
{
  std::string h = "POST / x\r\ncontent-length: 10\r\n\r\n", m = h + "0123456789";
  for (size_t lim = 1; lim < m.size() + 6; ++lim) {
    for (unsigned mode : {0, 1, 2, 3}) {
      auto c = cut(g, m, mode), d = cut(g, m, 3);
      run(line(std::to_string(lim), c));
      c.insert(c.end(), d.begin(), d.end()); run(line(std::to_string(lim), c));
      c.insert(c.end(), d.begin(), d.end()); run(line(std::to_string(lim), c));
    }
    run(line(std::to_string(lim), {h, "0123456789"}));
    run(line(std::to_string(lim), {h + "01234", "56789", m, m}));
    run(line(std::to_string(lim), {"POST / x\r\ncontent-length: 4294967295\r\n\r\n", "a"}));
    run(line(std::to_string(lim), {std::string(lim, 'a')}));
    run(line(std::to_string(lim), {std::string(lim - 1, 'a'), "b"}));
  }
  for (auto v : lit_nums()) if (v > 60 && v < 200000) for (int d : {-1, 0, 1}) for (int e : {-1, 0, 1}) {
    size_t lim = size_t(v + d); std::string len = std::to_string(lim);
    for (size_t body : {lim - std::string("POST / x\r\ncontent-length: " + len + "\r\n\r\n").size() + e}) if (body < 1000000) { std::string hh = "POST / x\r\ncontent-length: " + std::to_string(body) + "\r\n\r\n"; run(line(len, {hh + std::string(body, 'b')})); run(line(len, {hh, std::string(body, 'b')})); }
  }
  run(line("4294967296", {"POST / x\r\ncontent-length: 4294967295\r\n\r\n", "a"}));
  run(line("4294967294", {"POST / x\r\ncontent-length: 4294967290\r\n\r\n", "a"}));
  run(line("5000000000", {"POST / x\r\ncontent-length: 4294967290\r\n\r\n", "a"}));
  run(line("18446744073709551615", {h, "0123456789"}));
  run(line("0", {h, "0123456789"}));
  run(line("0", {"POST / x\r\nlong: " + std::string(200000, 'q'), "\r\ncontent-length: 100000\r\n\r\n", std::string(100000, 'b')}));
  {
    auto S = [](size_t v) { return std::to_string(v); };
    for (size_t L : {300, 301, 1000, 1024, 4096, 30000}) {
      for (long d : {-2, -1, 0, 1}) run("srv " + S(L) + " " + S(L + d));
      run("srv " + S(L) + " " + S(L - 1) + "," + S(L - 1) + "," + S(L - 1) + "," + S(L));
      run("srv " + S(L) + " 280,:" + S(L + 500) + "," + S(L + 499) + "," + S(L + 500));
      run("srv " + S(L) + " 280,:0," + S(L + 10) + ",:" + S(L) + "," + S(L));
    }
    for (const char* d : {"none", "0"}) run(std::string("srv ") + d + " 300,60000,300");
  }
  // what is left of a long message does not count for the next
  for (size_t body : {100, 5000, 70000, 300000}) {
    std::string big = "POST / x\r\ncontent-length: " + std::to_string(body) + "\r\n\r\n";
    for (size_t lim : {body + 60, body * 3 / 2 + 200}) {
      run(line(std::to_string(lim), {big + std::string(body, 'b'), m, big, std::string(body, 'c'), m}));
      run(line(std::to_string(lim), {big, std::string(body / 2, 'b'), std::string(body - body / 2, 'b'), big + std::string(body, 'c')}));
      run(line(std::to_string(lim), {"POST / x\r\nlong: " + std::string(body - 30, 'q') + "\r\n", "content-length: 2\r\n\r\n", "ab", m, big + std::string(body, 'c')}));
    }
  }
  unsigned n = thorough ? 40000 : 6000;
  for (unsigned i = 0; i < n; ++i) {
    std::vector<std::string> c;
    unsigned lim = g.coin(6) ? 0 : 20 + g.upto(60);
    for (unsigned k = 1 + g.upto(4); k--;) { unsigned b = g.upto(25); auto x = cut(g, msg(g, b, g.coin(5) ? g.upto(60) : b), g.upto(4)); c.insert(c.end(), x.begin(), x.end()); }
    run(line(std::to_string(lim), c));
  }
}
int main(int c, char** v)
{
  ops()["stream"] = stream; ops()["srv"] = srv;
  return main_(c, v, battery);
}
