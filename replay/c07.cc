// C07: byte streams cut into chunks, against the framing written in the property.
#include "http_oracle.h"
using namespace rt;
using namespace iqxmlrpc;

struct Out { int status; bool msg; std::string body; size_t at; ho::H h; };   // first event of a stream: message or refusal, and the chunk it happens in

// stream <req|rsp> <strict> <header_only: 0 | 1 | 2 every other message> <chunk> <chunk> ...
static void stream(const Args& a)
{
  bool req = a.at(0) == "req", strict = a.at(1) == "1", ho_;
  http::Packet_reader rd;
  rd.set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
  std::string b, all;      // bytes of the current message
  int msgs = 0;
  for (size_t i = 3; i < a.size(); ++i) {
    std::string s = unhex(a[i]), at = "chunk " + std::to_string(i - 3) + " of message " + std::to_string(msgs);
    bool hadhdr; size_t l = 0;
    ho_ = a.at(2) == "1" || (a.at(2) == "2" && msgs % 2 == 0);
    hadhdr = ho::term(b, l) != std::string::npos;
    b += s;
    // expectation
    int st = 0; bool msg = false; std::string body; ho::H h;
    size_t t = ho::term(b, l);
    if (!hadhdr && s.empty()) st = ho::MALFORMED;
    else if (t != std::string::npos) {
      h = ho::header(b.substr(0, t), strict, req);
      std::string rest = b.substr(t + l);
      unsigned long n = 0;
      if (h.status) st = h.status;
      else if (ho_) msg = true;
      else if (!h.o.count("content-length")) st = 411;
      else { ho::number(h.o["content-length"], n); if (rest.size() >= n) { msg = true; body = rest.substr(0, n); } }
    }
    std::unique_ptr<http::Packet> p;
    int got = ho::status([&]{ p.reset(req ? rd.read_request(s) : rd.read_response(s, ho_)); });
    expect_eq(got, st, at + ": status [0 none, 1 malformed]");
    if (st) return;
    expect_eq(bool(p), msg, at + ": message delivered");
    if (!msg) continue;
    expect_str(p->content(), body, at + ": body");
    std::set<std::string> skip = {"content-length", "content-type"};
    ho::same(*p->header(), h, at, skip);
    expect_eq(p->header()->content_length(), body.size(), at + ": content-length of the delivered message");
    if (req) expect_str(static_cast<const http::Request_header*>(p->header())->uri(), h.uri, at + ": uri");
    else expect_eq(static_cast<const http::Response_header*>(p->header())->code(), h.code, at + ": code");
    b.clear(); msgs++;
  }
}

static std::vector<std::string> cut(Rng& g, const std::string& s, unsigned mode)
{
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t n = mode == 0 ? 1 : mode == 1 ? s.size() : 1 + g.upto(mode == 2 ? 3 : 20);
    r.push_back(s.substr(i, n)); i += n;
  }
  return r;
}
static std::string line(const std::string& kind, const std::vector<std::string>& c)
{
  std::string r = "stream " + kind;
  for (auto& x : c) r += " " + hex(x);
  return r;
}
static std::string msg(Rng& g, bool req)
{
  static const std::vector<std::string> eol = {"\r\n", "\n"};
  std::string e = g.pick(eol), end = g.coin(3) ? (e == "\n" ? "\r\n\r\n" : "\n\n") : e + e;
  unsigned n = g.coin(3) ? 0 : g.upto(12);
  static const std::vector<std::string> fill = {"\r", "\n", "a", "\r\n", "\n\n", "\r\n\r\n", "z"};
  std::string body;
  while (body.size() < n) body += g.pick(fill);
  body.resize(n);
  std::string h = req ? "POST /p HTTP/1.0" : "HTTP/1.1 200 OK";
  h += e + "a: 1";
  if (!g.coin(12)) h += e + "Content-Length: " + std::to_string(n);
  if (g.coin(4)) h += e + ho::gen_line(g);
  return h + end + body;
}
static void battery(Rng& g, bool thorough)
{
  // every two-way and three-way cut of some messages
  std::vector<std::string> ms = {
    "POST / x\r\ncontent-length: 3\r\n\r\nabc", "POST / x\ncontent-length: 3\n\nabc", "POST / x\ncontent-length: 4\n\n\r\n\r\n", "POST / x\r\ncontent-length: 4\r\n\r\n\n\n\n\n",
    "POST / x\ncontent-length: 6\n\na\r\n\r\nb", "POST / x\r\ncontent-length: 0\r\n\r\n", "POST / x\r\ncontent-length: 2\r\n\n\nab", "POST / x\r\n\r\n", "POST / x\r\ncontent-length: 1\r\n\r\nABC", "GET / x\r\n\r\n"};
  for (auto& m : ms)
    for (size_t i = 1; i <= m.size(); ++i) {
      run(line("req 0 0", {m.substr(0, i), m.substr(i)}));
      if (i + 3 < m.size()) run(line("req 0 0", {m.substr(0, i), m.substr(i, 2), m.substr(i + 2)}));
    }
  for (auto& m : ms) {
    run(line("req 1 0", cut(g, m, 0)));
    run(line("req 0 0", cut(g, m + "", 1)));
    run(line("rsp 0 1", cut(g, "HTTP/1.1 200 OK" + m.substr(8), 0)));
    for (auto& m2 : ms) { auto c = cut(g, m, 2), d = cut(g, m2, 2), e = c; c.insert(c.end(), d.begin(), d.end()); run(line("req 0 0", c)); c.insert(c.end(), e.begin(), e.end()); run(line("req 0 0", c)); }
  }
  run("stream req 0 0 -"); run("stream rsp 0 0 -"); run("stream req 0 0 " + hex("POST") + " -");
  run("stream req 0 0 " + hex("POST / x\ncontent-length: 2\n\na") + " - " + hex("b"));
  for (auto& m : ms) for (auto& m2 : ms) for (unsigned k : {0, 1, 3}) {
    auto c = cut(g, "HTTP/1.1 200 OK" + m.substr(8), k), d = cut(g, "HTTP/1.1 200 OK" + m2.substr(8), 1);
    c.insert(c.end(), d.begin(), d.end());
    run(line("rsp 0 2", c));
  }
  // lengths of header and body, all bytes
  for (unsigned n : sizes(70000)) {
    std::string b, l = "POST / x\r\na: " + std::string(n, 'v') + "\r\ncontent-length: ";
    while (b.size() < n) b += char(b.size() * 7 % 256);
    std::string m = "POST / x\r\ncontent-length: " + std::to_string(n) + "\r\n\r\n", k = "POST / x\r\ncontent-length: 2\r\n\r\n";
    run(line("req 0 0", {m + b}));
    run(line("req 0 0", n ? std::vector<std::string>{m, b, k, "ab"} : std::vector<std::string>{m, k, "ab"}));
    run(line("req 0 0", {m + b + "extra", k + "ab"}));
    if (n > 1) run(line("req 0 0", {m, b.substr(0, n / 2), b.substr(n / 2), k, "a", "b"}));
    if (n > 1) run(line("req 0 0", {m + b.substr(0, 1), b.substr(1, n - 2), b.substr(n - 1), k, "a", "b"}));
    run(line("req 0 0", {l + "3\r\n\r\nabc", k + "ab"}));
    run(line("req 0 0", {l + "3\r", "\n\r\nabc", k + "ab"}));
    if (n) run(line("req 0 0", {l.substr(0, n), l.substr(n), "3\r\n\r", "\nab", "c", k + "ab"}));
  }
  unsigned n = thorough ? 40000 : 6000;
  for (unsigned i = 0; i < n; ++i) {
    bool rq = g.coin();
    std::vector<std::string> c;
    for (unsigned k = 1 + g.upto(3); k--;) { auto x = cut(g, msg(g, rq) + (g.coin(8) ? g.from("\r\n:a", g.upto(5)) : ""), g.upto(4)); c.insert(c.end(), x.begin(), x.end()); }
    if (g.coin(12)) c.insert(c.begin() + g.upto(c.size() + 1), "");
    run(line(std::string(rq ? "req " : "rsp ") + (g.coin() ? "0 " : "1 ") + (!rq && g.coin(5) ? g.coin() ? "1" : "2" : "0"), c));
  }
}
int main(int c, char** v)
{
  ops()["stream"] = stream;
  return main_(c, v, battery);
}
