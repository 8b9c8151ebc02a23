// C10: messages printed by the real code, read back byte by byte.
#include "http_oracle.h"
#include "libiqxmlrpc/http_errors.h"
using namespace rt;
using namespace iqxmlrpc;

struct Msg { std::string start; std::vector<std::pair<std::string, std::string>> o; std::string body; };
static Msg cut(const std::string& t)
{
  Msg m;
  size_t at = 0;
  bool first = true;
  for (;;) {
    size_t e = t.find("\r\n", at);
    if (e == std::string::npos) fail("no empty line after the header in " + show(t));
    std::string l = t.substr(at, e - at);
    at = e + 2;
    if (first) { m.start = l; first = false; continue; }
    if (l.empty()) break;
    size_t c = l.find(": ");
    if (c == std::string::npos) fail("option line " + show(l) + " is not 'name: value'");
    m.o.push_back(std::make_pair(l.substr(0, c), l.substr(c + 2)));
  }
  m.body = t.substr(at);
  return m;
}
static std::string one(const Msg& m, const std::string& k)
{
  std::string v; int n = 0;
  for (auto& o : m.o) if (o.first == k) { v = o.second; ++n; }
  expect_eq(n, 1, "number of " + k + " lines");
  return v;
}
static int cnt(const Msg& m, const std::string& k) { int n = 0; for (auto& o : m.o) n += o.first == k; return n; }
static bool clean(const std::string& s) { return s.find_first_of("\r\n") == std::string::npos; }
static std::map<std::string, std::string> opts(const std::string& s)
{
  std::map<std::string, std::string> r;
  std::istringstream is(s); std::string w;
  while (std::getline(is, w, ';')) { size_t e = w.find('='); if (e != std::string::npos) r[w.substr(0, e)] = w.substr(e + 1); }
  return r;
}
// checks common to both directions; ka: -1 not asked, 0/1 asked
static void common(http::Packet& p, const std::string& start, const std::string& body, const std::map<std::string, std::string>& x, int ka)
{
  if (ka >= 0) p.set_keep_alive(ka == 1);
  Msg m = cut(p.dump());
  expect_str(m.start, start, "start line");
  expect_str(m.body, body, "body");
  expect_str(one(m, "content-length"), std::to_string(body.size()), "content-length");
  if (!body.empty()) expect_str(one(m, "content-type"), "text/xml", "content-type");
  else if (!x.count("content-type")) expect_eq(cnt(m, "content-type"), 0, "content-type lines without a body");
  expect_str(one(m, "connection"), ka == 1 ? "keep-alive" : "close", "connection");
  for (auto& k : x) if (k.first != "content-length" && k.first != "content-type" && k.first != "connection") expect_str(one(m, k.first), k.second, "option " + k.first);
  expect_str(p.dump(), p.dump(), "second printing");
  std::set<std::string> s;
  for (auto& k : m.o) expect(s.insert(k.first).second, "option " + show(k.first) + " printed twice");
}
static void addx(http::Header& h, const std::map<std::string, std::string>& x)
{
  XHeaders xh;
  for (auto& k : x) {
    if (k.first.compare(0, 2, "x-") == 0) xh[k.first] = k.second;
    else h.set_option(k.first, k.second);
  }
  h.set_xheaders(xh);
}
// rsp <code> <phrase> <body> [ka] [extra]
static void rsp(const Args& a)
{
  int code = std::stoi(a.at(0));
  std::string ph = unhex(a.at(1)), b = unhex(a.at(2));
  if (!clean(ph)) return;
  int ka = a.size() > 3 ? std::stoi(a[3]) : -1;
  auto x = opts(a.size() > 4 ? unhex(a[4]) : "");
  std::unique_ptr<http::Response_header> h(new http::Response_header(code, ph));
  http::Response_header* hp = h.get();
  addx(*hp, x);
  http::Packet p(h.release(), b);
  common(p, "HTTP/1.1 " + std::to_string(code) + " " + ph, b, x, ka);
  Msg m = cut(p.dump());
  expect(one(m, "server").find("iqxmlrpc") != std::string::npos, "server option " + show(one(m, "server")));
  std::string d = one(m, "date");
  expect(d.size() == 29 && d.substr(25) == " GMT" && d[3] == ',', "date " + show(d));
  expect_eq(hp->code(), code, "code()");
  expect_str(hp->phrase(), ph, "phrase()");
}
// req <uri> <vhost> <port> <body> [ka] [extra]
static void req(const Args& a)
{
  std::string u = unhex(a.at(0)), v = unhex(a.at(1)), b = unhex(a.at(3));
  int port = std::stoi(a.at(2));
  if (!clean(u) || !clean(v)) return;
  int ka = a.size() > 4 ? std::stoi(a[4]) : -1;
  auto x = opts(a.size() > 5 ? unhex(a[5]) : "");
  std::unique_ptr<http::Request_header> h(new http::Request_header(u, v, port));
  http::Request_header* hp = h.get();
  addx(*hp, x);
  http::Packet p(h.release(), b);
  common(p, "POST " + u + " HTTP/1.0", b, x, ka);
  Msg m = cut(p.dump());
  expect_str(one(m, "host"), v + ":" + std::to_string(port), "host");
  expect(one(m, "user-agent").find("iqxmlrpc") != std::string::npos, "agent " + show(one(m, "user-agent")));
  expect_str(hp->uri(), u, "uri()");
  // what is printed can be read back when the URI is a single plain word and no option needs trimming
  bool plain = !u.empty();
  for (char c : u) plain = plain && (unsigned char)c > 32 && (unsigned char)c < 127;
  if (plain && x.empty() && ho::trim(v) == v) {
    http::Packet_reader rd;
    std::unique_ptr<http::Packet> q(rd.read_request(p.dump()));
    expect(q.get() != 0, "message read back is incomplete");
    expect_str(q->content(), b, "body read back");
    expect_str(static_cast<const http::Request_header*>(q->header())->uri(), u, "URI read back");
    expect_str(static_cast<const http::Request_header*>(q->header())->host(), v + ":" + std::to_string(port), "host read back");
    expect_eq(q->header()->conn_keep_alive(), ka == 1, "keep-alive read back");
  }
}
template <class T> static void err(T e, int code)
{
  Msg m = cut(e.dump());
  expect(m.start.compare(0, 13, "HTTP/1.1 " + std::to_string(code) + " ") == 0, "start line of error " + std::to_string(code) + ": " + show(m.start));
  expect_str(m.body, "", "body of an error");
  expect_str(one(m, "content-length"), "0", "content-length of an error");
  expect_str(one(m, "connection"), "close", "connection of an error");
}
// errors
static void errors(const Args&)
{
  err(http::Bad_request(), 400); err(http::Unauthorized(), 401); err(http::Method_not_allowed(), 405); err(http::Length_required(), 411);
  err(http::Request_too_large(), 413); err(http::Unsupported_content_type("x"), 415); err(http::Expectation_failed(), 417);
}
static std::string word(Rng& g, int n, bool any)
{
  std::string s;
  int l = g.upto(n + 1);
  for (int i = 0; i < l; ++i) { char c = any ? char(g.upto(256)) : char(33 + g.upto(94)); if (any && (c == '\r' || c == '\n')) c = 'q'; s += c; }
  return s;
}
static void battery(Rng& g, bool thorough)
{
  run("errors");
  std::string bodies[] = {"", "x", "<a/>", "\r\n\r\n", std::string("\0\0", 2), std::string(9, 'a'), std::string(10, 'a'), std::string(99, 'a'), std::string(100, 'b'), std::string(70000, 'c')};
  auto H = [](const std::string& s) { return s.empty() ? std::string("-") : hex(s); };
  for (auto& b : bodies)
    for (const char* ka : {"-1", "0", "1"}) {
      run("rsp 200 " + hex("OK") + " " + H(b) + " " + ka);
      run("req " + hex("/RPC") + " " + hex("host") + " 3344 " + H(b) + " " + ka);
    }
  for (int c : {0, 100, 200, 404, 999, 1000, -1, 2147483647}) for (const char* ph : {"", "OK", "a b c", " ", ":"}) run("rsp " + std::to_string(c) + " " + H(ph) + " -");
  for (int p : {0, 1, 80, 65535, 65536, -1, 2147483647}) for (const char* u : {"", "/", "/a b", "*", "/%20?q=1"}) for (const char* v : {"", "h", "127.0.0.1", "::1"}) run("req " + H(u) + " " + H(v) + " " + std::to_string(p) + " 61");
  for (const char* x : {"x-a=1", "x-a=1;x-b=2;x-c=", "x-zz=9;x-a=:", "content-type=text/plain", "content-type=", "content-length=7", "content-length=7;content-type=text/plain;x-a=1", "connection=upgrade", "cookie=1;accept=*", "x-long=0123456789012345678901234567890123456789"}) {
    run("rsp 200 " + hex("OK") + " 61 1 " + hex(x));
    run("req " + hex("/") + " " + hex("h") + " 1 61 0 " + hex(x));
    run("rsp 200 " + hex("OK") + " - 0 " + hex(x));
    run("req " + hex("/") + " " + hex("h") + " 1 - 1 " + hex(x));
  }
  for (auto& w : lit_words()) { run("rsp 200 " + H(w.find_first_of("\r\n") == std::string::npos ? w : "p") + " " + H(w) + " 1"); if (w.find_first_of(" \t\r\n") == std::string::npos) run("req " + H(w) + " " + H(w) + " 80 " + H(w) + " 0"); }
  for (auto v : lit_nums()) if (v < 100000) for (int d : {-1, 0, 1}) { run("rsp " + std::to_string(v + d) + " " + hex("ph") + " " + H(std::string(size_t(v + d < 0 ? 0 : v + d), 'z')) + " 0"); run("req " + hex("/") + " " + hex("h") + " " + std::to_string(v + d) + " 61 1"); }
  unsigned n = thorough ? 20000 : 1500;
  for (unsigned i = 0; i < n; ++i) {
    std::string x, ka = std::to_string(int(g.upto(3)) - 1);
    for (unsigned k = g.upto(5); k; --k) x += "x-" + std::to_string(g.upto(1000)) + "=" + std::to_string(g.upto(100000)) + ";";
    run("rsp " + std::to_string(g.upto(1200)) + " " + H(word(g, 20, true)) + " " + H(word(g, 60, true)) + " " + ka + " " + H(x));
    run("req " + H(word(g, 20, g.coin())) + " " + H(word(g, 20, false)) + " " + std::to_string(g.upto(70000)) + " " + H(word(g, 60, true)) + " " + ka + " " + H(x));
  }
}
int main(int c, char** v)
{
  ops()["rsp"] = rsp; ops()["req"] = req; ops()["errors"] = errors;
  return main_(c, v, battery);
}
