// Independent reading of an HTTP header block, written from the property text (used by several drivers).
#pragma once
#include "rt.h"
#include "http.h"
#include "http_errors.h"

namespace ho {
typedef std::map<std::string, std::string> Opts;
enum { OK = 0, MALFORMED = 1 };

inline bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline std::string trim(std::string s)
{
  while (!s.empty() && sp(s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && sp(s[i])) ++i;
  return s.substr(i);
}
inline std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
inline std::vector<std::string> words(const std::string& s)
{
  std::vector<std::string> r(1);
  for (size_t i = 0; i < s.size(); ++i)
    if (sp(s[i])) { if (i == 0 || !sp(s[i-1])) r.push_back(""); } else r.back() += s[i];
  return r;
}
// digits only and below 2^32
inline bool number(const std::string& s, unsigned long& v)
{
  v = 0;
  if (s.empty()) return false;
  for (char c : s) { if (c < '0' || c > '9') return false; if (v < (1ul << 40)) v = v * 10 + (c - '0'); }
  return v < (1ul << 32);
}
struct H { int status; std::string head; Opts o; std::string uri, phrase; int code; H(): status(OK), code(0) {} };

// status of a header block: 0 accepted, 1 malformed, otherwise the HTTP status of the refusal
inline H header(const std::string& text, bool strict, bool request)
{
  H h;
  std::vector<std::string> lines(1);
  for (size_t i = 0; i < text.size(); ++i) {
    bool e = text[i] == '\r' || text[i] == '\n';
    if (!e) lines.back() += text[i];
    else if (i == 0 || !(text[i-1] == '\r' || text[i-1] == '\n')) lines.push_back("");
  }
  h.head = lines[0];
  h.o["connection"] = "close";
  for (size_t i = 1; i < lines.size(); ++i) {
    size_t c = lines[i].find(':');
    if (c == std::string::npos) { h.status = MALFORMED; return h; }
    std::string n = low(trim(lines[i].substr(0, c))), v = trim(lines[i].substr(c + 1));
    unsigned long u;
    if (n == "content-length" && !number(v, u)) { h.status = MALFORMED; return h; }
    if (n == "expect" && low(v).compare(0, 12, "100-continue") != 0) { h.status = 417; return h; }
    if (strict && n == "content-type" && low(v).find("text/xml") == std::string::npos) { h.status = 415; return h; }
    h.o[n] = v;
  }
  std::vector<std::string> w = words(h.head);
  if (request) {
    if (!h.o.count("host")) h.o["host"] = "";
    if (!h.o.count("user-agent")) h.o["user-agent"] = "unknown";
    if (w[0] != "POST") { h.status = 405; return h; }
    if (w.size() > 1) h.uri = w[1];
  } else {
    if (!h.o.count("server")) h.o["server"] = "unknown";
    if (w.size() < 2) { h.status = MALFORMED; return h; }
    std::string c = w[1];
    bool neg = !c.empty() && (c[0] == '-' || c[0] == '+');
    unsigned long u = 0;
    bool ok = number(neg ? c.substr(1) : c, u) && u <= (c[0] == '-' ? 2147483648ul : 2147483647ul);
    h.code = !ok ? 0 : c[0] == '-' ? int(-(long)u) : int(u);
    if (w.size() > 2) h.phrase = w[2];
  }
  return h;
}

// status of what f threw (0 nothing, 1 malformed, else HTTP status)
template <class F> int status(F f)
{
  try { f(); return OK; }
  catch (const iqxmlrpc::http::Error_response& e) { return e.response_header()->code(); }
  catch (const iqxmlrpc::http::Malformed_packet&) { return MALFORMED; }
}

// earliest blank line; npos when there is none
inline size_t term(const std::string& b, size_t& len)
{
  for (size_t i = 0; i < b.size(); ++i) {
    if (b.compare(i, 4, "\r\n\r\n") == 0) { len = 4; return i; }
    if (b.compare(i, 2, "\n\n") == 0) { len = 2; return i; }
  }
  return std::string::npos;
}

// the options of a header as its text form lists them
inline Opts options(const iqxmlrpc::http::Header& h)
{
  Opts r;
  std::string d = h.dump();
  size_t i = d.find("\r\n") + 2;
  while (i < d.size()) {
    size_t e = d.find("\r\n", i);
    if (e == std::string::npos || e == i) break;
    size_t c = d.find(": ", i);
    if (c != std::string::npos && c < e) r[d.substr(i, c - i)] = d.substr(c + 2, e - c - 2);
    i = e + 2;
  }
  return r;
}

inline void same(const iqxmlrpc::http::Header& h, const H& w, const std::string& at, const std::set<std::string>& skip = std::set<std::string>())
{
  Opts got = options(h);
  for (auto& p : w.o) {
    if (skip.count(p.first)) continue;
    rt::expect(got.count(p.first), at + ": option " + rt::show(p.first) + " is missing");
    rt::expect_str(got[p.first], p.second, at + ": option " + p.first);
  }
  for (auto& p : got) rt::expect(w.o.count(p.first) || skip.count(p.first), at + ": unexpected option " + rt::show(p.first));
}

// header text generator
inline std::string gen_line(rt::Rng& g)
{
  static const std::vector<std::string> names = {"content-length", "Content-Length", "CONTENT-TYPE", "content-type", "expect", "Expect", "host", "Host", "user-agent",
    "User-Agent", "connection", "Connection", "server", "X-Foo", "x-foo", "authorization", "date", "", "a b", "accept"};
  static const std::vector<std::string> vals = {"0", "5", "12", "007", "4294967295", "4294967296", "99999999999999999999", "-1", "+3", "1x", "", " 1", "0x10", "1 2", "text/xml", "Text/XML; charset=utf-8",
    "text/plain", "application/text/xml", "TEXT/HTML", "100-continue", "100-Continue", "100-continued", "200-ok", "10", "keep-alive", "Keep-Alive", "close", "localhost:80", "a:b:c", "\xff\xfe", "q\tz"};
  static const std::vector<std::string> ws = {"", "", " ", "  ", "\t", "\v"};
  std::string n = g.pick(names), v = g.pick(vals);
  std::string ln = low(n);
  if (!g.coin(4)) {
    if (ln == "content-length") v = std::to_string(g.upto(40));
    if (ln == "expect") v = g.coin() ? "100-continue" : "100-CONTINUE";
    if (ln == "content-type") v = g.coin() ? "text/xml" : "TEXT/Xml; x";
    if (ln == "connection") v = g.coin() ? "keep-alive" : "close";
  }
  if (g.coin(40)) return n + v;
  return g.pick(ws) + n + g.pick(ws) + ":" + g.pick(ws) + v + g.pick(ws);
}
inline std::string gen_text(rt::Rng& g, bool request)
{
  static const std::vector<std::string> rq = {"POST / HTTP/1.0", "POST /RPC2 HTTP/1.1", "POST", "POST /a", "POST   /b  HTTP/1.1", "POST\t/t x"}, bad = {"GET / HTTP/1.0", "post / x", " POST / x", "", "POSTX /", "PUT /"},
    rs = {"HTTP/1.1 200 OK", "HTTP/1.1 500 Internal error", "HTTP/1.0 404", "HTTP/1.1 -7 x", "HTTP/1.1 zz OK", "HTTP/1.1 99999999999 big", "X 0 a"}, rbad = {"HTTP/1.1", "", "200"};
  std::string t = g.coin(8) ? g.pick(request ? bad : rbad) : g.pick(request ? rq : rs);
  for (unsigned n = g.upto(6); n--;) t += (g.coin(4) ? "\n" : g.coin(20) ? "\r" : "\r\n") + gen_line(g);
  return t;
}
} // namespace ho
