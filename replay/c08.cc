// C08: header blocks against an independent reading of them.
#include "http_oracle.h"
#include "net.h"
using namespace rt;
using namespace iqxmlrpc;

// req <level> <text>
static void req(const Args& a)
{
  bool strict = a.at(0) == "1";
  std::string t = unhex(a.at(1));
  ho::H w = ho::header(t, strict, true);
  auto lev = strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK;
  std::unique_ptr<http::Request_header> h;
  int st = ho::status([&]{ h.reset(new http::Request_header(lev, t)); });
  expect_eq(st, w.status, "status of request header " + show(t) + (strict ? " (strict)" : " (weak)") + " [0 accepted, 1 malformed]");
  if (st) return;
  expect_str(h->uri(), w.uri, "URI");
  expect_str(h->host(), w.o["host"], "host");
  expect_str(h->agent(), w.o["user-agent"], "agent");
  expect_eq(h->conn_keep_alive(), w.o["connection"] == "keep-alive", "keep-alive flag");
  expect_eq(h->expect_continue(), w.o.count("expect") != 0, "expectation flag");
  ho::same(*h, w, "request header");
  unsigned n = 0;
  int cs = ho::status([&]{ n = h->content_length(); });
  if (!w.o.count("content-length")) expect_eq(cs, 411, "status without content-length");
  else { unsigned long u; ho::number(w.o["content-length"], u); expect_eq(cs, 0, "status of content_length()"); expect_eq(n, u, "content-length"); }
}
// rsp <level> <text>
static void rsp(const Args& a)
{
  bool strict = a.at(0) == "1";
  std::string t = unhex(a.at(1));
  ho::H w = ho::header(t, strict, false);
  std::unique_ptr<http::Response_header> h;
  int st = ho::status([&]{ h.reset(new http::Response_header(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK, t)); });
  expect_eq(st, w.status, "status of response header " + show(t) + " [0 accepted, 1 malformed]");
  if (st) return;
  expect_eq(h->code(), w.code, "response code");
  expect_str(h->phrase(), w.phrase, "phrase");
  expect_str(h->server(), w.o["server"], "server");
  expect_eq(h->conn_keep_alive(), w.o["connection"] == "keep-alive", "keep-alive flag");
  ho::same(*h, w, "response header");
}
// full <level> <text>: the same refusals seen through the reader
static void full(const Args& a)
{
  bool strict = a.at(0) == "1";
  std::string t = unhex(a.at(1));
  size_t l;
  if (ho::term(t + "\r\n\r\n", l) != t.size()) return;
  ho::H w = ho::header(t, strict, true);
  int want = w.status ? w.status : w.o.count("content-length") ? 0 : 411;
  http::Packet_reader rd;
  rd.set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
  std::unique_ptr<http::Packet> p;
  expect_eq(ho::status([&]{ p.reset(rd.read_request(t + "\r\n\r\n")); }), want, "status of the request " + show(t));
}

// srv <level: 0 | 1 | - as it comes> <option lines>: the answer of a real server to a call with these header lines
static void srv(const Args& a)
{
  net::Srv x(0, false);
  bool strict = a.at(0) == "1";
  if (a.at(0) != "-") { x.s->set_verification_level(strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK); expect(x.s->get_verification_level() == (strict ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK), "level set"); }
  x.start();
  net::seen().take();
  std::string t = unhex(a.at(1)), b = net::call("echo", "");
  size_t at = t.find("LEN");
  if (at != std::string::npos) t.replace(at, 3, std::to_string(b.size()));
  ho::H w = ho::header(t, strict, true);
  int want = w.status == ho::MALFORMED ? 400 : w.status ? w.status : w.o.count("content-length") ? 200 : 411;
  net::Cli c(x.port);
  c.put(t + "\r\n\r\n" + b);
  net::Ans r = c.get();
  expect(!r.eof, "answered");
  expect_eq(r.code, want, "status of the answer to " + show(t));
  expect_eq(net::seen().take().size(), want == 200 ? 1u : 0u, "methods executed for " + show(t));
}

static void battery(Rng& g, bool thorough)
{
  const char* vals[] = {"0", "1", "42", "4294967295", "4294967296", "18446744073709551616", "-1", "+1", "", "1a", "a", "1 1", "00012", " ", "0x1", "1.0", "1e3", "\xb2"};
  for (const char* v : vals)
    for (const char* s : {"0", "1"}) {
      std::string t = std::string("POST /x HTTP/1.1\r\nHost: h:1\r\nContent-Length: ") + v;
      run(std::string("req ") + s + " " + hex(t));
      run(std::string("full ") + s + " " + hex(t));
    }
  for (const char* m : {"POST", "GET", "post", "Post", "PUT", "", "POST2", " POST", "POST\t", "P", "\tPOST /"})
    for (const char* rest : {"", " ", " /", " /a HTTP/1.0", "  /b   c"}) {
      run("req 0 " + hex(std::string(m) + rest));
      run("full 1 " + hex(std::string(m) + rest + "\r\ncontent-length: 0"));
      run("rsp 0 " + hex(std::string(m) + rest));
    }
  for (const char* e : {"100-continue", "100-CONTINUE", "100-continue; x", "100-continu", "x 100-continue", "", "417"})
    for (const char* s : {"0", "1"}) run(std::string("req ") + s + " " + hex(std::string("POST / x\nExpect:") + e));
  for (const char* e : {"text/xml", "TEXT/XML", "text/xml; charset=u", "x text/xml", "text/xm", "", "text /xml", "application/xml"})
    for (const char* s : {"0", "1"}) { run(std::string("req ") + s + " " + hex(std::string("POST / x\ncontent-type:") + e)); run(std::string("rsp ") + s + " " + hex(std::string("H 200 x\nContent-Type:") + e)); }
  for (const char* e : {"a: 1\r\nA: 2", "a:1\n A :2\n\ta\t:\t3 ", "nocolon", "a: 1\r\nnocolon\r\nb: 2", ":", ": v", "a:", "a::", "a:b:c", "Connection: keep-alive", "Connection: Keep-Alive", "connection: keep-alive\r\nconnection: close",
       "content-length: 1\r\ncontent-length: 2", "content-length: 1\r\ncontent-length: x", "host:\r\nhost: q", "user-agent: \t me \t", "a: 1\r", "a: 1\r\r\nb: 2", ""})
    for (const char* s : {"0", "1"}) { run(std::string("req ") + s + " " + hex(std::string("POST /u HTTP/1.1\r\n") + e)); run(std::string("rsp ") + s + " " + hex(std::string("HTTP/1.1 200 OK\r\n") + e)); }
  for (int c : {0, 1, 99, 200, 404, 500, 2147483647, -1}) run("rsp 0 " + hex("HTTP/1.1 " + std::to_string(c) + " Some phrase"));
  for (auto& w : lit_words()) {
    if (w.find_first_of("\r\n") != std::string::npos) continue;
    for (const char* s : {"0", "1"}) {
      for (const std::string& e : {w + ": " + w, "host: " + w, "a: " + w + " b", "x-" + w + ":1", "connection: " + w, w + "x: 1"}) { run(std::string("req ") + s + " " + hex("POST /u HTTP/1.1\r\n" + e)); run(std::string("rsp ") + s + " " + hex("HTTP/1.1 200 OK\r\n" + e)); }
      run(std::string("req ") + s + " " + hex(w + " / x")); run(std::string("req ") + s + " " + hex("POST " + w + " x")); run(std::string("full ") + s + " " + hex("POST " + w + "\r\ncontent-length: 0"));
    }
  }
  for (auto v : lit_nums()) for (long long d : {-1, 0, 1}) for (const char* s : {"0", "1"}) { run(std::string("req ") + s + " " + hex("POST / x\r\ncontent-length: " + std::to_string(v + d))); run(std::string("rsp ") + s + " " + hex("HTTP/1.1 " + std::to_string(v + d) + " q")); }
  for (const char* e : {"content-length: LEN", "content-length: LEN\r\ncontent-type: text/xml", "content-length: LEN\r\ncontent-type: application/json", "CONTENT-LENGTH :\tLEN\r\nContent-Type: Text/XML; charset=utf-8", "content-length: LEN\r\nexpect: 100-Continue",
       "content-length: LEN\r\nexpect: 200-ok", "content-length: -LEN", "content-length: LENx", "content-length: 99999999999", "content-type: text/xml", "nocolon\r\ncontent-length: LEN", "content-length: 1\r\ncontent-length: LEN", "content-length: LEN\r\nconnection: keep-alive\r\ncontent-type: x"})
    for (const char* l : {"0", "1", "-"}) for (const char* m : {"POST", "GET"}) if (m[0] == 'P' || e[8] == 'l') run(std::string("srv ") + l + " " + hex(std::string(m) + " /RPC HTTP/1.1\r\n" + e));
  unsigned n = thorough ? 20000 : 2500;
  for (unsigned i = 0; i < n; ++i) {
    std::string s = g.coin() ? "0" : "1";
    run("req " + s + " " + hex(ho::gen_text(g, true)));
    run("full " + s + " " + hex(ho::gen_text(g, true)));
    if (i % 2) run("rsp " + s + " " + hex(ho::gen_text(g, false)));
  }
}
int main(int c, char** v)
{
  ops()["req"] = req; ops()["rsp"] = rsp; ops()["full"] = full; ops()["srv"] = srv;
  return main_(c, v, battery);
}
