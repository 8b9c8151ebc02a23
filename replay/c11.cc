// C11: who may call: the real server with an authentication plugin, raw requests and real clients; and the credential codec alone.
#include "net.h"
using namespace rt;
using namespace net;

struct Plug: Auth_Plugin_base {
  mutable std::mutex m; mutable std::vector<std::string> asked; bool ok, anon; int raise;
  Plug(): ok(true), anon(false), raise(0) {}
  void hit(const std::string& s) const { std::lock_guard<std::mutex> l(m); asked.push_back(s); if (raise == 1) throw Fault(99, "plugin"); if (raise == 2) throw std::runtime_error("plugin"); if (raise == 3) throw 1; }
  bool do_authenticate(const std::string& u, const std::string& p) const { hit("auth " + hex(u) + " " + hex(p)); return ok; }
  bool do_authenticate_anonymous() const { hit("anon"); return anon; }
  std::vector<std::string> take() const { std::lock_guard<std::mutex> l(m); std::vector<std::string> r; r.swap(asked); return r; }
};
static Plug& plug() { static Plug* p = new Plug; return *p; }
static Srv& srv() { static Srv* s = 0; if (!s) { s = new Srv(0, false); s->s->set_auth_plugin(plug()); s->start(); } return *s; }
static Srv& open_srv() { static Srv* s = new Srv; return *s; }
static std::string enc(const std::string& d)
{
  static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    unsigned n = 0; size_t k = std::min<size_t>(3, d.size() - i);
    for (size_t j = 0; j < 3; ++j) n = n << 8 | (j < k ? (unsigned char)d[i + j] : 0);
    for (size_t j = 0; j < 4; ++j) r += j <= k ? t[n >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
static void clear() { plug().take(); net::seen().take(); }
static void nothing_ran(const std::string& what) { auto c = net::seen().take(); expect(c.empty(), what + ": a method ran all the same (" + (c.empty() ? "" : c[0]) + ")"); }
static std::string result(const Ans& a) { size_t i = a.body.find("<string>"), j = a.body.find("</string>"); if (a.body.find("<fault>") != std::string::npos) return "fault"; if (i == std::string::npos || j == std::string::npos) return ""; return a.body.substr(i + 8, j - i - 8); }
static Ans ask(int port, const std::string& extra) { Cli c(port); c.put(http_req(call("user", ""), "", extra)); Ans a = c.get(); expect(!a.eof, "closed without an answer"); expect(c.eof(), "not closed after the answer"); return a; }
// the whole decision for one authorization text (null: none)
static void check(const std::string* h, bool ok, bool anon, int raise)
{
  plug().ok = ok; plug().anon = anon; plug().raise = raise;
  clear();
  Ans a = ask(srv().port, h ? "authorization: " + *h + "\r\n" : "");
  auto q = plug().take();
  std::string at = h ? " (authorization " + show(*h) + ")" : " (no authorization)";
  bool basic = false, clean = false, unknown = false; std::string u, p;
  std::string tr;
  if (h) {
    tr = *h; while (!tr.empty() && isspace((unsigned char)tr.back())) tr.pop_back(); while (!tr.empty() && isspace((unsigned char)tr[0])) tr.erase(0, 1);
    h = &tr;
    size_t sp = h->find_first_of(" \t");
    std::string w = h->substr(0, sp == std::string::npos ? h->size() : sp), t = sp == std::string::npos ? "" : h->substr(sp + 1);
    for (char& ch : w) ch = tolower(ch);
    basic = sp != std::string::npos && w == "basic" && t.find_first_of(" \t") == std::string::npos;
    // only texts that are canonical base64 or clearly not are judged
    clean = t.size() % 4 == 0; for (size_t i = 0; i < t.size(); ++i) if (!isalnum((unsigned char)t[i]) && t[i] != '+' && t[i] != '/' && !(t[i] == '=' && i + 2 >= t.size())) clean = false;
    if (clean && t.find('=') != std::string::npos && t.find_first_not_of('=', t.find('=')) != std::string::npos) clean = false;
    if (clean) {
      std::string d; unsigned v = 0; int bits = 0;
      for (char ch : t) { if (ch == '=') break; int x = isupper((unsigned char)ch) ? ch - 'A' : islower((unsigned char)ch) ? ch - 'a' + 26 : isdigit((unsigned char)ch) ? ch - '0' + 52 : ch == '+' ? 62 : 63; v = v << 6 | x; bits += 6; if (bits >= 8) { bits -= 8; d += char(v >> bits & 255); } }
      size_t c = d.find(':'); u = d.substr(0, c); p = c == std::string::npos ? "" : d.substr(c + 1);
    } else if (basic) unknown = true;
  }
  if (unknown) {
    for (auto& x : q) expect(x != "anon", "asked for anonymous access although there are credentials" + at);
    if (q.empty() || !ok) nothing_ran("credentials not accepted" + at);
    return;
  }
  std::string want = !h ? "anon" : basic ? "auth " + hex(u) + " " + hex(p) : "";
  if (want.empty()) { expect(q.empty(), "the plugin was asked" + at); expect_eq(a.code, 401, "status" + at); nothing_ran("unreadable credentials" + at); return; }
  expect_eq(q.size(), size_t(1), "number of questions to the plugin" + at);
  expect_eq(q[0], want, "question to the plugin" + at);
  if (raise) { nothing_ran("the plugin failed" + at); expect(a.code != 200 || result(a) == "fault", "answered as if all was well after the plugin failed" + at); return; }
  if (h ? !ok : !anon) { expect_eq(a.code, 401, "status of a refused request" + at); nothing_ran("refused request" + at); return; }
  expect_eq(a.code, 200, "status of an accepted request" + at);
  auto c = net::seen().take();
  expect(c.size() == 1 && c[0] == "user", "the method did not run exactly once" + at);
  bool plain = u.find_first_of("<>&'\"") == std::string::npos; for (unsigned char ch : u) if (ch < 33 || ch > 126) plain = false;
  if (plain) expect_str(result(a), (u.empty() ? "-" : "+") + u, "user name seen by the method" + at);
}
static void raw(const Args& a) { std::string h = unhex(a.at(1)); check(&h, a.at(0)[0] == '1', a.at(0)[1] == '1', a.at(0)[2] - '0'); }
static void anon(const Args& a) { check(0, a.at(0)[0] == '1', a.at(0)[1] == '1', a.at(0)[2] - '0'); }
// keep alive: the decision is taken again for every request
static void mixed(const Args& a)
{
  plug().raise = 0; plug().anon = false;
  Cli c(srv().port);
  std::string h = "authorization: Basic " + enc("u:p") + "\r\n";
  for (char k : a.at(0)) {
    plug().ok = k == 'a'; clear();
    c.put(http_req(call("user", ""), "keep-alive", k == 'n' ? "" : h));
    Ans r = c.get();
    expect_eq(r.code, k == 'a' ? 200 : 401, std::string("status of request ") + k);
    if (k != 'a') nothing_ran(std::string("refused request ") + k); else expect_str(result(r), "+u", "user name");
    if (c.eof(20)) { c.~Cli(); new (&c) Cli(srv().port); }
  }
}
static void noplugin(const Args& a)
{
  clear();
  Ans r = ask(open_srv().port, a.at(0) == "-" ? "" : "authorization: " + unhex(a.at(0)) + "\r\n");
  expect_eq(r.code, 200, "status without a plugin"); expect_str(result(r), "-", "user name without a plugin");
  expect_eq(net::seen().take().size(), size_t(1), "calls");
}
// malformed xml: nothing may be parsed before the plugin accepted
static void early(const Args& a)
{
  plug().ok = plug().anon = false; plug().raise = 0; clear();
  Cli c(srv().port); c.put(http_req("<<<", "", a.at(0) == "1" ? "authorization: Basic " + enc("u:p") + "\r\n" : ""));
  Ans r = c.get(); expect_eq(r.code, 401, "status of a refused request with a malformed body");
}
// a real client: what it sets is what the plugin gets
static void client(const Args& a)
{
  std::string u = unhex(a.at(0)), p = unhex(a.at(1));
  plug().ok = true; plug().anon = true; plug().raise = 0; clear();
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", srv().port));
  c.set_timeout(10);
  if (a.size() > 2 && a[2] == "k") c.set_keep_alive(true);
  c.set_authinfo(u, p);
  for (int i = 0; i < 2; ++i) {
    Response r = c.execute("echo", Param_list());
    expect(!r.is_fault(), "fault " + r.fault_string());
    auto q = plug().take();
    expect_eq(q.size(), size_t(1), "number of questions to the plugin");
    expect_eq(q[0], u.empty() ? std::string("anon") : "auth " + hex(u.substr(0, u.find(':'))) + " " + hex((u + ":" + p).substr((u + ":" + p).find(':') + 1)), "credentials as the plugin sees them");
  }
  plug().ok = plug().anon = false;
  std::string e = thrown([&] { c.execute("echo", Param_list()); });
  expect(e.find("Error_response") != std::string::npos || e.find("http::") != std::string::npos, "a refused call does not raise an HTTP error: " + e);
}
static void codec(const Args& a)
{
  std::string u = unhex(a.at(0)), p = unhex(a.at(1)), u2 = "x", p2 = "y";
  http::Request_header h("/", "v", 80);
  h.set_authinfo(u, p);
  expect(h.has_authinfo(), "no credentials after set_authinfo");
  h.get_authinfo(u2, p2);
  std::string d = u + ":" + p;
  expect_str(u2, d.substr(0, d.find(':')), "user"); expect_str(p2, d.substr(d.find(':') + 1), "password");
  std::string t = h.dump(); size_t i = t.find("authorization: ");
  expect(i != std::string::npos, "no authorization line"); i += 15;
  expect_str(t.substr(i, t.find("\r\n", i) - i), "Basic " + enc(d), "authorization line");
}
static void battery(Rng& g, bool thorough)
{
  for (const char* k : {"000", "010", "100", "110", "011", "012", "013"}) run(std::string("anon ") + k);
  for (const char* h : {"Basic dTpw", "basic dTpw", "BASIC dTpw", "Basic", "Basic ", "Basic  dTpw", "Basic dTpw x", "Digest dTpw", "dTpw", "Basicx dTpw", "Bas ic", "Basic dTpw:", "Basic\tdTpw", "Basic ====", "Basic dTp", "Basic !!!!", "xBasic dTpw", "Bearer x", "Basic Og==", "Basic dQ==", "Basic dTo=", "Basic OnA=", "Basic dTpwOnE6", "Basic dTpw dTpw", "basic\tdTpw x", "Negotiate", "Basic dTpw="})
    for (const char* k : {"000", "100", "010", "110", "111", "112", "113"}) run(std::string("raw ") + k + " " + hex(h));
  for (const char* k : {"a", "r", "n", "ar", "aar", "ra", "nar", "aaa", "ana", "arana"}) run(std::string("mixed ") + k);
  run("noplugin -"); run("noplugin " + hex("Basic dTpw")); run("noplugin " + hex("garbage here and there")); run("early 0"); run("early 1");
  std::string all; for (int i = 1; i < 256; ++i) if (i != ':') all += char(i);
  for (const char* s : {"u", "user", "u ser", "", "us:er", "\xff\x80"}) for (const char* p : {"p", "", "pa:ss", ":", "pass word", "\xc3\xa9"}) { run("codec " + hex(s) + " " + hex(p)); run("client " + hex(s) + " " + hex(p)); }
  run("client " + hex("u") + " " + hex("p") + " k");
  run("codec " + hex(all) + " " + hex(all)); run("client " + hex(all) + " " + hex(all));
  for (int n : {20, 37, 38, 39, 54, 57, 60, 100, 300}) { run("codec " + hex(std::string(n, 'u')) + " " + hex(std::string(n, 'p'))); run("client " + hex(std::string(n, 'u')) + " " + hex(std::string(n, 'p'))); }
  for (auto& w : lit_words()) {
    if (w.find(':') == std::string::npos) { run("codec " + hex(w) + " " + hex("p")); run("client " + hex(w) + " " + hex(w)); }
    run("codec " + hex("u") + " " + hex(w));
    run("raw 000 " + hex("Basic " + enc(w))); run("raw 000 " + hex("Basic " + enc("u:" + w))); if (w.find_first_of("\r\n") == std::string::npos) { run("raw 000 " + hex(w)); run("raw 010 " + hex(w + " dTpw")); }
  }
  unsigned n = thorough ? 2000 : 150;
  for (unsigned i = 0; i < n; ++i) {
    std::string u = g.bytes(1 + g.upto(12)), p = g.bytes(g.upto(12));
    run("codec " + hex(u) + " " + hex(p));
    std::string k = g.coin() ? "100" : g.coin() ? "000" : "010";
    std::string w = g.coin(4) ? "Digest" : g.coin() ? "bAsIc" : "Basic";
    run("raw " + k + " " + hex(w + " " + enc(u + (g.coin(5) ? "" : ":") + p)));
  }
}
int main(int c, char** v)
{
  ops()["raw"] = raw; ops()["anon"] = anon; ops()["mixed"] = mixed; ops()["noplugin"] = noplugin; ops()["early"] = early; ops()["client"] = client; ops()["codec"] = codec;
  return main_(c, v, battery);
}
