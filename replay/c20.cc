// C20: custom headers: the class alone, and their way from a real client (or a raw request) to the method.
#include "net.h"
using namespace rt;
using namespace net;

static std::map<std::string, std::string> got; static std::mutex gm;
static void m_x(Method* m, const Param_list&, Value& r) { std::lock_guard<std::mutex> l(gm); got.clear(); for (auto& p : m->xheaders()) got[p.first] = p.second; r = int(got.size()); }
static Srv& srv() { static Srv* s = 0; if (!s) { s = new Srv(0, false); register_method(*s->s, "x", m_x); s->start(); } return *s; }
static std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool okn(const std::string& s) { return s.size() >= 2 && (s[0] == 'x' || s[0] == 'X') && s[1] == '-'; }
typedef std::map<std::string, std::string> M;
static std::string str(const M& m) { std::string r; for (auto& p : m) r += show(p.first) + "=" + show(p.second) + " "; return r; }
static void same(const M& got, const M& want, const std::string& what) { if (got != want) fail(what + ": expected " + str(want) + ", got " + str(got)); }
static M pairs(const std::string& s) { M m; std::istringstream is(s); std::string q; while (std::getline(is, q, ',')) { size_t e = q.find('='); if (e != std::string::npos) m[unhex(q.substr(0, e))] = unhex(q.substr(e + 1)); } return m; }
static M all(const XHeaders& x) { M m; for (auto& p : x) m[p.first] = p.second; return m; }
// set <name=value,...>: one by one; what is refused and what is kept
static void set(const Args& a)
{
  XHeaders x; M want;
  for (auto& p : pairs(a.at(0))) {
    std::string e = thrown([&] { x[p.first] = p.second; });
    expect_eq(e, okn(p.first) ? std::string() : std::string("iqxmlrpc::Error_xheader"), "setting " + show(p.first));
    expect_eq(XHeaders::validate(p.first), okn(p.first), "validity of " + show(p.first));
    if (okn(p.first)) want[low(p.first)] = p.second;
    same(all(x), want, "after setting " + show(p.first));
    auto i = x.find(p.first);
    expect_eq(i != x.end(), want.count(low(p.first)) > 0, "finding " + show(p.first));
    if (i != x.end()) expect_str(i->second, want[low(p.first)], "value of " + show(p.first));
    std::string up = p.first; for (char& c : up) c = toupper(c);
    expect_eq(x.find(up) != x.end(), want.count(low(p.first)) > 0, "finding " + show(up));
  }
  expect_eq(x.size(), want.size(), "size");
  XHeaders y; std::string e = thrown([&] { y["x-old"] = "1"; y = pairs(a.at(0)); });
  M k; for (auto& p : pairs(a.at(0))) if (okn(p.first)) k[low(p.first)] = p.second;
  if (e.empty()) same(all(y), k, "assigned from a map"); else fail("assigning raised " + e);
}
// raw <header lines as name=value>: what the method sees of a request
static void raw(const Args& a)
{
  std::string h; M want;
  for (auto& p : pairs(a.at(0))) { h += p.first + ": " + p.second + "\r\n"; if (low(p.first).substr(0, 2) == "x-") want[low(p.first)] = p.second; }
  Cli c(srv().port); c.put(http_req(call("x", ""), "", h));
  Ans r = c.get(); expect_eq(r.code, 200, "status");
  std::lock_guard<std::mutex> l(gm);
  same(got, want, "custom headers seen by the method");
}
// cl <client's> <call's>
static void cl(const Args& a)
{
  M m1 = pairs(a.at(0)), m2 = pairs(a.at(1)), want;
  XHeaders x1, x2; x1 = m1; x2 = m2;
  for (auto& p : m1) want[low(p.first)] = p.second;
  for (auto& p : m2) want[low(p.first)] = p.second;
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", srv().port)); c.set_timeout(10); c.set_xheaders(x1); if (a.size() > 2) c.set_keep_alive(true);
  for (int i = 0; i < 2; ++i) {
    Response r = c.execute("x", Param_list(), x2);
    expect(!r.is_fault(), "fault " + r.fault_string());
    { std::lock_guard<std::mutex> l(gm); same(got, want, "custom headers seen by the method"); }
    M w1; for (auto& p : m1) w1[low(p.first)] = p.second;
    r = c.execute("x", Param_list());
    { std::lock_guard<std::mutex> l(gm); same(got, w1, "custom headers of the next call without its own"); }
  }
  c.set_xheaders(XHeaders()); c.execute("x", Param_list());
  { std::lock_guard<std::mutex> l(gm); same(got, M(), "custom headers after they were removed"); }
}
static std::string enc(const M& m) { std::string r; for (auto& p : m) r += (r.empty() ? "" : ",") + hex(p.first) + "=" + hex(p.second); return r.empty() ? "-" : r; }
static void battery(Rng& g, bool thorough)
{
  for (const char* n : {"X-a", "x-a", "X-", "x-", "X", "x", "", "-", "Xa", "xa-", "a-x", "Y-a", "host", "x_a", "X-A-B", "x-\xff", " x-a", "X -a", "authorization", "content-length", "connection", "X-Content-Length", "xx-a", "-x-a", "x-host"})
    run("set " + enc(M{{n, "v"}}));
  run("set " + enc(M{{"X-One", "1"}, {"x-one", "2"}, {"x-Two", "3"}, {"X-TWO", "4"}, {"other", "5"}, {"x-three", ""}}));
  for (auto& m : {M{}, M{{"X-A", "1"}}, M{{"x-a", "1"}, {"X-b", "two words"}}, M{{"X-A", "1"}, {"Other", "2"}, {"xa", "3"}, {"y-x-a", "4"}}, M{{"x-", "e"}}, M{{"x-long-name-here", std::string(300, 'q')}}, M{{"x-colon", "a: b"}}, M{{"x-empty", ""}}})
    run("raw " + enc(m));
  std::vector<M> ms = {M{}, M{{"X-A", "1"}}, M{{"x-a", "2"}}, M{{"X-B", "3"}}, M{{"X-A", "4"}, {"X-C", "5"}}, M{{"x-empty", ""}}, M{{"x-sp", "a b"}}};
  for (auto& a : ms) for (auto& b : ms) { run("cl " + enc(a) + " " + enc(b)); run("cl " + enc(a) + " " + enc(b) + " k"); }
  for (auto& w : lit_names("._-")) { run("set " + enc(M{{w, "1"}, {"x-" + w, w}, {w + "-x-", "2"}})); run("raw " + enc(M{{"x-" + w, w}})); run("cl " + enc(M{{"X-" + w, w}}) + " " + enc(M{{"x-a", w}}) + (w.size() % 2 ? "" : " k")); }
  unsigned n = thorough ? 2000 : 150;
  auto name = [&](bool wild) { std::string s = g.coin() ? "X-" : "x-"; if (wild && g.coin(3)) s = std::string(1, "xXyY-"[g.upto(5)]) + "x-"[g.upto(2)]; for (unsigned k = g.upto(4); k; --k) s += "aAbBxX-1"[g.upto(8)]; return s; };
  for (unsigned i = 0; i < n; ++i) {
    M a, b, w;
    for (unsigned k = g.upto(5); k; --k) { a[name(false)] = "v" + std::to_string(g.upto(99)); w[name(true)] = "w" + std::to_string(g.upto(99)); }
    for (unsigned k = g.upto(4); k; --k) b[name(false)] = "u" + std::to_string(g.upto(99));
    // names differing in case only: which one wins is not fixed for one map
    M a1, b1, w1; for (auto& p : a) a1[low(p.first)] = p.second; for (auto& p : b) b1[low(p.first)] = p.second; for (auto& p : w) { bool dup = false; for (auto& q : w1) if (low(q.first) == low(p.first)) dup = true; if (!dup) w1[p.first] = p.second; }
    run("set " + enc(w)); run("cl " + enc(a1) + " " + enc(b1)); run("raw " + enc(w1));
  }
}
int main(int c, char** v)
{
  ops()["set"] = set; ops()["raw"] = raw; ops()["cl"] = cl;
  return main_(c, v, battery);
}
