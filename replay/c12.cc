// C12: every complete request is answered exactly once with the right outcome, under both executors; method objects are destroyed once.
#include "net.h"
using namespace rt;
using namespace net;

// standard exceptions of many types, by number
struct Own: std::exception { const char* what() const noexcept { return "own"; } };
static void stdx(const std::string& n) { switch (atoi(n.c_str())) { case 0: throw std::bad_alloc(); case 1: throw std::logic_error("boom"); case 2: throw std::out_of_range("boom"); case 3: throw std::length_error("boom"); case 4: throw std::invalid_argument("boom"); case 5: throw std::bad_cast(); case 6: throw std::underflow_error("boom"); case 7: throw std::ios_base::failure("boom"); case 8: throw iqnet::network_error("boom", false); case 9: throw std::system_error(1, std::generic_category()); case 10: throw std::overflow_error("boom"); case 11: throw std::bad_exception(); default: throw Own(); } }
static std::string stdw(const std::string& n) { try { stdx(n); } catch (const std::exception& e) { return e.what(); } return "?"; }
static std::atomic<long> made(0), gone(0), runs(0);
struct Boom {};
// texts of faults, by number
static std::string text(const std::string& n) { switch (atoi(n.c_str())) { case 0: return ""; case 1: return " "; case 2: return "a b"; case 3: return std::string(300, 'x'); case 4: return "1%s%d%n"; case 5: return "two\nlines"; default: return "t" + n; } }
struct Counted: Method { unsigned mark; Counted(): mark(0x5a5a) { ++made; } ~Counted() { if (mark != 0x5a5a) abort(); mark = 0; ++gone; }
  void execute(const Param_list& p, Value& r)
  {
    ++runs;
    std::string k = p.empty() ? "" : p[0].get_string();
    if (k == "fault") throw Fault(p[1].get_int(), p[2].get_string());
    if (k == "stdx") stdx(p[1].get_string());
    if (k == "text") throw Fault(4, text(p[1].get_string()));
    if (k == "exc" && p.size() > 1) throw Exception("lib", p[1].get_int());
    if (k == "exc") throw Exception("lib", 77);
    if (k == "noexc") throw Exception("lib");
    if (k == "std") throw std::runtime_error("boom");
    if (k == "int") throw 1;
    if (k == "boom") throw Boom();
    if (k == "http") throw http::Request_too_large();
    if (k == "empty") return;
    if (k == "violation") throw XML_RPC_violation("v");
    if (k == "badcast") { p[0].get_int(); }
    if (k == "unk") throw Unknown_method("other");
    r = "ok:" + k;
  } };
// the other dispatcher: names starting with d_
struct Disp: Method_dispatcher_base { Method* do_create_method(const std::string& n) { if (n == "d_std") throw std::runtime_error("disp"); if (n == "d_fault") throw Fault(5, "disp"); if (n.compare(0, 7, "d_code.") == 0) throw Exception("disp", atoi(n.c_str() + 7)); if (n.compare(0, 7, "d_text.") == 0) throw Fault(9, text(n.c_str() + 7)); if (n == "d_int") throw 1; if (n == "d_http") throw http::Length_required(); return n == "d_ok" ? new Counted : 0; } void do_get_methods_list(Array&) const {} };
// the interceptor: raises when the first parameter says so
struct Icpt: Interceptor { void process(Method* m, const Param_list& p, Value& r) { std::string k = p.size() > 1 && p[1].is_string() ? p[1].get_string() : ""; if (k == "i_fault" && p.size() > 2) throw Fault(p[2].get_int(), "icpt"); if (k == "i_fault") throw Fault(6, "icpt"); if (k == "i_std") throw std::runtime_error("icpt"); if (k == "i_int") throw 1; if (k == "i_stop") { r = "stopped"; return; } yield(m, p, r); if (k == "i_after") throw Fault(8, "after"); } };
static Srv& srv(bool pool, bool plain)
{
  static Srv* s[4] = {0, 0, 0, 0};
  Srv*& x = s[pool + 2 * plain];
  if (!x) {
    x = new Srv(pool ? (Executor_factory_base*) new Pool_executor_factory(3) : new Serial_executor_factory, false);
    register_method<Counted>(*x->s, "m");
    x->s->push_dispatcher(new Disp);
    if (!plain) x->s->push_interceptor(new Icpt);
    x->start();
  }
  return *x;
}
struct Want { int status; bool fault; int code; std::string text; long methods, nruns; };
// outcome of one request named by a word
static std::string body_of(const std::string& w, Want& o, bool pool)
{
  o = Want{200, true, 0, "", 1, 1};
  int other = pool ? -1 : -32500;
  auto m = [&](const std::string& p) { return call("m", p); };
  size_t c = w.find(':');
  std::string k = w.substr(0, c), x = c == std::string::npos ? "" : w.substr(c + 1);
  if (k == "ok") { o.fault = false; o.text = "ok:" + x; return m(p_str(x)); }
  if (k == "empty") { o.fault = false; o.text = ""; return m(p_str("empty")); }
  if (k == "fault") { o.code = atoi(x.c_str()); o.text = "why"; return m(p_str("fault") + p_int(o.code) + p_str("why")); }
  if (k == "text") { o.code = 4; o.text = text(x); return m(p_str("text") + p_str(x)); }
  if (k == "exc" && !x.empty()) { o.code = pool ? -1 : atoi(x.c_str()); o.text = "lib"; return m(p_str("exc") + p_int(atoi(x.c_str()))); }
  if (k == "exc") { o.code = pool ? -1 : 77; o.text = "lib"; return m(p_str("exc")); }
  if (k == "noexc") { o.code = pool ? -1 : -32000; o.text = "lib"; return m(p_str("noexc")); }
  if (k == "std") { o.code = other; o.text = "boom"; return m(p_str("std")); }
  if (k == "stdx") { o.code = other; o.text = stdw(x); return m(p_str("stdx") + p_str(x)); }
  if (k == "int") { o.code = other; o.text = "Unknown Error"; return m(p_str("int")); }
  if (k == "boom") { o.code = other; o.text = "Unknown Error"; return m(p_str("boom")); }
  if (k == "http") { if (pool) o.code = -1; else { o.status = 413; o.fault = false; } return m(p_str("http")); }
  if (k == "violation") { o.code = pool ? -1 : -32600; return m(p_str("violation")); }
  if (k == "unkm") { o.code = pool ? -1 : -32601; return m(p_str("unk")); }
  if (k == "badcast") { o.code = other; if (!pool) o.code = -32602; o.text = "*"; return m(p_str("badcast")); }
  o.methods = o.nruns = 0;
  if (k == "unknown") { o.code = -32601; return call("nosuch" + x, ""); }
  if (k == "notxml") { o.code = -32700; return "<a"; }
  if (k == "nomethod") { o.code = -32600; return "<?xml version=\"1.0\"?><other/>"; }
  if (k == "d_std") { o.code = -32500; o.text = "disp"; return call(k, ""); }
  if (k == "d_int") { o.code = -32500; o.text = "Unknown Error"; return call(k, ""); }
  if (k == "d_fault") { o.code = 5; o.text = "disp"; return call(k, ""); }
  if (k == "d_code") { o.code = atoi(x.c_str()); o.text = "disp"; return call("d_code." + x, ""); }
  if (k == "d_text") { o.code = 9; o.text = text(x); return call("d_text." + x, ""); }
  if (k == "d_http") { o.status = 411; o.fault = false; return call(k, ""); }
  o.methods = 1;
  if (k == "d_ok") { o.nruns = 1; o.fault = false; o.text = "ok:"; return call(k, p_str("")); }
  if (k == "i_fault" && !x.empty()) { o.code = atoi(x.c_str()); o.text = "icpt"; o.nruns = 0; return m(p_str("x") + p_str(k) + p_int(o.code)); }
  if (k == "i_fault") { o.code = 6; o.text = "icpt"; return m(p_str("x") + p_str(k)); }
  if (k == "i_std") { o.code = other; o.text = "icpt"; return m(p_str("x") + p_str(k)); }
  if (k == "i_int") { o.code = other; o.text = "Unknown Error"; return m(p_str("x") + p_str(k)); }
  if (k == "i_stop") { o.fault = false; o.text = "stopped"; return m(p_str("x") + p_str(k)); }
  if (k == "i_after") { o.nruns = 1; o.code = 8; o.text = "after"; return m(p_str("x") + p_str(k)); }
  fail("unknown word " + w); return "";
}
static std::string between(const std::string& s, const std::string& a, const std::string& b, size_t from = 0) { size_t i = s.find(a, from); if (i == std::string::npos) return "?"; i += a.size(); size_t j = s.find(b, i); return j == std::string::npos ? "?" : s.substr(i, j - i); }
static void judge(const Ans& a, const Want& o, const std::string& at)
{
  expect(!a.eof, "no answer" + at);
  expect_eq(a.code, o.status, "status" + at);
  if (o.status != 200) { expect(a.body.empty(), "an HTTP error with a body" + at); return; }
  bool f = a.body.find("<fault>") != std::string::npos;
  expect_eq(f, o.fault, "fault" + at + " " + show(a.body));
  if (f) {
    size_t i = a.body.find("faultCode"), j = a.body.find("faultString");
    expect(i != std::string::npos && j != std::string::npos, "malformed fault" + at);
    std::string n = between(a.body, "<i4>", "</i4>", i); if (n == "?") n = between(a.body, "<int>", "</int>", i);
    if (o.text != "*") expect_eq(n, std::to_string(o.code), "fault code" + at);
    if (!o.text.empty() && o.text != "*") expect_str(between(a.body, "<string>", "</string>", j), o.text, "fault text" + at);
  } else if (!o.text.empty()) expect(a.body.find(">" + o.text + "<") != std::string::npos, "the answer is not the result" + at + ": " + show(a.body));
}
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; std::istringstream is(s); std::string q; while (std::getline(is, q, ',')) r.push_back(q); return r; }
static void settled(long m0, const std::string& at) { for (int i = 0; i < 400 && made - gone != m0; ++i) usleep(2000); expect_eq(made - gone, m0, "method objects left" + at); }
// hist <s|p|s0|p0> <words> (0: a server without interceptors): one after the other on one connection
static void hist(const Args& a)
{
  bool pool = a.at(0)[0] == 'p';
  Srv& s = srv(pool, a.at(0).size() > 1);
  std::unique_ptr<Cli> c(new Cli(s.port));
  for (auto& w : words(a.at(1))) {
    Want o; std::string b = body_of(w, o, pool), at = " for " + w + (pool ? " (pool)" : " (serial)");
    long m0 = made, g0 = gone, r0 = runs;
    c->put(http_req(b, "keep-alive"));
    judge(c->get(), o, at);
    expect(c->quiet(3) || c->closed, "a second answer" + at + ": " + show(c->buf));
    settled(m0 - g0, at);
    expect_eq(made - m0, o.methods, "method objects created" + at);
    expect_eq(runs - r0, o.nruns, "executions of the method" + at);
    if (c->closed) c.reset(new Cli(s.port));
    expect(!s.ended, "the server stopped: " + s.died);
  }
}
// many <s|p|s0|p0> <words>: all at once on as many connections
static void many(const Args& a)
{
  bool pool = a.at(0)[0] == 'p';
  Srv& s = srv(pool, a.at(0).size() > 1);
  auto ws = words(a.at(1));
  std::vector<std::unique_ptr<Cli>> c; std::vector<Want> o(ws.size());
  long m0 = made - gone;
  for (size_t i = 0; i < ws.size(); ++i) { c.emplace_back(new Cli(s.port)); c[i]->put(http_req(body_of(ws[i], o[i], pool), i % 2 ? "keep-alive" : "")); }
  for (size_t i = ws.size(); i--;) judge(c[i]->get(), o[i], " for " + ws[i] + " among others");
  for (size_t i = 0; i < ws.size(); ++i) expect(c[i]->quiet(1) || c[i]->closed, "a second answer for " + ws[i]);
  settled(m0, " after a burst");
}
static void battery(Rng& g, bool thorough)
{
  std::vector<std::string> w = {"ok:a", "ok:", "empty", "fault:1", "fault:-1", "fault:0", "fault:2147483647", "fault:-2147483648", "exc", "noexc", "std", "int", "boom", "http", "violation", "unkm", "badcast", "unknown:x", "unknown:", "notxml", "nomethod", "d_std", "d_int", "d_fault", "d_http", "d_ok", "i_fault", "i_std", "i_int", "i_stop", "i_after"};
  for (const char* c : {"0", "1", "-1", "100", "200", "400", "-32000", "-32500", "-32600", "-32700", "2147483647", "-2147483648"}) for (const char* k : {"exc:", "d_code:", "i_fault:"}) w.push_back(std::string(k) + c);
  for (const char* c : {"0", "1", "2", "3", "4", "5"}) for (const char* k : {"text:", "d_text:"}) w.push_back(std::string(k) + c);
  for (int i = 0; i < 13; ++i) w.push_back("stdx:" + std::to_string(i));
  for (const char* e : {"s", "p"}) {
    for (auto& n : lit_names()) { if (n == "fault" || n == "int" || n == "std" || n == "empty" || n == "http" || n == "exc" || n == "text" || n == "stdx") continue; run(std::string("hist ") + e + " ok:" + n); if (n != "system.listMethods") run(std::string("hist ") + e + " unknown:" + n); }
    for (auto v : lit_nums()) if (v < 2147483647) { run(std::string("hist ") + e + " fault:" + std::to_string(v)); run(std::string("hist ") + e + " fault:-" + std::to_string(v)); for (const char* k : {"exc:", "d_code:", "i_fault:"}) run(std::string("hist ") + e + " " + k + std::to_string(v) + "," + k + "-" + std::to_string(v)); }
    for (auto& x : w) { run(std::string("hist ") + e + " " + x); if (x.find('_') == std::string::npos || x.find(':') == std::string::npos) run(std::string("hist ") + e + " " + x + ",ok:after," + x); }
    for (auto& x : w) if (x.compare(0, 2, "i_")) run(std::string("hist ") + e + "0 " + x + ",ok:after");
    unsigned n = thorough ? 300 : 40;
    for (unsigned i = 0; i < n; ++i) { std::string h; for (unsigned k = 1 + g.upto(8); k; --k) h += (h.empty() ? "" : ",") + w[g.upto(w.size())]; run(std::string(i % 2 ? "hist " : "many ") + e + " " + h); }
  }
}
int main(int c, char** v)
{
  ops()["hist"] = hist; ops()["many"] = many;
  return main_(c, v, battery);
}
