// C13: dispatchers, registrations and interceptors of real servers.
//   calls <words>       set-up in order, r:name register, d:n1+n2 push a dispatcher knowing these, i enable introspection; then every name is called
//   chain <n> [stop k]  n interceptors, the k-th from outside does not pass the call on
#include "net.h"
using namespace rt;
using namespace net;
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string q; for (char x : s) if (x == c) { r.push_back(q); q.clear(); } else q += x; r.push_back(q); return r; }
struct Tag: Method { std::string t; explicit Tag(const std::string& x): t(x) {} void execute(const Param_list&, Value& r) { net::seen().add(t + "=" + name()); r = t; } };
struct Fact: Method_factory_base { std::string t; explicit Fact(const std::string& x): t(x) {} Method* create() { return new Tag(t); } };
struct Disp: Method_dispatcher_base {
  std::vector<std::string> names; std::string t;
  Method* do_create_method(const std::string& n) { net::seen().add("ask " + t); for (auto& x : names) if (x == n) return new Tag(t); return 0; }
  void do_get_methods_list(Array& a) const { for (auto& x : names) a.push_back(x); }
};
struct Ic: Interceptor { int k; bool pass; Ic(int n, bool p): k(n), pass(p) {} void process(Method* m, const Param_list& p, Value& r) { net::seen().add("in " + std::to_string(k)); if (pass) yield(m, p, r); else r = "stopped"; net::seen().add("out " + std::to_string(k)); } };
struct Own { Serial_executor_factory ef; int port; std::unique_ptr<Http_server> s; std::thread t; std::atomic<bool> ended;
  Own(): port(free_port()), s(new Http_server(iqnet::Inet_addr("127.0.0.1", port), &ef)), ended(false) {}
  void start() { t = std::thread([this] { try { s->work(); } catch (...) {} ended = true; }); for (int i = 0; i < 500; ++i) { int c = Srv::try_connect(port); if (c >= 0) { close(c); return; } usleep(2000); } }
  ~Own() { if (!t.joinable()) return; s->set_exit_flag(); for (int i = 0; i < 1000 && !ended; ++i) { s->interrupt(); usleep(2000); } t.join(); } };
static Response ask(int port, const std::string& m) { Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", port), "/RPC"); c.set_timeout(5); return c.execute(m, Param_list()); }
static void calls(const Args& a)
{
  Own o;
  std::map<std::string, std::string> reg; std::vector<std::vector<std::string>> ds; std::vector<std::string> tags; bool intro = false; std::set<std::string> all; int n = 0;
  all.insert("nobody");
  for (auto& w : split(a.at(0), ',')) {
    std::string t = "t" + std::to_string(n++);
    if (w[0] == 'r') { o.s->register_method(w.substr(2), new Fact(t)); reg[w.substr(2)] = t; all.insert(w.substr(2)); }
    else if (w[0] == 'd') { Disp* d = new Disp; d->t = t; d->names = split(w.substr(2), '+'); ds.push_back(d->names); tags.push_back(t); for (auto& x : d->names) all.insert(x); o.s->push_dispatcher(d); }
    else if (w[0] == 'i') { o.s->enable_introspection(); intro = true; }
  }
  o.start();
  for (auto& m : all) {
    net::seen().take();
    if (m == "system.listMethods") continue;
    std::string want; size_t asked = 0;
    if (reg.count(m)) want = reg[m];
    else for (; asked < ds.size() && want.empty();) { for (auto& x : ds[asked]) if (x == m) want = tags[asked]; ++asked; }
    Response r = ask(o.port, m);
    auto s = net::seen().take();
    if (want.empty()) { expect(r.is_fault(), "no fault for an unknown method " + show(m)); expect_eq(r.fault_code(), -32601, "fault code of an unknown method"); }
    else { expect(!r.is_fault(), "fault for " + show(m) + ": " + (r.is_fault() ? r.fault_string() : std::string())); expect_str(r.value().get_string(), want, "handler of " + show(m)); }
    std::vector<std::string> e;
    for (size_t i = 0; i < asked; ++i) e.push_back("ask " + tags[i]);
    if (!want.empty()) e.push_back(want + "=" + m);
    std::string x, y; for (auto& q : s) x += q + ";"; for (auto& q : e) y += q + ";";
    expect_str(x, y, "what happened for " + show(m));
  }
  Response r = ask(o.port, "system.listMethods");
  if (!intro && !all.count("system.listMethods")) { expect(r.is_fault() && r.fault_code() == -32601, "a method list without introspection"); return; }
  if (!intro) return;
  std::vector<std::string> want; std::set<std::string> first;
  for (auto& x : reg) first.insert(x.first);
  first.insert("system.listMethods");
  want.assign(first.begin(), first.end());
  for (auto& d : ds) for (auto& x : d) want.push_back(x);
  expect(!r.is_fault(), "fault of the method list");
  std::string x, y;
  for (Array::const_iterator i = r.value().the_array().begin(); i != r.value().the_array().end(); ++i) x += (*i).get_string() + ";";
  for (auto& q : want) y += q + ";";
  expect_str(x, y, "method list");
}
struct Preset: Interceptor { Value v; explicit Preset(const Value& x): v(x) {} void process(Method* m, const Param_list& p, Value& r) { r = v; yield(m, p, r); } };
// preset <kind>: an interceptor gives the result a value before the call goes on
static void preset(const Args& a)
{
  Own o;
  Value v = 1;
  if (a.at(0) == "array") { Array x; x.push_back("ghost"); v = x; }
  else if (a.at(0) == "empty") v = Array();
  else if (a.at(0) == "struct") { Struct x; x.insert("ghost", 1); v = x; }
  else if (a.at(0) == "string") v = "ghost";
  o.s->register_method("m", new Fact("m"));
  Disp* d = new Disp; d->t = "d"; d->names.push_back("x"); d->names.push_back("y"); o.s->push_dispatcher(d);
  o.s->enable_introspection();
  o.s->push_interceptor(new Preset(v));
  o.start();
  for (int k = 0; k < 2; ++k) {
    Response q = ask(o.port, "m");
    expect(!q.is_fault() && q.value().is_string(), "result of a method");
    expect_str(q.value().get_string(), "m", "result of a method");
    Response r = ask(o.port, "system.listMethods");
    expect(!r.is_fault() && r.value().is_array(), "the method list is not a list");
    std::string x;
    for (Array::const_iterator i = r.value().the_array().begin(); i != r.value().the_array().end(); ++i) x += ((*i).is_string() ? (*i).get_string() : std::string("?")) + ";";
    expect_str(x, "m;system.listMethods;x;y;", "method list");
  }
}
static void chain(const Args& a)
{
  int n = atoi(a.at(0).c_str()), stop = a.size() > 2 ? atoi(a.at(2).c_str()) : -1;
  Own o;
  o.s->register_method("m", new Fact("m"));
  for (int k = n - 1; k >= 0; --k) o.s->push_interceptor(new Ic(k, k != stop));
  o.start();
  for (int rep = 0; rep < 2; ++rep) {
    net::seen().take();
    Response r = ask(o.port, "m");
    std::string x, y; int last = stop >= 0 && stop < n ? stop : n - 1;
    for (auto& q : net::seen().take()) x += q + ";";
    for (int k = 0; k <= last; ++k) y += "in " + std::to_string(k) + ";";
    if (last == n - 1 && !(stop >= 0 && stop < n)) y += "m=m;";
    for (int k = last; k >= 0; --k) y += "out " + std::to_string(k) + ";";
    expect_str(x, y, "order of execution");
    expect_str(r.value().get_string(), stop >= 0 && stop < n ? "stopped" : "m", "result");
  }
}
static void battery(Rng& g, bool thorough)
{
  for (const char* k : {"array", "empty", "struct", "string", "int"}) run(std::string("preset ") + k);
  for (int n = 0; n < 6; ++n) { run("chain " + std::to_string(n)); for (int k = 0; k < n; ++k) run("chain " + std::to_string(n) + " stop " + std::to_string(k)); }
  for (const char* s : {"r:a", "r:a,r:b,d:b+c,d:c+e", "r:a,r:a,i,d:a", "i", "d:x", "d:x,i,d:x+y,d:y", "r:,d:+z", "r:system.listMethods,i", "i,r:a,d:a,r:a", "d:a,d:a,d:a,d:b", "i,i,r:z,r:b", "r:A,r:a,i", "r:a,r:ab,r:b,d:ab+abc,i"}) run(std::string("calls ") + s);
  // names made of what the library's sources spell out, known to one dispatcher, to a later one, or registered
  auto ns = lit_names("._-/:");
  for (size_t i = 0; i < ns.size(); i += 5) {
    std::string d, r;
    for (size_t k = i; k < ns.size() && k < i + 5; ++k)
      for (auto& w : {ns[k], ns[k] + "a", "b" + ns[k], ns[k].substr(0, (ns[k].size() + 1) / 2)}) { d += (d.empty() ? "" : "+") + w; r += ",r:" + w; }
    run("calls d:zz,d:" + d + ",r:q" + (i % 10 ? ",i" : ""));
    run("calls " + r.substr(1) + ",d:zz");
  }
  for (unsigned i = 0, n = thorough ? 200 : 40; i < n; ++i) {
    std::string s;
    for (unsigned k = 1 + g.upto(7); k; --k) {
      if (!s.empty()) s += ",";
      unsigned w = g.upto(5);
      if (w == 0) s += "i"; else if (w < 3) s += "r:" + g.from("abAB._", 1 + g.upto(2)); else { s += "d:"; for (unsigned q = 1 + g.upto(3); q; --q) s += g.from("abAB._", 1 + g.upto(2)) + (q > 1 ? "+" : ""); }
    }
    run("calls " + s);
  }
}
int main(int c, char** v)
{
  ops()["calls"] = calls; ops()["chain"] = chain; ops()["preset"] = preset;
  return main_(c, v, battery);
}
