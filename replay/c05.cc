// C05: values written as XML-RPC and read back
#include "xmltree.h"
#include <libxml/xmlerror.h>
using namespace xt;

static bool blank(const std::string& s) { return s.find_first_not_of(" \t\r\n") == s.npos; }
static MV as_read(MV v, bool bare)
{
  if (bare && v.k == 's' && blank(v.s)) v.s = "";
  for (auto& p : v.m) p.second = as_read(p.second, bare);
  for (auto& e : v.a) e = as_read(e, bare);
  return v;
}
// text of doubles may differ as long as it is the same number
static void same(const Node& got, const Node& want, const std::string& where)
{
  expect_str(got.tag, want.tag, "element at " + where);
  if (want.tag == "double") { char* e; double d = strtod(got.text.c_str(), &e); expect(*e == 0 && dbl(d) == dbl(strtod(want.text.c_str(), 0)), "text of double at " + where + ": " + show(got.text)); }
  else expect_str(got.text, want.text, "text at " + where + "/" + want.tag);
  expect_eq(got.kids.size(), want.kids.size(), "number of elements at " + where + "/" + want.tag);
  for (size_t i = 0; i < want.kids.size(); i++) same(got.kids[i], want.kids[i], where.size() > 100 ? "..." : where + "/" + want.tag);
}
static MV sorted(MV v)
{
  std::map<std::string, MV> o;
  for (auto& p : v.m) o[p.first] = sorted(p.second);
  v.m.clear();
  for (auto& p : o) v.m.push_back(p);
  for (auto& e : v.a) e = sorted(e);
  return v;
}
static Node doc(const std::string& d) { try { return read_document(d); } catch (const Bad& b) { fail("not a plain document (" + b.why + "): " + show(d.substr(0, 3000))); throw; } }

static void op_call(const Args& a)
{
  std::string name = unhex(a[0]);
  Param_list ps;
  Node want("methodCall");
  want.add(Node("methodName", name));
  Node wp("params");
  std::string w;
  for (size_t i = 1; i < a.size(); i++) { MV v = parse_mv(a[i]); ps.push_back(make(v)); wp.add(Node("param").add(value_node(sorted(v)))); w += canon(v) + ","; }
  want.add(wp);
  for (int i = 1; i < int(a.size()); i++) expect_eq(canon(ps[i - 1]), a[i], "value as built");
  for (bool omit : {false, true}) {
    Value::omit_string_tag_in_responses(omit);
    Request q(name, ps);
    std::string d = dump_request(q);
    same(doc(d), want, "");
    std::unique_ptr<Request> r(parse_request(d));
    expect_str(r->get_name(), name, "method name read back");
    std::string got;
    for (auto& v : r->get_params()) got += canon(v) + ",";
    expect_eq(got, w, "parameters read back from " + show(d.substr(0, 3000)));
    expect_str(dump_request(*r), d, "written again");
  }
  Value::omit_string_tag_in_responses(false);
}
static void op_answer(const Args& a)
{
  MV v = parse_mv(a[0]);
  for (bool omit : {false, true, false}) {
    Value::omit_string_tag_in_responses(omit);
    Node want = Node("methodResponse").add(Node("params").add(Node("param").add(value_node(sorted(v), omit))));
    Response q(new Value(make(v)));
    std::string d = dump_response(q);
    same(doc(d), want, "");
    Response r = parse_response(d);
    expect(!r.is_fault(), "a response reads back as a response");
    expect_eq(canon(r.value()), canon(as_read(v, omit)), "value read back from " + show(d.substr(0, 3000)));
    if (!omit) expect_str(dump_response(r), d, "written again");
  }
  Value::omit_string_tag_in_responses(false);
}
static void op_fault(const Args& a)
{
  int code = atoi(a[0].c_str());
  std::string s = unhex(a[1]);
  MV c, t, f; c.k = 'i'; c.i = code; t.k = 's'; t.s = s; f.k = '{'; f.m = {{"faultCode", c}, {"faultString", t}};
  for (bool omit : {false, true}) {
    Value::omit_string_tag_in_responses(omit);
    std::string d = dump_response(Response(code, s));
    same(doc(d), Node("methodResponse").add(Node("fault").add(value_node(f, omit))), "");
    Response r = parse_response(d);
    expect(r.is_fault(), "a fault reads back as a fault");
    expect_eq(r.fault_code(), code, "fault code");
    expect_str(r.fault_string(), omit && blank(s) ? "" : s, "fault string");
  }
  Value::omit_string_tag_in_responses(false);
}
static void both(const MV& v)
{
  std::string c = canon(v);
  run("call " + hex("m") + " " + c);
  run("answer " + c);
}

static void battery(Rng& g, bool thorough)
{
  for (auto& v : sample()) { both(v); run("call " + hex("a.b") + " " + canon(v) + " " + canon(v) + " i7"); }
  for (auto& v : pairs()) both(v);
  for (auto& v : sample()) for (int n : {1, 2, 3, 7, 40}) both(deep(v, n));
  run("call " + hex("m")); run("call " + hex("<m> &"));
  // all bytes of text, all lengths around the reader's buffers
  for (int b = 9; b < 128; b++) if (b >= 32 || b == 9 || b == 10 || b == 13) { MV v; v.k = 's'; v.s = std::string(1, char(b)); both(v); v.s = "a" + v.s + "b"; both(v); MV w; w.k = '{'; MV i; i.k = 'i'; w.m = {{v.s, i}, {std::string(1, char(b)), i}}; both(w); }
  for (unsigned n : {100u, 300u, 500u, 511u, 512u, 513u, 1000u, 4000u, 4096u, 5000u, 70000u, 300000u}) for (int k : {0, 1, 2}) {
    MV v; v.k = k == 2 ? 'x' : 's'; while (v.s.size() < n) v.s += k == 0 ? "x" : k == 1 ? "a<&\xc3\xa9 " : std::string(1, char(v.s.size() * 7));
    both(v);
  }
  for (int n : {0, 1, 9, 10, 99, 255, 1000}) { MV v, e; v.k = '['; e.k = 'i'; for (int i = 0; i < n; i++) { e.i = i; v.a.push_back(e); } both(v); MV w; w.k = '{'; for (int i = 0; i < n; i++) { e.i = i; w.m.push_back({"k" + std::to_string(i), e}); } both(w); }
  for (unsigned n : sizes(70000)) {
    MV v; v.k = 's'; v.s = std::string(n, 'q'); both(v);
    run("call " + hex(v.s + "n") + " i1");
    MV w, e; w.k = '{'; w.m = {{v.s, e}}; both(w);
    v.k = 'x'; both(v);
    run("fault 3 " + hex(v.s));
  }
  for (unsigned n : sizes(1100)) {
    MV v, w, e; v.k = '['; w.k = '{'; e.k = 'i';
    std::string c = "call " + hex("m");
    for (unsigned i = 0; i < n; i++) { e.i = i; v.a.push_back(e); w.m.push_back({"k" + std::to_string(i), e}); c += " " + canon(e); }
    both(v); both(w); run(c);
  }
  for (unsigned n : sizes(70)) { MV v; v.k = 'i'; v.i = n; both(deep(v, n)); MV a; a.k = '['; for (unsigned i = 0; i < n; i++) { MV o; o.k = '['; o.a = {a}; a = o; } both(a); }
  for (long long i : lit_nums()) { MV v; v.k = 'l'; for (int k = -1; k < 2; k++) { v.i = (long long)((unsigned long long)i + k); v.k = 'l'; both(v); v.k = 'i'; v.i = int(v.i); both(v); v.k = 'd'; v.d = double(v.i) / 3; both(v); } }
  for (auto& w : lit_words()) { bool ok = true; for (unsigned char c : w) if (c < 32 || c > 126) ok = false; if (ok) { MV v; v.k = 's'; v.s = w; both(v); MV s, i; s.k = '{'; i.k = 'i'; s.m = {{w, v}, {"z", i}}; both(s); } }
  for (int i = 0; i < 64; i++) { MV v; v.k = 'l'; v.i = (long long)(1ull << i); both(v); v.i = -v.i; both(v); v.k = 'd'; v.d = std::ldexp(1.0, i * 17 - 544); both(v); v.d = -v.d / 3; both(v); if (i < 32) { v.k = 'i'; v.i = int(1u << i); both(v); v.i = int(~(1u << i)); both(v); } }
  { MV v; v.k = 'd'; v.d = std::numeric_limits<double>::infinity(); both(v); v.d = -v.d; both(v); v.d = std::nan(""); both(v); }
  for (int i = 0; i < 130; i++) { MV v; v.k = 'x'; v.s = g.bytes(i); both(v); }
  for (int i = 0; i < 100; i++) { MV v; v.k = 't'; v.s = rand_date(g); both(v); }
  for (long long c : {0LL, 1LL, -1LL, -32700LL, 2147483647LL, -2147483648LL}) for (int i = 0; i < 12; i++) run("fault " + std::to_string(c) + " " + hex(rand_text(g)));
  for (int i = 0; i < (thorough ? 30000 : 4000); i++) {
    if (g.coin(3)) { std::string c = "call " + hex(rand_text(g) + "m"); for (int k = g.upto(5); k > 0; k--) c += " " + canon(rand_mv(g, 3)); run(c); }
    else run("answer " + canon(rand_mv(g, 4)));
  }
}

static void quiet(void*, const char*, ...) {}

int main(int argc, char** argv)
{
  ops()["call"] = op_call; ops()["answer"] = op_answer; ops()["fault"] = op_fault;
  xmlSetGenericErrorFunc(0, quiet);
  return main_(argc, argv, battery);
}
