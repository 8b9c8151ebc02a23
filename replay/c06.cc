// C06: which documents are accepted as calls and responses, and the errors for others
#include "xmltree.h"
#include <libxml/xmlerror.h>
using namespace xt;

static std::string call_canon(const Request& r)
{
  std::string s = hex(r.get_name()) + "(";
  for (auto& v : r.get_params()) s += canon(v) + ",";
  return s + ")";
}
static std::string answer_canon(const Response& r)
{
  return r.is_fault() ? "fault:" + std::to_string(r.fault_code()) + ":" + hex(r.fault_string()) : "ok:" + canon(r.value());
}

// verdict: accept <canonical content> | violation | parse | cast | error
static void judge(const std::string& doc, bool call, const Args& a)
{
  std::string got, text;
  int code = 0;
  try {
    if (call) { std::unique_ptr<Request> r(parse_request(doc)); text = call_canon(*r); }
    else text = answer_canon(parse_response(doc));
    got = "accept";
  }
  catch (const XML_RPC_violation& e) { got = "violation"; code = e.code(); }
  catch (const Parse_error& e) { got = "parse"; code = e.code(); }
  catch (const Value::Bad_cast&) { got = "cast"; }
  catch (const std::exception& e) { got = exc_name(); }
  const std::string& want = a[1];
  if (want == "error") { expect(got != "accept", "document was accepted as " + text); return; }
  if (want == "any") return;
  if (got != want) fail(std::string(call ? "call" : "response") + " " + show(doc) + ": " + got + (got == "accept" ? " as " + text : "") + ", expected " + want);
  if (want == "accept") expect_eq(text, a[2], std::string("content of ") + show(doc));
  if (want == "violation") expect_eq(code, -32600, "code of the violation");
  if (want == "parse") expect_eq(code, -32700, "code of the parse error");
}
static void op_call(const Args& a) { judge(unhex(a[0]), true, a); }
static void op_answer(const Args& a) { judge(unhex(a[0]), false, a); }
// faults written by the library
static void op_fault(const Args& a)
{
  int code = atoi(a[0].c_str());
  std::string s = unhex(a[1]);
  std::string d = dump_response(Response(code, s));
  Response r = parse_response(d);
  expect(r.is_fault(), "a fault reads back as a fault");
  expect_eq(r.fault_code(), code, "fault code");
  expect_str(r.fault_string(), s, "fault string");
  int thrown = 0; std::string what;
  try { r.value(); } catch (const Exception& e) { thrown = e.code(); what = e.what(); }
  expect_eq(thrown, code, "code of the exception for a fault");
  expect_str(what, s, "text of the exception for a fault");
}

// ---- documents
static Node call_node(const std::string& name, const std::vector<MV>& ps, bool bare, const char* it)
{
  Node n("methodCall");
  n.add(Node("methodName", name));
  Node p("params");
  for (auto& v : ps) p.add(Node("param").add(value_node(v, bare, it)));
  return n.add(p);
}
static std::string call_text(const std::string& name, const std::vector<MV>& ps)
{
  std::string s = hex(name) + "(";
  for (auto& v : ps) s += canon(v) + ",";
  return s + ")";
}
static Node answer_node(const MV& v, bool bare, const char* it) { return Node("methodResponse").add(Node("params").add(Node("param").add(value_node(v, bare, it)))); }
static MV num(long long i) { MV v; v.k = 'i'; v.i = i; return v; }
static MV str(const std::string& s) { MV v; v.k = 's'; v.s = s; return v; }
static MV fault_mv(long long c, const std::string& s) { MV v; v.k = '{'; v.m = {{"faultCode", num(c)}, {"faultString", str(s)}}; return v; }
static Node fault_node(const MV& v, const char* it = "i4") { return Node("methodResponse").add(Node("fault").add(value_node(v, false, it))); }

static bool bare_ok(const MV& v)
{
  if (v.k == 's') { if (v.s.empty()) return true; for (unsigned char c : v.s) if (!isspace(c)) return true; return false; }
  for (auto& p : v.m) if (!bare_ok(p.second)) return false;
  for (auto& e : v.a) if (!bare_ok(e)) return false;
  return true;
}
// scalar with text, where white space between elements would be content
static bool leaf(const Node& n) { return n.kids.empty(); }

static void all(Node& n, std::vector<Node*>& out) { out.push_back(&n); for (auto& k : n.kids) all(k, out); }

static const char* KINDS[] = {"string", "int", "i4", "i8", "boolean", "double", "base64", "dateTime.iso8601", "struct", "array", "nil"};
static bool kind(const std::string& t) { for (auto k : KINDS) if (t == k) return true; return false; }
static const char* WORDS[] = {"methodCall", "methodResponse", "methodName", "params", "param", "value", "fault", "struct", "array", "data", "member", "name", "string", "int", "i4", "i8", "boolean", "double",
  "base64", "dateTime.iso8601", "nil", "x", "Value", "values", "valu", "parameter", "methodname", "methodCalls", "i1", "i2", "integer", "bool", "float", "date", "dateTime", "binary", "null", "ex", "fault2", "faultCode", "val", "ue"};
static std::string word(Rng& g)
{
  static std::vector<std::string> l = [] { std::vector<std::string> r; for (auto& w : lit_names(".")) if (isalpha((unsigned char)w[0])) r.push_back(w); return r; }();
  if (!l.empty() && g.coin(3)) return g.pick(l);
  return WORDS[g.upto(sizeof(WORDS) / sizeof(*WORDS))];
}
// what may stand where this element stands
static bool fits(const Node& parent, const std::string& was, const std::string& t)
{
  if (parent.tag == "value" && kind(was)) return kind(t);
  if (parent.tag == "methodResponse") return t == "params" || t == "fault";
  return t == was;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += s; return r; }

// one change of a valid document; "" = no verdict
static std::string change(Rng& g, Node& root, bool call)
{
  std::vector<Node*> ns;
  all(root, ns);
  Node& n = *ns[g.upto(ns.size())];
  switch (g.upto(6)) {
  case 0: {                                           // another element instead
    if (&n == &root) { std::string t = word(g); if (t == n.tag) return ""; n.tag = t; return "violation"; }
    for (Node* p : ns) for (auto& k : p->kids) if (&k == &n) {
      std::string t = word(g);
      if (fits(*p, n.tag, t)) return "";
      n.tag = t;
      return "violation";
    }
    return "";
  }
  case 1: {                                           // one more element inside
    std::string t = word(g);
    size_t at = n.kids.empty() ? 0 : g.upto(n.kids.size() + 1);
    std::string next = at < n.kids.size() ? n.kids[at].tag : "", prev = at > 0 ? n.kids[at - 1].tag : "";
    if (n.kids.empty()) {
      bool text = n.text.find_first_not_of(" \t\r\n") != n.text.npos;
      if (n.tag == "value") { if (kind(t)) return ""; }
      else if (n.tag == "params" || n.tag == "struct" || n.tag == "data" || n.tag == "array") { if (t == (n.tag == "params" ? "param" : n.tag == "struct" ? "member" : n.tag == "data" ? "value" : "data")) return ""; }
      else if (n.tag == "methodName" || n.tag == "name") { if (t == "params" || t == "value") return ""; }
      else if (!kind(n.tag)) return "";
      (void)text;
    } else if (n.tag == "methodCall") { if (t == "params" && prev == "methodName") return ""; }
    else if (n.tag == "params") { if (t == "param") return ""; }
    else if (n.tag == "data") { if (t == "value") return ""; }
    else if (n.tag == "struct") { if (t == "member") return ""; }
    n.kids.insert(n.kids.begin() + at, Node(t));
    return "violation";
  }
  case 2: {                                           // an element is missing
    if (n.tag == "methodCall" || n.tag == "methodResponse" || n.tag == "member" || n.tag == "fault") {
      if (n.kids.empty()) return "";
      size_t at = g.upto(n.kids.size());
      if (n.kids[at].tag == "params" && call) return "";
      n.kids.erase(n.kids.begin() + at);
      return "violation";
    }
    if (n.tag == "param" && !call) { n.kids.clear(); return "violation"; }
    return "";
  }
  case 3: {                                           // an element twice
    if (n.kids.empty() || n.tag == "data" || n.tag == "struct") return "";
    size_t at = g.upto(n.kids.size());
    if (n.tag == "params" && call) return "";
    Node k = n.kids[at];
    n.kids.insert(n.kids.begin() + at, k);
    return "violation";
  }
  case 4: {                                           // the other way round
    if (n.kids.size() != 2 || (n.tag != "methodCall" && n.tag != "member")) return "";
    std::swap(n.kids[0], n.kids[1]);
    return "violation";
  }
  default: {                                          // no text
    if (!kind(n.tag) || n.text.empty() || n.tag == "string" || n.tag == "base64") return "";
    n.text = "";
    return "violation";
  }
  }
}

static Style style(Rng& g)
{
  Style s;
  s.selfclose = g.coin();
  s.decl = g.coin();
  if (g.coin(4)) s.gap = g.coin() ? "\n  " : " ";
  if (g.coin(8)) s.comment = "<!-- c -->";
  return s;
}
static void doc(bool call, const std::string& text, const std::string& verdict) { run(std::string(call ? "call " : "answer ") + hex(text) + " " + verdict); }

static void battery(Rng& g, bool thorough)
{
  // values
  for (auto& v : sample()) {
    doc(true, document(call_node("m", {v}, false, "i4")), "accept " + call_text("m", {v}));
    doc(true, document(call_node("m", {v, v, num(1)}, false, "int")), "accept " + call_text("m", {v, v, num(1)}));
    doc(false, document(answer_node(v, false, "int")), "accept ok:" + canon(v));
    if (v.k != '{') { doc(false, document(fault_node(v)), "violation"); }
  }
  for (auto& v : pairs()) {
    doc(false, document(answer_node(v, false, "i4")), "accept ok:" + canon(v));
    Style open; open.selfclose = false;
    if (bare_ok(v)) { doc(false, document(answer_node(v, true, "i4")), "accept ok:" + canon(v)); doc(true, document(call_node("m", {v, num(1)}, true, "i4"), open), "accept " + call_text("m", {v, num(1)})); }
  }
  for (int n : {1, 2, 3, 10, 60}) doc(true, document(call_node("m", {deep(num(1), n), str("end")}, false, "i4")), "accept " + call_text("m", {deep(num(1), n), str("end")}));
  for (int n : {0, 1, 2, 50, 3000}) { std::vector<MV> ps; for (int i = 0; i < n; i++) ps.push_back(i % 3 ? num(i) : str("p")); doc(true, document(call_node("many", ps, false, "i4")), "accept " + call_text("many", ps)); }
  for (unsigned n : sizes(70000)) {
    MV v = str(std::string(n, 'q')), w; w.k = '{'; w.m = {{v.s, num(1)}};
    doc(true, document(call_node(v.s + "n", {v}, false, "i4")), "accept " + call_text(v.s + "n", {v}));
    doc(false, document(answer_node(w, false, "i4")), "accept ok:" + canon(w));
    if (n) doc(false, document(answer_node(v, true, "i4")), "accept ok:" + canon(v));
    doc(false, document(fault_node(fault_mv(4, v.s))), "accept fault:4:" + hex(v.s));
  }
  for (unsigned n : sizes(1100)) {
    MV v, w; v.k = '['; w.k = '{'; std::vector<MV> ps;
    for (unsigned i = 0; i < n; i++) { ps.push_back(num(i)); v.a.push_back(num(i)); w.m.push_back({"k" + std::to_string(i), num(i)}); }
    doc(true, document(call_node("m", ps, false, "i4")), "accept " + call_text("m", ps));
    doc(true, document(call_node("m", {v, w, num(1)}, false, "i4")), "accept " + call_text("m", {v, w, num(1)}));
  }
  for (unsigned n : sizes(70)) doc(false, document(answer_node(deep(num(1), n), false, "i4")), "accept ok:" + canon(deep(num(1), n)));
  // names
  for (const char* s : {"a", "system.listMethods", "a b", "x<y", "faultCode"}) doc(true, document(call_node(s, {}, false, "i4")), "accept " + call_text(s, {}));
  doc(true, "<methodCall><methodName>m</methodName></methodCall>", "accept " + call_text("m", {}));
  doc(true, "<methodCall><methodName>m</methodName><params/></methodCall>", "accept " + call_text("m", {}));
  doc(true, "<ex:methodCall xmlns:ex='u'><ex:methodName>m</ex:methodName></ex:methodCall>", "accept " + call_text("m", {}));
  doc(true, "<!-- c --><methodCall a='1'><!-- d --><methodName>m</methodName>\n<params>\n<param><value>s</value></param>\n</params></methodCall>", "accept " + call_text("m", {str("s")}));
  doc(true, "<methodCall/>", "violation"); doc(true, "<methodCall></methodCall>", "violation");
  doc(false, "<methodResponse/>", "violation"); doc(false, "<methodResponse><params/></methodResponse>", "violation");
  doc(false, "<methodResponse><params><param/></params></methodResponse>", "violation");
  doc(false, "<methodResponse><fault/></methodResponse>", "violation");
  doc(true, document(answer_node(num(1), false, "i4")), "violation"); doc(false, document(call_node("m", {}, false, "i4")), "violation");
  doc(false, "<methodResponse><params><param><value/></param></params></methodResponse>", "accept ok:" + canon(str("")));
  // every kind: empty, with an element inside, unknown kinds
  for (auto k : KINDS) for (bool call : {true, false}) {
    std::string K = k, pre = call ? "<methodCall><methodName>m</methodName><params><param><value>" : "<methodResponse><params><param><value>";
    std::string post = call ? "</value></param></params></methodCall>" : "</value></param></params></methodResponse>";
    std::string e = K == "string" ? canon(str("")) : K == "base64" ? "x-" : K == "nil" ? "n" : K == "struct" ? "{}" : K == "array" ? "[]" : "";
    std::string v = e.empty() ? "violation" : "accept " + (call ? hex("m") + "(" + e + ",)" : "ok:" + e);
    doc(call, pre + "<" + K + "/>" + post, v);
    doc(call, pre + "<" + K + "></" + K + ">" + post, v);
    doc(call, pre + "<" + K + "><x/></" + K + ">" + post, "violation");
    doc(call, pre + "<" + K + "><i4>1</i4></" + K + ">" + post, "violation");
    doc(call, pre + "<" + K + "/><" + K + "/>" + post, "violation");
    doc(call, pre + "<x" + K + "/>" + post, "violation");
    doc(call, pre + "<" + K + "x/>" + post, "violation");
  }
  doc(true, "<methodCall><methodName>m</methodName><params><param><value><nil>x</nil></value></param></params></methodCall>", "violation");
  doc(true, "<methodCall><methodName><b/></methodName></methodCall>", "violation");
  for (const char* t : {"i4", "int", "i8", "double", "boolean"}) for (const char* s : {"x", "1x", "--1", "1 2"})
    doc(true, std::string("<methodCall><methodName>m</methodName><params><param><value><") + t + ">" + s + "</" + t + "></value></param></params></methodCall>", "error");
  // faults
  for (long long c : {0LL, 1LL, -1LL, -32700LL, 2147483647LL, -2147483648LL}) for (const char* s : {"", "text", "  ", "<&>", "a\nb"}) {
    doc(false, document(fault_node(fault_mv(c, s))), "accept fault:" + std::to_string(c) + ":" + hex(s));
    doc(false, document(fault_node(fault_mv(c, s), "int")), "accept fault:" + std::to_string(c) + ":" + hex(s));
    run("fault " + std::to_string(c) + " " + hex(s));
  }
  {
    MV f = fault_mv(4, "t"), r = f;
    std::swap(r.m[0], r.m[1]);
    doc(false, document(fault_node(r)), "accept fault:4:" + hex("t"));
    MV more = f; more.m.push_back({"extra", num(1)}); doc(false, document(fault_node(more)), "violation");
    for (int k : {0, 1}) { MV less = f; less.m.erase(less.m.begin() + k); doc(false, document(fault_node(less)), "violation"); }
    for (const char* n : {"faultcode", "FaultCode", "code", "faultCode ", "faultStrin", ""}) for (int k : {0, 1}) { MV o = f; o.m[k].first = n; doc(false, document(fault_node(o)), "violation"); }
    for (auto& v : sample()) {
      if (v.k != 'i') { MV o = f; o.m[0].second = v; doc(false, document(fault_node(o)), "cast"); }
      if (v.k != 's') { MV o = f; o.m[1].second = v; doc(false, document(fault_node(o)), "cast"); }
    }
    std::string d = document(fault_node(f), Style{});
    doc(false, "<methodResponse><params><param><value><i4>1</i4></value></param></params><fault>" + write(value_node(f)) + "</fault></methodResponse>", "violation");
    doc(false, "<methodResponse><fault>" + write(value_node(f)) + "</fault><params><param><value><i4>1</i4></value></param></params></methodResponse>", "violation");
    doc(false, "<methodResponse><fault>" + write(value_node(f)) + write(value_node(f)) + "</fault></methodResponse>", "violation");
  }
  // start tags in any order, one inside the other or one after the other
  {
    const std::string F = write(value_node(fault_mv(4, "t"))), I = "<value><i4>1</i4></value>";
    const std::vector<std::string> T = {"methodResponse", "methodCall", "params", "param", "fault", "methodName", "V", "F"};
    for (unsigned n = 1; n <= 5; n++) {
      unsigned many = 1;
      for (unsigned i = 1; i < n; i++) many *= T.size();
      for (unsigned k = 0; k < many; k++) for (bool call : {true, false}) {
        std::vector<std::string> t = {call ? "methodCall" : "methodResponse"};
        for (unsigned i = 1, r = k; i < n; i++, r /= T.size()) t.push_back(T[r % T.size()]);
        if (n == 5 && t[4] != "V" && t[4] != "F") continue;
        std::string flat = join(t), want = "violation";
        // what the property lists, by the order of start tags
        if (call) {
          std::string c = hex("m") + "(";
          size_t i = 1, ok = t.size() > 1 && t[1] == "methodName";
          if (ok && t.size() > 2) { ok = t[2] == "params"; for (i = 3; ok && i < t.size(); i++) if (i % 2) ok = t[i] == "param"; else { ok = t[i] == "V" || t[i] == "F"; c += canon(t[i] == "V" ? num(1) : fault_mv(4, "t")) + ","; } }
          if (ok) want = "accept " + c + ")";
        } else if (flat == "methodResponseparamsparamV") want = "accept ok:" + canon(num(1));
        else if (flat == "methodResponseparamsparamF") want = "accept ok:" + canon(fault_mv(4, "t"));
        else if (flat == "methodResponsefaultF") want = "accept fault:4:" + hex("t");
        for (bool nested : {true, false}) {
          std::string a, z = "</" + t[0] + ">";
          for (size_t i = 1; i < t.size(); i++) {
            std::string b = t[i] == "V" ? I : t[i] == "F" ? F : t[i] == "methodName" ? "<methodName>m</methodName>" : "";
            if (b.empty() && nested) { a += "<" + t[i] + ">"; z = "</" + t[i] + ">" + z; }
            else a += b.empty() ? "<" + t[i] + "/>" : b;
          }
          doc(call, "<" + t[0] + ">" + a + z, want);
        }
      }
    }
    doc(true, "<methodCall><methodName/></methodCall>", "accept " + call_text("", {}));
    doc(true, "<methodCall><methodName></methodName><params><param>" + I + "</param></params></methodCall>", "accept " + call_text("", {num(1)}));
  }
  // not XML
  for (bool call : {true, false}) {
    for (const char* s : {"", " ", "x", "<", "<>", "</methodCall>", "<methodCall", "&amp;", "{\"a\":1}", "<?xml version='1.0'?>", "<a><b></a></b>"}) doc(call, s, s[0] == '<' && s[1] == 'a' ? "error" : "parse");
    std::vector<std::string> ds;
    if (call) { ds.push_back(document(call_node("name", {num(12), str("s")}, false, "i4"))); std::vector<MV> ps(60, num(12)); ds.push_back(document(call_node("name", ps, false, "i4"))); }
    else { ds.push_back(document(answer_node(str("s"), false, "i4"))); ds.push_back(document(fault_node(fault_mv(1, "s")))); MV big; big.k = '['; big.a.assign(60, str("s")); ds.push_back(document(answer_node(big, false, "i4"))); }
    for (auto& d : ds) {
      for (size_t k = 0; k < d.size(); k += d.size() > 600 ? 7 : 1) doc(call, d.substr(0, k), "parse");
      for (size_t k = d.find("<method"); (k = d.find("</", k)) != d.npos; k += 2) if (d.size() < 600 || g.coin(10)) { std::string e = d; e.insert(k + 2, "z"); doc(call, e, "parse"); }
    }
    doc(call, std::string(call ? "<methodCall><methodName>m</methodName><params><param><value>&nope;</value></param></params></methodCall>" : "<methodResponse><params><param><value>&nope;</value></param></params></methodResponse>"), "error");
  }
  // changed documents
  for (int i = 0; i < (thorough ? 60000 : 8000); i++) {
    bool call = g.coin();
    const char* it = g.coin() ? "i4" : "int";
    bool bare = g.coin(3);
    std::vector<MV> ps;
    for (int k = g.upto(4); k > 0; k--) ps.push_back(rand_mv(g, 1 + g.upto(4)));
    bool b = bare;
    for (auto& p : ps) b = b && bare_ok(p);
    if (ps.empty()) ps.push_back(num(3));
    std::string name = "m" + rand_text(g);
    Node root = call ? call_node(name, ps, b, it) : g.coin(3) ? fault_node(fault_mv(rand_num(g, false), rand_text(g))) : answer_node(ps[0], b, it);
    std::string want = "accept " + (call ? call_text(name, ps) : root.kids[0].tag == "fault" ? "" : "ok:" + canon(ps[0]));
    if (g.coin(4)) { if (call || root.kids[0].tag != "fault") doc(call, document(root, style(g)), want); continue; }
    std::string v = change(g, root, call);
    if (!v.empty()) doc(call, document(root, style(g)), v);
  }
}

static void quiet(void*, const char*, ...) {}

int main(int argc, char** argv)
{
  ops()["call"] = op_call; ops()["answer"] = op_answer; ops()["fault"] = op_fault;
  xmlSetGenericErrorFunc(0, quiet);
  return main_(argc, argv, battery);
}
