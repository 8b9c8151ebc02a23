// Values, documents and their canonical text for the XML drivers; independent of the library's own XML code
#pragma once
#include "rt.h"
#include "value.h"
#include "value_type.h"
#include "request.h"
#include "response.h"
#include "except.h"
#include <cmath>
#include <limits>
#include <memory>

namespace xt {
using namespace rt;
using namespace iqxmlrpc;

struct MV {                       // a value
  char k = 's';                   // n i l d b s x t { [
  long long i = 0; double d = 0; std::string s;
  std::vector<std::pair<std::string, MV>> m;
  std::vector<MV> a;
};

inline std::string dbl(double d) { char b[64]; if (std::isnan(d)) return "nan"; snprintf(b, 64, "%.17g", d); return b; }

inline std::string canon(const MV& v)
{
  switch (v.k) {
  case 'n': return "n";
  case 'i': case 'l': case 'b': return std::string(1, v.k) + std::to_string(v.i);
  case 'd': return "d" + dbl(v.d);
  case 's': case 'x': case 't': return std::string(1, v.k) + hex(v.s);
  case '{': { std::map<std::string, std::string> o; for (auto& p : v.m) o[p.first] = canon(p.second); std::string r = "{"; for (auto& p : o) r += hex(p.first) + "=" + p.second + ","; return r + "}"; }
  default: { std::string r = "["; for (auto& e : v.a) r += canon(e) + ","; return r + "]"; }
  }
}

inline std::string canon(const Value& v)
{
  if (v.is_nil()) return "n";
  if (v.is_int()) return "i" + std::to_string(v.get_int());
  if (v.is_int64()) return "l" + std::to_string(v.get_int64());
  if (v.is_bool()) return "b" + std::to_string(int(v.get_bool()));
  if (v.is_double()) return "d" + dbl(v.get_double());
  if (v.is_string()) return "s" + hex(v.get_string());
  if (v.is_binary()) return "x" + hex(v.get_binary().get_data());
  if (v.is_datetime()) return "t" + hex(v.get_datetime().to_string());
  if (v.is_struct()) {
    std::map<std::string, std::string> o;
    const Struct& s = v.the_struct();
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) o[i->first] = canon(*i->second);
    std::string r = "{";
    for (auto& p : o) r += hex(p.first) + "=" + p.second + ",";
    return r + "}";
  }
  if (v.is_array()) {
    std::string r = "[";
    const Array& a = v.the_array();
    for (Array::const_iterator i = a.begin(); i != a.end(); ++i) r += canon(*i) + ",";
    return r + "]";
  }
  return "?";
}

// canonical text back to a value
inline MV parse_mv(const char*& p)
{
  MV v;
  v.k = *p++;
  auto word = [&]() { std::string r; while (*p && !strchr(",=]}", *p)) r += *p++; return r; };
  switch (v.k) {
  case 'n': break;
  case 'i': case 'l': case 'b': v.i = strtoll(word().c_str(), 0, 10); break;
  case 'd': v.d = strtod(word().c_str(), 0); break;
  case '{': while (*p && *p != '}') { std::string n = unhex(word()); if (*p) p++; v.m.push_back({n, parse_mv(p)}); if (*p == ',') p++; } if (*p) p++; break;
  case '[': while (*p && *p != ']') { v.a.push_back(parse_mv(p)); if (*p == ',') p++; } if (*p) p++; break;
  default: v.s = unhex(word());
  }
  return v;
}
inline MV parse_mv(const std::string& s) { const char* p = s.c_str(); return parse_mv(p); }

inline Value make(const MV& v)
{
  switch (v.k) {
  case 'n': return Value(Nil());
  case 'i': return Value(int(v.i));
  case 'l': return Value(int64_t(v.i));
  case 'b': return Value(bool(v.i));
  case 'd': return Value(v.d);
  case 's': return Value(v.s);
  case 'x': { std::unique_ptr<Binary_data> b(Binary_data::from_data(v.s)); return Value(*b); }
  case 't': return Value(Date_time(v.s));
  case '{': { Struct s; for (auto& p : v.m) s.insert(p.first, make(p.second)); return Value(s); }
  default: { Array a; for (auto& e : v.a) a.push_back(make(e)); return Value(a); }
  }
}

inline std::string b64(const std::string& d)
{
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    unsigned v = 0, n = 0;
    for (size_t k = 0; k < 3; ++k) { v <<= 8; if (i + k < d.size()) { v |= (unsigned char)d[i + k]; ++n; } }
    for (unsigned k = 0; k < 4; ++k) r += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return r;
}

// ---- documents
struct Node {
  std::string tag, text;          // leaf: text; otherwise kids
  std::vector<Node> kids;
  Node(const std::string& t = "", const std::string& x = ""): tag(t), text(x) {}
  Node& add(const Node& n) { kids.push_back(n); return *this; }
};

inline Node value_node(const MV& v, bool bare = false, const char* inttag = "i4")
{
  Node r("value");
  switch (v.k) {
  case 'n': return r.add(Node("nil"));
  case 'i': return r.add(Node(inttag, std::to_string(v.i)));
  case 'l': return r.add(Node("i8", std::to_string(v.i)));
  case 'b': return r.add(Node("boolean", v.i ? "1" : "0"));
  case 'd': return r.add(Node("double", dbl(v.d)));
  case 's': if (bare) { r.text = v.s; return r; } return r.add(Node("string", v.s));
  case 'x': return r.add(Node("base64", b64(v.s)));
  case 't': return r.add(Node("dateTime.iso8601", v.s));
  case '{': { Node s("struct"); for (auto& p : v.m) s.add(Node("member").add(Node("name", p.first)).add(value_node(p.second, bare, inttag))); return r.add(s); }
  default: { Node d("data"); for (auto& e : v.a) d.add(value_node(e, bare, inttag)); return r.add(Node("array").add(d)); }
  }
}

inline std::string esc(const std::string& s)
{
  std::string r;
  for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '\r') r += "&#13;"; else r += c; }
  return r;
}

struct Style { std::string gap; bool selfclose = true, decl = true; std::string prefix, attr, comment; };

inline std::string write(const Node& n, const Style& s = Style())
{
  std::string t = s.prefix + n.tag;
  if (n.kids.empty() && n.text.empty() && s.selfclose) return "<" + t + s.attr + "/>";
  std::string r = "<" + t + s.attr + ">" + esc(n.text);
  std::string gap = n.text.empty() ? s.gap : "";
  for (auto& k : n.kids) r += gap + s.comment + write(k, s);
  return r + (n.kids.empty() ? "" : gap) + "</" + t + ">";
}
inline std::string document(const Node& n, const Style& s = Style()) { return (s.decl ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + write(n, s); }

// small reader of the documents the library writes: elements without attributes, text, character references
struct Bad { std::string why; };
inline std::string read_text(const char*& p, const char* e)
{
  std::string r;
  while (p < e && *p != '<') {
    if (*p != '&') { if (*p == '>' ) throw Bad{"unescaped >"}; r += *p++; continue; }
    const char* q = (const char*)memchr(p, ';', e - p);
    if (!q) throw Bad{"reference without end"};
    std::string n(p + 1, q);
    if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\'';
    else if (n.size() > 1 && n[0] == '#') {
      long c = n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10);
      if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
      else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
      else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    } else throw Bad{"unknown reference &" + n + ";"};
    p = q + 1;
  }
  return r;
}
inline Node read_node(const char*& p, const char* e)
{
  if (p >= e || *p != '<') throw Bad{"element expected"};
  const char* q = (const char*)memchr(p, '>', e - p);
  if (!q) throw Bad{"tag without end"};
  std::string t(p + 1, q);
  p = q + 1;
  bool empty = !t.empty() && t.back() == '/';
  if (empty) t.pop_back();
  if (t.empty() || t.find_first_of(" <&\"'/=") != t.npos) throw Bad{"unexpected tag <" + t + ">"};
  Node n(t);
  if (empty) return n;
  for (;;) {
    n.text += read_text(p, e);
    if (p + 1 >= e) throw Bad{"no end of <" + t + ">"};
    if (p[1] == '/') {
      std::string end = "</" + t + ">";
      if (size_t(e - p) < end.size() || std::string(p, end.size()) != end) throw Bad{"end of <" + t + "> expected"};
      p += end.size();
      return n;
    }
    n.kids.push_back(read_node(p, e));
  }
}
inline Node read_document(const std::string& s)
{
  const char *p = s.data(), *e = p + s.size();
  if (s.compare(0, 5, "<?xml") == 0) { size_t k = s.find("?>"); if (k == s.npos) throw Bad{"declaration without end"}; p += k + 2; }
  while (p < e && isspace((unsigned char)*p)) p++;
  Node n = read_node(p, e);
  while (p < e && isspace((unsigned char)*p)) p++;
  if (p != e) throw Bad{"text after the document"};
  return n;
}
inline std::string canon(const Node& n)
{
  std::string r = "<" + n.tag + ">" + n.text;
  for (auto& k : n.kids) r += canon(k);
  return r + "</>";
}

// ---- random values
inline std::string rand_text(Rng& g)
{
  static const char* P[] = {"", "a", "text", " ", "  ", "\n", "\t ", " x ", "<", ">", "&", "&amp;", "<b>", "</value>", "]]>", "\"", "'", "a\r\nb", "\r", "\n\n", "<![CDATA[x]]>", "&#65;",
    "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "1", "true", "-5", "20060102T03:04:05", "YWJj", "<!-- c -->", "<?pi?>", "nil", "faultCode", "faultString", "%s", "\x7f"};
  const size_t N = sizeof(P) / sizeof(*P);
  std::string s;
  switch (g.upto(6)) {
  case 0: case 1: return P[g.upto(N)];
  case 2: { auto& w = lit_words(); if (!w.empty()) { s = g.pick(w); break; } } // fallthrough
  case 3: for (int i = g.upto(4); i >= 0; i--) s += P[g.upto(N)]; break;
  case 4: for (int i = g.upto(12); i > 0; i--) s += char(32 + g.upto(95)); break;
  default: s = std::string(g.upto(40), 'a' + char(g.upto(26))) + P[g.upto(N)];
  }
  for (char& c : s) if ((unsigned char)c < 32 && c != '\t' && c != '\n' && c != '\r') c = '?'; else if ((unsigned char)c >= 0x80 && s.size() && g.upto(1) == 0) {}
  // keep it valid UTF-8
  std::string r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
    bool ok = n && i + n <= s.size();
    for (size_t j = 1; ok && j < n; j++) ok = ((unsigned char)s[i + j] & 0xc0) == 0x80;
    if (ok) { r += s.substr(i, n); i += n; } else { r += '?'; i++; }
  }
  return r;
}
inline long long rand_num(Rng& g, bool wide)
{
  static const long long P[] = {0, 1, -1, 2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, -2147483648LL};
  static const long long W[] = {2147483648LL, 4294967295LL, 4294967296LL, -2147483649LL, 9223372036854775807LL, (-9223372036854775807LL - 1)};
  auto& l = lit_nums();
  long long v;
  if (!l.empty() && g.upto(3) == 0) v = g.pick(l) + (long long)g.upto(3) - 1;
  else if (wide && g.upto(2) == 0) v = W[g.upto(6)];
  else if (g.upto(3)) v = P[g.upto(15)];
  else v = (long long)(g.upto(1u << 30)) * (g.upto(2) ? 1 : -1);
  return wide ? v : (long long)(int)v;
}
inline std::string rand_date(Rng& g)
{
  char b[64];
  snprintf(b, 64, "%04d%02d%02dT%02d:%02d:%02d", int(1900 + g.upto(200)), int(1 + g.upto(12)), int(1 + g.upto(28)), int(g.upto(24)), int(g.upto(60)), int(g.upto(60)));
  return b;
}
inline MV rand_mv(Rng& g, int depth)
{
  static const double D[] = {0, -0.0, 1, -1, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.125, 1.0 / 3, 100, 1e21, 1e-5};
  MV v;
  v.k = "nildbsxts{["[g.upto(depth > 0 ? 11 : 9)];
  switch (v.k) {
  case 'i': v.i = rand_num(g, false); break;
  case 'l': v.i = rand_num(g, true); break;
  case 'b': v.i = g.upto(2); break;
  case 'd': v.d = g.upto(3) ? D[g.upto(14)] : double(rand_num(g, true)) / double(1 + g.upto(1000)); break;
  case 's': v.s = rand_text(g); break;
  case 'x': v.s = g.bytes(g.upto(40)); break;
  case 't': v.s = rand_date(g); break;
  case '{': for (int n = g.upto(4); n > 0; n--) { std::string k = rand_text(g); bool dup = false; for (auto& p : v.m) if (p.first == k) dup = true; if (!dup) v.m.push_back({k, rand_mv(g, depth - 1)}); } break;
  case '[': for (int n = g.upto(5); n > 0; n--) v.a.push_back(rand_mv(g, depth - 1)); break;
  }
  return v;
}
// every kind, by itself
inline std::vector<MV> sample()
{
  std::vector<MV> r;
  auto num = [&](char k, long long i) { MV v; v.k = k; v.i = i; r.push_back(v); };
  auto str = [&](char k, const std::string& s) { MV v; v.k = k; v.s = s; r.push_back(v); };
  num('n', 0); num('i', 5); num('i', -2147483647LL - 1); num('i', 0); num('l', 1LL << 40); num('l', 7); num('b', 0); num('b', 1);
  { MV v; v.k = 'd'; v.d = 0.1; r.push_back(v); v.d = -1e300; r.push_back(v); v.d = 3; r.push_back(v); }
  for (const char* s : {"", "abc", "  ", "\n", " a ", "<&>", "1", "a\r\nb"}) str('s', s);
  str('x', ""); str('x', std::string("\0\xff\n", 3)); str('x', "ab"); str('t', "20060102T03:04:05");
  { MV v; v.k = '['; r.push_back(v); v.k = '{'; r.push_back(v); }
  return r;
}
// containers of two or three of them
inline std::vector<MV> pairs()
{
  std::vector<MV> s = sample(), r;
  for (auto& a : s) for (auto& b : s) {
    MV v; v.k = '['; v.a = {a, b}; r.push_back(v);
    MV w; w.k = '{'; w.m = {{"a", a}, {"b", b}}; r.push_back(w);
  }
  for (auto& a : s) {
    MV in; in.k = '['; in.a = {a}; MV st; st.k = '{'; st.m = {{"", a}};
    MV n; n.k = 'i'; n.i = 9;
    MV v; v.k = '['; v.a = {in, st, a, n}; r.push_back(v);
    MV w; w.k = '{'; w.m = {{"<x>", in}, {"", st}, {" ", a}, {"z", n}}; r.push_back(w);
  }
  // containers inside containers with something after them
  std::vector<MV> t;
  for (auto& a : s) if (a.k == 'n' || a.k == '[' || a.k == '{' || a.k == 'x' || (a.k == 's' && a.s.size() < 3) || (a.k == 'i' && a.i == 5)) t.push_back(a);
  MV n; n.k = 'i'; n.i = 9;
  for (auto& a : t) for (auto& b : t) {
    MV arr, st; arr.k = '['; arr.a = {a, b, a}; st.k = '{'; st.m = {{"m", a}, {"n", b}};
    MV v; v.k = '{'; v.m = {{"p", arr}, {"q", n}, {"r", st}, {"s", n}}; r.push_back(v);
    MV w; w.k = '['; w.a = {arr, st, arr, n}; r.push_back(w);
  }
  return r;
}
inline MV deep(const MV& in, int n)
{
  MV v = in;
  for (int i = 0; i < n; i++) {
    MV o, tail; tail.k = 'i'; tail.i = i;
    if (i % 2) { o.k = '{'; o.m = {{"in", v}, {"z", tail}}; } else { o.k = '['; o.a = {v, tail}; }
    v = o;
  }
  return v;
}
} // namespace xt
