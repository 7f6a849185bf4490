// Failing inputs for the properties of the specification language: texts are made at random, read by a parser written here
// and by the real one, and the results are compared.
#include "common.hpp"
#include "signal_tl/ast.hpp"
#include "signal_tl/parser.hpp"
#include <algorithm>
#include <cerrno>
#include <fstream>
#include <set>
using namespace signal_tl;

enum Kind { CONST, PRED, NOT, AND, OR, IMPLIES, IFF, XOR, ALWAYS, EVENTUALLY, UNTIL };
static const char* WORD[] = {"", "", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until"};
struct T;
using P = std::shared_ptr<T>;
struct T { Kind k; bool b = false; std::string name; ast::ComparisonOp op{}; double c = 0; std::vector<P> kids; };

// ---- the language: reads a text
struct Reject { std::string why; };
struct Reader {
  std::string s; size_t p = 0;
  std::map<std::string, P> formulas, assertions;
  int at(size_t i) const { return i < s.size() ? (unsigned char)s[i] : -1; }
  static bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  static bool first(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
  static bool digit(int c) { return c >= '0' && c <= '9'; }
  static bool other(int c) { return first(c) || digit(c); }
  [[noreturn]] void no(const std::string& w) { throw Reject{w + " at " + std::to_string(p)}; }
  void skip() {
    for (;;) {
      if (space(at(p))) p++;
      else if (at(p) == ';') { while (p < s.size() && at(p) != '\n') p++; if (p < s.size()) p++; }
      else return;
    }
  }
  bool sym(char c) { if (at(p) != c) return false; p++; skip(); return true; }
  bool word(const std::string& w) {
    if (s.compare(p, w.size(), w) != 0 || other(at(p + w.size()))) return false;
    p += w.size(); skip(); return true;
  }
  bool ident(std::string& n) {
    if (!first(at(p))) return false;
    size_t q = p; while (other(at(q))) q++;
    n = s.substr(p, q - p); p = q; skip(); return true;
  }
  bool numeral(double& v) {
    size_t q = p; while (digit(at(q))) q++;
    if (q == p) return false;
    size_t f = q; bool real = false;
    if (at(f) == '.' && digit(at(f + 1))) { f++; while (digit(at(f))) f++; real = true; }
    else if (at(f) == '.' && (at(f + 1) == 'e' || at(f + 1) == 'E')) f++;
    if (at(f) == 'e' || at(f) == 'E') {
      f++; if (at(f) == '+' || at(f) == '-') f++;
      if (!digit(at(f))) no("no digits in an exponent");
      while (digit(at(f))) f++;
      real = true;
    }
    if (!real) f = q;
    std::string t = s.substr(p, f - p);
    errno = 0;
    if (real) { v = strtod(t.c_str(), nullptr); } else { long l = strtol(t.c_str(), nullptr, 10); v = double(l); }
    if (errno == ERANGE) no("number out of range");
    p = f; skip(); return true;
  }
  P node(Kind k, std::vector<P> kids) { auto t = std::make_shared<T>(); t->k = k; t->kids = std::move(kids); return t; }
  P must() { P t = term(); if (!t) no("no term"); return t; }
  P term() {
    if (sym('(')) { P t = inside(); if (!sym(')')) no("no closing parenthesis"); return t; }
    for (bool b : {true, false}) if (word(b ? "true" : "false")) { P t = node(CONST, {}); t->b = b; return t; }
    std::string n;
    if (!ident(n)) return nullptr;
    auto it = formulas.find(n);
    if (it == formulas.end()) no("undefined name " + n);
    return it->second;
  }
  P inside() {
    using O = ast::ComparisonOp;
    int c = at(p), d = at(p + 1);
    if ((c == '<' || c == '>') && d != c) {
      bool lt = c == '<', eq = d == '=';
      p += eq ? 2 : 1; skip();
      P t = node(PRED, {});
      O plain = lt ? (eq ? O::LE : O::LT) : (eq ? O::GE : O::GT), turned = lt ? (eq ? O::GE : O::GT) : (eq ? O::LE : O::LT);
      if (ident(t->name)) { t->op = plain; if (!numeral(t->c)) no("no constant"); }
      else { t->op = turned; if (!numeral(t->c)) no("no constant"); if (!ident(t->name)) no("no name"); }
      return t;
    }
    for (int k = NOT; k <= UNTIL; k++) {
      if (!word(WORD[k])) continue;
      std::vector<P> v;
      if (k == AND || k == OR) { while (P t = term()) v.push_back(t); if (v.size() < 2) no("too few terms"); }
      else { int n = k == NOT || k == ALWAYS || k == EVENTUALLY ? 1 : 2; while (n--) v.push_back(must()); }
      return node(Kind(k), v);
    }
    return must();
  }
  void all() {
    skip();
    while (p < s.size()) {
      if (!sym('(')) no("no command");
      bool as = word("assert");
      if (!as && !word("define-formula")) no("no command");
      std::string n;
      if (!ident(n)) no("no name");
      P t = must();
      if (!(as ? assertions : formulas).insert({n, t}).second) no("second " + n);
      if (!sym(')')) no("no closing parenthesis of the command");
    }
  }
};

// ---- meaning of formulas
static Expr build(const P& t) {
  std::vector<Expr> v; for (auto& k : t->kids) v.push_back(build(k));
  switch (t->k) {
    case CONST: return Const(t->b);
    case PRED: return ast::Predicate{t->name, t->op, t->c};
    case NOT: return Not(v[0]);
    case AND: return And(v);
    case OR: return Or(v);
    case IMPLIES: return Implies(v[0], v[1]);
    case IFF: return Iff(v[0], v[1]);
    case XOR: return Xor(v[0], v[1]);
    case ALWAYS: return Always(v[0]);
    case EVENTUALLY: return Eventually(v[0]);
    default: return Until(v[0], v[1]);
  }
}
static std::vector<Expr> kids(const Expr& e, std::string& w) {
  auto iv = [](const ast::Interval& i) { auto d = i.as_double(); std::ostringstream o; o.precision(17); if (!(d.first == 0 && std::isinf(d.second))) o << "[" << d.first << "," << d.second << "]"; return o.str(); };
  if (auto p = std::get_if<ast::Const>(&e)) { w = p->value ? "true" : "false"; return {}; }
  if (auto p = std::get_if<ast::Predicate>(&e)) { std::ostringstream o; o.precision(17); const char* n[] = {">", ">=", "<", "<="}; o << "(" << n[int(p->op)] << " " << p->name << " " << p->rhs << ")"; w = o.str(); return {}; }
  if (auto p = std::get_if<ast::NotPtr>(&e)) { w = "not"; return {(*p)->arg}; }
  if (auto p = std::get_if<ast::AndPtr>(&e)) { w = "and"; return (*p)->args; }
  if (auto p = std::get_if<ast::OrPtr>(&e)) { w = "or"; return (*p)->args; }
  if (auto p = std::get_if<ast::AlwaysPtr>(&e)) { w = "always" + iv((*p)->interval); return {(*p)->arg}; }
  if (auto p = std::get_if<ast::EventuallyPtr>(&e)) { w = "eventually" + iv((*p)->interval); return {(*p)->arg}; }
  auto& u = std::get<ast::UntilPtr>(e); w = "until" + iv(u->interval); return {u->args.first, u->args.second};
}
static void show(const Expr& e, std::string& o, size_t max) {
  if (o.size() > max) return;
  std::string w; auto k = kids(e, w);
  if (k.empty()) { o += w; return; }
  o += "(" + w; for (auto& x : k) { o += " "; show(x, o, max); } o += ")";
}
static std::string text(const Expr& e, size_t max = 20000) { std::string o; show(e, o, max); return o; }
// meaning: a truth table over predicates and temporal formulas
using Atoms = std::vector<std::string>;
struct Table { Atoms atoms; std::vector<bool> bits; bool big = false; };
static const size_t MAX = 8;
static Table combine(const std::vector<Table>& ts, std::function<bool(const std::vector<bool>&)> f) {
  Table r; std::set<std::string> as;
  for (auto& t : ts) { if (t.big) { r.big = true; return r; } as.insert(t.atoms.begin(), t.atoms.end()); }
  r.atoms.assign(as.begin(), as.end());
  if (r.atoms.size() > MAX) { r.big = true; return r; }
  for (unsigned w = 0; w < 1u << r.atoms.size(); w++) {
    std::vector<bool> v;
    for (auto& t : ts) {
      unsigned i = 0;
      for (size_t a = 0; a < t.atoms.size(); a++) { size_t k = std::lower_bound(r.atoms.begin(), r.atoms.end(), t.atoms[a]) - r.atoms.begin(); if (w >> k & 1) i |= 1u << a; }
      v.push_back(t.bits[i]);
    }
    r.bits.push_back(f(v));
  }
  // atoms that do not matter
  for (size_t a = 0; a < r.atoms.size();) {
    bool m = false; for (unsigned w = 0; w < r.bits.size(); w++) if (r.bits[w] != r.bits[w ^ (1u << a)]) m = true;
    if (m) { a++; continue; }
    std::vector<bool> b; for (unsigned w = 0; w < r.bits.size(); w++) if (!(w >> a & 1)) b.push_back(r.bits[w]);
    r.bits = b; r.atoms.erase(r.atoms.begin() + a);
  }
  return r;
}
static std::string key(const Table& t) {
  std::string o = "{"; for (auto& a : t.atoms) o += a + " "; o += ":"; for (bool b : t.bits) o += b ? '1' : '0'; o += "}";
  if (o.size() > 300) o = "#" + std::to_string(std::hash<std::string>{}(o));
  return o;
}
static Table atom(const std::string& s) { return Table{{s}, {false, true}, false}; }
static Table temporal(const std::string& w, const std::vector<Table>& ts) {
  std::string o = w; for (auto& t : ts) { if (t.big) { Table r; r.big = true; return r; } o += key(t); } return atom(o);
}
static Table mean(const Expr& e) {
  std::string w; auto k = kids(e, w);
  if (w == "true" || w == "false") return Table{{}, {w == "true"}, false};
  if (k.empty()) return atom(w);
  std::vector<Table> ts; for (auto& x : k) ts.push_back(mean(x));
  if (w == "not") return combine(ts, [](auto& v) { return !v[0]; });
  if (w == "and") return combine(ts, [](auto& v) { for (bool b : v) if (!b) return false; return true; });
  if (w == "or") return combine(ts, [](auto& v) { for (bool b : v) if (b) return true; return false; });
  return temporal(w, ts);
}
static Table mean(const P& t) {
  std::vector<Table> ts; for (auto& x : t->kids) ts.push_back(mean(x));
  switch (t->k) {
    case CONST: return Table{{}, {t->b}, false};
    case PRED: { std::string w; kids(Expr(ast::Predicate{t->name, t->op, t->c}), w); return atom(w); }
    case NOT: return combine(ts, [](auto& v) { return !v[0]; });
    case AND: return combine(ts, [](auto& v) { for (bool b : v) if (!b) return false; return true; });
    case OR: return combine(ts, [](auto& v) { for (bool b : v) if (b) return true; return false; });
    case IMPLIES: return combine(ts, [](auto& v) { return !v[0] || v[1]; });
    case IFF: return combine(ts, [](auto& v) { return v[0] == v[1]; });
    case XOR: return combine(ts, [](auto& v) { return v[0] != v[1]; });
    default: return temporal(WORD[t->k], ts);
  }
}
static void compare(const std::string& n, const P& t, const Expr& e) {
  std::string want = text(build(t)), got = text(e);
  CHECK(want == got, n << " is " << got.substr(0, 900) << ", not " << want.substr(0, 900));
  Table a = mean(t), b = mean(e);
  if (!a.big && !b.big) CHECK(a.atoms == b.atoms && a.bits == b.bits, n << " is " << got.substr(0, 900) << ", which does not mean what is written");
}

// ---- texts
struct Writer {
  Rng& r; std::vector<std::string> toks; std::vector<std::string> defs; int weird, budget = 60;
  explicit Writer(Rng& g, int w) : r(g), weird(w) {}
  void t(const std::string& x) { toks.push_back(x); }
  std::string name() {
    static const char* n[] = {"x", "y", "z", "a", "b", "x1", "y_2", "_", "Speed", "phi", "truex", "nota", "e1", "E", "T9", "falsey", "assertion", "until_", "always1"};
    static const char* kw[] = {"true", "false", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until", "assert", "define"};
    if (r.p(1, 12)) return kw[r.in(0, 12)];
    return n[r.p(1, 2) ? r.in(0, 4) : r.in(0, 18)];
  }
  std::string number() {
    static const char* n[] = {"0", "1", "2", "10", "007", "0.5", "1.25", "3.0", "1e3", "2E2", "1.5e2", "1.5e-3", "4e+1", "1.e2", "12345678901", "9223372036854775807", "0.1", "100.001", "00.5", "1.0E+2", "9007199254740993", "5e-324", "1.7976931348623157e308", "1000000000000000000000.0", "9223372036854775806"};
    static const char* w[] = {"9223372036854775808", "18446744073709551617", "1e400", "1.5e", "2e+", "1.", "-1", ".5", "1e-400", "0x10", "99999999999999999999", "1.2.3", "1e5.0", "+2", "1_0"};
    if (weird && r.p(1, 14)) return w[r.in(0, 14)];
    if (r.p(1, 3)) return std::to_string(r.in(0, 3));
    return n[r.p(2, 3) ? r.in(0, 13) : r.in(0, 24)];
  }
  void term(int depth) {
    budget--;
    if (!defs.empty() && r.p(1, depth > 0 ? 6 : 3)) { t(defs[r.in(0, int(defs.size()) - 1)]); return; }
    if (weird && r.p(1, 40)) { t(name()); return; }
    if (r.p(1, 12)) { t(r.p(1, 2) ? "true" : "false"); return; }
    t("(");
    if (depth <= 0 || budget < 0 || r.p(1, 5)) {
      static const char* ops[] = {"<", ">", "<=", ">="};
      if (r.p(1, 20)) { term(0); }
      else {
        t(ops[r.in(0, 3)]);
        if (r.p(1, 2)) { t(name()); t(number()); } else { t(number()); t(name()); }
      }
    } else {
      int k = r.in(NOT, UNTIL + 1);
      if (k == UNTIL + 1) term(depth - 1);
      else {
        int n = k == AND || k == OR ? r.in(2, 4) : k == NOT || k == ALWAYS || k == EVENTUALLY ? 1 : 2;
        if (weird && r.p(1, 40)) n += r.p(1, 2) ? 1 : -1;
        t(WORD[k]); while (n-- > 0) term(depth - 1);
      }
    }
    t(")");
  }
  void command() {
    t("("); bool as = r.p(1, 2);
    t(as ? "assert" : "define-formula");
    std::string n = name(); if (!weird || !r.p(1, 10)) n += std::to_string(toks.size());
    else if (!defs.empty() && r.p(1, 2)) n = defs[r.in(0, int(defs.size()) - 1)];
    if (r.p(1, 5)) n = name();
    t(n); budget = 60; term(r.p(1, 6) ? r.in(4, 7) : r.in(0, 4)); t(")");
    if (!as) defs.push_back(n);
  }
  std::string gap(bool need) {
    std::string o;
    if (need || r.p(1, 3)) {
      do {
        int k = r.in(0, 11);
        if (k < 7) o += ' '; else if (k == 7) o += '\n'; else if (k == 8) o += '\t'; else if (k == 9) o += "\r\n";
        else if (k == 10) o += "; (comment) true 1 )\n"; else o += r.p(1, 2) ? ";\r\n" : "\v\f";
      } while (r.p(1, 4));
    }
    return o;
  }
  std::string text() {
    if (weird && r.p(1, 3)) { // an error in the words
      for (int n = r.in(1, 2); n && !toks.empty(); n--) {
        size_t i = r.in(0, int(toks.size()) - 1);
        int k = r.in(0, 3);
        if (k == 0) toks.erase(toks.begin() + i); else if (k == 1) toks.insert(toks.begin() + i, toks[r.in(0, int(toks.size()) - 1)]);
        else if (k == 2) std::swap(toks[i], toks[r.in(0, int(toks.size()) - 1)]); else toks[i] = r.p(1, 2) ? name() : number();
      }
    }
    std::string o = gap(false);
    for (size_t i = 0; i < toks.size(); i++) {
      if (i) {
        bool a = Reader::other((unsigned char)o.back()) || o.back() == '.', b = Reader::other((unsigned char)toks[i][0]);
        o += gap(a && b && !(weird && r.p(1, 30)));
      }
      o += toks[i];
    }
    o += gap(false);
    if (r.p(1, 10)) o += "; end";
    if (weird && !o.empty() && r.p(1, 6)) { // an error in the characters
      size_t i = r.in(0, int(o.size()) - 1); int k = r.in(0, 2);
      static const char cs[] = "()<>=;.e-_ 1x\n\r\0\x80\"";
      char c = cs[r.in(0, int(sizeof cs) - 2)];
      if (k == 0) o.erase(i, 1); else if (k == 1) o.insert(i, 1, c); else o[i] = c;
    }
    return o;
  }
};
static void run(Rng& r, const std::string& s, bool file) {
  log_() << "specification:\n" << s << "\n";
  Reader w; w.s = s; bool ok = true; std::string why;
  try { w.all(); } catch (const Reject& x) { ok = false; why = x.why; }
  std::unique_ptr<Specification> g; std::string err;
  if (file) {
    const char* d = getenv("TMPDIR");
    std::string f = std::string(d ? d : "/tmp") + "/spec" + std::to_string(getpid());
    { std::ofstream o(f, std::ios::binary); o << s; }
    try { g = parser::from_file(f); } catch (const std::exception& x) { err = x.what(); }
    remove(f.c_str());
  } else {
    try { g = parser::from_string(s); } catch (const std::exception& x) { err = x.what(); }
  }
  log_() << (ok ? "(valid)" : "(not valid: " + why + ")") << "\n";
  if (ok) CHECK(g, "rejected: " << err);
  else { CHECK(!g, "accepted, but: " << why); return; }
  auto same = [&](const char* what, const std::map<std::string, P>& a, const std::map<std::string, Expr>& b) {
    for (auto& x : a) { auto it = b.find(x.first); CHECK(it != b.end(), what << " " << x.first << " is lost"); compare(std::string(what) + " " + x.first, x.second, it->second); }
    for (auto& x : b) CHECK(a.count(x.first), what << " " << x.first << " is not written"); };
  same("formula", w.formulas, g->formulas);
  same("assertion", w.assertions, g->assertions);
}
static void go(Rng& r) {
  Writer w(r, r.p(1, 2));
  if (r.p(1, 150)) { // very deep
    int n = r.in(20, 120);
    w.t("("); w.t("assert"); w.t("x");
    std::vector<int> more;
    for (int i = 0; i < n; i++) { int k = r.in(NOT, UNTIL + 1); w.t("("); if (k <= UNTIL) w.t(WORD[k]); int m = k == UNTIL + 1 || k == NOT || k == ALWAYS || k == EVENTUALLY ? 0 : 1; if (m && (k == XOR || k == IFF)) { w.toks.back() = "implies"; } if (m && r.p(1, 2)) { w.t("true"); m = 0; } more.push_back(m); }
    w.t("false");
    for (int i = n - 1; i >= 0; i--) { if (more[i]) { w.t("("); w.t("<"); w.t("z"); w.t("2"); w.t(")"); } w.t(")"); }
    w.t(")");
    run(r, w.text(), false); return;
  }
  int n = r.in(0, 4); if (r.p(1, 10)) n = r.in(5, 12);
  while (n--) w.command();
  run(r, w.text(), r.p(1, 20));
}
int main(int argc, char** argv) { return harness({{"C18", go}, {"C19", go}, {"C20", go}}, argc, argv); }
