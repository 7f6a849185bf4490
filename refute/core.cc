// Failing inputs for the properties of signals, robustness and formulas.
#include "common.hpp"
#include "signal_tl/ast.hpp"
#include "signal_tl/exception.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/robustness.hpp"
#include "signal_tl/signal.hpp"
#include "robust_semantics/minmax.hpp"
#include <algorithm>
#include <set>
#include <iostream>

using namespace signal_tl;
using signal_tl::signal::Sample;
using signal_tl::signal::Signal;
using signal_tl::signal::SignalPtr;
using signal_tl::signal::Trace;
using signal_tl::semantics::compute_robustness;
using Vec = std::vector<Sample>;
static const double INF = std::numeric_limits<double>::infinity();

static std::string show(const Vec& v) {
  std::ostringstream o; o.precision(17); o << "[";
  for (auto& s : v) o << " (" << s.time << ", " << s.value << ")";
  o << " ]"; return o.str();
}
static Vec samples(const Signal& s) { Vec v; for (size_t i = 0; i < s.size(); i++) v.push_back(s.at_idx(i)); return v; }
static Vec samples(const SignalPtr& s) { CHECK(s != nullptr, "null signal"); return samples(*s); }
static std::string show(const SignalPtr& s) { return show(samples(s)); }
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool near(double a, double b) {
  if (a == b || a != a || b != b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= 1e-6 * std::max({1.0, std::fabs(a), std::fabs(b)});
}
static bool sameseq(const Vec& a, const Vec& b, bool der = true) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!same(a[i].time, b[i].time) || !same(a[i].value, b[i].value) || (der && !same(a[i].derivative, b[i].derivative))) return false;
  return true;
}
// the value of the linear interpolation of the samples at t, which is in their range
static double val(const Vec& v, double t) {
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].time == t) return v[i].value;
    if (i + 1 < v.size() && v[i].time < t && t < v[i + 1].time) {
      if (v[i].value == v[i + 1].value) return v[i].value;
      if (std::isinf(v[i].value) || std::isinf(v[i + 1].value)) return NAN;
      return v[i].value + (v[i + 1].value - v[i].value) * ((t - v[i].time) / (v[i + 1].time - v[i].time));
    }
  }
  return NAN;
}
static bool inrange(const Vec& v, double t) { return !v.empty() && v.front().time <= t && t <= v.back().time; }
// very close time stamps, for properties without intersections
static bool TINY = false;
static double gtime(Rng& r) { if (r.p(1, 24)) return std::ldexp(1.0, TINY ? -r.in(10, 34) : -r.in(3, 6)); static const double d[] = {0.25, 0.5, 0.5, 1, 1, 1, 2, 3}; return d[r.in(0, 7)]; }
static double gval(Rng& r, bool inf = false) {
  if (inf && r.p(1, 6)) return r.p(1, 2) ? INF : -INF;
  if (r.p(1, 8)) return r.in(-400, 400) / 8.0;
  return r.in(-3, 3);
}
static Vec gvec(Rng& r, int lo = 0, int hi = 6, bool inf = false) {
  Vec v; int n = r.in(lo, hi);
  double t = r.p(1, 2) ? 0.0 : r.in(-8, 12) * 0.5;
  for (int i = 0; i < n; i++) { v.push_back({t, gval(r, inf), 0.0}); t += gtime(r); }
  return v;
}
static SignalPtr mk(const Vec& v) { auto s = std::make_shared<Signal>(); for (auto& x : v) s->push_back(x.time, x.value); return s; }
// times to look at: samples, points between, outside
static std::vector<double> looks(const Vec& v) {
  std::vector<double> t;
  for (size_t i = 0; i < v.size(); i++) {
    t.push_back(v[i].time);
    if (i + 1 < v.size()) for (double f : {0.25, 0.5, 0.75, 0.9}) t.push_back(v[i].time + f * (v[i + 1].time - v[i].time));
  }
  return t;
}
static void ordered(const Vec& v) { for (size_t i = 1; i < v.size(); i++) CHECK(v[i - 1].time < v[i].time, "time stamps out of order: " << show(v)); }

// ------------------------------------------------------------------ C01
static void c01(Rng& r) {
  auto oddval = [&] { return r.p(1, 10) ? NAN : gval(r, true); };
  auto s = std::make_shared<Signal>(); Vec m;
  int start = r.in(0, 4);
  auto gs = [&](int n, bool bad) { Vec v; double t = r.in(-4, 4) * 0.5; for (int i = 0; i < n; i++) { v.push_back({t, oddval(), double(r.in(-1, 1))}); t += (bad && r.p(1, 3)) ? -0.5 * r.in(0, 3) : gtime(r); } return v; };
  auto isord = [](const Vec& v) { for (size_t i = 1; i < v.size(); i++) if (!(v[i - 1].time < v[i].time)) return false; return true; };
  if (start == 1) {
    Vec v = gs(r.in(0, 5), r.p(1, 2)); log_() << "Signal(vector) " << show(v) << "\n";
    bool thrown = false;
    try { s = std::make_shared<Signal>(v); } catch (const std::invalid_argument&) { thrown = true; }
    CHECK(thrown == !isord(v), "Signal(vector<Sample>) " << (thrown ? "rejects an ordered" : "accepts an unordered") << " sequence");
    if (!thrown) { m = v; CHECK(sameseq(samples(s), m, false), "Signal(vector<Sample>) has other samples: " << show(s)); }
  } else if (start == 2) {
    Vec v = gs(r.in(0, 5), r.p(1, 2)); std::vector<double> ts, vs; for (auto& x : v) { ts.push_back(x.time); vs.push_back(x.value); }
    int mis = r.p(1, 3) ? r.in(-1, 2) : 0;
    if (mis < 0 && !vs.empty()) vs.pop_back(); else if (mis > 0) vs.push_back(1); 
    if (mis == 2) ts.push_back(ts.empty() ? 0 : ts.back() + 1), ts.push_back(ts.back() + 1);
    log_() << "Signal(points, times) " << show(v) << ", " << vs.size() << " points, " << ts.size() << " times\n";
    bool thrown = false;
    try { s = std::make_shared<Signal>(vs, ts); } catch (const std::invalid_argument&) { thrown = true; }
    bool ok = vs.size() == ts.size(); for (size_t i = 1; ok && i < ts.size(); i++) ok = ts[i - 1] < ts[i];
    CHECK(thrown == !ok, "Signal(points, times) is " << (thrown ? "rejected" : "accepted"));
    if (!thrown) { for (size_t i = 0; i < ts.size(); i++) m.push_back({ts[i], vs[i], 0}); CHECK(sameseq(samples(s), m, false), "Signal(points, times) has other samples: " << show(s)); }
  }
  int n = r.in(0, 8);
  for (int i = 0; i < n; i++) {
    double t = m.empty() ? r.in(-4, 4) * 0.5 : r.p(1, 3) ? m.back().time - 0.5 * r.in(0, 4) : m.back().time + gtime(r);
    if (!m.empty() && r.p(1, 8)) t = m[r.in(0, int(m.size()) - 1)].time;
    if (r.p(1, 12)) t = r.p(1, 2) ? std::nextafter(t, 1e9) : std::nextafter(t, -1e9);
    double v = oddval(), d = r.in(-2, 2);
    log_() << "push_back " << t << ", " << v << "\n";
    Vec before = samples(s);
    bool thrown = false;
    try { if (r.p(1, 2)) s->push_back(Sample{t, v, d}); else s->push_back(t, v); } catch (const std::invalid_argument&) { thrown = true; }
    bool bad = !m.empty() && t <= m.back().time;
    CHECK(thrown == bad, "append is " << (thrown ? "rejected" : "accepted"));
    if (thrown) CHECK(sameseq(samples(s), before), "a rejected append changes the signal to " << show(s));
    else { m.push_back({t, v, 0}); CHECK(sameseq(samples(s), m, false), "after the append the signal is " << show(s)); }
    ordered(samples(s));
    if (r.p(1, 5)) { auto c = std::make_shared<Signal>(*s); CHECK(sameseq(samples(c), m, false), "copy differs: " << show(c)); s = c; log_() << "copy\n"; }
  }
}
// ------------------------------------------------------------------ C02
static void lines(const Vec& v) {
  for (size_t i = 0; i < v.size(); i++) {
    if (i + 1 == v.size()) { CHECK(v[i].derivative == 0.0, "slope after the last sample is " << v[i].derivative); break; }
    double a = v[i].value, b = v[i + 1].value;
    if (a == b) { CHECK(v[i].derivative == 0.0, "slope between equal values " << a << " at " << v[i].time << " is " << v[i].derivative); continue; }
    if (std::isinf(a) || std::isinf(b)) continue;
    for (double f : {0.0, 0.25, 0.5, 1.0}) {
      double t = v[i].time + f * (v[i + 1].time - v[i].time);
      CHECK(near(v[i].interpolate(t), a + f * (b - a)), "at " << t << " the line has value " << v[i].interpolate(t) << ", not " << a + f * (b - a));
    }
  }
}
static void c02(Rng& r) {
  Vec m = gvec(r, 0, 7, true);
  log_() << show(m) << "\n";
  SignalPtr s;
  int how = r.in(0, 3);
  Vec in = m; for (auto& x : in) x.derivative = r.in(-2, 2);
  if (how == 0) { s = std::make_shared<Signal>(); for (auto& x : in) s->push_back(x); }
  else if (how == 1) s = std::make_shared<Signal>(in);
  else if (how == 2) { std::vector<double> ts, vs; for (auto& x : m) { ts.push_back(x.time); vs.push_back(x.value); } s = std::make_shared<Signal>(vs, ts); }
  else { s = std::make_shared<Signal>(); for (auto& x : in) { s->push_back(x); if (r.p(1, 3)) { try { s->push_back(x.time - 0.5 * r.in(0, 2), 7.0); } catch (const std::invalid_argument&) {} } lines(samples(s)); } }
  CHECK(sameseq(samples(s), m, false), "samples are " << show(s));
  lines(samples(s));
  auto c = std::make_shared<Signal>(*s);
  lines(samples(c));
  CHECK(sameseq(samples(c), m, false), "copy is " << show(c));
  for (size_t i = 0; i < m.size(); i++) {
    double a = m[i].value, b = i + 1 < m.size() ? m[i + 1].value : a;
    if (std::isinf(a) || std::isinf(b)) continue;
    double d = i + 1 < m.size() ? (b - a) / (m[i + 1].time - m[i].time) : 0.0;
    for (double dt : {-1.5, 0.0, 0.25, 0.5, 2.0}) {
      double t = m[i].time + dt;
      CHECK(near(s->interpolate(t, i), a + d * dt), "interpolate(" << t << ", " << i << ") = " << s->interpolate(t, i));
    }
    Sample q{r.in(-4, 4) * 0.5, double(r.in(-5, 5)), r.in(-4, 4) * 0.5};
    if (q.derivative != d) {
      double t = s->time_intersect(q, i);
      double u = a + d * (t - m[i].time), w = q.value + q.derivative * (t - q.time);
      CHECK(near(u, w), "intersection of sample " << i << " with (" << q.time << ", " << q.value << ", slope " << q.derivative << ") at " << t << ": " << u << " and " << w);
      double t2 = s->at_idx(i).time_intersect(q);
      CHECK(near(t, t2), "time_intersect differs");
    }
  }
}
// ------------------------------------------------------------------ C03
static void c03(Rng& r) {
  Vec m = gvec(r, 0, 6);
  auto s = mk(m);
  log_() << show(m) << "\n";
  CHECK(s->size() == m.size() && s->empty() == m.empty(), "size " << s->size());
  CHECK(s->begin_time() == (m.empty() ? 0.0 : m.front().time) && s->end_time() == (m.empty() ? 0.0 : m.back().time), "begin or end time");
  if (!m.empty()) CHECK(s->front().time == m.front().time && s->back().time == m.back().time && s->front().value == m.front().value && s->back().value == m.back().value, "front or back");
  for (size_t i = 0; i < m.size() + 2; i++) {
    bool thrown = false; Sample x{};
    try { x = s->at_idx(i); } catch (const std::out_of_range&) { thrown = true; }
    CHECK(thrown == (i >= m.size()), "at_idx(" << i << ")");
    if (!thrown) CHECK(x.time == m[i].time && x.value == m[i].value, "at_idx(" << i << ")");
  }
  { size_t k = 0; for (auto i = s->begin(); i != s->end(); ++i, ++k) CHECK(k < m.size() && i->time == m[k].time && i->value == m[k].value, "iteration at " << k); CHECK(k == m.size(), "iteration"); }
  { size_t k = m.size(); for (auto i = s->rbegin(); i != s->rend(); ++i) { CHECK(k > 0, "reverse iteration"); --k; CHECK(i->time == m[k].time && i->value == m[k].value, "reverse iteration at " << k); } CHECK(k == 0, "reverse iteration"); }
  auto ts = looks(m);
  double a = m.empty() ? 0 : m.front().time, b = m.empty() ? 0 : m.back().time;
  for (double t : {a - 1, a - 0.25, b + 0.25, b + 5, 0.0, -0.0, std::nextafter(a, -1e9), std::nextafter(b, 1e9), INF, -INF}) ts.push_back(t);
  for (double t : ts) {
    bool thrown = false; Sample x{};
    try { x = s->at(t); } catch (const std::invalid_argument&) { thrown = true; }
    CHECK(thrown == !inrange(m, t), "at(" << t << ") " << (thrown ? "throws" : "does not throw"));
    if (!thrown) CHECK(x.time == t && near(x.value, val(m, t)), "at(" << t << ") = (" << x.time << ", " << x.value << "), not " << val(m, t));
    size_t lo = 0, hi = 0;
    while (lo < m.size() && m[lo].time < t) lo++;
    while (hi < m.size() && m[hi].time <= t) hi++;
    CHECK(size_t(s->begin_at(t) - s->begin()) == lo, "begin_at(" << t << ") is sample " << (s->begin_at(t) - s->begin()) << ", not " << lo);
    CHECK(size_t(s->end_at(t) - s->begin()) == hi, "end_at(" << t << ") is sample " << (s->end_at(t) - s->begin()) << ", not " << hi);
  }
}
// ------------------------------------------------------------------ C04
static Vec gvec2(Rng& r, const Vec& a, int lo, int hi, bool inf = false) {
  // often shares times with a, or touches its range at one point
  Vec v = gvec(r, lo, hi, inf);
  if (a.empty() || v.empty()) return v;
  // the same times, some a little later
  if (r.p(1, 12)) { v = a; for (auto& x : v) { x.value = gval(r, inf); if (r.p(1, 3)) x.time += std::ldexp(1.0, TINY ? -36 : -5); } for (size_t i = 1; i < v.size(); i++) if (!(v[i - 1].time < v[i].time)) return gvec(r, lo, hi, inf); return v; }
  if (r.p(1, 5)) { double d = a.back().time - v.front().time; for (auto& x : v) x.time += d; }
  else if (r.p(1, 4)) { double d = a.front().time - v.back().time; for (auto& x : v) x.time += d; }
  else if (r.p(1, 3)) { double d = a.front().time - v.front().time; for (auto& x : v) x.time += d; }
  return v;
}
static void c04(Rng& r) {
  Vec a = gvec(r, 0, 7), b = gvec2(r, a, 0, 7);
  if (r.p(1, 6)) { b = a; for (auto& x : b) x.value = gval(r); }
  log_() << "x = " << show(a) << "\ny = " << show(b) << "\n";
  auto sx = mk(a), sy = mk(b);
  if (r.p(1, 20)) { sy = sx; b = a; }
  auto [x, y] = signal_tl::signal::synchronize(sx, sy);
  Vec u = samples(x), v = samples(y);
  log_() << "-> " << show(u) << "\n   " << show(v) << "\n";
  std::set<double> ts;
  for (auto& s : a) if (inrange(b, s.time)) ts.insert(s.time);
  for (auto& s : b) if (inrange(a, s.time)) ts.insert(s.time);
  CHECK(u.size() == ts.size() && v.size() == ts.size(), "wrong number of samples");
  size_t k = 0;
  for (double t : ts) {
    CHECK(u[k].time == t && v[k].time == t, "sample " << k << " not at " << t);
    k++;
  }
  for (double t : looks(u)) {
    CHECK(near(val(u, t), val(a, t)), "first at " << t << ": " << val(u, t) << ", not " << val(a, t));
    CHECK(near(val(v, t), val(b, t)), "second at " << t << ": " << val(v, t) << ", not " << val(b, t));
  }
  lines(u); lines(v);
}
// ------------------------------------------------------------------ C05
static void c05(Rng& r) {
  Vec m = gvec(r, 0, 9);
  // stretches on one line
  for (size_t i = 2; i < m.size(); i++) if (r.p(1, 2)) m[i].value = m[i - 1].value + (m[i - 1].value - m[i - 2].value) * ((m[i].time - m[i - 1].time) / (m[i - 1].time - m[i - 2].time));
  log_() << show(m) << "\n";
  auto s = mk(m)->simplify();
  Vec v = samples(s);
  log_() << "-> " << show(v) << "\n";
  ordered(v);
  CHECK(v.empty() == m.empty(), "empty");
  for (auto& x : v) { bool f = false; for (auto& y : m) f |= same(x.time, y.time) && same(x.value, y.value); CHECK(f, "sample at " << x.time << " is not of the original"); }
  if (m.empty()) return;
  CHECK(v.front().time == m.front().time && v.back().time == m.back().time, "other range");
  for (double t : looks(m)) CHECK(near(val(v, t), val(m, t)), "at " << t << ": " << val(v, t) << ", not " << val(m, t));
  lines(v);
}
// ------------------------------------------------------------------ C06
static void checkresize(const Vec& m, const Vec& v, double b, double e, double fill) {
  CHECK(!v.empty() && v.front().time == b && v.back().time == e, "range of the result");
  ordered(v);
  std::vector<double> ts = looks(v); for (double t : looks(m)) ts.push_back(t);
  for (double t : ts) if (b <= t && t <= e && inrange(m, t)) CHECK(near(val(v, t), val(m, t)), "at " << t << ": " << val(v, t) << ", not " << val(m, t));
  if (!inrange(m, b)) CHECK(v.front().value == fill, "begin is not filled");
  if (!inrange(m, e)) CHECK(v.back().value == fill, "end is not filled");
  lines(v);
}
static void c06(Rng& r) {
  Vec m = gvec(r, 0, 7);
  auto pick = [&] { double t = m.empty() ? 0.0 : m[r.in(0, int(m.size()) - 1)].time; return r.p(1, 3) ? t : r.p(1, 2) ? t + r.in(-3, 3) * 0.25 : r.in(-16, 40) * 0.5; };
  double b = pick(), e = pick(), fill = r.in(-9, 9), dt = r.in(-6, 6) * 0.5;
  if (b > e) std::swap(b, e);
  if (b == e) e = b + gtime(r);
  log_() << show(m) << " begin " << b << " end " << e << " fill " << fill << " dt " << dt << "\n";
  auto s = mk(m);
  Vec v = samples(s->resize(b, e, fill));
  log_() << "resize -> " << show(v) << "\n";
  checkresize(m, v, b, e, fill);
  Vec h = samples(s->shift(dt));
  CHECK(h.size() == m.size(), "shift: " << show(h));
  for (size_t i = 0; i < m.size(); i++) CHECK(h[i].time == m[i].time + dt && h[i].value == m[i].value, "shift: " << show(h));
  lines(h);
  Vec w = samples(s->resize_shift(b, e, fill, dt));
  CHECK(w.size() == v.size(), "resize_shift: " << show(w));
  for (size_t i = 0; i < v.size(); i++) CHECK(w[i].time == v[i].time + dt && w[i].value == v[i].value, "resize_shift: " << show(w));
  lines(w);
}
// ------------------------------------------------------------------ formulas on traces
static ast::Predicate pred(const std::string& n, ast::ComparisonOp op, double c) { return ast::Predicate{n, op, c}; }
static Expr atom(const std::string& n) { return Expr(pred(n, ast::ComparisonOp::GE, 0.0)); }
static void logtrace(const Trace& t) { for (auto& [k, s] : t) log_() << k << " = " << show(s) << "\n"; }
static std::string text(const Expr& e) { return fmt::format("{}", e); }
static void c07(Rng& r) {
  Trace tr; std::map<std::string, Vec> m;
  std::vector<std::string> names{"a", "b", "c", "x1", "x"};
  for (auto& n : names) if (r.p(3, 5)) { m[n] = gvec(r, 0, 5, true); tr[n] = mk(m[n]); }
  logtrace(tr);
  auto n = names[r.in(0, 4)];
  auto op = ast::ComparisonOp(r.in(0, 3));
  double c = gval(r);
  auto p = pred(n, op, c);
  log_() << text(Expr(p)) << "\n";
  bool thrown = false; Vec v;
  try { v = samples(compute_robustness(Expr(p), tr)); } catch (const std::out_of_range&) { thrown = true; }
  CHECK(thrown == !m.count(n), "missing signal: " << (thrown ? "thrown" : "not thrown"));
  if (thrown) return;
  log_() << "-> " << show(v) << "\n";
  auto& x = m[n];
  CHECK(v.size() == x.size(), "number of samples");
  bool up = op == ast::ComparisonOp::GE || op == ast::ComparisonOp::GT;
  for (size_t i = 0; i < x.size(); i++) CHECK(v[i].time == x[i].time && same(v[i].value, up ? x[i].value - c : c - x[i].value), "sample " << i);
  lines(v);
}
// pointwise minimum or maximum of signals
static void checkopt(const std::vector<Vec>& ms, const Vec& v, bool mn, bool values = true) {
  ordered(v);
  double b = -INF, e = INF; bool empty = false;
  for (auto& m : ms) { if (m.empty()) { empty = true; break; } b = std::max(b, m.front().time); e = std::min(e, m.back().time); }
  if (empty || b > e) { CHECK(v.empty(), "the operands have no common range, the result is " << show(v)); return; }
  CHECK(!v.empty() && v.front().time == b && v.back().time == e, "the range of the result is not " << b << " to " << e);
  if (!values) return;
  std::set<double> ts;
  for (auto& m : ms) for (auto& s : m) ts.insert(s.time);
  for (auto& s : v) ts.insert(s.time);
  std::vector<double> l(ts.begin(), ts.end()), q = l;
  for (size_t i = 0; i + 1 < l.size(); i++) for (double f : {0.1, 0.3, 0.5, 0.7, 0.9}) q.push_back(l[i] + f * (l[i + 1] - l[i]));
  for (double t : q) if (b <= t && t <= e) {
    double w = mn ? INF : -INF; bool nan = false;
    for (auto& m : ms) { double x = val(m, t); nan |= x != x; w = mn ? std::min(w, x) : std::max(w, x); }
    if (nan) continue;
    CHECK(near(val(v, t), w), "at " << t << ": " << val(v, t) << ", not " << w);
  }
}
static void c08(Rng& r) {
  int n = r.in(2, 5);
  Trace tr; std::vector<Vec> ms; std::vector<Expr> as;
  for (int i = 0; i < n; i++) {
    ms.push_back(i ? gvec2(r, ms[r.in(0, i - 1)], r.p(1, 10) ? 0 : 1, 6) : gvec(r, r.p(1, 10) ? 0 : 1, 6));
    if (i && r.p(1, 5)) { ms[i] = ms[0]; for (auto& x : ms[i]) if (r.p(1, 2)) x.value = gval(r); }
    std::string nm(1, char('a' + i));
    tr[nm] = mk(ms[i]); as.push_back(atom(nm));
  }
  logtrace(tr);
  { Vec v = samples(compute_robustness(Not(as[0]), tr)); log_() << "not a -> " << show(v) << "\n";
    CHECK(v.size() == ms[0].size(), "not: number of samples");
    for (size_t i = 0; i < v.size(); i++) CHECK(v[i].time == ms[0][i].time && v[i].value == -ms[0][i].value, "not: sample " << i);
    lines(v); }
  bool mn = r.p(1, 2);
  Vec v = samples(compute_robustness(mn ? And(as) : Or(as), tr));
  log_() << (mn ? "and" : "or") << " of all -> " << show(v) << "\n";
  checkopt(ms, v, mn);
  lines(v);
}
static void c09(Rng& r) {
  Vec m = gvec(r, 0, 8, r.p(1, 4)); bool mn = r.p(1, 2);
  Trace tr{{"a", mk(m)}}; logtrace(tr);
  Vec v = samples(compute_robustness(mn ? Always(atom("a")) : Eventually(atom("a")), tr));
  log_() << (mn ? "always" : "eventually") << " -> " << show(v) << "\n";
  CHECK(v.size() == m.size(), "number of samples");
  for (size_t i = 0; i < m.size(); i++) {
    double w = m[i].value;
    for (size_t j = i; j < m.size(); j++) w = mn ? std::min(w, m[j].value) : std::max(w, m[j].value);
    CHECK(v[i].time == m[i].time && v[i].value == w, "at " << m[i].time << ": " << v[i].value << ", not " << w);
  }
  lines(v);
}
static double heldval(const Vec& m, double t) { return t >= m.back().time ? m.back().value : val(m, t); }
static double window(const Vec& m, double lo, double hi, bool mn) {
  double w = heldval(m, lo), z = heldval(m, hi);
  w = mn ? std::min(w, z) : std::max(w, z);
  for (auto& s : m) if (lo <= s.time && s.time <= hi) w = mn ? std::min(w, s.value) : std::max(w, s.value);
  return w;
}
static ast::Interval ginterval(Rng& r, double& a, double& b) {
  int k = r.in(0, 5);
  if (k == 0) { int i = r.in(0, 5), j = i + r.in(1, 8); a = i; b = j; return ast::Interval{(unsigned long long)i, (unsigned long long)j}; }
  if (k == 1) { a = r.in(0, 6) * 0.5; b = INF; return ast::Interval{a, b}; }
  if (k == 2) {
    unsigned long long i = 0, j = r.in(1, 40);
    if (r.p(1, 3)) { j = (1ull << r.in(5, 52)) + r.in(0, 3); if (r.p(1, 4)) i = j - 1; }
    a = i; b = j; return ast::Interval{i, j};
  }
  a = r.in(0, 12) * 0.25; b = a + r.in(1, 16) * 0.25; if (r.p(1, 4)) a = 0;
  return ast::Interval{a, b};
}
static void c10(Rng& r) {
  Vec m = gvec(r, r.p(1, 20) ? 0 : 1, 8); bool mn = r.p(1, 2);
  double a, b; auto iv = ginterval(r, a, b);
  Trace tr{{"a", mk(m)}}; logtrace(tr);
  log_() << (mn ? "always [" : "eventually [") << a << ", " << b << "]\n";
  auto d = iv.as_double();
  CHECK(d.first == a && d.second == b, "as_double gives " << d.first << ", " << d.second);
  bool zi = a == 0 && std::isinf(b);
  CHECK(iv.is_zero_to_inf() == zi && iv.has_value() == !zi, "has_value of the interval");
  Vec v = samples(compute_robustness(mn ? Always(atom("a"), iv) : Eventually(atom("a"), iv), tr));
  log_() << "-> " << show(v) << "\n";
  CHECK(v.size() == m.size(), "number of samples");
  for (size_t i = 0; i < m.size(); i++) {
    double w = window(m, m[i].time + a, m[i].time + b, mn);
    CHECK(v[i].time == m[i].time && near(v[i].value, w), "at " << m[i].time << ": " << v[i].value << ", not " << w);
  }
  lines(v);
}
static void c11(Rng& r) {
  Vec a = gvec(r, r.p(1, 10) ? 0 : 1, 7, r.p(1, 5)), b = gvec2(r, a, r.p(1, 10) ? 0 : 1, 7);
  if (r.p(1, 3)) { b = a; for (auto& x : b) x.value = gval(r); }
  for (auto* p : {&a, &b}) for (auto& x : *p) if (std::isinf(x.value)) { a = b; break; }
  Trace tr{{"a", mk(a)}, {"b", mk(b)}}; logtrace(tr);
  bool thrown = false;
  double lo, hi; auto iv = ginterval(r, lo, hi);
  bool bounded = !(lo == 0 && std::isinf(hi));
  try { (void)compute_robustness(Until(atom("a"), atom("b"), iv), tr); } catch (const not_implemented_error&) { thrown = true; }
  CHECK(thrown == bounded, "until [" << lo << ", " << hi << "] is " << (thrown ? "refused" : "evaluated"));
  Vec v = samples(compute_robustness(Until(atom("a"), atom("b")), tr));
  log_() << "until -> " << show(v) << "\n";
  std::set<double> ts;
  for (auto& s : a) if (inrange(b, s.time)) ts.insert(s.time);
  for (auto& s : b) if (inrange(a, s.time)) ts.insert(s.time);
  std::vector<double> l(ts.begin(), ts.end());
  CHECK(v.size() == l.size(), "number of samples");
  for (size_t i = 0; i < l.size(); i++) {
    double best = -INF, x = INF;
    for (size_t j = i; j < l.size(); j++) { best = std::max(best, std::min(val(b, l[j]), x)); x = std::min(x, val(a, l[j])); }
    CHECK(v[i].time == l[i] && near(v[i].value, best), "at " << l[i] << ": " << v[i].value << ", not " << best);
  }
  lines(v);
}
// ------------------------------------------------------------------ C12, C13: any formula
static Expr gform(Rng& r, int depth, bool consts, bool bounded) {
  int k = depth <= 0 ? 0 : r.in(0, 8);
  auto sub = [&] { return gform(r, depth - 1, consts, bounded); };
  double a, b;
  switch (k) {
    case 0: case 1:
      if (consts && r.p(1, 6)) return Expr(Const(r.p(1, 2)));
      return Expr(pred(std::string(1, char('a' + r.in(0, 2))), ast::ComparisonOp(r.in(0, 3)), gval(r)));
    case 2: return Expr(std::make_shared<ast::Not>(sub()));
    case 3: { std::vector<Expr> as; for (int n = r.in(2, 4); n; n--) as.push_back(sub()); return And(as); }
    case 4: { std::vector<Expr> as; for (int n = r.in(2, 4); n; n--) as.push_back(sub()); return Or(as); }
    case 5: if (bounded && r.p(1, 2)) { auto x = sub(); return Always(x, ginterval(r, a, b)); } return Always(sub());
    case 6: if (bounded && r.p(1, 2)) { auto x = sub(); return Eventually(x, ginterval(r, a, b)); } return Eventually(sub());
    default: { auto x = sub(); auto y = sub(); return Until(x, y); }
  }
}
static void reach(const Expr& e, std::vector<Expr>& kids, std::function<Expr(std::vector<Expr>)>& again) {
  if (auto p = std::get_if<ast::NotPtr>(&e)) { kids = {(*p)->arg}; again = [](auto v) { return Expr(std::make_shared<ast::Not>(v[0])); }; }
  if (auto p = std::get_if<ast::AndPtr>(&e)) { kids = (*p)->args; again = [](auto v) { return And(v); }; }
  if (auto p = std::get_if<ast::OrPtr>(&e)) { kids = (*p)->args; again = [](auto v) { return Or(v); }; }
  if (auto p = std::get_if<ast::AlwaysPtr>(&e)) { kids = {(*p)->arg}; auto i = (*p)->interval; again = [i](auto v) { return Always(v[0], i); }; }
  if (auto p = std::get_if<ast::EventuallyPtr>(&e)) { kids = {(*p)->arg}; auto i = (*p)->interval; again = [i](auto v) { return Eventually(v[0], i); }; }
  if (auto p = std::get_if<ast::UntilPtr>(&e)) { kids = {(*p)->args.first, (*p)->args.second}; auto i = (*p)->interval; again = [i](auto v) { return Until(v[0], v[1], i); }; }
}
static Trace gtrace(Rng& r, int lo) {
  Trace tr; Vec first = gvec(r, lo, 6);
  for (int i = 0; i < 3; i++) {
    Vec m = r.p(2, 3) ? gvec2(r, first, lo, 6) : first;
    if (r.p(1, 2)) { m = first; for (auto& x : m) x.value = gval(r); }
    tr[std::string(1, char('a' + i))] = mk(m);
  }
  return tr;
}
static void c12(Rng& r) {
  Trace tr = gtrace(r, 1);
  if (r.p(1, 8)) tr.erase("b");
  if (r.p(1, 8)) tr.erase("c");
  logtrace(tr);
  double mn = INF, mx = -INF;
  for (auto& [k, s] : tr) { mn = std::min(mn, s->begin_time()); mx = std::max(mx, s->end_time()); }
  if (r.p(1, 6)) {
    bool c = r.p(1, 2); log_() << "const " << c << "\n";
    Vec v = samples(compute_robustness(Expr(Const(c)), tr));
    CHECK(!v.empty() && v.front().time == mn && v.back().time == mx, "constant: range");
    for (auto& s : v) CHECK(s.value == (c ? INF : -INF), "constant: value");
    lines(v); return;
  }
  Expr e = gform(r, r.in(1, 4), true, true);
  log_() << text(e) << "\n";
  std::function<bool(const Expr&)> miss = [&](const Expr& x) {
    if (auto p = std::get_if<ast::Predicate>(&x)) return !tr.count(p->name);
    std::vector<Expr> ks; std::function<Expr(std::vector<Expr>)> ag; reach(x, ks, ag);
    for (auto& k : ks) if (miss(k)) return true;
    return false; };
  bool thrown = false; SignalPtr s;
  try { s = compute_robustness(e, tr); } catch (const std::out_of_range&) { thrown = true; }
  CHECK(thrown == miss(e), thrown ? "fails although all signals are there" : "does not fail although a signal is missing");
  if (thrown) return;
  std::vector<Expr> ks; std::function<Expr(std::vector<Expr>)> ag; reach(e, ks, ag);
  if (ks.empty()) return;
  Trace t2; std::vector<Expr> as;
  for (size_t i = 0; i < ks.size(); i++) { std::string n = "p" + std::to_string(i); t2[n] = compute_robustness(ks[i], tr); as.push_back(atom(n)); log_() << "operand " << i << ": " << show(t2[n]) << "\n"; }
  Vec u = samples(s), v = samples(compute_robustness(ag(as), t2));
  log_() << "whole: " << show(u) << "\nfrom operands: " << show(v) << "\n";
  ordered(u);
  CHECK(u.empty() == v.empty(), "empty");
  if (u.empty()) return;
  CHECK(u.front().time == v.front().time && u.back().time == v.back().time, "range");
  bool any = false;
  for (auto* q : {&u, &v}) for (auto& x : *q) any |= std::isinf(x.value) || x.value != x.value;
  for (auto* q : {&u, &v}) for (auto& x : *q) if (!any || sameseq(u, v, false)) CHECK(near(val(u, x.time), val(v, x.time)), "at " << x.time);
  if (any) { CHECK(u.size() == v.size(), "number of samples"); for (size_t i = 0; i < u.size(); i++) CHECK(u[i].time == v[i].time && near(u[i].value, v[i].value), "sample " << i); }
  // the operator itself, against its meaning, on finite operands
  std::vector<Vec> ms; bool fin = true;
  for (size_t i = 0; i < ks.size(); i++) { ms.push_back(samples(t2["p" + std::to_string(i)])); for (auto& x : ms.back()) fin &= !std::isinf(x.value) && x.value == x.value; }
  if (std::get_if<ast::AndPtr>(&e)) checkopt(ms, u, true, fin);
  if (std::get_if<ast::OrPtr>(&e)) checkopt(ms, u, false, fin);
  if (std::get_if<ast::NotPtr>(&e)) for (size_t i = 0; i < u.size(); i++) CHECK(u[i].time == ms[0][i].time && same(u[i].value, -ms[0][i].value), "not");
  const ast::Interval* iv = nullptr; bool mnop = false;
  if (auto p = std::get_if<ast::AlwaysPtr>(&e)) { iv = &(*p)->interval; mnop = true; }
  if (auto p = std::get_if<ast::EventuallyPtr>(&e)) iv = &(*p)->interval;
  if (iv && fin) {
    auto [a, b] = iv->as_double();
    CHECK(u.size() == ms[0].size(), "number of samples");
    for (size_t i = 0; i < u.size(); i++) CHECK(near(u[i].value, window(ms[0], u[i].time + a, u[i].time + b, mnop)), "at " << u[i].time << " in the window");
  }
}
static double wild(Rng& r) {
  switch (r.in(0, 5)) {
    case 0: return r.real();
    case 1: return (r.real() - 0.5) * 1e-9 + r.in(-2, 2);
    case 2: return std::nextafter(double(r.in(-2, 2)), r.p(1, 2) ? 9 : -9);
    case 3: return (r.real() - 0.5) * std::pow(10.0, r.in(-12, 12));
    case 4: return r.in(-2, 2) * 0.1;
    default: return r.in(-3, 3);
  }
}
static void c13(Rng& r) {
  Trace tr;
  std::vector<double> shared;
  for (int i = 0; i < 3; i++) {
    Vec v; int n = r.in(1, 8);
    double t = r.p(1, 2) ? 0.0 : wild(r);
    bool share = i && r.p(1, 2);
    for (int k = 0; k < n; k++) {
      v.push_back({t, wild(r), 0.0});
      double u = share && !shared.empty() ? shared[size_t(r.in(0, int(shared.size()) - 1))] : t + std::fabs(wild(r));
      if (r.p(1, 3)) u = std::nextafter(t, INF);
      if (!(u > t)) u = std::nextafter(t, INF);
      if (r.p(1, 8)) u = t + 0.1;
      if (!(u > t) || std::isinf(u)) break;
      shared.push_back(u); t = u;
    }
    if (r.p(1, 3) && v.size() > 1) for (size_t k = 1; k < v.size(); k++) if (r.p(1, 2)) v[k].value = v[k - 1].value;
    tr[std::string(1, char('a' + i))] = mk(v);
  }
  logtrace(tr);
  Expr e = gform(r, r.in(1, 3), true, true);
  log_() << text(e) << "\n";
  Vec u = samples(compute_robustness(e, tr));
  log_() << "-> " << show(u) << "\n";
  ordered(u);
  std::vector<Expr> ks; std::function<Expr(std::vector<Expr>)> ag; reach(e, ks, ag);
  std::vector<Vec> ms; for (auto& k : ks) ms.push_back(samples(compute_robustness(k, tr)));
  auto timesof = [&](const Vec& m) { CHECK(u.size() == m.size(), "number of samples"); for (size_t i = 0; i < m.size(); i++) CHECK(u[i].time == m[i].time, "time stamp " << i << " is " << u[i].time << ", not " << m[i].time); };
  if (auto p = std::get_if<ast::Predicate>(&e)) timesof(samples(tr[p->name]));
  if (std::get_if<ast::NotPtr>(&e) || std::get_if<ast::AlwaysPtr>(&e) || std::get_if<ast::EventuallyPtr>(&e)) timesof(ms[0]);
  auto has = [](const Vec& v, double t) { for (auto& s : v) if (s.time == t) return true; return false; };
  if (std::get_if<ast::UntilPtr>(&e) || std::get_if<ast::AndPtr>(&e) || std::get_if<ast::OrPtr>(&e)) {
    bool all = true; std::set<double> ts;
    for (auto& m : ms) for (auto& s : m) { bool in = true; for (auto& q : ms) in &= inrange(q, s.time); if (in) ts.insert(s.time); }
    for (double t : ts) CHECK(has(u, t), "the time stamp " << t << " of an operand is not in the result");
    if (std::get_if<ast::UntilPtr>(&e)) CHECK(u.size() == ts.size(), "number of samples");
    for (auto& s : u) for (auto& m : ms) CHECK(inrange(m, s.time), "time stamp " << s.time << " outside of an operand");
  }
  auto [x, y] = signal_tl::signal::synchronize(tr["a"], tr["b"]);
  Vec sx = samples(x), sy = samples(y), A = samples(tr["a"]), B = samples(tr["b"]);
  ordered(sx);
  CHECK(sx.size() == sy.size(), "synchronize: sizes");
  for (size_t i = 0; i < sx.size(); i++) CHECK(sx[i].time == sy[i].time && (has(A, sx[i].time) || has(B, sx[i].time)), "synchronize: time stamp " << sx[i].time << " is of neither signal");
}
// ------------------------------------------------------------------ C14: anything, under sanitizers
static void c14(Rng& r) {
  Trace tr;
  for (int i = 0; i < 3; i++) tr[std::string(1, char('a' + i))] = mk(gvec(r, 0, 4));
  if (r.p(1, 8)) tr.erase("a");
  if (r.p(1, 20)) tr.clear();
  logtrace(tr);
  auto any = [&](auto f) { try { f(); } catch (const std::exception&) {} };
  for (auto& [k, s] : tr) {
    double t = r.in(-10, 20) * 0.5, u = r.in(-10, 20) * 0.5;
    if (r.p(1, 10)) t = r.p(1, 2) ? INF : -INF;
    log_() << "operations at " << t << ", " << u << "\n";
    any([&] { (void)s->at(t); });
    any([&] { (void)s->interpolate(t, size_t(r.in(0, 5))); });
    any([&] { (void)s->at_idx(size_t(r.in(0, 5))); });
    any([&] { size_t n = 0; auto e = s->end_at(std::max(t, u)); for (auto i = s->begin_at(std::min(t, u)); i != e; ++i) { n += i->value > 0; CHECK(n < 1000, "iteration does not end"); } });
    any([&] { (void)s->simplify(); });
    any([&] { (void)s->resize(t, u, 1.0); });
    any([&] { (void)s->shift(u); });
    any([&] { (void)s->resize_shift(t, u, 1.0, 2.0); });
    any([&] { (void)fmt::format("{}", *s); });
    for (auto& [l, q] : tr) any([&] { auto [x, y] = signal_tl::signal::synchronize(s, q); CHECK(x && y, "null"); (void)minmax::compute_elementwise_min(s, q); (void)minmax::compute_elementwise_max(s, q); });
    any([&] { (void)minmax::compute_max_seq(s, std::fabs(t), std::fabs(t) + 1); (void)minmax::compute_min_seq(s); });
  }
  any([&] { std::vector<SignalPtr> v; for (int n = r.in(0, 4); n; n--) for (auto& [k, s] : tr) v.push_back(s); (void)minmax::compute_elementwise_max(v); });
  Expr e = gform(r, r.in(0, 3), !tr.empty(), true);
  log_() << text(e) << "\n";
  any([&] { (void)compute_robustness(e, tr); });
  Expr f = gform(r, 2, true, true), g;
  any([&] { g = e & f; g = g | e; g = ~g; g = Xor(g, f); g = Iff(e, g); g = Implies(f, e); g = g & g; (void)text(g); });
}
// ------------------------------------------------------------------ C15, C16
static Expr gbool(Rng& r, int depth, std::vector<Expr>& pool) {
  int k = depth <= 0 ? r.in(0, 2) : r.in(0, 7);
  switch (k) {
    case 0: return Expr(Const(r.p(1, 2)));
    case 1: case 2: { Expr e = pool[r.in(0, int(pool.size()) - 1)]; return e; }
    case 3: return Expr(std::make_shared<ast::Not>(gbool(r, depth - 1, pool)));
    case 4: case 5: { std::vector<Expr> as; for (int n = r.in(2, 3); n; n--) as.push_back(gbool(r, depth - 1, pool)); return Expr(std::make_shared<ast::And>(as)); }
    default: { std::vector<Expr> as; for (int n = r.in(2, 3); n; n--) as.push_back(gbool(r, depth - 1, pool)); return Expr(std::make_shared<ast::Or>(as)); }
  }
}
static bool sem(const Expr& e, unsigned w) {
  if (auto p = std::get_if<ast::Const>(&e)) return p->value;
  if (auto p = std::get_if<ast::Predicate>(&e)) return (w >> ((std::hash<std::string>{}(fmt::format("{}{}{}", p->name, int(p->op), p->rhs))) % 6)) & 1;
  if (auto p = std::get_if<ast::NotPtr>(&e)) return !sem((*p)->arg, w);
  if (auto p = std::get_if<ast::AndPtr>(&e)) { for (auto& a : (*p)->args) if (!sem(a, w)) return false; return true; }
  if (auto p = std::get_if<ast::OrPtr>(&e)) { for (auto& a : (*p)->args) if (sem(a, w)) return true; return false; }
  return (w >> (std::hash<std::string>{}(text(e)) % 6)) & 1;
}
static void c15(Rng& r) {
  std::vector<Expr> pool{atom("a"), atom("b"), atom("c"), Always(atom("a")), Until(atom("a"), atom("b")), Eventually(atom("d"), ast::Interval{1.0, 2.0})};
  Expr x = gbool(r, r.in(0, 3), pool), y = gbool(r, r.in(0, 3), pool), z = gbool(r, r.in(0, 2), pool);
  if (r.p(1, 8)) y = x;
  if (r.p(1, 10)) y = ~x;
  std::string tx = text(x), ty = text(y), tz = text(z);
  log_() << "x = " << tx << "\ny = " << ty << "\nz = " << tz << "\n";
  std::vector<std::pair<std::string, Expr>> rs{{"~x", ~x}, {"Not(x)", Not(x)}, {"x & y", x & y}, {"x | y", x | y}, {"And({x,y,z})", And({x, y, z})}, {"Or({x,y,z})", Or({x, y, z})},
    {"Implies(x,y)", Implies(x, y)}, {"Xor(x,y)", Xor(x, y)}, {"Iff(x,y)", Iff(x, y)}, {"And({x,y})", And({x, y})}, {"Or({x,y})", Or({x, y})}};
  CHECK(text(x) == tx && text(y) == ty && text(z) == tz, "an operand has been changed");
  for (unsigned w = 0; w < 64; w++) {
    bool a = sem(x, w), b = sem(y, w), c = sem(z, w);
    bool want[] = {!a, !a, a && b, a || b, a && b && c, a || b || c, !a || b, a != b, a == b, a && b, a || b};
    for (size_t i = 0; i < rs.size(); i++)
      CHECK(sem(rs[i].second, w) == want[i], rs[i].first << " = " << text(rs[i].second) << " has another meaning (x is " << a << ", y is " << b << ", z is " << c << ")");
  }
}
static bool sameexpr(const Expr& a, const Expr& b) {
  if (a.index() != b.index()) return false;
  if (auto p = std::get_if<ast::Const>(&a)) return p->value == std::get<ast::Const>(b).value;
  if (auto p = std::get_if<ast::Predicate>(&a)) { auto& q = std::get<ast::Predicate>(b); return p->name == q.name && p->op == q.op && same(p->rhs, q.rhs); }
  std::vector<Expr> k, l; std::function<Expr(std::vector<Expr>)> g; reach(a, k, g); reach(b, l, g);
  if (k.size() != l.size()) return false;
  for (size_t i = 0; i < k.size(); i++) if (!sameexpr(k[i], l[i])) return false;
  auto iv = [](const Expr& e) { ast::Interval i; if (auto p = std::get_if<ast::AlwaysPtr>(&e)) i = (*p)->interval; if (auto p = std::get_if<ast::EventuallyPtr>(&e)) i = (*p)->interval; if (auto p = std::get_if<ast::UntilPtr>(&e)) i = (*p)->interval; return i.as_double(); };
  return iv(a) == iv(b);
}
static void c16(Rng& r) {
  std::vector<Expr> as; for (int n = r.in(0, 4); n; n--) as.push_back(gform(r, 1, true, true));
  log_() << as.size() << " operands:"; for (auto& a : as) log_() << " " << text(a); log_() << "\n";
  auto builds = [&](auto f) { bool t = false; try { Expr e = f(); const std::vector<Expr>* v = nullptr;
      if (auto p = std::get_if<ast::AndPtr>(&e)) v = &(*p)->args; if (auto p = std::get_if<ast::OrPtr>(&e)) v = &(*p)->args;
      CHECK(v && v->size() == as.size(), "other operands: " << text(e)); for (size_t i = 0; i < as.size(); i++) CHECK(sameexpr((*v)[i], as[i]), "other operands: " << text(e)); }
    catch (const std::invalid_argument&) { t = true; } return !t; };
  CHECK(builds([&] { Expr e = And(as); CHECK(std::get_if<ast::AndPtr>(&e), "And is not a conjunction"); return e; }) == (as.size() >= 2), "And of " << as.size() << " operands");
  CHECK(builds([&] { Expr e = Or(as); CHECK(std::get_if<ast::OrPtr>(&e), "Or is not a disjunction"); return e; }) == (as.size() >= 2), "Or of " << as.size() << " operands");
  CHECK(builds([&] { return Expr(std::make_shared<ast::And>(as)); }) == (as.size() >= 2), "ast::And of " << as.size() << " operands");
  CHECK(builds([&] { return Expr(std::make_shared<ast::Or>(as)); }) == (as.size() >= 2), "ast::Or of " << as.size() << " operands");
  double bounds[] = {-INF, -1, -0.5, -0.0, 0.0, 5e-324, 0.5, 1, 1.5, 2, 3, 1e300, INF, NAN};
  double a = bounds[r.in(0, 13)], b = bounds[r.in(0, 13)];
  unsigned long long ia = r.in(0, 3), ib = r.in(0, 3); if (r.p(1, 8)) ib = ~0ull; if (r.p(1, 8)) ia = ~0ull - 1;
  auto interval = [&](auto f, bool ok, double x, double y) {
    bool t = false;
    try { ast::Interval i = f(); auto d = i.as_double(); CHECK(d.first == x && d.second == y, "interval holds " << d.first << ", " << d.second);
      CHECK(i.is_zero_to_inf() == (x == 0 && std::isinf(y)) && i.has_value() == !i.is_zero_to_inf(), "is_zero_to_inf");
      Expr e = gform(r, 1, true, true), g = gform(r, 1, true, true);
      Expr q = Always(e, i); CHECK(std::get_if<ast::AlwaysPtr>(&q) && sameexpr(std::get<ast::AlwaysPtr>(q)->arg, e) && std::get<ast::AlwaysPtr>(q)->interval.as_double() == d, "Always holds " << text(q));
      q = Eventually(e, i); CHECK(std::get_if<ast::EventuallyPtr>(&q) && sameexpr(std::get<ast::EventuallyPtr>(q)->arg, e) && std::get<ast::EventuallyPtr>(q)->interval.as_double() == d, "Eventually holds " << text(q));
      q = Until(e, g, i); CHECK(std::get_if<ast::UntilPtr>(&q) && sameexpr(std::get<ast::UntilPtr>(q)->args.first, e) && sameexpr(std::get<ast::UntilPtr>(q)->args.second, g) && std::get<ast::UntilPtr>(q)->interval.as_double() == d, "Until holds " << text(q));
    } catch (const std::invalid_argument&) { t = true; }
    CHECK(t == !ok, "interval [" << x << ", " << y << "] is " << (t ? "rejected" : "accepted")); };
  interval([&] { return ast::Interval{a, b}; }, 0 <= a && a < b, a, b);
  interval([&] { return ast::Interval{ia, ib}; }, ia < ib, double(ia), double(ib));
  Expr e = gform(r, 1, true, true), g = gform(r, 1, true, true), q = Always(e);
  auto zi = std::make_pair(0.0, INF);
  CHECK(std::get_if<ast::AlwaysPtr>(&q) && sameexpr(std::get<ast::AlwaysPtr>(q)->arg, e) && std::get<ast::AlwaysPtr>(q)->interval.as_double() == zi, "Always");
  q = Eventually(e); CHECK(std::get_if<ast::EventuallyPtr>(&q) && sameexpr(std::get<ast::EventuallyPtr>(q)->arg, e) && std::get<ast::EventuallyPtr>(q)->interval.as_double() == zi, "Eventually");
  q = Until(e, g); CHECK(std::get_if<ast::UntilPtr>(&q) && sameexpr(std::get<ast::UntilPtr>(q)->args.first, e) && sameexpr(std::get<ast::UntilPtr>(q)->args.second, g) && std::get<ast::UntilPtr>(q)->interval.as_double() == zi, "Until");
  CHECK(ast::Interval{}.as_double() == zi, "Interval{}");
  double c = gval(r); std::string n(1, char('a' + r.in(0, 25)));
  auto p = Predicate(n);
  auto is = [&](const ast::Predicate& w, ast::ComparisonOp op) { CHECK(w.name == n && w.op == op && w.rhs == c, "predicate holds " << text(Expr(w))); };
  is(p > c, ast::ComparisonOp::GT); is(p >= c, ast::ComparisonOp::GE); is(p < c, ast::ComparisonOp::LT); is(p <= c, ast::ComparisonOp::LE);
  CHECK(p.name == n && p.op == ast::ComparisonOp::GE && p.rhs == 0.0, "Predicate(name)");
  CHECK(Const(true).value && !Const(false).value, "Const");
}
// ------------------------------------------------------------------ C17
static std::string deep(const Expr& e) {
  std::ostringstream o; o.precision(17);
  if (auto p = std::get_if<ast::Const>(&e)) { o << "const" << p->value; return o.str(); }
  if (auto p = std::get_if<ast::Predicate>(&e)) { o << "pred " << p->name << " " << int(p->op) << " " << p->rhs; return o.str(); }
  std::vector<Expr> k; std::function<Expr(std::vector<Expr>)> g; reach(e, k, g);
  auto iv = [](const Expr& e) { ast::Interval i; if (auto p = std::get_if<ast::AlwaysPtr>(&e)) i = (*p)->interval; if (auto p = std::get_if<ast::EventuallyPtr>(&e)) i = (*p)->interval; if (auto p = std::get_if<ast::UntilPtr>(&e)) i = (*p)->interval; return i.as_double(); }(e);
  o << "(" << e.index() << " " << iv.first << " " << iv.second;
  for (auto& x : k) o << " " << deep(x);
  o << ")"; return o.str();
}
static void c17(Rng& r) {
  Trace tr = gtrace(r, 0); logtrace(tr);
  std::map<std::string, Vec> m; std::map<std::string, Signal*> ptr;
  for (auto& [k, s] : tr) { m[k] = samples(s); ptr[k] = s.get(); }
  auto unchanged = [&](const char* what) { CHECK(tr.size() == m.size(), what << " changes the trace"); for (auto& [k, s] : tr) CHECK(s.get() == ptr[k] && sameseq(samples(s), m[k]), what << " changes the signal " << k << " to " << show(s)); };
  auto any = [&](auto f) { try { f(); } catch (const std::exception&) {} };
  auto &a = tr["a"], &b = tr["b"];
  // results are changed too: they may not share samples with the inputs
  auto poke = [&](const SignalPtr& s) { if (s && s.get() != a.get() && s.get() != b.get() && s.get() != tr["c"].get()) s->push_back(s->end_time() + 1.0, 99.0); };
  double t = r.in(-4, 10) * 0.5, u = t + gtime(r);
  any([&] { auto [x, y] = signal_tl::signal::synchronize(a, b); poke(x); poke(y); }); unchanged("synchronize");
  any([&] { poke(a->simplify()); }); unchanged("simplify");
  any([&] { poke(a->resize(t, u, 1.0)); }); unchanged("resize");
  any([&] { poke(a->shift(1.5)); }); unchanged("shift");
  any([&] { poke(a->resize_shift(t, u, 1.0, 1.5)); }); unchanged("resize_shift");
  any([&] { (void)minmax::compute_elementwise_min(a, b); (void)minmax::compute_elementwise_max({a, b, tr["c"]}); }); unchanged("min and max");
  any([&] { (void)minmax::compute_min_seq(a); (void)minmax::compute_max_seq(a, 1.0, 2.0); }); unchanged("min and max over windows");
  Expr e = gform(r, r.in(0, 3), true, true), f = gform(r, r.in(0, 2), true, true);
  if (r.p(1, 2)) { std::vector<Expr> as{e, f}; e = r.p(1, 2) ? And(as) : Or(as); }
  std::string te = deep(e), tf = deep(f);
  log_() << te << "\n" << tf << "\n";
  any([&] { (void)compute_robustness(e, tr); }); unchanged("evaluation");
  Vec v1, v2; any([&] { v1 = samples(compute_robustness(e, tr)); }); any([&] { v2 = samples(compute_robustness(e, tr)); });
  CHECK(sameseq(v1, v2), "the second evaluation gives another result");
  any([&] { (void)(e & f); }); CHECK(deep(e) == te && deep(f) == tf, "& changes an operand");
  any([&] { (void)(e | f); }); CHECK(deep(e) == te && deep(f) == tf, "| changes an operand");
  any([&] { (void)(~e); (void)Not(e); (void)Xor(e, f); (void)Iff(e, f); (void)Implies(e, f); (void)And({e, f}); (void)Or({e, f}); (void)Always(e); (void)Until(e, f); (void)text(e); });
  CHECK(deep(e) == te && deep(f) == tf, "an operator changes an operand");
}
// ------------------------------------------------------------------ C21
static void shown(const std::string& s, size_t& pos, const std::string& tok, const Expr& whole) {
  size_t p = s.find(tok, pos);
  CHECK(p != std::string::npos, "the text \"" << s << "\" does not show \"" << tok << "\" in its place");
  pos = p + tok.size();
}
static void c21e(const Expr& e) {
  std::string s = text(e); size_t pos = 0;
  { std::ostringstream o; ::operator<<(o, e); CHECK(o.str() == s, "operator<< gives \"" << o.str() << "\", format \"" << s << "\""); }
  if (auto p = std::get_if<ast::Const>(&e)) { CHECK(s == (p->value ? "true" : "false"), "constant " << p->value << " is shown as " << s); return; }
  if (auto p = std::get_if<ast::Predicate>(&e)) {
    const char* op = p->op == ast::ComparisonOp::GE ? " >= " : p->op == ast::ComparisonOp::GT ? " > " : p->op == ast::ComparisonOp::LE ? " <= " : " < ";
    shown(s, pos, p->name, e); shown(s, pos, op, e); shown(s, pos, fmt::format("{}", p->rhs), e); return;
  }
  std::vector<Expr> k; std::function<Expr(std::vector<Expr>)> g; reach(e, k, g);
  const char* op = e.index() == 2 ? "~" : e.index() == 3 ? " & " : e.index() == 4 ? " | " : e.index() == 5 ? "G" : e.index() == 6 ? "F" : " U";
  ast::Interval iv; bool temporal = e.index() >= 5;
  if (auto p = std::get_if<ast::AlwaysPtr>(&e)) iv = (*p)->interval;
  if (auto p = std::get_if<ast::EventuallyPtr>(&e)) iv = (*p)->interval;
  if (auto p = std::get_if<ast::UntilPtr>(&e)) iv = (*p)->interval;
  auto d = iv.as_double(); bool has = !(d.first == 0 && std::isinf(d.second));
  auto bounds = [&] {
    if (has) { shown(s, pos, "[" + fmt::format("{}", d.first), e); shown(s, pos, std::isinf(d.second) ? std::string("inf") : fmt::format("{}", d.second), e); }
    else CHECK(pos >= s.size() || s[pos] != '[', "bounds are shown: " << s); };
  size_t len = 0;
  if (e.index() == 2 || e.index() == 5 || e.index() == 6) { CHECK(s.compare(0, strlen(op), op) == 0, "\"" << s << "\" does not begin with " << op); pos = strlen(op); if (temporal) bounds(); shown(s, pos, text(k[0]), e); CHECK(pos == s.size(), "more text: " << s); }
  else if (e.index() == 7) { shown(s, pos, text(k[0]), e); CHECK(pos == text(k[0]).size() || pos == text(k[0]).size() + 1, "first operand: " << s); shown(s, pos, op, e); bounds(); shown(s, pos, text(k[1]), e); }
  else { for (size_t i = 0; i < k.size(); i++) { if (i) shown(s, pos, op, e); shown(s, pos, text(k[i]), e); len += text(k[i]).size() + (i ? 3 : 0); } CHECK(s.size() <= len + 2, "more text: " << s); }
  for (auto& x : k) c21e(x);
}
static void c21(Rng& r) {
  Expr e = gform(r, r.in(0, 4), true, true);
  if (r.p(1, 5)) { double a, b; Expr x = gform(r, 1, true, true), y = gform(r, 1, true, true); e = Until(x, y, ginterval(r, a, b)); }
  if (r.p(1, 6)) e = Expr(pred(r.p(1, 2) ? "x_1" : "speed", ast::ComparisonOp(r.in(0, 3)), wild(r)));
  log_() << deep(e) << "\n" << text(e) << "\n";
  c21e(e);
  Vec m = gvec(r, 0, 4, true); for (auto& x : m) if (r.p(1, 3)) x.value = wild(r);
  auto s = mk(m); std::string t = fmt::format("{}", *s); log_() << t << "\n";
  size_t pos = 0;
  for (auto& x : m) {
    std::string w = fmt::format("{}", x); size_t q = 0;
    shown(w, q, fmt::format("{}", x.time), e); shown(w, q, ", " + fmt::format("{}", x.value), e);
    shown(t, pos, w, e);
  }
}
int main(int argc, char** argv) {
  for (const char* p : {"C01", "C03", "C04", "C07", "C09"}) if (argc > 1 && !strcmp(argv[1], p)) TINY = true;
  return harness({{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11},
                  {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C21", c21}}, argc, argv);
}
