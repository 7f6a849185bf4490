// instantiates the formatters of the library, so that their bodies are available
#include "signal_tl/fmt.hpp"
template <typename T> void use(fmt::formatter<T>& f, const T& x, fmt::format_context& c) { f.format(x, c); }
void all(fmt::format_context& c, const signal_tl::ast::Expr& e, const signal_tl::signal::Sample& s, const signal_tl::signal::Signal& g,
  const signal_tl::ast::Const& k, const signal_tl::ast::Predicate& p, const signal_tl::ast::Not& n, const signal_tl::ast::And& a, const signal_tl::ast::Or& o,
  const signal_tl::ast::Always& w, const signal_tl::ast::Eventually& v, const signal_tl::ast::Until& u) {
  { fmt::formatter<signal_tl::ast::Expr> f; use(f, e, c); } { fmt::formatter<signal_tl::signal::Sample> f; use(f, s, c); } { fmt::formatter<signal_tl::signal::Signal> f; use(f, g, c); }
  { fmt::formatter<signal_tl::ast::Const> f; use(f, k, c); } { fmt::formatter<signal_tl::ast::Predicate> f; use(f, p, c); } { fmt::formatter<signal_tl::ast::Not> f; use(f, n, c); }
  { fmt::formatter<signal_tl::ast::And> f; use(f, a, c); } { fmt::formatter<signal_tl::ast::Or> f; use(f, o, c); } { fmt::formatter<signal_tl::ast::Always> f; use(f, w, c); }
  { fmt::formatter<signal_tl::ast::Eventually> f; use(f, v, c); } { fmt::formatter<signal_tl::ast::Until> f; use(f, u, c); }
}
