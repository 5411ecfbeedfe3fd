// Shared by the explorers: random queries, exact motion, JSON output.
#pragma once
#include "api.hpp"
#include <algorithm>
#include <array>
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
namespace vh {
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const double PI_ = 3.14159265358979323846, TPI = 2 * PI_;
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s((seed + 1) * 0xD1342543DE82EF95ull ^ 0x5851F42D4C957F2Dull) { for (int i = 0; i < 4; i++) u64(); }
  uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (u64() >> 11) * 0x1p-53; }
  double u(double a, double b) { return a + (b - a) * u(); }
  double lu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int i(int n) { return (int)(u64() % n); }
  bool p(double q) { return u() < q; }
  int sg() { return (u64() & 1) ? 1 : -1; }
};
inline double sgn1(double x) { return x < 0 ? -1.0 : 1.0; }
inline double angd(double a, double b) { return std::remainder(a - b, TPI); }
// integral of cos/sin(t + a u + b u^2) over 0..L (10 point Gauss-Legendre per panel)
inline void quad(double t, double a, double b, double L, double &c, double &s) {
  static const double GX[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
  static const double GW[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881};
  c = s = 0;
  if (a == 0 && b == 0) { c = L * std::cos(t); s = L * std::sin(t); return; }
  if (b == 0 && std::fabs(a * L) > 1e-3) { c = (std::sin(t + a * L) - std::sin(t)) / a; s = (std::cos(t) - std::cos(t + a * L)) / a; return; }
  double ph = std::fabs(a * L) + std::fabs(b) * L * L;
  if (!(ph < 1e6)) { c = s = NAN; return; }
  int m = (int)std::ceil(ph / 1.5) + 1;
  double h = L / m;
  for (int i = 0; i < m; i++) {
    double mid = (i + 0.5) * h;
    for (int k = 0; k < 5; k++) for (int g = -1; g <= 1; g += 2) {
      double u = mid + g * 0.5 * h * GX[k], f = t + u * (a + b * u);
      c += GW[k] * std::cos(f); s += GW[k] * std::sin(f);
    }
  }
  c *= 0.5 * h; s *= 0.5 * h;
}
inline void move_by(double &x, double &y, double &th, const Ct &c, double u) {
  double d = sgn1(c.ds), C, S;
  quad(th, d * c.k, 0.5 * d * c.s, u, C, S);
  x += d * C; y += d * S; th += u * (d * c.k + 0.5 * d * c.s * u);
}
inline St drive(const St &a, const std::vector<Ct> &cs) {
  St r = a;
  for (auto &c : cs) { move_by(r.x, r.y, r.th, c, std::fabs(c.ds)); r.k = c.k + c.s * std::fabs(c.ds); r.d = sgn1(c.ds); }
  return r;
}
inline double plen(const std::vector<Ct> &cs) { double l = 0; for (auto &c : cs) l += std::fabs(c.ds); return l; }
inline bool plain(int k) { return k == DUBINS || k == RS; }
inline bool oneway(int k) { return k == DUBINS || (k >= CC00D && k <= CCD); }
inline bool general(int k) { return k == CCD || k == HC; }
inline bool hybrid(int k) { return k >= HC00 && k <= HC; }

// ---- words of the specification (Words.tla), and the goals they lead to
struct Tok { char t; int r, d; };
struct Word { int kind; std::string fam; std::vector<Tok> w; };
struct Words {
  std::vector<Word> by[NKINDS];
  void load(const char *file) {
    std::ifstream f(file); std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string kn, fam, t; is >> kn >> fam;
      Word w; w.kind = -1; w.fam = fam;
      for (int k = 0; k < NKINDS; k++) if (kn == kind_name(k)) w.kind = k;
      if (w.kind < 0) continue;
      while (is >> t) { Tok k; char c; int r, d; if (sscanf(t.c_str(), "%c,%d,%d", &c, &r, &d) == 3) { k.t = c; k.r = r; k.d = d; w.w.push_back(k); } }
      by[w.kind].push_back(w);
    }
  }
};
inline void fresnel_q(double s, double &S, double &C) { quad(0, 0, PI_ / 2, s, C, S); }
// the cc circle of the limits: radius, mu, delta_min
struct Circ { double R, mu, dmin; };
inline Circ circ(double kap, double sig) {
  double x = 0, y = 0, th = 0; Ct c{kap / sig, 0, sig}; move_by(x, y, th, c, kap / sig);
  double xc = x - std::sin(th) / kap, yc = y + std::cos(th) / kap;
  Circ r; r.R = std::hypot(xc, yc); r.mu = std::atan(std::fabs(xc / yc)); r.dmin = 0.5 * kap * kap / sig; return r;
}
inline double angle_of(Rng &g) {
  switch (g.i(8)) {
    case 0: return g.i(13) * PI_ / 6;
    case 1: return g.i(9) * PI_ / 4;
    case 2: return g.lu(1e-9, 1);
    case 3: return 0;
    case 4: return PI_ / 2;
    case 5: return g.u(0, TPI);
    default: return g.u(0, PI_);
  }
}
// degenerate = exact lattice/zero lengths allowed
inline std::vector<Ct> instantiate(Rng &g, const Word &w, const Params &p, bool degenerate) {
  std::vector<Ct> r; double L = plain(p.kind) ? 0 : p.kappa / p.sigma, k = p.kappa, s = p.sigma;
  double flip = (oneway(p.kind) && !p.fwd) ? -1 : 1;
  double lock = g.p(0.3) ? angle_of(g) : -1;  // equal arcs
  for (auto &t : w.w) {
    double d = t.d * flip;
    double a = lock >= 0 && g.p(0.7) ? lock : degenerate ? angle_of(g) : g.u(0.05, 3.0);
    if (a < 0.05 && !degenerate) a = g.u(0.05, 3.0);
    switch (t.t) {
      case 'A': r.push_back({d * a / k, t.r * k, 0}); break;
      case 'S': { double l = degenerate ? (g.p(0.3) ? g.i(5) / k : g.p(0.3) ? g.lu(1e-9, 1) : g.u(0, 6) / k) : g.u(0.05, 6) / k; r.push_back({d * l, 0, 0}); } break;
      case 'I': r.push_back({d * L, 0, t.r * s}); break;
      case 'O': r.push_back({d * L, t.r * k, -t.r * s}); break;
      case 'E': {
        Circ c = circ(k, s);
        double dl = g.u(1e-3, 1) * std::min(2 * c.dmin, 4.5), S, C;
        double q = std::sqrt(dl / PI_); fresnel_q(q, S, C);
        double D1 = std::cos(dl / 2) * C + std::sin(dl / 2) * S, chord = 2 * c.R * std::sin(dl / 2 + c.mu);
        double sg = 4 * PI_ * D1 * D1 / (chord * chord), l = std::sqrt(dl / sg);
        if (!(sg <= s) || !(sg * l <= k)) { sg = s * g.u(0.1, 1); l = k / s * g.u(0.1, 1); }
        r.push_back({d * l, 0, t.r * sg}); r.push_back({d * l, t.r * sg * l, -t.r * sg});
      } break;
    }
  }
  return r;
}

struct Query { Params p; St a, b; int mode; std::vector<Ct> word; std::string fam; };
struct GenOpt { int kind = -1; int mode = -1; };
enum { M_BOX, M_NEAR, M_LATTICE, M_WORD, M_WORDX, M_AXIS, M_SAME, M_FAR, M_TURN, M_CLO, NMODES };

inline Params gen_params(Rng &g, int kind) {
  Params p; p.kind = kind; p.disc = g.p(0.5) ? 0.1 : g.lu(0.01, 1);
  double c = g.u();
  if (c < 0.3) { p.kappa = 1; p.sigma = 1; }
  else if (c < 0.5) {
    static const double K[] = {0.2, 0.5, 1, 2, 0.1, 5, 4}, D[] = {0.0625, 0.125, 0.25, 0.5, 1, 2, PI_ / 4, PI_ / 2, PI_, 3.5, 4};
    p.kappa = K[g.i(7)]; p.sigma = p.kappa * p.kappa / (2 * D[g.i(11)]);
  } else {
    p.kappa = g.p(0.7) ? g.lu(0.1, 5) : g.p(0.5) ? g.lu(0.01, 0.1) : g.lu(5, 20); double dl = g.p(0.7) ? g.lu(0.05, 4) : g.lu(0.01, 16); p.sigma = p.kappa * p.kappa / (2 * dl);
  }
  p.fwd = oneway(kind) ? g.p(0.6) : true;
  return p;
}
inline double heading(Rng &g) {
  switch (g.i(6)) {
    case 0: return g.i(25) * PI_ / 12 - PI_;
    case 1: return (g.i(9) - 4) * PI_ / 4;
    case 2: return g.p(0.5) ? 0 : g.sg() * (PI_ - (g.p(0.5) ? 0 : g.lu(1e-12, 1e-3)));
    default: return g.u(-PI_, PI_);
  }
}
inline double bcurv(Rng &g, const Params &p) {
  if (!general(p.kind)) return g.p(0.8) ? 0 : g.u(-p.kappa, p.kappa);
  switch (g.i(7)) {
    case 0: case 1: return 0;
    case 2: return g.sg() * p.kappa;
    case 3: return g.sg() * p.kappa * (1 - g.lu(1e-7, 1e-1));
    case 4: return g.sg() * p.kappa * g.lu(1e-7, 1e-1);
    default: return g.u(-p.kappa, p.kappa);
  }
}
inline St start_state(Rng &g, const Params &p) {
  St s; double R = 1 / p.kappa;
  switch (g.i(5)) {
    case 0: case 1: s.x = s.y = s.th = 0; break;
    case 2: s.x = (g.i(9) - 4) * R; s.y = (g.i(9) - 4) * R; s.th = heading(g); break;
    case 3: s.x = g.u(-10, 10) * R; s.y = g.u(-10, 10) * R; s.th = g.u(-PI_, PI_); break;
    default: { double f = g.lu(1, 300); s.x = g.u(-f, f); s.y = g.u(-f, f); s.th = g.p(0.8) ? heading(g) : g.u(-12, 12); }
  }
  s.k = bcurv(g, p); s.d = g.i(3) - 1;
  return s;
}
inline St rel(const St &a, double x, double y, double th) {
  St r = a; double c = std::cos(a.th), s = std::sin(a.th);
  r.x = a.x + c * x - s * y; r.y = a.y + s * x + c * y; r.th = a.th + th; return r;
}
inline void wrap(Rng &g, St &s) {  // mostly the principal value, sometimes an alias
  double c = g.u();
  if (c < 0.75) s.th = std::remainder(s.th, TPI);
  else if (c < 0.85) { s.th = std::remainder(s.th, TPI); if (s.th < 0) s.th += TPI; }
  else if (c < 0.9) s.th += TPI * (g.i(5) - 2);
}
inline int pick_mode(Rng &g) {
  static const int m[] = {M_BOX, M_BOX, M_BOX, M_BOX, M_NEAR, M_NEAR, M_LATTICE, M_LATTICE, M_WORD, M_WORD, M_WORD, M_WORDX, M_WORDX, M_AXIS, M_SAME, M_FAR, M_TURN};
  return m[g.i(sizeof m / sizeof *m)];
}
inline Query gen(Rng &g, const Words &W, const GenOpt &o = GenOpt()) {
  Query q; int kind = o.kind >= 0 ? o.kind : g.i(NKINDS);
  q.p = gen_params(g, kind); q.a = start_state(g, q.p);
  q.mode = o.mode >= 0 ? o.mode : (general(kind) && g.p(0.1)) ? (int)M_CLO : pick_mode(g);
  double R = 1 / q.p.kappa;
  St b = q.a;
  int m = q.mode;
  if ((m == M_WORD || m == M_WORDX)) {
    int wk = kind;
    if (kind == CCD) wk = CC00D + g.i(4);
    if (kind == HC) wk = HC00 + g.i(4);
    if (W.by[wk].empty()) m = M_BOX;
    else {
      const Word &w = W.by[wk][g.i(W.by[wk].size())];
      q.fam = w.fam;
      q.word = instantiate(g, w, q.p, m == M_WORDX);
      if (general(kind) && !q.word.empty()) {  // cut the first and the last segment
        if (g.p(0.7)) { Ct &c = q.word.front(); double u = g.u() * std::fabs(c.ds); c.k += c.s * u; c.ds -= sgn1(c.ds) * u; }
        if (g.p(0.7)) { Ct &c = q.word.back(); c.ds *= g.u(); }
        q.a.k = q.word.front().k;
      }
      b = drive(q.a, q.word);
    }
  }
  switch (m) {
    case M_BOX: { static const double S[] = {1, 2, 4, 4, 10, 30}; double f = S[g.i(6)] * R; if (!plain(kind) && g.p(0.4)) f += q.p.kappa / q.p.sigma * g.i(3);
      b = rel(q.a, g.u(-f, f), g.u(-f, f), g.u(-PI_, PI_)); } break;
    case M_NEAR: { double f = g.lu(1e-9, 1), e = g.p(0.3) ? 0 : g.lu(1e-9, 1), al = g.u(-PI_, PI_); b = rel(q.a, f * R * std::cos(al), f * R * std::sin(al), g.sg() * e + (g.p(0.15) ? PI_ : 0)); } break;
    case M_LATTICE: { double u = g.p(0.5) ? R : 0.5 * R; b = rel(q.a, (g.i(13) - 6) * u, (g.i(13) - 6) * u, (g.i(24) - 12) * PI_ / 12); } break;
    case M_AXIS: { double x = g.p(0.5) ? g.u(-6, 6) * R : g.sg() * g.lu(1e-6, 100) * R, th = g.p(0.4) ? 0 : g.p(0.5) ? PI_ : heading(g); double y = 0; if (g.p(0.3)) std::swap(x, y); b = rel(q.a, x, y, th); } break;
    case M_SAME: { double e = g.p(0.3) ? 0 : g.lu(1e-15, 1e-4); b.x += e * g.u(-1, 1) * (g.i(3)); b.y += e * g.u(-1, 1) * (g.i(3)); b.th += e * g.u(-1, 1) * (g.i(3)) + TPI * (g.i(5) - 2) * g.i(2); if (general(kind)) b.k = g.p(0.5) ? q.a.k : bcurv(g, q.p); } break;
    case M_FAR: { double f = g.lu(20, 1000) * R, al = g.u(-PI_, PI_); b = rel(q.a, f * std::cos(al), f * std::sin(al), heading(g)); } break;
    case M_TURN: { // a single arc, or a point symmetric position
      double al = angle_of(g); if (g.p(0.5)) { Ct c{g.sg() * al * R, g.sg() * q.p.kappa, 0}; b = drive(q.a, {c}); }
      else { Circ c = plain(kind) ? Circ{R, 0, 0} : circ(q.p.kappa, q.p.sigma); double r = c.R * g.i(5); b = rel(q.a, r * std::cos(al), r * std::sin(al), heading(g)); } } break;
    case M_CLO: { // pieces of clothoids of maximum sharpness, also across zero curvature and with a reversal
      q.a.k = g.u(-q.p.kappa, q.p.kappa); std::vector<Ct> c; double k = q.a.k, d = oneway(kind) ? (q.p.fwd ? 1 : -1) : g.sg();
      for (int i = 0, n = 1 + g.i(2); i < n; i++) { double e = g.p(0.3) ? k * g.u(0.01, 1) : g.p(0.1) ? 0 : g.u(-q.p.kappa, q.p.kappa), s = e < k ? -q.p.sigma : q.p.sigma; c.push_back({d * std::fabs(e - k) / q.p.sigma, k, s}); k = e; if (!oneway(kind) && g.p(0.5)) d = -d; }
      b = drive(q.a, c); b.k = k; } break;
    default: break;
  }
  if (m != M_CLO && m != M_SAME && m != M_WORD && m != M_WORDX) b.k = general(kind) && g.p(0.1) ? q.a.k : bcurv(g, q.p);
  if (!general(kind) && (m == M_WORD || m == M_WORDX)) b.k = g.p(0.5) ? 0 : bcurv(g, q.p);
  b.d = g.i(3) - 1;
  if (m != M_SAME) wrap(g, b);
  q.b = b;
  return q;
}

// known finding: paths with a reversal and an inflection across a straight line (see Planner.tla)
inline bool lopsided(const std::vector<Ct> &cs) {
  bool rev = false, inf = false; double last = 0, d = 0; bool line = false;
  for (auto &k : cs) {
    if (std::fabs(k.ds) < 1e-6) continue;
    double di = k.ds > 0 ? 1 : -1; if (d != 0 && di != d) { rev = true; last = 0; line = false; } d = di;
    double cv = std::fabs(k.k) > 1e-9 ? k.k : k.s;
    if (cv == 0) line = true; else { if (last * cv < 0 && line) inf = true; last = cv; line = false; }
  }
  return rev && inf;
}

// ---- planners, created per thread and parameter set
struct Cache {
  std::map<std::vector<double>, PlannerP> m;
  Planner &get(const Params &p, PlannerP (*mk)(const Params &) = make_sut) {
    std::vector<double> k = {(double)p.kind, p.kappa, p.sigma, p.disc, (double)p.fwd};
    auto it = m.find(k);
    if (it == m.end()) { if (m.size() > 64) m.clear(); it = m.emplace(k, mk(p)).first; }
    return *it->second;
  }
};

// ---- JSON with doubles as [hi, lo]
struct J {
  std::string s;
  J &num(double d) { uint64_t b; memcpy(&b, &d, 8); char t[40]; snprintf(t, sizeof t, "[%d,%d]", (int)(int32_t)(b >> 32), (int)(int32_t)(b & 0xffffffffu)); s += t; return *this; }
  J &nums(const double *d, int n) { s += '['; for (int i = 0; i < n; i++) { if (i) s += ','; num(d[i]); } s += ']'; return *this; }
  J &st(const St &x) { double d[5] = {x.x, x.y, x.th, x.k, x.d}; return nums(d, 5); }
  J &cts(const std::vector<Ct> &c) { s += '['; for (size_t i = 0; i < c.size(); i++) { if (i) s += ','; double d[3] = {c[i].ds, c[i].k, c[i].s}; nums(d, 3); } s += ']'; return *this; }
  J &key(const char *k) { if (s.size() && s.back() != '{') s += ','; s += '"'; s += k; s += "\":"; return *this; }
  J &str(const std::string &x) { s += '"'; s += x; s += '"'; return *this; }
  J &in(long v) { s += std::to_string(v); return *this; }
  J &bo(bool v) { s += v ? "true" : "false"; return *this; }
  J &open() { s += '{'; return *this; }
  J &close() { s += '}'; return *this; }
};
inline void jparams(J &j, const Params &p) {
  j.key("kind").str(kind_name(p.kind)).key("kap").num(p.kappa).key("sig").num(p.sigma).key("disc").num(p.disc).key("fwd").bo(p.fwd);
}

// ---- read a recorded query back (the subset of JSON written above)
struct Rd {
  std::string s;
  size_t at(const char *k) const { std::string p = std::string("\"") + k + "\":"; size_t i = s.find(p); return i == std::string::npos ? i : i + p.size(); }
  std::string str(const char *k) const { size_t i = at(k); if (i == std::string::npos) return ""; size_t e = s.find('"', i + 1); return s.substr(i + 1, e - i - 1); }
  bool bo(const char *k) const { size_t i = at(k); return i != std::string::npos && s[i] == 't'; }
  std::vector<double> nums(const char *k) const {
    std::vector<double> r; size_t i = at(k); if (i == std::string::npos) return r; int dep = 0; std::vector<long> v;
    for (; i < s.size();) { char c = s[i]; if (c == '[') { dep++; i++; } else if (c == ']') { dep--; i++; if (!dep) break; } else if (c == ',') i++; else { char *e; v.push_back(strtol(&s[i], &e, 10)); i = e - s.c_str(); } }
    for (size_t j = 0; j + 1 < v.size(); j += 2) { uint64_t b = ((uint64_t)(uint32_t)(int32_t)v[j] << 32) | (uint32_t)(int32_t)v[j + 1]; double d; memcpy(&d, &b, 8); r.push_back(d); }
    return r;
  }
  double num(const char *k) const { auto v = nums(k); return v.empty() ? 0 : v[0]; }
  St st(const char *k) const { auto v = nums(k); v.resize(5); return {v[0], v[1], v[2], v[3], v[4]}; }
  std::vector<Ct> cts(const char *k) const { auto v = nums(k); std::vector<Ct> r; for (size_t i = 0; i + 2 < v.size(); i += 3) r.push_back({v[i], v[i + 1], v[i + 2]}); return r; }
  Params params() const { Params p; p.kind = 0; std::string k = str("kind"); for (int i = 0; i < NKINDS; i++) if (k == kind_name(i)) p.kind = i; p.kappa = num("kap"); p.sigma = num("sig"); p.disc = num("disc"); p.fwd = bo("fwd"); return p; }
  Query query() const { Query q; q.p = params(); q.a = st("a"); q.b = st("b"); q.mode = 0; return q; }
};
inline std::vector<Rd> read_cases(const std::string &file) { std::vector<Rd> r; std::ifstream f(file); std::string l; while (std::getline(f, l)) if (l.size() > 2) r.push_back({l}); return r; }

// ---- parallel search keeping, per class, the worst cases and a random sample
struct Keep {
  struct It { double score; uint64_t salt; std::string js; };
  size_t ktop, krnd; std::map<int, std::vector<It>> top; std::map<int, std::vector<It>> rnd; std::map<int, uint64_t> seen;
  Keep(size_t a, size_t b) : ktop(a), krnd(b) {}
  static bool better(const It &a, const It &b) { return a.score > b.score; }
  bool wants(int cls, double sc) { auto &t = top[cls]; return t.size() < ktop || sc > t.front().score || std::isnan(sc); }
  void add_top(int cls, double sc, const std::string &js) {
    if (std::isnan(sc)) sc = 1e300;
    auto &t = top[cls];
    t.push_back({sc, 0, js}); std::push_heap(t.begin(), t.end(), better);
    if (t.size() > ktop) { std::pop_heap(t.begin(), t.end(), better); t.pop_back(); }
  }
  // reservoir
  bool wants_rnd(int cls, Rng &g, size_t &slot) { auto &r = rnd[cls]; uint64_t n = ++seen[cls]; if (r.size() < krnd) { slot = r.size(); r.push_back({}); return true; } slot = g.u64() % n; return slot < krnd; }
  void put_rnd(int cls, size_t slot, double sc, const std::string &js) { rnd[cls][slot] = {sc, 0, js}; }
  void merge(Keep &o) {
    for (auto &e : o.top) for (auto &i : e.second) if (wants(e.first, i.score)) add_top(e.first, i.score, i.js);
    for (auto &e : o.rnd) for (auto &i : e.second) if (rnd[e.first].size() < krnd * 8) rnd[e.first].push_back(i);
  }
};
struct Args {
  std::map<std::string, std::string> m;
  Args(int c, char **v) { for (int i = 1; i + 1 < c; i += 2) m[v[i] + 2] = v[i + 1]; }
  std::string s(const char *k, const char *d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
  double n(const char *k, double d) const { auto i = m.find(k); return i == m.end() ? d : atof(i->second.c_str()); }
};
// ---- a query that crashes or hangs is written to a file (exit 42 / 43)
struct Current { std::string js; std::atomic<double> t0{0}; };
inline Current *&cur() { static thread_local Current *c = nullptr; return c; }
inline std::vector<Current *> &currents() { static std::vector<Current *> v; return v; }
inline std::string &crashfile() { static std::string s; return s; }
inline void crash_dump(Current *c, int code) {
  FILE *f = fopen(crashfile().c_str(), "w");
  if (f) { fputs(c ? c->js.c_str() : "{}", f); fputc('\n', f); fclose(f); }
  _exit(code);
}
inline void on_signal(int) { crash_dump(cur(), 42); }
inline void guard(const std::string &file) {
  crashfile() = file;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
}
inline void mark(const Query &q) {
  if (!cur()) return;
  J j; j.open(); jparams(j, q.p); j.key("a").st(q.a).key("b").st(q.b).close(); cur()->js = j.s; cur()->t0 = now();
}
// run body(thread, rng, keep) repeatedly in all threads until the time is over; returns the number of calls
inline uint64_t search(double secs, uint64_t seed, int threads, Keep &all, const std::function<void(int, Rng &, Keep &)> &body, uint64_t maxn = ~0ull) {
  std::vector<std::thread> ts; std::mutex mu; std::atomic<uint64_t> n{0}; double t0 = now();
  std::vector<Current> cs(threads); std::atomic<bool> over{false};
  std::thread dog([&] { while (!over) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); for (auto &c : cs) { double t = c.t0; if (t > 0 && now() - t > 30) crash_dump(&c, 43); } } });
  for (int t = 0; t < threads; t++) ts.emplace_back([&, t] {
    cur() = &cs[t];
    Rng g(seed * 1000003 + t); Keep k(all.ktop, all.krnd); uint64_t c = 0;
    while (now() - t0 < secs && n.load(std::memory_order_relaxed) < maxn) { for (int i = 0; i < 16; i++) body(t, g, k); c += 16; n += 16; }
    cs[t].t0 = 0; cur() = nullptr;
    std::lock_guard<std::mutex> l(mu); all.merge(k);
  });
  for (auto &t : ts) t.join();
  over = true; dog.join();
  return n;
}
inline size_t dump(Keep &k, const char *file, uint64_t seed, double *worst = nullptr) {
  std::ofstream f(file); size_t n = 0; Rng g(seed + 77); double w = -1e300;
  for (auto &e : k.top) { std::sort(e.second.begin(), e.second.end(), Keep::better); for (auto &i : e.second) { f << i.js << "\n"; n++; w = std::max(w, i.score); } }
  for (auto &e : k.rnd) { auto &r = e.second; for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[g.u64() % i]); for (size_t i = 0; i < r.size() && i < k.krnd; i++) if (r[i].js.size()) { f << r[i].js << "\n"; n++; } }
  if (worst) *worst = w;
  return n;
}
}
