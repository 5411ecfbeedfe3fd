// Explorer for C12 (sampled paths), C13 (interpolation) and C14 (belief propagation).
#include "common.hpp"
using namespace vh;
static Words W;
struct Item { Params p; St a; std::vector<Ct> c; bool planned = false; St b; };
static double steps(const Item &q) { double n = 0; for (auto &c : q.c) n += std::ceil(std::fabs(c.ds) / q.p.disc) + 1; return n; }
// arbitrary control sequences, not only those planners produce
static Item random_controls(Rng &g) {
  Item q; int kind = g.i(NKINDS); q.p = gen_params(g, kind); q.a = start_state(g, q.p); q.b = q.a;
  int n = 1 + g.i(6); double h = q.p.disc, kc = 0;
  for (int i = 0; i < n; i++) {
    Ct c; double l;
    switch (g.i(9)) {
      case 0: l = 0; break;
      case 1: l = h * (1 + g.i(6)); break;
      case 2: l = h * (1 + g.i(6)) * (1 + g.sg() * g.lu(1e-16, 1e-3)); break;
      case 3: l = g.lu(1e-15, 1) * h; break;
      default: l = h * g.u(0, 9); break;
    }
    c.ds = g.p(0.4) ? -l : l;
    static const double K[] = {0, 0, 1, -1, 2, -0.5, 1e-3, -1e-3};
    c.k = g.p(0.4) ? kc : g.p(0.5) ? K[g.i(8)] : g.u(-2, 2);
    c.s = plain(kind) ? 0 : g.p(0.4) ? 0 : g.p(0.3) ? g.sg() * q.p.sigma : g.sg() * g.lu(1e-5, 3);
    if (g.p(0.08) && !plain(kind)) { c.s = g.sg() * g.lu(1e-6, 1e-3); c.k = g.p(0.5) ? 0 : g.u(-1, 1); }
    if (std::fabs(c.k - kc) < 1e-3 && c.k != kc) c.k = kc;
    if (c.s == 0 && std::fabs(c.k) < 2e-4 && c.k != 0) { if (c.k == kc && !plain(kind)) c.s = 0.5; else c.k = kc = 0; }
    if (std::fabs(c.s) * l > 4) c.s = g.sg() * 4 / (l + 1);
    kc = c.k + c.s * l;
    q.c.push_back(c);
  }
  return q;
}
static Item planned(Rng &g, Cache &ch) {
  Item q; Query u = gen(g, W); mark(u);
  q.p = u.p; q.a = u.a; q.b = u.b; q.planned = true; q.c = ch.get(u.p).controls(u.a, u.b);
  return q;
}
static void mark_item(const Item &q) {
  if (!cur()) return;
  J j; j.open(); jparams(j, q.p); j.key("a").st(q.a).key("b").st(q.b).key("c").cts(q.c).close(); cur()->js = j.s; cur()->t0 = now();
}
static void head(J &j, const Item &q, const char *via) { j.open(); jparams(j, q.p); j.key("via").str(via).key("a").st(q.a).key("b").st(q.b).key("c").cts(q.c); }
static void states(J &j, const std::vector<St> &p) { j.s += '['; for (size_t i = 0; i < p.size(); i++) { if (i) j.s += ','; j.st(p[i]); } j.s += ']'; }
// distance of a recorded path from the naive expectation; only used to rank
static double score12(const Item &q, const std::vector<St> &path) {
  if (path.empty()) return 1e9;
  double worst = 0, s = 0; size_t n = 0; St p = q.a; int reps = 0; double kc = q.c.front().k;
  for (size_t j = 0; j < q.c.size(); j++) {
    const Ct &c = q.c[j]; double l = std::fabs(c.ds); int m = (int)std::ceil(l / q.p.disc);
    if (j == 0 || plain(q.p.kind) || std::fabs(c.k - kc) > 1e-4) { n++; reps++; }
    for (int i = 1; i <= m; i++) {
      if (n >= path.size()) return 1e8;
      double u = std::min(i * q.p.disc, l); St e = p; move_by(e.x, e.y, e.th, c, u);
      const St &o = path[n++]; double sc = 1e-7 * (1 + s + l);
      worst = std::max({worst, std::hypot(o.x - e.x, o.y - e.y) / sc, std::fabs(angd(o.th, e.th)) / sc, std::fabs(o.k - c.k - c.s * u) / 1e-9, o.d != sgn1(c.ds) ? 1e7 : 0.0});
    }
    if (m) kc = c.k + c.s * l; else kc = c.k;
    move_by(p.x, p.y, p.th, c, l); s += l;
  }
  if (n != path.size()) return 1e8;
  return worst;
}
static double score13(const Item &q, const std::vector<double> &ts, const std::vector<St> &r) {
  double L = plen(q.c), w = 0, tol = 1e-9 * (1 + L), sc = 1e-7 * (1 + L);
  for (size_t i = 0; i < ts.size(); i++) {
    double s = std::min(std::max(ts[i], 0.0), 1.0) * L, best = 1e9; St p = q.a;
    for (auto &c : q.c) {
      double l = std::fabs(c.ds);
      if (s >= -tol && s <= l + tol) {
        St e = p; double u = std::max(0.0, std::min(s, l)); move_by(e.x, e.y, e.th, c, u);
        best = std::min(best, std::max({std::hypot(e.x - r[i].x, e.y - r[i].y) / sc, std::fabs(angd(e.th, r[i].th)) / sc, std::fabs(c.k + c.s * u - r[i].k) / (1e-9 + 2 * tol * std::fabs(c.s)), sgn1(c.ds) != r[i].d ? 1e6 : 0.0}));
      }
      move_by(p.x, p.y, p.th, c, l); s -= l;
    }
    w = std::max(w, best);
  }
  return w;
}
static std::vector<double> fractions(Rng &g, const Item &q) {
  double L = plen(q.c); std::vector<double> t = {0, 1, g.u(), g.u(), g.u(), -g.lu(1e-12, 10), 1 + g.lu(1e-12, 10), g.lu(1e-12, 1), 1 - g.lu(1e-12, 1)};
  double s = 0;
  for (size_t j = 0; j + 1 < q.c.size(); j++) { s += std::fabs(q.c[j].ds); if (L > 0 && g.p(0.6)) t.push_back(s / L * (g.p(0.4) ? 1 : 1 + g.sg() * g.lu(1e-16, 1e-2))); }
  return t;
}
static void spd(Rng &g, double *m, double sc, bool zero) {
  for (int i = 0; i < 16; i++) m[i] = 0;
  if (zero) return;
  double A[3][3]; for (auto &r : A) for (double &x : r) x = g.u(-1, 1) * sc;
  if (g.p(0.3)) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) A[i][j] = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = 0; for (int k = 0; k < 3; k++) v += A[std::min(i, j)][k] * A[std::max(i, j)][k]; m[4 * i + j] = v; }
}
int main(int ac, char **av) {
  Args A(ac, av); std::string prop = A.s("prop", "C12"); if (A.s("words") != "") W.load(A.s("words").c_str()); guard(A.s("crash", "/dev/null"));
  const char *out = A.s("out", "/dev/stdout").c_str(); std::string outs = A.s("out", "/dev/stdout");
  (void)out;
  double maxst = A.n("maxstates", 120);
  if (A.s("lattice") != "") {  // sequences enumerated by Sampler.tla: "h  l,d,k,s  l,d,k,s ..."
    std::ifstream f(A.s("lattice")); std::ofstream o(outs); std::string line; size_t n = 0; Current c0; cur() = &c0; alarm(120); signal(SIGALRM, on_signal);
    Cache ch; const double hs[] = {0.5, 0.1, 0.3};
    while (std::getline(f, line)) {
      std::istringstream is(line); int H; is >> H; std::string t; std::vector<std::array<int, 4>> sq;
      while (is >> t) { std::array<int, 4> e; if (sscanf(t.c_str(), "%d,%d,%d,%d", &e[0], &e[1], &e[2], &e[3]) == 4) sq.push_back(e); }
      bool flat = true; for (auto &e : sq) if (e[3]) flat = false;
      for (int kind : {(int)DUBINS, (int)RS, (int)CC00D}) {
        if (kind != CC00D && !flat) continue;
        Item q; double h = hs[(n + (size_t)A.n("seed", 1)) % 3], un = h / H, ku = 0.8;
        q.p = Params{kind, 1, 1, h, true}; q.a = {0.3, -0.7, 2.0, 0, 0}; q.b = q.a;
        for (auto &e : sq) q.c.push_back({e[0] * e[1] * un, e[2] * ku, e[3] * ku / un});
        mark_item(q); auto path = ch.get(q.p).integrate(q.a, q.c);
        J j; head(j, q, "lattice"); j.key("path"); states(j, path); j.close(); o << j.s << "\n"; n++;
      }
    }
    printf("{\"queries\":%zu,\"cases\":%zu}\n", n, n); return 0;
  }
  Keep keep((size_t)A.n("top", 25), (size_t)A.n("rnd", 60)); int T = (int)A.n("threads", 8); std::vector<Cache> cache(T);
  uint64_t n = search(A.n("secs", 8), (uint64_t)A.n("seed", 1), T, keep, [&](int t, Rng &g, Keep &k) {
    Item q = g.p(0.5) ? random_controls(g) : planned(g, cache[t]);
    if (q.c.empty()) return;
    bool whole = true;
    if (q.planned && steps(q) > maxst && prop != "C13") {
      if (prop == "C12" && g.p(0.5)) q.p.disc = plen(q.c) / (maxst / 3);
      else {  // a part of the path
        whole = false; size_t f = g.i(q.c.size()); std::vector<Ct> part; double left = maxst / 2 * q.p.disc;
        for (size_t i = f; i < q.c.size() && left > 0; i++) { Ct c = q.c[i]; double l = std::min(std::fabs(c.ds), left); c.ds = c.ds < 0 ? -l : l; left -= l + q.p.disc; part.push_back(c); }
        q.c = part;
      }
    }
    Planner &pl = cache[t].get(q.p);
    std::string js; double sc = 0; size_t slot;
    mark_item(q);
    if (prop == "C12") {
      bool gp = q.planned && whole && g.p(0.6); auto path = gp ? pl.path(q.a, q.b) : pl.integrate(q.a, q.c);
      sc = score12(q, path);
      J j; head(j, q, gp ? "get_path" : "integrate"); j.key("path"); states(j, path); j.close(); js = j.s;
    } else if (prop == "C13") {
      auto ts = fractions(g, q); std::vector<St> r; for (double x : ts) r.push_back(pl.interpolate(q.a, q.c, x));
      sc = score13(q, ts, r);
      J j; head(j, q, "interpolate"); j.key("t").nums(ts.data(), (int)ts.size()).key("path"); states(j, r); j.close(); js = j.s;
    } else {
      StCov s0; s0.st = q.a; spd(g, s0.Sigma, g.lu(1e-2, 1), g.p(0.3)); spd(g, s0.Lambda, g.lu(1e-2, 1), g.p(0.4));
      for (int i = 0; i < 16; i++) s0.cov[i] = s0.Sigma[i] + s0.Lambda[i];
      Noise z{g.p(0.2) ? 0 : g.lu(1e-3, 1), g.p(0.2) ? 0 : g.lu(1e-3, 1), g.p(0.2) ? 0 : g.lu(1e-3, 1), g.p(0.2) ? 0 : g.lu(1e-3, 1), g.lu(0.01, 2), g.lu(0.01, 2), g.lu(0.01, 1), g.u(0, 2), g.u(0, 2), g.u(0, 2)};
      pl.filter(z);
      bool gp = q.planned && whole && g.p(0.6); auto path = gp ? pl.path_cov(s0, q.b) : pl.integrate_cov(s0, q.c);
      auto base = gp ? pl.path(q.a, q.b) : pl.integrate(q.a, q.c);
      J j; head(j, q, gp ? "get_path_with_covariance" : "integrate_with_covariance"); double zn[10] = {z.a1, z.a2, z.a3, z.a4, z.sx, z.sy, z.sth, z.k1, z.k2, z.k3};
      j.key("noise").nums(zn, 10).key("base"); states(j, base); j.key("path").s += '[';
      for (size_t i = 0; i < path.size(); i++) { if (i) j.s += ','; j.st(path[i].st); } j.s += ']';
      auto mats = [&](const char *nm, std::function<const double *(const StCov &)> f, const double *init) {
        j.key(nm).s += '['; for (size_t i = 0; i < path.size(); i++) { if (i) j.s += ','; const double *m = f(path[i]); j.s += '['; for (int r = 0; r < 3; r++) { if (r) j.s += ','; j.nums(m + 4 * r, 3); } j.s += ']'; } j.s += ']';
        j.key((std::string(nm) + "0").c_str()).s += '['; for (int r = 0; r < 3; r++) { if (r) j.s += ','; j.nums(init + 4 * r, 3); } j.s += ']';
      };
      mats("Sg", [](const StCov &s) { return s.Sigma; }, s0.Sigma); mats("La", [](const StCov &s) { return s.Lambda; }, s0.Lambda); mats("Co", [](const StCov &s) { return s.cov; }, s0.cov);
      j.close(); js = j.s;
      for (auto &s : path) for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) sc = std::max(sc, std::fabs(s.Sigma[4 * r + c] - s.Sigma[4 * c + r]) / (1e-12 + std::fabs(s.Sigma[5 * r])));
    }
    int cls = q.p.kind * 2 + q.planned;
    bool wr = k.wants_rnd(cls, g, slot), wt = k.wants(cls, sc);
    if (wt) k.add_top(cls, sc, js);
    if (wr) k.put_rnd(cls, slot, sc, js);
  });
  double worst; size_t m = dump(keep, outs.c_str(), (uint64_t)A.n("seed", 1), &worst);
  printf("{\"queries\":%llu,\"cases\":%zu,\"worst\":%.6g", (unsigned long long)n, m, worst);
  if (A.n("verbose", 0) > 0) { printf(",\"by\":{"); for (auto &e : keep.top) { double w = 0; for (auto &i : e.second) w = std::max(w, i.score); printf("%s\"%s%d\":%.4g", e.first ? "," : "", kind_name(e.first / 2), e.first % 2, w); } printf("}"); }
  printf("}\n");
}
