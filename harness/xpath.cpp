// Explorer for C01..C06: asks the planners, ranks the answers by how close they
// come to violating the property, writes the worst and a random sample as cases.
#include "common.hpp"
using namespace vh;
static Words W;
static double scale(const Params &p) { return 1 + 1 / p.kappa + (plain(p.kind) ? 0 : p.kappa / p.sigma); }
static double score(const std::string &prop, const Query &q, const std::vector<Ct> &c, double D) {
  const Params &p = q.p; double L = plen(c), neg = 1e-6 / std::max(p.kappa, 1.0);
  if (c.empty()) return 1e9;
  if (prop == "C01") {
    St e = drive(q.a, c);
    double tp = p.kind == DUBINS ? 1e-5 * scale(p) : p.kind == RS ? 1e-8 * scale(p) : (3e-4 * scale(p) + 1.5e-4 * L) * (general(p.kind) ? 1 + p.kappa : 1);
    double ta = p.kind == DUBINS ? 1e-5 : p.kind == RS ? 1e-8 : 3e-4 * (1 + p.kappa);
    return std::max(std::hypot(e.x - q.b.x, e.y - q.b.y) / tp, std::fabs(angd(e.th, q.b.th)) / ta);
  }
  if (prop == "C02") {
    double tl = (plain(p.kind) ? 1e-9 : 6e-4) * scale(p) + 1e-11 * L;
    double s = std::fabs(L - D) / tl; if (D < 0) s = 1e9;
    double dp = std::max(std::hypot(q.a.x - q.b.x, q.a.y - q.b.y), std::fabs(angd(q.a.th, q.b.th)));
    bool same = true;  // curvatures
    if (general(p.kind)) same = std::fabs(q.a.k - q.b.k) <= 1e-11;
    else if (p.kind == CC0PMD || p.kind == CCPM0D || p.kind == HC0PM || p.kind == HCPM0) same = false;
    else if (p.kind == CCPMPMD) same = q.a.k * q.b.k >= 0;
    if (dp <= 1e-11 && same) s = std::max(s, D / (1e-5 * (1 + 1 / p.kappa)));
    if (D <= 1e-7) s = std::max(s, std::max(dp / (2e-4 * (1 + 1 / p.kappa)), p.kind == CCD ? std::fabs(q.a.k - q.b.k) / (2e-4 * (1 + p.sigma)) : 0));
    return s;
  }
  double s = 0, kp = NAN;
  for (size_t i = 0; i < c.size(); i++) {
    double l = std::fabs(c[i].ds), ke = c[i].k + c[i].s * l;
    bool mv = l > neg;
    if (prop == "C03" && mv) {
      bool el = !plain(p.kind) && std::fabs(c[i].s) != p.sigma && c[i].s != 0;
      double sl = el ? 0.005 : 1e-9;
      s = std::max(s, (std::max(std::fabs(c[i].k), std::fabs(ke)) / p.kappa - 1) / sl);
      s = std::max(s, plain(p.kind) ? (c[i].s != 0 ? 1e9 : 0) : (std::fabs(c[i].s) / p.sigma - 1) / sl);
    }
    if (prop == "C04" && mv && !plain(p.kind)) {
      if (!std::isnan(kp) && !hybrid(p.kind)) s = std::max(s, std::fabs(c[i].k - kp) / (1e-6 * (1 + p.kappa)));
      kp = ke;
    }
    if (prop == "C04" && i > 0 && hybrid(p.kind) && sgn1(c[i].ds) == sgn1(c[i - 1].ds)) s = std::max(s, std::fabs(c[i].k - c[i - 1].k - c[i - 1].s * std::fabs(c[i - 1].ds)) / (general(p.kind) && (!mv || std::fabs(c[i - 1].ds) <= neg) ? 1.01e-4 : 1e-6 * (1 + p.kappa)));
    if (prop == "C06" && mv && oneway(p.kind) && (sgn1(c[i].ds) > 0) != p.fwd) s = std::max(s, l * 1e6);
  }
  if (prop == "C05") {
    if (std::hypot(q.a.x - q.b.x, q.a.y - q.b.y) <= 2e-4 && std::fabs(angd(q.a.th, q.b.th)) <= 2e-4) return 0;
    double ks = c.front().k, ke = c.back().k + c.back().s * std::fabs(c.back().ds), t = 1e-6 * (1 + p.kappa), tb = 1e-4 * (p.sigma + p.kappa) + 1.1e-4;
    auto b = [&](int rule, double k, double given) { return rule == 0 ? std::fabs(k) / t : rule == 1 ? std::fabs(std::fabs(k) - p.kappa) / t : rule == 2 ? std::fabs(k - given) / tb : 0.0; };
    int k = p.kind;
    int rs = general(k) ? 2 : (k == CC00D || k == CC0PMD || k == HC00 || k == HC0PM || k == CC00RS) ? 0 : plain(k) ? 3 : 1;
    int re = general(k) ? 2 : (k == CC00D || k == CCPM0D || k == HC00 || k == HCPM0 || k == CC00RS) ? 0 : plain(k) ? 3 : 1;
    s = std::max(b(rs, ks, q.a.k), b(re, ke, q.b.k));
  }
  return s;
}
static std::string record(Planner &pl, const Query &q, std::vector<Ct> &c, double &D) {
  mark(q);
  c = pl.controls(q.a, q.b); D = pl.distance(q.a, q.b);
  return "";
}
// directions of the states of the sampled path, and of the middle of each segment (C06)
struct Dirs { std::vector<double> path, mid; };
static Dirs dirs(Planner &pl, const Query &q, const std::vector<Ct> &c) {
  Dirs r; double L = plen(c), s = 0; mark(q);
  for (auto &x : pl.path(q.a, q.b)) r.path.push_back(x.d);
  for (auto &k : c) { double l = std::fabs(k.ds); r.mid.push_back(L > 0 ? pl.interpolate(q.a, c, (s + l / 2) / L).d : sgn1(k.ds)); s += l; }
  return r;
}
static double score_dirs(const Query &q, const std::vector<Ct> &c, const Dirs &d) {
  double neg = 1e-6 / std::max(q.p.kappa, 1.0); std::vector<double> x, y;
  for (auto &k : c) { if (std::fabs(k.ds) <= neg) return 0; if (x.empty() || x.back() != sgn1(k.ds)) x.push_back(sgn1(k.ds)); }
  for (double v : d.path) if (y.empty() || y.back() != v) y.push_back(v);
  for (size_t i = 0; i < c.size(); i++) if (d.mid[i] != sgn1(c[i].ds)) return 1e6;
  return x != y ? 1e6 : 0;
}
static std::string js(const Query &q, const std::vector<Ct> &c, double D, const Dirs &d = Dirs()) {
  J j; j.open(); jparams(j, q.p); j.key("a").st(q.a).key("b").st(q.b).key("D").num(D).key("c").cts(c).key("mode").in(q.mode);
  j.key("pd").nums(d.path.data(), (int)d.path.size()).key("md").nums(d.mid.data(), (int)d.mid.size()).close(); return j.s;
}
int main(int ac, char **av) {
  Args A(ac, av); std::string prop = A.s("prop", "C01"); W.load(A.s("words").c_str()); guard(A.s("crash", "/dev/null"));
  GenOpt o; o.kind = (int)A.n("kind", -1); o.mode = (int)A.n("mode", -1);
  if (A.s("replay") != "") {  // ask recorded queries again
    std::ofstream f(A.s("out", "/dev/stdout")); Current c0; cur() = &c0; alarm(60); signal(SIGALRM, on_signal);
    for (auto &r : read_cases(A.s("replay"))) { Query q = r.query(); std::vector<Ct> c; double D; PlannerP pl = make_sut(q.p); record(*pl, q, c, D); f << js(q, c, D) << "\n"; }
    return 0;
  }
  Keep keep((size_t)A.n("top", 25), (size_t)A.n("rnd", 60)); int T = (int)A.n("threads", 8);
  std::vector<Cache> cache(T);
  uint64_t n = search(A.n("secs", 8), (uint64_t)A.n("seed", 1), T, keep, [&](int t, Rng &g, Keep &k) {
    Query q = gen(g, W, o);
    std::vector<Ct> c; double D; record(cache[t].get(q.p), q, c, D);
    double sc = score(prop, q, c, D); Dirs d;
    if (prop == "C06") {
      if (!c.empty() && g.p(0.5)) { double L = plen(c); if (std::isfinite(L)) { Query u = q; u.p.disc = std::max(L / (10 + g.i(40)), 1e-3); PlannerP pl = make_sut(u.p); d = dirs(*pl, u, c); sc = std::max(sc, score_dirs(q, c, d)); } }
    }
    size_t slot; bool wr = k.wants_rnd(q.p.kind, g, slot), wt = k.wants(q.p.kind, sc);
    if (wr || wt) { std::string s = js(q, c, D, d); if (wt) k.add_top(q.p.kind, sc, s); if (wr) k.put_rnd(q.p.kind, slot, sc, s); }
  });
  double worst; size_t m = dump(keep, A.s("out", "/dev/stdout").c_str(), (uint64_t)A.n("seed", 1), &worst);
  printf("{\"queries\":%llu,\"cases\":%zu,\"worst\":%.6g", (unsigned long long)n, m, worst);
  if (A.n("verbose", 0) > 0) { printf(",\"by\":{"); for (auto &e : keep.top) { double w = 0; for (auto &i : e.second) w = std::max(w, i.score); printf("%s\"%s\":%.4g", e.first ? "," : "", kind_name(e.first), w); } printf("}"); }
  printf("}\n");
}
