// Explorer for C10 (symmetries) and C11 (hierarchy, monotonicity, additivity).
#include "common.hpp"
using namespace vh;
static Words W;
static double scale(const Params &p) { return 1 + 1 / p.kappa + (plain(p.kind) ? 0 : p.kappa / p.sigma); }
static int swapped(int k) { return k == CC0PMD ? CCPM0D : k == CCPM0D ? CC0PMD : k == HC0PM ? HCPM0 : k == HCPM0 ? HC0PM : k; }
struct Ask { Params p; St a, b; double D; std::vector<Ct> c; };
struct Item { std::string rel; std::vector<Ask> q; std::vector<double> par; std::vector<Ct> w; double sc; };
static double dist(Cache &c, const Params &p, const St &a, const St &b) {
  Query q; q.p = p; q.a = a; q.b = b; mark(q); return c.get(p).distance(a, b);
}
static Ask ask(Cache &c, const Params &p, const St &a, const St &b) { return {p, a, b, dist(c, p, a, b), {}}; }
// far from the absolute thresholds of the library
static bool resolvable(const Ask &x) {
  auto clear = [&](double v) { v = std::fabs(v); return v == 0 || v > 1e-3; };
  double sep = std::max(std::hypot(x.a.x - x.b.x, x.a.y - x.b.y), std::fabs(angd(x.a.th, x.b.th)));
  return x.p.kappa >= 0.05 && x.p.kappa <= 10 && clear(x.a.k) && clear(x.b.k) && clear(x.p.kappa - std::fabs(x.a.k)) && clear(x.p.kappa - std::fabs(x.b.k)) && sep > 0.02;
}
static const char *R10[] = {"move", "mirror", "alias", "scale", "swap", "flip"};
static const char *R11[] = {"euclid", "rs", "dubins", "general", "kappa", "split"};
static double tolD(const Params &p, double D) { return (plain(p.kind) ? 2e-5 : 2.4e-3) * scale(p) + 1e-6 * D; }
// one pair of related queries; par are the parameters of the relation
static Item relate(Rng &g, Cache &c, const Query &q, int r, const std::vector<double> &par, bool c10) {
  Item it; it.rel = c10 ? R10[r] : R11[r]; it.par = par; it.sc = 0;
  const Params &p = q.p; Ask x = ask(c, p, q.a, q.b), y = x; it.q.push_back(x);
  double f = 1;
  if (c10) {
    switch (r) {
      case 0: { double co = std::cos(par[0]), si = std::sin(par[0]); auto mv = [&](St s) { St t = s; t.x = par[1] + co * s.x - si * s.y; t.y = par[2] + si * s.x + co * s.y; t.th = s.th + par[0]; return t; }; y = ask(c, p, mv(q.a), mv(q.b)); } break;
      case 1: { auto mv = [&](St s) { s.y = -s.y; s.th = -s.th; s.k = -s.k; return s; }; y = ask(c, p, mv(q.a), mv(q.b)); } break;
      case 2: { St a = q.a, b = q.b; a.th += TPI * par[0]; b.th += TPI * par[1]; y = ask(c, p, a, b); } break;
      case 3: { f = par[0]; auto mv = [&](St s) { s.x *= f; s.y *= f; s.k /= f; return s; }; Params u = p; u.kappa /= f; u.sigma /= f * f; y = ask(c, u, mv(q.a), mv(q.b)); } break;
      case 4: { Params u = p; u.kind = swapped(p.kind); if (oneway(p.kind)) u.fwd = !u.fwd; y = ask(c, u, q.b, q.a); } break;
      case 5: { auto mv = [&](St s) { s.x = -s.x; s.th = -s.th; return s; }; Params u = p; if (oneway(p.kind)) u.fwd = !u.fwd; y = ask(c, u, mv(q.a), mv(q.b)); } break;
    }
    it.q.push_back(y); it.sc = std::fabs(y.D / f - x.D) / tolD(p, x.D);
    if (r == 3 && !(resolvable(x) && resolvable(y))) it.sc = 0;
    if ((r == 1 || r == 5) && it.sc > 0.5) {
      for (auto &k : it.q) k.c = c.get(k.p).controls(k.a, k.b);
      if (lopsided(it.q[x.D < y.D ? 0 : 1].c)) it.sc = 0.45;
    }
  } else {
    switch (r) {
      case 0: it.sc = (std::hypot(q.a.x - q.b.x, q.a.y - q.b.y) - x.D) / tolD(p, x.D); break;
      case 1: case 2: {  // the driven path ends at e; no path with this curvature may be shorter
        it.w = c.get(p).controls(q.a, q.b); St e = drive(q.a, it.w); double km = p.kappa; for (auto &k : it.w) km = std::max({km, std::fabs(k.k), std::fabs(k.k + k.s * std::fabs(k.ds))});
        Params u{r == 1 ? (int)RS : (int)DUBINS, km, 1, p.disc, p.fwd}; y = ask(c, u, q.a, e); it.q.push_back(y); it.sc = (y.D - plen(it.w)) / (1e-4 * scale(u) + 1e-6 * x.D);
      } break;
      case 3: { Params u = p; u.kind = (int)par[0]; St a = q.a, b = q.b; a.k = par[1] * p.kappa; b.k = par[2] * p.kappa; it.q[0] = x = ask(c, p, a, b); y = ask(c, u, a, b); it.q.push_back(y); it.sc = (x.D - y.D) / tolD(p, y.D); } break;
      case 4: { Params u = p; u.kappa *= par[0]; y = ask(c, u, q.a, q.b); it.q.push_back(y); it.sc = (y.D - x.D) / tolD(p, x.D); } break;
      case 5: { it.w = c.get(p).controls(q.a, q.b); St m = c.get(p).interpolate(q.a, it.w, par[0]); y = ask(c, p, q.a, m); Ask z = ask(c, p, m, q.b); it.q.push_back(y); it.q.push_back(z); it.sc = std::fabs(y.D + z.D - x.D) / tolD(p, x.D); } break;
    }
  }
  for (auto &k : it.q) if (!std::isfinite(k.D)) it.sc = 1e9;
  return it;
}
static Query moved(Rng &g, const Query &q) {
  Query r = q; double f = g.u(-PI_, PI_), dx = g.u(-3, 3), dy = g.u(-3, 3), c = std::cos(f), s = std::sin(f);
  auto mv = [&](St &p) { double x = p.x - q.a.x, y = p.y - q.a.y; p.x = dx + c * x - s * y; p.y = dy + s * x + c * y; p.th = std::remainder(p.th + f, TPI); };
  mv(r.a); mv(r.b); return r;
}
static Query stretched(Rng &g, const Query &q, std::vector<Ct> c) {
  Query r = q; bool any = false;
  for (auto &k : c) if (k.s == 0 && std::fabs(k.ds) > 1e-9) { k.ds *= 1 + g.sg() * g.u(0.003, 0.02); any = true; }
  if (!any) return moved(g, q);
  St e = drive(q.a, c); r.b.x = e.x; r.b.y = e.y; r.b.th = std::remainder(e.th, TPI); return r;
}
static Query jittered(Rng &g, const Query &q) {
  Query r = q; double f = 3e-3 / q.p.kappa; r.b.x += f * g.u(-1, 1); r.b.y += f * g.u(-1, 1); r.b.th += 3e-3 * g.u(-1, 1); return r;
}
static void json(J &j, const Item &it) {
  j.open().key("rel").str(it.rel).key("par").nums(it.par.data(), (int)it.par.size()).key("w").cts(it.w).key("q").s += '[';
  for (size_t i = 0; i < it.q.size(); i++) { if (i) j.s += ','; j.open(); jparams(j, it.q[i].p); j.key("a").st(it.q[i].a).key("b").st(it.q[i].b).key("D").num(it.q[i].D).key("c").cts(it.q[i].c).close(); }
  j.s += ']'; j.close();
}
int main(int ac, char **av) {
  Args A(ac, av); std::string prop = A.s("prop", "C10"); bool c10 = prop == "C10"; W.load(A.s("words").c_str()); guard(A.s("crash", "/dev/null"));
  GenOpt o; o.mode = (int)A.n("mode", -1); o.kind = (int)A.n("kind", -1); int only = (int)A.n("rel", -1);
  Keep keep((size_t)A.n("top", 25), (size_t)A.n("rnd", 60)); int T = (int)A.n("threads", 8);
  std::vector<Cache> cs(T);
  uint64_t n = search(A.n("secs", 8), (uint64_t)A.n("seed", 1), T, keep, [&](int t, Rng &g, Keep &k) {
    GenOpt oo = o; int r = only >= 0 ? only : g.i(6); std::vector<double> par; Cache &c = cs[t];
    if (!c10 && o.kind < 0) {
      if (r == 2) { static const int K[] = {CC00D, CC0PMD, CCPM0D, CCPMPMD, CCD}; oo.kind = K[g.i(5)]; }
      if (r == 3) oo.kind = g.p(0.5) ? CCD : HC;
      if (r >= 4) oo.kind = g.p(0.5) ? DUBINS : RS;
    }
    Query q = gen(g, W, oo); if (!c10 && r == 1 && q.p.kind == RS) r = 0;
    if (c10) { if (r == 0) par = {g.u(-PI_, PI_), g.u(-20, 20), g.u(-20, 20)}; if (r == 2) par = {(double)(g.i(5) - 2), (double)(g.i(5) - 2)}; if (r == 3) par = {g.p(0.5) ? std::exp2(g.i(7) - 3) : g.lu(0.1, 10)}; }
    else {
      if (r == 3) { int s = g.i(3) - 1, e = g.i(3) - 1; double kk = (q.p.kind == CCD ? CC00D : HC00) + (s ? 2 : 0) + (e ? 1 : 0); par = {kk, (double)s, (double)e}; }
      if (r == 4) par = {g.p(0.5) ? 1 + g.lu(1e-3, 1) : g.lu(1, 10)};
      if (r == 5) par = {g.u()};
    }
    std::vector<Item> l = {relate(g, c, q, r, par, c10)}; double sc = l[0].sc;
    // the lower bounds (euclid, rs, dubins) are absolute: a single case decides
    if (sc > 0.5 && (c10 ? q.p.kind != RS : r > 2)) {
      auto w = c.get(q.p).controls(q.a, q.b);
      for (int i = 0; i < 10 && sc > 0.5; i++) { l.push_back(relate(g, c, i < 2 ? moved(g, q) : i < 6 ? stretched(g, q, w) : jittered(g, q), r, par, c10)); sc = std::min(sc, l.back().sc); }
    }
    int cls = q.p.kind * 8 + r; size_t slot; bool wr = k.wants_rnd(cls, g, slot), wt = k.wants(cls, sc);
    if (wr || wt) {
      J j; j.open().key("l").s += '['; for (size_t i = 0; i < l.size(); i++) { if (i) j.s += ','; json(j, l[i]); } j.s += ']'; j.close();
      if (wt) k.add_top(cls, sc, j.s);
      if (wr) k.put_rnd(cls, slot, sc, j.s);
    }
  });
  double worst; size_t m = dump(keep, A.s("out", "/dev/stdout").c_str(), (uint64_t)A.n("seed", 1), &worst);
  printf("{\"queries\":%llu,\"cases\":%zu,\"worst\":%.6g", (unsigned long long)n, m, worst);
  if (A.n("verbose", 0) > 0) { printf(",\"by\":{"); for (auto &e : keep.top) { double w = 0; for (auto &i : e.second) w = std::max(w, i.score); printf("\n\"%s-%s\":%.4g,", kind_name(e.first / 8), c10 ? R10[e.first % 8] : R11[e.first % 8], w); } printf("}"); }
  printf("}\n");
}
