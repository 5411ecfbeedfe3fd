// Explorer for C07..C09: distances against the search guide (a committed copy of the library, used
// to rank and to propose witnesses only; the specification judges).
#include "common.hpp"
using namespace vh;
static Words W;
static double scale(const Params &p) { return 1 + 1 / p.kappa + (plain(p.kind) ? 0 : p.kappa / p.sigma); }
// class of a path: the sequence of its segment types
static int signature(const std::vector<Ct> &c) {
  unsigned h = 0;
  for (auto &k : c) { double l = std::fabs(k.ds), ke = k.k + k.s * l; int b = l < 1e-9 ? 0 : 1 + 9 * (k.k > 1e-9 ? 1 : k.k < -1e-9 ? 2 : 0) + 3 * (ke > 1e-9 ? 1 : ke < -1e-9 ? 2 : 0) + (k.ds > 0); h = h * 31 + b; }
  return (int)(h % 61);
}
struct One { Query q; double D, Dg; std::vector<Ct> w; bool mirror = false; };
static One ask(Cache &cs, Cache &cg, const Query &q) {
  One o; o.q = q; mark(q); o.D = cs.get(q.p).distance(q.a, q.b);
  Planner &g = cg.get(q.p, make_guide); o.Dg = g.distance(q.a, q.b);
  return o;
}
static double excess(const One &o) { double t = 1.2e-3 * scale(o.q.p) + 1e-6 * o.Dg; return std::isfinite(o.D) ? (o.D - o.Dg) / t : 1e9; }
static void one(J &j, const One &o) { j.open(); jparams(j, o.q.p); j.key("a").st(o.q.a).key("b").st(o.q.b).key("D").num(o.D).key("w").cts(o.w).key("src").str(o.mirror ? "mirror" : "direct").close(); }
// the same situation elsewhere, and with other lengths of its arcs and straight lines
static Query moved(Rng &g, const Query &q) {
  Query r = q; double f = g.u(-PI_, PI_), dx = g.u(-3, 3), dy = g.u(-3, 3), c = std::cos(f), s = std::sin(f);
  auto mv = [&](St &p) { double x = p.x - q.a.x, y = p.y - q.a.y; p.x = dx + c * x - s * y; p.y = dy + s * x + c * y; p.th = std::remainder(p.th + f, TPI); };
  mv(r.a); mv(r.b); return r;
}
static Query stretched(Rng &g, const Query &q, const std::vector<Ct> &w) {
  Query r = q; std::vector<Ct> c = w; bool any = false;
  for (auto &k : c) if (k.s == 0 && std::fabs(k.ds) > 1e-9) { k.ds *= 1 + g.sg() * g.u(0.003, 0.02); any = true; }
  if (!any) return moved(g, q);
  double kb = r.b.k, db = r.b.d; r.b = drive(q.a, c); r.b.k = kb; r.b.d = db; r.b.th = std::remainder(r.b.th, TPI); return r;
}
int main(int ac, char **av) {
  Args A(ac, av); std::string prop = A.s("prop", "C07"); W.load(A.s("words").c_str()); guard(A.s("crash", "/dev/null"));
  GenOpt o; o.mode = (int)A.n("mode", -1); o.kind = (int)A.n("kind", -1);
  Keep keep((size_t)A.n("top", 25), (size_t)A.n("rnd", 60)); int T = (int)A.n("threads", 8);
  std::vector<Cache> cs(T), cg(T);
  uint64_t n = search(A.n("secs", 8), (uint64_t)A.n("seed", 1), T, keep, [&](int t, Rng &g, Keep &k) {
    GenOpt oo = o; if (o.kind < 0) oo.kind = prop == "C07" ? DUBINS : prop == "C08" ? RS : CC00D + g.i(NKINDS - 2);
    Query q = gen(g, W, oo); One b = ask(cs[t], cg[t], q); Planner &gp = cg[t].get(q.p, make_guide);
    std::vector<Ct> gw = gp.controls(q.a, q.b); size_t slot; std::string js; double sc; int cls = signature(gw);
    if (prop != "C09") {
      b.w = q.word; J j; sc = std::fabs(b.D - b.Dg) / (1e-5 * scale(q.p));
      if (!std::isfinite(b.D)) sc = 1e9;
      if (q.word.size()) sc = std::max(sc, (b.D - plen(q.word)) / (1e-5 * scale(q.p)));
      bool wr = k.wants_rnd(cls, g, slot), wt = k.wants(0, sc);
      if (wr || wt) { one(j, b); if (wt) k.add_top(0, sc, j.s); if (wr) k.put_rnd(cls, slot, sc, j.s); }
      return;
    }
    if (g.p(0.1)) {  // a witness from the mirror image
      auto mv = [](St s) { s.y = -s.y; s.th = -s.th; s.k = -s.k; return s; }; std::vector<Ct> m = gp.controls(mv(q.a), mv(q.b));
      for (auto &c : m) { c.k = -c.k; c.s = -c.s; }
      if (q.p.kind >= HC00 && lopsided(m) && b.D - plen(m) > 2e-3 * scale(q.p) && k.wants_rnd(64 * q.p.kind + 63, g, slot)) { b.mirror = true; b.w = m; J j; j.open().key("l").s += '['; one(j, b); j.s += ']'; j.close(); k.put_rnd(64 * q.p.kind + 63, slot, 0, j.s); return; }
    }
    cls += 64 * q.p.kind; sc = excess(b); b.w = gw;
    std::vector<One> l = {b};
    if (sc > 0.5) {
      for (int i = 0; i < 7; i++) {
        One e = ask(cs[t], cg[t], i < 3 ? moved(g, q) : stretched(g, q, gw)); e.w = cg[t].get(q.p, make_guide).controls(e.q.a, e.q.b);
        sc = std::min(sc, excess(e)); l.push_back(e); if (sc < 0.5) break;
      }
    }
    bool wr = k.wants_rnd(cls, g, slot), wt = k.wants(q.p.kind * 64, sc);
    if (wr || wt) {
      J j; j.open().key("l").s += '['; for (size_t i = 0; i < l.size(); i++) { if (i) j.s += ','; one(j, l[i]); } j.s += ']'; j.close();
      if (wt) k.add_top(q.p.kind * 64, sc, j.s);
      if (wr) k.put_rnd(cls, slot, sc, j.s);
    }
  });
  double worst; size_t m = dump(keep, A.s("out", "/dev/stdout").c_str(), (uint64_t)A.n("seed", 1), &worst);
  printf("{\"queries\":%llu,\"cases\":%zu,\"classes\":%zu,\"worst\":%.6g}\n", (unsigned long long)n, m, keep.rnd.size(), worst);
}
