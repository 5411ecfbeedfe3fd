// Explorer for C17 (geometric primitives), C18 (turns) and C19 (motion Jacobians).
#include "common.hpp"
using namespace vh;
static const Prims &P = prims_sut;
static double any_angle(Rng &g) {
  switch (g.i(6)) {
    case 0: return (g.i(41) - 20) * PI_ / 4;
    case 1: return (g.i(41) - 20) * PI_ / 2 + g.sg() * g.lu(1e-17, 1e-3);
    case 2: return g.sg() * (g.p(0.7) ? g.lu(1e-18, 1e4) : g.lu(1e4, 1e14));
    case 3: return g.u(-1000, 1000);
    default: return g.u(-7, 7);
  }
}
static double fres_arg(Rng &g) {
  double sw = std::sqrt(8 / (PI_ / 2));  // switch point of the approximation
  switch (g.i(6)) {
    case 0: return g.sg() * (sw + g.sg() * g.lu(1e-16, 1e-2));
    case 1: return g.sg() * g.lu(1e-12, 1);
    case 2: return g.sg() * g.lu(1, 60);
    case 3: return 0;
    default: return g.u(-6, 6);
  }
}
struct Out { std::string js; double sc; int cls; };
static Out prim(Rng &g) {
  int op = g.i(10); std::vector<double> in, out(1); std::string name; double sc = 0;
  St a{g.p(0.3) ? 0 : g.u(-50, 50), g.p(0.3) ? 0 : g.u(-50, 50), g.p(0.2) ? 0 : any_angle(g), 0, 0};
  if (std::fabs(a.th) > 50) a.th = std::remainder(a.th, TPI);
  double d = g.sg(), l = g.p(0.1) ? 0 : g.lu(1e-6, 30), k = g.p(0.2) ? 0 : g.p(0.3) ? g.sg() * g.lu(2e-4, 1) : g.u(-5, 5), s = g.p(0.3) ? g.sg() * g.lu(1e-5, 1) : g.u(-6, 6); if (s == 0) s = 1;
  if (std::fabs(s) * l * l > 100) l = std::sqrt(100 / std::fabs(s));
  auto cmp = [&](double x, double y, double t) { sc = std::max(sc, std::isfinite(x) ? std::fabs(x - y) / t : 1e9); };
  switch (op) {
    case 0: { double x = any_angle(g); name = "twopify"; in = {x}; out = {P.twopify(x)}; cmp(angd(out[0], x), 0, 1e-12 * (1 + std::fabs(x))); if (out[0] < -1e-15 * std::fabs(x) || out[0] > TPI + 1e-15 * std::fabs(x)) sc = 1e9; } break;
    case 1: { double x = any_angle(g); name = "pify"; in = {x}; out = {P.pify(x)}; cmp(angd(out[0], x), 0, 1e-12 * (1 + std::fabs(x))); if (std::fabs(out[0]) > PI_ * (1 + 1e-15) + 1e-15 * std::fabs(x)) sc = 1e9; } break;
    case 2: { double x = fres_arg(g), S, C, S2, C2; name = "fresnel"; P.fresnel(x, S, C); in = {x}; out = {S, C}; quad(0, 0, PI_ / 2, std::fabs(x), C2, S2); cmp(S, sgn1(x) * S2, 1e-9); cmp(C, sgn1(x) * C2, 1e-9); } break;
    case 3: case 4: { name = "clothoid"; out.resize(4); P.clothoid(a.x, a.y, a.th, k, s, d, l, out.data()); in = {a.x, a.y, a.th, k, s, d, l}; double x = a.x, y = a.y, t = a.th; move_by(x, y, t, Ct{d * l, k, s}, l);
      double w = 1e-8 * (1 + k * k / std::fabs(s) * 1e-4); cmp(out[0], x, w * (1 + l)); cmp(out[1], y, w * (1 + l)); cmp(angd(out[2], t), 0, 1e-9); cmp(out[3], k + s * l, 1e-9); } break;
    case 5: { name = "arc"; if (k == 0) k = 1; out.resize(3); P.arc(a.x, a.y, a.th, k, d, l, out.data()); in = {a.x, a.y, a.th, k, d, l}; double x = a.x, y = a.y, t = a.th; move_by(x, y, t, Ct{d * l, k, 0}, l); cmp(out[0], x, 1e-9); cmp(out[1], y, 1e-9); cmp(angd(out[2], t), 0, 1e-9); } break;
    case 6: { name = "line"; out.resize(2); P.line(a.x, a.y, a.th, d, l, out.data()); in = {a.x, a.y, a.th, d, l}; cmp(out[0], a.x + d * l * std::cos(a.th), 1e-9); cmp(out[1], a.y + d * l * std::sin(a.th), 1e-9); } break;
    case 7: { name = "frames"; double u = g.u(-20, 20), v = g.u(-20, 20); out.resize(6); P.toglobal(a.x, a.y, a.th, u, v, out.data()); P.tolocal(a.x, a.y, a.th, out[0], out[1], out.data() + 2); P.tolocal(a.x, a.y, a.th, u, v, out.data() + 4); in = {a.x, a.y, a.th, u, v}; cmp(out[2], u, 1e-9); cmp(out[3], v, 1e-9); } break;
    case 8: { name = "distance"; double u = g.u(-20, 20), v = g.p(0.2) ? a.y : g.u(-20, 20); in = {a.x, a.y, u, v}; out = {P.dist(a.x, a.y, u, v)}; cmp(out[0], std::hypot(u - a.x, v - a.y), 1e-9); } break;
    case 9: { name = "polar"; double r, t; P.polar(a.x, a.y, r, t); in = {a.x, a.y}; out = {r, t}; cmp(r * std::cos(t), a.x, 1e-9); cmp(r * std::sin(t), a.y, 1e-9); } break;
  }
  J j; j.open(); j.key("op").str(name).key("in").nums(in.data(), (int)in.size()).key("out").nums(out.data(), (int)out.size()).close();
  return {j.s, sc, op};
}
// goal on the circle of a turn, in the frame of its start with left = forward = true
static Out turn(Rng &g) {
  Params p = gen_params(g, CC00D); int type = g.i(3); bool left = g.p(0.5), fwd = g.p(0.5), reg = g.p(0.6), order = g.p(0.5);
  double k = p.kappa, s = p.sigma; Circ c = circ(k, s); if (type == 0) c = Circ{1 / k, 0, 0};
  double delta;
  double special[] = {0, PI_, c.dmin, 2 * c.dmin, 4.5948, PI_ / 2, PI_ + c.dmin, PI_ + 2 * c.dmin, 1e-4};
  switch (g.i(5)) {
    case 0: delta = special[g.i(9)]; break;
    case 1: delta = special[g.i(9)] + g.sg() * g.lu(1e-9, 1e-2); break;
    case 2: delta = g.lu(1e-6, TPI); break;
    default: delta = g.u(0, TPI); break;
  }
  delta -= TPI * std::floor(delta / TPI); if (delta > TPI - 1e-5) delta = 0;
  double gx, gy, gt = delta;
  if (type == 2) { gx = c.R * std::sin(c.mu) + c.R * std::sin(delta + c.mu); gy = c.R * std::cos(c.mu) - c.R * std::cos(delta + c.mu); }
  else { double mx = type == 0 ? 0 : c.R * std::sin(c.mu), my = type == 0 ? 1 / k : c.R * std::cos(c.mu); gx = mx + std::sin(delta) / k; gy = my - std::cos(delta) / k; }
  if (!left) { gy = -gy; gt = -gt; }
  if (!fwd) { gx = -gx; gt = -gt; }
  double rot = left ? 1 : -1;
  St a{g.p(0.4) ? 0 : g.u(-9, 9), g.p(0.4) ? 0 : g.u(-9, 9), g.p(0.4) ? 0 : g.u(-PI_, TPI), type == 0 ? rot * k : 0, 0};
  double ca = std::cos(a.th), sa = std::sin(a.th);
  St b{a.x + ca * gx - sa * gy, a.y + sa * gx + ca * gy, a.th + gt, type == 2 ? 0 : rot * k, 0}; if (g.p(0.3)) b.th -= TPI;
  double ac[4] = {a.x, a.y, a.th, a.k}, bc[4] = {b.x, b.y, b.th, b.k}; std::vector<Ct> cs;
  { J j; j.open(); jparams(j, p); j.key("a").st(a).key("b").st(b).key("type").in(type).close(); if (cur()) { cur()->js = j.s; cur()->t0 = now(); } }
  double len = P.turn(type, k, s, ac, left, fwd, reg, bc, order, cs);
  St e = drive(order ? a : b, cs); const St &t = order ? b : a; double L = plen(cs);
  double tol = delta < 1.01e-4 ? 1.5e-4 : 1.2e-6, sc = std::max({std::hypot(e.x - t.x, e.y - t.y) / (tol * (1 + c.R + L)), std::fabs(angd(e.th, t.th)) / tol, std::fabs(L - len) / (tol * (1 + c.R + L))});
  J j; j.open(); static const char *TN[] = {"rs", "hc", "cc"};
  j.key("type").str(TN[type]).key("kap").num(k).key("sig").num(s).key("left").bo(left).key("fwd").bo(fwd).key("regular").bo(reg).key("order").bo(order).key("delta").num(delta).key("R").num(c.R).key("a").st(a).key("b").st(b).key("len").num(len).key("c").cts(cs).close();
  return {j.s, sc, type * 4 + reg * 2 + order};
}
static Out jac(Rng &g) {
  St a{g.u(-9, 9), g.u(-9, 9), g.p(0.2) ? 0 : g.u(-7, 7), g.p(0.25) ? 0 : g.p(0.3) ? g.sg() * g.lu(1.5e-4, 1) : g.u(-3, 3), 1};
  double l = g.lu(1e-3, 2); Ct c{g.sg() * l * g.u(1, 5), a.k, g.p(0.3) ? 0 : g.p(0.3) ? g.sg() * g.lu(1.5e-3, 1) : g.u(-3, 3)};
  if (g.p(0.2)) c.k = g.u(-1, 1);  // the curvature of the state counts, not that of the segment
  double fx[9], fu[6]; P.jac(a, c, l, fx, fu);
  double d = sgn1(c.ds), x = a.x, y = a.y, t = a.th; move_by(x, y, t, Ct{c.ds, a.k, c.s}, l);
  // numeric derivative with respect to the curvature, for ranking only
  auto f = [&](double k, double *o) { double u = a.x, v = a.y, w = a.th; move_by(u, v, w, Ct{c.ds, k, c.s}, l); o[0] = u; o[1] = v; };
  double hp[2], hm[2], h = 1e-4; f(a.k + h, hp); f(a.k - h, hm);
  bool st = std::fabs(a.k) < 1.1e-4 && std::fabs(c.s) < 1.1e-4;
  double sm = (std::fabs(c.s) <= 1.01e-4 ? std::fabs(c.s) : 0) + (std::fabs(a.k) <= 1.01e-4 ? std::fabs(a.k) : 0), tl = 1e-6 * (1 + l * l) + 2 * sm * (1 + l + l * l * l * l);
  double sc = 0; auto cmp = [&](double u, double v) { sc = std::max(sc, std::isfinite(u) ? std::fabs(u - v) / tl : 1e9); };
  cmp(fx[2], -(y - a.y)); cmp(fx[5], x - a.x); cmp(fx[0], 1); cmp(fx[4], 1); cmp(fx[8], 1); cmp(fx[1], 0); cmp(fx[3], 0); cmp(fx[6], 0); cmp(fx[7], 0);
  cmp(fu[0], std::cos(t)); cmp(fu[2], std::sin(t)); cmp(fu[4], a.k + c.s * l); cmp(fu[5], d * l);
  if (!st) { cmp(fu[1], (hp[0] - hm[0]) / 2 / h); cmp(fu[3], (hp[1] - hm[1]) / 2 / h); }
  J j; j.open(); j.key("a").st(a).key("c").nums(&c.ds, 3).key("u").num(l).key("fx").nums(fx, 9).key("fu").nums(fu, 6).close();
  return {j.s, sc, (c.s != 0 ? 0 : a.k != 0 ? 1 : 2)};
}
// C20: algebra of controls, coincidence tests
static double span(Rng &g) { switch (g.i(5)) { case 0: return 0; case 1: return g.lu(1e-9, 0.95e-4); case 2: return 1.05e-4 + g.lu(1e-9, 1e-2); case 3: return g.lu(1.05e-4, 10); default: return g.lu(1e-12, 1e-5); } }
static Out algebra(Rng &g) {
  int op = g.i(5); J j; j.open(); double sc = 0;
  St a{g.p(0.3) ? 0 : g.u(-50, 50), g.p(0.3) ? 0 : g.u(-50, 50), g.p(0.2) ? 0 : g.p(0.3) ? (g.i(25) - 12) * PI_ / 4 : g.u(-7, 7), 0, 0};
  auto pose = [&](const St &p, const St &q, double t) { sc = std::max(sc, std::max(std::hypot(p.x - q.x, p.y - q.y), std::fabs(angd(p.th, q.th))) / t); if (!std::isfinite(p.x + q.x + p.th + q.th)) sc = 1e9; };
  auto ctl = [&] { double l = g.p(0.1) ? 0 : g.lu(1e-4, 8), k = g.p(0.2) ? 0 : g.u(-2, 2), s = g.p(0.3) ? 0 : g.p(0.3) ? g.sg() * g.lu(1e-6, 1) : g.u(-2, 2); return Ct{g.sg() * l, k, s}; };
  if (op == 0) { Ct c = ctl(), r = P.reverse(c); St e = drive(a, {c, r}); pose(e, a, 1e-8); sc = std::max({sc, std::fabs(r.k - c.k - c.s * std::fabs(c.ds)) * 1e8, std::fabs(r.k + r.s * std::fabs(r.ds) - c.k) * 1e8});
    j.key("op").str("reverse").key("a").st(a).key("c").nums(&c.ds, 3).key("r").nums(&r.ds, 3); }
  else if (op == 1) { Ct c = ctl(), e; e.ds = g.sg() * (g.p(0.1) ? std::fabs(c.ds) : g.lu(1e-4, 8)); e.s = sgn1(c.ds) * sgn1(e.ds) * c.s; e.k = c.k + c.s * std::fabs(c.ds) - e.s * std::fabs(e.ds);
    Ct r = P.subtract(c, e), er{-e.ds, e.k + e.s * std::fabs(e.ds), -e.s}; pose(drive(a, {r}), drive(a, {c, er}), 1e-7);
    j.key("op").str("subtract").key("a").st(a).key("c").nums(&c.ds, 3).key("e").nums(&e.ds, 3).key("r").nums(&r.ds, 3); }
  else if (op == 2) { a.k = g.u(-2, 2); St b = a; double e = span(g), al = g.p(0.3) ? a.th + (g.p(0.3) ? PI_ : 0) : g.p(0.2) ? g.i(4) * PI_ / 2 : g.u(-PI_, PI_), t = g.p(0.5) ? 0 : g.sg() * span(g);
    b.x += e * std::cos(al); b.y += e * std::sin(al); b.th += t; b.k += g.p(0.5) ? 0 : g.sg() * span(g); if (g.p(0.5)) b.th += TPI * (g.i(5) - 2); if (g.p(0.1)) { a.th = PI_ + t / 2; b.th = -PI_ - t / 2; }
    bool o[6]; P.equal(a, b, o); P.equal(b, a, o + 3); double dk = std::fabs(b.k - a.k), dt = std::fabs(angd(b.th, a.th)), dd = std::hypot(b.x - a.x, b.y - a.y), m = std::max({dk, dt, dd});
    double ah = std::fabs(angd(std::atan2(b.y - a.y, b.x - a.x), a.th)); bool al2 = dt <= 1e-4 && ah <= 1e-4;
    if (std::fabs(m - 1e-4) > 1e-6) for (int i : {0, 1, 3, 4}) if (o[i] != (m < 1e-4)) sc = 10;
    if (dd > 1e-6 && std::fabs(dt - 1e-4) > 1e-6 && std::fabs(ah - 1e-4) > 1e-6 && o[2] != al2) sc = 10;
    j.key("op").str("equal").key("a").st(a).key("b").st(b).key("o").s += '['; for (int i = 0; i < 6; i++) j.s += std::string(i ? "," : "") + (o[i] ? "true" : "false"); j.s += ']'; }
  else if (op == 3) { Params p = gen_params(g, CC00D); int type = g.i(2) * 2; bool left = g.p(0.5), fwd = g.p(0.5); double k = p.kappa; Circ c = circ(k, p.sigma); if (type == 0) c = Circ{1 / k, 0, 0};
    double de = g.p(0.2) ? g.i(13) * PI_ / 6 : g.u(0, TPI), gx = c.R * (std::sin(c.mu) + std::sin(de + c.mu)), gy = c.R * (std::cos(c.mu) - std::cos(de + c.mu)), gt = de;
    if (!left) { gy = -gy; gt = -gt; } if (!fwd) { gx = -gx; gt = -gt; }
    St b = rel(a, gx, gy, gt); double off = g.p(0.5) ? 0 : g.sg() * (2e-4 + g.lu(1e-5, 1)), tw = g.p(0.6) ? 0 : g.sg() * (2e-4 + g.lu(1e-5, 1));
    double cx = left ? 1 : -1, mx = (fwd ? 1 : -1) * c.R * std::sin(c.mu), my = cx * c.R * std::cos(c.mu); St ce = rel(a, mx, my, 0); double ph = std::atan2(b.y - ce.y, b.x - ce.x); b.x += off * std::cos(ph); b.y += off * std::sin(ph); b.th += tw; if (g.p(0.3)) b.th += TPI * (g.i(5) - 2);
    double o[5]; bool on = P.oncircle(type, k, p.sigma, a, left, fwd, b, o); bool want = off == 0 && tw == 0; if (off + c.R < 0) want = on;
    sc = std::max({on != want ? 10.0 : 0.0, std::hypot(o[0] - ce.x, o[1] - ce.y) / (1e-6 * (1 + c.R)), std::fabs(o[2] - c.R) / (1e-6 * (1 + c.R)), std::fabs(o[3] - c.mu) / 1e-6});
    j.key("op").str("circle").key("type").in(type).key("kap").num(k).key("sig").num(p.sigma).key("left").bo(left).key("fwd").bo(fwd).key("a").st(a).key("b").st(b).key("on").bo(on).key("o").nums(o, 5); }
  else { int n = 1 + g.i(9); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(g.p(0.2) ? 1e308 : g.p(0.3) ? g.i(4) - 1.0 : g.u(-50, 50)); if (g.p(0.1)) v.assign(n, g.p(0.5) ? 1.7976931348623157e308 : 0);
    int k = P.argmin(v.data(), n); bool ok = k >= 0 && k < n; if (ok) for (double x : v) ok = ok && v[k] <= x; sc = ok ? 0 : 10;
    j.key("op").str("argmin").key("v").nums(v.data(), n).key("i").in(k); }
  j.close(); return {j.s, sc, op};
}
int main(int ac, char **av) {
  Args A(ac, av); std::string prop = A.s("prop", "C17"); guard(A.s("crash", "/dev/null"));
  Keep keep((size_t)A.n("top", 25), (size_t)A.n("rnd", 60));
  uint64_t n = search(A.n("secs", 5), (uint64_t)A.n("seed", 1), (int)A.n("threads", 8), keep, [&](int, Rng &g, Keep &k) {
    Out o = prop == "C17" ? prim(g) : prop == "C18" ? turn(g) : prop == "C20" ? algebra(g) : jac(g); size_t slot;
    bool wr = k.wants_rnd(o.cls, g, slot), wt = k.wants(o.cls, o.sc);
    if (wt) k.add_top(o.cls, o.sc, o.js);
    if (wr) k.put_rnd(o.cls, slot, o.sc, o.js);
  });
  double worst; size_t m = dump(keep, A.s("out", "/dev/stdout").c_str(), (uint64_t)A.n("seed", 1), &worst);
  printf("{\"queries\":%llu,\"cases\":%zu,\"worst\":%.6g", (unsigned long long)n, m, worst);
  if (A.n("verbose", 0) > 0) { printf(",\"by\":{"); for (auto &e : keep.top) { double w = 0; for (auto &i : e.second) w = std::max(w, i.score); printf("%s\"%d\":%.4g", e.first ? "," : "", e.first, w); } printf("}"); }
  printf("}\n");
}
