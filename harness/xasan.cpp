// C16: queries in a build that checks every address (stack, globals, heap); memory in use after each repetition.
#include "common.hpp"
#include <sys/wait.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vh;
static Words W;
static void all(const Planner &p, const Query &q, double t) {
  p.distance(q.a, q.b); auto c = p.controls(q.a, q.b); p.path(q.a, q.b); if (!c.empty()) p.interpolate(q.a, c, t);
  StCov s; memset(&s, 0, sizeof s); s.st = q.a; for (int i = 0; i < 3; i++) s.Sigma[5 * i] = s.cov[5 * i] = 0.01; p.path_cov(s, q.b);
}
static int worker(const Args &A, int t0_, const std::string &out) {
  W.load(A.s("words").c_str()); guard(A.s("crash", "/dev/null")); static Current c; cur() = &c;
  double secs = A.n("secs", 8), t0 = now(); std::ofstream f(out); size_t rnd = (size_t)A.n("rnd", 300), kept = 0, sus = 0; uint64_t n = 0; Rng g((uint64_t)A.n("seed", 1) * 7919 + 31 * t0_ + 5);
  Noise z{.1, .1, .1, .1, .1, .1, .1, 1, 1, 1};
  while (now() - t0 < secs) {
    Query q = gen(g, W); double l = std::hypot(q.a.x - q.b.x, q.a.y - q.b.y) + 20 / q.p.kappa; q.p.disc = std::max(q.p.disc, l / 40); mark(q); n++;
    long lv[4]; double t = g.u(-0.1, 1.1);
    for (int i = 0; i < 4; i++) {  // the first repetition may fill tables
      { PlannerP p = make_sut(q.p); p->filter(z); all(*p, q, t); if (i % 2 == 1 && plain(q.p.kind)) { PlannerP r = p->clone(); if (r) { p.reset(); all(*r, q, t); } } if (i >= 2 && p) all(*p, q, t); }
      lv[i] = (long)__sanitizer_get_current_allocated_bytes();
    }
    bool bad = lv[2] != lv[1] || lv[3] != lv[2]; sus += bad;
    if (bad ? sus < 50 : kept < rnd) { kept += !bad; J j; j.open(); jparams(j, q.p); j.key("a").st(q.a).key("b").st(q.b).key("ev").s += '['; for (int i = 1; i < 4; i++) { char t[60]; snprintf(t, sizeof t, "%s[6,%ld,0,0]", i > 1 ? "," : "", lv[i] - lv[1] + 1000000); j.s += t; } j.s += ']'; j.close(); f << j.s << "\n"; f.flush(); }
    // the bookkeeping above does not count
  }
  c.t0 = 0; std::ofstream m(out + ".n"); m << n << " " << sus << "\n"; return 0;
}
int main(int ac, char **av) {
  Args A(ac, av); int T = (int)A.n("threads", 8), rc = 0; std::string out = A.s("out", "/dev/stdout"); std::vector<pid_t> ps;
  for (int t = 0; t < T; t++) { pid_t p = fork(); if (p == 0) _exit(worker(A, t, out + "." + std::to_string(t))); ps.push_back(p); }
  for (auto p : ps) { int st; waitpid(p, &st, 0); int r = WIFEXITED(st) ? WEXITSTATUS(st) : 47; if (r && (!rc || r == 42 || r == 43)) rc = r; }
  if (rc) return rc;
  std::ofstream f(out); unsigned long long n = 0, bad = 0; size_t cases = 0;
  for (int t = 0; t < T; t++) { std::string p = out + "." + std::to_string(t), l; std::ifstream i(p); while (std::getline(i, l)) { f << l << "\n"; cases++; } std::ifstream m(p + ".n"); unsigned long long a, b; m >> a >> b; n += a; bad += b; remove(p.c_str()); remove((p + ".n").c_str()); }
  printf("{\"queries\":%llu,\"cases\":%zu,\"suspicious\":%llu,\"worst\":%llu}\n", n, cases, bad, bad);
}
