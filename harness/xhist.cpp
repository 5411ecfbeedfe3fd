// Replays histories enumerated by History.tla into the real planners.
//   --mode pure: answers, compared with those of a pristine process (C15)
//   --mode race: memory shared with other queries, library built with the recording hooks (C15)
//   --mode own : allocations, releases and uses of heap blocks (C16), same build
#include "common.hpp"
#include "rec.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
static Words W;
typedef std::vector<double> Ans;
struct Op { char c; int s, x; };
struct Hist { std::vector<Op> v; bool copies = false, assigns = false; };
struct Bind { Params p[2]; Noise n[3]; St a[2], b[2]; double t[2]; int rel; };
struct Req { Params p; int f; Noise n; St a, b; int o; double t; };
enum { O_DIST, O_CTRL, O_PATH, O_COV, O_INTER, NO };
static const char *ON[] = {"distance", "controls", "path", "covariance", "interpolate"};
static Ans answer(const Planner &pl, const St &a, const St &b, int o, double t) {
  Ans r;
  switch (o) {
    case O_DIST: r.push_back(pl.distance(a, b)); break;
    case O_CTRL: for (auto &c : pl.controls(a, b)) { r.push_back(c.ds); r.push_back(c.k); r.push_back(c.s); } break;
    case O_PATH: for (auto &s : pl.path(a, b)) { r.push_back(s.x); r.push_back(s.y); r.push_back(s.th); r.push_back(s.k); r.push_back(s.d); } break;
    case O_COV: { StCov c; memset(&c, 0, sizeof c); c.st = a; for (int i = 0; i < 3; i++) c.Sigma[5 * i] = 0.01 * (i + 1), c.Lambda[5 * i] = 0.02, c.cov[5 * i] = c.Sigma[5 * i] + 0.02;
      for (auto &s : pl.path_cov(c, b)) { r.push_back(s.st.x); r.push_back(s.st.y); r.push_back(s.st.th); r.push_back(s.st.k); r.push_back(s.st.d); for (int i = 0; i < 16; i++) if (i % 4 < 3 && i < 12) { r.push_back(s.Sigma[i]); r.push_back(s.Lambda[i]); r.push_back(s.cov[i]); } } } break;
    case O_INTER: { auto c = pl.controls(a, b); if (c.empty()) break; St s = pl.interpolate(a, c, t); r = {s.x, s.y, s.th, s.k, s.d}; } break;
  }
  return r;
}
// ---- a process in which nothing has happened yet answers single queries
struct Zygote {
  int to = -1, from = -1;
  static bool rd(int f, void *p, size_t n) { char *q = (char *)p; while (n) { ssize_t k = read(f, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
  static void wr(int f, const void *p, size_t n) { const char *q = (const char *)p; while (n) { ssize_t k = write(f, q, n); if (k <= 0) _exit(1); q += k; n -= k; } }
  void start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) exit(3);
    if (fork() == 0) {
      close(a[1]); close(b[0]); Req q;
      while (rd(a[0], &q, sizeof q)) {
        pid_t c = fork();
        if (c == 0) {
          alarm(60); PlannerP pl = make_sut(q.p); if (q.f) pl->filter(q.n);
          Ans r = answer(*pl, q.a, q.b, q.o, q.t); long n = (long)r.size(); wr(b[1], &n, sizeof n); wr(b[1], r.data(), n * 8); _exit(0);
        }
        int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { long n = -1; wr(b[1], &n, sizeof n); }
      }
      _exit(0);
    }
    close(a[0]); close(b[1]); to = a[1]; from = b[0];
  }
  Ans ask(const Req &q) { wr(to, &q, sizeof q); long n; Ans r; if (!rd(from, &n, sizeof n)) _exit(45); if (n < 0) return {NAN}; r.resize(n); rd(from, r.data(), n * 8); return r; }
};
// ---- bindings
static Noise noise(Rng &g, int kind) {
  Noise n{0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; (void)kind;
  if (g.p(0.8)) { n.a1 = g.u(0, .2); n.a2 = g.u(0, .2); n.a3 = g.u(0, .2); n.a4 = g.u(0, .2); }
  n.sx = g.u(.01, .3); n.sy = g.u(.01, .3); n.sth = g.u(.01, .3); n.k1 = g.u(.2, 2); n.k2 = g.u(.2, 2); n.k3 = g.u(.2, 2); return n;
}
static Bind bind(Rng &g, bool copies, bool assigns) {
  Bind d; GenOpt o; if (copies || assigns) o.kind = g.p(0.5) ? DUBINS : RS;
  Query q = gen(g, W, o), r; d.p[0] = q.p; d.a[0] = q.a; d.b[0] = q.b; GenOpt o2; o2.kind = assigns || g.p(0.6) ? q.p.kind : copies ? (g.p(0.5) ? DUBINS : RS) : -1; r = gen(g, W, o2);
  d.p[1] = r.p;
  if (d.p[1].kind == d.p[0].kind) {  // parameter sets that share part of their values
    switch (g.i(5)) { case 0: d.p[1] = d.p[0]; d.p[1].kappa *= g.p(0.3) ? 1 + 1e-5 : g.u(0.5, 2); break; case 1: d.p[1] = d.p[0]; d.p[1].sigma *= g.u(0.5, 2); break;
      case 2: d.p[1] = d.p[0]; d.p[1].fwd = oneway(q.p.kind) ? !q.p.fwd : true; break; case 3: d.p[1] = d.p[0]; d.p[1].disc *= g.u(0.5, 2); break; }
  }
  d.rel = g.i(8); d.a[1] = q.a; d.b[1] = q.b;
  auto near = [&](St &s, double e) { switch (g.i(4)) { case 0: s.x += e; break; case 1: s.y += e; break; case 2: s.th += e; break; default: s.k = std::max(-d.p[0].kappa, std::min(d.p[0].kappa, s.k + e)); } };
  switch (d.rel) {
    case 0: d.a[1] = r.a; d.b[1] = r.b; break;
    case 1: std::swap(d.a[1], d.b[1]); break;
    case 2: near(g.p(0.5) ? d.a[1] : d.b[1], g.sg() * g.lu(1e-9, 1e-1)); break;
    case 3: { St &s = g.p(0.5) ? d.a[1] : d.b[1]; s.k = g.p(0.5) ? -s.k : bcurv(g, d.p[0]); } break;
    case 4: (g.p(0.5) ? d.a[1] : d.b[1]).th += TPI * g.sg(); break;
    case 5: d.b[1] = r.b; break;
    case 6: d.a[1] = r.a; break;
    case 7: { auto mi = [](St &s) { s.y = -s.y; s.th = -s.th; s.k = -s.k; }; mi(d.a[1]); mi(d.b[1]); } break;
  }
  for (int i = 0; i < 2; i++) { double l = std::hypot(d.a[0].x - d.b[0].x, d.a[0].y - d.b[0].y) + std::hypot(d.a[1].x - d.b[1].x, d.a[1].y - d.b[1].y) + 10 / d.p[i].kappa; d.p[i].disc = std::max(d.p[i].disc, l / 60); d.t[i] = g.p(0.3) ? 0 : g.p(0.1) ? 1 : g.u(); }
  double km = std::min(d.p[0].kappa, d.p[1].kappa); for (int i = 0; i < 2; i++) for (St *x : {&d.a[i], &d.b[i]}) x->k = std::max(-km, std::min(km, x->k));  // within the limits of both
  d.n[0] = Noise(); for (int i = 1; i < 3; i++) d.n[i] = noise(g, q.p.kind);
  if (d.t[1] != 0 && g.p(0.5)) d.t[1] = d.t[0];
  return d;
}
static void jbind(J &j, const Bind &d) {
  for (int i = 0; i < 2; i++) { std::string s = std::to_string(i + 1); j.key(("p" + s).c_str()).open(); jparams(j, d.p[i]); j.close(); j.key(("a" + s).c_str()).st(d.a[i]).key(("b" + s).c_str()).st(d.b[i]).key(("t" + s).c_str()).num(d.t[i]); }
}
static void mark_bind(const Bind &d, const std::string &what) { if (!cur()) return; J j; j.open().key("what").str(what); jbind(j, d); j.close(); cur()->js = j.s; cur()->t0 = now(); }
static bool same(const Ans &a, const Ans &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 8) == 0); }
struct Ids { std::vector<Ans> v; int of(const Ans &a) { for (size_t i = 0; i < v.size(); i++) if (same(v[i], a)) return (int)i + 1; v.push_back(a); return (int)v.size(); } };
struct Slot { PlannerP pl; int p = 0, f = 0; };
static const char *opname(char c) { switch (c) { case 'n': return "new"; case 'c': return "copy"; case 'a': return "assign"; case 's': return "set"; case 'q': return "ask"; default: return "del"; } }
struct Refs {  // answers of the pristine process, by (params, filter, query, op)
  std::map<std::array<int, 4>, int> m; Zygote &z; const Bind &d; Ids &ids;
  Refs(Zygote &zz, const Bind &dd, Ids &ii) : z(zz), d(dd), ids(ii) {}
  int get(int p, int f, int q, int o) {
    std::array<int, 4> k{p, o == O_COV ? f : 0, q, o}; auto it = m.find(k); if (it != m.end()) return it->second;
    Req r{d.p[p - 1], k[1], d.n[f], d.a[q - 1], d.b[q - 1], o, d.t[q - 1]}; return m[k] = ids.of(z.ask(r));
  }
  void json(J &j) { j.key("ref").s += '['; bool first = true; for (auto &e : m) { if (!first) j.s += ','; first = false; char t[80]; snprintf(t, sizeof t, "[%d,%d,%d,%d,%d]", e.first[0], e.first[1], e.first[2], e.first[3], e.second); j.s += t; } j.s += ']'; }
};
static void ev(J &j, const char *op, int s, int x, int o, int ans, bool &first) { if (!first) j.s += ','; first = false; j.s += "[\""; j.s += op; char t[80]; snprintf(t, sizeof t, "\",%d,%d,%d,%d]", s, x, o, ans); j.s += t; }
// one history in this process; returns the number of deviating answers
static int replay(Rng &g, const Hist &h, Zygote &z, std::string &js) {
  Bind d = bind(g, h.copies, h.assigns); Slot s[3]; Ids ids; Refs rf(z, d, ids); int bad = 0; bool first = true; mark_bind(d, "history");
  J j; j.open(); jbind(j, d); j.key("h").s += '[';
  int fixed = g.p(0.5) ? g.i(NO) : -1;
  for (auto &op : h.v) {
    int ans = 0, o = 0; rec::heap(true, g.i(4)); rec::dirty_stack(g.i(4));
    switch (op.c) {
      case 'n': s[op.s].pl = make_sut(d.p[op.x - 1]); s[op.s].p = op.x; s[op.s].f = 0; break;
      case 'c': s[op.x].pl = s[op.s].pl->clone(); if (!s[op.x].pl) { rec::heap(false, 0); return 0; } s[op.x].p = s[op.s].p; s[op.x].f = s[op.s].f; break;
      case 'a': if (!s[op.x].pl->assign(*s[op.s].pl)) { rec::heap(false, 0); return 0; } s[op.x].p = s[op.s].p; s[op.x].f = s[op.s].f; break;
      case 's': s[op.s].pl->filter(d.n[op.x]); s[op.s].f = op.x; break;
      case 'd': s[op.s].pl.reset(); break;
      case 'q': {
        o = fixed >= 0 ? fixed : g.i(NO); if (o == O_COV && s[op.s].f == 0) o = O_PATH;
        rec::heap(false, 0); mark_bind(d, std::string("ask ") + ON[o]); rec::heap(true, g.i(4)); rec::dirty_stack(g.i(4));
        Ans r = answer(*s[op.s].pl, d.a[op.x - 1], d.b[op.x - 1], o, d.t[op.x - 1]); rec::heap(false, 0);
        ans = ids.of(r); if (ans != rf.get(s[op.s].p, s[op.s].f, op.x, o)) bad++;
      } break;
    }
    rec::heap(false, 0); ev(j, opname(op.c), op.s, op.x, o, ans, first);
  }
  for (int i = 1; i < 3; i++) s[i].pl.reset();
  rec::reset();
  j.s += ']'; rf.json(j); j.close(); js = j.s; return bad;
}
// several threads ask the same two objects
static int threads(Rng &g, Zygote &z, std::string &js) {
  Bind d = bind(g, false, false); Ids ids; Refs rf(z, d, ids); PlannerP pl[2]; int f[2]; mark_bind(d, "threads");
  for (int i = 0; i < 2; i++) { pl[i] = make_sut(d.p[i]); f[i] = 1 + i; pl[i]->filter(d.n[1 + i]); }
  const int T = 4, N = 40; std::vector<std::thread> ts; struct E { int s, q, o; Ans r; }; std::vector<E> es[T]; std::atomic<int> go{0};
  for (int t = 0; t < T; t++) ts.emplace_back([&, t, seed = g.u64()] {
    Rng r(seed); go++; while (go < T) {}
    for (int i = 0; i < N; i++) { E e; e.s = r.p(0.7) ? 0 : 1; e.q = r.i(2); e.o = r.p(0.7) ? r.i(2) : r.i(NO); e.r = answer(*pl[e.s], d.a[e.q], d.b[e.q], e.o, d.t[e.q]); es[t].push_back(e); }
  });
  for (auto &t : ts) t.join();
  J j; j.open(); jbind(j, d); bool first = true; j.key("h").s += '['; int bad = 0;
  for (int i = 0; i < 2; i++) { ev(j, "new", i + 1, i + 1, 0, 0, first); ev(j, "set", i + 1, f[i], 0, 0, first); }
  for (int t = 0; t < T; t++) for (auto &e : es[t]) { int a = ids.of(e.r); if (a != rf.get(e.s + 1, f[e.s], e.q + 1, e.o)) bad++; ev(j, "ask", e.s + 1, e.q + 1, e.o, a, first); }
  j.s += ']'; rf.json(j); j.close(); js = j.s; return bad;
}
// ---- memory
static Ans ask_recorded(const Planner &pl, const St *a, const St *b, int o, double t) { rec::begin(); Ans r; { r = answer(pl, *a, *b, o, t); Ans().swap(r); } rec::end(); return r; }
// shared accesses of two queries on the same object; locations numbered from 1
static int race(Rng &g, std::string &js, uint64_t &sig) {
  Bind d = bind(g, false, false); mark_bind(d, "race"); sig = d.p[0].kind; int bad = 0;
  for (int k = 0; k < NO; k++) { PlannerP w = make_sut(d.p[0]); w->filter(d.n[1]); answer(*w, d.a[0], d.b[0], k, d.t[0]); }  // statics are initialised
  rec::reset(); rec::heap(true, 0);
  PlannerP pl = make_sut(d.p[0]); pl->filter(d.n[1]); St *st = new St[4]{d.a[0], d.b[0], d.a[1], d.b[1]};
  std::map<long, int> loc; std::vector<rec::Acc> th[2]; bool wr = false;
  for (int q = 0; q < 2; q++) for (int o = 0; o < NO; o++) { ask_recorded(*pl, st + 2 * q, st + 2 * q + 1, o, d.t[q]); th[q].insert(th[q].end(), rec::accesses().begin(), rec::accesses().end()); }
  rec::heap(false, 0); delete[] st; pl.reset(); rec::reset();
  // bytes -> 8 byte words, repeated accesses dropped
  J j; j.open().key("kind").str(kind_name(d.p[0].kind)); jbind(j, d); j.key("th").s += '[';
  for (int q = 0; q < 2; q++) {
    if (q) j.s += ','; j.s += '['; bool first = true; std::map<std::pair<int, int>, bool> seen; int held = 0;
    for (auto &a : th[q]) {
      if (a.t >= 4) { int l = loc.emplace(-a.loc, (int)loc.size() + 1).first->second; held += a.t == 4 ? 1 : -1; char t[40]; snprintf(t, sizeof t, "%s[%d,%d]", first ? "" : ",", a.t, l); j.s += t; first = false; seen.clear(); continue; }
      for (long w = a.loc >> 3; w <= (a.loc + a.n - 1) >> 3; w++) {
        int l = loc.emplace(w, (int)loc.size() + 1).first->second; if (!seen.emplace(std::make_pair(l, a.t), true).second) continue;
        char t[40]; snprintf(t, sizeof t, "%s[%d,%d]", first ? "" : ",", a.t, l); j.s += t; first = false; sig = sig * 1099511628211ull + l * 4 + a.t; if (a.t == 1 && !held) { wr = true; bad++; }
      }
    }
    j.s += ']';
  }
  j.s += ']'; j.close(); js = j.s; (void)wr; return bad;
}
// ownership of heap blocks along a history
static int own(Rng &g, const Hist &h, std::string &js, uint64_t &sig, size_t maxev) {
  Bind d = bind(g, h.copies, h.assigns); mark_bind(d, "own");
  for (int i = 0; i < 2; i++) for (int k = 0; k < NO; k++) { PlannerP w = make_sut(d.p[i]); w->filter(d.n[1]); answer(*w, d.a[0], d.b[0], k, d.t[0]); }
  Slot s[3]; rec::reset(); rec::heap(true, g.i(4)); std::vector<std::string> log; int fixed = g.p(0.6) ? g.i(NO) : -1;
  for (auto &op : h.v) {
    switch (op.c) {
      case 'n': s[op.s].pl = make_sut(d.p[op.x - 1]); break;
      case 'c': s[op.x].pl = s[op.s].pl->clone(); if (!s[op.x].pl) { s[op.s].pl.reset(); rec::reset(); return -1; } break;
      case 'a': if (!s[op.x].pl->assign(*s[op.s].pl)) { s[1].pl.reset(); s[2].pl.reset(); rec::reset(); return -1; } break;
      case 's': s[op.s].pl->filter(d.n[op.x]); s[op.s].f = op.x; break;
      case 'd': s[op.s].pl.reset(); break;
      case 'q': { int o = fixed >= 0 ? fixed : g.i(NO); if (o == O_COV) o = O_CTRL; ask_recorded(*s[op.s].pl, &d.a[op.x - 1], &d.b[op.x - 1], o, d.t[op.x - 1]); } break;
    }
  }
  for (int i = 1; i < 3; i++) s[i].pl.reset();
  rec::heap(false, 0); rec::finish(); std::vector<rec::Ev> e = rec::events(); rec::reset();
  // pre-judgement, to rank
  std::map<long, std::pair<long, long>> live; int bad = 0; sig = d.p[0].kind; size_t depth = 0;
  for (auto &x : e) switch (x.t) {
    case rec::ALLOC: live[x.id] = {x.a, x.b}; sig = sig * 1099511628211ull + x.a * 2 + 1; break;
    case rec::FREE: { auto it = live.find(x.id); if (it == live.end() || it->second.second != x.b || (x.a && x.a != it->second.first)) bad++; else live.erase(it); sig = sig * 1099511628211ull + 7; } break;
    case rec::USE: { auto it = live.find(x.id); if (it == live.end() || x.a < 0 || x.b > it->second.first) bad++; } break;
    case rec::BEGIN: depth = live.size(); break;
    case rec::END: if (live.size() != depth) bad++; break;
  }
  if (!live.empty()) bad++;
  if (e.size() > maxev && !bad) return -1;
  if (e.size() > 20 * maxev) e.resize(20 * maxev);
  J j; j.open().key("kind").str(kind_name(d.p[0].kind)); jbind(j, d); j.key("ev").s += '[';
  bool first = true; for (auto &x : e) { char t[120]; snprintf(t, sizeof t, "%s[%d,%ld,%ld,%ld]", first ? "" : ",", x.t, x.id, std::max(-1L, std::min(x.a, 1000000000L)), std::max(-1L, std::min(x.b, 1000000000L))); j.s += t; first = false; }
  j.s += ']'; j.close(); js = j.s; return bad;
}
static std::vector<Hist> load(const std::string &f) {
  std::vector<Hist> r; std::ifstream in(f); std::string l;
  while (std::getline(in, l)) { std::istringstream s(l); Hist h; Op o; std::string t; while (s >> t) { o.c = t[0]; sscanf(t.c_str() + 1, "%d,%d", &o.s, &o.x); if (o.c == 'c') h.copies = true; if (o.c == 'a') h.assigns = true; h.v.push_back(o); } r.push_back(h); }
  return r;
}
static int worker(const Args &A, int t, const std::string &mode, const std::vector<Hist> &H, const std::string &out) {
  Zygote z; if (mode == "pure") z.start();
  Current c; cur() = nullptr; guard(A.s("crash", "/dev/null") );
  size_t top = (size_t)A.n("top", 50), rnd = (size_t)A.n("rnd", 200), maxev = (size_t)A.n("maxev", 1500); double secs = A.n("secs", 5), t0 = now(); uint64_t n = 0, bads = 0;
  std::atomic<bool> over{false}; std::thread dog([&] { while (!over) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); double x = c.t0; if (x > 0 && now() - x > 60) crash_dump(&c, 43); } });
  std::vector<std::string> bad, good; std::map<uint64_t, int> sigs;
  std::thread body([&] {
    cur() = &c; Rng g((uint64_t)A.n("seed", 1) * 7919 + t * 104729 + 13); size_t k = (size_t)t;
    while (now() - t0 < secs) {
      std::string js; int b; uint64_t sig = n;
      if (mode == "pure") b = n % 10 == 9 ? threads(g, z, js) : replay(g, H[k++ * 7919 % H.size()], z, js);
      else if (mode == "race") b = race(g, js, sig);
      else b = own(g, H[g.u64() % H.size()], js, sig, maxev);
      n++; if (b < 0 || js.empty()) continue;
      if (b > 0) { bads++; if (bad.size() < top) bad.push_back(js); }
      else if (good.size() < rnd) { if (mode == "pure" || sigs[sig]++ == 0) good.push_back(js); }
      else if (mode != "pure" ? sigs[sig]++ == 0 : g.u64() % n < rnd) good[g.u64() % rnd] = js;
    }
    c.t0 = 0; cur() = nullptr;
  });
  body.join(); over = true; dog.join();
  if (mode != "pure" && !rec::instrumented()) { fprintf(stderr, "library is not instrumented\n"); return 46; }
  std::ofstream f(out); for (auto &s : bad) f << s << "\n"; for (auto &s : good) f << s << "\n";
  std::ofstream m(out + ".n"); m << n << " " << bads << " " << sigs.size() << "\n"; return 0;
}
int main(int ac, char **av) {
  Args A(ac, av); std::string mode = A.s("mode", "pure"), out = A.s("out", "/dev/stdout"); W.load(A.s("words").c_str());
  std::vector<Hist> H; if (mode != "race") { H = load(A.s("hist")); if (H.empty()) { fprintf(stderr, "no histories\n"); return 3; } }
  int T = (int)A.n("threads", 8), rc = 0; std::vector<pid_t> ps;
  for (int t = 0; t < T; t++) { pid_t p = fork(); if (p == 0) _exit(worker(A, t, mode, H, out + "." + std::to_string(t))); ps.push_back(p); }
  for (auto p : ps) { int st; waitpid(p, &st, 0); int r = WIFEXITED(st) ? WEXITSTATUS(st) : 47; if (r && (!rc || r == 42 || r == 43)) rc = r; }
  if (rc) return rc;
  std::ofstream f(out); unsigned long long n = 0, bad = 0, sig = 0; size_t cases = 0;
  for (int pass = 0; pass < 1; pass++) for (int t = 0; t < T; t++) { std::string p = out + "." + std::to_string(t), l; std::ifstream i(p); while (std::getline(i, l)) { f << l << "\n"; cases++; } std::ifstream m(p + ".n"); unsigned long long a, b, c; m >> a >> b >> c; n += a; bad += b; sig += c; remove(p.c_str()); remove((p + ".n").c_str()); }
  printf("{\"queries\":%llu,\"cases\":%zu,\"suspicious\":%llu,\"signatures\":%llu,\"worst\":%llu}\n", n, cases, bad, sig, bad);
}
