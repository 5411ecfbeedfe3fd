// The geometric primitives of the library under test (public headers).  PRIMS selects the property, so that a change
// to the interface of one group of functions does not keep the other checks from building.
#include "api.hpp"
#include "steering_functions/utilities/utilities.hpp"
#if PRIMS == 18 || PRIMS == 20
#include "steering_functions/hc_cc_state_space/configuration.hpp"
#include "steering_functions/hc_cc_state_space/hc_cc_circle.hpp"
#include "steering_functions/hc_cc_state_space/hc_cc_state_space.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#endif
#if PRIMS == 19
#include "steering_functions/filter/ekf.hpp"
#endif
#include <limits>
#include <stdexcept>
namespace {
using namespace vh;
#if PRIMS == 18 || PRIMS == 20
struct Space : steering::HC_CC_State_Space {
  Space(double k, double s) : HC_CC_State_Space(k, s, 0.1) {}
  std::vector<steering::Control> get_controls(const steering::State &, const steering::State &) const { throw std::runtime_error("-"); }
  steering::HC_CC_Circle_Param param() { return hc_cc_circle_param_; }
};
#endif
#if PRIMS == 18
double turn(int type, double kappa, double sigma, const double *c, bool left, bool fwd, bool regular, const double *q, bool order, std::vector<Ct> &out) {
  using namespace steering;
  HC_CC_Circle_Param par;
  if (type == 0) par.set_param(kappa, std::numeric_limits<double>::max(), 1 / kappa, 0.0, 0.0, 1.0, 0.0);
  else { Space sp(kappa, sigma); par = sp.param(); }
  Configuration a(c[0], c[1], c[2], c[3]), b(q[0], q[1], q[2], q[3]);
  HC_CC_Circle circle(a, left, fwd, regular, par);
  std::vector<Control> cs; double len;
  if (type == 0) { len = circle.rs_turn_length(b); rs_turn_controls(circle, b, order, cs); }
  else if (type == 1) { len = circle.hc_turn_length(b); hc_turn_controls(circle, b, order, cs); }
  else { len = circle.cc_turn_length(b); cc_turn_controls(circle, b, order, cs); }
  out.clear(); for (auto &e : cs) out.push_back({e.delta_s, e.kappa, e.sigma});
  return len;
}
#else
constexpr decltype(Prims::turn) turn = nullptr;
#endif
#if PRIMS == 19
void jac(const St &s, const Ct &c, double step, double *Fx, double *Fu) {
  steering::EKF ekf; Eigen::Matrix<double, 3, 3> fx = Eigen::Matrix<double, 3, 3>::Zero(); Eigen::Matrix<double, 3, 2> fu = Eigen::Matrix<double, 3, 2>::Zero();
  steering::State st; st.x = s.x; st.y = s.y; st.theta = s.th; st.kappa = s.k; st.d = s.d;
  steering::Control ct; ct.delta_s = c.ds; ct.kappa = c.k; ct.sigma = c.s;
  ekf.get_motion_jacobi(st, ct, step, fx, fu);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Fx[3 * i + j] = fx(i, j);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) Fu[2 * i + j] = fu(i, j);
}
#else
constexpr decltype(Prims::jac) jac = nullptr;
#endif
#if PRIMS == 17
void clothoid(double x, double y, double th, double k, double sg, double d, double l, double *o) { steering::end_of_clothoid(x, y, th, k, sg, d, l, o, o + 1, o + 2, o + 3); }
void arc(double x, double y, double th, double k, double d, double l, double *o) { steering::end_of_circular_arc(x, y, th, k, d, l, o, o + 1, o + 2); }
void line(double x, double y, double th, double d, double l, double *o) { steering::end_of_straight_line(x, y, th, d, l, o, o + 1); }
void tog(double x, double y, double th, double a, double b, double *o) { steering::global_frame_change(x, y, th, a, b, o, o + 1); }
void tol(double x, double y, double th, double a, double b, double *o) { steering::local_frame_change(x, y, th, a, b, o, o + 1); }
double tpf(double a) { return steering::twopify(a); }
double pf(double a) { return steering::pify(a); }
void fr(double s, double &S, double &C) { steering::fresnel(s, S, C); }
double dist(double a, double b, double c, double d) { return steering::point_distance(a, b, c, d); }
void pol(double x, double y, double &r, double &t) { steering::polar(x, y, r, t); }
#else
constexpr decltype(Prims::clothoid) clothoid = nullptr;
constexpr decltype(Prims::arc) arc = nullptr;
constexpr decltype(Prims::line) line = nullptr;
constexpr decltype(Prims::toglobal) tog = nullptr;
constexpr decltype(Prims::tolocal) tol = nullptr;
constexpr decltype(Prims::twopify) tpf = nullptr;
constexpr decltype(Prims::pify) pf = nullptr;
constexpr decltype(Prims::fresnel) fr = nullptr;
constexpr decltype(Prims::dist) dist = nullptr;
constexpr decltype(Prims::polar) pol = nullptr;
#endif
#if PRIMS == 20
steering::Control ct(const Ct &c) { steering::Control r; r.delta_s = c.ds; r.kappa = c.k; r.sigma = c.s; return r; }
Ct rev(const Ct &c) { steering::Control k = ct(c); steering::reverse_control(k); return {k.delta_s, k.kappa, k.sigma}; }
Ct sub(const Ct &a, const Ct &b) { steering::Control k = steering::subtract_control(ct(a), ct(b)); return {k.delta_s, k.kappa, k.sigma}; }
steering::State sst(const St &s) { steering::State r; r.x = s.x; r.y = s.y; r.theta = s.th; r.kappa = s.k; r.d = s.d; return r; }
void equal(const St &a, const St &b, bool *o) {
  steering::Configuration p(a.x, a.y, a.th, a.k), q(b.x, b.y, b.th, b.k);
  o[0] = steering::state_equal(sst(a), sst(b)); o[1] = steering::configuration_equal(p, q); o[2] = steering::configuration_aligned(p, q);
}
bool oncircle(int type, double kappa, double sigma, const St &a, bool left, bool fwd, const St &b, double *o) {
  using namespace steering; HC_CC_Circle_Param par;
  if (type == 0) par.set_param(kappa, std::numeric_limits<double>::max(), 1 / kappa, 0.0, 0.0, 1.0, 0.0); else { Space sp(kappa, sigma); par = sp.param(); }
  HC_CC_Circle c(Configuration(a.x, a.y, a.th, a.k), left, fwd, true, par);
  o[0] = c.xc; o[1] = c.yc; o[2] = c.radius; o[3] = c.mu; o[4] = c.delta_min;
  return configuration_on_hc_cc_circle(c, Configuration(b.x, b.y, b.th, b.k));
}
int argmin(double *v, int n) { return steering::array_index_min(v, n); }
#else
constexpr decltype(Prims::reverse) rev = nullptr;
constexpr decltype(Prims::subtract) sub = nullptr;
constexpr decltype(Prims::equal) equal = nullptr;
constexpr decltype(Prims::oncircle) oncircle = nullptr;
constexpr decltype(Prims::argmin) argmin = nullptr;
#endif
}
namespace vh { const Prims prims_sut = {tpf, pf, fr, clothoid, arc, line, tog, tol, dist, pol, turn, jac, rev, sub, equal, oncircle, argmin}; }
