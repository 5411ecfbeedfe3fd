// Compiled once against /repo (SIDE=sut) and once against the search guide
// (SIDE=guide, -Dsteering=steering_guide).  Uses the public planner API only.
#include "api.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include <cstring>
#include <type_traits>
namespace {
using namespace vh;
steering::State in(const St &s) { steering::State r; r.x = s.x; r.y = s.y; r.theta = s.th; r.kappa = s.k; r.d = s.d; return r; }
St out(const steering::State &s) { St r; r.x = s.x; r.y = s.y; r.th = s.theta; r.k = s.kappa; r.d = s.d; return r; }
steering::State_With_Covariance in(const StCov &s) {
  steering::State_With_Covariance r; r.state = in(s.st);
  memcpy(r.Sigma, s.Sigma, sizeof s.Sigma); memcpy(r.Lambda, s.Lambda, sizeof s.Lambda); memcpy(r.covariance, s.cov, sizeof s.cov);
  return r;
}
StCov out(const steering::State_With_Covariance &s) {
  StCov r; r.st = out(s.state);
  memcpy(r.Sigma, s.Sigma, sizeof r.Sigma); memcpy(r.Lambda, s.Lambda, sizeof r.Lambda); memcpy(r.cov, s.covariance, sizeof r.cov);
  return r;
}
std::vector<steering::Control> in(const std::vector<Ct> &c) {
  std::vector<steering::Control> r; r.reserve(c.size());
  for (auto &e : c) { steering::Control k; k.delta_s = e.ds; k.kappa = e.k; k.sigma = e.s; r.push_back(k); }
  return r;
}
std::vector<Ct> out(const std::vector<steering::Control> &c) {
  std::vector<Ct> r; r.reserve(c.size());
  for (auto &e : c) r.push_back({e.delta_s, e.kappa, e.sigma});
  return r;
}
template <class T> struct P : Planner {
  T t;
  P(double k, double d) : t(k, d) {}
  template <class A, class... B> P(double k, double s, A a, B... b) : t(k, s, a, b...) {}
  double distance(const St &a, const St &b) const override { return t.get_distance(in(a), in(b)); }
  std::vector<Ct> controls(const St &a, const St &b) const override { return out(t.get_controls(in(a), in(b))); }
  std::vector<St> path(const St &a, const St &b) const override {
    std::vector<St> r; for (auto &s : t.get_path(in(a), in(b))) r.push_back(out(s)); return r; }
  std::vector<StCov> path_cov(const StCov &a, const St &b) const override {
    std::vector<StCov> r; for (auto &s : t.get_path_with_covariance(in(a), in(b))) r.push_back(out(s)); return r; }
  std::vector<St> integrate(const St &a, const std::vector<Ct> &c) const override {
    std::vector<St> r; for (auto &s : t.integrate(in(a), in(c))) r.push_back(out(s)); return r; }
  std::vector<StCov> integrate_cov(const StCov &a, const std::vector<Ct> &c) const override {
    std::vector<StCov> r; for (auto &s : t.integrate_with_covariance(in(a), in(c))) r.push_back(out(s)); return r; }
  St interpolate(const St &a, const std::vector<Ct> &c, double x) const override { return out(t.interpolate(in(a), in(c), x)); }
  void filter(const Noise &n) override {
    steering::Motion_Noise m; m.alpha1 = n.a1; m.alpha2 = n.a2; m.alpha3 = n.a3; m.alpha4 = n.a4;
    steering::Measurement_Noise e; e.std_x = n.sx; e.std_y = n.sy; e.std_theta = n.sth;
    steering::Controller c; c.k1 = n.k1; c.k2 = n.k2; c.k3 = n.k3;
    t.set_filter_parameters(m, e, c);
  }
  struct Copy {};
  template <class U> P(Copy, const U &u) : t(u) {}
  template <class U = T> static typename std::enable_if<std::is_copy_constructible<U>::value, PlannerP>::type cl(const U &u) { return PlannerP(new P(Copy(), u)); }
  template <class U = T> static typename std::enable_if<!std::is_copy_constructible<U>::value, PlannerP>::type cl(const U &) { return PlannerP(); }
  template <class U = T> static typename std::enable_if<std::is_copy_assignable<U>::value, bool>::type as(U &a, const U &b) { a = b; return true; }
  template <class U = T> static typename std::enable_if<!std::is_copy_assignable<U>::value, bool>::type as(U &, const U &) { return false; }
  PlannerP clone() const override { return cl<T>(t); }
  bool assign(const Planner &o) override { return as<T>(t, static_cast<const P &>(o).t); }
};
PlannerP make(const Params &p) {
  using namespace steering;
  double k = p.kappa, s = p.sigma, d = p.disc; bool f = p.fwd;
  switch (p.kind) {
    case DUBINS: return PlannerP(new P<Dubins_State_Space>(k, d, f));
    case vh::RS: return PlannerP(new P<Reeds_Shepp_State_Space>(k, d));
    case CC00D: return PlannerP(new P<CC00_Dubins_State_Space>(k, s, d, f));
    case CC0PMD: return PlannerP(new P<CC0pm_Dubins_State_Space>(k, s, d, f));
    case CCPM0D: return PlannerP(new P<CCpm0_Dubins_State_Space>(k, s, d, f));
    case CCPMPMD: return PlannerP(new P<CCpmpm_Dubins_State_Space>(k, s, d, f));
    case CCD: return PlannerP(new P<CC_Dubins_State_Space>(k, s, d, f));
    case HC00: return PlannerP(new P<HC00_Reeds_Shepp_State_Space>(k, s, d));
    case HC0PM: return PlannerP(new P<HC0pm_Reeds_Shepp_State_Space>(k, s, d));
    case HCPM0: return PlannerP(new P<HCpm0_Reeds_Shepp_State_Space>(k, s, d));
    case HCPMPM: return PlannerP(new P<HCpmpm_Reeds_Shepp_State_Space>(k, s, d));
    case HC: return PlannerP(new P<HC_Reeds_Shepp_State_Space>(k, s, d));
    case CC00RS: return PlannerP(new P<CC00_Reeds_Shepp_State_Space>(k, s, d));
  }
  return PlannerP();
}
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace vh { PlannerP CAT(make_, SIDE)(const Params &p) { return make(p); } }
