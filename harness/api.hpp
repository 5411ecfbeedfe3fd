// Neutral view of the library's planners, so that two builds of it (the tree
// under test and the committed search guide) can live in one process.
#pragma once
#include <memory>
#include <string>
#include <vector>
namespace vh {
struct St { double x, y, th, k, d; };
struct Ct { double ds, k, s; };
struct StCov { St st; double Sigma[16], Lambda[16], cov[16]; };
struct Noise { double a1, a2, a3, a4; double sx, sy, sth; double k1, k2, k3; };
enum Kind { DUBINS = 0, RS, CC00D, CC0PMD, CCPM0D, CCPMPMD, CCD, HC00, HC0PM, HCPM0, HCPMPM, HC, CC00RS, NKINDS };
struct Params { int kind; double kappa, sigma, disc; bool fwd; };
struct Planner {
  virtual ~Planner() {}
  virtual double distance(const St &, const St &) const = 0;
  virtual std::vector<Ct> controls(const St &, const St &) const = 0;
  virtual std::vector<St> path(const St &, const St &) const = 0;
  virtual std::vector<StCov> path_cov(const StCov &, const St &) const = 0;
  virtual std::vector<St> integrate(const St &, const std::vector<Ct> &) const = 0;
  virtual std::vector<StCov> integrate_cov(const StCov &, const std::vector<Ct> &) const = 0;
  virtual St interpolate(const St &, const std::vector<Ct> &, double t) const = 0;
  virtual void filter(const Noise &) = 0;
  virtual std::unique_ptr<Planner> clone() const = 0;      // null: planners of this kind cannot be copied
  virtual bool assign(const Planner &) = 0;                // same kind only; false: not assignable
};
typedef std::unique_ptr<Planner> PlannerP;
// planner factories: the tree under test, and the committed search guide
PlannerP make_sut(const Params &);
PlannerP make_guide(const Params &);
struct Prims {
  double (*twopify)(double);
  double (*pify)(double);
  void (*fresnel)(double, double &, double &);
  void (*clothoid)(double x, double y, double th, double k, double sigma, double dir, double len, double *out4);
  void (*arc)(double x, double y, double th, double k, double dir, double len, double *out3);
  void (*line)(double x, double y, double th, double dir, double len, double *out2);
  void (*toglobal)(double x, double y, double th, double lx, double ly, double *out2);
  void (*tolocal)(double x, double y, double th, double gx, double gy, double *out2);
  double (*dist)(double, double, double, double);
  void (*polar)(double x, double y, double &r, double &th);
  // turn on a circle anchored at configuration c (x,y,th,k); type 0=rs 1=hc 2=cc.  Returns the declared length.
  double (*turn)(int type, double kappa, double sigma, const double *c, bool left, bool fwd, bool regular,
                 const double *q, bool order, std::vector<Ct> &out);
  void (*jac)(const St &, const Ct &, double step, double *Fx9, double *Fu6);
  Ct (*reverse)(const Ct &);
  Ct (*subtract)(const Ct &, const Ct &);
  void (*equal)(const St &, const St &, bool *out3);       // state_equal, configuration_equal, configuration_aligned
  // is b on the circle of kind type (0 arc, 2 clothoids) anchored at a; centre, radius, mu and delta_min of the circle
  bool (*oncircle)(int type, double kappa, double sigma, const St &a, bool left, bool fwd, const St &b, double *out5);
  int (*argmin)(double *, int);
};
extern const Prims prims_sut;
inline const char *kind_name(int k) {
  static const char *n[] = {"Dubins","RS","CC00D","CC0pmD","CCpm0D","CCpmpmD","CCD","HC00","HC0pm","HCpm0","HCpmpm","HC","CC00RS"};
  return n[k];
}
}
