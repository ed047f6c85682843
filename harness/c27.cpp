// Calls of the library, valid and invalid, with the error register left as the
// call before left it, in the configuration the harness was built with.
#include "theoretica.h"
#include "vt.h"
using vt::Tok; using vt::Ev; using vt::hex;
using namespace th;
typedef std::string S;
typedef std::vector<double> VD;
typedef vec<real> DV; typedef mat<real> DM;
[[noreturn]] static void bad(const S& m) { fprintf(stderr, "bad %s\n", m.c_str()); _exit(77); }
struct Out { VD v; };
static void put(Out& o, real x) { o.v.push_back(x); }
static void put(Out& o, unsigned x) { o.v.push_back(x); }
static void put(Out& o, int x) { o.v.push_back(x); }
static void put(Out& o, uint64_t x) { o.v.push_back((double) (x >> 12)); }
static void put(Out& o, const complex<real>& z) { put(o, z.a); put(o, z.b); }
static void put(Out& o, const quat<real>& q) { put(o, q.a); put(o, q.b); put(o, q.c); put(o, q.d); }
static void put(Out& o, const phasor<real>& q) { put(o, q.modulus); put(o, q.phase); }
static void put(Out& o, const dual& x) { put(o, x.Re()); put(o, x.Dual()); }
static void put(Out& o, const dual2& x) { put(o, x.Re()); put(o, x.Dual1()); put(o, x.Dual2()); }
template<unsigned N> static void put(Out& o, const vec<real, N>& v) { for (unsigned i = 0; i < v.size(); ++i) put(o, v[i]); }
template<unsigned N> static void put(Out& o, const multidual<N>& x) { put(o, x.Re()); put(o, x.Dual()); }
template<unsigned N, unsigned K> static void put(Out& o, const mat<real, N, K>& m) { for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) put(o, m(i, j)); }
static void put(Out& o, const VD& v) { for (double x : v) put(o, x); }
static void put(Out& o, const polynomial<real>& p) { for (size_t i = 0; i < p.size(); ++i) put(o, p.get(i)); }
static DV V(int n, double s = 1) { DV v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = s * (i + 1); return v; }
static VD W(int n, double s = 1) { VD v(n); for (int i = 0; i < n; ++i) v[i] = s * (i + 1); return v; }
static DM M(int r, int c, double d = 1) { DM m; m.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = i == j ? d * (r + c) * (1 << 2 * i) : .5 / (i + j + 1); return m; }
static DM Q(std::vector<VD> r) { DM m; m.resize(r.size(), r[0].size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[0].size(); ++j) m(i, j) = r[i][j]; return m; }
static std::vector<uint64_t> Us(int n) { std::vector<uint64_t> v; for (int i = 0; i < n; ++i) v.push_back(7 + 2 * i); return v; }
static real sq2(real x) { return x * x - 2; }
static real par(real x) { return (x - 1) * (x - 1); }
static real npar(real x) { return -par(x); }
static autodiff::dreal_t<3> ppf(autodiff::dvec_t<3> x) { return x[0] * x[1] + x[2]; }
static int reg = 0;
static bool exec(const S& f, const VD& a, Out& o) {
  auto n = [&](int i) { return (int) a[i]; };
#define OP(name, ...) if (f == #name) { put(o, (__VA_ARGS__)); return true; }
#define DO(name, res, ...) if (f == #name) { __VA_ARGS__; put(o, res); return true; }
  // real functions
  OP(sqrt, th::sqrt(a[0])) OP(cbrt, th::cbrt(a[0])) OP(ln, th::ln(a[0])) OP(log2, th::log2(a[0])) OP(log10, th::log10(a[0])) OP(ilog2, (unsigned) th::ilog2((uint64_t) a[0]))
  OP(exp, th::exp(a[0])) OP(sin, th::sin(a[0])) OP(cos, th::cos(a[0])) OP(atan, th::atan(a[0])) OP(sinh, th::sinh(a[0])) OP(tanh, th::tanh(a[0])) OP(asinh, th::asinh(a[0]))
  OP(powf, th::powf(a[0], a[1])) OP(pow, th::pow(a[0], n(1))) OP(root, th::root(a[0], n(1))) OP(tan, th::tan(a[0])) OP(cot, th::cot(a[0])) OP(coth, th::coth(a[0])) OP(asin, th::asin(a[0])) OP(acos, th::acos(a[0]))
  OP(atan2, th::atan2(a[0], a[1])) OP(acosh, th::acosh(a[0])) OP(atanh, th::atanh(a[0])) OP(binom, (real) th::binomial_coeff((unsigned) a[0], (unsigned) a[1]))
  OP(gammak, special::gamma((unsigned) a[0])) OP(halfgamma, special::half_gamma((unsigned) a[0])) OP(gamma, special::gamma(a[0])) OP(lngamma, special::lngamma(a[0]))
  // complex numbers, quaternions, phasors, dual numbers
  OP(cinv, complex<real>(a[0], a[1]).inverse()) OP(cdiv, complex<real>(1, 2) / complex<real>(a[0], a[1])) OP(cdivr, complex<real>(1, 2) / a[0])
  DO(cinvert, z, complex<real> z(a[0], a[1]); z.invert()) DO(cdiveq, z, complex<real> z(1, 2); z /= a[0]) DO(cdiveqc, z, complex<real> z(1, 2); z /= complex<real>(a[0], a[1]))
  OP(qinv, quat<real>(a[0], a[1], a[2], a[3]).inverse()) DO(qinvert, q, quat<real> q(a[0], a[1], a[2], a[3]); q.invert()) OP(qdivr, quat<real>(1, 2, 3, 4) / a[0]) DO(qdiveq, q, quat<real> q(1, 2, 3, 4); q /= a[0])
  OP(qrot, quat<real>::rotation(.5, V(n(0))))
  OP(pinv, phasor<real>(a[0], .5).inverse()) DO(pinvert, p, phasor<real> p(a[0], .5); p.invert()) OP(pdiv, phasor<real>(2, .5) / phasor<real>(a[0], .25)) DO(pdiveq, p, phasor<real> p(2, .5); p /= phasor<real>(a[0], .25))
#define DUAL(t, mk) OP(t##inv, mk(a[0]).inverse()) OP(t##divr, mk(2) / a[0]) DO(t##diveq, x, t x = mk(2); x /= a[0]) OP(t##div, mk(2) / mk(a[0])) \
  OP(t##sqrt, th::sqrt(mk(a[0]))) OP(t##tan, th::tan(mk(a[0]))) OP(t##cot, th::cot(mk(a[0]))) OP(t##ln, th::ln(mk(a[0]))) OP(t##log2, th::log2(mk(a[0]))) OP(t##log10, th::log10(mk(a[0]))) \
  OP(t##asin, th::asin(mk(a[0]))) OP(t##acos, th::acos(mk(a[0]))) OP(t##exp, th::exp(mk(a[0])))
  auto mk1 = [](real x) { return dual(x, 1); }; auto mk2 = [](real x) { return dual2(x, 1, 0); }; auto mkm = [](real x) { return multidual<2>(x, {1, 2}); };
  typedef multidual<2> multi;
  DUAL(dual, mk1) DUAL(dual2, mk2) DUAL(multi, mkm)
  // vectors
  OP(vsum, V(n(0)) + V(n(1))) OP(vdiff, V(n(0)) - V(n(1))) DO(vadd, v, DV v = V(n(0)); v += V(n(1))) DO(vsub, v, DV v = V(n(0)); v -= V(n(1))) OP(vdot, V(n(0)) * V(n(1))) OP(adot, algebra::dot(V(n(0)), V(n(1))))
  DO(asum, v, DV v = V(n(0)); algebra::vec_sum(v, V(n(1)))) DO(adiff, v, DV v = V(n(0)); algebra::vec_diff(v, V(n(1)))) OP(vcross, V(3).cross(V(n(0)))) OP(across, algebra::cross(V(n(0)), V(n(1)))) DO(asum3, r, DV r = V(n(2)); algebra::vec_sum(r, V(n(0)), V(n(1))))
  OP(vdivr, V(3) / a[0]) DO(vdiveq, v, DV v = V(3); v /= a[0]) OP(fdivr, vec<real, 3>({1, 2, 3}) / a[0]) DO(fadd, v, (vec<real, 3>({1, 2, 3})); auto v = vec<real, 3>({1, 2, 3}); v += V(n(0))) OP(fdot, algebra::dot(vec<real, 3>({1, 2, 3}), V(n(0))))
  OP(vunit, DV({a[0], 0, 0}).normalized()) DO(mkunit, v, DV v({a[0], 0, 0}); v.normalize()) OP(base, DV::euclidean_base(n(0), n(1)))
  // matrices
#define MM M(n(0), n(1)), M(n(2), n(3))
  OP(msum, M(n(0), n(1)) + M(n(2), n(3))) OP(mdiff, M(n(0), n(1)) - M(n(2), n(3))) OP(mmul, M(n(0), n(1)) * M(n(2), n(3))) DO(amsum, m, DM m = M(n(0), n(1)); algebra::mat_sum(m, M(n(2), n(3)))) DO(amdiff, m, DM m = M(n(0), n(1)); algebra::mat_diff(m, M(n(2), n(3)))) OP(ammul, algebra::mat_mul<DM>(MM)) DO(alin, m, DM m = M(n(0), n(1)); algebra::mat_lincomb(2, m, 3, M(n(2), n(3))))
  DO(madd, m, DM m = M(n(0), n(1)); m += M(n(2), n(3))) DO(msub, m, DM m = M(n(0), n(1)); m -= M(n(2), n(3)))
  OP(mtrans, M(n(0), n(1)) * V(n(2))) OP(atrans, algebra::transform(M(n(0), n(1)), V(n(2)))) OP(vecmat, V(n(2)) * M(n(0), n(1))) OP(mdivr, M(2, 3) / a[0]) DO(mdiveq, m, DM m = M(2, 3); m /= a[0])
  OP(minv, algebra::inverse(M(n(0), n(1)))) DO(minvert, m, DM m = M(n(0), n(1)); m.invert()) OP(mdet, algebra::det(M(n(0), n(1)))) DO(mtpose, m, DM m = M(n(0), n(1)); algebra::make_transposed(m))
  DO(swaprows, m, DM m = M(n(0), n(1)); algebra::mat_swap_rows(m, n(2), n(3))) DO(swapcols, m, DM m = M(n(0), n(1)); algebra::mat_swap_cols(m, n(2), n(3)))
  OP(lusing, algebra::solve(Q({{1, 2}, {2, a[0]}}), V(2))) OP(invsing, algebra::inverse(Q({{1, 2}, {2, a[0]}})))
  DO(lu, m, DM m = M(n(0), n(1)); algebra::decompose_lu_inplace(m)) OP(chol, algebra::decompose_cholesky(M(n(0), n(1)))) OP(cholneg, algebra::decompose_cholesky(Q({{a[0], 1}, {1, 2}}))) OP(cholasym, algebra::decompose_cholesky(Q({{3, a[0]}, {1, 3}})))
  OP(solve, algebra::solve(M(n(0), n(1)), V(n(2)))) OP(trilow, algebra::solve_triangular_lower(Q({{2, 0}, {1, a[0]}}), V(n(1)))) OP(triup, algebra::solve_triangular_upper(Q({{2, 1}, {0, a[0]}}), V(n(1))))
  OP(eigpow, algebra::eigenvalue_power(M(n(0), n(1)), V(n(2)))) OP(eiginv, algebra::eigenvalue_inverse(M(n(0), n(1)), V(n(2)))) OP(eigray, algebra::eigenvalue_rayleigh(M(n(0), n(1)), 9.0, V(n(2)))) OP(rayq, algebra::rayleigh_quotient(M(2, 2), DV({a[0], 0})))
  OP(rot2, algebra::rotation_2d<DM>(.5, n(0), n(1))) OP(rot3x, algebra::rotation_3d_xaxis<DM>(.5, n(0), n(1))) OP(rot3y, algebra::rotation_3d_yaxis<DM>(.5, n(0), n(1))) OP(rot3z, algebra::rotation_3d_zaxis<DM>(.5, n(0), n(1))) OP(rot3, algebra::rotation_3d<DM>(.5, V(3), n(0), n(1))) OP(rot3ax, algebra::rotation_3d<DM>(.5, DV({a[0], 0, 0}), 3, 3))
  OP(persp, algebra::perspective<DM>(-1, 1, -1, 1, 1, 9, n(0), n(1))) OP(ortho, algebra::ortho<DM>(-1, 1, -1, 1, 1, 9, n(0), n(1))) OP(symp, algebra::symplectic<DM>(n(0), n(1)))
  // distances
  OP(dmink, algebra::minkowski_distance(V(n(0)), V(n(1), 2), 3)) OP(deuc, algebra::euclidean_distance(V(n(0)), V(n(1), 2))) OP(dman, algebra::manhattan_distance(V(n(0)), V(n(1), 2))) OP(dcheb, algebra::chebyshev_distance(V(n(0)), V(n(1), 2))) OP(dcan, algebra::canberra_distance(V(n(0)), V(n(1), 2))) OP(dcos, algebra::cosine_distance(V(n(0)), V(n(1), 2))) OP(dham, algebra::hamming_distance(V(n(0)), V(n(1), 2))) OP(ddis, algebra::discrete_distance(V(n(0)), V(n(1), 2)))
  // data sets and statistics
  OP(product, product(V(n(0)))) OP(psum, product_sum(V(n(0)), V(n(1)))) OP(psumsq, product_sum_squares(V(n(0)), V(n(1)))) OP(psum3, product_sum(V(n(0)), V(n(1)), V(n(2)))) OP(qsum, quotient_sum(V(n(0)), V(n(1)))) OP(qsum0, quotient_sum(DV({1, 2}), DV({a[0], a[1]})))
  OP(sumsq, sum_squares(V(n(0)))) OP(dmax, th::max(V(n(0)))) OP(dmin, th::min(V(n(0)))) OP(amean, arithmetic_mean(V(n(0)))) OP(hmean, harmonic_mean(V(n(0)))) OP(hmean0, harmonic_mean(DV({1, a[0], 3}))) OP(qmean, quadratic_mean(V(n(0))))
  OP(csum, [&] { std::vector<complex<real>> z; for (int i = 0; i < n(0); ++i) z.push_back(complex<real>(i, 1)); complex<real> r = th::sum(z); return r; }()) DO(smap, d, VD d = W(n(1)); th::map([](real x) { return 2 * x; }, W(n(0)), d))
  DO(dmap, d, DV d = V(n(1)); th::map([](real x) { return 2 * x; }, V(n(0)), d))
  OP(tss, stats::total_sum_squares(V(n(0)))) OP(variance, stats::variance(V(n(0)), (unsigned) n(1))) OP(stdev, stats::stdev(V(n(0)), (unsigned) n(1))) OP(cov, stats::covariance(V(n(0)), V(n(1)), (unsigned) n(2))) OP(autoc, stats::autocorrelation(DV({1, 5, 2, 7, 3}), (unsigned) n(0))) OP(relerr, stats::standard_relative_error(DV({1 + a[0], -1 + a[0], 2 + a[0], -2 + a[0]})))
  OP(chisq, stats::chi_square(V(n(0)), V(n(1), 2), V(n(2)))) OP(chisq0, stats::chi_square(V(2), V(2, 2), DV({1, a[0]}))) OP(pval, stats::pvalue_chi_squared(3, (unsigned) n(0))) OP(chilin, stats::chi_square_linear(V(n(0)), V(n(1)), V(n(2)), 1, 2)) OP(redchi, stats::reduced_chi_square_linear(V(n(0)), V(n(0), 3), V(n(0)), 1, 2)) OP(propprod, stats::propagate_product(V(n(0)), V(n(1))))
  if (f == "ols") { real p = 0, q = 0; regression::ols_linear(V(n(0)), V(n(1), 3), p, q); put(o, p); put(o, q); return true; }
  if (f == "wls") { mat2 cm; real p = 0, q = 0; regression::wls_linear(V(n(0)), V(n(1), 3), V(n(2)), p, q, cm); put(o, p); put(o, q); return true; }
  if (f == "olsvert") { real p = 0, q = 0; regression::ols_linear(DV({1, 1 + a[0], 1}), V(3), p, q); put(o, p); put(o, q); return true; }
  OP(olserr, regression::ols_linear_error(V(n(0)), V(n(1), 3), 1, 2))
  if (f == "model") { regression::linear_model m(V(n(0)), V(n(1), 3)); put(o, m.A); put(o, m.B); return true; }
  if (f == "models") { regression::linear_model m(V(n(0)), V(n(0), 3), a[1]); put(o, m.A); put(o, m.B); return true; }
  OP(hist, [&] { histogram h(4, 0, 10); for (int i = 0; i < n(0); ++i) h.insert(i + 1); return stats::variance(h); }())
  // distributions
#define DIST(d) OP(d_##d, distribution::d((real) 1, V(n(0))))
  DIST(gaussian) DIST(bernoulli) DIST(poisson) DIST(chi_squared) DIST(gamma) DIST(beta) DIST(student) DIST(log_normal) DIST(exponential) DIST(rayleigh) DIST(cauchy) DIST(breit_wigner) DIST(maxwell) DIST(laplace) DIST(pareto)
  OP(d_binomial, distribution::binomial((real) 1, V(n(0)))) OP(d_erlang, distribution::erlang((real) 1, V(n(0)))) OP(rayl, distribution::rayleigh(1, a[0])) OP(paret, distribution::pareto(2, 1, a[0])) OP(erl, distribution::erlang(1, (unsigned) n(0), 2))
  // generators and sampling
  if (f.substr(0, 2) == "r_") { PRNG g = PRNG::xoshiro(9); S k = f.substr(2); VD th = W(n(0));
    real x = k == "uniform" ? rand_uniform(th, g) : k == "diceroll" ? rand_diceroll(th, g) : k == "exponential" ? rand_exponential(th, g) : k == "rayleigh" ? rand_rayleigh(th, g) : k == "cauchy" ? rand_cauchy(th, g) : k == "laplace" ? rand_laplace(th, g) : k == "pareto" ? rand_pareto(th, g) : (bad(f), 0); put(o, x); return true; }
  OP(rdice, [&] { PRNG g = PRNG::xoshiro(9); return rand_diceroll((unsigned) n(0), g); }()) OP(rexp, [&] { PRNG g = PRNG::xoshiro(9); return rand_exponential(a[0], g); }())
  OP(gxos, [&] { auto s = Us(n(0)); return randgen_xoshiro(3, s); }()) OP(gcong, [&] { auto s = Us(n(0)); if (n(0) == 3) { s[0] = 7; s[1] = 2; s[2] = (uint64_t) a[1]; } return randgen_congruential(3, s); }()) OP(gwy, [&] { auto s = Us(n(0)); return randgen_wyrand(3, s); }()) OP(gmid, [&] { auto s = Us(n(0)); return randgen_middlesquare(3, s); }())
  OP(shuf, [&] { PRNG g = PRNG::xoshiro(9); DV v = V(n(0)); shuffle(v, g); return v; }())
  // polynomials, calculus, transforms
  OP(pdivp, polynomial<real>({1, 2, 3}) / polynomial<real>({a[0], a[1]})) OP(pdivr, polynomial<real>({1, 2, 3}) / a[0]) DO(pdiveqr, p, polynomial<real> p({1, 2, 3}); p /= a[0]) OP(assleg, assoc_legendre_polynomial_even((unsigned) n(0) + (n(0) % 2 ? 1 : 0) + 2, n(0)))
  OP(i_mid, integral_midpoint(sq2, 0, 1, (unsigned) n(0))) OP(i_trap, integral_trapezoid(sq2, 0, 1, (unsigned) n(0))) OP(i_simp, integral_simpson(sq2, 0, 1, (unsigned) n(0))) OP(i_rom, integral_romberg(sq2, 0, 1, (unsigned) n(0))) OP(i_gauss, integral_gauss(sq2, W(n(0)), W(n(1)))) OP(d_rid, deriv_ridders(sq2, 1, .01, (unsigned) n(0)))
  OP(fft, [&] { cvec x; x.resize(n(0)); for (auto& z : x) z = complex<real>(1, 2); auto y = signal::fft(x); VD r; for (auto& z : y) { r.push_back(z.a); r.push_back(z.b); } return r; }())
  OP(odefix, [&] { auto s = ode::solve_rk4([](real t, real x) { return x + t; }, 1.0, 0.0, a[0], a[1]); return s.x; }())
  OP(bez, bezier<2>([&] { std::vector<vec<real, 2>> p; for (int i = 0; i < n(0); ++i) p.push_back({(real) i, (real) (i * i)}); return p; }(), a[1])) OP(smooth, smoothstep(a[0], a[1], .5)) OP(smoother, smootherstep(a[0], a[1], .5))
  OP(splines, [&] { auto s = cubic_splines(W(n(0)), W(n(1), 2)); VD r; for (auto& k : s) { r.push_back(k.a); r.push_back(k.b); } return r; }()) OP(slerp0, slerp<3>({a[0], 0, 0}, {0, 1, 0}, .5)) OP(lagr, lagrange_polynomial<real>([&] { std::vector<vec<real, 2>> p; for (int i = 0; i < n(0); ++i) p.push_back({i == 1 ? a[1] : (real) i, (real) i * i}); return p; }()))
  // roots and extrema
  OP(bisect, root_bisect(sq2, a[0], a[1])) OP(itp, root_itp(sq2, a[0], a[1])) OP(newton, root_newton(std::function<real(real)>([&](real x) { return x * x + a[0]; }), std::function<real(real)>([](real x) { return 2 * x; }), 1.5)) OP(rootsn, (real) roots(sq2, 0, 2, 1e-8, (unsigned) n(0)).size())
  OP(gmin, minimize_goldensection(par, a[0], a[1])) OP(gmax, maximize_goldensection(npar, a[0], a[1]))
  // destinations and operands of fixed size, which cannot follow the arguments
  typedef mat<real, 2, 2> F22; typedef mat<real, 2, 3> F23; typedef vec<real, 2> F2;
  DO(tdest, m, DM m = M(n(2), n(3)); algebra::transpose(m, M(n(0), n(1)))) DO(hdest, m, DM m = M(n(2), n(3)); algebra::hermitian(m, M(n(0), n(1)))) DO(sdest, m, DM m = M(n(2), n(3)); algebra::mat_scalmul(m, 2.0, M(n(0), n(1))))
  DO(tfix, m, F22 m; algebra::transpose(m, M(n(0), n(1)))) DO(hfix, m, F22 m; algebra::hermitian(m, M(n(0), n(1)))) DO(sfix, m, F22 m; algebra::mat_scalmul(m, 2.0, M(n(0), n(1))))
  DO(fsum, m, F22 m; algebra::mat_sum(m, M(n(0), n(1)), M(n(2), n(3)))) DO(fdiff, m, F22 m; algebra::mat_diff(m, M(n(0), n(1)), M(n(2), n(3)))) DO(flin, m, F22 m; algebra::mat_lincomb(m, 2.0, M(n(0), n(1)), 3.0, M(n(2), n(3))))
  DO(fmul, m, F22 m; algebra::mat_mul(m, M(n(0), n(1)), M(n(2), n(3)))) DO(ftrans, v, F2 v; algebra::transform(v, M(n(0), n(1)), V(n(2))))
  if (f == "flu") { F22 l; DM u; algebra::decompose_lu(M(n(0), n(1)), l, u); put(o, l); put(o, u); return true; }
  if (f == "flu2") { DM l; F22 u; algebra::decompose_lu(M(n(0), n(1)), l, u); put(o, l); put(o, u); return true; }
  OP(trilows, algebra::solve_triangular_lower(M(n(0), n(1)), V(n(2)))) OP(triups, algebra::solve_triangular_upper(M(n(0), n(1)), V(n(2)))) DO(lui, v, DV v = V(n(2)); algebra::solve_lu_inplace(M(n(0), n(1)), v)) OP(scholes, algebra::solve_cholesky(M(n(0), n(1)), V(n(2))))
  OP(slu, algebra::solve_lu(M(n(0), n(1)), M(n(2), n(3)), V(n(4))))
  OP(pairpow, [&] { DV v = V(n(3)); real l = algebra::eigenpair_power(M(n(0), n(1)), V(n(2)), v); VD r = {l}; for (real x : v) r.push_back(x); return r; }()) OP(pairinv, [&] { DV v = V(n(3)); real l = algebra::eigenpair_inverse(M(n(0), n(1)), V(n(2)), v); VD r = {l}; for (real x : v) r.push_back(x); return r; }())
  OP(vecinv, [&] { DV v = algebra::eigenvector_inverse(M(n(0), n(1)), 1.5, V(n(2))); return v; }())
  OP(memtrans, M(n(0), n(1)).transform(W(n(2)))) OP(memtransf, F23(1.0).transform(W(n(0)))) OP(memtransd, F23(1.0).transform(V(n(0)))) OP(vecmatf, V(n(0)) * F23(1.0)) OP(mulf, F23(1.0).mul(M(n(0), n(1)))) OP(muld, M(2, 3).mul(M(n(0), n(1))))
  OP(crossf, vec<real, 3>({1, 2, 3}).cross(V(n(0), 2))) OP(qrotate, quat<real>::rotate(V(n(0)), .5, V(n(1)))) OP(fov, algebra::perspective_fov<DM>(60, 1.5, 1, 9, n(0), n(1)))
  if (f == "bitrev") { DV v = V(n(0)); swap_bit_reverse(v, (unsigned) n(1)); put(o, v); return true; }
  OP(dice1, [&] { PRNG g = PRNG::xoshiro(9); return rand_diceroll(VD{a[0]}, g); }())
  if (f == "wls2") { mat2 cm; real p = 0, q = 0; regression::wls_linear(V(n(0)), V(n(1), 3), 1.0, 2.0, p, q, cm); put(o, p); put(o, q); return true; }
  OP(prop, stats::error_propagation<3>(ppf, vec<real, 3>({1, 2, 3}), M(n(0), n(1))))
  OP(rootsp, roots(polynomial<real>(VD(n(0), 1.0))).size() + a[0])
  return false;
}
static S en(int e) { return e == 0 ? "0" : e == EDOM ? "EDOM" : e == ERANGE ? "ERANGE" : e == EINVAL ? "EINVAL" : "other"; }
static const char* kind(int k) { return k == DIV_BY_ZERO ? "DIV_BY_ZERO" : k == OUT_OF_DOMAIN ? "OUT_OF_DOMAIN" : k == OUT_OF_RANGE ? "OUT_OF_RANGE" : k == IMPOSSIBLE_OPERATION ? "IMPOSSIBLE_OPERATION" : k == NO_ALGO_CONVERGENCE ? "NO_ALGO_CONVERGENCE" : k == INVALID_ARGUMENT ? "INVALID_ARGUMENT" : "other"; }
#if defined(THEORETICA_ONLY_EXCEPTIONS)
#define MODE "only"
#elif defined(THEORETICA_THROW_EXCEPTIONS)
#define MODE "throw"
#else
#define MODE "errno"
#endif
static void run(Tok& t, std::vector<Ev>& out) {
  S f = t.s();
  if (f == "clear") { reg = 0; out.push_back(Ev("clear").s("mode", MODE)); return; }
  VD a; while (t.more()) a.push_back(t.d());
  Ev e("call"); e.s("f", f).v("a", a).s("mode", MODE);
  S th, fn, file, what, text; bool known = true, std_ex = false; long line = 0; Out o; real val = 0;
  errno = reg;
#if defined(THEORETICA_ONLY_EXCEPTIONS) || defined(THEORETICA_THROW_EXCEPTIONS)
  try { known = exec(f, a, o); reg = errno; }
  catch (const std::exception& x) { reg = errno; std_ex = true; try { throw; } catch (const math_exception& m) { th = kind(m.err_code()); fn = m.get_function_name(); file = m.get_file_name(); line = m.get_line_number(); val = m.get_value(); text = m.to_string(); what = x.what(); } catch (...) { th = "foreign"; } o.v.clear(); }
  catch (const math_exception& m) { reg = errno; th = kind(m.err_code()); fn = m.get_function_name(); file = m.get_file_name(); line = m.get_line_number(); val = m.get_value(); text = m.to_string(); what = m.what(); o.v.clear(); }
#else
  known = exec(f, a, o); reg = errno;
#endif
  if (!known) bad(f);
  size_t sl = file.rfind('/'); if (sl != S::npos) file = file.substr(sl + 1);
  e.s("err", en(reg)).s("th", th).s("fn", fn).s("file", file).i("line", line).s("what", what).b("text", text.find(what) != S::npos && text.find(fn) != S::npos).b("std", std_ex).d("val", val).v("r", o.v); out.push_back(e);
}
int main(int c, char** v) { return vt::vt_main(c, v, run, [] { reg = 0; }); }
