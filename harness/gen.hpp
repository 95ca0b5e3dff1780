// Generators for shells, potentials, geometries; conversion to libgrpp objects; comparison helpers.
#pragma once
#include "engine.hpp"
#include "ref.hpp"
extern "C" {
#include "libgrpp.h"
}
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <memory>

using ref::Fn;
using ref::Mat;
using ref::PotSpec;
using ref::ShellSpec;
using ref::V3;

inline int ncart(int L) { return (L + 1) * (L + 2) / 2; }

// ---- library objects with automatic release --------------------------------------------------------
struct Shell {
    libgrpp_shell_t *p;
    explicit Shell(const ShellSpec &s)
    {
        V3 o = s.origin;
        p = libgrpp_new_shell(o.data(), s.L, s.alpha.size(), const_cast<double *>(s.coeffs.data()), const_cast<double *>(s.alpha.data()));
    }
    Shell(const Shell &) = delete;
    ~Shell() { libgrpp_delete_shell(p); }
    operator libgrpp_shell_t *() const { return p; }
};
struct Pot {
    libgrpp_potential_t *p;
    explicit Pot(const PotSpec &u)
    {
        p = libgrpp_new_potential(u.L, u.J, u.powers.size(), const_cast<int *>(u.powers.data()), const_cast<double *>(u.coeffs.data()),
                                  const_cast<double *>(u.alpha.data()));
    }
    Pot(const Pot &) = delete;
    ~Pot() { libgrpp_delete_potential(p); }
    operator libgrpp_potential_t *() const { return p; }
};

// ---- generators ------------------------------------------------------------------------------------
enum Regime { VALENCE = 0, MEDIUM = 1, BROAD = 2 };

inline double gen_exponent(Source &s, int regime)
{
    switch (regime) {
        case VALENCE: return s.logreal(0.1, 5.0);
        case MEDIUM: return s.logreal(0.02, 60.0);
        default: return s.logreal(0.005, 3000.0);
    }
}

inline double gen_coef(Source &s, bool zeros)
{
    if (zeros && s.chance(1, 12)) return 0.0;
    double v = s.real(0.1, 2.0);
    return s.chance(1, 2) ? -v : v;
}

inline ShellSpec gen_shell(Source &s, int Lmin, int Lmax, int maxprim, int regime, const V3 &center, bool zeros = true)
{
    ShellSpec sh;
    sh.L = s.range(Lmin, Lmax);
    sh.origin = center;
    int n = s.range(1, maxprim);
    if (maxprim > 1 && sh.L <= 2 && s.chance(1, 16)) n = s.range(1, 14);      // long contraction
    for (int i = 0; i < n; i++) {
        sh.alpha.push_back(gen_exponent(s, regime));
        sh.coeffs.push_back(gen_coef(s, zeros && i > 0));
    }
    if (n > 1 && s.chance(1, 10)) sh.alpha[1] = sh.alpha[0];     // repeated exponent
    return sh;
}

// contraction coefficients over many orders of magnitude (contributions of very different size)
inline void spread_coefs(Source &s, ShellSpec &sh, double lo, double hi)
{
    for (double &c : sh.coeffs) c *= s.logreal(lo, hi);
}
// tight functions: all exponents times one common factor
inline void steepen(Source &s, ShellSpec &sh, double hi)
{
    double f = s.logreal(1.0, hi);
    for (double &a : sh.alpha) a *= f;
}

inline PotSpec gen_pot(Source &s, int L, int J, int maxprim, int regime, const std::vector<int> &powers, bool zeros = true)
{
    PotSpec u;
    u.L = L;
    u.J = J;
    int n = s.range(1, maxprim);
    if (maxprim > 1 && s.chance(1, 16)) n = s.range(1, 14);
    for (int i = 0; i < n; i++) {
        u.powers.push_back(s.pick(powers));
        double a = gen_exponent(s, regime);
        u.alpha.push_back(a);
        double c = gen_coef(s, zeros && i > 0);
        if (s.chance(1, 4)) c *= 20;
        u.coeffs.push_back(c);
    }
    return u;
}

// no terms at all, or only terms that do not contribute
inline void make_empty(Source &s, PotSpec &u)
{
    if (s.chance(1, 2)) { u.powers.clear(); u.coeffs.clear(); u.alpha.clear(); }
    else for (double &x : u.coeffs) x = 0;
}

struct Geometry { V3 A, B, C; std::string kind; };

inline double gen_coord(Source &s, double span)
{
    if (s.chance(1, 8)) return 0.0;
    return s.real(-span, span);
}

inline V3 gen_direction(Source &s)
{
    double z = s.real(-1.0, 1.0), phi = s.real(0.0, 6.283185307179586), r = std::sqrt(std::max(0.0, 1 - z * z));
    return V3{r * std::cos(phi), r * std::sin(phi), z};
}

inline V3 gen_point(Source &s, double span)
{
    switch (s.below(4)) {
        case 0: {                                                                             // on an axis, or nearly so
            V3 v{0, 0, 0};
            int ax = s.below(3);
            v[ax] = s.real(-span, span);
            if (s.chance(1, 3)) {
                double tilt = s.logreal(1e-12, 1e-2) * v[ax];
                v[(ax + 1) % 3] = tilt;
                if (s.chance(1, 2)) v[(ax + 2) % 3] = s.real(-1, 1) * tilt;
            }
            return v;
        }
        case 1: { V3 v{gen_coord(s, span), gen_coord(s, span), gen_coord(s, span)}; v[s.below(3)] = 0; return v; }
        default: return V3{s.real(-span, span), s.real(-span, span), s.real(-span, span)};
    }
}

// span: typical distance between the centres
inline Geometry gen_geometry(Source &s, double span)
{
    Geometry g;
    V3 o{0, 0, 0};
    if (!s.chance(1, 3)) o = V3{s.real(-2, 2), s.real(-2, 2), s.real(-2, 2)};
    auto off = [&](const V3 &p, const V3 &d) { return V3{p[0] + d[0], p[1] + d[1], p[2] + d[2]}; };
    int k = s.below(9);
    g.C = o;
    if (s.chance(1, 12)) span *= 4;                              // well separated centres
    switch (k) {
        case 0: g.A = g.B = g.C; g.kind = "A=B=C"; break;
        case 1: g.A = g.C; g.B = off(o, gen_point(s, span)); g.kind = "A=C"; break;
        case 2: g.B = g.C; g.A = off(o, gen_point(s, span)); g.kind = "B=C"; break;
        case 3: g.A = g.B = off(o, gen_point(s, span)); g.kind = "A=B"; break;
        case 4: {                                                            // nearly coincident centres
            double eps = s.logreal(1e-10, 1e-1);
            g.A = off(o, gen_point(s, eps));
            g.B = s.chance(1, 2) ? off(o, gen_point(s, span)) : off(g.A, gen_point(s, eps));
            if (s.chance(1, 2)) std::swap(g.A, g.B);
            g.kind = "near-coincident";
            break;
        }
        case 5: {                                                            // collinear
            V3 d = gen_point(s, 1.0);
            double t = s.real(-span, span), u = s.real(-span, span);
            g.A = off(o, V3{d[0] * t, d[1] * t, d[2] * t});
            g.B = off(o, V3{d[0] * u, d[1] * u, d[2] * u});
            g.kind = "collinear";
            break;
        }
        default: g.A = off(o, gen_point(s, span)); g.B = off(o, gen_point(s, span)); g.kind = "A,B,C distinct";
    }
    return g;
}

// ---- text ------------------------------------------------------------------------------------------
inline std::string txt(const V3 &v) { return strf("(%.17g,%.17g,%.17g)", v[0], v[1], v[2]); }
inline std::string txt(const std::vector<double> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += strf(i ? ",%.17g" : "%.17g", v[i]);
    return s + "]";
}
inline std::string txt(const std::vector<int> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += strf(i ? ",%d" : "%d", v[i]);
    return s + "]";
}
inline std::string txt(const ShellSpec &s) { return strf("{L=%d at %s c=%s a=%s}", s.L, txt(s.origin).c_str(), txt(s.coeffs).c_str(), txt(s.alpha).c_str()); }
inline std::string txt(const PotSpec &u)
{
    return strf("{L=%d J=%d n=%s d=%s z=%s}", u.L, u.J, txt(u.powers).c_str(), txt(u.coeffs).c_str(), txt(u.alpha).c_str());
}

// ---- comparison ------------------------------------------------------------------------------------
// tolerance of one element = rel * (largest natural magnitude in the matrix) + noise * (magnitude before
// angular cancellation) + abs.  Natural magnitudes are integrals of absolute values, computed by the reference.
struct Tol { double rel = 1e-10, noise = 1e-13, abs = 1e-11; };

inline double maxof(const std::vector<double> &v)
{
    double m = 0;
    for (double x : v) m = std::max(m, std::fabs(x));
    return m;
}
inline double dist(const V3 &a, const V3 &b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }

// type 2 / spin-orbit radial quadrature: accuracy class by angular momenta and exponents (calibrated, DESIGN.md)
inline Tol semilocal_tol(const ShellSpec &a, const ShellSpec &b, const V3 &C, const PotSpec &u, int extra = 0)
{
    int Ls = a.L + b.L + extra;
    double am = std::max(maxof(a.alpha), maxof(b.alpha));
    static const double t[3][12] = {{1e-10, 1e-10, 1e-10, 1e-10, 1e-9, 3e-9, 3e-8, 1e-7, 1e-7, 2e-5, 2e-5, 3e-4},
                                    {1e-9, 1e-9, 1e-9, 1e-9, 3e-8, 3e-7, 3e-6, 3e-5, 3e-5, 1e-4, 1e-4, 3e-4},
                                    {1e-9, 1e-9, 1e-9, 1e-7, 1e-6, 1e-5, 1e-5, 3e-5, 3e-5, 1e-4, 1e-4, 3e-4}};
    Tol r;
    double da = dist(a.origin, C), db = dist(b.origin, C);
    r.rel = t[am <= 5 ? 0 : am <= 60 ? 1 : 2][std::min(Ls, 11)];
    // very sharp functions away from (or slightly off) the potential: the radial grid may miss them
    // (measured over 4000 cases with exponents up to 3e4: no such misses for L_A+L_B <= 2, errors below 2e-12)
    if (a.L + b.L <= 2 && u.L <= 2 && std::max(da, db) > 1e-3) r.rel = am > 60 ? std::max(r.rel, 1e-8) : r.rel;
    else {
        if (am > 60 && da + db > 0) r.rel = std::max(r.rel, std::max(maxof(a.alpha) * da * da, maxof(b.alpha) * db * db) > 300 ? 0.3 : 1e-6);
        if (am > 5 && (std::max(da, db) < 0.1) && da + db > 0) r.rel = std::max(r.rel, Ls <= 3 ? 3e-6 : 1e-4);
    }
    r.noise = 3e-11;
    r.abs = Ls < 7 ? 3e-11 : 3e-10;
    // functions far from the potential: the 1e-16 tolerance of the radial integrals is amplified by d^L
    auto amp = [](const ShellSpec &s, double d, int e) {
        double w = 0;
        for (size_t i = 0; i < s.alpha.size(); i++) w += std::fabs(s.coeffs[i]) * ref::norm_prim(s.L, s.alpha[i]);
        return w * std::pow(std::max(d, 1.0), s.L + e);
    };
    double w = 0;
    for (double d : u.coeffs) w += std::fabs(d);
    double far = std::max(da, db);
    r.abs += (far > 8 ? 2e-12 : far > 4 ? 1e-13 : 1e-16) * w * amp(a, da, 0) * amp(b, db, extra);
    if (extra) r.abs *= 3 + 0.3 * u.L;                     // spin-orbit: matrix elements of the angular momentum
    return r;
}
// both centres closer than 1e-7 to the potential: the one-centre branch neglects the offset; returns the
// first-order size of what is neglected (to be multiplied by the magnitude of the plain integral)
inline double tiny_offset(const ShellSpec &a, const ShellSpec &b, const V3 &C)
{
    double da = dist(a.origin, C), db = dist(b.origin, C), am = std::max(maxof(a.alpha), maxof(b.alpha));
    if (da + db > 0 && da < 1.01e-7 && db < 1.01e-7) return 4 * std::max(da, db) * std::sqrt(am) * (a.L + b.L + 2);
    return 0;
}

// type 1: closed recursions, rounding errors only (amplified by the angular recursion)
inline Tol type1_tol()
{
    Tol r;
    r.rel = 1e-10;
    r.noise = 1e-11;
    r.abs = 1e-12;
    return r;
}
// outercore: products of type 1 and overlap integrals
inline Tol outercore_tol()
{
    Tol r;
    r.rel = 3e-9;
    r.noise = 1e-11;
    r.abs = 1e-12;
    return r;
}

inline void cmp1(Ctx &c, const std::string &what, double got, double want, double tol)
{
    c.elementary++;
    double err = std::fabs(got - want);
    c.ratio(tol > 0 ? err / tol : err > 0 ? 1e9 : 0);
    if (!(err <= tol)) c.fail(strf("%s: library %.17g, expected %.17g, error %.3g, tolerance %.3g", what.c_str(), got, want, err, tol));
}

inline void compare(Ctx &c, const std::string &what, const double *got, const Mat &r, const Tol &t)
{
    double tol = t.rel * maxof(r.s) + t.noise * maxof(r.z) + t.abs;
    for (int i = 0; i < r.na; i++)
        for (int j = 0; j < r.nb; j++) {
            size_t k = (size_t)i * r.nb + j;
            cmp1(c, strf("%s element (%d,%d)", what.c_str(), i, j), got[k], r.v[k], tol);
        }
}

// output buffer with poisoned contents and guard zones
struct OutBuf {
    std::vector<double> v;
    size_t n;
    static constexpr size_t G = 64;
    explicit OutBuf(size_t n_, double fill = 12345.678) : v(n_ + 2 * G, -7.25e99), n(n_)
    {
        for (size_t i = 0; i < n; i++) v[G + i] = fill;
    }
    double *p() { return v.data() + G; }
    const double *p() const { return v.data() + G; }
    bool guards_ok() const
    {
        for (size_t i = 0; i < G; i++) if (v[i] != -7.25e99 || v[G + n + i] != -7.25e99) return false;
        return true;
    }
};
