#include "ref.hpp"
#include <algorithm>
#include <cstring>
#include <map>

namespace ref {

static const double PI = 3.14159265358979323846;

void gauss_legendre(int n, const double **x, const double **w)
{
    static std::map<int, std::pair<std::vector<double>, std::vector<double>>> cache;
    auto it = cache.find(n);
    if (it == cache.end()) {
        std::vector<double> xs(n), ws(n);
        for (int i = 0; i < n; i++) {
            long double z = cosl(3.14159265358979323846L * (i + 0.75L) / (n + 0.5L)), pp = 0;
            for (int iter = 0; iter < 100; iter++) {
                long double p1 = 1, p2 = 0;
                for (int j = 0; j < n; j++) {
                    long double p3 = p2;
                    p2 = p1;
                    p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1);
                }
                pp = n * (z * p1 - p2) / (z * z - 1);
                long double dz = p1 / pp;
                z -= dz;
                if (fabsl(dz) < 1e-19L) break;
            }
            xs[i] = (double)z;
            ws[i] = (double)(2 / ((1 - z * z) * pp * pp));
        }
        it = cache.emplace(n, std::make_pair(xs, ws)).first;
    }
    *x = it->second.first.data();
    *w = it->second.second.data();
}

// Gauss-Hermite, weight exp(-x^2), long double
static void gauss_hermite(int n, const long double **x, const long double **w)
{
    static std::map<int, std::pair<std::vector<long double>, std::vector<long double>>> cache;
    auto it = cache.find(n);
    if (it == cache.end()) {
        std::vector<long double> xs, ws;
        // roots of the orthonormal Hermite polynomial by scanning for sign changes + bisection/Newton
        auto h = [n](long double t, long double *d) {
            long double p1 = 0.7511255444649425L, p2 = 0;
            // exact pi^(-1/4)
            p1 = powl(3.14159265358979323846264338327950288L, -0.25L);
            for (int j = 0; j < n; j++) {
                long double p3 = p2;
                p2 = p1;
                p1 = t * sqrtl(2.0L / (j + 1)) * p2 - sqrtl((long double)j / (j + 1)) * p3;
            }
            *d = sqrtl(2.0L * n) * p2;
            return p1;
        };
        long double lim = sqrtl(2.0L * n) + 1.0L, step = lim / (n * 40.0L), d;
        long double a = -lim, fa = h(a, &d);
        while (a < lim) {
            long double b = a + step, fb = h(b, &d);
            if ((fa < 0) != (fb < 0)) {
                long double lo = a, hi = b, flo = fa;
                for (int k = 0; k < 90; k++) {
                    long double m = 0.5L * (lo + hi), fm = h(m, &d);
                    if ((flo < 0) == (fm < 0)) { lo = m; flo = fm; } else hi = m;
                }
                long double r = 0.5L * (lo + hi);
                h(r, &d);
                xs.push_back(r);
                ws.push_back(2.0L / (d * d));
            }
            a = b;
            fa = fb;
        }
        if ((int)xs.size() != n) { fprintf(stderr, "gauss_hermite(%d): %zu roots\n", n, xs.size()); abort(); }
        it = cache.emplace(n, std::make_pair(xs, ws)).first;
    }
    *x = it->second.first.data();
    *w = it->second.second.data();
}

std::vector<std::array<int, 3>> cart_list(int L)
{
    std::vector<std::array<int, 3>> r;
    for (int a = L; a >= 0; a--)
        for (int b = L - a; b >= 0; b--) r.push_back({a, b, L - a - b});
    return r;
}

double norm_prim(int L, double alpha)
{
    return std::pow(2 * alpha / PI, 0.75) * std::pow(4 * alpha, 0.5 * L);
}

Fn make_fn(const ShellSpec &s)
{
    Fn f;
    f.center = s.origin;
    f.alpha = s.alpha;
    auto cl = cart_list(s.L);
    f.ncomp = cl.size();
    f.deg = s.L;
    for (size_t k = 0; k < s.alpha.size(); k++) {
        std::vector<Poly> row;
        double c = s.coeffs[k] * norm_prim(s.L, s.alpha[k]);
        for (auto &t : cl) row.push_back({Mono{c, {t[0], t[1], t[2]}}});
        f.rows.push_back(row);
    }
    return f;
}

static void add_mono(Poly &p, double c, int a, int b, int d)
{
    if (c == 0 || a < 0 || b < 0 || d < 0) return;
    for (auto &m : p)
        if (m.n[0] == a && m.n[1] == b && m.n[2] == d) { m.c += c; return; }
    p.push_back(Mono{c, {a, b, d}});
}

// derivative with respect to the argument of poly*exp(-alpha r^2)
static Poly dpoly(const Poly &p, int axis, double alpha)
{
    Poly q;
    for (auto &m : p) {
        int n[3] = {m.n[0], m.n[1], m.n[2]};
        n[axis] = m.n[axis] - 1;
        add_mono(q, m.c * m.n[axis], n[0], n[1], n[2]);
        n[axis] = m.n[axis] + 1;
        add_mono(q, -2 * alpha * m.c, n[0], n[1], n[2]);
    }
    return q;
}

Fn d_r(const Fn &f, int axis)
{
    Fn g = f;
    g.deg = f.deg + 1;
    for (size_t k = 0; k < f.rows.size(); k++)
        for (int i = 0; i < f.ncomp; i++) g.rows[k][i] = dpoly(f.rows[k][i], axis, f.alpha[k]);
    return g;
}

Fn d_center(const Fn &f, int axis)
{
    Fn g = d_r(f, axis);
    for (auto &r : g.rows)
        for (auto &p : r)
            for (auto &m : p) m.c = -m.c;
    return g;
}

Fn laplacian(const Fn &f)
{
    Fn g = f;
    g.deg = f.deg + 2;
    for (size_t k = 0; k < f.rows.size(); k++)
        for (int i = 0; i < f.ncomp; i++) {
            Poly s;
            for (int ax = 0; ax < 3; ax++) {
                Poly q = dpoly(dpoly(f.rows[k][i], ax, f.alpha[k]), ax, f.alpha[k]);
                for (auto &m : q) add_mono(s, m.c, m.n[0], m.n[1], m.n[2]);
            }
            g.rows[k][i] = s;
        }
    return g;
}

Fn rot_about(const Fn &f, const V3 &C, int axis)
{
    int y = (axis + 1) % 3, z = (axis + 2) % 3;
    double dy = f.center[y] - C[y], dz = f.center[z] - C[z];
    Fn g = f;
    bool off = dy != 0 || dz != 0;
    g.deg = f.deg + (off ? 1 : 0);
    for (size_t k = 0; k < f.rows.size(); k++)
        for (int i = 0; i < f.ncomp; i++) {
            // (y + dy) d/dz - (z + dz) d/dy; the terms quadratic in the coordinates cancel exactly
            Poly out;
            const Poly &p = f.rows[k][i];
            for (auto &m : p) {
                int n[3] = {m.n[0], m.n[1], m.n[2]};
                n[y]++; n[z]--;
                add_mono(out, m.c * m.n[z], n[0], n[1], n[2]);
                n[y] = m.n[y] - 1; n[z] = m.n[z] + 1;
                add_mono(out, -m.c * m.n[y], n[0], n[1], n[2]);
            }
            if (dy != 0)
                for (auto &m : dpoly(p, z, f.alpha[k])) add_mono(out, dy * m.c, m.n[0], m.n[1], m.n[2]);
            if (dz != 0)
                for (auto &m : dpoly(p, y, f.alpha[k])) add_mono(out, -dz * m.c, m.n[0], m.n[1], m.n[2]);
            g.rows[k][i] = out;
        }
    return g;
}

void real_ylm(int l, const double *d, double *out)
{
    // associated Legendre functions divided by sin^m, times Re/Im (x+iy)^m
    double x = d[0], y = d[1], z = d[2];
    double c = 1, s = 0;
    double pmm = std::sqrt(1.0 / (4 * PI));   // normalised
    for (int m = 0; m <= l; m++) {
        if (m > 0) {
            double c2 = c * x - s * y, s2 = c * y + s * x;
            c = c2;
            s = s2;
            pmm *= std::sqrt((2.0 * m + 1) / (2.0 * m));
        }
        double pl2 = 0, pl1 = pmm, pl = pmm;
        for (int ll = m + 1; ll <= l; ll++) {
            double a = std::sqrt((4.0 * ll * ll - 1) / ((double)ll * ll - (double)m * m));
            double b = std::sqrt(((ll - 1.0) * (ll - 1.0) - (double)m * m) / (4.0 * (ll - 1.0) * (ll - 1.0) - 1));
            pl = a * (z * pl1 - (ll - 1 > m ? b : 0.0) * pl2);
            pl2 = pl1;
            pl1 = pl;
        }
        if (m == 0) out[l] = pl;
        else {
            out[l + m] = std::sqrt(2.0) * pl * c;
            out[l - m] = std::sqrt(2.0) * pl * s;
        }
    }
}

static void frame(const V3 &a, double *d, double e[3][3])
{
    *d = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    double n[3] = {0, 0, 1};
    if (*d > 0) for (int i = 0; i < 3; i++) n[i] = a[i] / *d;
    int k = 0;
    for (int i = 1; i < 3; i++) if (std::fabs(n[i]) < std::fabs(n[k])) k = i;
    double t[3] = {0, 0, 0};
    t[k] = 1;
    double u[3] = {n[1] * t[2] - n[2] * t[1], n[2] * t[0] - n[0] * t[2], n[0] * t[1] - n[1] * t[0]};
    double nu = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
    for (int i = 0; i < 3; i++) u[i] /= nu;
    double v[3] = {n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2], n[0] * u[1] - n[1] * u[0]};
    for (int i = 0; i < 3; i++) { e[0][i] = u[i]; e[1][i] = v[i]; e[2][i] = n[i]; }
}

// evaluate all components (without the exponential) at point q relative to the centre
static void eval_rows(const std::vector<Poly> &rows, int deg, const double *q, double *out)
{
    double pw[3][32];
    for (int a = 0; a < 3; a++) {
        pw[a][0] = 1;
        for (int i = 1; i <= deg; i++) pw[a][i] = pw[a][i - 1] * q[a];
    }
    for (size_t i = 0; i < rows.size(); i++) {
        double s = 0;
        for (auto &m : rows[i]) s += m.c * pw[0][m.n[0]] * pw[1][m.n[1]] * pw[2][m.n[2]];
        out[i] = s;
    }
}

// projections onto Y_lm of primitive k at radius r around C; the factor exp(-alpha (r-d)^2) is left out.
// out[(comp)*(2l+1)+m]; absint[comp] = sqrt((2l+1)/4pi) * integral of |f_comp|
static void project(const Fn &f, int k, const V3 &C, int l, double r, std::vector<double> &out, std::vector<double> &absint)
{
    V3 a = {f.center[0] - C[0], f.center[1] - C[1], f.center[2] - C[2]};
    double d, e[3][3];
    frame(a, &d, e);
    int deg = f.deg + l;
    int nphi = deg + 1;
    double kappa = 2 * f.alpha[k] * r * d;
    double h = kappa > 0 ? std::min(2.0, 48.0 / kappa) : 2.0;
    int nth = kappa > 0 ? 34 + deg / 2 : deg / 2 + 2;
    const double *x, *w;
    gauss_legendre(nth, &x, &w);
    int nm = 2 * l + 1;
    out.assign((size_t)f.ncomp * nm, 0.0);
    absint.assign(f.ncomp, 0.0);
    double yn = std::sqrt((2 * l + 1) / (4 * PI));
    std::vector<double> val(f.ncomp), y(nm);
    std::vector<double> cs(nphi), sn(nphi);
    for (int j = 0; j < nphi; j++) { cs[j] = std::cos(2 * PI * j / nphi); sn[j] = std::sin(2 * PI * j / nphi); }
    for (int i = 0; i < nth; i++) {
        double t = 0.5 * h * (1 - x[i]);            // 1 - cos(theta), in [0,h]
        double u = 1 - t, st = std::sqrt(std::max(0.0, t * (2 - t)));
        double wt = w[i] * 0.5 * h * std::exp(-kappa * t) * 2 * PI / nphi;
        for (int j = 0; j < nphi; j++) {
            double dir[3], q[3];
            for (int b = 0; b < 3; b++) {
                double perp = st * (cs[j] * e[0][b] + sn[j] * e[1][b]);
                dir[b] = perp + u * e[2][b];
                q[b] = r * perp + ((r - d) - r * t) * e[2][b];   // r*dir - a without cancellation
            }
            eval_rows(f.rows[k], f.deg, q, val.data());
            real_ylm(l, dir, y.data());
            for (int m = 0; m < nm; m++) y[m] *= wt;
            for (int c = 0; c < f.ncomp; c++) {
                double vc = val[c];
                if (vc == 0) continue;
                absint[c] += std::fabs(vc) * wt * yn;
                double *o = &out[(size_t)c * nm];
                for (int m = 0; m < nm; m++) o[m] += vc * y[m];
            }
        }
    }
}

static double dist(const V3 &a, const V3 &b)
{
    return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}

// radial nodes for exp(-p (r-r0)^2): list of (r, w)
static void radial_nodes(double p, double r0, std::vector<std::pair<double, double>> &out, int npan = 3, int npt = 26)
{
    double wd = 10.0 / std::sqrt(p);
    double lo = std::max(0.0, r0 - wd), hi = r0 + wd;
    const double *x, *w;
    gauss_legendre(npt, &x, &w);
    out.clear();
    for (int q = 0; q < npan; q++) {
        double a = lo + (hi - lo) * q / npan, b = lo + (hi - lo) * (q + 1) / npan;
        for (int i = 0; i < npt; i++) out.push_back({0.5 * (a + b) + 0.5 * (b - a) * x[i], 0.5 * (b - a) * w[i]});
    }
}

static Mat semilocal(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U)
{
    Mat M;
    M.init(A.ncomp, B.ncomp);
    int l = U.L, nm = 2 * l + 1;
    double dA = dist(A.center, C), dB = dist(B.center, C);
    std::vector<std::pair<double, double>> nodes;
    std::vector<double> pa, pb, za, zb;
    for (size_t i = 0; i < A.alpha.size(); i++)
        for (size_t j = 0; j < B.alpha.size(); j++)
            for (size_t k = 0; k < U.alpha.size(); k++) {
                if (U.coeffs[k] == 0) continue;
                double al = A.alpha[i], be = B.alpha[j], p = al + be + U.alpha[k];
                double r0 = (al * dA + be * dB) / p;
                double lnK = -(al * dA * dA + be * dB * dB - p * r0 * r0);
                if (lnK < -200) continue;
                radial_nodes(p, r0, nodes);
                for (auto &nd : nodes) {
                    double r = nd.first;
                    double f = nd.second * U.coeffs[k] * std::pow(r, U.powers[k]) *
                               std::exp(-p * (r - r0) * (r - r0) + lnK);
                    if (f == 0 || std::fabs(f) < 1e-290) continue;
                    project(A, i, C, l, r, pa, za);
                    project(B, j, C, l, r, pb, zb);
                    std::vector<double> nb(B.ncomp);
                    for (int b = 0; b < B.ncomp; b++) {
                        double s = 0;
                        for (int m = 0; m < nm; m++) s += pb[(size_t)b * nm + m] * pb[(size_t)b * nm + m];
                        nb[b] = std::sqrt(s);
                    }
                    for (int a = 0; a < A.ncomp; a++) {
                        double na = 0;
                        for (int m = 0; m < nm; m++) na += pa[(size_t)a * nm + m] * pa[(size_t)a * nm + m];
                        na = std::sqrt(na);
                        for (int b = 0; b < B.ncomp; b++) {
                            double s = 0;
                            for (int m = 0; m < nm; m++) s += pa[(size_t)a * nm + m] * pb[(size_t)b * nm + m];
                            M.v[(size_t)a * B.ncomp + b] += f * s;
                            M.s[(size_t)a * B.ncomp + b] += std::fabs(f) * na * nb[b];
                            M.z[(size_t)a * B.ncomp + b] += std::fabs(f) * za[a] * zb[b];
                        }
                    }
                }
            }
    return M;
}

Mat type2(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U) { return semilocal(A, B, C, U); }

Mat so(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U, int axis)
{
    Mat m = semilocal(A, rot_about(B, C, axis), C, U);
    for (auto &x : m.v) x = -x;
    return m;
}

// radial density of the product of two primitives on the sphere of radius r
struct PairAng {
    V3 a, b;
    double q, e[3][3], p, r0, lnK;
    PairAng(const Fn &A, size_t i, const Fn &B, size_t j, const V3 &C)
    {
        double al = A.alpha[i], be = B.alpha[j];
        V3 k;
        double a2 = 0, b2 = 0;
        for (int c = 0; c < 3; c++) {
            a[c] = A.center[c] - C[c];
            b[c] = B.center[c] - C[c];
            k[c] = al * a[c] + be * b[c];
            a2 += a[c] * a[c];
            b2 += b[c] * b[c];
        }
        frame(k, &q, e);
        p = al + be;
        r0 = q / p;
        // exponent at its maximum: q^2/p - al a^2 - be b^2 = -al*be/p |a-b|^2
        double ab2 = 0;
        for (int c = 0; c < 3; c++) ab2 += (a[c] - b[c]) * (a[c] - b[c]);
        lnK = -al * be / p * ab2;
        (void)a2; (void)b2;
    }
    void angular(const Fn &A, size_t i, const Fn &B, size_t j, double r, std::vector<double> &v, std::vector<double> &s)
    {
        int deg = A.deg + B.deg, nphi = deg + 1;
        double kappa = 2 * r * q;
        double h = kappa > 0 ? std::min(2.0, 48.0 / kappa) : 2.0;
        int nth = kappa > 0 ? 30 + deg / 2 : deg / 2 + 2;
        const double *x, *w;
        gauss_legendre(nth, &x, &w);
        v.assign((size_t)A.ncomp * B.ncomp, 0.0);
        s.assign((size_t)A.ncomp * B.ncomp, 0.0);
        std::vector<double> va(A.ncomp), vb(B.ncomp);
        for (int t = 0; t < nth; t++) {
            double tt = 0.5 * h * (1 - x[t]);
            double u = 1 - tt, st = std::sqrt(std::max(0.0, tt * (2 - tt)));
            double wt = w[t] * 0.5 * h * std::exp(-kappa * tt) * 2 * PI / nphi;
            for (int f = 0; f < nphi; f++) {
                double cf = std::cos(2 * PI * f / nphi), sf = std::sin(2 * PI * f / nphi), qa[3], qb[3];
                for (int c = 0; c < 3; c++) {
                    double d = r * (st * (cf * e[0][c] + sf * e[1][c]) + u * e[2][c]);
                    qa[c] = d - a[c];
                    qb[c] = d - b[c];
                }
                eval_rows(A.rows[i], A.deg, qa, va.data());
                eval_rows(B.rows[j], B.deg, qb, vb.data());
                for (int ia = 0; ia < A.ncomp; ia++) {
                    double g = wt * va[ia];
                    double *vv = &v[(size_t)ia * B.ncomp], *ss = &s[(size_t)ia * B.ncomp];
                    for (int ib = 0; ib < B.ncomp; ib++) {
                        double z = g * vb[ib];
                        vv[ib] += z;
                        ss[ib] += std::fabs(z);
                    }
                }
            }
        }
    }
};

Mat type1(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U)
{
    Mat M;
    M.init(A.ncomp, B.ncomp);
    std::vector<std::pair<double, double>> nodes;
    std::vector<double> v, s;
    for (size_t i = 0; i < A.alpha.size(); i++)
        for (size_t j = 0; j < B.alpha.size(); j++) {
            PairAng pa(A, i, B, j, C);
            for (size_t k = 0; k < U.alpha.size(); k++) {
                if (U.coeffs[k] == 0) continue;
                double p = pa.p + U.alpha[k], r0 = pa.q / p;
                // total exponent: -p (r-r0)^2 + p r0^2 - pa.p pa.r0^2 + lnK
                double lnK = pa.lnK + pa.q * pa.q / p - pa.q * pa.q / pa.p;
                if (lnK < -200) continue;
                radial_nodes(p, r0, nodes);
                for (auto &nd : nodes) {
                    double r = nd.first;
                    double f = nd.second * U.coeffs[k] * std::pow(r, U.powers[k]) *
                               std::exp(-p * (r - r0) * (r - r0) + lnK);
                    if (std::fabs(f) < 1e-290) continue;
                    pa.angular(A, i, B, j, r, v, s);
                    for (size_t n = 0; n < v.size(); n++) { M.v[n] += f * v[n]; M.s[n] += std::fabs(f) * s[n]; M.z[n] += std::fabs(f) * s[n]; }
                }
            }
        }
    return M;
}

Mat radial_local(const Fn &A, const Fn &B, const V3 &C, const std::function<double(double)> &U,
                 const std::vector<double> &breaks)
{
    Mat M;
    M.init(A.ncomp, B.ncomp);
    std::vector<double> v, s;
    const int NPT = 22;
    const double *x, *w;
    gauss_legendre(NPT, &x, &w);
    for (size_t i = 0; i < A.alpha.size(); i++)
        for (size_t j = 0; j < B.alpha.size(); j++) {
            PairAng pa(A, i, B, j, C);
            if (pa.lnK < -200) continue;
            double wd = 10.0 / std::sqrt(pa.p), lo = std::max(0.0, pa.r0 - wd), hi = pa.r0 + wd;
            std::vector<double> ed = {lo, hi, lo + (hi - lo) / 4, lo + (hi - lo) / 2, lo + 3 * (hi - lo) / 4};
            for (double b : breaks) if (b > lo && b < hi) ed.push_back(b);
            std::sort(ed.begin(), ed.end());
            for (size_t q = 0; q + 1 < ed.size(); q++) {
                double a = ed[q], b = ed[q + 1];
                if (!(b > a)) continue;
                for (int t = 0; t < NPT; t++) {
                    double r = 0.5 * (a + b) + 0.5 * (b - a) * x[t];
                    double f = 0.5 * (b - a) * w[t] * r * r * U(r) * std::exp(-pa.p * (r - pa.r0) * (r - pa.r0) + pa.lnK);
                    if (std::fabs(f) < 1e-290) continue;
                    pa.angular(A, i, B, j, r, v, s);
                    for (size_t n = 0; n < v.size(); n++) { M.v[n] += f * v[n]; M.s[n] += std::fabs(f) * s[n]; M.z[n] += std::fabs(f) * s[n]; }
                }
            }
        }
    return M;
}

static double radial_norm(int l, double alpha)
{
    // int r^(2l+2) exp(-2 alpha r^2) dr = Gamma(l+3/2) / (2 (2 alpha)^(l+3/2))
    double I = std::exp(std::lgamma(l + 1.5)) / (2 * std::pow(2 * alpha, l + 1.5));
    return 1.0 / std::sqrt(I);
}

// <Y_lm R | F> for every component: [comp][m], and the magnitude
static void moment(const Fn &F, const V3 &C, const ShellSpec &sh, int l, const PotSpec *U, std::vector<double> &out,
                   std::vector<double> &mag, std::vector<double> &noise)
{
    int nm = 2 * l + 1;
    out.assign((size_t)F.ncomp * nm, 0.0);
    mag.assign((size_t)F.ncomp, 0.0);
    noise = mag;
    double d = dist(F.center, C);
    std::vector<std::pair<double, double>> nodes;
    std::vector<double> pf, zf;
    size_t nu = U ? U->alpha.size() : 1;
    for (size_t i = 0; i < F.alpha.size(); i++)
        for (size_t j = 0; j < sh.alpha.size(); j++)
            for (size_t k = 0; k < nu; k++) {
                double z = U ? U->alpha[k] : 0.0, cu = U ? U->coeffs[k] : 1.0;
                int n = U ? U->powers[k] : 2;
                double p = F.alpha[i] + sh.alpha[j] + z, r0 = F.alpha[i] * d / p;
                double lnK = -(F.alpha[i] * d * d - p * r0 * r0);
                if (lnK < -200 || cu == 0) continue;
                radial_nodes(p, r0, nodes);
                for (auto &nd : nodes) {
                    double r = nd.first;
                    double f = nd.second * cu * std::pow(r, n + l) * sh.coeffs[j] * radial_norm(l, sh.alpha[j]) *
                               std::exp(-p * (r - r0) * (r - r0) + lnK);
                    if (std::fabs(f) < 1e-290) continue;
                    project(F, i, C, l, r, pf, zf);
                    for (int c = 0; c < F.ncomp; c++) {
                        double s = 0;
                        for (int m = 0; m < nm; m++) {
                            double t = pf[(size_t)c * nm + m];
                            out[(size_t)c * nm + m] += f * t;
                            s += t * t;
                        }
                        mag[c] += std::fabs(f) * std::sqrt(s);
                        noise[c] += std::fabs(f) * zf[c];
                    }
                }
            }
}

static double radial_me(const ShellSpec &a, const ShellSpec &b, int l, const PotSpec &U, double *mag)
{
    double s = 0;
    *mag = 0;
    for (size_t i = 0; i < a.alpha.size(); i++)
        for (size_t j = 0; j < b.alpha.size(); j++)
            for (size_t k = 0; k < U.alpha.size(); k++) {
                double p = a.alpha[i] + b.alpha[j] + U.alpha[k];
                double e = 2 * l + U.powers[k];          // r^2 * r^(2l) * r^(n-2)
                double I = std::exp(std::lgamma((e + 1) / 2)) / (2 * std::pow(p, (e + 1) / 2));
                double t = a.coeffs[i] * b.coeffs[j] * U.coeffs[k] * radial_norm(l, a.alpha[i]) * radial_norm(l, b.alpha[j]) * I;
                s += t;
                *mag += std::fabs(t);
            }
    return s;
}

void outercore(const Fn &A, const Fn &B, const V3 &C, const std::vector<OC> &oc, Mat out[4])
{
    for (int q = 0; q < 4; q++) out[q].init(A.ncomp, B.ncomp);
    if (oc.empty()) return;
    size_t N = oc.size();
    Fn FB[4] = {B, rot_about(B, C, 0), rot_about(B, C, 1), rot_about(B, C, 2)};
    struct MM { std::vector<double> v, m, z; };
    std::vector<MM> aS(N), aU(N);
    std::vector<std::array<MM, 4>> bS(N), bU(N);
    for (size_t n = 0; n < N; n++) {
        int l = oc[n].U.L;
        moment(A, C, oc[n].shell, l, nullptr, aS[n].v, aS[n].m, aS[n].z);
        moment(A, C, oc[n].shell, l, &oc[n].U, aU[n].v, aU[n].m, aU[n].z);
        for (int q = 0; q < 4; q++) {
            moment(FB[q], C, oc[n].shell, l, nullptr, bS[n][q].v, bS[n][q].m, bS[n][q].z);
            moment(FB[q], C, oc[n].shell, l, &oc[n].U, bU[n][q].v, bU[n][q].m, bU[n][q].z);
        }
    }
    auto acc = [&](int q, int l, double f, double fabsf, const MM &x, const MM &y) {
        int nm = 2 * l + 1;
        for (int a = 0; a < A.ncomp; a++)
            for (int b = 0; b < B.ncomp; b++) {
                double s = 0;
                for (int m = 0; m < nm; m++) s += x.v[(size_t)a * nm + m] * y.v[(size_t)b * nm + m];
                out[q].v[(size_t)a * B.ncomp + b] += f * s;
                out[q].s[(size_t)a * B.ncomp + b] += fabsf * x.m[a] * y.m[b];
                out[q].z[(size_t)a * B.ncomp + b] += fabsf * x.z[a] * y.z[b];
            }
    };
    for (size_t n = 0; n < N; n++) {
        int l = oc[n].U.L;
        bool minus = oc[n].U.J < 2 * l;
        double fa = minus ? l / (2.0 * l + 1) : (l + 1) / (2.0 * l + 1);
        double fs = (minus ? -2.0 : 2.0) / (2 * l + 1);
        for (int q = 0; q < 4; q++) {
            double f = q == 0 ? fa : -fs;     // -(r x grad): the library's convention for SO matrices
            acc(q, l, f, std::fabs(f), aS[n], bU[n][q]);
            acc(q, l, f, std::fabs(f), aU[n], bS[n][q]);
        }
        for (size_t k = 0; k < N; k++) {
            if (oc[k].U.L != l || oc[k].U.J != oc[n].U.J) continue;
            double m1, m2;
            double d = 0.5 * (radial_me(oc[n].shell, oc[k].shell, l, oc[n].U, &m1) +
                              radial_me(oc[n].shell, oc[k].shell, l, oc[k].U, &m2));
            double dm = 0.5 * (m1 + m2);
            for (int q = 0; q < 4; q++) {
                double f = q == 0 ? fa : -fs;
                acc(q, l, -f * d, std::fabs(f) * dm, aS[n], bS[k][q]);
            }
        }
    }
}

Mat overlap(const Fn &A, const Fn &B)
{
    Mat M;
    M.init(A.ncomp, B.ncomp);
    int n = (A.deg + B.deg) / 2 + 2;
    const long double *x, *w;
    gauss_hermite(n, &x, &w);
    int da = A.deg, db = B.deg;
    std::vector<long double> T((size_t)3 * (da + 1) * (db + 1)), TA(T.size());
    for (size_t i = 0; i < A.alpha.size(); i++)
        for (size_t j = 0; j < B.alpha.size(); j++) {
            long double al = A.alpha[i], be = B.alpha[j], p = al + be, ab2 = 0;
            for (int c = 0; c < 3; c++) {
                long double t = (long double)A.center[c] - B.center[c];
                ab2 += t * t;
            }
            long double K = expl(-al * be / p * ab2);
            if (K == 0) continue;
            std::fill(T.begin(), T.end(), 0.0L);
            std::fill(TA.begin(), TA.end(), 0.0L);
            for (int c = 0; c < 3; c++) {
                long double D = (long double)B.center[c] - A.center[c];
                long double PA = be / p * D, PB = -al / p * D;   // P-A, P-B
                for (int t = 0; t < n; t++) {
                    long double xs = x[t] / sqrtl(p), wt = w[t] / sqrtl(p);
                    long double xa = xs + PA, xb = xs + PB, pa = 1;
                    for (int a = 0; a <= da; a++, pa *= xa) {
                        long double pb = 1;
                        for (int b = 0; b <= db; b++, pb *= xb) {
                            T[((size_t)c * (da + 1) + a) * (db + 1) + b] += wt * pa * pb;
                            TA[((size_t)c * (da + 1) + a) * (db + 1) + b] += wt * fabsl(pa * pb);
                        }
                    }
                }
            }
            auto at = [&](std::vector<long double> &Z, int c, int a, int b) { return Z[((size_t)c * (da + 1) + a) * (db + 1) + b]; };
            for (int a = 0; a < A.ncomp; a++)
                for (int b = 0; b < B.ncomp; b++) {
                    long double s = 0, m = 0;
                    for (auto &u : A.rows[i][a])
                        for (auto &v : B.rows[j][b]) {
                            s += (long double)u.c * v.c * at(T, 0, u.n[0], v.n[0]) * at(T, 1, u.n[1], v.n[1]) * at(T, 2, u.n[2], v.n[2]);
                            m += fabsl((long double)u.c * v.c) * at(TA, 0, u.n[0], v.n[0]) * at(TA, 1, u.n[1], v.n[1]) * at(TA, 2, u.n[2], v.n[2]);
                        }
                    M.v[(size_t)a * B.ncomp + b] += (double)(K * s);
                    M.s[(size_t)a * B.ncomp + b] += (double)(K * m);
                    M.z[(size_t)a * B.ncomp + b] += (double)(K * m);
                }
        }
    return M;
}

}
