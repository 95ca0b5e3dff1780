// Metamorphic properties: C11 bra/ket exchange, C12 rigid motions, C13 linearity, C14 orderings, C22 identities
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>

typedef std::vector<double> Vec;

static Op random_op(Ctx &c, int kind)
{
    Op o = gen_op(c.src, kind, limits_for(c.src, kind, c.thorough));
    c.label(kind_name(kind));
    return o;
}

static void mark(Ctx &c, const Vec &v)
{
    if (maxof(v) > 1e-6) c.nontrivial();
}

// ---- tolerances of relations between evaluations that share their kernels ---------------------------
static bool has_n0(const Op &o)
{
    auto n0 = [](const PotSpec &u) { for (int n : u.powers) if (n == 0) return true; return false; };
    if (kind_uses_u(o.kind)) return n0(o.u);
    if (kind_uses_oc(o.kind)) for (auto &x : o.oc) if (n0(x.U)) return true;
    return false;
}
static bool analytic(const Op &o)
{
    switch (o.kind) {
        case OVERLAP: case KINETIC: case MOMENTUM: case G_OVERLAP: case TYPE1: case G_TYPE1: case OUTER: case G_OUTER: return true;
        case NUCATT: return o.nuc.model == 0;
    }
    return false;
}
static const bool g_calm = getenv("CALM") != nullptr;
static void calm(const char *prop, const Op &o, double err, double z)
{
    static FILE *f = g_calm ? fopen(getenv("CALM"), "a") : nullptr;
    if (f) fprintf(f, "CALM %s %s an=%d n0=%d Ls=%d %.3g\n", prop, kind_name(o.kind), analytic(o), has_n0(o), o.a.L + o.b.L, err / (z + 1e-290)), fflush(f);
}

// analytic operators: both sides of the relations are sums of the same primitive integrals, so they agree to
// rounding errors (measured: below 3e-13 of the magnitude before cancellation); the others use adaptive grids
static Vec shared_tols(const Op &o)
{
    auto r = op_ref(o);
    if (!analytic(o)) return op_abs_tol(o, r);
    Vec t;
    double all = 0;
    for (auto &m : r) all = std::max(all, maxof(m.z));
    double rel = o.kind == OVERLAP || o.kind == KINETIC || o.kind == MOMENTUM || o.kind == G_OVERLAP ? 1e-9 : 1e-11;
    for (auto &m : r) t.push_back(rel * maxof(m.z) + 1e-13 * all + 1e-40);
    return t;
}

// the same for moved systems, where the coordinates and with them the arguments of the special functions are rounded anew
static Vec motion_tols(const Op &o)
{
    auto r = op_ref(o);
    if (!analytic(o)) return op_abs_tol(o, r);
    Vec t;
    double all = 0;
    for (auto &m : r) all = std::max(all, maxof(m.z));
    for (auto &m : r) t.push_back(1e-9 * maxof(m.z) + 1e-11 * all + 1e-40);
    return t;
}

// exchanged arguments: the quadratures see the same integrand, so the results agree far better than either is accurate
// (measured over 6000 cases: 6e-11 of the magnitude before cancellation for L_A+L_B <= 3, 2e-7 up to 7)
static Vec exchange_tols(const Op &o)
{
    Vec t = shared_tols(o);
    if (analytic(o)) return t;
    int Ls = o.a.L + o.b.L;
    if (Ls > 7) return t;
    auto r = op_ref(o);
    auto tol = op_tol(o, r);
    double all = 0;
    for (auto &m : r) all = std::max(all, maxof(m.z));
    for (size_t q = 0; q < t.size(); q++) t[q] = std::min(t[q], (Ls <= 3 ? 6e-10 : 3e-6) * maxof(r[q].z) + 1e-13 * all + tol[q].abs);
    return t;
}

// ---- C11 -------------------------------------------------------------------------------------------
static void prop_exchange(Ctx &c)
{
    int kind = c.src.below(NKIND);
    Op o = random_op(c, kind);
    if (c.src.chance(1, 10)) o.b = o.a;                   // a shell with itself
    if (c.src.chance(1, kind_uses_u(kind) ? 2 : 6)) {      // nearly, but not exactly on an axis through the potential
        ShellSpec &x = c.src.chance(1, 2) ? o.a : o.b;
        int ax = c.src.below(3);
        double d = c.src.real(0.3, 2.5), t = d * c.src.logreal(1e-12, 1e-3);
        x.origin = o.C;
        x.origin[ax] += c.src.chance(1, 2) ? d : -d;
        x.origin[(ax + 1) % 3] += t;
        if (c.src.chance(1, 2)) x.origin[(ax + 2) % 3] += c.src.real(-1, 1) * t;
        c.label("nearly on an axis");
    }
    c.describe(txt(o));
    Op w = o;
    std::swap(w.a, w.b);
    Vec x = eval(o), y = eval(w);
    auto t1 = exchange_tols(o), t2 = exchange_tols(w);
    int na = o.rows(), nb = o.cols(), n = na * nb;
    if (g_calm) {
        auto r = op_ref(o);
        for (int q = 0; q < kind_nmat(kind); q++) {
            double e = 0;
            for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) e = std::max(e, std::fabs(x[q * n + i * nb + j] - kind_sym(kind, q) * y[q * n + j * na + i]));
            calm("C11", o, e, maxof(r[q].z));
        }
    }
    for (int q = 0; q < kind_nmat(kind); q++)
        for (int i = 0; i < na; i++)
            for (int j = 0; j < nb; j++)
                cmp1(c, strf("%s matrix %d: element (%d,%d) and the exchanged one", kind_name(kind), q, i, j), x[q * n + i * nb + j],
                     kind_sym(kind, q) * y[q * n + j * na + i], t1[q] + t2[q]);
    mark(c, x);
}

// ---- C12 -------------------------------------------------------------------------------------------
struct Rot { double m[3][3]; double det; };

static Rot gen_rot(Source &s, std::string &what)
{
    Rot R;
    if (s.chance(1, 2)) {                                  // signed axis permutation
        int p[3] = {0, 1, 2};
        for (int i = 2; i > 0; i--) std::swap(p[i], p[s.below(i + 1)]);
        for (auto &r : R.m) for (double &x : r) x = 0;
        for (int i = 0; i < 3; i++) R.m[i][p[i]] = s.chance(1, 2) ? -1 : 1;
        what = "axis permutation";
    } else {
        double q[4], n = 0;
        for (double &x : q) { x = s.real(-1, 1); n += x * x; }
        if (n < 1e-3) { q[0] = 1; q[1] = q[2] = q[3] = 0; n = 1; }
        n = std::sqrt(n);
        double w = q[0] / n, x = q[1] / n, y = q[2] / n, z = q[3] / n;
        double m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
                          {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
                          {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
        double sg = s.chance(1, 2) ? -1 : 1;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.m[i][j] = sg * m[i][j];
        what = sg < 0 ? "improper rotation" : "rotation";
    }
    auto &m = R.m;
    R.det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
            m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    R.det = R.det > 0 ? 1 : -1;
    return R;
}

static V3 apply(const Rot &R, const V3 &v, const V3 &t)
{
    V3 o;
    for (int i = 0; i < 3; i++) o[i] = R.m[i][0] * v[0] + R.m[i][1] * v[1] + R.m[i][2] * v[2] + t[i];
    return o;
}

// D[j][i]: monomial i of (R^T y) expanded in the monomials j of y
static std::vector<Vec> cart_rotation(const Rot &R, int L)
{
    auto cl = ref::cart_list(L);
    int n = cl.size();
    auto index = [](int a, int b, int cc) {               // order: decreasing x, then decreasing y
        int L = a + b + cc, r = L - a;
        return r * (r + 1) / 2 + (r - b);
    };
    std::vector<Vec> D(n, Vec(n, 0.0));
    for (int i = 0; i < n; i++) {
        // polynomial as map over (a,b) for fixed total degree, built factor by factor
        Vec p(1, 1.0);
        int deg = 0;
        for (int ax = 0; ax < 3; ax++)
            for (int k = 0; k < cl[i][ax]; k++) {
                Vec q((deg + 2) * (deg + 3) / 2, 0.0);
                auto old = ref::cart_list(deg);
                for (size_t t = 0; t < old.size(); t++)
                    for (int mu = 0; mu < 3; mu++) {
                        int e[3] = {old[t][0], old[t][1], old[t][2]};
                        e[mu]++;
                        q[index(e[0], e[1], e[2])] += p[t] * R.m[mu][ax];
                    }
                p = q;
                deg++;
            }
        for (int j = 0; j < n; j++) D[j][i] = p[j];
    }
    return D;
}

static double colsum(const std::vector<Vec> &D)
{
    double m = 0;
    for (size_t i = 0; i < D.size(); i++) {
        double s = 0;
        for (size_t j = 0; j < D.size(); j++) s += std::fabs(D[j][i]);
        m = std::max(m, s);
    }
    return m;
}

// tensor character: for every group of matrices, 0 scalar, 1 polar vector, 2 axial vector (before the gradient index)
static void prop_motion(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(NKIND);
    Op o = random_op(c, kind);
    std::string what;
    bool pure = s.chance(1, 3);
    Rot R;
    if (pure) {
        what = "translation";
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.m[i][j] = i == j;
        R.det = 1;
    } else R = gen_rot(s, what);
    V3 t{0, 0, 0};
    if (pure || s.chance(1, 2)) { double span = s.pick(std::vector<double>{1, 10, 100}); for (double &x : t) x = s.real(-span, span); }
    // positions and displacement on a binary grid: the moved positions have exactly the same differences
    bool exact = pure && s.chance(1, 2);
    if (exact) {
        what = "exact translation";
        double g = std::ldexp(1.0, s.pick(std::vector<int>{0, 0, -4, -10}));          // size of the system
        auto grid = [&](V3 &p) { for (double &v : p) v = std::ldexp(std::round(std::ldexp(v * g, 24)), -24); };
        grid(o.a.origin); grid(o.b.origin); grid(o.C); grid(o.P);
        for (double &v : t) v = std::ldexp((double)s.range(-1024, 1024), s.range(-6, 6));
        if (g < 1) for (ShellSpec *x : {&o.a, &o.b}) for (double &al : x->alpha) al *= s.logreal(1, 1 / (g * g));
        if (kind_grad(kind) && !same_ptr(o.P, o.a.origin) && !same_ptr(o.P, o.b.origin)) o.P = o.a.origin;
    }
    c.label(what);
    Op w = o;
    w.a.origin = apply(R, o.a.origin, t);
    w.b.origin = apply(R, o.b.origin, t);
    w.C = apply(R, o.C, t);
    w.P = apply(R, o.P, t);
    c.describe(strf("%s of ", what.c_str()) + txt(o) + strf(" R=[%.17g %.17g %.17g|%.17g %.17g %.17g|%.17g %.17g %.17g] t=", R.m[0][0], R.m[0][1], R.m[0][2],
               R.m[1][0], R.m[1][1], R.m[1][2], R.m[2][0], R.m[2][1], R.m[2][2]) + txt(t));
    // rounding of the coordinates must not change which centres coincide
    auto pat = [](const Op &z) {
        std::vector<V3> p{z.a.origin, z.b.origin};
        if (kind_uses_C(z.kind)) p.push_back(z.C);
        if (kind_grad(z.kind)) p.push_back(z.P);
        std::string r;
        for (size_t i = 0; i < p.size(); i++)
            for (size_t j = 0; j < i; j++) { double d = dist(p[i], p[j]); r += d < 1e-12 ? '0' : d < 1e-6 ? '?' : '1'; }
        return r;
    };
    std::string p1 = pat(o), p2 = pat(w);
    if (p1.find('?') != std::string::npos || p2.find('?') != std::string::npos) throw Discard();
    if (p1 != p2) throw Discard();
    Vec x = eval(o), y = eval(w);
    auto t1 = motion_tols(o), t2 = motion_tols(w);
    // moved coordinates are rounded: relative error of the order of the change of position times exponents
    double dr = 3e-16 * (1 + std::fabs(t[0]) + std::fabs(t[1]) + std::fabs(t[2]) + dist(o.a.origin, V3{0, 0, 0}) + dist(o.b.origin, V3{0, 0, 0}) + dist(o.C, V3{0, 0, 0}));
    double am = std::max(maxof(o.a.alpha), maxof(o.b.alpha));
    double far = 1 + dist(o.a.origin, o.C) + dist(o.b.origin, o.C) + dist(o.a.origin, o.b.origin);
    if (kind_uses_u(kind)) am = std::max(am, maxof(o.u.alpha));
    double rel = dr * (std::sqrt(am) * (o.a.L + o.b.L + 6) + 4 * am * far);
    int na = o.rows(), nb = o.cols(), n = na * nb;
    auto DA = cart_rotation(R, o.a.L), DB = cart_rotation(R, o.b.L);
    double amp = colsum(DA) * colsum(DB);
    int nm = kind_nmat(kind);
    // back transformation of one matrix
    std::vector<Vec> z(nm, Vec(n, 0.0));
    for (int q = 0; q < nm; q++) {
        Vec tmp(n, 0.0);
        for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) if (DA[j][i] != 0) for (int l = 0; l < nb; l++) tmp[i * nb + l] += DA[j][i] * y[q * n + j * nb + l];
        for (int i = 0; i < na; i++) for (int k = 0; k < nb; k++) for (int l = 0; l < nb; l++) z[q][i * nb + k] += DB[l][k] * tmp[i * nb + l];
    }
    bool differences = exact && (kind == TYPE2 || kind == SO || kind == G_TYPE2 || kind == G_SO);       // only relative positions enter
    double tolw = 0, mag = maxof(y);
    for (int q = 0; q < nm; q++) tolw = std::max(tolw, t2[q]);
    Vec cal(nm, 0.0);
    // vector characters
    auto comp_char = [&](int q) -> int {                   // character of the operator component group of matrix q
        int p = kind_grad(kind) ? q / 3 : q;
        if (kind == MOMENTUM) return 1;
        if (kind == SO || kind == G_SO) return 2;
        if (kind == OUTER || kind == FULL || kind == G_OUTER || kind == G_FULL) return p == 0 ? 0 : 2;
        return 0;
    };
    for (int q = 0; q < nm; q++) {
        int ch = comp_char(q);
        int g = kind_grad(kind), p = g ? q / 3 : q, kk = g ? q % 3 : 0;
        int base = (ch && (kind == OUTER || kind == FULL || kind == G_OUTER || kind == G_FULL)) ? 1 : 0;
        for (int e = 0; e < n; e++) {
            double want = 0;
            for (int mu = 0; mu < (ch ? 3 : 1); mu++) {
                double f = ch == 0 ? 1 : (ch == 2 ? R.det : 1) * R.m[mu][p - base];
                int pp = ch == 0 ? p : base + mu;
                if (f == 0) continue;
                if (!g) want += f * z[pp][e];
                else for (int m = 0; m < 3; m++) want += f * R.m[m][kk] * z[3 * pp + m][e];
            }
            cal[q] = std::max(cal[q], std::fabs(x[q * n + e] - want));
            cmp1(c, strf("%s matrix %d element (%d,%d) after %s", kind_name(kind), q, e / nb, e % nb, what.c_str()), x[q * n + e], want,
                 differences ? 1e-13 * mag : t1[q] + 3 * amp * (tolw + (rel + 1e-14) * mag) * (pure ? 0.34 : 1));
        }
    }
    if (g_calm) {
        auto r = op_ref(w);
        double zz = 0;
        for (auto &m : r) zz = std::max(zz, maxof(m.z));
        for (int q = 0; q < nm; q++) calm(pure ? "C12pure" : "C12rot", o, std::max(0.0, cal[q] - 3 * amp * rel * mag), zz * amp);
    }
    mark(c, x);
}

// ---- C13 -------------------------------------------------------------------------------------------
static void permute_shell(Source &s, ShellSpec &x)
{
    for (int i = (int)x.alpha.size() - 1; i > 0; i--) {
        int j = s.below(i + 1);
        std::swap(x.alpha[i], x.alpha[j]);
        std::swap(x.coeffs[i], x.coeffs[j]);
    }
}
static void permute_pot(Source &s, PotSpec &x)
{
    for (int i = (int)x.alpha.size() - 1; i > 0; i--) {
        int j = s.below(i + 1);
        std::swap(x.alpha[i], x.alpha[j]);
        std::swap(x.coeffs[i], x.coeffs[j]);
        std::swap(x.powers[i], x.powers[j]);
    }
}
static void lengthen_shell(Source &s, ShellSpec &x, int regime, int n)
{
    while ((int)x.alpha.size() < n) { x.alpha.push_back(gen_exponent(s, regime)); x.coeffs.push_back(gen_coef(s, false)); }
}
static void lengthen_pot(Source &s, PotSpec &x, int regime, int n)
{
    while ((int)x.alpha.size() < n) {
        x.powers.push_back(s.below(3));
        x.alpha.push_back(gen_exponent(s, regime));
        x.coeffs.push_back(gen_coef(s, false));
    }
}
// coefficient vectors c = c1 + c2: either a partition of the terms or a partition of each coefficient
static void split_coeffs(Source &s, const Vec &cf, Vec &c1, Vec &c2)
{
    c1 = c2 = Vec(cf.size(), 0.0);
    bool terms = s.chance(1, 2);
    for (size_t i = 0; i < cf.size(); i++) {
        if (terms) (s.chance(1, 2) ? c1 : c2)[i] = cf[i];
        else { c1[i] = cf[i] * s.real(-1, 2); c2[i] = cf[i] - c1[i]; }
    }
}

static Vec op_tols(const Op &o) { return op_abs_tol(o, op_ref(o)); }

// both functions long (fitted or uncontracted sets written as one contraction): the integral is the sum over blocks
static void prop_blocks(Ctx &c)
{
    Source &s = c.src;
    static const int kinds[] = {OVERLAP, KINETIC, MOMENTUM, NUCATT, TYPE1, TYPE2, SO, OUTER, G_OVERLAP};
    int kind = s.pick(std::vector<int>(kinds, kinds + 9));
    Limits q;
    q.Lmax = 1; q.maxprim = 1; q.lmax = 2; q.maxoc = 1;
    Op o = gen_op(s, kind, q);
    if (kind == NUCATT) o.nuc.model = 0;
    bool cheap = kind == OVERLAP || kind == KINETIC || kind == MOMENTUM || kind == G_OVERLAP;
    int na = s.range(2, cheap ? 260 : 150), nb = s.range(2, cheap ? 260 : 150);
    lengthen_shell(s, o.a, q.regime, na);
    lengthen_shell(s, o.b, q.regime, nb);
    int ca = s.range(1, na - 1), cb = s.range(1, nb - 1);
    c.label("both contractions long");
    c.label(kind_name(kind));
    c.describe(strf("blocks %d+%d, %d+%d of ", ca, na - ca, cb, nb - cb) + txt(o));
    auto cut = [](const ShellSpec &x, int k, bool first) {
        ShellSpec y = x;
        if (first) { y.alpha.resize(k); y.coeffs.resize(k); }
        else { y.alpha.erase(y.alpha.begin(), y.alpha.begin() + k); y.coeffs.erase(y.coeffs.begin(), y.coeffs.begin() + k); }
        return y;
    };
    Vec x = eval(o), sum(x.size(), 0.0), mag(kind_nmat(kind), 0.0);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) {
            Op p = o;
            p.a = cut(o.a, ca, i == 0);
            p.b = cut(o.b, cb, j == 0);
            Vec y = eval(p);
            for (size_t k = 0; k < y.size(); k++) { sum[k] += y[k]; mag[k / o.size()] = std::max(mag[k / o.size()], std::fabs(y[k])); }
        }
    double w = 1, all = maxof(mag);
    for (const ShellSpec *z : {&o.a, &o.b}) { double t = 0; for (size_t i = 0; i < z->alpha.size(); i++) t += std::fabs(z->coeffs[i]) * ref::norm_prim(z->L, z->alpha[i]); w *= t; }
    for (const PotSpec *u : {&o.u}) if (kind_uses_u(kind)) { double t = 1; for (double d : u->coeffs) t += std::fabs(d); w *= t; }
    if (kind == NUCATT) w *= o.nuc.Z;
    for (size_t k = 0; k < x.size(); k++)
        cmp1(c, strf("%s matrix %d element %d: sum of four blocks", kind_name(kind), (int)k / o.size(), (int)k % o.size()), x[k], sum[k], 1e-9 * mag[k / o.size()] + 1e-11 * all + 1e-13 * w);
    mark(c, x);
}

static void prop_linear(Ctx &c)
{
    Source &s = c.src;
    if (s.chance(1, 12)) return prop_blocks(c);
    int kind = s.below(NKIND);
    Limits q = limits_for(s, kind, c.thorough);
    Op o = gen_op(s, kind, q);
    c.label(kind_name(kind));
    bool cheap = kind == OVERLAP || kind == KINETIC || kind == MOMENTUM || kind == G_OVERLAP;
    int nl = s.chance(1, 3) ? s.range(2, cheap ? 40 : o.a.L + o.b.L <= 2 ? 12 : 3) : 2;
    bool huge = s.chance(1, 20) && (cheap || (o.a.L + o.b.L <= 1 && !kind_uses_g(kind) && !kind_uses_oc(kind) && kind != G_TYPE2 && kind != G_SO &&
                                         (kind != NUCATT || o.nuc.model == 0)));
    if (huge) {                                            // uncontracted-like or fitted functions
        nl = s.range(60, cheap ? 300 : 160);
        for (ShellSpec *x : {&o.a, &o.b}) { x->alpha.resize(1); x->coeffs.resize(1); }
    }
    // targets: 0 bra, 1 ket, 2 potential (local / semilocal / outercore radial potentials)
    std::vector<int> targets{0, 1};
    std::vector<PotSpec *> pots;
    if (kind_uses_u(kind)) pots.push_back(&o.u);
    if (kind_uses_oc(kind)) for (auto &x : o.oc) pots.push_back(&x.U);
    if (kind_uses_g(kind)) {
        if (o.g.loc) pots.push_back(&o.g.local);
        for (auto &u : o.g.arep) pots.push_back(&u);
        for (auto &u : o.g.esop) pots.push_back(&u);
        for (auto &x : o.g.oc) pots.push_back(&x.U);
    }
    if (!pots.empty()) { targets.push_back(2); targets.push_back(2); }
    int target = s.pick(targets);
    size_t which = target == 2 ? s.below(pots.size()) : 0;
    if (target == 0) lengthen_shell(s, o.a, q.regime, nl);
    if (target == 1) lengthen_shell(s, o.b, q.regime, nl);
    if (target == 2) lengthen_pot(s, *pots[which], q.regime, huge ? nl : s.chance(1, 3) ? s.range(2, 40) : 2);
    auto coeffs_of = [&](Op &z) -> Vec & {
        if (target == 0) return z.a.coeffs;
        if (target == 1) return z.b.coeffs;
        std::vector<PotSpec *> p;
        if (kind_uses_u(kind)) p.push_back(&z.u);
        if (kind_uses_oc(kind)) for (auto &x : z.oc) p.push_back(&x.U);
        if (kind_uses_g(kind)) {
            if (z.g.loc) p.push_back(&z.g.local);
            for (auto &u : z.g.arep) p.push_back(&u);
            for (auto &u : z.g.esop) p.push_back(&u);
            for (auto &x : z.g.oc) p.push_back(&x.U);
        }
        return p[which]->coeffs;
    };
    static const char *tn[] = {"bra", "ket", "potential"};
    std::vector<int> rels{0, 1, 2, 3};
    int rel = s.pick(rels);
    bool has_oc = (kind_uses_oc(kind) && !o.oc.empty()) || (kind_uses_g(kind) && !o.g.oc.empty());
    bool has_g = kind_uses_g(kind) || kind_uses_oc(kind);
    std::vector<std::pair<double, Op>> parts;
    std::string what;
    double ratio = 1;
    switch (rel) {
        case 0: {                                          // additivity
            Op p1 = o, p2 = o, z = o;
            split_coeffs(s, coeffs_of(o), coeffs_of(p1), coeffs_of(p2));
            parts.push_back({1, p1});
            parts.push_back({1, p2});
            // with several components only one of them is split: the others are counted twice and once subtracted
            if (target == 2 && has_g) { for (double &x : coeffs_of(z)) x = 0; parts.push_back({-1, z}); }
            what = std::string("splitting the ") + tn[target];
            break;
        }
        case 1: {                                          // permutation of terms
            Op p = o;
            permute_shell(s, p.a);
            permute_shell(s, p.b);
            if (kind_uses_u(kind)) permute_pot(s, p.u);
            auto mix = [&](std::vector<PotSpec> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[s.below(i + 1)]); for (auto &u : v) permute_pot(s, u); };
            mix(p.g.arep);
            mix(p.g.esop);
            auto mixoc = [&](std::vector<ref::OC> &v) {
                for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[s.below(i + 1)]);
                for (auto &x : v) { permute_pot(s, x.U); permute_shell(s, x.shell); }
            };
            mixoc(p.oc);
            mixoc(p.g.oc);
            parts.push_back({1, p});
            what = "permuting terms";
            break;
        }
        case 2: {                                          // scaling (integrals of other components removed)
            double f = s.chance(1, 3) ? std::ldexp(1.0, s.range(-6, 6)) : s.chance(1, 2) ? s.real(-30, 30) : s.logreal(1e-10, 1e10);
            ratio = f;
            Op p = o, z = o;
            for (double &x : coeffs_of(p)) x *= f;
            if (target == 2 && has_g) {                    // I(f u) = f I(u) + (1-f) I(0)
                for (double &x : coeffs_of(z)) x = 0;
                Op p0 = o;
                // compare p with f*o + (1-f)*z
                Vec x = eval(p), y = eval(o), w = eval(z), tp = shared_tols(p), to = shared_tols(o), tz = shared_tols(z);
                c.describe(strf("scaling of one potential by %.17g: ", f) + txt(o));
                for (int k = 0; k < o.total(); k++) {
                    int m = k / o.size();
                    cmp1(c, strf("%s matrix %d: potential scaled by %g", kind_name(kind), m, f), x[k], f * y[k] + (1 - f) * w[k],
                         tp[m] + std::fabs(f) * to[m] + std::fabs(1 - f) * tz[m]);
                }
                mark(c, y);
                return;
            }
            if (std::fabs(f) < 1e-10) f = ratio = 2;
            p = o;
            for (double &x : coeffs_of(p)) x *= f;
            parts.push_back({1 / f, p});
            what = strf("scaling the %s by %.17g", tn[target], f);
            break;
        }
        default: {                                         // redundant terms: zero coefficients, halves of one primitive
            Op p = o;
            auto redo = [&](ShellSpec &x) {
                size_t i = s.below(x.alpha.size());
                x.coeffs.push_back(x.coeffs[i] * 0.25);
                x.alpha.push_back(x.alpha[i]);
                x.coeffs[i] *= 0.75;
                x.coeffs.push_back(0.0);
                x.alpha.push_back(gen_exponent(s, q.regime));
                permute_shell(s, x);
            };
            auto redp = [&](PotSpec &x) {
                if (x.alpha.empty()) return;
                size_t i = s.below(x.alpha.size());
                x.coeffs.push_back(x.coeffs[i] * 0.25);
                x.alpha.push_back(x.alpha[i]);
                x.powers.push_back(x.powers[i]);
                x.coeffs[i] *= 0.75;
                x.coeffs.insert(x.coeffs.begin(), 0.0);
                x.alpha.insert(x.alpha.begin(), gen_exponent(s, q.regime));
                x.powers.insert(x.powers.begin(), s.below(3));
            };
            if (s.chance(1, 2)) redo(p.a); else redo(p.b);
            if (kind_uses_u(kind)) redp(p.u);
            for (auto &x : p.oc) { redo(x.shell); redp(x.U); }
            for (auto &x : p.g.oc) { redo(x.shell); redp(x.U); }
            for (auto &u : p.g.arep) redp(u);
            for (auto &u : p.g.esop) redp(u);
            if (p.g.loc) redp(p.g.local);
            parts.push_back({1, p});
            what = "redundant terms";
        }
    }
    (void)has_oc;
    c.label(rel == 0 ? "additivity" : rel == 1 ? "permutation" : rel == 2 ? "scaling" : "redundant terms");
    c.label(strf("target %s", tn[target]));
    c.label(nl > 40 ? "contraction of more than 40 terms" : nl > 8 ? "long contraction" : "short contraction");
    std::string d = what + " of " + txt(o);
    for (auto &p : parts) d += strf(" || %g x ", p.first) + txt(p.second);
    c.describe(d);
    Vec x = eval(o), sum(x.size(), 0.0), tol = shared_tols(o);
    if (g_calm) {
        auto r0 = op_ref(o);
        Vec z, e(kind_nmat(kind), 0.0), sm(x.size(), 0.0);
        for (auto &m : r0) z.push_back(maxof(m.z));
        for (auto &p : parts) {
            Vec y = eval(p.second);
            auto r = op_ref(p.second);
            for (size_t k = 0; k < y.size(); k++) sm[k] += p.first * y[k];
            for (size_t m = 0; m < r.size(); m++) z[m] += std::fabs(p.first) * maxof(r[m].z);
        }
        for (size_t k = 0; k < x.size(); k++) e[k / o.size()] = std::max(e[k / o.size()], std::fabs(x[k] - sm[k]));
        for (size_t m = 0; m < e.size(); m++) calm(rel == 0 ? "C13add" : rel == 1 ? "C13perm" : rel == 2 ? "C13scale" : "C13red", o, e[m], z[m]);
    }
    for (auto &p : parts) {
        Vec y = eval(p.second), t = shared_tols(p.second);
        if (rel == 2) {                                    // accuracy relative to the size of the scaled integrals
            t = shared_tols(o);
            double abs = analytic(o) ? 0 : 1e-11 * (kind_grad(kind) ? 1 + 2 * std::max(maxof(o.a.alpha), maxof(o.b.alpha)) : 1);
            for (double &v : t) v = std::fabs(ratio) * v + abs;
        }
        for (size_t k = 0; k < y.size(); k++) sum[k] += p.first * y[k];
        for (size_t m = 0; m < t.size(); m++) tol[m] += std::fabs(p.first) * t[m];
    }
    for (size_t k = 0; k < x.size(); k++) {
        int m = k / o.size(), e = k % o.size();
        cmp1(c, strf("%s matrix %d element (%d,%d): %s", kind_name(kind), m, e / o.cols(), e % o.cols(), what.c_str()), x[k], sum[k], tol[m]);
    }
    mark(c, x);
}

// ---- C14 -------------------------------------------------------------------------------------------
static u64 g_perm_seed;
static int g_perm_style;
static int user_generator(int L, int *out)
{
    auto cl = ref::cart_list(L);
    int n = cl.size();
    u64 st = g_perm_seed * 1000003 + L * 7919 + 12345;
    auto rnd = [&]() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; };
    if (g_perm_style == 1) std::reverse(cl.begin(), cl.end());
    else if (g_perm_style == 2) std::sort(cl.begin(), cl.end(), [](const std::array<int, 3> &x, const std::array<int, 3> &y) {
        int mx = std::max({x[0], x[1], x[2]}), my = std::max({y[0], y[1], y[2]});
        return mx != my ? mx > my : x > y; });
    else if (g_perm_style == 3) for (auto &x : cl) std::swap(x[0], x[2]);
    else for (int i = n - 1; i > 0; i--) std::swap(cl[i], cl[rnd() % (i + 1)]);
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) out[3 * i + k] = cl[i][k];
    return n;
}
static std::vector<int> perm_of(int L)                     // position i of the current generator -> default index
{
    auto cl = ref::cart_list(L);
    std::vector<int> g(3 * cl.size()), p(cl.size());
    user_generator(L, g.data());
    for (size_t i = 0; i < cl.size(); i++)
        for (size_t j = 0; j < cl.size(); j++)
            if (cl[j][0] == g[3 * i] && cl[j][1] == g[3 * i + 1] && cl[j][2] == g[3 * i + 2]) p[i] = j;
    return p;
}

static void prop_order(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(NKIND);
    Op o = random_op(c, kind);
    // 0: user generator for everything; 1: built-in orders; 2: shells made under different generators and evaluated under a third
    int mode = s.below(3);
    g_perm_seed = s.below(1000) + 1;
    g_perm_style = s.below(5);
    int style_b = s.below(5), style_c = s.below(5);
    u64 seed_b = s.below(1000) + 1, seed_c = s.below(1000) + 1;
    c.label(strf("mode %d", mode));
    c.describe(strf("ordering mode %d seed %d style %d / %d %d / %d %d: ", mode, (int)g_perm_seed, g_perm_style, (int)seed_b, style_b, (int)seed_c, style_c) + txt(o));
    Vec x = eval(o);
    int na = o.rows(), nb = o.cols(), n = na * nb;
    std::vector<int> pa(na), pb(nb);
    for (int i = 0; i < na; i++) pa[i] = i;
    for (int i = 0; i < nb; i++) pb[i] = i;
    Vec y;
    if (mode == 1) {
        libgrpp_set_cartesian_order(s.chance(1, 2) ? LIBGRPP_CART_ORDER_TURBOMOLE : LIBGRPP_CART_ORDER_DIRAC);
        y = eval(o);
    } else {
        libgrpp_set_cartesian_generator(user_generator);
        OpObj ob(o);
        pa = perm_of(o.a.L);
        pb = perm_of(o.b.L);
        int *list = libgrpp_generate_shell_cartesians(o.a.L);
        auto cl = ref::cart_list(o.a.L);
        for (int i = 0; i < na; i++)
            for (int k = 0; k < 3; k++)
                if (list[3 * i + k] != cl[pa[i]][k]) c.fail("libgrpp_generate_shell_cartesians does not use the selected generator");
        free(list);
        if (mode == 2) {
            g_perm_seed = seed_b;
            g_perm_style = style_b;
            ob.B.reset(new Shell(o.b));
            pb = perm_of(o.b.L);
            // the outercore shells were made at still other times
            auto reorder = [&](libgrpp_shell_t *sh, int i) {
                g_perm_seed = seed_b + 17 * (i + 1);
                g_perm_style = (style_b + i) % 5;
                int *list = libgrpp_generate_shell_cartesians(sh->L);
                memcpy(sh->cart_list, list, sizeof(int) * 3 * sh->cart_size);
                free(list);
            };
            for (size_t i = 0; i < ob.ocSp.size(); i++) reorder(ob.ocSp[i], i);
            if (ob.G) for (int i = 0; i < ob.G->p->n_oc_shells; i++) reorder(ob.G->p->oc_shells[i], i);
            if (style_c == 4) libgrpp_set_default_parameters();
            else { g_perm_seed = seed_c; g_perm_style = style_c; }
        }
        y = ob.run();
    }
    double m = maxof(x);
    for (int q = 0; q < kind_nmat(kind); q++)
        for (int i = 0; i < na; i++)
            for (int j = 0; j < nb; j++)
                cmp1(c, strf("%s matrix %d element (%d,%d) under another ordering", kind_name(kind), q, i, j), y[q * n + i * nb + j],
                     x[q * n + pa[i] * nb + pb[j]], 1e-9 * m + 1e-13);
    libgrpp_set_default_parameters();
    Vec w = eval(o);
    if (memcmp(w.data(), x.data(), sizeof(double) * x.size())) c.fail("results differ after returning to the default parameters");
    if (m > 1e-6 && (o.a.L + o.b.L > 0) && mode != 1) c.nontrivial();
}

// ---- C22 -------------------------------------------------------------------------------------------
// shell with the same primitives but angular momentum L+d, coefficients chosen so that the plain Gaussians
// keep their weights times alpha^pw (the library multiplies by its norm of the new angular momentum)
static ShellSpec relabel(const ShellSpec &a, int d, int pw)
{
    ShellSpec r = a;
    r.L = a.L + d;
    for (size_t i = 0; i < r.alpha.size(); i++) r.coeffs[i] = a.coeffs[i] * ref::norm_prim(a.L, a.alpha[i]) / ref::norm_prim(r.L, a.alpha[i]) * std::pow(a.alpha[i], pw);
    return r;
}
static int cidx(int a, int b, int d) { int r = b + d; return r * (r + 1) / 2 + d; }

static void check_sum(Ctx &c, const std::string &what, const Vec &got, const Vec &want, double tol)
{
    for (size_t k = 0; k < got.size(); k++) cmp1(c, strf("%s, element %zu", what.c_str(), k), got[k], want[k], tol);
}

static void prop_identities(Ctx &c)
{
    Source &s = c.src;
    int which = s.below(9);
    static const char *names[] = {"sum over l of semilocal = local", "sum over l of spin-orbit = local with rotated function", "r^-1 local potential = point charge",
                                  "constant local potential = overlap", "momentum = overlap gradient", "kinetic = overlaps of shifted shells",
                                  "momentum = overlaps of shifted shells", "numerical point charge = analytic", "j-degenerate outercore"};
    c.label(names[which]);
    auto base = [&](int kind) { return gen_op(s, kind, limits_for(s, kind, c.thorough)); };
    switch (which) {
        case 0: case 1: {
            Limits q = default_limits(s, c.thorough);
            q.Lmax = which == 0 ? 3 : 2;
            q.maxprim = 2;
            Op o = gen_op(s, TYPE1, q);
            o.C = o.a.origin;                               // bra at the potential: the sum over l <= L_A is complete
            if (s.chance(1, 4)) o.b.origin = o.C;
            bool swapped = s.chance(1, 2);
            if (swapped) std::swap(o.a, o.b);
            int top = swapped ? o.b.L : o.a.L;
            c.describe(std::string(names[which]) + ": " + txt(o));
            if (which == 0) {
                Vec want = eval(o), sum(o.size(), 0.0);
                double tol = op_tols(o)[0];
                for (int l = 0; l <= top; l++) {
                    Op p = o;
                    p.kind = TYPE2;
                    p.u.L = l;
                    Vec y = eval(p);
                    for (size_t k = 0; k < y.size(); k++) sum[k] += y[k];
                    tol += op_tols(p)[0];
                }
                mark(c, want);
                check_sum(c, names[which], sum, want, tol);
                break;
            }
            // spin-orbit: sum_l so_l = -<A|U (r x grad)|B>, the right-hand side from local integrals
            Vec sum(3 * o.size(), 0.0), tol(3, 0.0);
            for (int l = 1; l <= top; l++) {
                Op p = o;
                p.kind = SO;
                p.u.L = l;
                Vec y = eval(p);
                for (size_t k = 0; k < y.size(); k++) sum[k] += y[k];
                Vec t = op_tols(p);
                for (int e = 0; e < 3; e++) tol[e] += t[e];
            }
            Op same = o, up = o, dn = o;
            up.b = relabel(o.b, 1, 1);
            Vec i0 = eval(same), i1 = eval(up), i2;
            double t0 = op_tols(same)[0], tu = op_tols(up)[0], td = 0;
            if (o.b.L > 0) { dn.b = relabel(o.b, -1, 0); i2 = eval(dn); td = op_tols(dn)[0]; }
            double b[3];
            for (int k = 0; k < 3; k++) b[k] = o.b.origin[k] - o.C[k];
            auto cl = ref::cart_list(o.b.L);
            int na = o.rows(), nb = o.cols(), nbu = ncart(o.b.L + 1), nbd = o.b.L > 0 ? ncart(o.b.L - 1) : 0;
            for (int e = 0; e < 3; e++) {
                int u = (e + 1) % 3, v = (e + 2) % 3;
                Vec want(o.size(), 0.0);
                for (int i = 0; i < na; i++)
                    for (int j = 0; j < nb; j++) {
                        double w = 0;
                        int n[3] = {cl[j][0], cl[j][1], cl[j][2]};
                        auto sh = [&](int k, int d, int k2, int d2) { int m[3] = {n[0], n[1], n[2]}; m[k] += d; if (k2 >= 0) m[k2] += d2; return cidx(m[0], m[1], m[2]); };
                        // (x_u d_v - x_v d_u) about the function's own centre
                        if (n[v] > 0) w += n[v] * i0[i * nb + sh(u, 1, v, -1)];
                        if (n[u] > 0) w -= n[u] * i0[i * nb + sh(v, 1, u, -1)];
                        // shift of origin: b_u d_v - b_v d_u
                        auto dd = [&](int k) {
                            double r = -2 * i1[i * nbu + sh(k, 1, -1, 0)];
                            if (n[k] > 0) r += n[k] * i2[i * nbd + sh(k, -1, -1, 0)];
                            return r;
                        };
                        w += b[u] * dd(v) - b[v] * dd(u);
                        want[i * nb + j] = -w;
                    }
                double bl = std::fabs(b[u]) + std::fabs(b[v]);
                double t = tol[e] + 2 * (o.b.L + 1) * t0 + bl * (2 * tu + (o.b.L + 1) * td);
                check_sum(c, std::string(names[which]) + strf(" component %d", e), Vec(sum.begin() + e * o.size(), sum.begin() + (e + 1) * o.size()), want, t);
            }
            mark(c, sum);
            break;
        }
        case 2: case 3: {
            Op o = base(which == 2 ? NUCATT : OVERLAP);
            o.nuc = Nuc();
            o.nuc.Z = s.range(1, 100);
            Op p = o;
            p.kind = TYPE1;
            p.u = PotSpec();
            p.u.powers = {which == 2 ? 1 : 2};
            p.u.alpha = {0.0};
            p.u.coeffs = {which == 2 ? -(double)o.nuc.Z : 1.0};
            c.describe(std::string(names[which]) + ": " + txt(p));
            Vec x = eval(o), y = eval(p);
            mark(c, x);
            // the constant or Coulomb potential: magnitudes taken from the corresponding reference of the other operator
            std::vector<Mat> r = op_ref(o);
            double tol = 3e-10 * maxof(r[0].s) + 2e-12 * maxof(r[0].z) + 1e-12 * p.u.coeffs[0] * p.u.coeffs[0];
            if (which == 2) { Op w = o; w.kind = OVERLAP; tol += 1e-12 * o.nuc.Z * maxof(op_ref(w)[0].z); }
            check_sum(c, names[which], y, x, tol);
            break;
        }
        case 4: {
            Op o = base(MOMENTUM), p;
            if (dist(o.a.origin, o.b.origin) < 1e-11) o.b.origin = V3{o.a.origin[0] + 0.5, o.a.origin[1] - 0.75, o.a.origin[2] + 1.25};
            p = o;
            p.kind = G_OVERLAP;
            p.P = o.b.origin;
            c.describe(std::string(names[which]) + ": " + txt(o));
            Vec x = eval(o), y = eval(p), t1 = op_tols(o), t2 = op_tols(p);
            mark(c, x);
            check_sum(c, names[which], x, y, maxof(t1) + maxof(t2));
            break;
        }
        case 5: case 6: {
            Op o = base(which == 5 ? KINETIC : MOMENTUM);
            if (which == 5 && o.b.L > 8) { ShellSpec t = o.b; o.b = relabel(t, -2, 0); }
            if (which == 6 && o.b.L > 9) { ShellSpec t = o.b; o.b = relabel(t, -1, 0); }
            c.describe(std::string(names[which]) + ": " + txt(o));
            Vec x = eval(o);
            Vec t1 = op_tols(o);
            int d = which == 5 ? 2 : 1, L = o.b.L;
            Op up = o, same = o, dn = o;
            up.kind = same.kind = dn.kind = OVERLAP;
            up.b = relabel(o.b, d, d);                      // kinetic: 4 a^2 S(L+2); momentum: 2 a S(L+1)
            same.b = relabel(o.b, 0, 1);
            Vec iu = eval(up), is = eval(same), id;
            double tol = maxof(t1) + 4 * 3 * op_tols(up)[0] + 12 * (2 * L + 3) * op_tols(same)[0];
            if (L >= d) { dn.b = relabel(o.b, -d, 0); id = eval(dn); tol += 3 * L * L * op_tols(dn)[0]; }
            auto cl = ref::cart_list(L);
            int na = o.rows(), nb = o.cols(), nu = ncart(L + d), nd = L >= d ? ncart(L - d) : 0;
            for (int k = 0; k < (which == 5 ? 1 : 3); k++)
                for (int i = 0; i < na; i++)
                    for (int j = 0; j < nb; j++) {
                        double w = 0;
                        auto der = [&](int ax) {
                            int n = cl[j][ax], m[3] = {cl[j][0], cl[j][1], cl[j][2]};
                            m[ax] += d;
                            double r = (which == 5 ? 4 : -2) * iu[i * nu + cidx(m[0], m[1], m[2])];
                            if (which == 5) r -= 2 * (2 * n + 1) * is[i * nb + j];
                            m[ax] -= 2 * d;
                            if (n >= d) r += (which == 5 ? n * (n - 1) : n) * id[i * nd + cidx(m[0], m[1], m[2])];
                            return r;
                        };
                        if (which == 5) w = -0.5 * (der(0) + der(1) + der(2));
                        else w = -der(k);
                        cmp1(c, strf("%s, matrix %d element (%d,%d)", names[which], k, i, j), x[(size_t)k * na * nb + i * nb + j], w, tol);
                    }
            mark(c, x);
            break;
        }
        case 7: {
            Limits q = limits_for(s, NUCATT, c.thorough);
            q.Lmax = 3;
            Op o = gen_op(s, NUCATT, q);
            o.nuc = Nuc();
            o.nuc.Z = s.range(1, 100);
            Op p = o;
            p.nuc.model = 5;
            c.describe(std::string(names[which]) + ": " + txt(o));
            Vec x = eval(o), y = eval(p);
            mark(c, x);
            check_sum(c, names[which], y, x, op_tols(o)[0] + op_tols(p)[0]);
            break;
        }
        default: {
            // spinors with j = l-1/2 and l+1/2 sharing potential and radial function: no spin-orbit splitting
            Op o = base(OUTER);
            o.oc = gen_oc(s, Limits(), 1);
            ref::OC x = o.oc[0];
            if (x.U.L == 0) { x.U.L = 1; x.shell.L = 1; }
            x.U.J = 2 * x.U.L - 1;
            ref::OC y = x;
            y.U.J = 2 * x.U.L + 1;
            o.oc = {x, y};
            if (s.chance(1, 2)) std::swap(o.oc[0], o.oc[1]);
            c.describe(std::string(names[which]) + ": " + txt(o));
            Vec v = eval(o), t = op_tols(o);
            mark(c, v);
            for (int k = o.size(); k < 4 * o.size(); k++) cmp1(c, std::string(names[which]) + ": spin-orbit part", v[k], 0.0, t[k / o.size()] + t[0]);
            // and the averaged part is that of a non-local operator in l alone: invariant under exchange of the labels
            std::swap(o.oc[0].U.J, o.oc[1].U.J);
            Vec w = eval(o);
            for (int k = 0; k < o.size(); k++) cmp1(c, std::string(names[which]) + ": averaged part", w[k], v[k], 2 * t[0]);
        }
    }
}

void register_meta(std::vector<Property> &v)
{
    Property p;
    p.modes = NKIND;
    p.thorough_budget_s = 720;
    p.id = "C11"; p.fn = prop_exchange; p.quick_cases = 1400; p.thorough_cases = 400000;
    p.technique_rule = "generated operation (15 integral and gradient routines) evaluated for (A,B) and (B,A); matrices must be transposes up to the sign of the operator; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C12"; p.fn = prop_motion; p.quick_cases = 1500;
    p.technique_rule = "generated operation evaluated before and after a generated translation, rotation, reflection or axis permutation; matrices must transform as the Cartesian functions and vector components do; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C13"; p.fn = prop_linear; p.quick_cases = 900;
    p.technique_rule = "generated operation with generated splitting, permutation, scaling or redundant terms of a contraction or potential; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C14"; p.fn = prop_order; p.quick_cases = 15000; p.thorough_cases = 2000000;
    p.technique_rule = "generated operation evaluated under generated orderings (permutations of the Cartesian components) and compared with the permuted default-order result; non-trivial: a user permutation, L_A+L_B>0 and some element exceeds 1e-6";
    v.push_back(p);
    p.modes = 9;
    p.id = "C22"; p.fn = prop_identities; p.quick_cases = 15000; p.thorough_cases = 2000000;
    p.technique_rule = "one of nine identities between different operators on generated shells, potentials and geometries; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
}
