#include "ops.hpp"

static const char *NAMES[] = {"overlap", "kinetic", "momentum", "nucattr", "type1", "type2", "spin-orbit", "outercore", "full",
                              "grad overlap", "grad type1", "grad type2", "grad spin-orbit", "grad outercore", "grad full"};
static const int NMAT[] = {1, 1, 3, 1, 1, 1, 3, 4, 4, 3, 3, 3, 9, 12, 12};
const char *kind_name(int k) { return NAMES[k]; }
int kind_nmat(int k) { return NMAT[k]; }
int kind_sym(int k, int mat)
{
    if (k == MOMENTUM || k == SO || k == G_SO) return -1;
    if (k == OUTER || k == FULL) return mat == 0 ? 1 : -1;
    if (k == G_OUTER || k == G_FULL) return mat < 3 ? 1 : -1;
    return 1;
}

std::string txt(const std::vector<ref::OC> &oc)
{
    std::string d;
    for (auto &o : oc) d += " oc{U=" + txt(o.U) + " R=" + txt(o.shell) + "}";
    return d;
}
std::string txt(const GrppSpec &g)
{
    std::string d = "grpp{";
    if (g.loc) d += " loc=" + txt(g.local);
    for (auto &u : g.arep) d += " arep=" + txt(u);
    for (auto &u : g.esop) d += " esop=" + txt(u);
    return d + txt(g.oc) + "}";
}
std::string txt(const Op &o)
{
    std::string d = std::string(NAMES[o.kind]) + " A=" + txt(o.a) + " B=" + txt(o.b);
    if (kind_uses_C(o.kind)) d += " C=" + txt(o.C);
    if (kind_grad(o.kind)) d += " P=" + txt(o.P);
    if (kind_uses_u(o.kind)) d += " U=" + txt(o.u);
    if (kind_uses_oc(o.kind)) d += txt(o.oc);
    if (kind_uses_g(o.kind)) d += " " + txt(o.g);
    if (o.kind == NUCATT) d += strf(" model=%d Z=%d par=%.17g,%.17g,%.17g", o.nuc.model, o.nuc.Z, o.nuc.par[0], o.nuc.par[1], o.nuc.par[2]);
    return d;
}

static libgrpp_potential_t *raw_pot(const PotSpec &u)
{
    return libgrpp_new_potential(u.L, u.J, u.powers.size(), const_cast<int *>(u.powers.data()), const_cast<double *>(u.coeffs.data()),
                                 const_cast<double *>(u.alpha.data()));
}
static libgrpp_shell_t *raw_shell(const ShellSpec &s)
{
    V3 o = s.origin;
    return libgrpp_new_shell(o.data(), s.L, s.alpha.size(), const_cast<double *>(s.coeffs.data()), const_cast<double *>(s.alpha.data()));
}

libgrpp_grpp_t *build_grpp(const GrppSpec &g)
{
    libgrpp_grpp_t *p = libgrpp_new_grpp();
    if (g.loc) libgrpp_grpp_set_local_potential(p, raw_pot(g.local));
    for (auto &u : g.arep) libgrpp_grpp_add_averaged_potential(p, raw_pot(u));
    for (auto &u : g.esop) libgrpp_grpp_add_spin_orbit_potential(p, raw_pot(u));
    for (auto &o : g.oc) libgrpp_grpp_add_outercore_potential(p, raw_pot(o.U), raw_shell(o.shell));
    return p;
}

OpObj::OpObj(const Op &o) : kind(o.kind), nuc(o.nuc), C(o.C), P(o.P)
{
    A.reset(new Shell(o.a));
    B.reset(new Shell(o.b));
    if (kind_uses_u(kind)) U.reset(new Pot(o.u));
    if (kind_uses_oc(kind))
        for (auto &x : o.oc) {
            ocU.emplace_back(new Pot(x.U));
            ocS.emplace_back(new Shell(x.shell));
            ocUp.push_back(ocU.back()->p);
            ocSp.push_back(ocS.back()->p);
        }
    if (kind_uses_g(kind)) G.reset(new Grpp(o.g));
    size = o.size();
}

void call_kind(int kind, libgrpp_shell_t *A, libgrpp_shell_t *B, double *C, double *P, libgrpp_potential_t *U, int noc,
               libgrpp_potential_t **ocU, libgrpp_shell_t **ocS, libgrpp_grpp_t *G, const Nuc &nuc, double *const *m,
               double *parp, double ***grads)
{
    double *own[4][3], *par = parp, **g[4];
    for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) own[q][k] = 3 * q + k < NMAT[kind] ? m[3 * q + k] : nullptr;
    for (int q = 0; q < 4; q++) g[q] = grads ? grads[q] : own[q];
    double mine[10] = {nuc.par[0], nuc.par[1], nuc.par[2]};
    if (!par) par = mine;
    switch (kind) {
        case OVERLAP: libgrpp_overlap_integrals(A, B, m[0]); break;
        case KINETIC: libgrpp_kinetic_energy_integrals(A, B, m[0]); break;
        case MOMENTUM: libgrpp_momentum_integrals(A, B, m[0], m[1], m[2]); break;
        case NUCATT: libgrpp_nuclear_attraction_integrals(A, B, C, nuc.Z, nuc.model, par, m[0]); break;
        case TYPE1: libgrpp_type1_integrals(A, B, C, U, m[0]); break;
        case TYPE2: libgrpp_type2_integrals(A, B, C, U, m[0]); break;
        case SO: libgrpp_spin_orbit_integrals(A, B, C, U, m[0], m[1], m[2]); break;
        case OUTER: libgrpp_outercore_potential_integrals(A, B, C, noc, ocU, ocS, m[0], m[1], m[2], m[3]); break;
        case FULL: libgrpp_full_grpp_integrals(A, B, G, C, m[0], m[1], m[2], m[3]); break;
        case G_OVERLAP: libgrpp_overlap_integrals_gradient(A, B, P, g[0]); break;
        case G_TYPE1: libgrpp_type1_integrals_gradient(A, B, C, U, P, g[0]); break;
        case G_TYPE2: libgrpp_type2_integrals_gradient(A, B, C, U, P, g[0]); break;
        case G_SO: libgrpp_spin_orbit_integrals_gradient(A, B, C, U, P, g[0], g[1], g[2]); break;
        case G_OUTER: libgrpp_outercore_potential_integrals_gradient(A, B, C, noc, ocU, ocS, P, g[0], g[1], g[2], g[3]); break;
        case G_FULL: libgrpp_full_grpp_integrals_gradient(A, B, G, C, P, g[0], g[1], g[2], g[3]); break;
    }
}

void OpObj::run(double *const *m) const
{
    V3 c = C, p = P;
    libgrpp_potential_t *none_u[1] = {nullptr};
    libgrpp_shell_t *none_s[1] = {nullptr};
    call_kind(kind, A->p, B->p, c.data(), p.data(), U ? U->p : nullptr, ocUp.size(),
              ocUp.empty() ? none_u : const_cast<libgrpp_potential_t **>(ocUp.data()),
              ocSp.empty() ? none_s : const_cast<libgrpp_shell_t **>(ocSp.data()), G ? G->p : nullptr, nuc, m);
}

std::vector<double> OpObj::run() const
{
    std::vector<double> v((size_t)size * NMAT[kind], 7.7e77);
    std::vector<double *> m;
    for (int k = 0; k < NMAT[kind]; k++) m.push_back(v.data() + (size_t)k * size);
    run(m.data());
    return v;
}

// ---- generation ------------------------------------------------------------------------------------
Limits default_limits(Source &s, bool thorough)
{
    Limits q;
    switch (s.below(4)) {
        case 0: break;
        case 1: q.Lmax = 2; q.regime = MEDIUM; q.lmax = 4; break;
        case 2: q.Lmax = 4; q.maxprim = 1; q.work = 9; break;
        default: q.Lmax = 1; q.maxprim = 3; q.lmax = 5; q.work = 11; break;
    }
    if (thorough) q.work += 1;
    return q;
}

Limits limits_for(Source &s, int kind, bool thorough)
{
    Limits q = default_limits(s, thorough);
    bool cheap = kind == OVERLAP || kind == KINETIC || kind == MOMENTUM || kind == G_OVERLAP || kind == TYPE1 || kind == G_TYPE1 || kind == NUCATT;
    if (!cheap) return q;
    int top = kind_grad(kind) ? 9 : 10;
    if (kind == NUCATT || kind == TYPE1 || kind == G_TYPE1) {
        if (s.chance(1, 3)) { q.Lmax = 6; q.maxprim = 1; q.regime = s.chance(1, 2) ? MEDIUM : VALENCE; }
        return q;
    }
    switch (s.below(4)) {
        case 0: break;
        case 1: q.Lmax = 6; q.maxprim = 3; q.regime = MEDIUM; break;
        case 2: q.Lmax = top; q.maxprim = 2; q.regime = MEDIUM; break;
        default: q.Lmax = 3; q.maxprim = 3; q.regime = BROAD; break;
    }
    return q;
}

PotSpec gen_op_pot(Source &s, const Limits &q, int l) { return gen_pot(s, l, 0, 2, q.regime, q.powers); }

std::vector<ref::OC> gen_oc(Source &s, const Limits &q, int n)
{
    std::vector<ref::OC> oc;
    for (int i = 0; i < n; i++) {
        int L = s.range(0, std::min(3, q.lmax)), J = L == 0 ? 1 : 2 * L + (s.chance(1, 2) ? 1 : -1);
        if (i > 0 && s.chance(1, 2)) { L = oc[i - 1].U.L; J = oc[i - 1].U.J; if (s.chance(1, 3) && L > 0) J = 4 * L - J; }
        ref::OC o;
        o.U = gen_pot(s, L, J, 2, q.regime, q.powers);
        o.shell = gen_shell(s, L, L, 2, q.regime, V3{0.3, 0.4, 0.5});
        oc.push_back(o);
    }
    return oc;
}

GrppSpec gen_grpp(Source &s, const Limits &q, int work)
{
    GrppSpec g;
    g.loc = !s.chance(1, 5);
    int lm = std::max(0, std::min(q.lmax, work / 2));
    if (g.loc) g.local = gen_pot(s, lm, 0, 2, q.regime, q.powers);
    int n = s.range(0, q.maxcomp);
    for (int i = 0; i < n; i++) g.arep.push_back(gen_pot(s, s.range(0, lm), 0, 2, q.regime, q.powers));
    n = lm > 0 ? s.range(0, q.maxcomp) : 0;
    for (int i = 0; i < n; i++) g.esop.push_back(gen_pot(s, s.range(1, lm), 0, 2, q.regime, q.powers));
    g.oc = gen_oc(s, q, s.range(0, q.maxoc));
    // parts without any (non-zero) term are legal and occur in real pseudopotential files
    if (s.chance(1, 4)) {
        std::vector<PotSpec *> p;
        for (auto &u : g.arep) p.push_back(&u);
        for (auto &u : g.esop) p.push_back(&u);
        for (auto &x : g.oc) p.push_back(&x.U);
        if (g.loc) p.push_back(&g.local);
        if (!p.empty()) make_empty(s, *p[s.below(p.size())]);
    }
    return g;
}

Nuc gen_nuc(Source &s, int model)
{
    Nuc n;
    n.model = model;
    n.Z = s.chance(1, 6) ? s.range(121, 1000) : s.range(1, 120);         // the charge is any integer
    double fm = 1.0 / 52917.7210903;
    double R = s.real(1.0, 7.5) * fm;                         // realistic radii
    if (s.chance(1, 3)) R = s.logreal(1e-4, 0.3);             // exaggerated nuclei (nothing in the interface forbids them)
    if (model == 1 || model == 2) n.par[0] = R;
    if (model == 3 || model == 4) {
        n.par[0] = R;
        n.par[1] = R * s.logreal(0.05, 0.9);
        if (s.chance(1, 2)) n.par[1] = std::min(2.3 / (4 * std::log(3.0)) * fm, 0.9 * R);
        if (model == 4) {
            n.par[2] = s.real(-0.5, 2.0);
            double w = 1 + 3 * n.par[1] / n.par[0];
            n.par[2] = std::max(n.par[2], -0.8 / (w * w));            // the charge density has to be positive where it matters
        }
    }
    return n;
}

Op gen_op(Source &s, int kind, const Limits &q)
{
    Op o;
    o.kind = kind;
    Geometry g = gen_geometry(s, q.span);
    o.C = g.C;
    bool semi = kind == TYPE2 || kind == SO || kind == FULL || kind == G_TYPE2 || kind == G_SO || kind == G_FULL;
    int work = q.work - (kind_grad(kind) ? 2 : 0) - (kind == SO || kind == FULL || kind == G_SO || kind == G_FULL ? 1 : 0);
    int lmin = kind == SO || kind == G_SO ? 1 : 0;
    o.a = gen_shell(s, 0, semi ? std::min(q.Lmax, work - 2 * lmin) : q.Lmax, q.maxprim, q.regime, g.A);
    o.b = gen_shell(s, 0, semi ? std::min(q.Lmax, work - 2 * lmin - o.a.L) : q.Lmax, q.maxprim, q.regime, g.B);
    if (s.chance(1, 2)) { std::swap(o.a, o.b); std::swap(o.a.origin, o.b.origin); o.a.origin = g.A; o.b.origin = g.B; }
    int room = work - o.a.L - o.b.L;
    if (kind_uses_u(kind))
        o.u = gen_op_pot(s, q, semi ? s.range(lmin, std::max(lmin, std::min(q.lmax, room / 2))) : s.range(0, 3));
    if (kind_uses_oc(kind)) o.oc = gen_oc(s, q, s.range(0, q.maxoc));
    if (kind_uses_g(kind)) o.g = gen_grpp(s, q, room);
    if (kind == NUCATT) o.nuc = gen_nuc(s, o.a.L + o.b.L <= 6 ? s.below(6) : 0);   // the numerical models become very expensive with L
    if (kind_grad(kind)) {
        switch (s.below(4)) {
            case 0: o.P = o.a.origin; break;
            case 1: o.P = o.b.origin; break;
            case 2: o.P = o.C; break;
            default: o.P = s.chance(1, 4) ? V3{o.C[0] + 1, o.C[1] - 2, o.C[2] + 3} : o.a.origin;
        }
    }
    return o;
}

// ---- reference -------------------------------------------------------------------------------------
// S_k(x) = sum_{i>=1} (-1)^i exp(i x) / i^k, x <= 0, by convergence acceleration of the alternating series
static long double Sk(int k, long double x)
{
    if (x < -40) return -expl(x);
    const int n = 26;
    long double d = powl(3 + sqrtl(8.0L), n);
    d = (d + 1 / d) / 2;
    long double b = -1, c = -d, s = 0, e = expl(x), p = e;
    for (int i = 0; i < n; i++) {
        c = b - c;
        s += c * p / powl(i + 1, k);
        p *= e;
        b = (long double)(i + n) * (i - n) * b / ((i + 0.5L) * (i + 1));
    }
    return -s / d;
}

// int_0^r t^m rho(t) dt and int_r^inf t^m rho(t) dt for rho = 1/(1+exp((t-c)/a)), by the exponential series
// antiderivative G_m(t): for t<=c: t^(m+1)/(m+1) + sum_j (-1)^j m!/(m-j)! a^(j+1) t^(m-j) S_{j+1}((t-c)/a)  [dS_k/dx = S_{k-1}, S_0 = -1/(1+e^-x)]
static long double fermi_lower(int m, long double r, long double c, long double a)
{
    auto G = [&](long double t) {                // antiderivative for t <= c: rho = 1 + S_0((t-c)/a)
        long double s = powl(t, m + 1) / (m + 1), f = a;
        for (int j = 0; j <= m; j++) {
            s += (j % 2 ? -1 : 1) * f * powl(t, m - j) * Sk(j + 1, (t - c) / a);
            f *= (m - j) * a;
        }
        return s;
    };
    auto H = [&](long double t) {                // antiderivative for t >= c: rho = -S_0((c-t)/a)
        long double s = 0, f = a;
        for (int j = 0; j <= m; j++) {
            s += f * powl(t, m - j) * Sk(j + 1, (c - t) / a);
            f *= (m - j) * a;
        }
        return s;
    };
    if (r <= c) return G(r) - G(0);
    return G(c) - G(0) + H(r) - H(c);
}
static long double fermi_total(int m, long double c, long double a)
{
    long double r = c + 60 * a;
    return fermi_lower(m, r, c, a);
}

// int_0^inf r^2 (1 + k r^2/c^2) / (1 + exp((r-c)/a)) dr
double nuc_norm(const Nuc &n)
{
    long double c = n.par[0], a = n.par[1], k = n.model == 4 ? n.par[2] : 0;
    return (double)(fermi_total(2, c, a) + k / (c * c) * fermi_total(4, c, a));
}

double nuc_potential(const Nuc &n, double r)
{
    switch (n.model) {
        case 0: case 5: return -n.Z / r;
        case 1: {
            double R0 = n.par[0] * std::sqrt(5.0 / 3.0);
            return r >= R0 ? -n.Z / r : -n.Z * (1.5 / R0 - 0.5 * r * r / (R0 * R0 * R0));
        }
        case 2: return -n.Z * std::erf(r * std::sqrt(1.5) / n.par[0]) / r;
        default: {
            long double c = n.par[0], a = n.par[1], k = n.model == 4 ? n.par[2] : 0;
            if (r > c + 60 * a) return -n.Z / r;
            long double N = fermi_total(2, c, a) + k / (c * c) * fermi_total(4, c, a);
            long double in = fermi_lower(2, r, c, a) + k / (c * c) * fermi_lower(4, r, c, a);
            long double out = fermi_total(1, c, a) - fermi_lower(1, r, c, a) + k / (c * c) * (fermi_total(3, c, a) - fermi_lower(3, r, c, a));
            return (double)(-n.Z / N * (in / r + out));
        }
    }
}

static std::vector<double> nuc_breaks(const Nuc &n)
{
    std::vector<double> b;
    double R = n.model == 0 || n.model == 5 ? 0 : n.par[0];
    if (n.model == 1) b = {R * std::sqrt(5.0 / 3.0)};
    if (n.model == 2) for (double f : {0.5, 1.0, 2.0, 4.0, 7.0}) b.push_back(f * R);
    if (n.model >= 3 && n.model <= 4) {
        for (double f : {0.25, 0.5, 0.75, 1.0}) b.push_back(f * R);
        for (double f : {1, 2, 4, 8, 16, 32, 60}) { b.push_back(R + f * n.par[1]); if (R > f * n.par[1]) b.push_back(R - f * n.par[1]); }
    }
    return b;
}

Mat transpose(const Mat &m)
{
    Mat t;
    t.init(m.nb, m.na);
    for (int i = 0; i < m.na; i++)
        for (int j = 0; j < m.nb; j++) {
            size_t x = (size_t)i * m.nb + j, y = (size_t)j * m.na + i;
            t.v[y] = m.v[x];
            t.s[y] = m.s[x];
            t.z[y] = m.z[x];
        }
    return t;
}

static void full_ref(const GrppSpec &g, const Fn &a, const Fn &b, const V3 &C, std::vector<Mat> &out)
{
    out.assign(4, Mat());
    for (auto &m : out) m.init(a.ncomp, b.ncomp);
    if (g.loc) out[0].add(ref::type1(a, b, C, g.local), 1);
    for (auto &u : g.arep) out[0].add(ref::type2(a, b, C, u), 1);
    for (auto &u : g.esop)
        for (int k = 0; k < 3; k++) out[1 + k].add(ref::so(a, b, C, u, k), 2.0 / (2 * u.L + 1));
    if (!g.oc.empty()) {
        Mat m[4];
        ref::outercore(a, b, C, g.oc, m);
        for (int k = 0; k < 4; k++) out[k].add(m[k], 1);
    }
}

// base (non gradient) operation on arbitrary functions
static std::vector<Mat> base_ref(int kind, const Op &o, const Fn &a, const Fn &b)
{
    std::vector<Mat> out;
    switch (kind) {
        case OVERLAP: out.push_back(ref::overlap(a, b)); break;
        case KINETIC: {
            Mat m;
            m.init(a.ncomp, b.ncomp);
            m.add(ref::overlap(a, ref::laplacian(b)), -0.5);
            out.push_back(m);
            break;
        }
        case MOMENTUM:
            for (int k = 0; k < 3; k++) {
                Mat m;
                m.init(a.ncomp, b.ncomp);
                m.add(ref::overlap(a, ref::d_r(b, k)), -1);
                out.push_back(m);
            }
            break;
        case NUCATT: {
            // point-like models: potential tabulated independently
            const Nuc &n = o.nuc;
            out.push_back(ref::radial_local(a, b, o.C, [&](double r) { return nuc_potential(n, r); }, nuc_breaks(n)));
            break;
        }
        case TYPE1: out.push_back(ref::type1(a, b, o.C, o.u)); break;
        case TYPE2: out.push_back(ref::type2(a, b, o.C, o.u)); break;
        case SO: for (int k = 0; k < 3; k++) out.push_back(ref::so(a, b, o.C, o.u, k)); break;
        case OUTER: {
            Mat m[4];
            for (auto &x : m) x.init(a.ncomp, b.ncomp);
            ref::outercore(a, b, o.C, o.oc, m);
            for (auto &x : m) out.push_back(x);
            break;
        }
        case FULL: full_ref(o.g, a, b, o.C, out); break;
    }
    return out;
}

static bool same_point(const V3 &x, const V3 &y) { return same_ptr(x, y); }

std::vector<Mat> op_ref(const Op &o)
{
    Fn a = ref::make_fn(o.a), b = ref::make_fn(o.b);
    if (!kind_grad(o.kind)) return base_ref(o.kind, o, a, b);
    static const int base[] = {OVERLAP, TYPE1, TYPE2, SO, OUTER, FULL};
    int bk = base[o.kind - G_OVERLAP], nb = NMAT[bk];
    std::vector<Mat> out(NMAT[o.kind]);
    for (auto &m : out) m.init(a.ncomp, b.ncomp);
    int fa, fb;
    if (bk == OVERLAP) {
        fa = same_point(o.a.origin, o.P);
        fb = same_point(o.b.origin, o.P);
        if (fa && fb) fa = fb = 0;
    } else {
        int fc = same_point(o.C, o.P);
        fa = (int)same_point(o.a.origin, o.P) - fc;      // translational invariance: d/dC = -(d/dA + d/dB)
        fb = (int)same_point(o.b.origin, o.P) - fc;
        if (same_point(o.a.origin, o.C) && same_point(o.b.origin, o.C)) fa = fb = 0;
    }
    for (int k = 0; k < 3; k++) {
        if (fa) { auto r = base_ref(bk, o, ref::d_center(a, k), b); for (int q = 0; q < nb; q++) out[3 * q + k].add(r[q], fa); }
        if (fb) { auto r = base_ref(bk, o, a, ref::d_center(b, k)); for (int q = 0; q < nb; q++) out[3 * q + k].add(r[q], fb); }
    }
    return out;
}

std::vector<Tol> op_tol(const Op &o, const std::vector<Mat> &r)
{
    int g = kind_grad(o.kind);
    static const int base[] = {OVERLAP, TYPE1, TYPE2, SO, OUTER, FULL};
    int bk = g ? base[o.kind - G_OVERLAP] : o.kind;
    std::vector<Tol> out(NMAT[o.kind]);
    auto mx = [](Tol &t, const Tol &x) { t.rel = std::max(t.rel, x.rel); t.noise = std::max(t.noise, x.noise); t.abs = std::max(t.abs, x.abs); };
    double tiny = tiny_offset(o.a, o.b, o.C);
    // differentiation moves one function to L+1; tolerances are those of the higher angular momentum
    ShellSpec a = o.a, b = o.b;
    if (g) { a.L++; }
    auto semi = [&](const PotSpec &u, int extra) {
        Tol t = semilocal_tol(a, b, o.C, u, extra);
        if (g) {
            ShellSpec a2 = o.a, b2 = o.b;
            b2.L++;
            mx(t, semilocal_tol(a2, b2, o.C, u, extra));
            double am = std::max(maxof(a.alpha), maxof(b.alpha));
            t.abs *= 1 + 2 * am;
        }
        t.noise += tiny;
        return t;
    };
    for (auto &t : out) t.rel = 1e-11, t.noise = 1e-12, t.abs = 1e-13;
    double zall = 0, so_extra = 0;
    for (auto &m : r) zall = std::max(zall, maxof(m.z));
    if (tiny > 0 && (bk == SO || bk == FULL)) {
        // first-order effect of the neglected offset, estimated with the plain projected integral
        Fn fa = ref::make_fn(o.a), fb = ref::make_fn(o.b);
        auto one = [&](const PotSpec &u) {
            double m = maxof(ref::type2(fa, fb, o.C, u).z);
            if (g) for (int k = 0; k < 3; k++)
                m = std::max({m, maxof(ref::type2(ref::d_center(fa, k), fb, o.C, u).z), maxof(ref::type2(fa, ref::d_center(fb, k), o.C, u).z)});
            return m;
        };
        if (bk == SO) so_extra += one(o.u);
        else for (auto &u : o.g.esop) so_extra += one(u);
        so_extra *= tiny * (2 + o.a.L + o.b.L);
    }
    for (int q = 0; q < NMAT[o.kind]; q++) {
        int comp = g ? q / 3 : q;
        Tol &t = out[q];
        switch (bk) {
            case KINETIC: case MOMENTUM: t.rel = 1e-10; t.noise = 1e-11; break;
            case TYPE1: mx(t, type1_tol()); break;
            case TYPE2: mx(t, semi(o.u, 0)); break;
            case SO: mx(t, semi(o.u, 1)); t.abs += so_extra; break;
            case OUTER: mx(t, outercore_tol()); t.abs = std::max(t.abs, 1e-11 * zall); break;
            case FULL:
                if (comp == 0) {
                    if (o.g.loc) mx(t, type1_tol());
                    for (auto &u : o.g.arep) mx(t, semi(u, 0));
                } else {
                    for (auto &u : o.g.esop) mx(t, semi(u, 1));
                    t.abs += so_extra;
                }
                if (!o.g.oc.empty()) { mx(t, outercore_tol()); t.abs = std::max(t.abs, 1e-11 * zall); }
                break;
            case NUCATT: {
                // numerical radial quadrature of the finite models; closed recursions for the point charge
                static const double fin[] = {1e-8, 1e-8, 2e-8, 3e-8, 1e-7, 2e-6, 1e-5};
                int Ls = o.a.L + o.b.L;
                if (o.nuc.model == 0) {
                    t = type1_tol();
                    double pos = 0;                        // positions are only known to the last bit
                    for (int ax = 0; ax < 3; ax++) pos = std::max({pos, std::fabs(o.a.origin[ax]), std::fabs(o.b.origin[ax]), std::fabs(o.C[ax])});
                    t.noise += 5e-15 * pos * std::sqrt(std::max(maxof(o.a.alpha), maxof(o.b.alpha))) * (2 + Ls);
                    break;
                }
                t.rel = Ls > 6 ? 3e-5 : fin[Ls];
                t.abs = 1e-10;
                break;
            }
        }
    }
    return out;
}

std::vector<double> op_abs_tol(const Op &o, const std::vector<Mat> &r)
{
    std::vector<Tol> t = op_tol(o, r);
    std::vector<double> out;
    for (size_t q = 0; q < r.size(); q++) out.push_back(t[q].rel * maxof(r[q].s) + t[q].noise * maxof(r[q].z) + t[q].abs);
    return out;
}
