// C18 memory safety, undefined behaviour, leaks, finite results: structured fuzzing of every routine in a build
// with address and undefined-behaviour sanitizers (the same cases also run in the plain build).
#include "memwrap.hpp"
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>

extern "C" {
void libgrpp_set_default_parameters();
void libgrpp_set_radial_tolerance(double);
void libgrpp_set_angular_screening_tolerance(double);
void libgrpp_set_modified_bessel_tolerance(double);
void libgrpp_set_cartesian_order(int);
void libgrpp_set_cartesian_generator(int (*)(int, int *));
}

typedef std::vector<double> Vec;

// overwrites the part of the stack the following call is going to use
static void __attribute__((noinline)) dirty_stack(int pattern)
{
    volatile unsigned char buf[192 * 1024];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = pattern;
}

static V3 wide_point(Source &s)
{
    switch (s.below(6)) {
        case 0: return V3{0, 0, 0};
        case 1: return gen_point(s, 20);
        case 2: return gen_point(s, 1e-6);
        default: return gen_point(s, 2.5);
    }
}

static ShellSpec wide_shell(Source &s, int L, int maxprim, const V3 &at)
{
    ShellSpec sh;
    sh.L = L;
    sh.origin = at;
    int n = s.chance(1, 12) ? s.range(1, 80) : s.range(1, maxprim);
    for (int i = 0; i < n; i++) {
        sh.alpha.push_back(s.chance(1, 6) ? s.logreal(1e-3, 1e6) : s.logreal(0.05, 50));
        sh.coeffs.push_back(s.chance(1, 10) ? 0.0 : s.chance(1, 10) ? s.logreal(1e-16, 1e-8) : s.real(-2, 2));
    }
    return sh;
}

static PotSpec wide_pot(Source &s, int L, int J, int maxprim, int maxpow)
{
    PotSpec u;
    u.L = L;
    u.J = J;
    int n = s.chance(1, 12) ? 0 : s.chance(1, 12) ? s.range(1, 80) : s.range(1, maxprim);
    for (int i = 0; i < n; i++) {
        u.powers.push_back(s.range(0, maxpow));
        u.alpha.push_back(s.chance(1, 6) ? s.logreal(1e-3, 1e5) : s.logreal(0.1, 30));
        u.coeffs.push_back(s.chance(1, 8) ? 0.0 : s.real(-30, 30));
    }
    return u;
}

// angular momenta such that the evaluation finishes in acceptable time
struct Ang { int la, lb, l; };
static Ang gen_ang(Source &s, int kind, const V3 &a, const V3 &b, const V3 &C, bool thorough)
{
    Ang x;
    bool grad = kind_grad(kind);
    int top = grad ? 9 : 10;
    bool semi = kind == TYPE2 || kind == SO || kind == FULL || kind == G_TYPE2 || kind == G_SO || kind == G_FULL;
    auto edge = [&](int hi) { return s.chance(1, 3) ? hi : s.range(0, hi); };      // the limits are drawn often
    if (!semi) {
        x.la = edge(top);
        x.lb = edge(top);
        x.l = edge(kind == OUTER || kind == G_OUTER ? 10 : 3);
        if (grad && kind != G_OVERLAP && x.la + x.lb > 13) x.lb = std::min(x.lb, 13 - std::min(x.la, 9));
        if (x.lb < 0) x.lb = 0;
        if (s.chance(1, 2)) std::swap(x.la, x.lb);
        return x;
    }
    int lmin = kind == SO || kind == G_SO ? 1 : 0;
    int near = (dist(a, C) < 1e-12) + (dist(b, C) < 1e-12);
    int budget = (near == 2 ? 30 : near == 1 ? (thorough ? 19 : 15) : (thorough ? 10 : 8)) - (grad ? 3 : 0) - (kind == SO || kind == G_SO || kind == FULL || kind == G_FULL ? 1 : 0);
    if (near == 2 && kind != TYPE2) budget = 22;
    if (grad && near == 2) budget = thorough ? 18 : 15;
    int room = budget - 2 * lmin;
    x.la = edge(std::min(top, room));
    room -= x.la;
    if (near == 1 && s.chance(1, 2)) { x.lb = 0; } else { x.lb = edge(std::min(top, room)); }
    room -= x.lb;
    x.l = lmin + edge(std::min(10 - lmin, room / 2));
    if (s.chance(1, 2)) std::swap(x.la, x.lb);
    return x;
}

static GrppSpec wide_grpp(Source &s, int lmax)
{
    GrppSpec g;
    g.loc = s.chance(2, 3);
    if (g.loc) g.local = wide_pot(s, lmax, 0, 3, 2);
    int n = s.range(0, 2);
    for (int i = 0; i < n; i++) g.arep.push_back(wide_pot(s, s.range(0, lmax), 0, 2, 3));
    n = s.range(0, 2);
    for (int i = 0; i < n; i++) g.esop.push_back(wide_pot(s, s.range(lmax > 0 ? 1 : 0, lmax), 0, 2, 3));
    n = s.range(0, 3);
    for (int i = 0; i < n; i++) {
        int L = s.chance(1, 4) ? s.range(0, 10) : s.range(0, 3), J = L == 0 ? 1 : 2 * L + (s.chance(1, 2) ? 1 : -1);
        g.oc.push_back({wide_pot(s, L, J, 2, 2), wide_shell(s, L, 2, V3{0, 0, 0})});
    }
    return g;
}

static Op wide_op(Source &s, int kind, bool thorough)
{
    Op o;
    o.kind = kind;
    o.C = s.chance(1, 3) ? V3{0, 0, 0} : wide_point(s);
    V3 A = s.chance(1, 3) ? o.C : wide_point(s), B = s.chance(1, 3) ? o.C : s.chance(1, 4) ? A : wide_point(s);
    o.P = s.chance(1, 3) ? o.C : s.chance(1, 2) ? A : s.chance(2, 3) ? B : wide_point(s);
    Ang x = gen_ang(s, kind, A, B, o.C, thorough);
    bool numeric = false;
    if (kind == NUCATT) {
        int m = s.below(6);
        o.nuc = gen_nuc(s, m);
        numeric = m != 0;
        if (numeric) { x.la = std::min(x.la, 10); x.lb = std::min(x.lb, std::max(0, 6 - x.la)); if (x.la > 6) x.la = 6; if (s.chance(1, 2)) std::swap(x.la, x.lb); }
    }
    bool semi = kind == TYPE2 || kind == SO || kind == FULL || kind == G_TYPE2 || kind == G_SO || kind == G_FULL;
    int mp = semi || numeric ? 1 : x.la + x.lb > 10 ? 2 : 3;
    o.a = wide_shell(s, x.la, mp, A);
    o.b = wide_shell(s, x.lb, mp, B);
    if ((semi || numeric) && (o.a.alpha.size() > 2 || o.b.alpha.size() > 2) && x.la + x.lb + 2 * x.l > 4) {
        for (ShellSpec *z : {&o.a, &o.b}) { z->alpha.resize(1); z->coeffs.resize(1); }
    }
    bool t1 = kind == TYPE1 || kind == G_TYPE1;
    if (kind_uses_u(kind)) o.u = wide_pot(s, x.l, 0, 2, t1 ? 2 : 6);
    if (semi && o.u.alpha.size() > 6 && x.la + x.lb + 2 * x.l > 4) { o.u.alpha.resize(3); o.u.powers.resize(3); o.u.coeffs.resize(3); }
    if (kind_uses_oc(kind)) {
        int n = s.range(0, 3);
        for (int i = 0; i < n; i++) {
            int L = i == 0 ? x.l : s.range(0, 10), J = L == 0 ? 1 : 2 * L + (s.chance(1, 2) ? 1 : -1);
            if (i && s.chance(1, 2)) { L = o.oc[0].U.L; J = o.oc[0].U.J; }
            o.oc.push_back({wide_pot(s, L, J, 2, 2), wide_shell(s, L, 2, V3{0.1, 0.2, 0.3})});
        }
    }
    if (kind_uses_g(kind)) o.g = wide_grpp(s, x.l);
    // bounds the number of primitive triples by the angular momentum
    auto cut = [](ShellSpec &z, size_t n) { if (z.alpha.size() > n) { z.alpha.resize(n); z.coeffs.resize(n); } };
    auto cutp = [](PotSpec &z, size_t n) { if (z.alpha.size() > n) { z.alpha.resize(n); z.coeffs.resize(n); z.powers.resize(n); } };
    double lim = 3e6 / std::pow(2.0 + x.la + x.lb + (kind_grad(kind) ? 2 : 0) + (kind_uses_oc(kind) ? x.l : 0), 3.3);
    auto size = [&] {
        size_t p = std::max<size_t>(1, o.u.alpha.size()), q = 1;
        for (auto &z : o.oc) q = std::max(q, z.U.alpha.size() * z.shell.alpha.size());
        return double(o.a.alpha.size() * o.b.alpha.size()) * p * q * (kind_grad(kind) ? 4 : 1);
    };
    for (size_t n = 64; n >= 1 && size() > lim; n /= 2) {
        cut(s.chance(1, 2) ? o.a : o.b, n);
        cutp(o.u, std::max<size_t>(n / 2, 1));
        for (auto &z : o.oc) { cutp(z.U, n); cut(z.shell, n); }
        if (size() > lim) { cut(o.a, n); cut(o.b, n); }
    }
    return o;
}

// one evaluation with exactly sized heap buffers, objects created and released inside
static Vec once(const Op &o, int fill, int pattern)
{
    int nm = kind_nmat(o.kind), n = o.size();
    Vec out((size_t)nm * n);
    OpObj ob(o);
    std::vector<double *> m(nm);
    for (int k = 0; k < nm; k++) { m[k] = (double *)malloc(sizeof(double) * n); memset(m[k], fill, sizeof(double) * n); }
    dirty_stack(pattern);
    ob.run(m.data());
    for (int k = 0; k < nm; k++) { std::copy(m[k], m[k] + n, out.begin() + (size_t)k * n); free(m[k]); }
    return out;
}

static void check_finite(Ctx &c, const char *w, const Vec &v)
{
    c.elementary += v.size();
    for (size_t i = 0; i < v.size(); i++) if (!std::isfinite(v[i])) c.fail(strf("%s: element %zu is %g", w, i, v[i]));
}

static void num(Ctx &c, const char *w, double v)
{
    c.elementary++;
    if (!std::isfinite(v)) c.fail(strf("%s is %g", w, v));
}

static void nuclear_functions(Ctx &c)
{
    Source &s = c.src;
    c.label("nuclear model functions");
    for (int rep = 0; rep < 200; rep++) {
        Nuc n = gen_nuc(s, 4);
        double R = n.par[0], a = n.par[1], k = n.par[2], Z = s.real(0.1, 120);
        double r = s.chance(1, 3) ? s.logreal(1e-12, 1e6) : R * s.logreal(1e-3, 1e2);
        if (s.chance(1, 6)) r = R * (1 + s.pick(std::vector<double>{0, 1e-15, -1e-15, 1e-9}));
        c.describe(strf("nuclear functions Z=%g R=c=%.17g a=%.17g k=%.17g r=%.17g", Z, R, a, k, r));
        num(c, "density ball", libgrpp_charge_density_ball(r, Z, R));
        num(c, "density gaussian", libgrpp_charge_density_gaussian(r, Z, R));
        num(c, "density fermi", libgrpp_charge_density_fermi(r, Z, R, a));
        num(c, "density bubble", libgrpp_charge_density_fermi_bubble(r, Z, R, a, k));
        num(c, "potential point", libgrpp_coulomb_potential_point(r, Z));
        num(c, "potential ball", libgrpp_coulomb_potential_ball(r, Z, R));
        num(c, "potential gaussian", libgrpp_coulomb_potential_gaussian(r, Z, R));
        num(c, "potential fermi", libgrpp_coulomb_potential_fermi(r, Z, R, a));
        num(c, "potential bubble", libgrpp_coulomb_potential_fermi_bubble(r, Z, R, a, k));
        num(c, "rms fermi", libgrpp_rms_radius_fermi(n.Z, R, a));
        { double v = libgrpp_rms_radius_fermi_bubble(n.Z, R, a, k); if (k >= 0) num(c, "rms bubble", v); }   // a negative mean square has no radius
        int A = s.range(1, 400);
        num(c, "johnson", libgrpp_estimate_nuclear_rms_radius_johnson_1985(A));
        num(c, "golovko", libgrpp_estimate_nuclear_rms_radius_golovko_2008(A));
        double cc = 0, aa = 0;
        int rc = libgrpp_estimate_fermi_model_parameters(s.real(0.1, 20), &cc, &aa);
        if (rc == 0) { num(c, "fermi c", cc); num(c, "fermi a", aa); }
    }
    c.nontrivial();
}

static int reversed_gen(int L, int *list)
{
    int n = 0;
    for (int z = L; z >= 0; z--) for (int y = L - z; y >= 0; y--) { list[3 * n] = L - z - y; list[3 * n + 1] = y; list[3 * n + 2] = z; n++; }
    return n;
}

// constructors, copies, shrinking, replacement, long lists, settings, initialisation cycles
static void object_history(Ctx &c)
{
    Source &s = c.src;
    c.label("object histories");
    std::vector<libgrpp_shell_t *> S;
    std::vector<libgrpp_potential_t *> U;
    std::vector<libgrpp_grpp_t *> G;
    auto mkS = [&](int L) { ShellSpec x = wide_shell(s, L, 4, V3{1, 2, 3}); V3 o = x.origin; Vec cc(x.coeffs), aa(x.alpha); return libgrpp_new_shell(o.data(), L, aa.size(), cc.data(), aa.data()); };
    auto mkU = [&](int L, int J) {
        PotSpec x = wide_pot(s, L, J, 4, 6);
        std::vector<int> p(x.powers);
        Vec cc(x.coeffs), aa(x.alpha);
        return libgrpp_new_potential(L, J, p.size(), p.data(), cc.data(), aa.data());
    };
    std::string d = "object history:";
    int steps = s.range(1, 40);
    for (int i = 0; i < steps; i++) {
        int k = s.below(15);
        d += strf(" %d", k);
        c.describe(d);
        switch (k) {
            case 0: S.push_back(mkS(s.range(0, 10))); break;
            case 1: U.push_back(mkU(s.range(0, 10), s.range(0, 21))); break;
            case 2: if (!S.empty()) S.push_back(libgrpp_shell_deep_copy(s.pick(S))); break;
            case 3: if (!U.empty()) U.push_back(libgrpp_shrink_potential(s.pick(U))); break;
            case 4: if (!S.empty()) { size_t j = s.below(S.size()); libgrpp_delete_shell(S[j]); S.erase(S.begin() + j); } break;
            case 5: if (!U.empty()) { size_t j = s.below(U.size()); libgrpp_delete_potential(U[j]); U.erase(U.begin() + j); } break;
            case 6: G.push_back(libgrpp_new_grpp()); break;
            case 7: if (!G.empty()) libgrpp_grpp_set_local_potential(s.pick(G), mkU(s.range(0, 10), 0)); break;
            case 8: if (!G.empty()) { auto g = s.pick(G); int n = s.chance(1, 4) ? s.range(1, 60) : 1; while (n-- && g->n_arep < 100) libgrpp_grpp_add_averaged_potential(g, mkU(s.range(0, 10), 0)); } break;
            case 9: if (!G.empty()) { auto g = s.pick(G); int n = s.chance(1, 4) ? s.range(1, 60) : 1; while (n-- && g->n_esop < 100) libgrpp_grpp_add_spin_orbit_potential(g, mkU(s.range(0, 10), 0)); } break;
            case 10: if (!G.empty()) { auto g = s.pick(G); int n = s.chance(1, 4) ? s.range(1, 60) : 1; while (n-- && g->n_oc_shells < 100) { int L = s.range(0, 10); libgrpp_grpp_add_outercore_potential(g, mkU(L, 2 * L + 1), mkS(L)); } } break;
            case 11: if (!G.empty()) { size_t j = s.below(G.size()); libgrpp_delete_grpp(G[j]); G.erase(G.begin() + j); } break;
            case 12: if (!S.empty()) { auto x = s.pick(S); libgrpp_shell_mult_normcoef(x); c.require(libgrpp_get_shell_size(x) == ncart(x->L), "size of a shell"); } break;
            case 13: if (!U.empty()) num(c, "potential value", libgrpp_potential_value(s.pick(U), s.logreal(1e-3, 1e3))); break;
            default:
                switch (s.below(5)) {
                    case 0: libgrpp_finalize(); libgrpp_init(); break;
                    case 1: libgrpp_set_cartesian_order(s.below(2)); break;
                    case 2: libgrpp_set_cartesian_generator(reversed_gen); break;
                    case 3: libgrpp_set_radial_tolerance(s.logreal(1e-18, 1e-6)); break;
                    default: libgrpp_set_default_parameters();
                }
        }
    }
    for (auto x : S) libgrpp_delete_shell(x);
    for (auto x : U) libgrpp_delete_potential(x);
    for (auto x : G) libgrpp_delete_grpp(x);
    if (steps > 5) c.nontrivial();
}

enum { M_NUC = NKIND, M_OBJ, M_OTHER, M_COUNT };

void other_histories(Ctx &c);

static void prop_mem(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(M_COUNT);
    if (kind == M_NUC || kind == M_OBJ || kind == M_OTHER) {
        long l0 = memw::live();
        if (kind == M_NUC) nuclear_functions(c);
        else if (kind == M_OBJ) object_history(c);
        else {
            c.label("histories of other checks");
            other_histories(c);
            return;                                        // those keep objects of their own alive
        }
        c.require(memw::live() == l0, strf("%ld blocks allocated by the library were not released", memw::live() - l0));
        return;
    }
    Op o = wide_op(s, kind, c.thorough);
    c.label(kind_name(kind));
    c.describe(txt(o));
    if (o.a.L >= 8 || o.b.L >= 8) c.label("L >= 8");
    if (std::max(o.a.L, o.b.L) == (kind_grad(kind) ? 9 : 10)) c.label("L at the limit");
    if (kind_uses_u(kind) && o.u.alpha.empty()) c.label("empty potential");
    Vec x = once(o, 0xff, 0x00);
    check_finite(c, "result", x);
    long l0 = memw::live();
    Vec y = once(o, 0x00, 0xff);
    long l1 = memw::live();
    c.require(l1 == l0, strf("%ld blocks allocated during the call were not released", l1 - l0));
    for (size_t i = 0; i < x.size(); i++)
        if (!(x[i] == y[i])) c.fail(strf("element %zu depends on memory contents: %.17g and %.17g", i, x[i], y[i]));
    double big = 0;
    for (double v : x) big = std::max(big, std::fabs(v));
    if (big > 0) c.nontrivial();
}

void register_mem(std::vector<Property> &v)
{
    Property p;
    p.id = "C18"; p.fn = prop_mem; p.modes = M_COUNT; p.quick_cases = 6000; p.thorough_cases = 1000000;
    p.thorough_budget_s = 720;
    p.quick_budget_s = 120;
    p.cpu_limit_s = 300;
    p.technique_rule = "structured fuzzing of every routine (and of object and setting histories) under address and undefined-behaviour sanitizers, with exactly sized buffers, leak accounting, two memory fill patterns; non-trivial: some element is not zero";
    v.push_back(p);
}
