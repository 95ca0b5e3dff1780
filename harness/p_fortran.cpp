// C19 Fortran interface
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>
#include <cstdint>

typedef std::vector<double> Vec;
typedef int32_t I;
#define GA double *, I *, I *, double *, double *
extern "C" {
void libgrpp_set_default_parameters_();
void libgrpp_set_radial_tolerance_(const double *);
void libgrpp_set_angular_screening_tolerance_(const double *);
void libgrpp_set_modified_bessel_tolerance_(const double *);
void libgrpp_set_cartesian_order_(const I *);
void libgrpp_init_();
void libgrpp_finalize_();
void libgrpp_type1_integrals_(GA, GA, double *, I *, I *, double *, double *, double *);
void libgrpp_type2_integrals_(GA, GA, double *, I *, I *, I *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_(GA, GA, double *, I *, I *, I *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_1_(GA, GA, double *, I *, I *, I *, I *, double *, double *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_2_(GA, GA, double *, I *, I *, I *, I *, double *, double *, I *, double *, double *, I *, I *, I *, I *, double *,
                                                   double *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_type1_integrals_gradient_(GA, GA, double *, I *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_type2_integrals_gradient_(GA, GA, double *, I *, I *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_gradient_(GA, GA, double *, I *, I *, I *, double *, double *, double *, double *, double *, double *, double *, double *, double *,
                                            double *, double *, double *);
void libgrpp_overlap_integrals_(GA, GA, double *);
void libgrpp_kinetic_energy_integrals_(GA, GA, double *);
void libgrpp_momentum_integrals_(GA, GA, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_(GA, GA, double *, I *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_point_charge_(GA, GA, double *, I *, double *);
void libgrpp_nuclear_attraction_integrals_charged_ball_(GA, GA, double *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_gaussian_model_(GA, GA, double *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_model_(GA, GA, double *, I *, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(GA, GA, double *, I *, double *, double *, double *, double *);
void evaluate_overlap_integral_contracted_(double *, I *, I *, I *, I *, double *, double *, double *, I *, I *, I *, I *, double *, double *, double *);
void radial_gto_norm_factor_(I *, I *, double *, double *, double *);
void libgrpp_estimate_nuclear_rms_radius_johnson_1985_(I *, double *);
void libgrpp_estimate_nuclear_rms_radius_golovko_2008_(I *, double *);
void libgrpp_estimate_fermi_model_parameters_(double *, double *, double *, I *);
void libgrpp_charge_density_ball_(double *, double *, double *, double *);
void libgrpp_charge_density_gaussian_(double *, double *, double *, double *);
void libgrpp_charge_density_fermi_(double *, double *, double *, double *, double *);
void libgrpp_charge_density_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_point_(double *, double *, double *);
void libgrpp_coulomb_potential_ball_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_gaussian_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_(double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_rms_radius_fermi_(I *, double *, double *, double *);
void libgrpp_rms_radius_fermi_bubble_(I *, double *, double *, double *, double *);
void libgrpp_set_default_parameters();
void libgrpp_set_radial_tolerance(double);
void libgrpp_set_angular_screening_tolerance(double);
void libgrpp_set_modified_bessel_tolerance(double);
void libgrpp_set_cartesian_order(int);
void libgrpp_set_cartesian_generator(int (*)(int, int *));
}

static void bits(Ctx &c, const std::string &what, const double *f, const double *x, size_t n)
{
    c.elementary += n;
    for (size_t i = 0; i < n; i++)
        if (!(f[i] == x[i]) && !(std::isnan(f[i]) && std::isnan(x[i])))
            c.fail(strf("%s: element %zu from Fortran %.17g, from C %.17g", what.c_str(), i, f[i], x[i]));
}

struct FShell {                                            // arguments of one contracted Gaussian
    V3 o;
    I L, n;
    Vec c, a;
    explicit FShell(const ShellSpec &s) : o(s.origin), L(s.L), n(s.alpha.size()), c(s.coeffs), a(s.alpha) {}
};
#define FG(x) x.o.data(), &x.L, &x.n, x.c.data(), x.a.data()
struct FPot {
    I L, J, n;
    std::vector<I> p;
    Vec c, a;
    explicit FPot(const PotSpec &u) : L(u.L), J(u.J), n(u.powers.size()), p(u.powers.begin(), u.powers.end()), c(u.coeffs), a(u.alpha) {}
};
#define FP(u) &u.n, u.p.data(), u.c.data(), u.a.data()

static int reversed(int L, int *list)
{
    int n = 0;
    for (int z = L; z >= 0; z--) for (int y = L - z; y >= 0; y--) { list[3 * n] = L - z - y; list[3 * n + 1] = y; list[3 * n + 2] = z; n++; }
    return n;
}



enum { F_MODELS = NKIND, F_CONTRACTED, F_SETTINGS, F_NUC, F_COUNT };

void prop_fortran(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(F_COUNT);
    if (kind == F_MODELS) {
        c.label("nuclear models");
        c.nontrivial();
        Nuc n = gen_nuc(s, 4);
        if (s.chance(1, 3)) n.par[2] = s.real(-0.3, 2.0);
        double R = n.par[0], a = n.par[1], k = n.par[2], Z = s.chance(1, 2) ? n.Z : s.real(0.5, 120), r = R * s.logreal(1e-2, 1e3), f, x;
        I Zi = n.Z, A = s.range(1, 300), err;
        c.describe(strf("nuclear models at Z=%g R=c=%.17g a=%.17g k=%.17g r=%.17g A=%d", Z, R, a, k, r, A));
        auto eq = [&](const char *w) { bits(c, w, &f, &x, 1); f = x = -3; };
        libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&A, &f); x = libgrpp_estimate_nuclear_rms_radius_johnson_1985(A); eq("johnson");
        libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&A, &f); x = libgrpp_estimate_nuclear_rms_radius_golovko_2008(A); eq("golovko");
        double Rf = s.real(0.3, 9), c1 = -4, a1 = -4, c2 = -4, a2 = -4;
        libgrpp_estimate_fermi_model_parameters_(&Rf, &c1, &a1, &err);
        int e2 = libgrpp_estimate_fermi_model_parameters(Rf, &c2, &a2);
        c.require(err == e2, "status of the Fermi parameter estimate");
        bits(c, "Fermi parameter c", &c1, &c2, 1);
        bits(c, "Fermi parameter a", &a1, &a2, 1);
        libgrpp_charge_density_ball_(&r, &Z, &R, &f); x = libgrpp_charge_density_ball(r, Z, R); eq("density ball");
        libgrpp_charge_density_gaussian_(&r, &Z, &R, &f); x = libgrpp_charge_density_gaussian(r, Z, R); eq("density gaussian");
        libgrpp_charge_density_fermi_(&r, &Z, &R, &a, &f); x = libgrpp_charge_density_fermi(r, Z, R, a); eq("density fermi");
        libgrpp_charge_density_fermi_bubble_(&r, &Z, &R, &a, &k, &f); x = libgrpp_charge_density_fermi_bubble(r, Z, R, a, k); eq("density fermi bubble");
        libgrpp_coulomb_potential_point_(&r, &Z, &f); x = libgrpp_coulomb_potential_point(r, Z); eq("potential point");
        libgrpp_coulomb_potential_ball_(&r, &Z, &R, &f); x = libgrpp_coulomb_potential_ball(r, Z, R); eq("potential ball");
        libgrpp_coulomb_potential_gaussian_(&r, &Z, &R, &f); x = libgrpp_coulomb_potential_gaussian(r, Z, R); eq("potential gaussian");
        libgrpp_coulomb_potential_fermi_(&r, &Z, &R, &a, &f); x = libgrpp_coulomb_potential_fermi(r, Z, R, a); eq("potential fermi");
        libgrpp_coulomb_potential_fermi_bubble_(&r, &Z, &R, &a, &k, &f); x = libgrpp_coulomb_potential_fermi_bubble(r, Z, R, a, k); eq("potential fermi bubble");
        libgrpp_rms_radius_fermi_(&Zi, &R, &a, &f); x = libgrpp_rms_radius_fermi(n.Z, R, a); eq("rms radius fermi");
        libgrpp_rms_radius_fermi_bubble_(&Zi, &R, &a, &k, &f); x = libgrpp_rms_radius_fermi_bubble(n.Z, R, a, k); eq("rms radius fermi bubble");
        return;
    }
    if (kind == F_CONTRACTED) {                            // single contracted functions and the radial norm
        c.label("contracted overlap and radial norm");
        Limits q = limits_for(s, OVERLAP, c.thorough);
        Op o = gen_op(s, OVERLAP, q);
        c.describe(txt(o));
        FShell A(o.a), B(o.b);
        Vec S = eval(o);
        auto r = op_ref(o);
        double tol = op_abs_tol(o, r)[0];
        auto la = ref::cart_list(o.a.L), lb = ref::cart_list(o.b.L);
        for (size_t i = 0; i < la.size(); i++)
            for (size_t j = 0; j < lb.size(); j++) {
                I e[6] = {la[i][0], la[i][1], la[i][2], lb[j][0], lb[j][1], lb[j][2]};
                double v = -5;
                evaluate_overlap_integral_contracted_(A.o.data(), &e[0], &e[1], &e[2], &A.n, A.c.data(), A.a.data(), B.o.data(), &e[3], &e[4], &e[5], &B.n, B.c.data(),
                                                      B.a.data(), &v);
                cmp1(c, strf("overlap of single contracted functions (%zu,%zu)", i, j), v, S[i * lb.size() + j], tol);
            }
        if (maxof(S) > 1e-6) c.nontrivial();
        // radial norm: sum_ij c_i c_j N_i N_j <i|j> norm^2 = (2L-1)!!
        double nf = -5;
        Op oo = o;
        oo.b = oo.a;
        Vec SS = eval(oo);
        radial_gto_norm_factor_(&A.L, &A.n, A.c.data(), A.a.data(), &nf);
        double df = 1;
        for (int k = 2 * o.a.L - 1; k > 1; k -= 2) df *= k;
        if (SS[0] > 1e-12 * maxof(op_ref(oo)[0].s)) cmp1(c, "radial norm factor", nf * nf * SS[0], df, 1e-9 * df * std::max(1.0, maxof(op_ref(oo)[0].s) / SS[0]));
        return;
    }
    if (kind == F_SETTINGS) {                              // settings and initialisation
        c.label("settings");
        static const int ks[] = {NUCATT, TYPE2, SO, TYPE1};
        int k = ks[s.below(4)];
        Limits q;
        q.Lmax = 1;
        q.lmax = 2;
        q.work = 5;
        Op o = gen_op(s, k, q);
        if (k == NUCATT) o.nuc = gen_nuc(s, 1 + s.below(5));
        double t[3];
        for (double &x : t) x = s.logreal(1e-18, 1e-3);
        I ord = s.below(2);
        c.describe(txt(o) + strf(" tolerances %.3g %.3g %.3g order %d", t[0], t[1], t[2], ord));
        Vec base = eval(o);
        libgrpp_set_radial_tolerance(t[0]);
        libgrpp_set_angular_screening_tolerance(t[1]);
        libgrpp_set_modified_bessel_tolerance(t[2]);
        libgrpp_set_cartesian_order(ord);
        Vec x = eval(o);
        libgrpp_set_default_parameters();
        libgrpp_set_radial_tolerance_(&t[0]);
        libgrpp_set_angular_screening_tolerance_(&t[1]);
        libgrpp_set_modified_bessel_tolerance_(&t[2]);
        libgrpp_set_cartesian_order_(&ord);
        Vec y = eval(o);
        bits(c, "results under settings made from Fortran", y.data(), x.data(), x.size());
        libgrpp_set_cartesian_generator(reversed);
        libgrpp_set_default_parameters_();
        Vec z = eval(o);
        bits(c, "results after the default parameters were restored from Fortran", z.data(), base.data(), z.size());
        libgrpp_set_cartesian_generator(reversed);         // the ordering codes select an ordering
        Vec w0 = eval(o);
        libgrpp_set_cartesian_order_(&ord);
        Vec w = eval(o);
        libgrpp_set_cartesian_order(ord);
        Vec w2 = eval(o);
        bits(c, "ordering selected from Fortran", w.data(), w2.data(), w.size());
        libgrpp_finalize_();
        c.require(!libgrpp_is_initialized(), "initialised after finalize");
        libgrpp_init_();
        c.require(libgrpp_is_initialized(), "not initialised after init");
        if (maxof(base) > 1e-6) c.nontrivial();
        return;
    }
    if (kind == F_NUC) kind = NUCATT;
    if (kind == FULL) kind = OUTER;                        // no Fortran counterparts of the other kinds
    if (kind == G_FULL || kind == G_OUTER || kind == G_OVERLAP) kind = OUTER;
    c.label(kind_name(kind));
    Limits q = limits_for(s, kind, c.thorough);
    q.work = std::min(q.work, 7);
    if (kind == OUTER) q.maxoc = 2;
    Op o = gen_op(s, kind, q);
    if (s.chance(1, 4)) libgrpp_set_cartesian_generator(reversed);
    c.describe(txt(o));
    FShell A(o.a), B(o.b);
    V3 C = o.C, P = o.P;
    int n = o.size(), nm = kind_nmat(kind);
    OpObj ob(o);
    std::vector<OutBuf> xo(nm, OutBuf(n, 5.5)), fo(nm, OutBuf(n, -8.25));
    std::vector<double *> x, f;
    for (int k = 0; k < nm; k++) { x.push_back(xo[k].p()); f.push_back(fo[k].p()); }
    if (kind == OUTER && o.oc.empty()) return;
    if (kind == OUTER) {                                   // assembled from the two parts
        // the parts accumulate into the matrices; they start from a known non-zero content
        double base = s.chance(1, 2) ? 0.0 : s.real(-3, 3);
        std::vector<OutBuf> po(4, OutBuf(n, base));
        std::vector<double *> p;
        for (auto &z : po) p.push_back(z.p());
        ob.run(x.data());
        std::vector<FPot> u;
        std::vector<FShell> oc;
        for (auto &z : o.oc) { u.emplace_back(z.U); oc.emplace_back(z.shell); }
        double scale = std::fabs(base);
        auto upd = [&] { for (int k = 0; k < 4; k++) for (int i = 0; i < n; i++) scale = std::max(scale, std::fabs(p[k][i])); };
        for (size_t i = 0; i < u.size(); i++) {
            libgrpp_outercore_potential_integrals_part_1_(FG(A), FG(B), C.data(), &u[i].L, &u[i].J, FP(u[i]), &oc[i].n, oc[i].c.data(), oc[i].a.data(), p[0], p[1], p[2], p[3]);
            upd();
        }
        for (size_t i = 0; i < u.size(); i++)
            for (size_t j = 0; j < u.size(); j++) {
                if (u[i].L != u[j].L || u[i].J != u[j].J) { if (s.chance(1, 2)) continue; }   // calls that add nothing
                libgrpp_outercore_potential_integrals_part_2_(FG(A), FG(B), C.data(), &u[i].L, &u[i].J, FP(u[i]), &oc[i].n, oc[i].c.data(), oc[i].a.data(), &u[j].L,
                                                              &u[j].J, FP(u[j]), &oc[j].n, oc[j].c.data(), oc[j].a.data(), p[0], p[1], p[2], p[3]);
                upd();
            }
        for (int k = 0; k < 4; k++) {
            c.require(po[k].guards_ok(), "matrix written outside its bounds");
            for (int i = 0; i < n; i++) cmp1(c, strf("outercore integrals assembled from Fortran parts, matrix %d element %d", k, i), p[k][i] - base, x[k][i], 1e-12 * scale);
        }
        std::vector<double> sum(x[0], x[0] + n);
        if (maxof(sum) > 1e-6) c.nontrivial();
        return;
    }
    FPot u(o.u);
    I Z = o.nuc.Z, model = o.nuc.model;
    double par[10] = {o.nuc.par[0], o.nuc.par[1], o.nuc.par[2]};
    ob.run(x.data());
    switch (kind) {
        case OVERLAP: libgrpp_overlap_integrals_(FG(A), FG(B), f[0]); break;
        case KINETIC: libgrpp_kinetic_energy_integrals_(FG(A), FG(B), f[0]); break;
        case MOMENTUM: libgrpp_momentum_integrals_(FG(A), FG(B), f[0], f[1], f[2]); break;
        case NUCATT:
            libgrpp_nuclear_attraction_integrals_(FG(A), FG(B), C.data(), &Z, &model, par, f[0]);
            bits(c, "nuclear attraction, generic routine", f[0], x[0], n);
            for (int i = 0; i < n; i++) f[0][i] = 77;
            switch (model) {
                case 0: libgrpp_nuclear_attraction_integrals_point_charge_(FG(A), FG(B), C.data(), &Z, f[0]); break;
                case 1: libgrpp_nuclear_attraction_integrals_charged_ball_(FG(A), FG(B), C.data(), &Z, &par[0], f[0]); break;
                case 2: libgrpp_nuclear_attraction_integrals_gaussian_model_(FG(A), FG(B), C.data(), &Z, &par[0], f[0]); break;
                case 3: libgrpp_nuclear_attraction_integrals_fermi_model_(FG(A), FG(B), C.data(), &Z, &par[0], &par[1], f[0]); break;
                case 4: libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(FG(A), FG(B), C.data(), &Z, &par[0], &par[1], &par[2], f[0]); break;
                default: libgrpp_nuclear_attraction_integrals_(FG(A), FG(B), C.data(), &Z, &model, par, f[0]);
            }
            c.label(strf("nuclear model %d", model));
            break;
        case TYPE1: libgrpp_type1_integrals_(FG(A), FG(B), C.data(), FP(u), f[0]); break;
        case TYPE2: libgrpp_type2_integrals_(FG(A), FG(B), C.data(), &u.L, FP(u), f[0]); break;
        case SO: libgrpp_spin_orbit_integrals_(FG(A), FG(B), C.data(), &u.L, FP(u), f[0], f[1], f[2]); break;
        case G_TYPE1: libgrpp_type1_integrals_gradient_(FG(A), FG(B), C.data(), FP(u), P.data(), f[0], f[1], f[2]); break;
        case G_TYPE2: libgrpp_type2_integrals_gradient_(FG(A), FG(B), C.data(), &u.L, FP(u), P.data(), f[0], f[1], f[2]); break;
        case G_SO:
            libgrpp_spin_orbit_integrals_gradient_(FG(A), FG(B), C.data(), &u.L, FP(u), P.data(), f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
            break;
    }
    double big = 0;
    for (int k = 0; k < nm; k++) {
        c.require(fo[k].guards_ok(), "matrix written outside its bounds");
        bits(c, strf("%s matrix %d", kind_name(kind), k), f[k], x[k], n);
        for (int i = 0; i < n; i++) big = std::max(big, std::fabs(x[k][i]));
    }
    // arguments are inputs
    FShell A2(o.a), B2(o.b);
    FPot u2(o.u);
    bool same = A.o == A2.o && A.L == A2.L && A.n == A2.n && A.c == A2.c && A.a == A2.a && B.o == B2.o && B.L == B2.L && B.n == B2.n && B.c == B2.c && B.a == B2.a &&
                u.L == u2.L && u.n == u2.n && u.p == u2.p && u.c == u2.c && u.a == u2.a && C == o.C && P == o.P && Z == o.nuc.Z && model == o.nuc.model;
    c.require(same, "an input argument of a Fortran routine was changed");
    if (big > 1e-6) c.nontrivial();
}

void register_fortran(std::vector<Property> &v)
{
    Property p;
    p.thorough_budget_s = 720;
    p.id = "C19"; p.fn = prop_fortran; p.modes = F_COUNT; p.quick_cases = 36000; p.thorough_cases = 2000000;
    p.technique_rule = "generated arguments passed by reference to each Fortran entry point and, as objects, to its C counterpart; bitwise comparison (outercore parts and single contracted functions: rounding); non-trivial: some element exceeds 1e-6";
    v.push_back(p);
}
