// C09 nuclear attraction integrals, C10 nuclear models
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>

typedef std::vector<double> Vec;
static const char *MODEL[] = {"point", "ball", "gaussian", "fermi", "fermi bubble", "point numerical"};

static Vec special(const OpObj &ob, const Nuc &n)
{
    Vec v(ob.size, 3.3e33);
    V3 C = ob.C;
    switch (n.model) {
        case 0: libgrpp_nuclear_attraction_integrals_point_charge(*ob.A, *ob.B, C.data(), n.Z, v.data()); break;
        case 1: libgrpp_nuclear_attraction_integrals_charged_ball(*ob.A, *ob.B, C.data(), n.Z, n.par[0], v.data()); break;
        case 2: libgrpp_nuclear_attraction_integrals_gaussian_model(*ob.A, *ob.B, C.data(), n.Z, n.par[0], v.data()); break;
        case 3: libgrpp_nuclear_attraction_integrals_fermi_model(*ob.A, *ob.B, C.data(), n.Z, n.par[0], n.par[1], v.data()); break;
        case 4: libgrpp_nuclear_attraction_integrals_fermi_bubble_model(*ob.A, *ob.B, C.data(), n.Z, n.par[0], n.par[1], n.par[2], v.data()); break;
        default: v.clear();
    }
    return v;
}

static void prop_nucattr(Ctx &c)
{
    Source &s = c.src;
    int model = s.below(6);
    Limits q = limits_for(s, NUCATT, c.thorough);
    if (model != 0 && q.Lmax > 3) q.Lmax = 3;
    if (model == 0 && s.chance(1, 8)) { q.Lmax = 10; q.maxprim = 1; }
    Op o = gen_op(s, NUCATT, q);
    o.nuc = gen_nuc(s, model);
    bool tight = s.chance(1, 3);
    if (tight) {
        // tight functions sitting at the nucleus, as basis sets for heavy elements have
        while (o.a.L > 2) o.a.L -= 2;
        for (double &x : o.a.alpha) x = s.logreal(1, 1e7);
        o.a.origin = o.C;
        if (s.chance(1, 2)) {
            while (o.b.L > 2) o.b.L -= 2;
            for (double &x : o.b.alpha) x = s.logreal(1, 1e7);
            o.b.origin = o.C;
        }
        if (s.chance(1, 2)) std::swap(o.a, o.b);
    }
    if (s.chance(1, 20)) o.nuc.Z = 0;
    c.label(MODEL[model]);
    c.label(tight ? "tight functions" : "ordinary functions");
    c.describe(txt(o));
    OpObj ob(o);
    OutBuf buf(ob.size);
    double *m[1] = {buf.p()};
    ob.run(m);
    c.require(buf.guards_ok(), "matrix written outside its bounds");
    std::vector<Mat> r = op_ref(o);
    if (maxof(r[0].v) > 1e-6) c.nontrivial();
    compare(c, std::string("nuclear attraction, ") + MODEL[model], buf.p(), r[0], op_tol(o, r)[0]);
    // entry points agree
    Vec w = special(ob, o.nuc);
    double scale = maxof(Vec(buf.p(), buf.p() + ob.size));
    for (size_t k = 0; k < w.size(); k++)
        cmp1(c, strf("model-specific routine (%s) against the generic one, element %zu", MODEL[model], k), w[k], buf.p()[k], 1e-12 * scale + 1e-300);
    // linear in the charge
    Op o1 = o;
    o1.nuc.Z = 1;
    Vec u = eval(o1);
    double tol = op_abs_tol(o, r)[0];
    for (int k = 0; k < ob.size; k++) {
        if (o.nuc.Z == 0) c.require(buf.p()[k] == 0, "zero charge gives a non-zero integral");
        cmp1(c, strf("linearity in the charge (%s), element %d", MODEL[model], k), buf.p()[k], o.nuc.Z * u[k], tol * (1 + o.nuc.Z));
    }
}

// ---- C10 -------------------------------------------------------------------------------------------
static double lib_density(const Nuc &n, double r)
{
    switch (n.model) {
        case 1: return libgrpp_charge_density_ball(r, n.Z, n.par[0]);
        case 2: return libgrpp_charge_density_gaussian(r, n.Z, n.par[0]);
        case 3: return libgrpp_charge_density_fermi(r, n.Z, n.par[0], n.par[1]);
        default: return libgrpp_charge_density_fermi_bubble(r, n.Z, n.par[0], n.par[1], n.par[2]);
    }
}
static double lib_potential(const Nuc &n, double r)
{
    switch (n.model) {
        case 0: return libgrpp_coulomb_potential_point(r, n.Z);
        case 1: return libgrpp_coulomb_potential_ball(r, n.Z, n.par[0]);
        case 2: return libgrpp_coulomb_potential_gaussian(r, n.Z, n.par[0]);
        case 3: return libgrpp_coulomb_potential_fermi(r, n.Z, n.par[0], n.par[1]);
        default: return libgrpp_coulomb_potential_fermi_bubble(r, n.Z, n.par[0], n.par[1], n.par[2]);
    }
}

// cumulative moments of the library's own density by Gauss-Legendre panels
struct Moments {
    std::vector<double> r;                                 // panel ends
    std::vector<long double> q2, q1, q4;                   // int_0^r t^m rho dt
};
static Moments integrate(const Nuc &n)
{
    Moments m;
    double c = n.par[0], a = n.model >= 3 ? n.par[1] : n.par[0] / 4;
    std::vector<double> ends{0};
    double top = n.model == 1 ? c * std::sqrt(5.0 / 3.0) : n.model == 2 ? 12 * c : c + 60 * a;
    if (n.model == 1) for (int i = 1; i <= 8; i++) ends.push_back(top * i / 8);
    else {
        double step = a / 2;
        if (top / step > 4000) step = top / 4000;
        for (double x = step; x < top; x += step) ends.push_back(x);
        ends.push_back(top);
    }
    const double *x, *w;
    ref::gauss_legendre(12, &x, &w);
    m.r = {0};
    m.q1 = m.q2 = m.q4 = {0.0L};
    for (size_t i = 1; i < ends.size(); i++) {
        double h = (ends[i] - ends[i - 1]) / 2, mid = (ends[i] + ends[i - 1]) / 2;
        long double s1 = 0, s2 = 0, s4 = 0;
        for (int k = 0; k < 12; k++) {
            double t = mid + h * x[k];
            long double d = lib_density(n, t) * (long double)w[k] * h;
            s1 += d * t;
            s2 += d * t * t;
            s4 += d * t * t * t * t;
        }
        m.r.push_back(ends[i]);
        m.q1.push_back(m.q1.back() + s1);
        m.q2.push_back(m.q2.back() + s2);
        m.q4.push_back(m.q4.back() + s4);
    }
    return m;
}

// normalised density, independently of the library
static double density(const Nuc &n, double r)
{
    double R = n.par[0], a = n.par[1], k = n.model == 4 ? n.par[2] : 0;
    switch (n.model) {
        case 1: { double R0 = R * std::sqrt(5.0 / 3.0); return r <= R0 ? 3.0 * n.Z / (4 * M_PI * R0 * R0 * R0) : 0; }
        case 2: { double xi = 1.5 / (R * R); return n.Z * std::pow(xi / M_PI, 1.5) * std::exp(-xi * r * r); }
        default: return n.Z / (4 * M_PI * nuc_norm(n)) * (1 + k * r * r / (R * R)) / (1 + std::exp((r - R) / a));
    }
}

static void prop_models(Ctx &c)
{
    Source &s = c.src;
    int model = s.below(6);
    if (model == 0) {                                      // empirical estimates
        c.label("estimates");
        int A = s.range(1, 320);
        c.describe(strf("estimates for A=%d", A));
        double a13 = std::exp(std::log((double)A) / 3);
        cmp1(c, "rms radius by Johnson and Soff", libgrpp_estimate_nuclear_rms_radius_johnson_1985(A), 0.836 * a13 + 0.570, 1e-12);
        cmp1(c, "rms radius by Golovko et al.", libgrpp_estimate_nuclear_rms_radius_golovko_2008(A), 0.77 * a13 + 0.98, 1e-12);
        double R = s.chance(1, 2) ? 0.836 * a13 + 0.570 : s.real(0.5, 9.0), cc = -5, aa = -5;
        int rc = libgrpp_estimate_fermi_model_parameters(R, &cc, &aa);
        double a0 = 2.3 / (4 * std::log(3.0)), c2 = 5.0 / 3 * R * R - 7.0 / 3 * M_PI * M_PI * a0 * a0;
        if (std::fabs(c2) > 1e-9) {
            c.require(rc == (c2 < 0 ? -1 : 1), strf("status of the Fermi parameter estimate for R=%.17g is %d", R, rc));
            if (c2 > 0) {
                c.nontrivial();
                cmp1(c, "Fermi parameter a", aa, a0, 1e-13);
                cmp1(c, "Fermi parameter c", cc, std::sqrt(c2), 1e-10);
                // the estimated parameters reproduce the radius up to the neglected exponentially small terms
                if (cc / aa > 3) {
                    double got = libgrpp_rms_radius_fermi(s.range(1, 120), cc, aa);
                    // <r^2> of the distribution obtained from exact moments
                    Nuc n;
                    n.model = 3; n.Z = 1; n.par[0] = cc; n.par[1] = aa;
                    Moments m = integrate(n);
                    cmp1(c, "rms radius of the Fermi distribution with estimated parameters", got, (double)sqrtl(m.q4.back() / m.q2.back()), 1e-9 * R);
                    cmp1(c, "estimated parameters reproduce the rms radius", got, R, 0.3 * std::exp(-cc / aa) * R + 2e-3 * R + 5 * R * std::pow(aa / cc, 4));
                }
            }
        }
        return;
    }
    if (model == 5) {
        Nuc n;
        n.Z = s.range(1, 130);
        double r = s.logreal(1e-8, 1e3);
        c.label("point");
        c.describe(strf("point charge %d at r=%.17g", n.Z, r));
        c.nontrivial();
        cmp1(c, "potential of the point charge", lib_potential(n, r), -n.Z / r, 1e-14 * n.Z / r);
        return;
    }
    Nuc n = gen_nuc(s, model);
    if (model >= 3) {
        if (s.chance(1, 3)) n.par[1] = n.par[0] / s.real(1.5, 40);       // c/a over the range of the tabulated S_k and its asymptotics
        double w = 1 + 3 * n.par[1] / n.par[0];
        if (model == 4) n.par[2] = std::max(n.par[2], -0.8 / (w * w));
    }
    if (s.chance(1, 8)) { double f = s.logreal(1e-2, 1e4); n.par[0] *= f; n.par[1] *= f; }       // units are arbitrary
    c.label(MODEL[model]);
    c.describe(strf("%s Z=%d par=%.17g,%.17g,%.17g", MODEL[model], n.Z, n.par[0], n.par[1], n.par[2]));
    Moments m = integrate(n);
    const double fp = 4 * M_PI;
    double R = n.par[0];
    double a = model >= 3 ? n.par[1] : 0, bub = 1, bub4 = 1;
    if (model >= 3) {                                      // cancellation between the terms of the normalisation factor
        double x = a * a / (R * R) * M_PI * M_PI, k = model == 4 ? n.par[2] : 0, N = 1 + x + k * (0.6 + 2 * x + 1.4 * x * x);
        bub = (1 + x + std::fabs(k) * (0.6 + 2 * x + 1.4 * x * x)) * (1 + std::fabs(k)) / N;
        c.require(N > 0, "generator");
    }
    // accuracy of the tabulated S_k functions enters through the norm
    double acc = model >= 3 ? 2e-9 : 1e-11;
    c.nontrivial();
    cmp1(c, "integral of the charge density", fp * (double)m.q2.back(), n.Z, acc * n.Z * bub);
    double rms = std::sqrt((double)(m.q4.back() / m.q2.back()));
    if (model == 1 || model == 2) cmp1(c, "rms radius of the density", rms, R, 1e-10 * R);
    if (model == 3) cmp1(c, "libgrpp_rms_radius_fermi", libgrpp_rms_radius_fermi(n.Z, n.par[0], n.par[1]), rms, acc * rms);
    if (model == 4) {
        double x = a * a / (R * R) * M_PI * M_PI, k = n.par[2], p4 = (1 + x * 10 / 3 + x * x * 7 / 3) / 5, p6 = (1 + 7 * x + x * x * 49 / 3 + x * x * x * 31 / 3) / 7;
        bub4 = bub + (p4 + std::fabs(k) * p6) / (p4 + k * p6);
        if (p4 + k * p6 < 0.02 * p4) bub4 = 0;             // <r^2> almost or entirely negative: no radius
    }
    if (model == 4 && bub4 > 0) cmp1(c, "libgrpp_rms_radius_fermi_bubble", libgrpp_rms_radius_fermi_bubble(n.Z, n.par[0], n.par[1], n.par[2]), rms, acc * rms * bub4);
    // potential at panel ends: -4 pi (1/r int_0^r rho t^2 dt + int_r^inf rho t dt)
    int np = m.r.size(), probes = 60;
    double vscale = n.Z / R;
    double vtol = (model >= 3 ? 2e-9 * bub : 1e-11) * vscale;
    for (int k = 0; k < probes; k++) {
        int i = s.range(1, np - 1);
        double r = m.r[i];
        double want = (double)(-fp * (m.q2[i] / r + (m.q1.back() - m.q1[i])));
        cmp1(c, strf("potential at r=%.17g (density integrated)", r), lib_potential(n, r), want, vtol);
    }
    const double rho0 = density(n, 0);
    // closed form in extended precision at generated radii: inside, at the boundary, in the tail, far away
    for (int k = 0; k < 120; k++) {
        double r;
        switch (s.below(6)) {
            case 0: r = s.logreal(1e-3, 1.0) * R; break;
            case 5: r = s.logreal(1e-8, 1e-2) * R; break;               // next to the centre
            case 1: r = model >= 3 ? R + a * s.real(-16, 36) : R * s.real(0.5, 3); break;
            case 2: r = R * (model == 1 ? std::sqrt(5.0 / 3) : 1) * (1 + (s.chance(1, 2) ? 1 : -1) * s.logreal(1e-12, 1e-1)); break;
            case 3: r = R * s.logreal(1, 1e5); break;
            default: r = s.logreal(1e-8, 30.0);
        }
        if (!(r >= 1e-8 * R)) continue;
        double v = lib_potential(n, r), want = nuc_potential(n, r);
        cmp1(c, strf("potential at r=%.17g", r), v, want, std::min(vtol, 1e-8 * std::fabs(want)) + 1e-13 * vscale + (model >= 3 ? 5e-12 * R / r * vscale * bub : 0));
        double top = model == 2 ? 9 * R : model == 1 ? R * std::sqrt(5.0 / 3) : R + 36 * a;
        if (r > top) {
            cmp1(c, strf("potential far away, r=%.17g", r), v * r, -n.Z, 1e-9 * n.Z);
        }
        double d = lib_density(n, r);
        if (std::fabs(r - R * (model == 1 ? std::sqrt(5.0 / 3) : 0)) > 1e-9 * R) {
            double rho = density(n, r);
            cmp1(c, strf("charge density at r=%.17g", r), d, rho, (model >= 3 ? 2e-9 * bub + 1e-14 * R / a : 1e-12 * (1 + r * r / (R * R))) * std::fabs(rho) + (model == 4 ? 1e-15 * rho0 * std::fabs(n.par[2]) * r * r / (R * R) : 0) + 1e-290);
        }
        if (model != 4 || n.par[2] >= 0) c.require(d >= 0, strf("negative charge density at r=%.17g", r));
    }
    // continuity across the matching radius of the piecewise formulas
    double rb = model == 1 ? R * std::sqrt(5.0 / 3) : R;
    double in = lib_potential(n, rb * (1 - 1e-13)), out = lib_potential(n, rb * (1 + 1e-13)), at = lib_potential(n, rb);
    cmp1(c, "continuity of the potential at the nuclear boundary", in, out, 1e-10 * vscale * bub);
    cmp1(c, "continuity of the potential at the nuclear boundary", at, out, 1e-10 * vscale * bub);
    // scale invariance: lengths times f: V -> V/f, rho -> rho/f^3
    Nuc g = n;
    double f = s.logreal(1e-3, 1e3), r = R * s.logreal(1e-2, 10);
    g.par[0] *= f;
    if (model >= 3) g.par[1] *= f;
    cmp1(c, "scaling of the potential", lib_potential(g, r * f) * f, lib_potential(n, r), 1e-8 * vscale * bub);
    cmp1(c, "scaling of the density", lib_density(g, r * f) * f * f * f, lib_density(n, r), 1e-8 * std::fabs(lib_density(n, r)) * bub + 1e-8 * n.Z / (R * R * R) * 1e-6);
}

void register_nuc(std::vector<Property> &v)
{
    Property p;
    p.modes = 6;
    p.thorough_budget_s = 720;
    p.id = "C09"; p.fn = prop_nucattr; p.quick_cases = 3000; p.thorough_cases = 400000;
    p.technique_rule = "generated shells, geometry, charge and nuclear model; matrix compared with quadrature of the model's own electrostatic potential, with the model-specific entry point and with the unit charge; non-trivial: some exact element exceeds 1e-6";
    v.push_back(p);
    p.id = "C10"; p.fn = prop_models; p.quick_cases = 20000; p.thorough_cases = 800000;
    p.technique_rule = "generated nuclear model and parameters; density integrated numerically, potential compared with that integral and with an extended-precision closed form at ~180 radii per case; non-trivial: a finite model (or a point charge / a valid estimate)";
    v.push_back(p);
}
