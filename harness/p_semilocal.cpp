// C01 type 1, C02 type 2, C03 spin-orbit, C04 outercore
#include "props.hpp"

struct Scene { Geometry g; ShellSpec a, b; int regime; };

struct Size { int Lmax, mp, reg, lmax, work; double span; int lmin = 0; };

// mode -> size class.  `work` bounds L_A+L_B+2l (cost of the semilocal radial tables in the library)
static Size pick_size(Ctx &c, int mode)
{
    Size z;
    switch (mode) {
        case 0: z = {3, 3, VALENCE, 4, 10, 3}; break;
        case 1: z = {2, 2, MEDIUM, 4, 10, 3}; break;
        case 2: z = {4, 1, MEDIUM, 4, 11, 2}; break;
        case 3: z = {10, 1, VALENCE, 10, 13, 2}; break;
        case 4: z = {2, 2, BROAD, 4, 10, 3}; break;
        default: z = {3, 1, MEDIUM, 10, 23, 3, 5}; break;              // high projectors
    }
    if (c.thorough && z.work < 13) z.work += 2;
    c.label(strf("mode %d", mode));
    return z;
}

static Scene gen_scene(Ctx &c, const Size &q, int work)
{
    Source &s = c.src;
    Scene z;
    z.regime = q.reg;
    z.g = gen_geometry(s, q.span);
    z.a = gen_shell(s, 0, std::min(q.Lmax, work), q.mp, q.reg, z.g.A);
    z.b = gen_shell(s, 0, std::min(q.Lmax, q.lmin ? 3 - z.a.L : work - z.a.L), q.mp, q.reg, z.g.B);
    if (s.chance(1, 2)) { std::swap(z.a, z.b); std::swap(z.g.A, z.g.B); }
    c.label("geometry " + z.g.kind);
    c.label(strf("L_A=%d", z.a.L));
    return z;
}

static void prop_type1(Ctx &c)
{
    int mode = c.src.below(6);
    Size q = pick_size(c, mode);
    Scene z = gen_scene(c, q, 14);
    PotSpec u = gen_pot(c.src, c.src.range(0, 3), 0, 3, q.reg, {2, 1, 0});
    Tol t = type1_tol();
    int size = c.src.below(4);
    if (size == 2 || size == 3) {                          // contributions of any size: the tolerance is purely relative
        t.abs = 0;
        spread_coefs(c.src, z.a, 1e-9, 1e3);
        spread_coefs(c.src, z.b, 1e-9, 1e3);
        for (double &d : u.coeffs) d *= c.src.logreal(1e-9, 1e3);
        c.label("coefficients of any size");
    }
    if (size == 3) {                                       // tight functions close to the potential
        double f = c.src.logreal(1.0, 1e6), r = 1 / std::sqrt(f);
        for (ShellSpec *x : {&z.a, &z.b}) {
            for (int ax = 0; ax < 3; ax++) x->origin[ax] = z.g.C[ax] + (x->origin[ax] - z.g.C[ax]) * r;
            for (double &a : x->alpha) a = f * c.src.logreal(0.1, 30);
        }
        if (c.src.chance(1, 2)) for (double &a : u.alpha) a *= f;
        c.label("tight functions");
    }
    if (c.src.chance(1, 6)) {                              // argument q|QC|^2 of the auxiliary functions of any size, high momenta
        z.a.L = c.src.range(3, 10);
        z.b.L = c.src.range(std::max(0, 8 - z.a.L), std::min(10, 18 - z.a.L));
        for (ShellSpec *x : {&z.a, &z.b}) { x->alpha.resize(1); x->coeffs.resize(1); if (x->coeffs[0] == 0) x->coeffs[0] = 1; }
        double a = z.a.alpha[0], b = z.b.alpha[0], q = a + b + u.alpha[0];
        double x = c.src.chance(1, 2) ? c.src.real(0.0, 60.0) : c.src.logreal(0.1, 150.0);
        double d = std::sqrt(x / q) * q / (a + b);
        V3 n = gen_direction(c.src);
        bool same = c.src.chance(1, 2);
        V3 o = z.a.origin;
        for (int ax = 0; ax < 3; ax++) {
            if (same) z.b.origin[ax] = o[ax];
            double P = (a * z.a.origin[ax] + b * z.b.origin[ax]) / (a + b);
            z.g.C[ax] = P + d * n[ax];
        }
        c.label("auxiliary argument of any size");
    }
    if (size >= 2) {                                       // smallest contribution the quadrature can represent
        double w = 1, d = 0;
        for (ShellSpec *x : {&z.a, &z.b}) { double f = 0; for (size_t i = 0; i < x->alpha.size(); i++) f += std::fabs(x->coeffs[i]) * ref::norm_prim(x->L, x->alpha[i]) * std::pow(x->alpha[i], -0.75 - 0.5 * x->L); w *= f; }
        for (double v : u.coeffs) d += std::fabs(v);
        t.abs = 1e-22 * w * d;
    }
    // positions are only known to the last bit, in units of the width of the functions
    double pos = 0;
    for (int ax = 0; ax < 3; ax++) pos = std::max({pos, std::fabs(z.a.origin[ax]), std::fabs(z.b.origin[ax]), std::fabs(z.g.C[ax])});
    t.noise += 5e-15 * pos * std::sqrt(std::max({maxof(z.a.alpha), maxof(z.b.alpha), maxof(u.alpha)})) * (2 + z.a.L + z.b.L);
    c.describe("type1 A=" + txt(z.a) + " B=" + txt(z.b) + " C=" + txt(z.g.C) + " U=" + txt(u));
    Shell A(z.a), B(z.b);
    Pot U(u);
    OutBuf m(ncart(z.a.L) * ncart(z.b.L));
    libgrpp_type1_integrals(A, B, z.g.C.data(), U, m.p());
    Mat r = ref::type1(ref::make_fn(z.a), ref::make_fn(z.b), z.g.C, u);
    if (maxof(r.v) > (size >= 2 ? 1e-3 * maxof(r.z) : 1e-6)) c.nontrivial();
    compare(c, "type1", m.p(), r, t);
}

// one or two steep functions of low angular momentum (core functions of a neighbour) away from the potential
static void steep_scene(Ctx &c, Scene &z, PotSpec &u, int lmin)
{
    Source &s = c.src;
    while (z.a.L > 2) z.a.L -= 2;
    while (z.b.L > 2 - z.a.L) z.b.L--;
    u.L = s.range(lmin, 2);
    bool both = s.chance(1, 3);
    for (ShellSpec *x : {&z.a, &z.b}) {
        if (x == &z.b && !both) break;
        for (double &e : x->alpha) e = s.logreal(60, 3e4);
        double d = s.chance(1, 2) ? s.real(0.1, 3.0) : s.logreal(1e-2, 3.0);
        V3 n = gen_direction(s);
        for (int ax = 0; ax < 3; ax++) x->origin[ax] = z.g.C[ax] + d * n[ax];
    }
    if (both && s.chance(1, 2)) z.b.origin = z.a.origin;
    if (s.chance(1, 2)) std::swap(z.a, z.b);
    c.label("steep functions");
}

static void prop_type2(Ctx &c)
{
    int mode = c.src.below(6);
    Size q = pick_size(c, mode);
    Scene z = gen_scene(c, q, q.work);
    PotSpec u = gen_pot(c.src, c.src.range(q.lmin, std::min(q.lmax, (q.work - z.a.L - z.b.L) / 2)), 0, 3, q.reg, {2, 1, 0});
    if (c.src.chance(1, 8)) steep_scene(c, z, u, 0);
    c.describe("type2 A=" + txt(z.a) + " B=" + txt(z.b) + " C=" + txt(z.g.C) + " U=" + txt(u));
    Shell A(z.a), B(z.b);
    Pot U(u);
    OutBuf m(ncart(z.a.L) * ncart(z.b.L));
    libgrpp_type2_integrals(A, B, z.g.C.data(), U, m.p());
    Mat r = ref::type2(ref::make_fn(z.a), ref::make_fn(z.b), z.g.C, u);
    if (maxof(r.v) > 1e-6) c.nontrivial();
    Tol t = semilocal_tol(z.a, z.b, z.g.C, u);
    t.noise += tiny_offset(z.a, z.b, z.g.C);
    compare(c, "type2", m.p(), r, t);
}

static void prop_so(Ctx &c)
{
    int mode = c.src.below(6);
    Size q = pick_size(c, mode);
    Scene z = gen_scene(c, q, q.work - 2);
    PotSpec u = gen_pot(c.src, c.src.range(std::max(1, q.lmin), std::min(q.lmax, (q.work - z.a.L - z.b.L) / 2)), 0, 3, q.reg, {2, 1, 0});
    if (c.src.chance(1, 8)) steep_scene(c, z, u, 1);
    c.describe("so A=" + txt(z.a) + " B=" + txt(z.b) + " C=" + txt(z.g.C) + " U=" + txt(u));
    Shell A(z.a), B(z.b);
    Pot U(u);
    int n = ncart(z.a.L) * ncart(z.b.L);
    OutBuf x(n), y(n), w(n);
    libgrpp_spin_orbit_integrals(A, B, z.g.C.data(), U, x.p(), y.p(), w.p());
    Tol t = semilocal_tol(z.a, z.b, z.g.C, u, 1);
    double tiny = tiny_offset(z.a, z.b, z.g.C);
    if (tiny > 0) t.abs += tiny * (1 + z.a.L + z.b.L) * maxof(ref::type2(ref::make_fn(z.a), ref::make_fn(z.b), z.g.C, u).z);
    for (int ax = 0; ax < 3; ax++) {
        Mat r = ref::so(ref::make_fn(z.a), ref::make_fn(z.b), z.g.C, u, ax);
        if (maxof(r.v) > 1e-6) c.nontrivial();
        compare(c, strf("so_%c", "xyz"[ax]), (ax == 0 ? x : ax == 1 ? y : w).p(), r, t);
    }
}

static void prop_oc(Ctx &c)
{
    int mode = c.src.below(6);
    Size q = pick_size(c, mode);
    Scene z = gen_scene(c, q, 14);
    bool high = mode == 5;                                 // spinors of high angular momentum
    int noc = c.src.range(1, high ? 2 : c.src.chance(1, 6) ? 8 : 4);
    std::vector<ref::OC> oc;
    for (int i = 0; i < noc; i++) {
        int L = high ? c.src.range(4, 10) : c.src.range(0, c.src.chance(1, 8) ? 5 : 3), J = L == 0 ? 1 : 2 * L + (c.src.chance(1, 2) ? 1 : -1);
        if (i > 0 && c.src.chance(1, 2)) { L = oc[i - 1].U.L; J = oc[i - 1].U.J; if (c.src.chance(1, 3) && L > 0) J = 4 * L - J; }
        ref::OC o;
        o.U = gen_pot(c.src, L, J, 2, q.reg, {2, 1, 0});
        o.shell = gen_shell(c.src, L, L, 2, q.reg, V3{0.3, 0.4, 0.5});
        oc.push_back(o);
    }
    std::string d = "oc A=" + txt(z.a) + " B=" + txt(z.b) + " C=" + txt(z.g.C);
    for (auto &o : oc) d += " oc{U=" + txt(o.U) + " R=" + txt(o.shell) + "}";
    c.describe(d);
    Shell A(z.a), B(z.b);
    std::vector<std::unique_ptr<Pot>> up;
    std::vector<std::unique_ptr<Shell>> sp;
    std::vector<libgrpp_potential_t *> ul;
    std::vector<libgrpp_shell_t *> sl;
    for (auto &o : oc) {
        up.emplace_back(new Pot(o.U));
        sp.emplace_back(new Shell(o.shell));
        ul.push_back(up.back()->p);
        sl.push_back(sp.back()->p);
    }
    int n = ncart(z.a.L) * ncart(z.b.L);
    OutBuf o[4] = {OutBuf(n), OutBuf(n), OutBuf(n), OutBuf(n)};
    libgrpp_outercore_potential_integrals(A, B, z.g.C.data(), noc, ul.data(), sl.data(), o[0].p(), o[1].p(), o[2].p(), o[3].p());
    Mat r[4];
    ref::outercore(ref::make_fn(z.a), ref::make_fn(z.b), z.g.C, oc, r);
    for (auto &m : r) if (maxof(m.v) > 1e-6) c.nontrivial();
    Tol t = outercore_tol();
    for (auto &m : r) t.abs = std::max(t.abs, 1e-11 * maxof(m.z));
    for (auto &o : oc) c.label(strf("spinor l=%d", o.U.L));
    const char *nm[] = {"oc_arep", "oc_so_x", "oc_so_y", "oc_so_z"};
    for (int k = 0; k < 4; k++) compare(c, nm[k], o[k].p(), r[k], t);
}

void register_semilocal(std::vector<Property> &v)
{
    static const char *rule = "every case: generated pair of contracted shells, %s and positions of the three centres (nine coincidence classes, six "
                              "size classes); all matrix elements compared with direct quadrature of the definition, which uses none of the "
                              "library's formulas; non-trivial: some exact matrix element exceeds 1e-6";
    Property p;
    p.modes = 6;
    p.thorough_budget_s = 720;
    p.id = "C01"; p.fn = prop_type1; p.technique_rule = strf(rule, "local potential"); p.quick_cases = 8000; p.thorough_cases = 400000; v.push_back(p);
    p.id = "C02"; p.fn = prop_type2; p.technique_rule = strf(rule, "semilocal potential"); p.quick_cases = 4000; p.thorough_cases = 100000; v.push_back(p);
    p.id = "C03"; p.fn = prop_so; p.technique_rule = strf(rule, "spin-orbit potential"); p.quick_cases = 2000; p.thorough_cases = 100000; v.push_back(p);
    p.id = "C04"; p.fn = prop_oc; p.technique_rule = strf(rule, "list of outercore potentials and spinors"); p.quick_cases = 1500; p.thorough_cases = 100000; v.push_back(p);
}
