// C05 full GRPP vs parts, C06 gradients, C07 overlap, C08 kinetic and momentum
#include "ops.hpp"
#include "props.hpp"

static void against_ref(Ctx &c, const Op &o, bool relative = false)
{
    c.describe(txt(o));
    OpObj ob(o);
    int nm = kind_nmat(o.kind);
    std::vector<OutBuf> out(nm, OutBuf(o.size()));
    std::vector<double *> m;
    for (auto &x : out) m.push_back(x.p());
    ob.run(m.data());
    std::vector<Mat> r = op_ref(o);
    std::vector<Tol> t = op_tol(o, r);
    // positions are only known to the last bit, in units of the width of the functions
    double cond = 0;
    for (int ax = 0; ax < 3; ax++) cond = std::max({cond, std::fabs(o.a.origin[ax]), std::fabs(o.b.origin[ax])});
    double amax = std::max(maxof(o.a.alpha), maxof(o.b.alpha)), amin = amax;
    for (double x : o.a.alpha) amin = std::min(amin, x);
    for (double x : o.b.alpha) amin = std::min(amin, x);
    cond = (1 + cond * std::sqrt(amax)) * (2 + o.a.L + o.b.L);
    // derivatives of a tight function cancel when the other one is diffuse
    if (o.kind != OVERLAP) cond *= amax / amin;
    bool big = false;
    for (int q = 0; q < nm; q++) {
        if (!out[q].guards_ok()) c.fail(strf("%s: matrix %d written outside its bounds", kind_name(o.kind), q));
        if (maxof(r[q].v) > (relative ? 1e-3 * maxof(r[q].z) : 1e-6)) big = true;
        if (relative) { t[q].abs = 1e-270; t[q].noise += 1e-15 * cond; }
        compare(c, strf("%s matrix %d", kind_name(o.kind), q), m[q], r[q], t[q]);
    }
    if (big) c.nontrivial();
}

static void prop_gradients(Ctx &c)
{
    static const int kinds[] = {G_TYPE1, G_TYPE2, G_SO, G_OUTER, G_FULL};
    int kind = kinds[c.src.below(5)];
    Limits q = default_limits(c.src, c.thorough);
    Op o = gen_op(c.src, kind, q);
    c.label(kind_name(kind));
    c.label(std::string("point on") + (same_ptr(o.a.origin, o.P) ? " A" : "") + (same_ptr(o.b.origin, o.P) ? " B" : "") + (same_ptr(o.C, o.P) ? " C" : ""));
    against_ref(c, o);
}

static Limits wide(Ctx &c)
{
    Source &s = c.src;
    Limits q;
    switch (s.below(5)) {
        case 0: q.Lmax = 4; q.maxprim = 3; break;
        case 1: q.Lmax = 10; q.maxprim = 2; q.regime = MEDIUM; break;
        case 2: q.Lmax = 6; q.regime = BROAD; q.maxprim = 3; break;
        case 3: q.Lmax = 10; q.maxprim = 1; q.span = 6; break;
        default: q.Lmax = 2; q.maxprim = 3; q.regime = BROAD; q.span = 1;
    }
    return q;
}

// contributions of any size count: small and large coefficients, tight functions close to each other.  The tolerance is
// then purely relative to the magnitude of the matrix (no absolute part).
static bool any_size(Ctx &c, Op &o)
{
    Source &s = c.src;
    int k = s.below(4);
    if (k >= 2) return false;
    if (k == 1 || s.chance(1, 2)) { spread_coefs(s, o.a, 1e-9, 1e3); spread_coefs(s, o.b, 1e-9, 1e3); }
    if (k == 1) {
        double f = s.logreal(1.0, 1e6), r = 1 / std::sqrt(f);
        for (int ax = 0; ax < 3; ax++) o.b.origin[ax] = o.a.origin[ax] + (o.b.origin[ax] - o.a.origin[ax]) * r;
        if (dist(o.a.origin, o.b.origin) < 1e-11) o.b.origin = o.a.origin;         // identified by the library
        if (kind_grad(o.kind)) o.P = s.chance(1, 2) ? o.a.origin : o.b.origin;
        for (double &a : o.a.alpha) a = f * s.logreal(0.3, 30);
        for (double &a : o.b.alpha) a = f * s.logreal(0.3, 30);
    }
    c.label(k ? "tight functions" : "coefficients of any size");
    return true;
}

static void prop_overlap(Ctx &c)
{
    int kind = c.src.below(2) ? G_OVERLAP : OVERLAP;
    Op o = gen_op(c.src, kind, wide(c));
    bool rel = any_size(c, o);
    c.label(kind_name(kind));
    c.label(strf("L_A=%d", o.a.L));
    against_ref(c, o, rel);
    if (kind == OVERLAP) {
        // a normalised primitive has unit self-overlap in its axial components x^L, y^L, z^L up to (2L-1)!!
        ShellSpec one = o.a;
        one.coeffs = {1.0};
        one.alpha = {o.a.alpha[0]};
        Op self;
        self.kind = OVERLAP;
        self.a = self.b = one;
        std::vector<double> v = eval(self);
        double df = 1;
        for (int k = 2 * one.L - 1; k > 1; k -= 2) df *= k;
        auto cl = ref::cart_list(one.L);
        for (size_t i = 0; i < cl.size(); i++) {
            double want = 1;
            for (int ax = 0; ax < 3; ax++) for (int k = 2 * cl[i][ax] - 1; k > 1; k -= 2) want *= k;
            cmp1(c, strf("self-overlap of component %zu of a normalised primitive, L=%d", i, one.L), v[i * cl.size() + i], want, 1e-12 * df);
        }
    }
}

static void prop_kinmom(Ctx &c)
{
    int kind = c.src.below(2) ? MOMENTUM : KINETIC;
    Op o = gen_op(c.src, kind, wide(c));
    bool rel = any_size(c, o);
    c.label(kind_name(kind));
    c.label(strf("L_A=%d", o.a.L));
    against_ref(c, o, rel);
}

void register_basic(std::vector<Property> &v)
{
    Property p;
    p.modes = 5;
    p.id = "C06";
    p.technique_rule = "generated shells, potentials, geometry and point; every gradient matrix element compared with the derivative obtained by "
                       "quadrature of analytically differentiated functions; non-trivial: some exact element exceeds 1e-6";
    p.fn = prop_gradients;
    p.quick_cases = 2500; p.thorough_cases = 200000;
    v.push_back(p);
    p.modes = 2;
    p.id = "C07";
    p.technique_rule = "generated shell pairs; overlap or overlap-gradient matrices compared with Gauss-Hermite quadrature in extended precision; "
                       "non-trivial: some exact element exceeds 1e-6";
    p.fn = prop_overlap;
    p.quick_cases = 60000; p.thorough_cases = 3000000;
    v.push_back(p);
    p.id = "C08";
    p.technique_rule = "generated shell pairs; kinetic or momentum matrices compared with Gauss-Hermite quadrature of differentiated functions; "
                       "non-trivial: some exact element exceeds 1e-6";
    p.fn = prop_kinmom;
    p.quick_cases = 120000; p.thorough_cases = 3000000;
    v.push_back(p);
}
