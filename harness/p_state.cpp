// C05 full GRPP and construction histories, C15 purity, C16 inputs and outputs, C20 objects, C23 accuracy settings
#include "memwrap.hpp"
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
void libgrpp_set_default_parameters();
void libgrpp_set_radial_tolerance(double);
void libgrpp_set_angular_screening_tolerance(double);
void libgrpp_set_modified_bessel_tolerance(double);
void libgrpp_set_cartesian_order(int);
void libgrpp_set_cartesian_generator(int (*)(int, int *));
}

typedef std::vector<double> Vec;

static void mark(Ctx &c, const Vec &v)
{
    if (maxof(v) > 1e-6) c.nontrivial();
}
static void finite(Ctx &c, const std::string &what, const Vec &v)
{
    for (double x : v) if (!std::isfinite(x)) c.fail(what + ": not a finite number");
}
static void same_bits(Ctx &c, const std::string &what, const Vec &x, const Vec &y)
{
    c.require(x.size() == y.size(), what + ": sizes differ");
    c.elementary += x.size();
    for (size_t i = 0; i < x.size(); i++)
        if (!(x[i] == y[i]))                               // NaN is a failure, too
            c.fail(strf("%s: element %zu is %.17g instead of %.17g", what.c_str(), i, x[i], y[i]));
}

// ---- C05 -------------------------------------------------------------------------------------------
static libgrpp_potential_t *raw(const PotSpec &u)
{
    return libgrpp_new_potential(u.L, u.J, u.powers.size(), const_cast<int *>(u.powers.data()), const_cast<double *>(u.coeffs.data()),
                                 const_cast<double *>(u.alpha.data()));
}
static libgrpp_shell_t *raw(const ShellSpec &s)
{
    V3 o = s.origin;
    return libgrpp_new_shell(o.data(), s.L, s.alpha.size(), const_cast<double *>(s.coeffs.data()), const_cast<double *>(s.alpha.data()));
}

// sum over separately evaluated parts; scale: sum of the largest elements (for the rounding tolerance)
static std::vector<Vec> parts(const Op &base, const GrppSpec &g, bool grad, Vec &scale)
{
    int nm = grad ? 12 : 4, n = base.size();
    std::vector<Vec> r(nm, Vec(n, 0.0));
    scale.assign(nm, 0.0);
    auto add = [&](Op o, int kind, int first, double f) {
        o.kind = kind;
        Vec v = eval(o);
        for (int q = 0; q < kind_nmat(kind); q++) {
            double m = 0;
            for (int i = 0; i < n; i++) { r[first + q][i] += f * v[(size_t)q * n + i]; m = std::max(m, std::fabs(f * v[(size_t)q * n + i])); }
            scale[first + q] += m;
        }
    };
    Op o = base;
    if (g.loc) { o.u = g.local; add(o, grad ? G_TYPE1 : TYPE1, 0, 1); }
    for (auto &u : g.arep) { o.u = u; add(o, grad ? G_TYPE2 : TYPE2, 0, 1); }
    for (auto &u : g.esop) { o.u = u; add(o, grad ? G_SO : SO, grad ? 3 : 1, 2.0 / (2 * u.L + 1)); }
    if (!g.oc.empty()) { o.oc = g.oc; add(o, grad ? G_OUTER : OUTER, 0, 1); }
    return r;
}

static void check_full(Ctx &c, const Op &o, libgrpp_grpp_t *G, const GrppSpec &g, bool grad, const std::string &when)
{
    int nm = grad ? 12 : 4, n = o.size();
    Shell A(o.a), B(o.b);
    static const double fills[] = {12345.678, 0.0, -1e300, NAN};
    std::vector<OutBuf> out(nm, OutBuf(n, fills[c.src.below(4)]));
    std::vector<double *> m;
    for (auto &x : out) m.push_back(x.p());
    V3 C = o.C, P = o.P;
    call_kind(grad ? G_FULL : FULL, A, B, C.data(), P.data(), nullptr, 0, nullptr, nullptr, G, o.nuc, m.data());
    Vec scale;
    auto want = parts(o, g, grad, scale);
    for (int q = 0; q < nm; q++) {
        if (!out[q].guards_ok()) c.fail(strf("%s: matrix %d written outside its bounds", when.c_str(), q));
        for (int i = 0; i < n; i++)
            cmp1(c, strf("%s: %s matrix %d element %d against the sum of its parts", when.c_str(), grad ? "gradient" : "full", q, i), m[q][i], want[q][i],
                 1e-11 * scale[q] + 1e-13 * (1 + maxof(scale)));
        mark(c, Vec(m[q], m[q] + n));
    }
}

static PotSpec small_pot(Source &s, int L, int J)
{
    PotSpec u = gen_pot(s, L, J, 2, VALENCE, {2, 1, 0});
    if (s.chance(1, 8)) make_empty(s, u);
    return u;
}

static void prop_grpp(Ctx &c)
{
    Source &s = c.src;
    int mode = s.below(4);
    if (mode == 3) {                                       // against the reference
        c.label("against the reference");
        Limits q = default_limits(s, c.thorough);
        Op o = gen_op(s, FULL, q);
        c.describe(txt(o));
        OpObj ob(o);
        Vec v = ob.run();
        auto r = op_ref(o);
        auto t = op_tol(o, r);
        for (int k = 0; k < 4; k++) compare(c, strf("full GRPP matrix %d", k), v.data() + (size_t)k * o.size(), r[k], t[k]);
        mark(c, v);
        return;
    }
    Limits q;
    q.regime = VALENCE;
    q.maxprim = 1;
    bool many = s.chance(1, 10);
    int lmax = many ? 1 : s.chance(1, 3) ? 4 : 2;
    Op o;
    Geometry g0 = gen_geometry(s, 2.5);
    o.C = g0.C;
    o.a = gen_shell(s, 0, many ? 1 : 2, many ? 1 : 2, VALENCE, g0.A);
    o.b = gen_shell(s, 0, many ? 1 : 2, many ? 1 : 2, VALENCE, g0.B);
    if (many) { o.a.origin = o.C; o.b.origin = s.chance(1, 2) ? o.C : g0.B; }
    V3 pts[4] = {o.a.origin, o.b.origin, o.C, V3{9, 9, 9}};
    o.P = pts[s.below(4)];
    bool grad = mode == 1;
    int n = many ? s.range(5, 40) : s.range(0, 7), only = -1;
    if (many && s.chance(1, 3)) { n = 100; only = 1 + s.below(3); }       // fill one list completely
    c.label(many ? (only > 0 ? "100 components of one kind" : "many components") : "few components");
    c.label(grad ? "gradient" : "integrals");
    libgrpp_grpp_t *G = libgrpp_new_grpp();
    GrppSpec g;
    std::string hist = "history:";
    c.describe(txt(o));
    int nloc = 0, evals = 0;
    for (int k = 0; k < n; k++) {
        int what = only > 0 ? only : (int)s.below(5);
        switch (what) {
            case 0: {
                g.loc = true;
                g.local = small_pot(s, s.range(0, 5), 0);
                nloc++;
                libgrpp_grpp_set_local_potential(G, raw(g.local));
                hist += " local=" + txt(g.local);
                break;
            }
            case 1: g.arep.push_back(small_pot(s, s.range(0, lmax), 0)); libgrpp_grpp_add_averaged_potential(G, raw(g.arep.back())); hist += " arep+" + txt(g.arep.back()); break;
            case 2: g.esop.push_back(small_pot(s, s.range(1, std::max(1, lmax)), 0)); libgrpp_grpp_add_spin_orbit_potential(G, raw(g.esop.back())); hist += " esop+" + txt(g.esop.back()); break;
            case 3: {
                ref::OC x;
                int L = only > 0 ? 0 : s.range(0, std::min(lmax, 2)), J = L == 0 ? 1 : 2 * L + (s.chance(1, 2) ? 1 : -1);
                if (!g.oc.empty() && s.chance(1, 3)) { L = g.oc.back().U.L; J = g.oc.back().U.J; }
                x.U = small_pot(s, L, J);
                x.shell = gen_shell(s, L, L, 2, VALENCE, o.C);
                if (only > 0) {                            // pairs grow quadratically: keep each one cheap
                    x.shell.alpha.resize(1); x.shell.coeffs.resize(1);
                    x.U.powers.resize(1); x.U.coeffs.resize(1); x.U.alpha.resize(1);
                }
                g.oc.push_back(x);
                libgrpp_grpp_add_outercore_potential(G, raw(x.U), raw(x.shell));
                hist += " oc+" + txt(std::vector<ref::OC>{x});
                break;
            }
            default:
                if (s.chance(1, 2)) { g.loc = false; libgrpp_grpp_set_local_potential(G, NULL); hist += " local=NULL"; c.label("local part removed"); }
                else if (evals < 2 && !many) { evals++; check_full(c, o, G, g, grad, "in the middle of the construction"); c.label("evaluated while being built"); hist += " eval"; }
        }
        c.describe(txt(o) + hist);
    }
    if (nloc > 1) c.label("local part replaced");
    c.require(G->n_arep == (int)g.arep.size() && G->n_esop == (int)g.esop.size() && G->n_oc_shells == (int)g.oc.size(), "number of components");
    check_full(c, o, G, g, grad, "complete object");
    if (s.chance(1, 4)) check_full(c, o, G, g, !grad, "complete object, the other kind of evaluation");
    if (s.chance(1, 4) && !many) {                         // the same components in another order
        GrppSpec h = g;
        auto shuffle = [&](auto &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[s.below(i + 1)]); };
        shuffle(h.arep);
        shuffle(h.esop);
        shuffle(h.oc);
        Grpp H(h);
        check_full(c, o, H.p, g, grad, "components added in another order");
    }
    libgrpp_delete_grpp(G);
}

// ---- C15 -------------------------------------------------------------------------------------------
__attribute__((noinline)) static void paint_stack(unsigned char v)
{
    volatile unsigned char buf[1 << 20];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = v;
    asm volatile("" ::"r"(buf) : "memory");
}

// evaluates in a separate process that has done nothing else
static Vec isolated(Ctx &c, const std::function<Vec()> &f, size_t maxn)
{
    size_t bytes = (maxn + 2) * sizeof(double);
    double *sh = (double *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh[0] = -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        Vec v = f();
        if (v.size() <= maxn) { std::copy(v.begin(), v.end(), sh + 1); sh[0] = v.size(); }
        _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (sh[0] < 0) c.fail(strf("evaluation in a fresh process did not finish (wait status %d)", ws));
    Vec v(sh + 1, sh + 1 + (size_t)sh[0]);
    munmap(sh, bytes);
    return v;
}

static void tweak(Source &s, double &x, double rel) { x *= 1 + (s.chance(1, 2) ? rel : -rel); }

// an operation that differs from o in one respect
static Op mutate(Source &s, const Op &o, std::string &what)
{
    Op m = o;
    switch (s.below(12)) {
        case 0: tweak(s, m.a.alpha[s.below(m.a.alpha.size())], 0.25); what = "exponent of A"; break;
        case 1: tweak(s, m.b.alpha[s.below(m.b.alpha.size())], 0.25); what = "exponent of B"; break;
        case 2: m.a.coeffs[s.below(m.a.coeffs.size())] += 0.5; what = "coefficient of A"; break;
        case 3: m.b.coeffs[s.below(m.b.coeffs.size())] += 0.5; what = "coefficient of B"; break;
        case 4: m.a.origin[s.below(3)] += 0.3; what = "centre of A"; break;
        case 5: m.b.origin[s.below(3)] -= 0.3; what = "centre of B"; break;
        case 6: m.C[s.below(3)] += 0.3; what = "centre of the potential"; break;
        case 7: std::swap(m.a, m.b); what = "A and B exchanged"; break;
        case 8:
            what = "potential";
            if (!m.u.alpha.empty()) {
                switch (s.below(4)) {
                    case 0: m.u.coeffs[0] *= -1.5; break;
                    case 1: m.u.alpha[0] *= 1.5; break;
                    case 2: m.u.powers[0] = m.u.powers[0] == 2 ? 1 : 2; break;
                    default: m.u.L = std::max(kind_uses_u(m.kind) && (m.kind == SO || m.kind == G_SO) ? 1 : 0, m.u.L - 1);
                }
            } else if (!m.oc.empty()) { if (!m.oc[0].U.coeffs.empty()) m.oc[0].U.coeffs[0] *= -1.5; m.oc[0].shell.coeffs[0] += 0.7; }
            else if (m.g.loc && !m.g.local.coeffs.empty()) m.g.local.coeffs[0] *= -1.5;
            else m.nuc.Z += 1;
            break;
        case 9: m.a.L = std::max(0, m.a.L - 1); what = "angular momentum of A"; break;
        case 10: m.b.L = std::max(0, m.b.L - 1); what = "angular momentum of B"; break;
        default: m.P = m.P == m.C ? m.a.origin : m.C; what = "differentiation point"; break;
    }
    return m;
}

static int reversed_generator(int L, int *list)
{
    int n = 0;
    for (int z = L; z >= 0; z--) for (int y = L - z; y >= 0; y--) { list[3 * n] = L - z - y; list[3 * n + 1] = y; list[3 * n + 2] = z; n++; }
    return n;
}

static Limits light(Source &s, int kind, bool thorough)
{
    Limits q;
    q.Lmax = s.range(1, 3);
    q.maxprim = 2;
    q.lmax = s.range(1, 3);
    q.work = thorough ? 7 : 6;
    q.maxoc = 2;
    q.regime = s.chance(1, 3) ? MEDIUM : VALENCE;
    if ((kind == OVERLAP || kind == KINETIC || kind == MOMENTUM || kind == G_OVERLAP) && s.chance(1, 2)) q.Lmax = 8;
    return q;
}

static void prop_purity(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(NKIND);
    c.label(kind_name(kind));
    Op x = gen_op(s, kind, light(s, kind, c.thorough));
    std::string hist;
    c.describe(txt(x));
    Vec fresh = isolated(c, [&] {
        libgrpp_init();
        return eval(x);
    }, x.total());
    finite(c, "result in a fresh process", fresh);
    libgrpp_init();
    std::unique_ptr<OpObj> early;
    bool have_early = s.chance(1, 2);
    if (have_early) early.reset(new OpObj(x));             // objects made before the history
    int n = s.range(1, 6);
    V3 sharedC = x.C;
    for (int k = 0; k < n; k++) {
        std::string w;
        switch (s.below(9)) {
            case 0: case 1: case 2: {                      // a near relative of the operation
                Op y = mutate(s, x, w);
                hist += " mutant(" + w + ")";
                c.describe(txt(x) + hist);
                Vec v = eval(y);
                if (s.chance(1, 2)) {
                    Vec f = isolated(c, [&] { return eval(y); }, y.total());
                    same_bits(c, "repeated evaluation of a related operation", v, f);
                }
                c.label("related operation in the history");
                break;
            }
            case 3: case 4: {                              // something else
                int kd = s.below(NKIND);
                Op y = gen_op(s, kd, light(s, kd, false));
                hist += std::string(" other(") + kind_name(kd) + ")";
                c.describe(txt(x) + hist + " " + txt(y));
                eval(y);
                break;
            }
            case 5: libgrpp_finalize(); c.require(!libgrpp_is_initialized(), "initialised after finalize"); libgrpp_init(); c.require(libgrpp_is_initialized(), "not initialised after init"); hist += " finalize+init"; c.label("finalize and init"); break;
            case 6: {
                std::vector<std::unique_ptr<Shell>> pool;
                for (int i = 0; i < 30; i++) pool.emplace_back(new Shell(i % 2 ? x.a : x.b));
                for (int i = 0; i < 30; i += 2) pool[i].reset();
                libgrpp_init();                            // repeated initialisation
                hist += " objects";
                break;
            }
            case 7:
                libgrpp_set_radial_tolerance(s.logreal(1e-18, 1e-4));
                libgrpp_set_cartesian_generator(reversed_generator);
                { Op y = mutate(s, x, w); eval(y); }
                libgrpp_set_default_parameters();
                hist += " other parameters, then defaults";
                c.label("parameters changed and reset");
                break;
            default: mallopt(M_PERTURB, s.range(0, 255)); paint_stack((unsigned char)s.range(0, 255)); hist += " heap and stack repainted";
        }
        c.describe(txt(x) + hist);
    }
    Vec got;
    {
        std::unique_ptr<OpObj> late;
        OpObj *ob = early.get();
        if (!have_early || s.chance(1, 3)) { late.reset(new OpObj(x)); ob = late.get(); }
        Vec buf(x.total(), s.chance(1, 2) ? NAN : 1e308);
        std::vector<double *> m;
        for (int q = 0; q < kind_nmat(kind); q++) m.push_back(buf.data() + (size_t)q * x.size());
        if (s.chance(1, 2)) paint_stack((unsigned char)s.range(0, 255));
        ob->run(m.data());
        same_bits(c, "result after a history of other calls", buf, fresh);
        ob->run(m.data());
        same_bits(c, "result of an immediate repetition", buf, fresh);
        got = buf;
    }
    mark(c, got);
    (void)sharedC;
}

// ---- C16 -------------------------------------------------------------------------------------------
static void prop_inputs(Ctx &c)
{
    Source &s = c.src;
    int kind = s.below(NKIND + 1);
    if (kind == NKIND) {                                   // constructors and copies
        c.label("constructors");
        c.nontrivial();
        ShellSpec sp = gen_shell(s, 0, 10, 6, BROAD, V3{s.real(-2, 2), s.real(-2, 2), 0.5});
        int L = s.range(0, 8);
        PotSpec u = gen_pot(s, L, 2 * L + 1, 6, BROAD, {2, 1, 0, 3, 4});
        if (s.chance(1, 3)) u.coeffs[0] = s.pick(std::vector<double>{0, 1e-15, -1e-15, 1e-13});
        c.describe(txt(sp) + " " + txt(u));
        size_t n = sp.alpha.size(), nu = u.alpha.size();
        double *o = (double *)memw::arena_alloc(24), *cf = (double *)memw::arena_alloc(8 * n), *al = (double *)memw::arena_alloc(8 * n);
        std::copy(sp.origin.begin(), sp.origin.end(), o);
        std::copy(sp.coeffs.begin(), sp.coeffs.end(), cf);
        std::copy(sp.alpha.begin(), sp.alpha.end(), al);
        double *uc = (double *)memw::arena_alloc(8 * nu), *ua = (double *)memw::arena_alloc(8 * nu);
        int *up = (int *)memw::arena_alloc(4 * nu);
        std::copy(u.coeffs.begin(), u.coeffs.end(), uc);
        std::copy(u.alpha.begin(), u.alpha.end(), ua);
        std::copy(u.powers.begin(), u.powers.end(), up);
        memw::protect();
        libgrpp_shell_t *S = libgrpp_new_shell(o, sp.L, n, cf, al);
        libgrpp_potential_t *U = libgrpp_new_potential(u.L, u.J, nu, up, uc, ua);
        memw::unprotect();
        libgrpp_delete_shell(S);
        libgrpp_delete_potential(U);
        memw::arena_on();
        S = libgrpp_new_shell(o, sp.L, n, cf, al);
        U = libgrpp_new_potential(u.L, u.J, nu, up, uc, ua);
        memw::arena_off();
        memw::protect();
        libgrpp_shell_t *T = libgrpp_shell_deep_copy(S);
        libgrpp_potential_t *V = libgrpp_shrink_potential(U);
        int size = libgrpp_get_shell_size(S);
        double val = libgrpp_potential_value(U, s.logreal(1e-3, 10));
        c.require(size == ncart(sp.L), "size of a shell");
        c.require(std::isfinite(val), "value of a potential");
        memw::unprotect();
        libgrpp_delete_shell(S);
        libgrpp_delete_shell(T);
        libgrpp_delete_potential(U);
        libgrpp_delete_potential(V);
        return;
    }
    Op o = gen_op(s, kind, light(s, kind, c.thorough));
    if (kind == NUCATT && o.nuc.model != 0 && s.chance(1, 2)) o.nuc.model = 0;
    if (s.chance(1, 10)) o.b = o.a;
    c.label(kind_name(kind));
    c.describe(txt(o));
    Vec plain = eval(o);
    // the same call on write-protected inputs, with different previous contents of the output
    memw::arena_on();
    OpObj *ob = new OpObj(o);
    memw::arena_off();
    int noc = ob->ocUp.size(), nm = kind_nmat(kind), n = o.size();
    bool alias = s.chance(1, 4);
    double *C = (double *)memw::arena_alloc(24), *P = (double *)memw::arena_alloc(24), *par = (double *)memw::arena_alloc(80);
    std::copy(o.C.begin(), o.C.end(), C);
    std::copy(o.P.begin(), o.P.end(), P);
    std::copy(o.nuc.par, o.nuc.par + 3, par);
    libgrpp_potential_t **ocU = (libgrpp_potential_t **)memw::arena_alloc(8 * noc + 8);
    libgrpp_shell_t **ocS = (libgrpp_shell_t **)memw::arena_alloc(8 * noc + 8);
    for (int i = 0; i < noc; i++) { ocU[i] = ob->ocUp[i]; ocS[i] = ob->ocSp[i]; }
    std::vector<OutBuf> out(nm, OutBuf(n, s.chance(1, 2) ? NAN : -3.5e250));
    double ***g = (double ***)memw::arena_alloc(4 * sizeof(double **));
    std::vector<double *> m;
    for (auto &x : out) m.push_back(x.p());
    for (int q = 0; q < 4; q++) {
        g[q] = (double **)memw::arena_alloc(3 * sizeof(double *));
        for (int k = 0; k < 3; k++) g[q][k] = 3 * q + k < nm ? m[3 * q + k] : nullptr;
    }
    libgrpp_shell_t *A = ob->A->p, *B = ob->B->p;
    double *Cp = C, *Pp = P;
    if (alias) {                                           // arguments that are the same object
        c.label("aliased arguments");
        if (txt(o.a) == txt(o.b)) B = A;
        if (o.C == o.a.origin) Cp = A->origin;
        else if (o.C == o.b.origin) Cp = B->origin;
        if (o.P == o.C) Pp = Cp;
        else if (o.P == o.a.origin) Pp = A->origin;
    }
    memw::protect();
    call_kind(kind, A, B, Cp, Pp, ob->U ? ob->U->p : nullptr, noc, ocU, ocS, ob->G ? ob->G->p : nullptr, o.nuc, m.data(), par, g);
    memw::unprotect();
    Vec got;
    for (int q = 0; q < nm; q++) {
        c.require(out[q].guards_ok(), strf("matrix %d written outside its bounds", q));
        got.insert(got.end(), m[q], m[q] + n);
    }
    same_bits(c, "result with read-only inputs and other previous output contents", got, plain);
    mark(c, plain);
    delete ob;
}

// ---- C20 -------------------------------------------------------------------------------------------
struct MShell { ShellSpec s; std::vector<int> list; libgrpp_shell_t *p; };
struct MPot { PotSpec u; libgrpp_potential_t *p; };

static double shell_value(const double *cf, const double *al, int n, double r)
{
    double v = 0;
    for (int i = 0; i < n; i++) v += cf[i] * std::exp(-al[i] * r * r);
    return v;
}

static void check_shell(Ctx &c, const MShell &m, const char *when)
{
    c.elementary++;
    libgrpp_shell_t *p = m.p;
    int L = m.s.L, n = ncart(L);
    auto at = [&](const char *what) { return strf("%s of a shell (%s)", what, when); };
    c.require(p->L == L, at("angular momentum"));
    c.require(p->cart_size == n && libgrpp_get_shell_size(p) == n, at("size"));
    for (int k = 0; k < 3; k++) c.require(p->origin[k] == m.s.origin[k], at("origin"));
    for (int i = 0; i < 3 * n; i++) c.require(p->cart_list[i] == m.list[i], at("Cartesian functions"));
    c.require(p->num_primitives == (int)m.s.alpha.size(), at("number of primitives") + strf(": %d, expected %zu", p->num_primitives, m.s.alpha.size()));
    for (size_t i = 0; i < m.s.alpha.size(); i++)
        c.require(p->alpha[i] == m.s.alpha[i] && p->coeffs[i] == m.s.coeffs[i], at("a primitive") + strf(" %zu: %.17g %.17g, expected %.17g %.17g", i, p->coeffs[i], p->alpha[i], m.s.coeffs[i], m.s.alpha[i]));
}
static double pot_value(const PotSpec &u, double r, double &scale)
{
    double v = 0;
    scale = 0;
    for (size_t i = 0; i < u.alpha.size(); i++) {
        double t = u.coeffs[i] * std::pow(r, u.powers[i] - 2) * std::exp(-u.alpha[i] * r * r);
        v += t;
        scale += std::fabs(t) * (1 + u.alpha[i] * r * r);
    }
    return v;
}
static void check_pot(Ctx &c, const MPot &m, Source &s, const char *when)
{
    libgrpp_potential_t *p = m.p;
    auto at = [&](const char *what) { return strf("%s of a potential (%s)", what, when); };
    c.require(p->L == m.u.L && p->J == m.u.J, at("quantum numbers"));
    c.require(p->num_primitives == (int)m.u.alpha.size(), at("number of terms") + strf(": %d, expected %zu", p->num_primitives, m.u.alpha.size()));
    for (size_t i = 0; i < m.u.alpha.size(); i++)
        c.require(p->alpha[i] == m.u.alpha[i] && p->coeffs[i] == m.u.coeffs[i] && p->powers[i] == m.u.powers[i], at("a term") + strf(" %zu", i));
    for (int k = 0; k < 3; k++) {
        double r = s.logreal(1e-4, 20), sc, v = pot_value(m.u, r, sc);
        cmp1(c, at("value") + strf(" at r=%.17g", r), libgrpp_potential_value(p, r), v, 1e-13 * sc + 1e-300);
    }
    bool zero_ok = true;
    double v0 = 0, s0 = 0;
    for (size_t i = 0; i < m.u.powers.size(); i++) { zero_ok &= m.u.powers[i] >= 2; if (m.u.powers[i] == 2) { v0 += m.u.coeffs[i]; s0 += std::fabs(m.u.coeffs[i]); } }
    if (zero_ok) cmp1(c, at("value at the origin"), libgrpp_potential_value(p, 0.0), v0, 1e-13 * s0);
}
static double small_coef(Source &s)
{
    switch (s.below(6)) {
        case 0: return 0.0;
        case 1: return (s.chance(1, 2) ? 1 : -1) * s.logreal(1e-40, 9e-15);
        case 2: return (s.chance(1, 2) ? 1 : -1) * s.logreal(1.1e-14, 1e-10);
        default: return (s.chance(1, 2) ? 1 : -1) * s.logreal(1e-3, 1e3);
    }
}
static std::vector<int> order_list(int L, int which)
{
    std::vector<int> l;
    if (which == 1) { l.resize(3 * ncart(L)); reversed_generator(L, l.data()); return l; }
    for (int x = L; x >= 0; x--) for (int y = L - x; y >= 0; y--) { l.push_back(x); l.push_back(y); l.push_back(L - x - y); }
    return l;
}

static void prop_objects(Ctx &c)
{
    Source &s = c.src;
    long live0 = memw::live();
    std::vector<MShell> sh;
    std::vector<MPot> po;
    std::vector<libgrpp_grpp_t *> gr;
    int ordering = 0;
    std::string hist;
    int n = s.range(2, c.thorough ? 40 : 22);
    c.nontrivial();
    for (int step = 0; step < n; step++) {
        int what = s.below(13);
        switch (what) {
            case 0: case 1: {
                MShell m;
                m.s.L = s.range(0, 10);
                for (double &x : m.s.origin) x = s.real(-5, 5);
                int k = s.chance(1, 10) ? s.range(1, 60) : s.range(1, 5);
                for (int i = 0; i < k; i++) { m.s.alpha.push_back(s.logreal(1e-3, 1e6)); m.s.coeffs.push_back(small_coef(s)); }
                hist += " new_shell" + txt(m.s);
                c.describe(hist);
                m.list = order_list(m.s.L, ordering);
                {   // the source arrays are changed and released right after construction
                    double *cf = new double[k], *al = new double[k], *o = new double[3];
                    for (int i = 0; i < k; i++) { cf[i] = m.s.coeffs[i]; al[i] = m.s.alpha[i]; }
                    for (int i = 0; i < 3; i++) o[i] = m.s.origin[i];
                    m.p = libgrpp_new_shell(o, m.s.L, k, cf, al);
                    for (int i = 0; i < k; i++) cf[i] = al[i] = -77;
                    for (int i = 0; i < 3; i++) o[i] = -77;
                    delete[] cf; delete[] al; delete[] o;
                }
                check_shell(c, m, "new");
                sh.push_back(m);
                break;
            }
            case 2: case 3: {
                MPot m;
                m.u.L = s.range(0, 10);
                m.u.J = s.chance(1, 2) ? 0 : 2 * m.u.L + 1;
                int k = s.chance(1, 10) ? s.range(1, 60) : s.range(0, 5);
                PotSpec full = m.u;
                for (int i = 0; i < k; i++) {
                    full.alpha.push_back(s.logreal(1e-3, 1e4));
                    full.coeffs.push_back(small_coef(s));
                    full.powers.push_back(s.range(0, 4));
                    if (std::fabs(full.coeffs.back()) > 1e-14) {       // documented threshold for zero
                        m.u.alpha.push_back(full.alpha.back());
                        m.u.coeffs.push_back(full.coeffs.back());
                        m.u.powers.push_back(full.powers.back());
                    }
                }
                hist += " new_potential" + txt(full);
                c.describe(hist);
                {
                    double *cf = new double[k + 1], *al = new double[k + 1];
                    int *pw = new int[k + 1];
                    for (int i = 0; i < k; i++) { cf[i] = full.coeffs[i]; al[i] = full.alpha[i]; pw[i] = full.powers[i]; }
                    m.p = libgrpp_new_potential(full.L, full.J, k, pw, cf, al);
                    for (int i = 0; i < k; i++) { cf[i] = al[i] = -77; pw[i] = -7; }
                    delete[] cf; delete[] al; delete[] pw;
                }
                check_pot(c, m, s, "new");
                po.push_back(m);
                break;
            }
            case 4: if (!sh.empty()) {                     // deep copy; then copy and original change independently
                MShell m = sh[s.below(sh.size())];
                hist += " deep_copy";
                c.describe(hist);
                libgrpp_shell_t *src = m.p;
                m.p = libgrpp_shell_deep_copy(src);
                c.require(m.p != src && m.p->coeffs != src->coeffs && m.p->alpha != src->alpha && m.p->cart_list != src->cart_list, "deep copy shares memory with its source");
                check_shell(c, m, "deep copy");
                sh.push_back(m);
                break;
            }
            // fallthrough
            case 5: if (!sh.empty()) {                     // change the contents of one shell in place
                MShell &m = sh[s.below(sh.size())];
                hist += " modify";
                size_t i = s.below(m.s.alpha.size() ? m.s.alpha.size() : 1);
                if (i < m.s.alpha.size()) {
                    m.s.alpha[i] = m.p->alpha[i] = s.logreal(1e-3, 1e3);
                    m.s.coeffs[i] = m.p->coeffs[i] = small_coef(s);
                }
                m.s.origin[1] = m.p->origin[1] = s.real(-5, 5);
                break;
            }
            // fallthrough
            case 6: if (!sh.empty()) {
                MShell &m = sh[s.below(sh.size())];
                hist += " shell_shrink";
                c.describe(hist);
                ShellSpec old = m.s;
                m.s.alpha.clear();
                m.s.coeffs.clear();
                for (size_t i = 0; i < old.alpha.size(); i++)
                    if (std::fabs(old.coeffs[i]) > 1e-14) { m.s.alpha.push_back(old.alpha[i]); m.s.coeffs.push_back(old.coeffs[i]); }
                libgrpp_shell_shrink(m.p);
                check_shell(c, m, "after shrink");
                for (int k = 0; k < 2; k++) {
                    double r = s.real(0, 3);
                    cmp1(c, "function represented after shrink", shell_value(m.p->coeffs, m.p->alpha, m.p->num_primitives, r),
                         shell_value(old.coeffs.data(), old.alpha.data(), old.alpha.size(), r), 1e-14 * old.alpha.size() + 1e-13 * std::max(1.0, maxof(old.coeffs)));
                }
                break;
            }
            // fallthrough
            case 7: if (!sh.empty()) {
                MShell &m = sh[s.below(sh.size())];
                hist += " mult_normcoef";
                c.describe(hist);
                libgrpp_shell_mult_normcoef(m.p);
                c.require(m.p->num_primitives == (int)m.s.alpha.size(), "number of primitives after multiplication by norms");
                for (size_t i = 0; i < m.s.alpha.size(); i++) {
                    double want = m.s.coeffs[i] * ref::norm_prim(m.s.L, m.s.alpha[i]);
                    cmp1(c, "coefficient after multiplication by the norm", m.p->coeffs[i], want, 1e-12 * std::fabs(want));
                    m.s.coeffs[i] = m.p->coeffs[i];
                    if (std::fabs(m.s.coeffs[i]) > 1e200) { m.s.coeffs[i] = m.p->coeffs[i] = 1.0; }
                }
                check_shell(c, m, "after multiplication by norms");
                break;
            }
            // fallthrough
            case 8: if (!po.empty()) {
                MPot m = po[s.below(po.size())];
                hist += " shrink_potential";
                c.describe(hist);
                libgrpp_potential_t *src = m.p;
                for (size_t i = 0; i < m.u.coeffs.size(); i++) if (s.chance(1, 4)) {    // terms became negligible since construction
                    double z = s.pick(std::vector<double>{0, 5e-15, -5e-15});
                    for (auto &q : po) if (q.p == src) q.u.coeffs[i] = z;
                    src->coeffs[i] = z;
                    m.u.coeffs[i] = z;
                }
                PotSpec f;
                f.L = m.u.L;
                f.J = m.u.J;
                for (size_t i = 0; i < m.u.coeffs.size(); i++)
                    if (std::fabs(m.u.coeffs[i]) > 1e-14) { f.coeffs.push_back(m.u.coeffs[i]); f.alpha.push_back(m.u.alpha[i]); f.powers.push_back(m.u.powers[i]); }
                m.u = f;
                m.p = libgrpp_shrink_potential(src);
                c.require(m.p != src && m.p->coeffs != src->coeffs && m.p->powers != src->powers, "shrunk potential shares memory with its source");
                check_pot(c, m, s, "shrunk copy");
                po.push_back(m);
                break;
            }
            // fallthrough
            case 9: {                                      // object taking ownership, released as a whole
                libgrpp_grpp_t *G = libgrpp_new_grpp();
                c.require(G->n_arep == 0 && G->n_esop == 0 && G->n_oc_shells == 0 && G->U_L == NULL, "new pseudopotential is not empty");
                while (!po.empty() && s.chance(2, 3)) {
                    MPot m = po.back();
                    po.pop_back();
                    switch (s.below(4)) {
                        case 0: if (G->U_L && s.chance(1, 2)) libgrpp_grpp_set_local_potential(G, NULL); libgrpp_grpp_set_local_potential(G, m.p); c.require(G->U_L == m.p, "local part"); break;
                        case 1: libgrpp_grpp_add_averaged_potential(G, m.p); c.require(G->U_arep[G->n_arep - 1] == m.p, "averaged part"); break;
                        case 2: libgrpp_grpp_add_spin_orbit_potential(G, m.p); c.require(G->U_esop[G->n_esop - 1] == m.p, "spin-orbit part"); break;
                        default: {
                            if (sh.empty()) { libgrpp_grpp_add_averaged_potential(G, m.p); break; }
                            MShell x = sh.back();
                            sh.pop_back();
                            libgrpp_grpp_add_outercore_potential(G, m.p, x.p);
                            c.require(G->U_oc[G->n_oc_shells - 1] == m.p && G->oc_shells[G->n_oc_shells - 1] == x.p, "outercore part");
                        }
                    }
                }
                hist += strf(" grpp(%d,%d,%d)", G->n_arep, G->n_esop, G->n_oc_shells);
                c.describe(hist);
                if (s.chance(1, 2)) libgrpp_delete_grpp(G); else gr.push_back(G);
                c.label("pseudopotential objects");
                break;
            }
            case 10:
                ordering = s.below(3);
                hist += strf(" ordering %d", ordering);
                if (ordering == 1) libgrpp_set_cartesian_generator(reversed_generator);
                else if (ordering == 2) libgrpp_set_cartesian_order(1);
                else libgrpp_set_default_parameters();
                {
                    int L = s.range(0, 12);
                    int *l = libgrpp_generate_shell_cartesians(L);
                    std::vector<int> w = order_list(L, ordering);
                    for (size_t i = 0; i < w.size(); i++) c.require(l[i] == w[i], strf("list of Cartesian functions of L=%d, ordering %d", L, ordering));
                    free(l);
                }
                c.label("ordering changed");
                break;
            case 11: if (!sh.empty()) {
                size_t i = s.below(sh.size());
                hist += " delete_shell";
                libgrpp_delete_shell(sh[i].p);
                sh.erase(sh.begin() + i);
            } break;
            default: if (!po.empty()) {
                size_t i = s.below(po.size());
                hist += " delete_potential";
                libgrpp_delete_potential(po[i].p);
                po.erase(po.begin() + i);
            } else { libgrpp_delete_potential(NULL); libgrpp_delete_grpp(NULL); }
        }
        c.describe(hist);
        for (auto &m : sh) check_shell(c, m, "after an operation on another object");
        for (auto &m : po) check_pot(c, m, s, "after an operation on another object");
    }
    for (auto &m : sh) libgrpp_delete_shell(m.p);
    for (auto &m : po) libgrpp_delete_potential(m.p);
    for (auto g : gr) libgrpp_delete_grpp(g);
    libgrpp_set_default_parameters();
    c.require(memw::live() == live0, strf("%ld memory blocks are left after all objects were deleted", memw::live() - live0));
    c.label(strf("%d-%d steps", n / 10 * 10, n / 10 * 10 + 9));
}

// ---- C23 -------------------------------------------------------------------------------------------
static double prim_amp(const ShellSpec &s, double d, int e)
{
    double w = 0;
    for (size_t i = 0; i < s.alpha.size(); i++) w += std::fabs(s.coeffs[i]) * ref::norm_prim(s.L, s.alpha[i]) * (e ? 1 + s.alpha[i] : 1);
    return w * std::pow(2 * std::max(1.0, d), s.L + e);
}

static void set_random(Source &s, std::string &d, double &radial, double lo, double hi)
{
    radial = s.logreal(lo, hi);
    double a = s.logreal(lo, hi), b = s.logreal(lo, hi);
    // any order, any subset
    int k = s.below(3);
    for (int i = 0; i < 3; i++) switch ((i + k) % 3) {
        case 0: libgrpp_set_radial_tolerance(radial); break;
        case 1: libgrpp_set_angular_screening_tolerance(a); break;
        default: libgrpp_set_modified_bessel_tolerance(b);
    }
    d = strf(" radial=%.3g angular=%.3g bessel=%.3g", radial, a, b);
    radial = std::max(radial, std::max(a, b));
}

static const bool g_calib = getenv("C23CAL") != nullptr;

static void prop_settings(Ctx &c)
{
    Source &s = c.src;
    int mode = s.below(4);
    std::string d;
    double tol;
    if (mode == 0) {                                       // analytic operators
        static const int ks[] = {OVERLAP, KINETIC, MOMENTUM, NUCATT, TYPE1, G_OVERLAP, G_TYPE1};
        int kind = ks[s.below(7)];
        Op o = gen_op(s, kind, limits_for(s, kind, c.thorough));
        if (kind == NUCATT) o.nuc.model = 0;
        c.label(std::string("analytic: ") + kind_name(kind));
        Vec x = eval(o);
        set_random(s, d, tol, 1e-20, 1e-1);
        c.describe(txt(o) + d);
        Vec y = eval(o);
        same_bits(c, "analytic integrals under other tolerances", y, x);
        mark(c, x);
        return;
    }
    static const int ks[] = {NUCATT, NUCATT, NUCATT, TYPE2, SO, OUTER, FULL, G_TYPE2, G_SO, G_OUTER, G_FULL};
    int kind = ks[s.below(11)];
    Op o = gen_op(s, kind, light(s, kind, c.thorough));
    if (kind == NUCATT) {
        while (o.a.L + o.b.L > 4) { if (o.a.L > o.b.L) o.a.L--; else o.b.L--; }
        o.nuc = gen_nuc(s, 1 + s.below(5));
    }
    c.label(std::string("numerical: ") + kind_name(kind));
    if (mode == 1) {                                       // tighter than the default: still the exact integrals
        c.label("tight settings");
        set_random(s, d, tol, 1e-22, 1e-16);
        c.describe(txt(o) + d);
        Vec y = eval(o);
        auto r = op_ref(o);
        auto t = op_tol(o, r);
        for (size_t q = 0; q < r.size(); q++) compare(c, strf("%s matrix %zu with tight settings", kind_name(kind), q), y.data() + q * o.size(), r[q], t[q]);
        mark(c, y);
        return;
    }
    if (mode == 2) {                                       // looser
        Vec x = eval(o);
        c.label("loose settings");
        set_random(s, d, tol, 1e-15, 1e-3);
        c.describe(txt(o) + d);
        Vec y = eval(o);
        auto r = op_ref(o);
        auto t = op_abs_tol(o, r);
        double dA = dist(o.a.origin, o.C), dB = dist(o.b.origin, o.C);
        int e = kind_grad(kind) ? 1 : 0, n = o.size();
        double pre = prim_amp(o.a, dA, e) * prim_amp(o.b, dB, e) * 16 * M_PI * M_PI;
        if (kind_uses_g(kind) || kind_uses_oc(kind)) pre *= 100;
        for (int q = 0; q < kind_nmat(kind); q++)
            for (int i = 0; i < n; i++) {
                if (g_calib) fprintf(stderr, "CAL %s %.3g\n", kind_name(kind), std::fabs(y[(size_t)q * n + i] - x[(size_t)q * n + i]) / (tol * pre));
                cmp1(c, strf("%s matrix %d element %d: change caused by a tolerance of %.3g", kind_name(kind), q, i, tol), y[(size_t)q * n + i], x[(size_t)q * n + i],
                     20 * tol * pre + t[q]);
            }
        mark(c, x);
        return;
    }
    if (s.chance(1, 2)) {
        // the result of a process which never knew other settings; here another setting is in force at the very first evaluation
        c.label("other settings first");
        c.describe(txt(o));
        Vec fresh = isolated(c, [&]() { return eval(o); }, o.total());
        std::string h;
        libgrpp_set_radial_tolerance(s.logreal(1e-20, 1e-1));
        if (s.chance(1, 2)) set_random(s, h, tol, 1e-20, 1e-1);
        eval(o);
        if (s.chance(1, 2)) libgrpp_set_default_parameters();
        else {
            libgrpp_set_radial_tolerance(1e-16);
            libgrpp_set_angular_screening_tolerance(1e-16);
            libgrpp_set_modified_bessel_tolerance(1e-16);
        }
        same_bits(c, "results with default settings after other settings were in force first", eval(o), fresh);
        mark(c, fresh);
        return;
    }
    Vec x = eval(o);
    // histories of settings, ended by a reset
    c.label("reset");
    int k = s.range(1, 5);
    std::string h;
    for (int i = 0; i < k; i++) {
        set_random(s, d, tol, 1e-20, 1e-2);
        h += d;
        c.describe(txt(o) + h);
        if (s.chance(1, 2)) { std::string w; eval(mutate(s, o, w)); }
        if (s.chance(1, 3)) libgrpp_set_cartesian_generator(reversed_generator);
    }
    libgrpp_set_default_parameters();
    same_bits(c, "results after the default parameters were restored", eval(o), x);
    // the radial tolerance alone, set back by hand, also restores the results
    libgrpp_set_radial_tolerance(1e-3);
    libgrpp_set_angular_screening_tolerance(1e-3);
    libgrpp_set_modified_bessel_tolerance(1e-3);
    eval(o);
    libgrpp_set_radial_tolerance(1e-16);
    libgrpp_set_angular_screening_tolerance(1e-16);
    libgrpp_set_modified_bessel_tolerance(1e-16);
    same_bits(c, "results after the default tolerances were set explicitly", eval(o), x);
    mark(c, x);
}

void register_state(std::vector<Property> &v)
{
    Property p;
    p.thorough_budget_s = 720;
    p.id = "C05"; p.fn = prop_grpp; p.modes = 4; p.quick_cases = 2500; p.thorough_cases = 200000;
    p.technique_rule = "generated construction history of a pseudopotential object (set/replace/remove local part, add averaged/spin-orbit/outercore parts, evaluate in between) run against a list model whose parts are evaluated one by one; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C15"; p.fn = prop_purity; p.modes = NKIND; p.quick_cases = 15000; p.thorough_cases = 1000000;
    p.technique_rule = "generated operation evaluated in a fresh process and after a generated history (near relatives of the operation, other operations, init/finalize, changed and reset parameters, object churn, repainted heap and stack); bitwise comparison; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C16"; p.fn = prop_inputs; p.modes = NKIND + 1; p.quick_cases = 30000; p.thorough_cases = 4000000;
    p.technique_rule = "generated operation on objects and argument arrays placed in write-protected memory, outputs pre-filled and guarded; bitwise comparison with an ordinary call; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C20"; p.fn = prop_objects; p.modes = 1; p.quick_cases = 150000; p.thorough_cases = 10000000;
    p.technique_rule = "generated sequence of object operations (create, copy, modify, shrink, multiply by norms, hand over to a pseudopotential, delete, change ordering) run against a value model with all live objects checked after each step and live memory blocks counted at the end; every case is non-trivial";
    v.push_back(p);
    p.id = "C23"; p.fn = prop_settings; p.modes = 4; p.quick_cases = 4000; p.thorough_cases = 200000;
    p.technique_rule = "generated operation under generated tolerance settings: analytic operators bitwise, tight settings against the reference, loose settings against a bound proportional to the setting, resets bitwise; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
}

// the same histories, run for their effects on memory only (C18): value checks are not repeated there
void prop_fortran(Ctx &c);
void other_histories(Ctx &c)
{
    int k = c.src.below(4);
    c.label(strf("history kind %d", k));
    try {
        switch (k) {
            case 0: prop_objects(c); break;
            case 1: prop_grpp(c); break;
            case 2: prop_fortran(c); break;
            default: prop_settings(c);
        }
    } catch (Fail &) {}
}
