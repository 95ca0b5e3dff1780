// C21: the driver programs.  Generated input files are given to the compiled programs; every matrix they
// write is compared with direct library calls made on the same numbers.
#include "props.hpp"
#include "ops.hpp"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fs = std::filesystem;
extern "C" void radial_gto_norm_factor_(int32_t *L, int32_t *n, double *coeffs, double *alpha, double *norm);

static std::string g_c, g_f90, g_cmp;

static void find_drivers()
{
    const char *b = getenv("VERIF_BUILD");
    if (!b) return;
    std::error_code ec;
    for (auto &e : fs::recursive_directory_iterator(std::string(b) + "/drivers/lib", ec)) {
        if (e.path().filename() == "test_libgrpp_c.x") g_c = e.path();
        if (e.path().filename() == "test_libgrpp_f90.x") g_f90 = e.path();
        if (e.path().filename() == "libgrpp_compare_matrices.x") g_cmp = e.path();
    }
    if (g_c.empty() || g_f90.empty() || g_cmp.empty()) { fprintf(stderr, "driver programs not found under %s/drivers\n", b); exit(3); }
}

static const char *SYMBOLS[] = {
    "", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V",
    "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh",
    "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho",
    "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac",
    "Th", "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg",
    "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};
// elements with an undisputed most abundant isotope (finite nuclear models)
static const std::vector<std::pair<int, int>> ISOTOPES{{1, 1}, {2, 4}, {6, 12}, {8, 16}, {9, 19}, {11, 23}, {18, 40}, {26, 56}, {55, 133}, {79, 197}, {81, 205}, {82, 208}, {90, 232}, {92, 238}};

struct Num { double v; std::string t; };
struct BasBlock { std::vector<Num> exps; std::vector<std::vector<Num>> c; };                 // c[contracted][primitive]
struct EcpBlock { std::vector<int> powers; std::vector<Num> exps, arep, esop; std::vector<std::vector<Num>> oc; };
struct Element {
    int Z = 1;
    std::vector<BasBlock> basis;
    bool ecp = false;
    std::vector<BasBlock> ocb;
    std::vector<EcpBlock> pot;
};
struct Atom { int elem; Num x[3]; };
struct Input {
    std::vector<Element> el, unused;
    std::vector<Atom> atoms;
    std::string xyz, bas, ecp;
};

static Num num(Source &s, double v)
{
    Num n;
    switch (s.below(4)) {
        case 0: n.t = strf("%.17g", v); break;
        case 1: n.t = strf("%.6f", v); break;
        case 2: n.t = strf("%.8E", v); break;
        default: n.t = strf("%.12e", v);
    }
    if (n.t.find_first_of(".") == std::string::npos && n.t.find_first_of("eE") == std::string::npos) n.t += ".0";
    n.v = strtod(n.t.c_str(), nullptr);
    return n;
}
static Num exponent(Source &s) { Num n; do n = num(s, s.logreal(0.05, 20)); while (n.v <= 0); return n; }
static Num coef(Source &s) { return num(s, s.chance(1, 6) ? 0.0 : s.real(-2, 2)); }

static BasBlock gen_block(Source &s, int maxprim, int maxcontr, bool zero_ok)
{
    BasBlock b;
    int np = s.range(1, maxprim), nc = zero_ok && s.chance(1, 6) ? 0 : s.range(1, maxcontr);
    for (int i = 0; i < np; i++) b.exps.push_back(exponent(s));
    for (int j = 0; j < nc; j++) {
        std::vector<Num> c;
        for (int i = 0; i < np; i++) c.push_back(i == j % np ? num(s, s.real(0.5, 2)) : coef(s));
        b.c.push_back(c);
    }
    return b;
}

static std::string row(Source &s, const std::vector<std::string> &v)
{
    std::string r = s.chance(1, 3) ? "   " : "";
    for (size_t i = 0; i < v.size(); i++) r += (i ? (s.chance(1, 4) ? "     " : "  ") : "") + v[i];
    return r;
}

static Input gen_input(Source &s, int natmax, int Lmax, int maxcontr, int narepmax, int known)
{
    Input in;
    std::set<int> used;
    auto element = [&]() {
        Element e;
        do e.Z = known || s.chance(1, 2) ? ISOTOPES[s.range(known == 2 ? 2 : 0, (int)ISOTOPES.size() - 1)].first : s.range(1, 118);
        while (used.count(e.Z) || e.Z == 102);             // nobelium: see the fixed cases
        used.insert(e.Z);
        int nb = s.range(1, Lmax + 1);
        for (int l = 0; l < nb; l++) e.basis.push_back(gen_block(s, 3, maxcontr, l + 1 < nb));
        e.ecp = s.chance(3, 4);
        if (e.ecp) {
            int na = s.range(1, narepmax), noc = s.chance(1, 2) ? s.range(1, na) : 0;
            for (int l = 0; l < noc; l++) e.ocb.push_back(gen_block(s, 2, l ? 2 : 1, true));
            for (int l = 0; l < na; l++) {
                EcpBlock p;
                int np = s.range(1, 3), n = l < noc ? (int)e.ocb[l].c.size() : 0;
                p.oc.resize(n);
                for (int i = 0; i < np; i++) {
                    p.powers.push_back(s.range(0, 2));
                    p.exps.push_back(exponent(s));
                    p.arep.push_back(coef(s));
                    p.esop.push_back(l ? coef(s) : num(s, 0.0));
                    for (int k = 0; k < n; k++) p.oc[k].push_back(coef(s));
                }
                e.pot.push_back(p);
            }
        }
        return e;
    };
    int nel = s.range(1, 2), nat = s.range(1, natmax);
    if (nel > nat) nel = nat;
    for (int i = 0; i < nel; i++) in.el.push_back(element());
    if (s.chance(1, 3)) in.unused.push_back(element());
    for (int i = 0; i < nat; i++) {
        Atom a;
        a.elem = i < nel ? i : s.below(nel);
        for (;;) {
            for (int k = 0; k < 3; k++) a.x[k] = s.chance(1, 4) ? num(s, 0.0) : num(s, s.real(-2, 2));
            bool ok = true;
            for (auto &b : in.atoms) ok = ok && fabs(a.x[0].v - b.x[0].v) + fabs(a.x[1].v - b.x[1].v) + fabs(a.x[2].v - b.x[2].v) > 0.1;
            if (ok) break;
            a.x[2] = num(s, 3.0 + i);
            break;
        }
        in.atoms.push_back(a);
    }
    // text
    in.xyz = strf("%d\n\n", nat);
    for (auto &a : in.atoms) in.xyz += row(s, {SYMBOLS[in.el[a.elem].Z], a.x[0].t, a.x[1].t, a.x[2].t}) + "\n";
    std::vector<const Element *> order;
    for (auto &e : in.el) order.push_back(&e);
    for (auto &e : in.unused) order.insert(order.begin() + s.below(order.size() + 1), &e);
    auto block = [&](const BasBlock &b) {
        std::string r = row(s, {strf("%d", (int)b.exps.size()), strf("%d", (int)b.c.size())}) + "\n";
        for (size_t i = 0; i < b.exps.size(); i++) {
            std::vector<std::string> v{b.exps[i].t};
            for (auto &c : b.c) v.push_back(c[i].t);
            r += row(s, v) + "\n";
        }
        return r;
    };
    for (auto *e : order) {
        in.bas += strf("* %d %d\n", e->Z, (int)e->basis.size());
        for (auto &b : e->basis) in.bas += block(b);
        if (!e->ecp) continue;
        in.ecp += strf("* %d %d %d\n", e->Z, (int)e->ocb.size(), (int)e->pot.size());
        for (auto &b : e->ocb) in.ecp += block(b);
        for (auto &p : e->pot) {
            in.ecp += row(s, {strf("%d", (int)p.powers.size()), strf("%d", (int)p.oc.size())}) + "\n";
            for (size_t i = 0; i < p.powers.size(); i++) {
                std::vector<std::string> v{strf("%d", p.powers[i]), p.exps[i].t, p.arep[i].t, p.esop[i].t};
                for (auto &o : p.oc) v.push_back(o[i].t);
                in.ecp += row(s, v) + "\n";
            }
        }
    }
    return in;
}

// ---- the model: what direct library calls give ------------------------------------------------------
struct LibShell { libgrpp_shell_t *p; int off, size; };
struct Model {
    const Input &in;
    std::vector<LibShell> sh;
    std::vector<libgrpp_grpp_t *> g;                       // per element
    int dim = 0;
    static std::vector<double> vals(const std::vector<Num> &v) { std::vector<double> r; for (auto &n : v) r.push_back(n.v); return r; }
    explicit Model(const Input &i) : in(i)
    {
        for (auto &a : in.atoms) {
            double o[3] = {a.x[0].v, a.x[1].v, a.x[2].v};
            auto &e = in.el[a.elem];
            for (int l = 0; l < (int)e.basis.size(); l++)
                for (auto &cn : e.basis[l].c) {
                    auto al = vals(e.basis[l].exps), c = vals(cn);
                    int np = al.size();
                    double norm;
                    radial_gto_norm_factor_(&l, &np, c.data(), al.data(), &norm);
                    // own value: N_i as the library normalises primitives, S of the radial functions
                    double S = 0;
                    for (int p = 0; p < np; p++)
                        for (int q = 0; q < np; q++)
                            S += c[p] * c[q] * pow(2 * sqrt(al[p] * al[q]) / (al[p] + al[q]), l + 1.5);
                    if (fabs(norm * sqrt(S) - 1) > 1e-9)
                        throw Fail(strf("radial_gto_norm_factor gives %.15g for L=%d exps %s coeffs %s, expected %.15g", norm, l, txt(al).c_str(), txt(c).c_str(), 1 / sqrt(S)));
                    for (auto &x : c) x *= norm;
                    libgrpp_shell_t *p = libgrpp_new_shell(o, l, np, c.data(), al.data());
                    int n = ncart(l);
                    sh.push_back({p, dim, n});
                    dim += n;
                }
        }
        for (auto &e : in.el) {
            if (!e.ecp) { g.push_back(nullptr); continue; }
            auto *p = libgrpp_new_grpp();
            int na = e.pot.size();
            for (int l = 0; l < na; l++) {
                auto &b = e.pot[l];
                auto al = vals(b.exps), ar = vals(b.arep), es = vals(b.esop);
                std::vector<int> pw = b.powers;
                int np = pw.size();
                auto *u = libgrpp_new_potential(l, 0, np, pw.data(), ar.data(), al.data());
                if (l == na - 1) libgrpp_grpp_set_local_potential(p, u); else libgrpp_grpp_add_averaged_potential(p, u);
                if (l) libgrpp_grpp_add_spin_orbit_potential(p, libgrpp_new_potential(l, 0, np, pw.data(), es.data(), al.data()));
                for (int k = 0; k < (int)b.oc.size(); k++) {
                    auto oc = vals(b.oc[k]), oa = vals(e.ocb[l].exps), cc = vals(e.ocb[l].c[k]);
                    int J = l == 0 ? 1 : 2 * l + (k % 2 ? 1 : -1);
                    double z[3] = {0, 0, 0};
                    libgrpp_grpp_add_outercore_potential(p, libgrpp_new_potential(l, J, np, pw.data(), oc.data(), al.data()),
                                                         libgrpp_new_shell(z, l, oa.size(), cc.data(), oa.data()));
                }
            }
            g.push_back(p);
        }
    }
    V3 pos(int i) const { return V3{in.atoms[i].x[0].v, in.atoms[i].x[1].v, in.atoms[i].x[2].v}; }
    libgrpp_grpp_t *gr(int i) const { return g[in.atoms[i].elem]; }
};
struct Expect { std::vector<double> m, mag; };             // value and sum of magnitudes
typedef std::map<std::string, Expect> Files;

struct Acc {
    Files &f;
    const Model &M;
    std::string prefix;
    Expect &get(const std::string &n)
    {
        auto &e = f[prefix + n + ".txt"];
        if (e.m.empty()) { e.m.assign(M.dim * M.dim, 0.0); e.mag.assign(M.dim * M.dim, 0.0); }
        return e;
    }
    void add(const std::string &n, const LibShell &a, const LibShell &b, const double *blk, double fac = 1)
    {
        auto &e = get(n);
        double mx = 0;
        for (int i = 0; i < a.size * b.size; i++) mx = std::max(mx, fabs(fac * blk[i]));
        for (int i = 0; i < a.size; i++)
            for (int j = 0; j < b.size; j++) {
                int k = (a.off + i) * M.dim + b.off + j;
                e.m[k] += fac * blk[i * b.size + j];
                e.mag[k] += mx;
            }
    }
};

enum Flag { D_GRPP, D_OVERLAP, D_KINETIC, D_MOMENTUM, D_POINT, D_POINTNUM, D_BALL, D_GAUSS, D_FERMI, D_G_GRPP, D_G_T1, D_G_T2, D_G_SO, D_G_OC, D_G_OVERLAP, D_NFLAG };
static const char *FLAG[] = {"--grpp", "--overlap", "--kinetic", "--momentum", "--coulomb-point", "--coulomb-point-num", "--coulomb-ball", "--coulomb-gauss",
                             "--coulomb-fermi", "--grpp-grad", "--grad-type1", "--grad-type2", "--grad-spin-orbit", "--grad-outercore", "--overlap-grad"};
static const double FM = 1.0 / 52917.7210903;

static const char X[] = "xyz";
static void expect(const Model &M, int flag, Acc acc, bool fortran)
{
    int nat = M.in.atoms.size();
    // every file of the requested kind exists even if all elements vanish
    auto names = [&](const char *stem) { for (int a = 0; a < nat; a++) for (int d = 0; d < 3; d++) acc.get(strf(stem, a, X[d])); };
    switch (flag) {
        case D_GRPP: acc.get("arep"); acc.get("so_x"); acc.get("so_y"); acc.get("so_z"); break;
        case D_G_GRPP: names("arep_grad_%d%c"); names("so_x_grad_%d%c"); names("so_y_grad_%d%c"); names("so_z_grad_%d%c"); break;
        case D_G_T1: names("arep_type1_grad_%d%c"); break;
        case D_G_T2: names("arep_type2_grad_%d%c"); break;
        case D_G_SO: names("so_x_so_grad_%d%c"); names("so_y_so_grad_%d%c"); names("so_z_so_grad_%d%c"); break;
        case D_G_OC: names("arep_ocpot_grad_%d%c"); names("so_x_ocpot_grad_%d%c"); names("so_y_ocpot_grad_%d%c"); names("so_z_ocpot_grad_%d%c"); break;
        case D_G_OVERLAP: names("overlap_grad_%d%c"); break;
        default: break;
    }
    for (auto &a : M.sh)
        for (auto &b : M.sh) {
            int n = a.size * b.size;
            std::vector<std::vector<double>> buf(12, std::vector<double>(n, 0.0));
            auto clear = [&]() { for (auto &v : buf) std::fill(v.begin(), v.end(), 0.0); };
            double *m[12], *gr[4][3], **gp[4];
            for (int i = 0; i < 12; i++) m[i] = buf[i].data();
            for (int i = 0; i < 4; i++) { for (int d = 0; d < 3; d++) gr[i][d] = m[3 * i + d]; gp[i] = gr[i]; }
            switch (flag) {
                case D_OVERLAP: libgrpp_overlap_integrals(a.p, b.p, m[0]); acc.add("overlap", a, b, m[0]); break;
                case D_KINETIC: libgrpp_kinetic_energy_integrals(a.p, b.p, m[0]); acc.add("kinetic_energy", a, b, m[0]); break;
                case D_MOMENTUM:
                    libgrpp_momentum_integrals(a.p, b.p, m[0], m[1], m[2]);
                    acc.add("momentum_x", a, b, m[0]); acc.add("momentum_y", a, b, m[1]); acc.add("momentum_z", a, b, m[2]);
                    break;
                case D_POINT: case D_POINTNUM: case D_BALL: case D_GAUSS: case D_FERMI:
                    for (int c = 0; c < nat; c++) {
                        V3 C = M.pos(c);
                        int Z = M.in.el[M.in.atoms[c].elem].Z, A = 0;
                        for (auto &i : ISOTOPES) if (i.first == Z) A = i.second;
                        double rms = A ? libgrpp_estimate_nuclear_rms_radius_johnson_1985(A) : 0, ca = 0, aa = 0;
                        if (flag == D_FERMI) libgrpp_estimate_fermi_model_parameters(rms, &ca, &aa);
                        clear();
                        const char *nm = "nucattr_point";
                        if (flag == D_POINT) { libgrpp_nuclear_attraction_integrals_point_charge(a.p, b.p, C.data(), Z, m[0]); if (fortran) nm = "nucattr"; }
                        if (flag == D_POINTNUM) { double par[3] = {0, 0, 0}; libgrpp_nuclear_attraction_integrals(a.p, b.p, C.data(), Z, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, par, m[0]); nm = "nucattr_point_numerical"; }
                        if (flag == D_BALL) { libgrpp_nuclear_attraction_integrals_charged_ball(a.p, b.p, C.data(), Z, rms * FM, m[0]); nm = "nucattr_charged_ball"; }
                        if (flag == D_GAUSS) { libgrpp_nuclear_attraction_integrals_gaussian_model(a.p, b.p, C.data(), Z, rms * FM, m[0]); nm = "nucattr_gaussian"; }
                        if (flag == D_FERMI) { libgrpp_nuclear_attraction_integrals_fermi_model(a.p, b.p, C.data(), Z, ca * FM, aa * FM, m[0]); nm = "nucattr_fermi"; }
                        acc.add(nm, a, b, m[0]);
                    }
                    break;
                case D_GRPP:
                    for (int c = 0; c < nat; c++) {
                        if (!M.gr(c)) continue;
                        V3 C = M.pos(c);
                        clear();
                        libgrpp_full_grpp_integrals(a.p, b.p, M.gr(c), C.data(), m[0], m[1], m[2], m[3]);
                        acc.add("arep", a, b, m[0]); acc.add("so_x", a, b, m[1]); acc.add("so_y", a, b, m[2]); acc.add("so_z", a, b, m[3]);
                    }
                    break;
                case D_G_OVERLAP:
                    for (int p = 0; p < nat; p++) {
                        V3 P = M.pos(p);
                        clear();
                        libgrpp_overlap_integrals_gradient(a.p, b.p, P.data(), gp[0]);
                        for (int d = 0; d < 3; d++) acc.add(strf("overlap_grad_%d%c", p, X[d]), a, b, gr[0][d]);
                    }
                    break;
                default:
                    for (int p = 0; p < nat; p++)
                        for (int c = 0; c < nat; c++) {
                            auto *g = M.gr(c);
                            if (!g) continue;
                            V3 P = M.pos(p), C = M.pos(c);
                            auto put = [&](const char *stem, int i, double f = 1) { for (int d = 0; d < 3; d++) acc.add(strf(stem, p, X[d]), a, b, gr[i][d], f); };
                            clear();
                            if (flag == D_G_T1 || (flag == D_G_GRPP && fortran)) {
                                libgrpp_type1_integrals_gradient(a.p, b.p, C.data(), g->U_L, P.data(), gp[0]);
                                put(fortran ? "arep_grad_%d%c" : "arep_type1_grad_%d%c", 0);
                            }
                            if (flag == D_G_T2 || (flag == D_G_GRPP && fortran))
                                for (int k = 0; k < g->n_arep; k++) {
                                    clear();
                                    libgrpp_type2_integrals_gradient(a.p, b.p, C.data(), g->U_arep[k], P.data(), gp[0]);
                                    put(fortran ? "arep_grad_%d%c" : "arep_type2_grad_%d%c", 0);
                                }
                            if (flag == D_G_SO || (flag == D_G_GRPP && fortran))
                                for (int k = 0; k < g->n_esop; k++) {
                                    clear();
                                    libgrpp_spin_orbit_integrals_gradient(a.p, b.p, C.data(), g->U_esop[k], P.data(), gp[0], gp[1], gp[2]);
                                    double f = 2.0 / (2 * g->U_esop[k]->L + 1);
                                    put(fortran ? "so_x_grad_%d%c" : "so_x_so_grad_%d%c", 0, f);
                                    put(fortran ? "so_y_grad_%d%c" : "so_y_so_grad_%d%c", 1, f);
                                    put(fortran ? "so_z_grad_%d%c" : "so_z_so_grad_%d%c", 2, f);
                                }
                            if (flag == D_G_OC) {
                                clear();
                                libgrpp_outercore_potential_integrals_gradient(a.p, b.p, C.data(), g->n_oc_shells, g->U_oc, g->oc_shells, P.data(), gp[0], gp[1], gp[2], gp[3]);
                                put("arep_ocpot_grad_%d%c", 0); put("so_x_ocpot_grad_%d%c", 1); put("so_y_ocpot_grad_%d%c", 2); put("so_z_ocpot_grad_%d%c", 3);
                            }
                            if (flag == D_G_GRPP && !fortran) {
                                clear();
                                libgrpp_full_grpp_integrals_gradient(a.p, b.p, g, C.data(), P.data(), gp[0], gp[1], gp[2], gp[3]);
                                put("arep_grad_%d%c", 0); put("so_x_grad_%d%c", 1); put("so_y_grad_%d%c", 2); put("so_z_grad_%d%c", 3);
                            }
                        }
            }
        }
}

// ---- running -----------------------------------------------------------------------------------------
static void write_file(const std::string &p, const std::string &t) { std::ofstream(p) << t; }

static int run_driver(const std::string &exe, const std::vector<std::string> &args, const std::string &dir, int threads)
{
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(dir.c_str())) _exit(99);
        int fd = open("stdout.log", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1); dup2(fd, 2);
        setenv("OMP_NUM_THREADS", strf("%d", threads).c_str(), 1);
        setenv("OMP_WAIT_POLICY", "passive", 1);
        std::vector<char *> av{const_cast<char *>(exe.c_str())};
        for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
        av.push_back(nullptr);
        alarm(300);
        execv(exe.c_str(), av.data());
        _exit(99);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
    return WEXITSTATUS(st);
}

static std::vector<double> parse(Ctx &c, const std::string &path, const std::string &name, int dim)
{
    FILE *f = fopen(path.c_str(), "r");
    c.require(f, name + " was not written");
    int n = 0, i, j;
    double v;
    std::vector<double> m(dim * dim, NAN);
    int ok = fscanf(f, "%d", &n);
    if (ok != 1 || n != dim) { fclose(f); c.fail(strf("%s: dimension %d instead of %d", name.c_str(), n, dim)); }
    while ((ok = fscanf(f, "%d%d%lf", &i, &j, &v)) == 3) {
        if (i < 1 || j < 1 || i > dim || j > i) { fclose(f); c.fail(strf("%s: position %d %d", name.c_str(), i, j)); }
        if (m[(i - 1) * dim + j - 1] == m[(i - 1) * dim + j - 1]) { fclose(f); c.fail(strf("%s: element %d %d twice", name.c_str(), i, j)); }
        m[(i - 1) * dim + j - 1] = v;
    }
    fclose(f);
    c.require(ok == EOF, name + ": not a matrix file");
    return m;
}

static void compare(Ctx &c, const Files &F, const std::string &dir, int dim, double thresh, const std::string &who)
{
    for (auto &kv : F) {
        auto m = parse(c, dir + "/" + kv.first, who + " " + kv.first, dim);
        double top = 0;
        for (double x : kv.second.mag) top = std::max(top, x);
        double floor = 1e-11 * top + (thresh > 1e-12 ? 1e-12 : 1e-13);
        for (int i = 0; i < dim; i++)
            for (int j = 0; j <= i; j++) {
                int k = i * dim + j;
                double e = kv.second.m[k], tol = 1e-9 * kv.second.mag[k] + floor + (m[k] == m[k] ? 0 : thresh * (1 + 1e-9));
                double v = m[k] == m[k] ? m[k] : 0;
                if (fabs(e) > 1e-6) c.nontrivial();
                c.elementary++;
                c.ratio(m[k] == m[k] ? fabs(v - e) / tol : 0);
                if (!(fabs(v - e) <= tol)) c.fail(strf("%s %s: element %d %d is %s%.16g, direct calls give %.16g", who.c_str(), kv.first.c_str(), i + 1, j + 1, m[k] == m[k] ? "" : "absent, i.e. ", v, e));
            }
    }
}

static void prop_drivers(Ctx &c)
{
    auto &s = c.src;
    bool fortran = s.below(5) == 4;
    std::vector<int> flags;
    int natmax = 3, Lmax = 2, mc = 2, na = 3;
    bool grad = false;
    if (fortran) { natmax = 2; Lmax = 1; na = 3; flags = {D_GRPP, D_OVERLAP, D_POINT, D_G_GRPP}; }
    else {
        std::set<int> f;
        int n = s.range(1, 4);
        for (int i = 0; i < n; i++) f.insert(s.below(D_NFLAG));
        flags.assign(f.begin(), f.end());
        for (int x : flags) if (x >= D_G_GRPP && x != D_G_OVERLAP) grad = true;
        bool heavy = grad || f.count(D_POINTNUM) || f.count(D_BALL) || f.count(D_GAUSS) || f.count(D_FERMI);
        if (heavy) { Lmax = 1; natmax = 2; mc = c.thorough ? 2 : 1; }
        else if (!f.count(D_GRPP)) { natmax = 5; Lmax = 4; mc = 3; }
        else if (s.chance(1, 4)) { natmax = 2; Lmax = 3; na = 4; }
    }
    int finite = 0;                                        // 1: mass numbers matter; 2: also large enough for the Fermi model
    for (int x : flags) finite = std::max(finite, x == D_FERMI ? 2 : x == D_BALL || x == D_GAUSS ? 1 : 0);
    Input in = gen_input(s, natmax, Lmax, mc, na, finite);
    std::vector<int> thr{1, 2, 3, 8};
    int threads = fortran ? 1 : s.pick(thr);
    std::vector<std::string> args;
    if (!fortran) {
        for (int x : flags) args.push_back(FLAG[x]);
        for (size_t i = args.size(); i > 1; i--) std::swap(args[i - 1], args[s.below(i)]);
    }
    std::string a;
    for (auto &x : args) a += " " + x;
    c.describe((fortran ? "test_libgrpp_f90.x" : "test_libgrpp_c.x" + a + strf("  OMP_NUM_THREADS=%d", threads)) + "\n--- molecule.xyz\n" + in.xyz + "--- basis.inp\n" + in.bas + "--- ecp.inp\n" + in.ecp);
    c.label(fortran ? "driver=f90" : "driver=c");
    if (!fortran) { for (int x : flags) c.label(FLAG[x]); c.label(strf("threads=%d", threads)); }
    bool without = false, oc = false;
    for (auto &e : in.el) { without = without || !e.ecp; oc = oc || !e.ocb.empty(); }
    if (without) c.label("element without pseudopotential");
    if (oc) c.label("outercore shells");
    if (in.atoms.size() > in.el.size()) c.label("repeated element");
    if (!in.unused.empty()) c.label("unused entry");

    std::error_code ec;
    fs::remove_all(c.scratch, ec);
    fs::create_directories(c.scratch);
    write_file(c.scratch + "/molecule.xyz", in.xyz);
    write_file(c.scratch + "/basis.inp", in.bas);
    write_file(c.scratch + "/ecp.inp", in.ecp);
    int rc = run_driver(fortran ? g_f90 : g_c, args, c.scratch, threads);
    if (rc >= 1000) c.fail(strf("the driver was ended by signal %d", rc - 1000));
    if (rc != 0) c.fail(strf("the driver exited with status %d", rc));
    Model M(in);
    Files F;
    for (int x : flags) expect(M, x, Acc{F, M, fortran ? "libgrpp_f90_" : "libgrpp_c_"}, fortran);
    compare(c, F, c.scratch, M.dim, fortran ? 1e-10 : 1e-14, fortran ? "f90" : "c");
    // nothing else is written
    for (auto &e : fs::directory_iterator(c.scratch)) {
        std::string n = e.path().filename();
        if (n.rfind("libgrpp_", 0) == 0 && !F.count(n)) c.fail("unexpected output file " + n);
    }
    fs::remove_all(c.scratch, ec);
}

// ---- fixed cases (known findings) -----------------------------------------------------------------------
static const char *BAS_S = "* %d 1\n1 1\n1.0 1.0\n";
static void one_atom(Ctx &c, const char *sym, int Z)
{
    fs::remove_all(c.scratch);
    fs::create_directories(c.scratch);
    write_file(c.scratch + "/molecule.xyz", strf("1\n\n%s 0.0 0.0 0.0\n", sym));
    write_file(c.scratch + "/basis.inp", "* 200 0\n" + strf(BAS_S, Z));
    write_file(c.scratch + "/ecp.inp", "\n");
}
static void fixed_nobelium(Ctx &c)
{
    one_atom(c, "No", 102);
    int a = run_driver(g_c, {"--overlap"}, c.scratch, 1);
    std::string bad;
    if (a || !fs::exists(c.scratch + "/libgrpp_c_overlap.txt")) bad += " C";
    run_driver(g_f90, {}, c.scratch, 1);
    if (!fs::exists(c.scratch + "/libgrpp_f90_overlap.txt")) bad += " Fortran";
    if (!bad.empty()) c.fail("a molecule with nobelium (symbol No) is rejected by the driver(s):" + bad);
}
static void fixed_fermi_light(Ctx &c)
{
    one_atom(c, "H", 1);
    int rc = run_driver(g_c, {"--coulomb-fermi"}, c.scratch, 1);
    if (rc) return;                                        // refused
    auto m = parse(c, c.scratch + "/libgrpp_c_nucattr_fermi.txt", "nucattr_fermi", 1);
    if (!(m[0] < -1)) c.fail(strf("H with --coulomb-fermi: attraction integral of an s function is %g (there is no Fermi model for A<=4, the driver neither refuses nor falls back)", m[0]));
}
// ---- C24: the matrix comparison program ------------------------------------------------------------------
struct MatFile { int dim; std::vector<int> i, j; std::vector<Num> v; std::string text; };

static MatFile mat_file(Source &s, int dim, const std::vector<std::pair<std::pair<int, int>, double>> &el)
{
    MatFile m;
    m.dim = dim;
    m.text = strf(s.chance(1, 2) ? "%6d\n" : "%d\n", dim);
    for (auto &e : el) {
        Num n;
        n.t = strf(s.chance(1, 2) ? "%30.16E" : "%.17g", e.second);
        n.v = strtod(n.t.c_str(), nullptr);
        m.i.push_back(e.first.first); m.j.push_back(e.first.second); m.v.push_back(n);
        m.text += strf(s.chance(1, 2) ? "%6d%6d " : "%d %d ", e.first.first, e.first.second) + n.t + "\n";
    }
    return m;
}

static void prop_compare(Ctx &c)
{
    auto &s = c.src;
    int kind = s.below(7), dim = s.range(1, s.chance(1, 6) ? 60 : 8);
    // as the numbers are printed with 17 digits the value compared is the value generated
    double thr = 1e-10;
    bool own = s.chance(1, 2);
    std::string thr_text;
    if (own) { thr_text = strf("%.3e", s.logreal(1e-14, 1e2)); thr = strtod(thr_text.c_str(), nullptr); }
    typedef std::vector<std::pair<std::pair<int, int>, double>> L;
    L a, b;
    std::set<std::pair<int, int>> seen;
    int n = s.range(0, std::min(dim * dim, 25));
    double worst = 0;
    for (int k = 0; k < n; k++) {
        int i = s.range(1, dim), j = s.range(1, dim);
        if (!seen.insert({i, j}).second) continue;
        double v = s.chance(1, 5) ? s.real(-1, 1) * thr : s.real(-1, 1) * s.logreal(1e-12, 1e3), w = v;
        switch (s.below(kind == 0 ? 2 : 4)) {
            case 0: break;
            case 1: w = v + s.real(-0.9, 0.9) * thr; break;                          // within the threshold
            case 2: w = v + (s.chance(1, 2) ? 1 : -1) * thr * s.logreal(1.1, 1e6); break;
            default: w = -v;
        }
        bool ina = !s.chance(1, 6), inb = !s.chance(1, 6);
        if (ina) a.push_back({{i, j}, v});
        if (inb) b.push_back({{i, j}, w});
        double d = fabs((ina ? v : 0.0) - (inb ? w : 0.0));
        if (fabs(d / thr - 1) < 1e-3 || fabs(d - thr) < 1e-14 * (fabs(v) + fabs(w))) throw Discard();   // on the border
        worst = std::max(worst, d);
    }
    for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[s.below(i)]);         // the order of lines is irrelevant
    int dim2 = kind == 1 ? dim + s.range(1, 3) : dim;
    if (s.chance(1, 2)) std::swap(a, b);
    MatFile A = mat_file(s, dim, a), B = mat_file(s, dim2, b);
    bool equal = worst <= thr && dim == dim2, error = false;
    std::string what = kind == 1 ? "dimensions differ" : worst > thr ? "differ" : "equal";
    std::vector<std::string> args;
    if (own) args.push_back(thr_text);
    args.push_back("a.txt");
    args.push_back("b.txt");
    std::string extra;
    if (kind == 6) {
        error = true;
        switch (s.below(6)) {
            case 0: B.text += strf("%d %d 1.0\n", s.chance(1, 2) ? dim + 1 : 0, 1); extra = "row out of range"; break;
            case 1: A.text += strf("%d %d 1.0\n", 1, s.chance(1, 2) ? dim + 1 : -1); extra = "column out of range"; break;
            case 2: args.back() = "missing.txt"; extra = "missing file"; break;
            case 3: args[args.size() - 2] = "missing.txt"; extra = "missing file"; break;
            case 4: A.text = ""; extra = "empty file"; break;
            default: args.insert(args.begin(), "x"); if (!own) { extra = "threshold is not a number"; } else extra = "too many arguments";
        }
    }
    c.describe(strf("threshold %s, %s %s\n--- a.txt\n%s--- b.txt\n%s", own ? thr_text.c_str() : "default", what.c_str(), extra.c_str(), A.text.c_str(), B.text.c_str()));
    c.label(error ? extra : what);
    c.nontrivial();
    std::error_code ec;
    fs::create_directories(c.scratch, ec);
    write_file(c.scratch + "/a.txt", A.text);
    write_file(c.scratch + "/b.txt", B.text);
    int rc = run_driver(g_cmp, args, c.scratch, 1);
    c.elementary++;
    bool ok = rc == 0;
    if (rc >= 1000) c.fail(strf("ended by signal %d", rc - 1000));
    if (ok != (equal && !error)) c.fail(strf("exit status %d, largest difference %.17g, threshold %.17g, dimensions %d %d%s", rc, worst, thr, dim, dim2, error ? (", " + extra).c_str() : ""));
}

static void fixed_cmp_nan(Ctx &c)
{
    fs::create_directories(c.scratch);
    write_file(c.scratch + "/a.txt", "1\n1 1 1.0\n");
    write_file(c.scratch + "/b.txt", "1\n1 1 nan\n");
    if (run_driver(g_cmp, {"a.txt", "b.txt"}, c.scratch, 1) == 0) c.fail("1.0 and nan are reported to be equal");
}
static void fixed_cmp_garbage(Ctx &c)
{
    fs::create_directories(c.scratch);
    write_file(c.scratch + "/a.txt", "2\n1 1 1.0\n");
    write_file(c.scratch + "/b.txt", "2\n1 1 1.0\n? 2 5.0\n");
    if (run_driver(g_cmp, {"a.txt", "b.txt"}, c.scratch, 1) == 0) c.fail("a file with an unreadable line is read without an error, the rest of it is ignored");
}

void register_drivers(std::vector<Property> &v)
{
    Property p;
    p.id = "C21"; p.fn = prop_drivers; p.modes = 5; p.setup = find_drivers;
    p.quick_cases = 500; p.thorough_cases = 200000; p.cpu_limit_s = 300;
    p.fixed = {{"nobelium", "nobelium is not recognised: entry 102 of both element tables reads Nb", fixed_nobelium},
               {"fermi-light", "--coulomb-fermi uses undefined Fermi parameters for H and He", fixed_fermi_light}};
    p.technique_rule = "generated molecule, basis and pseudopotential files given to the compiled C driver (generated sets of options, 1..8 threads) or Fortran driver; every element of "
                       "every file written is compared with direct library calls on the same numbers; non-trivial: some element exceeds 1e-6";
    v.push_back(p);
    p.id = "C24"; p.fn = prop_compare; p.modes = 7; p.quick_cases = 30000; p.thorough_cases = 3000000;
    p.fixed = {{"nan", "a not-a-number element equals anything", fixed_cmp_nan}, {"garbage", "unreadable lines end the file silently", fixed_cmp_garbage}};
    p.technique_rule = "generated pairs of matrix files (element order, formats, missing elements, differences on both sides of the threshold, wrong dimensions, broken files, own thresholds) given to the compiled "
                       "comparison program; its verdict is compared with the definition; every case is non-trivial";
    v.push_back(p);
}
