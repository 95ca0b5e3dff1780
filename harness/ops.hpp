// Uniform description of every integral routine of the library: generation, construction of the library
// objects, evaluation, reference value and tolerance.
#pragma once
#include "gen.hpp"

enum Kind {
    OVERLAP, KINETIC, MOMENTUM, NUCATT, TYPE1, TYPE2, SO, OUTER, FULL,
    G_OVERLAP, G_TYPE1, G_TYPE2, G_SO, G_OUTER, G_FULL,
    NKIND
};
const char *kind_name(int k);
int kind_nmat(int k);                                   // number of output matrices
inline bool kind_grad(int k) { return k >= G_OVERLAP; }
inline bool kind_uses_u(int k) { return k == TYPE1 || k == TYPE2 || k == SO || k == G_TYPE1 || k == G_TYPE2 || k == G_SO; }
inline bool kind_uses_oc(int k) { return k == OUTER || k == G_OUTER; }
inline bool kind_uses_g(int k) { return k == FULL || k == G_FULL; }
inline bool kind_uses_C(int k) { return k != OVERLAP && k != KINETIC && k != MOMENTUM && k != G_OVERLAP; }
// +1 for symmetric operators, -1 for antisymmetric ones
int kind_sym(int k, int mat);

struct GrppSpec {
    bool loc = false;
    PotSpec local;
    std::vector<PotSpec> arep, esop;
    std::vector<ref::OC> oc;
};

struct Nuc { int model = 0, Z = 1; double par[3] = {0, 0, 0}; };

struct Op {
    int kind = OVERLAP;
    ShellSpec a, b;
    V3 C{0, 0, 0}, P{0, 0, 0};
    PotSpec u;
    std::vector<ref::OC> oc;
    GrppSpec g;
    Nuc nuc;
    int rows() const { return ncart(a.L); }
    int cols() const { return ncart(b.L); }
    int size() const { return rows() * cols(); }
    int total() const { return size() * kind_nmat(kind); }
};
std::string txt(const Op &o);
std::string txt(const GrppSpec &g);
std::string txt(const std::vector<ref::OC> &oc);

libgrpp_grpp_t *build_grpp(const GrppSpec &g);
struct Grpp {
    libgrpp_grpp_t *p;
    explicit Grpp(const GrppSpec &g) : p(build_grpp(g)) {}
    Grpp(const Grpp &) = delete;
    ~Grpp() { libgrpp_delete_grpp(p); }
};

// library objects for one operation
struct OpObj {
    int kind;
    Nuc nuc;
    V3 C, P;
    std::unique_ptr<Shell> A, B;
    std::unique_ptr<Pot> U;
    std::vector<std::unique_ptr<Pot>> ocU;
    std::vector<std::unique_ptr<Shell>> ocS;
    std::vector<libgrpp_potential_t *> ocUp;
    std::vector<libgrpp_shell_t *> ocSp;
    std::unique_ptr<Grpp> G;
    int size = 0;
    explicit OpObj(const Op &o);
    void run(double *const *mats) const;                // one pointer per matrix
    std::vector<double> run() const;                    // all matrices one after another
};
void call_kind(int kind, libgrpp_shell_t *A, libgrpp_shell_t *B, double *C, double *P, libgrpp_potential_t *U, int noc,
               libgrpp_potential_t **ocU, libgrpp_shell_t **ocS, libgrpp_grpp_t *G, const Nuc &nuc, double *const *mats,
               double *parp = nullptr, double ***grads = nullptr);

inline std::vector<double> eval(const Op &o) { return OpObj(o).run(); }

// generation
struct Limits {
    int Lmax = 3, maxprim = 2, lmax = 3, work = 8, regime = VALENCE, maxoc = 3, maxcomp = 2;
    double span = 3;
    std::vector<int> powers{2, 1, 0};
};
Limits default_limits(Source &s, bool thorough);
Limits limits_for(Source &s, int kind, bool thorough);   // wider for inexpensive operators
Op gen_op(Source &s, int kind, const Limits &q);
Nuc gen_nuc(Source &s, int model);
PotSpec gen_op_pot(Source &s, const Limits &q, int l);
std::vector<ref::OC> gen_oc(Source &s, const Limits &q, int n);
GrppSpec gen_grpp(Source &s, const Limits &q, int work);

// reference
std::vector<Mat> op_ref(const Op &o);
std::vector<Tol> op_tol(const Op &o, const std::vector<Mat> &r);   // one per matrix
double nuc_potential(const Nuc &n, double r);
double nuc_norm(const Nuc &n);            // independent potential of the nuclear models
// tolerance (absolute) per matrix for comparisons library vs library
std::vector<double> op_abs_tol(const Op &o, const std::vector<Mat> &r);
Mat transpose(const Mat &m);
inline bool same_ptr(const V3 &x, const V3 &y) { return dist(x, y) < 1e-12; }
