// C17 concurrent evaluation: generated mixtures of operations on shared objects, run by several threads and
// compared bitwise with a serial evaluation; in the thread-sanitizer build every data race ends the case.
#include "memwrap.hpp"
#include "ops.hpp"
#include "props.hpp"
#include <algorithm>
#include <atomic>
#include <thread>

typedef std::vector<double> Vec;

namespace {
struct Task { int kind, i, j, u; V3 C, P; Nuc nuc; int size; };
struct Pool {
    std::vector<ShellSpec> shs;
    std::vector<PotSpec> pots;
    std::vector<std::unique_ptr<Shell>> S;
    std::vector<std::unique_ptr<Pot>> U;
    GrppSpec gs;
    std::unique_ptr<Grpp> G;
    std::vector<libgrpp_potential_t *> ocU;
    std::vector<libgrpp_shell_t *> ocS;
};
}

static Vec evaluate(const Pool &p, Task &t, bool own)
{
    Vec v((size_t)t.size * kind_nmat(t.kind), -1.5e33);
    std::vector<double *> m;
    for (int k = 0; k < kind_nmat(t.kind); k++) m.push_back(v.data() + (size_t)k * t.size);
    auto run = [&](libgrpp_shell_t *A, libgrpp_shell_t *B, libgrpp_potential_t *U) {
        // coordinates are shared between the threads as well
        call_kind(t.kind, A, B, t.C.data(), t.P.data(), U, p.ocU.size(), const_cast<libgrpp_potential_t **>(p.ocU.data()), const_cast<libgrpp_shell_t **>(p.ocS.data()),
                  p.G->p, t.nuc, m.data());
    };
    if (own) {                                             // objects made and released by this thread
        Shell A(p.shs[t.i]), B(p.shs[t.j]);
        Pot U(p.pots[t.u]);
        libgrpp_shell_t *A2 = libgrpp_shell_deep_copy(A.p);
        run(A2, B, U);
        libgrpp_delete_shell(A2);
    } else run(*p.S[t.i], *p.S[t.j], *p.U[t.u]);
    return v;
}

static void prop_threads(Ctx &c)
{
    Source &s = c.src;
    int focus = s.below(NKIND + 1);                        // kind that every thread runs
#ifdef VERIF_TSAN
    int reps = 1;
#else
    int reps = s.range(2, 12);
#endif
    Pool p;
    V3 o = gen_point(s, 1), q = gen_point(s, 1.5), w = gen_point(s, 1.5);
    int ns = s.range(2, 4);
    bool high = s.chance(1, 4);                            // high angular momenta: only the inexpensive operators
    for (int i = 0; i < ns; i++)
        p.shs.push_back(high ? gen_shell(s, 5, 10, 1, VALENCE, s.pick(std::vector<V3>{o, q, w}))
                             : gen_shell(s, 0, i < 2 ? 2 : 4, 2, VALENCE, s.pick(std::vector<V3>{o, q, w})));
    for (int l = 0; l < 3; l++) p.pots.push_back(gen_pot(s, l, 0, 2, VALENCE, {2, 1, 0}));
    Limits lim;
    lim.lmax = 1;
    lim.maxcomp = 1;
    lim.maxoc = 2;
    p.gs = gen_grpp(s, lim, 3);
    if (p.gs.oc.empty() && s.chance(3, 4)) p.gs.oc = gen_oc(s, lim, 1);
    for (auto &x : p.shs) p.S.emplace_back(new Shell(x));
    for (auto &x : p.pots) p.U.emplace_back(new Pot(x));
    p.G.reset(new Grpp(p.gs));
    for (int i = 0; i < p.G->p->n_oc_shells; i++) { p.ocU.push_back(p.G->p->U_oc[i]); p.ocS.push_back(p.G->p->oc_shells[i]); }
    std::vector<Task> tasks;
    int nt = s.range(1, 6);
    for (int k = 0; k < nt; k++) {
        Task t;
        t.kind = k == 0 && focus < NKIND ? focus : s.below(NKIND);
        if (high) t.kind = s.pick(std::vector<int>{NUCATT, NUCATT, TYPE1, OVERLAP, KINETIC, MOMENTUM, G_OVERLAP});
        t.i = s.below(ns);
        t.j = s.below(ns);
        bool semi = t.kind == TYPE2 || t.kind == SO || t.kind == FULL || t.kind == G_TYPE2 || t.kind == G_SO || t.kind == G_FULL;
        if (semi) { t.i = std::min(t.i, 1); t.j = std::min(t.j, 1); }
        t.u = s.below(3);
        if (t.kind == SO || t.kind == G_SO) t.u = std::max(t.u, 1);
        if ((t.kind == G_TYPE2 || t.kind == G_SO) && p.shs[t.i].L + p.shs[t.j].L > 2) t.u = std::min(t.u, 1);
        t.C = s.pick(std::vector<V3>{o, q, w});
        t.P = s.pick(std::vector<V3>{o, q, w});
        if (t.kind == NUCATT) t.nuc = gen_nuc(s, p.shs[t.i].L + p.shs[t.j].L <= 2 && s.chance(1, 3) ? s.below(6) : 0);
        t.size = ncart(p.shs[t.i].L) * ncart(p.shs[t.j].L);
        c.label(kind_name(t.kind));
        tasks.push_back(t);
    }
    int T = s.pick(std::vector<int>{2, 2, 3, 4, 8});
    bool before = !high && s.chance(1, 2), own = s.chance(1, 3);
    std::vector<std::vector<int>> order(T);
    for (int t = 0; t < T; t++) {
        for (int k = 0; k < nt; k++) order[t].push_back(k);
        if (s.chance(1, 2)) for (int k = nt - 1; k > 0; k--) std::swap(order[t][k], order[t][s.below(k + 1)]);
    }
    std::string d = strf("%d threads, %d repetitions, serial %s%s:", T, reps, before ? "first" : "afterwards", own ? ", objects made in threads" : "");
    for (auto &t : tasks) d += strf(" [%s shells %d,%d pot %d C=%s P=%s]", kind_name(t.kind), t.i, t.j, t.u, txt(t.C).c_str(), txt(t.P).c_str());
    for (auto &x : p.shs) d += " " + txt(x);
    for (auto &x : p.pots) d += " " + txt(x);
    c.describe(d + " " + txt(p.gs));
    std::vector<Vec> want(nt);
    if (before) for (int k = 0; k < nt; k++) want[k] = evaluate(p, tasks[k], false);
    std::vector<std::vector<std::vector<Vec>>> got(T, std::vector<std::vector<Vec>>(reps, std::vector<Vec>(nt)));
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready.load() < T) std::this_thread::yield();
            for (int r = 0; r < reps; r++) for (int k : order[t]) got[t][r][k] = evaluate(p, tasks[k], own && t % 2);
        });
    for (auto &x : th) x.join();
    if (!before) for (int k = 0; k < nt; k++) want[k] = evaluate(p, tasks[k], false);
    bool some = false;
    for (int t = 0; t < T; t++)
        for (int r = 0; r < reps; r++)
            for (int k = 0; k < nt; k++) {
                Vec &x = got[t][r][k];
                c.elementary += x.size();
                for (size_t i = 0; i < x.size(); i++) {
                    if (!(x[i] == want[k][i]) && !(std::isnan(x[i]) && std::isnan(want[k][i])))
                        c.fail(strf("thread %d, repetition %d, %s: element %zu is %.17g, serial evaluation gives %.17g", t, r, kind_name(tasks[k].kind), i, x[i], want[k][i]));
                    some |= std::fabs(x[i]) > 1e-9;
                }
            }
    c.label(strf("%d threads", T));
    if (high) c.label("high angular momenta");
    if (some) c.nontrivial();
}

void register_thread(std::vector<Property> &v)
{
    Property p;
    p.id = "C17"; p.fn = prop_threads; p.modes = NKIND + 1;
#ifdef VERIF_TSAN
    p.quick_cases = 900; p.thorough_cases = 100000;
    p.quick_budget_s = 100;
    p.thorough_budget_s = 360;
#else
    p.quick_cases = 900; p.thorough_cases = 1000000;
    p.quick_budget_s = 100;
    p.thorough_budget_s = 330;
#endif
    p.confirm = 0;                                         // a race is real even when it cannot be repeated
    p.jobs = 4;
    p.technique_rule = "generated mixtures of operations on shared shells, potentials and pseudopotential objects run by 2..8 threads, compared bitwise with a serial evaluation, in a plain build and under the thread sanitizer; non-trivial: some element exceeds 1e-9";
    v.push_back(p);
}
