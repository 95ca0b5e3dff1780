#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void libgrpp_init();

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

std::string strf(const char *fmt, ...)
{
    char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

void Ctx::describe(const std::string &s)
{
    if (!live_desc) return;
    size_t k = s.size() < live_desc_n - 1 ? s.size() : live_desc_n - 1;
    memcpy(live_desc, s.data(), k);
    live_desc[k] = 0;
}

static u64 mix(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

u64 Source::next()
{
    state += 0x9E3779B97F4A7C15ull;
    return mix(state);
}

u64 Source::below(u64 n)
{
    u64 v;
    if (n <= 1) n = 1;
    if (replay) v = rec.size() < in.size() ? in[rec.size()] : 0;
    else if (rec.empty() && first >= 0) v = (u64)first;
    else v = next();
    v %= n;
    rec.push_back(v);
    if (live && rec.size() <= live_max) { live[rec.size() - 1] = v; *live_n = rec.size(); }
    return v;
}

double Source::logreal(double lo, double hi)
{
    return lo * std::pow(hi / lo, unit());
}

enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3, ST_CRASH = 4, ST_HANG = 5, ST_INTERNAL = 6 };

static const size_t MAXCH = 1 << 17;
struct Shared {
    int status;
    int nontriv;
    long elementary;
    double worst;
    double secs;
    size_t nch;
    u64 ch[MAXCH];
    char msg[8192];
    char desc[16384];
    char labels[4096];
};

struct Result {
    int status = 0;
    bool nontriv = false;
    long elementary = 0;
    double worst = 0, secs = 0;
    std::vector<u64> ch;
    std::string msg, desc, labels;
};

static bool g_thorough = false;
static std::string g_scratch_root;

static void put(char *dst, size_t n, const std::string &s)
{
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

// runs one case in a forked child
static Result run_case(const Property &P, const Source &src, Shared *sh, int outfd, bool explain, const std::string &scratch)
{
    sh->status = ST_RUNNING;
    sh->nch = 0;
    sh->msg[0] = sh->desc[0] = sh->labels[0] = 0;
    if (ftruncate(outfd, 0)) {}
    lseek(outfd, 0, SEEK_SET);
    double t0 = now();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(2 * P.cpu_limit_s + 60);         // wall-clock guard against deadlocks
        struct rlimit rl = {(rlim_t)P.cpu_limit_s, (rlim_t)P.cpu_limit_s + 5};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if (!explain) {
            dup2(outfd, 1);
            dup2(outfd, 2);
        }
        mallopt(M_PERTURB, 0x5b);              // fresh heap blocks contain garbage
        Ctx c;
        c.src = src;
        c.src.live = sh->ch;
        c.src.live_n = &sh->nch;
        c.src.live_max = MAXCH;
        c.live_desc = sh->desc;
        c.live_desc_n = sizeof sh->desc;
        c.thorough = g_thorough;
        c.explain = explain;
        c.scratch = scratch;
        int st = ST_OK;
        std::string msg;
        try { P.fn(c); }
        catch (Fail &f) { st = ST_FAIL; msg = f.what(); }
        catch (Discard &) { st = ST_DISCARD; }
        catch (std::exception &e) { st = ST_INTERNAL; msg = std::string("harness exception: ") + e.what(); }
        put(sh->msg, sizeof sh->msg, msg);
        std::string l;
        for (auto &x : c.labels) l += x + "\n";
        put(sh->labels, sizeof sh->labels, l);
        sh->nch = std::min(MAXCH, c.src.rec.size());
        std::copy(c.src.rec.begin(), c.src.rec.begin() + sh->nch, sh->ch);
        sh->elementary = c.elementary;
        sh->worst = c.worst;
        sh->nontriv = c.nontriv;
        sh->status = st;
        fflush(stdout);
        fflush(stderr);
        _exit(0);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    Result R;
    R.secs = now() - t0;
    if (sh->status == ST_RUNNING) {
        sh->status = ST_CRASH;
        std::string why;
        if (WIFSIGNALED(ws)) {
            int sg = WTERMSIG(ws);
            if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) {
                sh->status = ST_HANG;
                why = strf("no result after %d s of CPU time", P.cpu_limit_s);
            } else why = strf("process killed by signal %d (%s)", sg, strsignal(sg));
        } else why = strf("process exited with code %d inside the case", WEXITSTATUS(ws));
        char buf[3000];
        off_t sz = lseek(outfd, 0, SEEK_END);
        off_t from = 0;
        ssize_t n = sz > from ? pread(outfd, buf, sizeof buf - 1, from) : 0;
        if (n < 0) n = 0;
        buf[n] = 0;
        R.msg = why + (n ? std::string("; output: ") + buf : "");
    } else R.msg = sh->msg;
    if (sh->status == ST_HANG && R.msg.empty()) R.msg = "case did not finish (deadlock or endless loop)";
    R.status = sh->status;
    R.nontriv = sh->nontriv;
    R.elementary = sh->elementary;
    R.worst = sh->worst;
    R.desc = sh->desc;
    R.labels = sh->labels;
    R.ch.assign(sh->ch, sh->ch + sh->nch);
    if (R.status == ST_CRASH || R.status == ST_HANG) { R.elementary = 0; R.worst = 0; R.nontriv = false; }
    return R;
}

static bool is_failure(const Result &r) { return r.status == ST_FAIL || r.status == ST_CRASH || r.status == ST_HANG; }

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

static u64 hash_str(const std::string &s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

static Shared *map_shared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)p;
}

static int out_file()
{
    int fd = memfd_create("caseout", 0);
    if (fd < 0) { perror("memfd"); exit(3); }
    return fd;
}

// message from worker to parent: one text record per case
static void send_all(int fd, const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) { if (errno == EINTR) continue; _exit(0); }
        o += n;
    }
}

static std::vector<u64> regenerate(const Property &P, u64 seed, long idx, Source &s)
{
    s = Source();
    s.state = mix(seed * 0x100000001B3ull ^ mix(idx + 0x51ED27) ^ hash_str(P.id));
    s.first = P.modes > 1 ? idx % P.modes : -1;
    return {};
}

static std::vector<u64> shrink(const Property &P, std::vector<u64> best, Result &bestR, double budget)
{
    Shared *sh = map_shared();
    int fd = out_file();
    double t0 = now();
    long evals = 0;
    std::string scratch = g_scratch_root + "/shrink";
    auto attempt = [&](const std::vector<u64> &c) {
        if (now() - t0 > budget || evals > 1500) return false;
        evals++;
        Source s;
        s.replay = true;
        s.in = c;
        Result r = run_case(P, s, sh, fd, false, scratch);
        if (!is_failure(r)) return false;
        std::vector<u64> used = r.ch.empty() ? c : r.ch;
        // lexicographic-length order: accept only if really simpler
        if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) {
            if (c.size() > best.size() || (c.size() == best.size() && !(c < best))) return false;
            used = c;
        }
        best = used;
        bestR = r;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t k = std::min<size_t>(64, best.size()); k >= 1; k /= 2) {
            for (size_t i = P.modes > 1 ? 1 : 0; i + k <= best.size();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true; else i += k;
            }
            for (size_t i = P.modes > 1 ? 1 : 0; i + k <= best.size(); i += k) {
                auto c = best;
                bool any = false;
                for (size_t j = i; j < i + k; j++) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = P.modes > 1 ? 1 : 0; i < best.size(); i++) {
            u64 lo = 0;
            while (i < best.size() && lo < best[i]) {
                u64 mid = lo + (best[i] - lo) / 2;
                auto c = best;
                c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid + 1;
            }
        }
    }
    close(fd);
    munmap(sh, sizeof *sh);
    return best;
}

static const char *stname(int s)
{
    static const char *n[] = {"running", "ok", "fail", "discard", "crash", "hang", "internal"};
    return n[s];
}

static void write_replay(const std::string &path, const Property &P, u64 seed, const std::vector<u64> &ch, const Result &r,
                         const std::vector<u64> &orig)
{
    std::ofstream f(path);
    f << "property " << P.id << "\nseed " << seed << "\ntier " << (g_thorough ? "thorough" : "quick") << "\nchoices";
    for (u64 c : ch) f << " " << c;
    f << "\noriginal_choices";
    for (u64 c : orig) f << " " << c;
    f << "\n---\nstatus: " << stname(r.status) << "\nmessage: " << r.msg << "\ncase: " << r.desc << "\n";
}

int engine_main(int argc, char **argv, const std::vector<Property> &props)
{
    std::string id, tier = "quick", evid, replaydir = "/tmp", replay, known;
    u64 seed = 1;
    long ncases = -1;
    int budget = -1, jobs = -1;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto arg = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
        if (a == "--property") id = arg();
        else if (a == "--tier") tier = arg();
        else if (a == "--seed") seed = strtoull(arg().c_str(), 0, 10);
        else if (a == "--evidence") evid = arg();
        else if (a == "--replay-dir") replaydir = arg();
        else if (a == "--replay") replay = arg();
        else if (a == "--cases") ncases = atol(arg().c_str());
        else if (a == "--budget") budget = atoi(arg().c_str());
        else if (a == "--jobs") jobs = atoi(arg().c_str());
        else if (a == "--known") known = arg();
        else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (auto &p : props) printf("%s\n", p.id.c_str()); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    g_thorough = tier == "thorough";
    std::vector<u64> rch;
    std::string rfixed;
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line;
        while (std::getline(f, line) && line != "---") {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "property") is >> id;
            else if (k == "fixed") is >> rfixed;
            else if (k == "choices") { u64 v; while (is >> v) rch.push_back(v); }
            else if (k == "tier") { std::string t; is >> t; g_thorough = t == "thorough"; }
        }
    }
    const Property *pp = nullptr;
    for (auto &p : props) if (p.id == id) pp = &p;
    if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
    Property P = *pp;
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/vprop.XXXXXX";
    g_scratch_root = mkdtemp(tmpl);
    struct Cleaner { ~Cleaner() { std::string c = "rm -rf '" + g_scratch_root + "'"; if (system(c.c_str())) {} } } cleaner;
    if (P.setup) P.setup();
    if (P.init_parent) libgrpp_init();

    if (!replay.empty()) {
        Shared *sh = map_shared();
        int fd = out_file();
        Source s;
        s.replay = true;
        s.in = rch;
        for (auto &fx : P.fixed) if (fx.id == rfixed) P.fn = fx.fn;
        Result r = run_case(P, s, sh, fd, true, g_scratch_root + "/replay");
        printf("replay %s: %s\n%s\ncase: %s\n", P.id.c_str(), stname(r.status), r.msg.c_str(), r.desc.c_str());
        if (is_failure(r)) { printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), replay.c_str()); return 1; }
        return r.status == ST_INTERNAL ? 3 : 0;
    }

    // fixed cases (regressions and recorded findings)
    long fixed_run = 0, fixed_known = 0;
    {
        std::set<std::string> listed;
        std::ifstream kf(known);
        std::string line;
        while (std::getline(kf, line)) {
            std::istringstream is(line);
            std::string w, pr, kid;
            is >> w >> pr >> kid;
            if (w == "known:" && pr == "property=" + P.id && kid.rfind("id=", 0) == 0) listed.insert(kid.substr(3));
        }
        for (auto &fx : P.fixed) {
            Property Q = P;
            Q.fn = fx.fn;
            Shared *sh = map_shared();
            int fd = out_file();
            Source s;
            s.replay = true;
            Result r;
            for (int k = 0; k < 2; k++) { r = run_case(Q, s, sh, fd, false, g_scratch_root + "/fixed"); if (!is_failure(r)) break; }
            fixed_run++;
            close(fd);
            munmap(sh, sizeof *sh);
            if (!is_failure(r)) {
                if (listed.count(fx.id)) printf("note: listed finding %s of %s does not fail any more\n", fx.id.c_str(), P.id.c_str());
                continue;
            }
            if (listed.count(fx.id)) {
                fixed_known++;
                printf("KNOWN-FINDING: property=%s %s: %s\n", P.id.c_str(), fx.what.c_str(), r.msg.substr(0, 300).c_str());
                continue;
            }
            std::string path = replaydir + "/" + P.id + "-fixed-" + fx.id + ".txt";
            std::ofstream f(path);
            f << "property " << P.id << "\nfixed " << fx.id << "\n---\nmessage: " << r.msg << "\ncase: " << r.desc << "\n";
            printf("fixed case %s failed (%s): %s\n%s\n", fx.id.c_str(), stname(r.status), r.msg.c_str(), r.desc.c_str());
            printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), path.c_str());
            if (!evid.empty()) {
                std::ofstream e(evid);
                e << "{\"property\": " << jstr(P.id) << ", \"tier\": " << jstr(tier) << ", \"seed\": " << seed
                  << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << fixed_run
                  << ", \"distinct_nontrivial\": " << fixed_run << ", \"rule\": \"fixed regression cases, run before the generated ones; one failed\", \"samples\": ["
                  << jstr(r.desc) << "]}, \"wall_s\": 0, \"violations\": 1}\n";
            }
            return 1;
        }
    }

    long N = ncases > 0 ? ncases : g_thorough ? P.thorough_cases : P.quick_cases;
    if (budget < 0) budget = g_thorough ? P.thorough_budget_s : P.quick_budget_s;
    int W = jobs > 0 ? jobs : P.jobs;
    double t0 = now(), deadline = t0 + budget;

    std::vector<int> fds(W);
    std::vector<pid_t> pids(W);
    for (int w = 0; w < W; w++) {
        int pfd[2];
        if (pipe(pfd)) { perror("pipe"); return 3; }
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            setpgid(0, 0);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Shared *sh = map_shared();
            int fd = out_file();
            std::string scratch = g_scratch_root + strf("/w%d", w);
            for (long i = w; i < N; i += W) {
                if (now() > deadline) break;
                Source s;
                regenerate(P, seed, i, s);
                Result r = run_case(P, s, sh, fd, false, scratch);
                std::ostringstream o;
                bool keep = is_failure(r) || r.status == ST_INTERNAL || r.worst > 0.5 || (i / W) % std::max<long>(1, N / W / 6) == 0;
                u64 h = 1469598103934665603ull;
                for (u64 c : r.ch) h = (h ^ mix(c)) * 1099511628211ull;
                std::string d = keep ? r.desc : "", m = keep ? r.msg : "";
                o << i << ' ' << r.status << ' ' << r.nontriv << ' ' << r.elementary << ' ' << strf("%.6g %.4f", r.worst, r.secs) << ' ' << h
                  << ' ' << r.labels.size() << ' ' << d.size() << ' ' << m.size() << '\n' << r.labels << d << m;
                std::string body = o.str();
                uint32_t len = body.size();
                send_all(pfd[1], std::string((char *)&len, 4) + body);
            }
            _exit(0);
        }
        close(pfd[1]);
        fds[w] = pfd[0];
        pids[w] = pid;
    }

    long cases = 0, nontriv = 0, discards = 0, elementary = 0, internal = 0;
    double worst = 0, slowest = 0;
    std::set<u64> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::string internal_msg;
    long flaky = 0;
    std::vector<long> failing;
    std::map<long, Result> first_bad;
    std::vector<std::string> buf(W);
    std::vector<bool> open(W, true);
    int nopen = W;
    while (nopen > 0) {
        std::vector<struct pollfd> pf;
        for (int w = 0; w < W; w++) if (open[w]) pf.push_back({fds[w], POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (auto &q : pf) {
            if (!q.revents) continue;
            int w = std::find(fds.begin(), fds.end(), q.fd) - fds.begin();
            char b[65536];
            ssize_t n = read(q.fd, b, sizeof b);
            if (n <= 0) { open[w] = false; nopen--; continue; }
            buf[w].append(b, n);
            for (;;) {
                if (buf[w].size() < 4) break;
                uint32_t len;
                memcpy(&len, buf[w].data(), 4);
                if (buf[w].size() < 4 + (size_t)len) break;
                std::string body = buf[w].substr(4, len);
                buf[w].erase(0, 4 + len);
                size_t nl = body.find('\n');
                std::istringstream is(body.substr(0, nl));
                long i, el;
                int st, nt;
                double wo, sec;
                u64 h;
                size_t a, d, m;
                is >> i >> st >> nt >> el >> wo >> sec >> h >> a >> d >> m;
                std::string lab = body.substr(nl + 1, a), desc = body.substr(nl + 1 + a, d), msg = body.substr(nl + 1 + a + d, m);
                cases++;
                elementary += el;
                slowest = std::max(slowest, sec);
                if (st == ST_DISCARD) discards++;
                if (st == ST_INTERNAL) { internal++; internal_msg = msg; }
                if (verbose && sec > 4) { std::string l = lab; std::replace(l.begin(), l.end(), '\n', ','); fprintf(stderr, "slow case %ld %.2f s: %s\n", i, sec, l.c_str()); }
                if (st == ST_OK) {
                    worst = std::max(worst, wo);
                    if (verbose && wo > 0.05) fprintf(stderr, "case %ld ratio %.3g secs %.2f %s\n", i, wo, sec, desc.c_str());
                    if (nt) { if (distinct.insert(h).second) nontriv++; }
                    std::istringstream ls(lab);
                    std::string l;
                    while (std::getline(ls, l)) labels[l]++;
                    if (nt && !desc.empty() && samples.size() < 8) samples.push_back(desc);
                }
                if (st == ST_FAIL || st == ST_CRASH || st == ST_HANG) {
                    failing.push_back(i);
                    Result &fb = first_bad[i];
                    fb.status = st; fb.msg = msg; fb.desc = desc;
                    if (verbose) fprintf(stderr, "FAIL case %ld (%s): %s | %s\n", i, stname(st), msg.c_str(), desc.c_str());
                    if (!verbose && failing.size() >= 1) deadline = 0;
                }
            }
        }
        if (deadline == 0) break;
    }
    for (int w = 0; w < W; w++) {
        if (!failing.empty() || internal) kill(-pids[w], SIGTERM);
    }
    // children of killed workers die with their own process groups
    for (int w = 0; w < W; w++) {
        if (!failing.empty()) { kill(pids[w], SIGKILL); }
        waitpid(pids[w], nullptr, 0);
        close(fds[w]);
    }
    int rc = 0;
    long violations = 0;
    std::sort(failing.begin(), failing.end());
    for (long idx : failing) {
        Shared *sh = map_shared();
        int fd = out_file();
        Source s;
        regenerate(P, seed, idx, s);
        Source s0 = s;
        Result r;
        int nf = 0;
        Result bad;
        std::string scratch = g_scratch_root + "/confirm";
        for (int k = 0; k < 12 && nf < std::max(1, P.confirm); k++) {
            r = run_case(P, s0, sh, fd, false, scratch);
            if (is_failure(r)) { nf++; bad = r; }
        }
        if (nf == 0 && P.confirm == 0) { bad = r; bad.status = first_bad[idx].status; bad.msg = first_bad[idx].msg + " (seen once, not in 12 replays)"; bad.desc = first_bad[idx].desc; nf = -1; }
        if (nf >= 0 && nf < P.confirm) { flaky++; fprintf(stderr, "case %ld failed once but only %d of its replays failed: not reported\n", idx, nf); continue; }
        std::vector<u64> ch = bad.ch;
        std::vector<u64> orig = ch;
        Result br = bad;
        if (nf > 0) ch = shrink(P, ch, br, g_thorough ? 120 : 60);
        std::string path = replaydir + "/" + P.id + strf("-%016llx.txt", (unsigned long long)hash_str(P.id + br.msg + strf("%ld", idx)));
        write_replay(path, P, seed, ch, br, orig.size() < 4000 ? orig : std::vector<u64>());
        printf("case %ld failed (%s): %s\n%s\n", idx, stname(br.status), br.msg.substr(0, 3000).c_str(), br.desc.substr(0, 4000).c_str());
        printf("VIOLATION property=%s replay=%s\n", P.id.c_str(), path.c_str());
        violations++;
        rc = 1;
        break;
    }
    if (internal && rc == 0) {
        fprintf(stderr, "internal error in %ld cases: %s\n", internal, internal_msg.c_str());
        rc = 3;
    }
    double wall = now() - t0;
    std::string lim;
    if (!evid.empty()) {
        std::ofstream f(evid);
        f << "{\n \"property\": " << jstr(P.id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << cases << ",\n  \"distinct_nontrivial\": " << nontriv
          << ",\n  \"rule\": " << jstr(P.technique_rule) << ",\n  \"fixed_cases\": " << fixed_run << ",\n  \"known_findings_seen\": " << fixed_known << ",\n  \"discarded\": " << discards << ",\n  \"requested_cases\": " << N
          << ",\n  \"elementary_comparisons\": " << elementary << ",\n  \"worst_error_over_tolerance\": " << strf("%.4g", worst)
          << ",\n  \"slowest_case_s\": " << strf("%.3f", slowest) << ",\n  \"unreproduced_failures\": " << flaky << ",\n  \"labels\": {";
        bool firstl = true;
        for (auto &l : labels) { f << (firstl ? "" : ",") << "\n   " << jstr(l.first) << ": " << l.second; firstl = false; }
        f << "\n  },\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jstr(samples[i].substr(0, 1500));
        f << "\n  ]\n },\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s %s: %ld cases (%ld requested), %ld distinct non-trivial, %ld discarded, %ld comparisons, worst error/tolerance %.3g, slowest case %.2f s, %.1f s\n",
           P.id.c_str(), tier.c_str(), cases, N, nontriv, discards, elementary, worst, slowest, wall);
    if (verbose) for (auto &l : labels) printf("   %-40s %ld\n", l.first.c_str(), l.second);
    if (rc == 0 && cases == 0) { fprintf(stderr, "no case completed\n"); rc = 3; }
    return rc;
}
