// Driver: generation, forked execution, shrinking, replay, evidence.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

std::vector<Subject>& subjects() { static std::vector<Subject> v; return v; }
Ctx* g_ctx = nullptr;

const char* cat_name(u32 c)
{
    switch (c)
    {
    case CONTENT: return "CONTENT"; case LIFE: return "LIFE"; case CAP: return "CAP"; case ALLOC: return "ALLOC";
    case REF: return "REF"; case STRONG: return "STRONG"; case ITER: return "ITER"; case CMP: return "CMP";
    case ERRS: return "ERRS"; case CPLX: return "CPLX"; case ALIAS: return "ALIAS"; case RANGE: return "RANGE";
    case COPY: return "COPY"; case ARGS: return "ARGS"; case HET: return "HET"; case HINT: return "HINT";
    case STATE: return "STATE"; case ERASE: return "ERASE"; case VALID: return "VALID"; case CONF: return "CONF";
    case PRECOND: return "PRECOND"; case CRASH: return "CRASH";
    }
    if (!(c & (c - 1))) return "?";
    static char buf[256];
    buf[0] = 0;
    for (int b = 0; b < 31; ++b)
        if (c >> b & 1)
        {
            const std::size_t l = std::strlen(buf);
            std::snprintf(buf + l, sizeof buf - l, "%s%s", l ? "|" : "", cat_name(1u << b));
        }
    return buf[0] ? buf : "?";
}

// ---- shared memory between the parent and its children ----------------------
struct Shared
{
    std::atomic<u64> labels[MAX_LABELS];
    char label_name[MAX_LABELS][48];
    std::atomic<int> nlabels;
    std::atomic<int> lock;
    std::atomic<u64> evaluations, nontrivial, distinct, foreign, fault_points, faults_fired, generated;
    std::atomic<u64> foreign_by_cat[32];
};
static Shared* sh = nullptr;
static std::atomic<u64>* seen = nullptr;      // bitmap of hashes
constexpr u64 SEEN_BITS = 1ull << 28;

// Label ids are shared between processes through the table in Shared.
int label_id(const char* name)
{
    while (sh->lock.exchange(1)) {}
    int n = sh->nlabels.load(), r = -1;
    for (int i = 0; i < n; ++i)
        if (std::strncmp(sh->label_name[i], name, 47) == 0) { r = i; break; }
    if (r < 0 && n < MAX_LABELS)
    {
        std::strncpy(sh->label_name[n], name, 47);
        sh->nlabels = n + 1;
        r = n;
    }
    sh->lock = 0;
    return r;
}

static bool counting = true; // off while shrinking / replaying

void Ctx::label(int id)
{
    if (counting && id >= 0) sh->labels[id].fetch_add(1, std::memory_order_relaxed);
}

struct Slot // per worker result area
{
    volatile u64 idx;          // case being executed
    volatile int fault_row;
    volatile u32 fault_k;
    volatile int failed;
    volatile u32 cat;
    volatile int row;
    char msg[1024];
};
static Slot* cur_slot = nullptr;

void Ctx::fail(u32 cat, const char* fmt, ...)
{
    // Wrong contents and lifetimes are also attributed to the kind of operation they show up in.
    if (cat & (LIFE | CONTENT)) cat |= op_group | (op_cat ? *op_cat : 0u);
    if (fault_seen && !(cat & STRONG)) cat |= VALID;
    if (cur_slot && !cur_slot->failed)
    {
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(cur_slot->msg, sizeof cur_slot->msg, fmt, ap);
        va_end(ap);
        cur_slot->cat = cat;
        cur_slot->row = cur_row;
        cur_slot->failed = 1;
        if (verbose) { std::fprintf(stderr, "%s", trace.c_str()); trace.clear(); std::fflush(stderr); }
    }
    _exit(3);
}

void Ctx::log(const char* fmt, ...)
{
    if (!verbose) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    trace += buf;
}

static volatile sig_atomic_t crash_sig = 0;

static void on_hang(int)
{
    if (cur_slot && !cur_slot->failed)
    {
        std::snprintf(cur_slot->msg, sizeof cur_slot->msg, "case did not finish within 20 s of CPU time (hang)");
        cur_slot->cat = CRASH;
        cur_slot->failed = 1;
    }
    _exit(3);
}

static void arm_hang()
{
    struct itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static u64 hash_str(const std::string& s)
{
    u64 h = 1469598103934665603ull;
    for (char c : s) { h ^= u8(c); h *= 1099511628211ull; }
    return h;
}

static Case generate(u64 seed, u32 max_rows)
{
    Rng r(seed);
    Case c;
    u32 n;
    switch (r.below(4))
    {
    case 0: n = 1 + r.below(std::max<u32>(1, max_rows / 8)); break;
    case 1: n = 1 + r.below(std::max<u32>(1, max_rows / 3)); break;
    default: n = 1 + r.below(max_rows); break;
    }
    c.rows.resize(n + 1);
    for (auto& row : c.rows)
        for (int i = 0; i < CELLS; ++i) row.c[i] = u32(r.next());
    return c;
}

struct Exec { int fault_row = -1; u32 fault_k = 0; };

struct Outcome { bool failed = false; u32 cat = 0; std::string msg; int row = 0; std::string out; };

static Params P;

// Runs one case in this process (a child).
static void run_one(const Subject& s, const Case& c, const Exec& e, Ctx& ctx)
{
    ctx.fault_row = e.fault_row;
    ctx.fault_k = e.fault_k;
    ctx.mask = P.mask;
    ctx.profile = P.profile;
    ctx.max_rows = P.max_rows;
    g_ctx = &ctx;
    arm_hang();
    s.run(c, ctx);
    g_ctx = nullptr;
}

static void child_setup(bool quiet)
{
    signal(SIGVTALRM, on_hang);
    if (quiet)
    {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
#if !defined(PBT_ASAN)
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3ull << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rc);
}

static Outcome outcome_of(int status, Slot* sl)
{
    Outcome o;
    if (sl->failed)
    {
        o.failed = true; o.cat = sl->cat; o.msg = sl->msg; o.row = sl->row;
    }
    else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    {
        o.failed = true; o.cat = CRASH;
        char b[128];
        if (WIFSIGNALED(status)) std::snprintf(b, sizeof b, "process died with signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
        else std::snprintf(b, sizeof b, "process exited with status %d (sanitizer report or abnormal exit)", WEXITSTATUS(status));
        o.msg = b;
    }
    return o;
}

static void* shmap(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(70); }
    return p;
}

static Slot* probe_slot = nullptr;

// Runs a single case in a fresh child and returns its outcome.
static Outcome probe(const Subject& s, const Case& c, const Exec& e, bool verbose)
{
    std::memset((void*)probe_slot, 0, sizeof *probe_slot);
    int pfd[2] = {-1, -1};
    if (verbose && pipe(pfd) != 0) pfd[0] = pfd[1] = -1;
    std::fflush(stdout); std::fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { std::perror("fork"); std::exit(70); }
    if (pid == 0)
    {
        cur_slot = probe_slot;
        counting = false;
        child_setup(!verbose);
        if (verbose) { close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]); }
        Ctx ctx;
        ctx.verbose = verbose;
        run_one(s, c, e, ctx);
        if (verbose) { std::fprintf(stderr, "%s", ctx.trace.c_str()); std::fflush(stderr); }
        _exit(0);
    }
    std::string out;
    if (verbose)
    {
        close(pfd[1]);
        char b[4096]; ssize_t n;
        while ((n = read(pfd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
            if (n > 0 && out.size() < (1u << 20)) out.append(b, size_t(n));
        close(pfd[0]);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o = outcome_of(st, probe_slot);
    o.out = out;
    return o;
}

static bool reported(u32 cat) { return (cat & (CRASH | P.mask)) != 0; }

struct Failure { const Subject* s; Case c; Exec e; Outcome o; };

static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static void shrink(Failure& f)
{
    const double t0 = now();
    int budget = 1500;
    auto still = [&](const Case& c, const Exec& e) -> bool
    {
        if (budget <= 0 || now() - t0 > 25) return false;
        --budget;
        Outcome o = probe(*f.s, c, e, false);
        if (o.failed && reported(o.cat)) { f.o = o; return true; }
        return false;
    };
    // Cut everything after the failing row.
    bool progress = true;
    while (progress && budget > 0 && now() - t0 < 25)
    {
        progress = false;
        // delete chunks of rows
        for (size_t len = f.c.rows.size() / 2; len >= 1; len /= 2)
        {
            for (size_t i = f.c.rows.size(); i > len; )
            {
                i = i > len ? i - len : 1;
                if (i < 1) break;
                if (i + len > f.c.rows.size()) continue;
                Case c = f.c; Exec e = f.e;
                if (e.fault_row >= 0 && e.fault_row >= int(i) && e.fault_row < int(i + len)) continue;
                if (e.fault_row >= int(i + len)) e.fault_row -= int(len);
                c.rows.erase(c.rows.begin() + long(i), c.rows.begin() + long(i + len));
                if (still(c, e)) { f.c = c; f.e = e; progress = true; }
            }
            if (len == 1) break;
        }
        // simplify cells
        for (size_t i = 0; i < f.c.rows.size(); ++i)
            for (int k = (i == 0 ? 0 : 1); k < CELLS; ++k)
            {
                u32 v = f.c.rows[i].c[k];
                if (v == 0) continue;
                const u32 cands[] = {0, 1, 2, 3, v % 8, v % 64, v % 1024, v / 2, v - 1};
                for (u32 nv : cands)
                {
                    if (nv >= v) continue;
                    Case c = f.c; c.rows[i].c[k] = nv;
                    if (still(c, f.e)) { f.c = c; progress = true; break; }
                }
            }
    }
}

static std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch == '\t') r += "\\t";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += char(ch);
    }
    return r;
}

static void write_replay(const std::string& path, const Failure& f)
{
    FILE* fp = std::fopen(path.c_str(), "w");
    if (!fp) return;
    std::fprintf(fp, "# property %s, subject %s, category %s\n", P.property.c_str(), f.s->name.c_str(), cat_name(f.o.cat));
    std::string m = f.o.msg; std::replace(m.begin(), m.end(), '\n', ' ');
    std::fprintf(fp, "# %s\n", m.c_str());
    std::fprintf(fp, "property %s\nsubject %s\nprofile %d\nmask %u\nfault %d %u\n", P.property.c_str(), f.s->name.c_str(), P.profile, P.mask, f.e.fault_row, f.e.fault_k);
    for (auto& r : f.c.rows)
    {
        std::fprintf(fp, "row");
        for (int i = 0; i < CELLS; ++i) std::fprintf(fp, " %u", r.c[i]);
        std::fprintf(fp, "\n");
    }
    std::fprintf(fp, "# ---- trace\n");
    std::string line;
    for (char ch : f.o.out + "\n")
    {
        if (ch == '\n') { std::fprintf(fp, "# %s\n", line.c_str()); line.clear(); }
        else line += ch;
    }
    std::fclose(fp);
}

static int do_replay(const char* path)
{
    FILE* fp = std::fopen(path, "r");
    if (!fp) { std::perror(path); return 70; }
    char line[4096];
    Failure f; f.s = nullptr;
    std::string subj;
    while (std::fgets(line, sizeof line, fp))
    {
        if (line[0] == '#') continue;
        char w[512]; int fr; unsigned fk, mk; int pr;
        if (std::sscanf(line, "property %511s", w) == 1) P.property = w;
        else if (std::strncmp(line, "subject ", 8) == 0) { subj = line + 8; while (!subj.empty() && (subj.back() == '\n' || subj.back() == '\r')) subj.pop_back(); }
        else if (std::sscanf(line, "profile %d", &pr) == 1) P.profile = pr;
        else if (std::sscanf(line, "mask %u", &mk) == 1) P.mask = mk;
        else if (std::sscanf(line, "fault %d %u", &fr, &fk) == 2) { f.e.fault_row = fr; f.e.fault_k = fk; }
        else if (std::strncmp(line, "row", 3) == 0)
        {
            Row r; std::memset(&r, 0, sizeof r);
            char* p = line + 3;
            for (int i = 0; i < CELLS; ++i) r.c[i] = u32(std::strtoul(p, &p, 10));
            f.c.rows.push_back(r);
        }
    }
    std::fclose(fp);
    for (auto& s : subjects()) if (s.name == subj) f.s = &s;
    if (!f.s) { std::fprintf(stderr, "no subject %s in this binary\n", subj.c_str()); return 70; }
    Outcome o = probe(*f.s, f.c, f.e, true);
    std::printf("%s", o.out.c_str());
    if (o.failed)
    {
        std::printf("REPLAY %s: %s: %s\n", f.s->name.c_str(), cat_name(o.cat), o.msg.c_str());
        if (reported(o.cat)) { std::printf("VIOLATION property=%s replay=%s\n", P.property.c_str(), path); return 1; }
        return 0;
    }
    std::printf("REPLAY %s: holds\n", f.s->name.c_str());
    return 0;
}

static void note_result(const Ctx& ctx)
{
    sh->evaluations.fetch_add(1, std::memory_order_relaxed);
    if (ctx.nontrivial)
    {
        sh->nontrivial.fetch_add(1, std::memory_order_relaxed);
        u64 h = ctx.hash; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        u64 bit = h % SEEN_BITS;
        u64 m = 1ull << (bit % 64);
        if (!(seen[bit / 64].fetch_or(m, std::memory_order_relaxed) & m)) sh->distinct.fetch_add(1, std::memory_order_relaxed);
    }
}

// Case idx of a subject, with all its fault points if enabled.
static void run_case(const Subject& s, u64 base, u64 idx, Slot* sl)
{
    Case c = generate(base + idx * 0x9E3779B97F4A7C15ull, P.max_rows);
    sl->idx = idx;
    if (!P.faults)
    {
        sl->fault_row = -1; sl->fault_k = 0;
        Ctx ctx;
        run_one(s, c, Exec{}, ctx);
        note_result(ctx);
        return;
    }
    Rng r(base ^ (idx * 77777 + 5));
    const int n = int(c.rows.size());
    if (n < 2) return;
    const int targets = 2;
    for (int t = 0; t < targets; ++t)
    {
        int row = t == 0 ? n - 1 : 1 + int(r.below(u32(n - 1)));
        for (u32 k = 1; k <= P.fault_cap; ++k)
        {
            sl->fault_row = row; sl->fault_k = k;
            Ctx ctx;
            Exec e; e.fault_row = row; e.fault_k = k;
            run_one(s, c, e, ctx);
            ctx.mix((u64(u32(row)) << 32) | k);
            if (!ctx.fault_fired) ctx.nontrivial = false;
            note_result(ctx);
            sh->fault_points.fetch_add(1, std::memory_order_relaxed);
            if (!ctx.fault_fired) break;
            sh->faults_fired.fetch_add(1, std::memory_order_relaxed);
        }
    }
}

struct Unit { const Subject* s; u64 from, to; };

static int do_check(const char* replay_dir, const char* evidence)
{
    const double t0 = now();
    std::vector<Unit> units;
    std::vector<const Subject*> subs;
    for (auto& s : subjects()) subs.push_back(&s);
    std::sort(subs.begin(), subs.end(), [](const Subject* a, const Subject* b) { return a->name < b->name; });
    const u64 chunk = std::max<u64>(1, std::min<u64>(P.cases_per_subject, 500));
    // Containers with more delicate code get more cases.
    auto weight = [](const Subject& s) -> u64 { return s.fam & F_ASSOC ? 1 : s.fam & (F_DEV | F_SEGDEV) ? 3 : 2; };
    for (u64 from = 0; from < 3 * P.cases_per_subject; from += chunk)
        for (auto* s : subs)
            if (from < weight(*s) * P.cases_per_subject) units.push_back(Unit{s, from, std::min(from + chunk, weight(*s) * P.cases_per_subject)});

    long nproc = sysconf(_SC_NPROCESSORS_ONLN);
    if (nproc < 1) nproc = 1;
    if (nproc > 16) nproc = 16;
    if (const char* j = std::getenv("VERIF_JOBS")) nproc = std::max(1, std::atoi(j));

    Slot* slots = (Slot*)shmap(sizeof(Slot) * size_t(nproc));
    struct Running { pid_t pid = 0; size_t unit = 0; u64 next = 0; };
    std::vector<Running> run((size_t)nproc);
    size_t next_unit = 0;
    std::vector<Failure> fails;
    std::map<std::string, int> foreign_per_subject;
    std::string foreign_note;
    bool stop = false;
    int flaky = 0;
    std::string flaky_note;
    bool timed_out = false;

    auto base_of = [&](const Subject& s) { return hash_str(P.property + "/" + s.name) ^ (P.seed * 0xD1342543DE82EF95ull); };

    auto start = [&](size_t w, size_t ui, u64 from)
    {
        Slot* sl = &slots[w];
        std::memset((void*)sl, 0, sizeof *sl);
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) { std::perror("fork"); std::exit(70); }
        if (pid == 0)
        {
            cur_slot = sl;
            child_setup(true);
            const Unit& u = units[ui];
            u64 base = base_of(*u.s);
            for (u64 i = from; i < u.to; ++i) run_case(*u.s, base, i, sl);
            _exit(0);
        }
        run[w].pid = pid; run[w].unit = ui; run[w].next = from;
    };

    size_t active = 0;
    for (size_t w = 0; w < size_t(nproc) && next_unit < units.size(); ++w) { start(w, next_unit, units[next_unit].from); ++next_unit; ++active; }
    while (active)
    {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        size_t w = 0;
        for (; w < run.size(); ++w) if (run[w].pid == p) break;
        if (w == run.size()) continue;
        run[w].pid = 0; --active;
        Outcome o = outcome_of(st, &slots[w]);
        const Unit u = units[run[w].unit];
        bool restarted = false;
        if (o.failed && !stop)
        {
            const u64 idx = slots[w].idx;
            if (reported(o.cat))
            {
                Failure f; f.s = u.s; f.o = o;
                f.c = generate(base_of(*u.s) + idx * 0x9E3779B97F4A7C15ull, P.max_rows);
                f.e.fault_row = slots[w].fault_row; f.e.fault_k = slots[w].fault_k;
                if (!P.faults) f.e.fault_row = -1;
                int rep = 0;
                for (int i = 0; i < 3; ++i) { Outcome q = probe(*f.s, f.c, f.e, false); if (q.failed && reported(q.cat)) ++rep; }
                if (rep == 3) { fails.push_back(f); stop = true; }
                else
                {
                    // Not reproducible from the case alone (it may depend on what earlier cases left in
                    // memory): not reported, the search goes on.
                    flaky_note += u.s->name + ": " + o.msg + "; ";
                    if (idx + 1 < u.to && ++flaky < 200) { start(w, run[w].unit, idx + 1); ++active; restarted = true; }
                }
            }
            else
            {
                sh->foreign.fetch_add(1);
                for (int b = 0; b < 32; ++b) if (o.cat >> b & 1) sh->foreign_by_cat[b].fetch_add(1);
                if (foreign_note.size() < 4000) foreign_note += u.s->name + ": " + cat_name(o.cat) + ": " + o.msg + "\n";
                if (++foreign_per_subject[u.s->name] < 60 && idx + 1 < u.to) { start(w, run[w].unit, idx + 1); ++active; restarted = true; }
            }
        }
        if (now() - t0 > P.wall_limit) { timed_out = true; stop = true; }
        if (stop)
        {
            // let the others finish their current case quickly
            for (auto& r : run) if (r.pid) kill(r.pid, SIGKILL);
        }
        else if (!restarted && next_unit < units.size())
        {
            size_t ui = next_unit++;
            if (foreign_per_subject[units[ui].s->name] < 60 || true) { start(w, ui, units[ui].from); ++active; }
        }
    }

    sh->lock = 0; // a child killed above may have held it
    if (flaky) std::printf("NOTE: %d failures did not reproduce from their case alone and are not reported: %.500s\n", flaky, flaky_note.c_str());

    // Samples: a few cases of this run, written out.
    std::vector<std::string> samples;
    for (size_t i = 0; i < subs.size() && samples.size() < 4; i += std::max<size_t>(1, subs.size() / 4))
    {
        Case c = generate(base_of(*subs[i]) + 3 * 0x9E3779B97F4A7C15ull, P.max_rows);
        Exec e;
        if (P.faults) { e.fault_row = int(c.rows.size()) - 1; e.fault_k = 1; }
        Outcome o = probe(*subs[i], c, e, true);
        std::string t = subs[i]->name + ": " + o.out;
        if (t.size() > 1500) t = t.substr(0, 1500) + " ...";
        samples.push_back(t);
    }

    int violations = 0;
    std::string vio_path, vio_msg;
    for (auto& f : fails)
    {
        Failure orig = f;
        shrink(f);
        int ok = 0;
        Outcome last;
        for (int i = 0; i < 3; ++i) { Outcome o = probe(*f.s, f.c, f.e, true); if (o.failed && reported(o.cat)) { ++ok; last = o; } }
        if (ok < 3)
        {
            f = orig; ok = 0;
            int tries = 0;
            for (; tries < 10 && ok < 3; ++tries) { Outcome o = probe(*f.s, f.c, f.e, true); if (o.failed && reported(o.cat)) { ++ok; last = o; } }
            if (ok < 3)
            {
                // The failure may need the state of earlier cases of its unit (address reuse); it is
                // not reproducible on its own, so it is not reported.
                std::printf("NOTE: failure of %s did not reproduce from its case (%s); not reported\n", f.s->name.c_str(), f.o.msg.c_str());
                continue;
            }
        }
        f.o = last;
        ++violations;
        mkdir(replay_dir, 0777);
        vio_path = std::string(replay_dir) + "/" + P.property + ".replay";
        write_replay(vio_path, f);
        vio_msg = f.s->name + ": " + cat_name(f.o.cat) + ": " + f.o.msg;
        std::printf("%s\nFAILED %s\n", f.o.out.c_str(), vio_msg.c_str());
        std::printf("VIOLATION property=%s replay=%s\n", P.property.c_str(), vio_path.c_str());
    }

    const double wall = now() - t0;
    FILE* fp = std::fopen(evidence, "w");
    if (fp)
    {
        std::fprintf(fp, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", P.property.c_str(), P.tier.c_str(), (unsigned long long)P.seed, P.level.c_str());
        std::fprintf(fp, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)sh->evaluations.load(), (unsigned long long)sh->distinct.load());
        std::fprintf(fp, "  \"rule\": \"%s\",\n", json_escape(P.rule).c_str());
        std::fprintf(fp, "  \"nontrivial\": %llu,\n", (unsigned long long)sh->nontrivial.load());
        if (P.faults) std::fprintf(fp, "  \"fault_points_executed\": %llu,\n  \"faults_fired\": %llu,\n", (unsigned long long)sh->fault_points.load(), (unsigned long long)sh->faults_fired.load());
        std::fprintf(fp, "  \"out_of_scope_failures\": %llu,\n", (unsigned long long)sh->foreign.load());
        if (!foreign_note.empty()) std::fprintf(fp, "  \"out_of_scope_notes\": \"%s\",\n", json_escape(foreign_note).c_str());
        std::fprintf(fp, "  \"stopped_by_wall_limit\": %s,\n", timed_out ? "true" : "false");
        std::fprintf(fp, "  \"subjects\": [");
        for (size_t i = 0; i < subs.size(); ++i) std::fprintf(fp, "%s\"%s\"", i ? ", " : "", json_escape(subs[i]->name).c_str());
        std::fprintf(fp, "],\n  \"labels\": {");
        std::vector<std::pair<std::string, u64>> lab;
        for (int i = 0; i < sh->nlabels.load(); ++i) lab.push_back({sh->label_name[i], sh->labels[i].load()});
        std::sort(lab.begin(), lab.end());
        for (size_t i = 0; i < lab.size(); ++i) std::fprintf(fp, "%s\"%s\": %llu", i ? ", " : "", json_escape(lab[i].first).c_str(), (unsigned long long)lab[i].second);
        std::fprintf(fp, "},\n  \"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) std::fprintf(fp, "%s\n   \"%s\"", i ? "," : "", json_escape(samples[i]).c_str());
        std::fprintf(fp, "\n  ]\n },\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
        std::fclose(fp);
    }
    std::printf("%s: %zu subjects, %llu executions, %llu distinct non-trivial, %llu out-of-scope, %.1f s%s\n", P.property.c_str(), subs.size(),
        (unsigned long long)sh->evaluations.load(), (unsigned long long)sh->distinct.load(), (unsigned long long)sh->foreign.load(), wall, timed_out ? " (wall limit)" : "");
    if (!foreign_note.empty()) std::printf("out of scope of %s:\n%s", P.property.c_str(), foreign_note.c_str());
    return violations ? 1 : 0;
}

} // namespace pbt

int main(int argc, char** argv)
{
    using namespace pbt;
    sh = (Shared*)shmap(sizeof(Shared));
    seen = (std::atomic<u64>*)shmap(SEEN_BITS / 8);
    probe_slot = (Slot*)shmap(sizeof(Slot));
    std::string replay_dir = "/tmp/replays", evidence = "/dev/null", replay, only;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") P.property = val();
        else if (a == "--tier") P.tier = val();
        else if (a == "--seed") P.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--mask") P.mask = u32(std::strtoul(val().c_str(), nullptr, 0));
        else if (a == "--profile") P.profile = std::atoi(val().c_str());
        else if (a == "--cases") P.cases_per_subject = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--rows") P.max_rows = u32(std::atoi(val().c_str()));
        else if (a == "--faults") P.faults = true;
        else if (a == "--fault-cap") P.fault_cap = u32(std::atoi(val().c_str()));
        else if (a == "--rule") P.rule = val();
        else if (a == "--level") P.level = val();
        else if (a == "--wall") P.wall_limit = std::atof(val().c_str());
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay") replay = val();
        else if (a == "--only") only = val();
        else if (a == "--list") { for (auto& s : subjects()) std::printf("%s\n", s.name.c_str()); return 0; }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 70; }
    }
    if (!only.empty())
    {
        auto& v = subjects();
        bool exact = false;
        for (auto& s : v) exact = exact || s.name == only;
        v.erase(std::remove_if(v.begin(), v.end(), [&](const Subject& s) { return exact ? s.name != only : s.name.find(only) == std::string::npos; }), v.end());
    }
    if (!replay.empty()) return do_replay(replay.c_str());
    return do_check(replay_dir.c_str(), evidence.c_str());
}
