// Driver of the simulation: choice tapes, fork per run, seeded search, minimisation and replay.
#include "sim.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// Defined by the sanitizer runtime
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_"
           "after_return=0:allow_user_segv_handler=1:symbolize=0";
}

namespace sim {

void leave_sut();
void install_seams();

namespace {

constexpr size_t MAX_DRAWS = 1 << 18;
constexpr size_t MAX_SEGMENTS = 1 << 14;
constexpr size_t MAX_COUNTERS = 128;
constexpr size_t STATE_BITS = 1 << 20;

struct Counter {
    char name[48];
    u64 n;
    u64 runs;
    int kind; // 0 fault, 1 probe
};

struct Shared {
    // result of the last run
    bool done;
    bool violated;
    bool nontrivial;
    char cls[96];
    char msg[1024];
    u64 hash;
    i64 sim_us;
    u32 n_counters;
    Counter counters[MAX_COUNTERS];
    // tape of the last run
    u32 n_draws;
    u32 n_segments;
    u64 draws[MAX_DRAWS];
    u32 seg_start[MAX_SEGMENTS];
    // accumulates over all runs
    unsigned char states[STATE_BITS / 8];
};
Shared* g_sh;

struct Tape {
    std::vector<std::vector<u64>> segs;
};

u64 g_rng[4];
u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 splitmix(u64& x) {
    u64 z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void seed_rng(u64 s) {
    for (auto& r : g_rng)
        r = splitmix(s);
}
u64 next_rng() {
    u64 result = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
    g_rng[2] ^= g_rng[0];
    g_rng[3] ^= g_rng[1];
    g_rng[1] ^= g_rng[2];
    g_rng[0] ^= g_rng[3];
    g_rng[2] ^= t;
    g_rng[3] = rotl(g_rng[3], 45);
    return result;
}

const Tape* g_replay = nullptr; // null: generate
u64 g_seed = 0;
u32 g_max_steps = 50;
u32 g_steps = 0;
size_t g_seg = 0, g_pos = 0;
int g_trace_fd = -1;
const Scenario* g_scenarios = nullptr;
std::string g_property = "C00";
std::vector<std::string> g_only{"*"}; // classes of violations that break the property being decided
i64 g_start_us = 0;

void hash_bytes(const char* s, size_t n) {
    u64 h = g_sh->hash;
    for (size_t i = 0; i < n; ++i) {
        h ^= (unsigned char)s[i];
        h *= 0x100000001B3ull;
    }
    g_sh->hash = h;
}

void count(const char* name, u64 n, int kind) {
    for (u32 i = 0; i < g_sh->n_counters; ++i) {
        if (!strcmp(g_sh->counters[i].name, name)) {
            g_sh->counters[i].n += n;
            return;
        }
    }
    if (g_sh->n_counters == MAX_COUNTERS) return;
    auto& c = g_sh->counters[g_sh->n_counters++];
    snprintf(c.name, sizeof(c.name), "%s", name);
    c.n = n;
    c.kind = kind;
}

void finish() {
    i64 d = now_us() - g_start_us;
    g_sh->sim_us = d > 0 ? d : 0;
    g_sh->done = true;
}

[[noreturn]] void die(const char* cls, const char* msg) {
    g_sh->violated = true;
    snprintf(g_sh->cls, sizeof(g_sh->cls), "%s", cls);
    snprintf(g_sh->msg, sizeof(g_sh->msg), "%s", msg);
    finish();
    if (g_trace_fd >= 0) dprintf(g_trace_fd, "VIOLATED %s: %s\n", cls, msg);
    _exit(0);
}

void on_signal(int sig) {
    if (sig == SIGPROF || sig == SIGALRM) die("hang", "the run did not end in time");
    if (sig == SIGABRT) die("abort", "the program aborted (uncaught exception or failed library assertion)");
    die("crash", sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : "illegal memory access");
}

} // namespace

u64 draw(u64 n) {
    Host host;
    if (n == 0) n = 1;
    u64 v = 0;
    if (g_replay) {
        if (g_seg < g_replay->segs.size() && g_pos < g_replay->segs[g_seg].size()) v = g_replay->segs[g_seg][g_pos++] % n;
    } else {
        v = (u64)(((unsigned __int128)next_rng() * n) >> 64);
    }
    if (g_sh->n_draws >= MAX_DRAWS) die("hang", "the run made too many choices");
    g_sh->draws[g_sh->n_draws++] = v;
    return v;
}
bool chance(u32 permille) {
    if (permille == 0) return false;
    // 0 must be the tame outcome
    return draw(1000) >= 1000 - permille;
}
size_t pick(std::initializer_list<u32> weights) {
    u64 total = 0;
    for (auto w : weights)
        total += w;
    u64 v = draw(total);
    size_t i = 0;
    for (auto w : weights) {
        if (v < w) return i;
        v -= w;
        ++i;
    }
    return 0;
}
void clock_access_begin_step(); // seams.cpp
bool step() {
    Host host;
    clock_access_begin_step();
    if (g_replay ? g_seg + 1 >= g_replay->segs.size() : g_steps >= g_max_steps) return false;
    if (g_sh->n_segments >= MAX_SEGMENTS) return false;
    ++g_steps;
    ++g_seg;
    g_pos = 0;
    g_sh->seg_start[g_sh->n_segments++] = g_sh->n_draws;
    return true;
}
void limit_steps(u32 n) { g_max_steps = n; }
u64 run_seed() { return g_seed; }

void printable(char* s) { // what was logged may be any bytes
    for (; *s; ++s)
        if ((unsigned char)*s < 32 || (unsigned char)*s > 126) *s = '.';
}

void log(const char* fmt, ...) {
    Host host;
    char buf[2048];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    if (n < 0) return;
    n = std::min<int>(n, sizeof(buf) - 1);
    hash_bytes(buf, n);
    hash_bytes("\n", 1);
    printable(buf);
    if (g_trace_fd >= 0) dprintf(g_trace_fd, "[%4u %12.3f ms] %s\n", g_steps, (double)now_us() / 1000.0, buf);
}
void fault(const char* name, u64 n) {
    if (n) count(name, n, 0);
}
void probe(const char* name, u64 n) {
    if (n) count(name, n, 1);
}
void state(u64 h) {
    u64 x = h;
    h = splitmix(x) % STATE_BITS;
    g_sh->states[h / 8] |= 1 << (h % 8);
}
void nontrivial() { g_sh->nontrivial = true; }
void violate(const char* cls, const char* fmt, ...) {
    leave_sut();
    char buf[1024];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    printable(buf);
    die(cls, buf);
}

bool armed_class(const char* cls) {
    for (auto& g : g_only) {
        bool prefix = !g.empty() && g.back() == '*';
        if (prefix ? !strncmp(g.c_str(), cls, g.size() - 1) : g == cls) return true;
    }
    return false;
}
const char* property() { return g_property.c_str(); }

Register::Register(const char* name, void (*run)()) : s{name, run, g_scenarios} { g_scenarios = &s; }

void start_clock(i64 us) {
    set_clock_us(us);
    g_start_us = us;
}

namespace {

void reset_shared() {
    g_sh->done = g_sh->violated = g_sh->nontrivial = false;
    g_sh->cls[0] = g_sh->msg[0] = 0;
    g_sh->hash = 0xcbf29ce484222325ull;
    g_sh->sim_us = 0;
    g_sh->n_counters = 0;
    g_sh->n_draws = 0;
    g_sh->n_segments = 1;
    g_sh->seg_start[0] = 0;
}

void child(const Scenario* sc, u64 seed, const Tape* tape) {
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    itimerval t{};
    t.it_value.tv_sec = 15;
    signal(SIGPROF, on_signal);
    signal(SIGALRM, on_signal);
    signal(SIGABRT, on_signal);
    signal(SIGFPE, on_signal);
    setitimer(ITIMER_PROF, &t, nullptr);
    t.it_value.tv_sec = 120;
    setitimer(ITIMER_REAL, &t, nullptr);
    if (g_trace_fd < 0 && !getenv("SIM_STDERR")) {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) dup2(fd, 2);
    }
    g_seed = seed;
    g_replay = tape;
    seed_rng(seed);
    install_seams();
    sc->run();
    leave_sut();
    finish();
    _exit(0);
}

void run_once(const Scenario* sc, u64 seed, const Tape* tape) {
    reset_shared();
    pid_t pid = fork();
    if (pid == 0) child(sc, seed, tape);
    if (pid < 0) {
        fprintf(stderr, "fork failed\n");
        exit(3);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!g_sh->done) {
        g_sh->violated = true;
        snprintf(g_sh->cls, sizeof(g_sh->cls), "crash");
        snprintf(g_sh->msg, sizeof(g_sh->msg), "the process ended abnormally (%s %d)",
                 WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
}

Tape tape_of_last_run() {
    Tape t;
    for (u32 s = 0; s < g_sh->n_segments; ++s) {
        u32 b = g_sh->seg_start[s], e = s + 1 < g_sh->n_segments ? g_sh->seg_start[s + 1] : g_sh->n_draws;
        t.segs.emplace_back(g_sh->draws + b, g_sh->draws + e);
    }
    return t;
}

struct Shrinker {
    const Scenario* sc;
    u64 seed;
    std::string cls;
    Tape best;
    u64 runs = 0;
    std::chrono::steady_clock::time_point deadline;

    bool out_of_time() const { return std::chrono::steady_clock::now() > deadline || runs > 20000; }
    bool attempt(const Tape& t) {
        if (out_of_time()) return false;
        ++runs;
        run_once(sc, seed, &t);
        if (!g_sh->violated || cls != g_sh->cls) return false;
        Tape actual = tape_of_last_run(); // only what was really drawn
        for (auto& s : actual.segs)
            while (!s.empty() && s.back() == 0)
                s.pop_back();
        best = actual;
        return true;
    }
    static u64 cost(const Tape& t) {
        u64 c = 0;
        for (auto& s : t.segs)
            c += 1 + s.size();
        return c;
    }
    bool delete_steps() {
        bool any = false;
        for (size_t len = std::max<size_t>(1, (best.segs.size() - 1) / 2); len >= 1; len /= 2) {
            for (size_t at = best.segs.size(); at-- > 1;) {
                if (at + len > best.segs.size()) continue;
                Tape t = best;
                t.segs.erase(t.segs.begin() + at, t.segs.begin() + at + len);
                if (attempt(t)) any = true;
                if (at > best.segs.size()) at = best.segs.size();
                if (out_of_time()) return any;
            }
            if (len == 1) break;
        }
        return any;
    }
    bool simplify_draws() {
        bool any = false;
        for (size_t s = 0; s < best.segs.size(); ++s) {
            // cut the tail of a segment
            for (size_t keep = 0; s < best.segs.size() && keep < best.segs[s].size();) {
                Tape t = best;
                t.segs[s].resize(keep);
                if (attempt(t)) {
                    any = true;
                    break;
                }
                size_t left = best.segs[s].size() - keep;
                keep += std::max<size_t>(1, left / 2);
                if (out_of_time()) return any;
            }
            for (size_t i = 0; s < best.segs.size() && i < best.segs[s].size(); ++i) {
                u64 v = best.segs[s][i];
                if (v == 0) continue;
                u64 cand[] = {0, 1, v / 16, v / 4, v / 2, v - v / 4, v - 1};
                u64 tried = v;
                for (u64 c : cand) {
                    if (c >= v || c == tried) continue;
                    tried = c;
                    Tape t = best;
                    t.segs[s][i] = c;
                    if (attempt(t)) {
                        any = true;
                        break;
                    }
                    if (out_of_time()) return any;
                    if (s >= best.segs.size() || i >= best.segs[s].size()) break;
                }
            }
        }
        return any;
    }
    void run() {
        for (int round = 0; round < 12; ++round) {
            u64 before = cost(best);
            bool a = delete_steps();
            bool b = simplify_draws();
            if ((!a && !b) || out_of_time()) break;
            if (cost(best) == before && round > 6) break;
        }
    }
};

const Scenario* find(const std::string& name) {
    for (auto* s = g_scenarios; s; s = s->next)
        if (name == s->name) return s;
    fprintf(stderr, "no scenario %s\n", name.c_str());
    exit(3);
}

std::string json_escape(const char* s) {
    std::string o;
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

} // namespace
} // namespace sim

using namespace sim;

extern "C" void __asan_on_error() {
    char cls[96], msg[256];
    const char* d = __asan_get_report_description ? __asan_get_report_description() : "memory error";
    snprintf(cls, sizeof cls, "memory:%s", d);
    snprintf(msg, sizeof msg, "illegal memory access (%s)", d);
    if (getenv("SIM_STDERR")) return;
    die(cls, msg);
}

static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r;
    std::string cur;
    for (char x : s) {
        if (x == c) {
            r.push_back(cur);
            cur.clear();
        } else
            cur += x;
    }
    r.push_back(cur);
    return r;
}

int main(int argc, char** argv) {
    // same addresses in every process, as far as the kernel allows it
    if (!getenv("SIM_NO_REEXEC")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::string mode = argc > 1 ? argv[1] : "";
    auto arg = [&](const char* name, const char* def) -> std::string {
        for (int i = 2; i + 1 < argc; ++i)
            if (!strcmp(argv[i], name)) return argv[i + 1];
        return def;
    };
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_property = arg("--property", "C00");
    g_only = split(arg("--only", "*"), ',');

    if (mode == "run") {
        // --scenarios a,b,c --seed S --from I --stride K --count N --max-seconds T --only cls,prefix* --out FILE
        std::vector<const Scenario*> scs;
        for (auto& n : split(arg("--scenarios", ""), ','))
            scs.push_back(find(n));
        u64 base = strtoull(arg("--seed", "1").c_str(), 0, 10);
        u64 from = strtoull(arg("--from", "0").c_str(), 0, 10), stride = strtoull(arg("--stride", "1").c_str(), 0, 10);
        u64 count = strtoull(arg("--count", "1000").c_str(), 0, 10);
        double max_s = atof(arg("--max-seconds", "60").c_str());
        double shrink_s = atof(arg("--shrink-seconds", "20").c_str());
        bool all_hashes = arg("--dump", "") != "";
        std::string out = arg("--out", "/dev/stdout");
        FILE* dump = all_hashes ? fopen(arg("--dump", "").c_str(), "w") : nullptr;

        std::vector<Counter> totals;
        std::vector<u64> hashes;
        u64 runs = 0, nontriv = 0, steps = 0;
        double sim_s = 0;
        std::vector<std::pair<std::string, u64>> ignored;
        auto t0 = std::chrono::steady_clock::now();
        auto secs = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        std::string violation;
        double run_secs = 0, slowest = 0;
        u64 slowest_index = 0;
        for (u64 i = from; i < count; i += stride) {
            if (secs() > max_s) break;
            u64 x = base * 0x9E3779B97F4A7C15ull + i;
            u64 seed = splitmix(x) >> 1;
            const Scenario* sc = scs[i % scs.size()];
            double began = secs();
            run_once(sc, seed, nullptr);
            ++runs;
            run_secs = secs();
            if (run_secs - began > slowest) {
                slowest = run_secs - began;
                slowest_index = i;
            }
            steps += g_sh->n_segments - 1;
            sim_s += (double)g_sh->sim_us / 1e6;
            if (dump)
                fprintf(dump, "%llu %s %016llx %d %s\n", (unsigned long long)i, sc->name,
                        (unsigned long long)g_sh->hash, (int)g_sh->violated, g_sh->cls);
            for (u32 c = 0; c < g_sh->n_counters; ++c) {
                auto it = std::find_if(totals.begin(), totals.end(),
                                       [&](auto& t) { return !strcmp(t.name, g_sh->counters[c].name); });
                if (it == totals.end()) {
                    totals.push_back(g_sh->counters[c]);
                    totals.back().runs = 1;
                } else {
                    it->n += g_sh->counters[c].n;
                    it->runs++;
                }
            }
            if (g_sh->violated) {
                if (!armed_class(g_sh->cls)) { // breaks another property than the one being decided
                    auto it = std::find_if(ignored.begin(), ignored.end(), [&](auto& p) { return p.first == g_sh->cls; });
                    if (it == ignored.end()) ignored.push_back({g_sh->cls, 1});
                    else
                        it->second++;
                    continue;
                }
                if (dump) continue;
                Shrinker sh;
                sh.sc = sc;
                sh.seed = seed;
                sh.cls = g_sh->cls;
                sh.best = tape_of_last_run();
                u64 orig_hash = g_sh->hash;
                std::string orig_msg = g_sh->msg;
                u64 orig_steps = sh.best.segs.size() - 1;
                // the same seed must give exactly the same run
                run_once(sc, seed, nullptr);
                bool same = g_sh->violated && sh.cls == g_sh->cls && g_sh->hash == orig_hash;
                if (sh.cls == "hang" && !g_sh->violated) continue; // this machine was busy, that's all
                sh.deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds((i64)(shrink_s * 1000));
                Tape full = sh.best;
                if (same) sh.run();
                run_once(sc, seed, &sh.best);
                if (!g_sh->violated || sh.cls != g_sh->cls) {
                    sh.best = full;
                    run_once(sc, seed, &sh.best);
                }
                char buf[512];
                snprintf(buf, sizeof buf,
                         "{\"index\":%llu,\"seed\":%llu,\"scenario\":\"%s\",\"cls\":\"%s\",\"hash\":\"%016llx\","
                         "\"same_seed_same_run\":%s,\"steps\":%llu,\"min_steps\":%zu,\"shrink_runs\":%llu,",
                         (unsigned long long)i, (unsigned long long)seed, sc->name, json_escape(sh.cls.c_str()).c_str(),
                         (unsigned long long)g_sh->hash, same ? "true" : "false", (unsigned long long)orig_steps,
                         sh.best.segs.size() - 1, (unsigned long long)sh.runs);
                violation = buf;
                violation += "\"msg\":\"" + json_escape(g_sh->msg) + "\",\"orig_msg\":\"" + json_escape(orig_msg.c_str())
                             + "\",\"tape\":[";
                for (size_t s = 0; s < sh.best.segs.size(); ++s) {
                    violation += s ? ",[" : "[";
                    for (size_t k = 0; k < sh.best.segs[s].size(); ++k)
                        violation += (k ? "," : "") + std::to_string(sh.best.segs[s][k]);
                    violation += "]";
                }
                violation += "]}";
                break;
            }
            if (g_sh->nontrivial) {
                ++nontriv;
                hashes.push_back(g_sh->hash);
            }
        }
        if (dump) fclose(dump);
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"sim_s\":%.6f,\"wall_s\":%.3f,\"slowest_s\":%.3f,"
                "\"slowest_index\":%llu,\"counters\":[",
                (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, sim_s, run_secs,
                slowest, (unsigned long long)slowest_index);
        for (size_t c = 0; c < totals.size(); ++c)
            fprintf(f, "%s{\"name\":\"%s\",\"kind\":%d,\"n\":%llu,\"runs\":%llu}", c ? "," : "", totals[c].name,
                    totals[c].kind, (unsigned long long)totals[c].n, (unsigned long long)totals[c].runs);
        fprintf(f, "],\"ignored\":[");
        for (size_t c = 0; c < ignored.size(); ++c)
            fprintf(f, "%s[\"%s\",%llu]", c ? "," : "", json_escape(ignored[c].first.c_str()).c_str(),
                    (unsigned long long)ignored[c].second);
        fprintf(f, "],\"violation\":%s}\n", violation.empty() ? "null" : violation.c_str());
        fclose(f);
        if (out != "/dev/stdout") {
            std::sort(hashes.begin(), hashes.end());
            hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
            FILE* h = fopen((out + ".hashes").c_str(), "wb");
            fwrite(hashes.data(), 8, hashes.size(), h);
            fclose(h);
            h = fopen((out + ".states").c_str(), "wb");
            fwrite(g_sh->states, 1, sizeof(g_sh->states), h);
            fclose(h);
        }
        return 0;
    }
    if (mode == "replay") {
        // --tape FILE (lines "seg v v v") --scenario NAME --trace FILE; prints class, hash, message
        Tape t;
        FILE* f = fopen(arg("--tape", "").c_str(), "r");
        if (!f) return 3;
        char* line = nullptr;
        size_t cap = 0;
        u64 seed = 0;
        while (getline(&line, &cap, f) > 0) {
            if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
            if (strncmp(line, "seg", 3)) continue;
            std::vector<u64> seg;
            char* p = line + 3;
            while (*p) {
                char* e;
                u64 v = strtoull(p, &e, 10);
                if (e == p) break;
                seg.push_back(v);
                p = e;
            }
            t.segs.push_back(seg);
        }
        fclose(f);
        std::string tr = arg("--trace", "");
        if (!tr.empty()) g_trace_fd = open(tr.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        run_once(find(arg("--scenario", "")), seed, t.segs.empty() ? nullptr : &t);
        printf("{\"violated\":%s,\"cls\":\"%s\",\"hash\":\"%016llx\",\"msg\":\"%s\"}\n", g_sh->violated ? "true" : "false",
               json_escape(g_sh->cls).c_str(), (unsigned long long)g_sh->hash, json_escape(g_sh->msg).c_str());
        return 0;
    }
    if (mode == "list") {
        for (auto* s = g_scenarios; s; s = s->next)
            printf("%s\n", s->name);
        return 0;
    }
    fprintf(stderr, "usage: run|replay|list\n");
    return 3;
}
