// Driver: search / one / min / replay. See DESIGN.md.
#include "sim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <stdlib.h>
#include <algorithm>

using namespace sim;

#ifndef SIM_CHUNK
#define SIM_CHUNK 128
#endif

extern "C" const char *__asan_default_options() { return "exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:allow_user_segv_handler=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0"; }

void Guarded::init(size_t n) {
    pages = n;
    char *m = (char*)mmap(nullptr, (n + 2) << 12, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(m == MAP_FAILED || mprotect(m + 4096, n << 12, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(90); }
    base = m + 4096;
}

static Shared *sh;
static int hang_ms = 5000;

static uint64_t mix(uint64_t a, uint64_t b) { Rng r{a * 0x9e3779b97f4a7c15ull ^ (b + 0x1234567ull)}; r.next(); return r.next() ^ r.next() << 1; }

static void on_vtalrm(int) { _exit(78); }

__attribute__((noinline)) static void scrub_stack() { volatile char buf[96 * 1024]; for(size_t i = 0; i < sizeof buf; i += 1) buf[i] = (char)0xa5; }

static void arm(int ms) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    alarm(ms ? 150 : 0);
}

// executes one run in this process
static void run_one(uint64_t seed, const uint32_t *tape, size_t ntape, bool stats, std::string *text, bool verbose) {
    sh->cur_seed = seed; sh->hash = 1469598103934665603ull; sh->steps = 0; sh->ntape = 0;
    sh->violated = 0; sh->finished = 0; sh->started = 1; sh->cls[0] = 0; sh->msg[0] = 0;
    Ctx cx; cx.sh = sh; cx.rng.s = seed; cx.stats = stats; cx.text = text; cx.verbose = verbose;
    if(tape) { cx.replaying = true; cx.rtape = tape; cx.rlen = ntape; }
    scrub_stack();
    try { sim_run(cx); }
    catch(Abort const&) {}
    catch(std::exception const& e) { cx.note_fail("unexpected-exception", e.what()); }
    catch(...) { cx.note_fail("unexpected-exception", "unknown exception type escaped"); }
    sh->finished = 1;
    if(stats) {
        ++sh->runs; sh->total_steps += sh->steps; sh->total_draws += sh->ntape;
        if(cx.nontrivial) { ++sh->nontrivial_runs; if(sh->nsig < kMaxSig) sh->sig[sh->nsig++] = cx.sigh ^ sh->hash; }
    }
}

static std::string status_class(int st) {
    if(WIFSIGNALED(st)) { int s = WTERMSIG(st); return std::string("crash-") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGTRAP ? "SIGTRAP" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGALRM ? "hang" : std::to_string(s)); }
    int c = WEXITSTATUS(st);
    if(c == 77) return "asan";
    if(c == 78) return "hang";
    if(c == 79) return "no-progress";
    return "exit-" + std::to_string(c);
}

static void quiet() { int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }

static void child_init() {
    signal(SIGVTALRM, on_vtalrm);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    sim_init();
}

// run in a fresh child; result in *sh. prelude = seeds executed before, same process
static std::string run_child(std::vector<uint64_t> const& prelude, uint64_t seed, const uint32_t *tape, size_t n, bool be_quiet, bool verbose) {
    fflush(stdout);
    std::vector<uint32_t> copy; if(tape) copy.assign(tape, tape + n);
    pid_t p = fork();
    if(p == 0) {
        if(be_quiet) quiet();
        child_init();
        for(uint64_t s : prelude) { arm(hang_ms); run_one(s, nullptr, 0, false, nullptr, false); }
        std::string txt;
        arm(hang_ms);
        run_one(seed, tape ? copy.data() : nullptr, copy.size(), false, verbose ? &txt : nullptr, verbose);
        fflush(stdout);
        _exit(0);
    }
    int st = 0; while(waitpid(p, &st, 0) < 0) {}
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return sh->violated ? sh->cls : "";
    std::string c = status_class(st);
    snprintf(sh->cls, sizeof sh->cls, "%s", c.c_str());
    if(!sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "process ended by %s during the run", c.c_str());
    return c;
}

static void jstr(FILE *f, const char *s) { fputc('"', f); for(; *s; ++s) { unsigned char c = (unsigned char)*s; if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

struct Replay { std::string flavour, cls, msg; uint64_t hash = 0, seed = 0; std::vector<uint64_t> prelude; std::vector<uint32_t> tape; };

static bool load(const char *path, Replay &r) {
    FILE *f = fopen(path, "r"); if(!f) return false;
    char key[64];
    while(fscanf(f, "%63s", key) == 1) {
        std::string k = key;
        if(k[0] == '#') { int c; while((c = fgetc(f)) != '\n' && c != EOF) {} continue; }
        if(k == "seed") { unsigned long long v; if(fscanf(f, "%llu", &v) == 1) r.seed = v; }
        else if(k == "hash") { unsigned long long v; if(fscanf(f, "%llx", &v) == 1) r.hash = v; }
        else if(k == "class") { char b[80]; if(fscanf(f, "%79s", b) == 1) r.cls = b; }
        else if(k == "prelude") { size_t n; if(fscanf(f, "%zu", &n) == 1) for(size_t i = 0; i < n; ++i) { unsigned long long v; if(fscanf(f, "%llu", &v) == 1) r.prelude.push_back(v); } }
        else if(k == "tape") { size_t n; if(fscanf(f, "%zu", &n) == 1) for(size_t i = 0; i < n; ++i) { unsigned v; if(fscanf(f, "%u", &v) == 1) r.tape.push_back(v); } }
        else { int c; while((c = fgetc(f)) != '\n' && c != EOF) {} }
    }
    fclose(f); return true;
}

static void save(const char *path, Replay const& r) {
    FILE *f = fopen(path, "w"); if(!f) { perror(path); exit(2); }
    fprintf(f, "# replay file: seed, violation class, history hash, choice tape (0 = no fault / first option)\n");
    fprintf(f, "seed %llu\nclass %s\nhash %llx\nprelude %zu", (unsigned long long)r.seed, r.cls.c_str(), (unsigned long long)r.hash, r.prelude.size());
    for(uint64_t s : r.prelude) fprintf(f, " %llu", (unsigned long long)s);
    fprintf(f, "\ntape %zu", r.tape.size());
    for(uint32_t t : r.tape) fprintf(f, " %u", t);
    fprintf(f, "\n# message: ");
    for(char c : r.msg) fputc(c == '\n' ? ' ' : c, f);
    fputc('\n', f);
    fclose(f);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const char *opt(int argc, char **argv, const char *name, const char *def) { for(int i = 2; i + 1 < argc; ++i) if(!strcmp(argv[i], name)) return argv[i + 1]; return def; }

static int do_search(int argc, char **argv) {
    uint64_t base = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    uint64_t w = strtoull(opt(argc, argv, "--worker", "0"), 0, 10), W = strtoull(opt(argc, argv, "--workers", "1"), 0, 10);
    uint64_t runs = strtoull(opt(argc, argv, "--runs", "1000"), 0, 10);
    double secs = atof(opt(argc, argv, "--secs", "60"));
    const char *out = opt(argc, argv, "--out", "/dev/stdout");
    const char *sigf = opt(argc, argv, "--sigs", "");
    const char *stopf = opt(argc, argv, "--stop", "");
    double t0 = now();
    uint64_t i = 0; bool bad = false; std::vector<uint64_t> prelude;
    while(i < runs && !bad && now() - t0 < secs && !(stopf[0] && access(stopf, F_OK) == 0)) {
        uint64_t a = i, b = std::min<uint64_t>(runs, i + SIM_CHUNK);
        pid_t p = fork();
        if(p == 0) {
            quiet(); child_init();
            for(uint64_t k = a; k < b; ++k) {
                sh->cur_idx = k;
                uint64_t seed = mix(base, k * W + w);
                arm(hang_ms);
                run_one(seed, nullptr, 0, true, nullptr, false);
                if(sh->violated) _exit(70);
                if(SIM_CHUNK > 1 && k % 97 == 0) {
                    uint64_t h = sh->hash; ++sh->rechecks;
                    run_one(seed, nullptr, 0, false, nullptr, false);
                    if(sh->hash != h) { snprintf(sh->nondet, sizeof sh->nondet, "seed %llu", (unsigned long long)seed); }
                }
            }
            _exit(0);
        }
        int st = 0; while(waitpid(p, &st, 0) < 0) {}
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            if(SIM_CHUNK == 1 && a % 97 == 0) { uint64_t h = sh->hash; ++sh->rechecks; run_child({}, mix(base, a * W + w), nullptr, 0, true, false); if(sh->hash != h) snprintf(sh->nondet, sizeof sh->nondet, "seed %llu", (unsigned long long)mix(base, a * W + w)); }
            i = b; continue;
        }
        bad = true;
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 70)) { std::string c = status_class(st); snprintf(sh->cls, sizeof sh->cls, "%s", c.c_str()); if(!sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "process ended by %s during the run", c.c_str()); }
        for(uint64_t k = a; k < sh->cur_idx; ++k) prelude.push_back(mix(base, k * W + w));
    }
    FILE *f = fopen(out, "w"); if(!f) return 2;
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"draws\":%llu,\"faults\":%llu,\"rechecks\":%llu,\"wall\":%.3f,\"nondet\":", (unsigned long long)sh->runs, (unsigned long long)sh->nontrivial_runs, (unsigned long long)sh->total_steps, (unsigned long long)sh->total_draws, (unsigned long long)sh->nfaults, (unsigned long long)sh->rechecks, now() - t0);
    jstr(f, sh->nondet);
    fprintf(f, ",\"counters\":[");
    for(uint32_t k = 0; k < sh->ncnt; ++k) { fprintf(f, "%s[\"%c\",", k ? "," : "", sh->cnt[k].kind); jstr(f, sh->cnt[k].name); fprintf(f, ",%llu]", (unsigned long long)sh->cnt[k].n); }
    fprintf(f, "]");
    if(bad) {
        fprintf(f, ",\"violation\":{\"seed\":%llu,\"class\":", (unsigned long long)sh->cur_seed); jstr(f, sh->cls);
        fprintf(f, ",\"msg\":"); jstr(f, sh->msg);
        fprintf(f, ",\"hash\":\"%llx\",\"prelude\":[", (unsigned long long)sh->hash);
        for(size_t k = 0; k < prelude.size(); ++k) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)prelude[k]);
        fprintf(f, "]}");
    }
    fprintf(f, "}\n"); fclose(f);
    if(sigf[0]) { FILE *g = fopen(sigf, "wb"); if(g) { fwrite(sh->sig, 8, sh->nsig, g); fclose(g); } }
    return bad ? 1 : 0;
}

// minimise: keep the violation class, drop/zero/lower tape entries
static int do_min(int argc, char **argv) {
    Replay r; const char *in = opt(argc, argv, "--in", ""), *out = opt(argc, argv, "--out", "");
    double secs = atof(opt(argc, argv, "--secs", "45"));
    if(!load(in, r)) return 2;
    double t0 = now(); size_t tried = 0;
    if(r.cls == "hang" || r.cls == "crash-hang") hang_ms = 1000;
    auto same = [&](std::vector<uint64_t> const& pre, std::vector<uint32_t> const& t) { ++tried; return run_child(pre, r.seed, t.data(), t.size(), true, false) == r.cls; };
    // obtain the tape from the seed
    std::vector<uint32_t> tape; std::vector<uint64_t> pre;
    {
        std::string c = run_child({}, r.seed, nullptr, 0, true, false);
        if(c != r.cls) { pre = r.prelude; c = run_child(pre, r.seed, nullptr, 0, true, false); }
        if(c != r.cls) { fprintf(stderr, "min: class '%s' does not recur (got '%s')\n", r.cls.c_str(), c.c_str()); return 3; }
        uint64_t h = sh->hash; std::string c2 = run_child(pre, r.seed, nullptr, 0, true, false);
        if(c2 != c || sh->hash != h) { fprintf(stderr, "min: same seed, different history\n"); return 3; }
        tape.assign(sh->tape, sh->tape + sh->ntape);
        if(!same(pre, tape)) { fprintf(stderr, "min: tape does not reproduce\n"); return 3; }
    }
    auto left = [&] { return now() - t0 < secs; };
    // prelude first
    for(size_t k = pre.size(); k > 0 && left();) { size_t h = (k + 1) / 2; bool any = false;
        for(size_t a = 0; a < pre.size() && left();) { std::vector<uint64_t> c(pre); c.erase(c.begin() + a, c.begin() + std::min(pre.size(), a + h)); if(same(c, tape)) { pre = c; any = true; } else a += h; }
        if(h == 1 && !any) break; k = h == 1 ? 1 : h; if(h == 1 && any) continue; if(h == 1) break; }
    bool progress = true;
    while(progress && left()) {
        progress = false;
        // truncate
        for(size_t n = tape.size(); n > 0 && left();) { size_t cut = std::max<size_t>(1, n / 2); bool ok = false; while(cut >= 1 && left()) { std::vector<uint32_t> c(tape.begin(), tape.end() - cut); if(same(pre, c)) { tape = c; ok = true; progress = true; break; } cut /= 2; } if(!ok) break; n = tape.size(); }
        // delete chunks
        for(size_t sz = std::max<size_t>(1, tape.size() / 2); sz >= 1 && left(); sz /= 2) {
            for(size_t a = 0; a < tape.size() && left();) { if(a + sz > tape.size()) break; std::vector<uint32_t> c(tape); c.erase(c.begin() + a, c.begin() + a + sz); if(same(pre, c)) { tape = c; progress = true; } else a += sz; }
            if(sz == 1) break;
        }
        // zero chunks
        for(size_t sz = std::max<size_t>(1, tape.size() / 2); sz >= 1 && left(); sz /= 2) {
            for(size_t a = 0; a + sz <= tape.size() && left(); a += sz) { bool nz = false; for(size_t k = a; k < a + sz; ++k) nz |= tape[k] != 0; if(!nz) continue; std::vector<uint32_t> c(tape); std::fill(c.begin() + a, c.begin() + a + sz, 0u); if(same(pre, c)) { tape = c; progress = true; } }
            if(sz == 1) break;
        }
        // lower values
        for(size_t a = 0; a < tape.size() && left(); ++a) {
            uint32_t lo = 0; // binary search towards the lowest value that still fails
            while(tape[a] > lo && left()) { uint32_t m = lo + (tape[a] - lo) / 2; std::vector<uint32_t> c(tape); c[a] = m; if(same(pre, c)) { tape = c; progress = true; } else lo = m + 1; }
        }
    }
    while(!tape.empty() && tape.back() == 0) { std::vector<uint32_t> c(tape); c.pop_back(); if(!same(pre, c)) break; tape = c; }
    std::string c = run_child(pre, r.seed, tape.data(), tape.size(), true, false);
    if(c != r.cls) return 3;
    r.hash = sh->hash; r.tape = tape; r.prelude = pre; r.msg = sh->msg;
    save(out, r);
    printf("{\"tried\":%zu,\"len\":%zu,\"prelude\":%zu,\"msg\":", tried, tape.size(), pre.size()); jstr(stdout, sh->msg); printf("}\n");
    return 0;
}

static int do_replay(int argc, char **argv, bool verbose) {
    Replay r; if(!load(opt(argc, argv, "--in", ""), r)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    std::string c = run_child(r.prelude, r.seed, r.tape.data(), r.tape.size(), !verbose, verbose);
    if(c.empty()) { printf("REPLAY: no violation\n"); return 0; }
    printf("REPLAY: class=%s hash=%llx message=%s\n", c.c_str(), (unsigned long long)sh->hash, sh->msg);
    if(c != r.cls || sh->hash != r.hash) { printf("REPLAY: differs from the recorded class=%s hash=%llx\n", r.cls.c_str(), (unsigned long long)r.hash); return 3; }
    return 1;
}

static int do_one(int argc, char **argv) {
    uint64_t seed = strtoull(opt(argc, argv, "--runseed", "1"), 0, 10);
    std::string c = run_child({}, seed, nullptr, 0, false, true);
    printf("ONE: class=%s hash=%llx tape=%u message=%s\n", c.c_str(), (unsigned long long)sh->hash, sh->ntape, sh->msg);
    return c.empty() ? 0 : 1;
}

int main(int argc, char **argv) {
    if(!getenv("SIM_NOASLR")) { // fixed address layout, so that a process is a repeatable object
        setenv("SIM_NOASLR", "1", 1);
        if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(sh == MAP_FAILED) return 2;
    memset(sh, 0, offsetof(Shared, tape));
    std::string m = argc > 1 ? argv[1] : "";
    if(m == "search") return do_search(argc, argv);
    if(m == "min") return do_min(argc, argv);
    if(m == "replay") return do_replay(argc, argv, true);
    if(m == "check") return do_replay(argc, argv, false);
    if(m == "one") return do_one(argc, argv);
    fprintf(stderr, "usage: search|min|replay|check|one\n");
    return 2;
}
