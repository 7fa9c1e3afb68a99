// C12: is_debugger_attached() over a simulated /proc/self/status, with I/O
// faults and concurrent first calls.
#include "thr.hpp"
#include <c4/error.hpp>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <vector>
using sim::Ctx;
namespace {
struct Fd { size_t pos = 0; bool open = false; bool failed = false; };
struct World { Ctx *cx = nullptr; std::string file; Fd fd[64]; int nfd = 0, opens = 0, open_now = 0; uint32_t odds = 0; bool open_fails = false; size_t eio_at = (size_t)-1; bool any_open_failed = false, any_eio = false, bad_close = false; int eintr = 0; } w;
constexpr int kBase = 5000;
bool is_status(const char *p) { if(!w.cx || !p) return false; if(!strcmp(p, "/proc/self/status")) return true; char b[64]; snprintf(b, sizeof b, "/proc/%d/status", (int)getpid()); return !strcmp(p, b); }
int sim_open() {
    thr::Pause z; ++w.opens; Ctx &cx = *w.cx;
    if(w.odds && w.eintr < 6 && cx.fault("open-EINTR", w.odds, 24)) { ++w.eintr; errno = EINTR; return -1; }
    if(w.open_fails) { cx.inject("open-failure"); w.any_open_failed = true; errno = cx.draw(2) ? EMFILE : ENOENT; return -1; }
    if(w.nfd >= 64) { errno = EMFILE; return -1; }
    Fd &f = w.fd[w.nfd]; f = Fd(); f.open = true; ++w.open_now; cx.ev("open", w.nfd); return kBase + w.nfd++;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
    thr::Pause z; Ctx &cx = *w.cx; Fd &f = w.fd[fd - kBase];
    if(!f.open) { errno = EBADF; return -1; }
    if(w.odds && w.eintr < 6 && cx.fault("read-EINTR", w.odds, 16)) { ++w.eintr; errno = EINTR; return -1; }
    size_t end = w.file.size();
    if(w.eio_at <= end) { if(f.pos >= w.eio_at) { cx.inject("read-EIO"); w.any_eio = true; errno = EIO; return -1; } end = w.eio_at; }
    size_t k = end - f.pos < n ? end - f.pos : n;
    if(k > 1 && w.odds && cx.fault("short-read", w.odds, 6)) k = 1 + cx.draw(k > 64 && cx.draw(2) ? 64 : (uint32_t)k);
    memcpy(buf, w.file.data() + f.pos, k); f.pos += k; cx.ev("read", fd - kBase, (uint64_t)n, (uint64_t)k); return (ssize_t)k;
}
int sim_close(int fd) { thr::Pause z; Fd &f = w.fd[fd - kBase]; if(!f.open) { w.bad_close = true; errno = EBADF; return -1; } f.open = false; --w.open_now; w.cx->ev("close", fd - kBase); if(w.odds && w.cx->fault("close-error", w.odds, 16)) { errno = w.cx->draw(2) ? EINTR : EIO; return -1; } return 0; }
bool mine(int fd) { return w.cx && fd >= kBase && fd < kBase + 64; }
ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n); }
int ck_close(void *c) { return sim_close((int)(intptr_t)c); }
FILE *sim_fopen() { int fd; do fd = sim_open(); while(fd < 0 && errno == EINTR); if(fd < 0) return nullptr; cookie_io_functions_t io{}; io.read = ck_read; io.close = ck_close; return fopencookie((void*)(intptr_t)fd, "r", io); }
}
extern "C" {
int open(const char *p, int fl, ...) { if(is_status(p)) return sim_open(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { if(is_status(p)) return sim_open(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { if(is_status(p)) return sim_open(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, d, p, fl, m); }
ssize_t read(int fd, void *b, size_t n) { if(mine(fd)) return sim_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if(mine(fd)) { w.fd[fd - kBase].pos = (size_t)o; return sim_read(fd, b, n); } return syscall(SYS_pread64, fd, b, n, o); }
int close(int fd) { if(mine(fd)) return sim_close(fd); return (int)syscall(SYS_close, fd); }
FILE *fopen(const char *p, const char *m) { if(is_status(p)) return sim_fopen(); static FILE *(*r)(const char*, const char*) = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return r(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
}
struct Res { std::vector<char> got; uint32_t calls; };
static Res res[4];
static void body(void *, int i) { Res &r = res[i]; for(uint32_t k = 0; k < r.calls; ++k) { thr::point(); bool b = c4::is_debugger_attached(); thr::Pause z; r.got.push_back(b ? 1 : 0); } }

static std::string junk_line(Ctx &cx) {
    static const char *ls[] = {"Umask:\t0022\n", "State:\tR (running)\n", "Tgid:\t123\n", "Pid:\t123\n", "PPid:\t9\n", "Uid:\t0\t0\t0\t0\n", "FDSize:\t64\n", "Groups:\t0 1 2 3 4 5 6 10 20 30 \n", "VmPeak:\t    5000 kB\n", "Threads:\t1\n", "xTracerPid:\t77\n", " TracerPid:\t77\n", "NSTracerPid:\t4 TracerPid:\t9\n", "\n", "Tracer:\t5\n", "TracerPi\n", "TracerPid\t8\n", "TracerPidx:\t3\n"};
    return ls[cx.draw(18)];
}
void sim_init() {}
void sim_run(Ctx &cx) {
    w = World(); std::string f; static const char *names[] = {"prog", "a.out", "TracerPid:\t5", "x TracerPid:9", "Name:", "\\nTracerPid:\t8"};
    f = std::string("Name:\t") + names[cx.draw(6)] + "\n"; if(cx.draw(8) == 0) f.clear();
    uint32_t pre = cx.skewed(60); for(uint32_t i = 0; i < pre; ++i) f += junk_line(cx);
    if(cx.draw(3) == 0) { size_t want = 990 + cx.draw(50); if(f.size() < want) f += std::string("Pad:") + std::string(want - f.size(), 'x') + "\n"; } // around the usual buffer size
    uint32_t pid = 0; bool has = cx.draw(8) != 0;
    if(has) { switch(cx.draw(5)) { case 0: case 1: pid = 0; break; case 2: pid = 1 + cx.draw(9); break; case 3: pid = 10 * (1 + cx.draw(1000)); break; default: pid = 1 + cx.draw(4194303); } f += "TracerPid:\t" + std::to_string(pid) + "\n"; }
    if(!has || cx.draw(4)) for(uint32_t i = cx.skewed(30); i; --i) f += junk_line(cx);
    size_t key = std::string::npos; for(size_t p = 0; (p = f.find("TracerPid:", p)) != std::string::npos; ++p) if(p == 0 || f[p - 1] == '\n') { key = p; break; }
    if(cx.fault("torn-file", 1, 6)) { size_t at = key != std::string::npos && cx.draw(2) ? key + cx.draw(18) : cx.draw((uint32_t)f.size() + 1); if(at < f.size()) f.resize(at); }
    w.file = f; w.odds = cx.draw(3) == 0 ? 0 : 1 + cx.draw(6); w.open_fails = cx.chance(1, 12); if(cx.chance(1, 8)) w.eio_at = key != std::string::npos && cx.draw(2) ? key + cx.draw(20) : cx.draw((uint32_t)f.size() + 1);
    // what the file shows
    auto shows = [&](size_t upto) { std::string t = f.substr(0, upto); for(size_t p = 0; (p = t.find("TracerPid:", p)) != std::string::npos; ++p) if(p == 0 || t[p - 1] == '\n') { for(p += 10; p < t.size() && t[p] != '\n'; ++p) if(t[p] >= '1' && t[p] <= '9') return true; return false; } return false; };
    bool full = shows(f.size()), before_eio = w.eio_at <= f.size() ? shows(w.eio_at) : full;
    cx.ev("file", f, (uint64_t)w.eio_at, w.open_fails); cx.sig(f.size()); cx.sig(w.odds);
    int n = 1 + (int)cx.draw(4); for(int i = 0; i < n; ++i) { res[i].got.clear(); res[i].got.reserve(4); res[i].calls = 1 + cx.draw(3); }
    w.cx = &cx; thr::run(cx, n, body, nullptr, 30);
    bool later = c4::is_debugger_attached(); w.cx = nullptr;
    std::string got; for(int i = 0; i < n; ++i) for(char c : res[i].got) got += c ? '1' : '0'; got += later ? '1' : '0'; cx.ev("answers", got);
    bool a = got[0] == '1';
    for(char c : got) if((c == '1') != a) cx.fail("callers-disagree", "answers of the callers: " + got);
    if(w.open_fails) { if(a) cx.fail("wrong-answer", "true although the file cannot be opened"); }
    else if(w.eio_at <= f.size()) { if(a && !before_eio) cx.fail("wrong-answer", "true although no tracer was shown before the read error"); }
    else if(a != full) cx.fail("wrong-answer", std::string("answered ") + (a ? "true" : "false") + " but the file shows TracerPid " + (full ? "nonzero" : "zero or none"));
    if(w.open_now) cx.fail("fd-leak", std::to_string(w.open_now) + " file descriptor(s) left open");
    if(w.bad_close) cx.fail("fd-double-close", "a closed descriptor was closed again");
}
