// End-to-end driver: one forked child per case runs the real program entry point
// (vegamain.cpp's main, renamed at compile time) in a scratch directory.
//
// Protocol (stdin, one request per line, fields separated by \x1f):
//   R <dir> <timeout_s> <env> <arg>...   run; env = "k=v;k=v" special settings
//   D <dir>                               dump every *.med of dir to *.med.txt
// answer: "exit <code>" | "signal <n>" | "timeout"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include <med.h>
}

int vega_main(int, const char**);

// ---------------------------------------------------------------- fault injection
// The driver interposes the write path of libc.  Disarmed unless the request asks for it.
static volatile int fi_armed = 0;      // 1: count only / inject
static long fi_at = -1;                // index of the operation that fails (0-based), -1 = none
static int fi_mode = 0;                // 0 = ENOSPC once, 1 = ENOSPC from then on, 2 = short write then ENOSPC, 3 = EIO on, 4 = kill, 5 = short write once, 6 = EINTR once
static long *fi_count = nullptr;       // shared between processes
static char fi_prefix[512];
static bool fi_fd[4096];

static bool fi_match(const char* p) {
    if (!fi_armed || !fi_prefix[0]) return false;
    char b[4096], *w = b;
    b[0] = 0;
    if (*p != '/' && !getcwd(b, 1024)) return false;
    w += strlen(b);
    if (*p != '/') *w++ = '/';
    for (; *p && w < b + sizeof b - 1; p++) {       // "/./" and "//" count for nothing
        if (*p == '/' && w > b && w[-1] == '/') continue;
        if (*p == '.' && w > b && w[-1] == '/' && (p[1] == '/' || !p[1])) { if (p[1]) p++; continue; }
        *w++ = *p;
    }
    *w = 0;
    return strncmp(b, fi_prefix, strlen(fi_prefix)) == 0;
}

enum { FI_OK = 0, FI_FAIL = 1, FI_SHORT = 2 };
static int fi_hit() {
    if (!fi_armed || !fi_count) return FI_OK;
    long k = __sync_fetch_and_add(fi_count, 1);
    if (fi_at < 0) return FI_OK;
    if (k == fi_at) {
        if (fi_mode == 4) { kill(getpid(), SIGKILL); }
        return fi_mode == 2 || fi_mode == 5 ? FI_SHORT : FI_FAIL;
    }
    if (k > fi_at && fi_mode >= 1 && fi_mode <= 3) return FI_FAIL;
    return FI_OK;
}
static int fi_errno() { return fi_mode == 3 ? EIO : fi_mode == 6 ? EINTR : ENOSPC; }

template<class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

extern "C" ssize_t write(int fd, const void* b, size_t n) {
    static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
    if (fi_armed && fd >= 0 && fd < 4096 && fi_fd[fd]) {
        int h = fi_hit();
        if (h == FI_FAIL) { errno = fi_errno(); return -1; }
        if (h == FI_SHORT && n > 1) return r(fd, b, n / 2);
        if (h == FI_SHORT && fi_mode == 2) { errno = fi_errno(); return -1; }
    }
    return r(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    if (fi_armed && fd >= 0 && fd < 4096 && fi_fd[fd]) {
        int h = fi_hit();
        if (h == FI_FAIL) { errno = fi_errno(); return -1; }
        if (h == FI_SHORT && c > 0 && v[0].iov_len > 1) { struct iovec w = v[0]; w.iov_len /= 2; return r(fd, &w, 1); }
        if (h == FI_SHORT && fi_mode == 2) { errno = fi_errno(); return -1; }
    }
    return r(fd, v, c);
}
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
    static auto r = real<ssize_t (*)(int, const void*, size_t, off64_t)>("pwrite64");
    if (fi_armed && fd >= 0 && fd < 4096 && fi_fd[fd]) {
        int h = fi_hit();
        if (h == FI_FAIL) { errno = fi_errno(); return -1; }
        if (h == FI_SHORT && n > 1) return r(fd, b, n / 2, o);
        if (h == FI_SHORT && fi_mode == 2) { errno = fi_errno(); return -1; }
    }
    return r(fd, b, n, o);
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static int fi_opened(int fd, const char* p, int flags) {
    if (fd >= 0 && fd < 4096) fi_fd[fd] = fi_match(p) && (flags & O_ACCMODE) != O_RDONLY;
    return fd;
}
#define OPEN_BODY(NAME) \
    mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    static auto r = real<int (*)(const char*, int, ...)>(NAME); \
    if (fi_match(p) && (fl & O_ACCMODE) != O_RDONLY && fi_hit() != FI_OK) { errno = fi_errno(); return -1; } \
    return fi_opened(r(p, fl, m), p, fl);
#include <cstdarg>
extern "C" int open(const char* p, int fl, ...) { OPEN_BODY("open") }
extern "C" int open64(const char* p, int fl, ...) { OPEN_BODY("open64") }
// libstdc++'s filebuf goes through fopen/fopen64 or open depending on the configuration
static int mode_flags(const char* m) { return (strchr(m, '+') || *m != 'r') ? O_RDWR : O_RDONLY; }
extern "C" FILE* fopen64(const char* p, const char* m) {
    static auto r = real<FILE* (*)(const char*, const char*)>("fopen64");
    int fl = mode_flags(m);
    if (fi_match(p) && fl != O_RDONLY && fi_hit() != FI_OK) { errno = fi_errno(); return nullptr; }
    FILE* f = r(p, m);
    if (f) fi_opened(fileno(f), p, fl);
    return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }

// delayed errors come out when the file is closed
extern "C" int fclose(FILE* f) {
    static auto r = real<int (*)(FILE*)>("fclose");
    int fd = f ? fileno(f) : -1;
    bool mine = fi_armed && fd >= 0 && fd < 4096 && fi_fd[fd];
    int h = mine ? fi_hit() : FI_OK;
    if (mine) fi_fd[fd] = false;
    int rc = r(f);
    if (h == FI_FAIL) { errno = fi_errno(); return EOF; }
    return rc;
}
extern "C" int close(int fd) {
    static auto r = real<int (*)(int)>("close");
    bool mine = fi_armed && fd >= 0 && fd < 4096 && fi_fd[fd];
    int h = mine ? fi_hit() : FI_OK;
    if (mine) fi_fd[fd] = false;
    int rc = r(fd);
    if (h == FI_FAIL) { errno = fi_errno(); return -1; }
    return rc;
}

// ---------------------------------------------------------------- allocation order
// heap=asc|desc|alt : every operator new is served from an arena in a given address order, never
// reused, so that an output depending on the address order of objects changes between orders.
static int heap_mode = 0;
static int perturb = -1;                // value of the bytes of fresh memory
static char *arena_lo, *arena_hi;
static unsigned arena_n;
static const size_t ARENA = size_t(1) << 30;
#include <sys/mman.h>
#include <new>
static void arena_init() {
    char* a = (char*) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_lo = a; arena_hi = a + ARENA;
}
void* operator new(size_t n) {
    if (!heap_mode) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    size_t s = (n + 15 + 16) & ~size_t(15);
    bool low = heap_mode == 1 || (heap_mode == 3 && (++arena_n & 1));
    if (arena_lo + s + 65536 > arena_hi) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    char* q;
    if (low) { q = arena_lo; arena_lo += s; } else { arena_hi -= s; q = arena_hi; }
    if (perturb >= 0) memset(q, perturb, n);
    return q;
}
static char *arena_base, *arena_end;
void operator delete(void* p) noexcept {
    if (arena_base && (char*) p >= arena_base && (char*) p < arena_end) return;
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- MED dump
static void dump_med(const std::string& path) {
    std::string out = path + ".txt";
    FILE* o = fopen64(out.c_str(), "w");
    if (!o) return;
    med_idt fid = MEDfileOpen(path.c_str(), MED_ACC_RDONLY);
    if (fid < 0) { fprintf(o, "ERROR open\n"); fclose(o); return; }
    med_int nmesh = MEDnMesh(fid);
    fprintf(o, "nmesh %ld\n", (long) nmesh);
    for (int im = 1; im <= nmesh; im++) {
        char name[MED_NAME_SIZE + 1] = "", desc[MED_COMMENT_SIZE + 1] = "", dt[MED_SNAME_SIZE + 1] = "";
        med_int sd = 0, md = 0, ns = 0; med_mesh_type mt; med_sorting_type st; med_axis_type at;
        med_int nax = MEDmeshnAxis(fid, im);
        std::vector<char> an(size_t(nax) * MED_SNAME_SIZE + 1), au(size_t(nax) * MED_SNAME_SIZE + 1);
        if (MEDmeshInfo(fid, im, name, &sd, &md, &mt, desc, dt, &st, &ns, &at, an.data(), au.data()) < 0) { fprintf(o, "ERROR meshinfo\n"); continue; }
        fprintf(o, "mesh %s dim %ld %ld\n", name, (long) sd, (long) md);
        med_bool ch, tr;
        med_int nn = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, MED_COORDINATE, MED_NO_CMODE, &ch, &tr);
        fprintf(o, "nodes %ld\n", (long) nn);
        if (nn > 0) {
            std::vector<med_float> co(size_t(nn) * sd);
            if (MEDmeshNodeCoordinateRd(fid, name, MED_NO_DT, MED_NO_IT, MED_FULL_INTERLACE, co.data()) < 0) fprintf(o, "ERROR coords\n");
            std::vector<char> nm(size_t(nn) * MED_SNAME_SIZE + 1);
            bool hn = MEDmeshEntityNameRd(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, nm.data()) >= 0;
            std::vector<med_int> fam(nn, 0), num(nn, 0);
            bool hf = MEDmeshEntityFamilyNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, fam.data()) >= 0;
            bool hu = MEDmeshEntityNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE, num.data()) >= 0;
            for (med_int i = 0; i < nn; i++) {
                std::string s(nm.data() + i * MED_SNAME_SIZE, MED_SNAME_SIZE);
                s = s.c_str(); while (!s.empty() && s.back() == ' ') s.pop_back();
                fprintf(o, "N %s %ld %ld", hn && !s.empty() ? s.c_str() : "-", hf ? (long) fam[i] : 0L, hu ? (long) num[i] : 0L);
                for (int k = 0; k < sd; k++) fprintf(o, " %.17g", co[size_t(i) * sd + k]);
                fputc('\n', o);
            }
        }
        med_int ngt = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, MED_GEO_ALL, MED_UNDEF_DATATYPE, MED_NODAL, &ch, &tr);
        for (int ig = 1; ig <= ngt; ig++) {
            char gn[MED_NAME_SIZE + 1] = ""; med_geometry_type gt = MED_NONE;
            if (MEDmeshEntityInfo(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, ig, gn, &gt) < 0) { fprintf(o, "ERROR entity\n"); continue; }
            med_int nc = MEDmeshnEntity(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, gt, MED_CONNECTIVITY, MED_NODAL, &ch, &tr);
            int nper = int(gt) % 100;
            fprintf(o, "type %s %d count %ld\n", gn, int(gt), (long) nc);
            if (nc <= 0) continue;
            std::vector<med_int> cn(size_t(nc) * nper);
            if (MEDmeshElementConnectivityRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, gt, MED_NODAL, MED_FULL_INTERLACE, cn.data()) < 0) fprintf(o, "ERROR conn\n");
            std::vector<char> nm(size_t(nc) * MED_SNAME_SIZE + 1);
            bool hn = MEDmeshEntityNameRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, gt, nm.data()) >= 0;
            std::vector<med_int> fam(nc, 0), num(nc, 0);
            bool hf = MEDmeshEntityFamilyNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, gt, fam.data()) >= 0;
            bool hu = MEDmeshEntityNumberRd(fid, name, MED_NO_DT, MED_NO_IT, MED_CELL, gt, num.data()) >= 0;
            for (med_int i = 0; i < nc; i++) {
                std::string s(nm.data() + i * MED_SNAME_SIZE, MED_SNAME_SIZE);
                s = s.c_str(); while (!s.empty() && s.back() == ' ') s.pop_back();
                fprintf(o, "C %s %ld %ld %s", hn && !s.empty() ? s.c_str() : "-", hf ? (long) fam[i] : 0L, hu ? (long) num[i] : 0L, gn);
                for (int k = 0; k < nper; k++) fprintf(o, " %ld", (long) cn[size_t(i) * nper + k]);
                fputc('\n', o);
            }
        }
        med_int nf = MEDnFamily(fid, name);
        for (int i = 1; i <= nf; i++) {
            med_int ng = MEDnFamilyGroup(fid, name, i);
            if (ng < 0) ng = 0;
            std::vector<char> gr(size_t(ng) * MED_LNAME_SIZE + 1);
            char fn[MED_NAME_SIZE + 1] = ""; med_int nb = 0;
            if (MEDfamilyInfo(fid, name, i, fn, &nb, gr.data()) < 0) { fprintf(o, "ERROR family\n"); continue; }
            fprintf(o, "F %ld %s", (long) nb, fn[0] ? fn : "-");
            for (int k = 0; k < ng; k++) {
                std::string s(gr.data() + size_t(k) * MED_LNAME_SIZE, MED_LNAME_SIZE);
                s = s.c_str(); while (!s.empty() && s.back() == ' ') s.pop_back();
                fprintf(o, "\t%s", s.c_str());
            }
            fputc('\n', o);
        }
    }
    MEDfileClose(fid);
    fprintf(o, "END\n");
    fclose(o);
}

static void dump_all(const std::string& dir) {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    std::vector<std::string> f;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 4 && n.substr(n.size() - 4) == ".med") f.push_back(dir + "/" + n);
    }
    closedir(d);
    for (auto& p : f) dump_med(p);
}

// ---------------------------------------------------------------- main loop
static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; size_t p = 0;
    for (;;) { size_t q = s.find(c, p); r.push_back(s.substr(p, q - p)); if (q == std::string::npos) break; p = q + 1; }
    return r;
}

static int wait_timeout(pid_t pid, double tmo, int& status) {
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGCHLD);
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) return 0;
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        double left = tmo - (t.tv_sec - t0.tv_sec) - 1e-9 * (t.tv_nsec - t0.tv_nsec);
        if (left <= 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); return 1; }
        timespec w; w.tv_sec = (time_t) left; w.tv_nsec = long((left - (time_t) left) * 1e9);
        sigtimedwait(&m, nullptr, &w);
    }
}

__attribute__((noinline)) static void dirty_stack(int v) { volatile char a[512 << 10]; memset((char*) a, v, sizeof a); }

int main() {
    signal(SIGPIPE, SIG_IGN);
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGCHLD); sigprocmask(SIG_BLOCK, &m, nullptr);
    fi_count = (long*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* buf = nullptr; size_t cap = 0; ssize_t n;
    FILE* in = fdopen(dup(0), "r");
    int ofd = dup(1);
    fcntl(ofd, F_SETFD, FD_CLOEXEC);
    while ((n = getline(&buf, &cap, in)) > 0) {
        if (buf[n - 1] == '\n') buf[--n] = 0;
        std::vector<std::string> f = split(std::string(buf, n), '\x1f');
        std::string ans = "bad";
        if (f[0] == "R" && f.size() >= 4) {
            std::string dir = f[1]; double tmo = atof(f[2].c_str());
            std::map<std::string, std::string> env;
            for (auto& kv : split(f[3], ';')) { size_t e = kv.find('='); if (e != std::string::npos) env[kv.substr(0, e)] = kv.substr(e + 1); }
            *fi_count = 0;
            pid_t pid = fork();
            if (pid == 0) {
                setpgid(0, 0);
                sigset_t z; sigemptyset(&z); sigprocmask(SIG_SETMASK, &z, nullptr);
                signal(SIGPIPE, SIG_DFL);
                fclose(in); close(ofd);
                rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = rlim_t(4) << 30; setrlimit(RLIMIT_AS, &rl);
                rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl);
                if (chdir(dir.c_str()) != 0) _exit(120);
                int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
                int a = open("stdout.log", O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(a, 1);
                int b = open("stderr.log", O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(b, 2);
                setenv("HOME", dir.c_str(), 1);
                for (auto& kv : env) if (kv.first.compare(0, 4, "env.") == 0) setenv(kv.first.c_str() + 4, kv.second.c_str(), 1);
                if (env.count("fi.prefix")) {
                    snprintf(fi_prefix, sizeof fi_prefix, "%s", env["fi.prefix"].c_str());
                    fi_at = env.count("fi.at") ? atol(env["fi.at"].c_str()) : -1;
                    fi_mode = env.count("fi.mode") ? atoi(env["fi.mode"].c_str()) : 0;
                    fi_armed = 1;
                }
                if (env.count("perturb")) {
                    perturb = atoi(env["perturb"].c_str());
                    mallopt(M_PERTURB, perturb ^ 0xff); // malloc fills with the complement
                    dirty_stack(perturb);
                }
                if (env.count("heap")) {
                    arena_init(); arena_base = arena_lo; arena_end = arena_hi;
                    heap_mode = env["heap"] == "asc" ? 1 : env["heap"] == "desc" ? 2 : 3;
                }
                // one or several invocations (history): argument lists separated by \x1e
                std::vector<std::vector<const char*>> calls(1);
                calls.back().push_back("vegapp");
                for (size_t i = 4; i < f.size(); i++) {
                    if (f[i] == "\x1e") { calls.emplace_back(); calls.back().push_back("vegapp"); }
                    else calls.back().push_back(f[i].c_str());
                }
                int rc = 0;
                for (auto& c : calls) { std::vector<const char*> v(c); int ac = int(v.size()); v.push_back(nullptr); rc = vega_main(ac, v.data()); }
                fflush(nullptr);
                exit(rc);
            }
            int st = 0;
            if (wait_timeout(pid, tmo, st)) ans = "timeout";
            else if (WIFEXITED(st)) ans = "exit " + std::to_string(WEXITSTATUS(st));
            else ans = "signal " + std::to_string(WTERMSIG(st));
            kill(-pid, SIGKILL);
            ans += " " + std::to_string(*fi_count);
            if (env.count("dump")) {
                pid_t q = fork();
                if (q == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); dump_all(dir); _exit(0); }
                if (wait_timeout(q, 60, st)) ans += " dumptimeout";
            }
        } else if (f[0] == "D") {
            pid_t q = fork(); int st;
            if (q == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); dump_all(f[1]); _exit(0); }
            wait_timeout(q, 60, st); ans = "ok";
        }
        ans += "\n";
        const char* p = ans.c_str(); size_t l = ans.size();
        while (l) { ssize_t w = write(ofd, p, l); if (w <= 0) return 1; p += w; l -= w; }
    }
    return 0;
}
