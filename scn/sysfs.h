// Stands between the library and the operating system's description of the processors: every
// path below /sys/devices/system is looked up below g_sysroot, and pthread_setaffinity_np only
// records what it was asked for.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
extern "C" int __xstat(int, const char *, struct stat *) __attribute__((weak));
static char g_sysroot[256];
static int g_sys_lookups;
struct PathBuf { char b[1024]; };
#define NOINSTR __attribute__((no_sanitize("thread"), no_instrument_function))
NOINSTR static const char * redirect(const char * p, PathBuf & o) {
    static const char pre[] = "/sys/devices/system"; if (!g_sysroot[0] || !p || strncmp(p, pre, sizeof pre - 1) != 0) return p;
    ++g_sys_lookups; snprintf(o.b, sizeof o.b, "%s%s", g_sysroot, p + sizeof pre - 1); return o.b;
}
template<class F> NOINSTR static F real(F *, const char * n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name, ...) ((name##_t)dlsym(RTLD_NEXT, #name))
#define DEF_OPEN(name) typedef int (*name##_t)(const char *, int, ...); extern "C" NOINSTR int name(const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); PathBuf b; return REAL(name)(redirect(p, b), f, m); }
#define DEF_OPENAT(name) typedef int (*name##_t)(int, const char *, int, ...); extern "C" NOINSTR int name(int d, const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); PathBuf b; return REAL(name)(d, redirect(p, b), f, m); }
#define DEF_FOPEN(name) typedef FILE * (*name##_t)(const char *, const char *); extern "C" NOINSTR FILE * name(const char * p, const char * m) { PathBuf b; return REAL(name)(redirect(p, b), m); }
DEF_OPEN(open) DEF_OPEN(open64) DEF_OPENAT(openat) DEF_OPENAT(openat64) DEF_FOPEN(fopen) DEF_FOPEN(fopen64)
typedef int (*__openat64_2_t)(int, const char *, int); extern "C" NOINSTR int __openat64_2(int d, const char * p, int f) { PathBuf b; return REAL(__openat64_2)(d, redirect(p, b), f); }
typedef int (*__openat_2_t)(int, const char *, int); extern "C" NOINSTR int __openat_2(int d, const char * p, int f) { PathBuf b; return REAL(__openat_2)(d, redirect(p, b), f); }
typedef DIR * (*opendir_t)(const char *); extern "C" NOINSTR DIR * opendir(const char * p) { PathBuf b; return REAL(opendir)(redirect(p, b)); }
typedef int (*access_t)(const char *, int); extern "C" NOINSTR int access(const char * p, int m) noexcept { PathBuf b; return REAL(access)(redirect(p, b), m); }
typedef int (*stat_t_)(const char *, struct stat *);
extern "C" NOINSTR int stat(const char * p, struct stat * s) noexcept { PathBuf b; return ((stat_t_)dlsym(RTLD_NEXT, "stat"))(redirect(p, b), s); }
extern "C" NOINSTR int lstat(const char * p, struct stat * s) noexcept { PathBuf b; return ((stat_t_)dlsym(RTLD_NEXT, "lstat"))(redirect(p, b), s); }
typedef int (*stat64_t_)(const char *, struct stat64 *);
extern "C" NOINSTR int stat64(const char * p, struct stat64 * s) noexcept { PathBuf b; return ((stat64_t_)dlsym(RTLD_NEXT, "stat64"))(redirect(p, b), s); }
extern "C" NOINSTR int lstat64(const char * p, struct stat64 * s) noexcept { PathBuf b; return ((stat64_t_)dlsym(RTLD_NEXT, "lstat64"))(redirect(p, b), s); }
struct statx; typedef int (*statx_t_)(int, const char *, int, unsigned, struct statx *);
extern "C" NOINSTR int statx(int d, const char * p, int f, unsigned m, struct statx * s) noexcept { PathBuf b; return ((statx_t_)dlsym(RTLD_NEXT, "statx"))(d, redirect(p, b), f, m, s); }
typedef ssize_t (*readlink_t)(const char *, char *, size_t); extern "C" NOINSTR ssize_t readlink(const char * p, char * o, size_t n) noexcept { PathBuf b; return REAL(readlink)(redirect(p, b), o, n); }
typedef char * (*realpath_t)(const char *, char *); extern "C" NOINSTR char * realpath(const char * p, char * o) noexcept { PathBuf b; return REAL(realpath)(redirect(p, b), o); }
struct Affinity { pthread_t h; std::vector<int> cpus; size_t size; bool self; };
static std::vector<Affinity> g_affinity; static int g_affinity_error; // injected result
static bool g_affinity_on;
extern "C" NOINSTR int pthread_setaffinity_np(pthread_t h, size_t n, const cpu_set_t * s) noexcept {
    vrt::NoPreempt np; Affinity a; a.h = h; a.size = n; a.self = pthread_equal(h, pthread_self()); int c = 0; for (size_t i = 0; i < n * 8; ++i) if (CPU_ISSET_S(i, n, s)) { a.cpus.push_back((int)i); ++c; }
    g_affinity.push_back(a); if (g_affinity_error) return g_affinity_error; return c ? 0 : 22;
}
extern "C" NOINSTR int sched_setaffinity(pid_t p, size_t n, const cpu_set_t * s) noexcept { return pthread_setaffinity_np(pthread_self(), n, s); }
