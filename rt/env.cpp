// libc model for symex.  Everything a harness may want to replace is weak.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cstdarg>
#include <climits>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
#include <string>
#include <map>
#include "sym.h"
#define WEAK __attribute__((weak))
extern "C" {
int __symex_thread_self();
static thread_local int t_errno;
int* __errno_location() noexcept { return &t_errno; }
char* program_invocation_short_name = (char*)"harness";
char* program_invocation_name = (char*)"harness";
// ---- console
struct conrec { std::string s; };
static std::string* con[3];
std::string& rt_console(int fd) { if (!con[fd]) con[fd] = new std::string; return *con[fd]; }
WEAK void rt_console_write(int fd, const char* p, long n) { sym_call c; rt_console(fd).append(p, n); }
static char f_out[8], f_err[8], f_in[8];
FILE* stdout = (FILE*)f_out; FILE* stderr = (FILE*)f_err; FILE* stdin = (FILE*)f_in;
WEAK int fileno(FILE* f) noexcept { return f == stdout ? 1 : f == stderr ? 2 : f == stdin ? 0 : -1; }
WEAK int isatty(int) noexcept { return 0; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { rt_console_write(fileno(f), (const char*)p, s * n); return n; }
int fputs(const char* s, FILE* f) { rt_console_write(fileno(f), s, strlen(s)); return 1; }
int fputc(int c, FILE* f) { char b = (char)c; rt_console_write(fileno(f), &b, 1); return c; }
int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
int putchar(int c) { return fputc(c, stdout); }
int fflush(FILE*) { return 0; }
WEAK ssize_t write(int fd, const void* p, size_t n) { if (fd == 1 || fd == 2) { rt_console_write(fd, (const char*)p, n); return n; } sym_unsupported("write(2)"); }
// ---- in-memory files behind std::basic_filebuf
struct rt_file { std::string* data; bool append; unsigned long pos; };
static std::map<std::string, std::string>* g_fs; static std::vector<rt_file>* g_fds;
std::map<std::string, std::string>& rt_fs() { if (!g_fs) g_fs = new std::map<std::string, std::string>; return *g_fs; }
WEAK int rt_file_open(const char* path, int mode) {
    auto& fs = rt_fs(); if (!g_fds) g_fds = new std::vector<rt_file>;
    bool in = mode & 8, out = mode & 16, app = mode & 1, trunc = mode & 32;   // libstdc++ openmode bits
    if (!out && !app && !fs.count(path)) return -1;
    std::string& d = fs[path]; if ((out && !app && !in) || trunc) d.clear();
    g_fds->push_back(rt_file{&d, app, 0}); return (int)g_fds->size() - 1;
}
WEAK long rt_file_write(int fd, const char* p, long n) { rt_file& f = (*g_fds)[fd]; if (f.append) f.pos = f.data->size(); f.data->replace(f.pos, n, p, n); f.pos += n; return n; }
WEAK long rt_file_read(int fd, char* p, long n) { rt_file& f = (*g_fds)[fd]; long k = 0; while (k < n && f.pos < f.data->size()) p[k++] = (*f.data)[f.pos++]; return k; }
WEAK int rt_file_close(int) { return 0; }
WEAK int stat(const char* p, struct stat*) noexcept { t_errno = ENOENT; return -1; }
// ---- characters
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isgraph(int c) noexcept { return c > 32 && c < 127; }
int iscntrl(int c) noexcept { return c < 32 || c == 127; }
int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
// ---- strings
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcpy(char* d, const char* s) noexcept { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) noexcept { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
char* strerror(int e) noexcept { static thread_local char b[32]; snprintf(b, 32, "errno %d", e); return b; }
char* strerror_r(int e, char* b, size_t n) noexcept { snprintf(b, n, "errno %d", e); return b; }
static unsigned long sto(const char* s, char** e, int base, bool& neg, bool& ovf, unsigned long lim, bool) {
    const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; ovf = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false;
    for (;; p++) {
        int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break; any = true; unsigned long nv; if (__builtin_mul_overflow(v, (unsigned long)base, &nv) || __builtin_add_overflow(nv, (unsigned long)d, &v)) ovf = true;
    }
    if (e) *e = (char*)(any ? p : s); return v;
}
long strtol(const char* s, char** e, int b) noexcept { bool n, o; unsigned long v = sto(s, e, b, n, o, 0, true); if (o || (n ? v > 1ul << 63 : v > LONG_MAX)) { t_errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { bool n, o; unsigned long v = sto(s, e, b, n, o, 0, false); if (o) { t_errno = ERANGE; return ULONG_MAX; } return n ? 0 - v : v; }
long long strtoll(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return strtoul(s, e, b); }
int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) noexcept { return strtol(s, nullptr, 10); }
char* getenv(const char*) noexcept { return nullptr; }
// ---- process
WEAK pid_t getpid() noexcept { return 4242; }
WEAK pid_t gettid() noexcept { return 4242 + __symex_thread_self(); }
WEAK long syscall(long n, ...) noexcept { if (n == 186) return 4242 + __symex_thread_self(); if (n == 39) return 4242; sym_unsupported("syscall"); }
WEAK int pthread_getname_np(pthread_t, char* b, size_t n) { if (n < 16) return ERANGE; strcpy(b, "harness"); return 0; }
int sigfillset(sigset_t*) noexcept { return 0; }
int pthread_sigmask(int, const sigset_t*, sigset_t*) noexcept { return 0; }
int ioctl(int, unsigned long, ...) noexcept { return 0; }
// ---- time
long timezone = 0; char* tzname[2] = {(char*)"UTC", (char*)"UTC"}; int daylight = 0;
WEAK void tzset() noexcept {}
WEAK time_t time(time_t* t) noexcept { if (t) *t = 1500000000; return 1500000000; }
static long fdiv(long a, long b) { long q = a / b; if (a % b < 0) q--; return q; }
WEAK struct tm* gmtime_r(const time_t* tp, struct tm* r) noexcept {
    long t = *tp, days = fdiv(t, 86400); long rem = t - days * 86400;
    r->tm_hour = (int)(rem / 3600); r->tm_min = (int)(rem / 60 % 60); r->tm_sec = (int)(rem % 60); r->tm_wday = (int)(((days + 4) % 7 + 7) % 7);
    long z = days + 719468, era = fdiv(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); long m = mp < 10 ? mp + 3 : mp - 9; long y = yoe + era * 400 + (m <= 2);
    r->tm_mon = (int)m - 1; r->tm_year = (int)(y - 1900);
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    r->tm_yday = cum[r->tm_mon] + r->tm_mday - 1 + (leap && r->tm_mon > 1); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT"; return r;
}
WEAK struct tm* localtime_r(const time_t* tp, struct tm* r) noexcept { gmtime_r(tp, r); r->tm_zone = "UTC"; return r; }
// both return the same static object
static struct tm g_tm;
WEAK struct tm* gmtime(const time_t* tp) noexcept { return gmtime_r(tp, &g_tm); }
WEAK struct tm* localtime(const time_t* tp) noexcept { return localtime_r(tp, &g_tm); }
WEAK time_t mktime(struct tm* t) noexcept {
    long y = t->tm_year + 1900, m = t->tm_mon + 1; y -= m <= 2; long era = fdiv(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return (era * 146097 + doe - 719468) * 86400 + t->tm_hour * 3600l + t->tm_min * 60 + t->tm_sec;
}
WEAK time_t timegm(struct tm* t) noexcept { return mktime(t); }
static const char* const DAYS[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const MONS[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
struct sink { char* p; size_t n, max; bool full; void c(char ch) { if (n + 1 >= max) { full = true; return; } p[n++] = ch; } void s(const char* q) { while (*q) c(*q++); } void s3(const char* q) { c(q[0]); c(q[1]); c(q[2]); }
    void d2(int v, char pad = '0') { c(v < 10 ? pad : char('0' + v / 10)); c(char('0' + v % 10)); } 
    void num(long v, int w) { if (v < 0) { c('-'); v = -v; } char b[24]; int k = 0; do { b[k++] = char('0' + v % 10); v /= 10; } while (v); while (k < w) b[k++] = '0'; while (k) c(b[--k]); } };
static void sft(sink& o, const char* f, const char* e, const struct tm* t) {
    for (; f < e; f++) {
        if (*f != '%') { o.c(*f); continue; }
        const char* start = f; f++; if (f == e || !*f) { o.c('%'); break; }   // glibc copies a trailing percent sign
        if (*f == 'E' || *f == 'O' || *f == '_' || *f == '-' || *f == '0' || *f == '^' || *f == '#') sym_unsupported("strftime flag");
        switch (*f) {
        case 'a': o.s3(DAYS[t->tm_wday]); break; case 'A': o.s(DAYS[t->tm_wday]); break; case 'b': case 'h': o.s3(MONS[t->tm_mon]); break; case 'B': o.s(MONS[t->tm_mon]); break;
        case 'c': { const char q[] = "%a %b %e %H:%M:%S %Y"; sft(o, q, q + sizeof q - 1, t); break; } case 'C': o.num((t->tm_year + 1900) / 100, 2); break;
        case 'd': o.d2(t->tm_mday); break; case 'D': case 'x': { const char q[] = "%m/%d/%y"; sft(o, q, q + 8, t); break; } case 'e': o.d2(t->tm_mday, ' '); break;
        case 'F': { const char q[] = "%Y-%m-%d"; sft(o, q, q + 8, t); break; }
        case 'g': case 'G': case 'V': { int y = t->tm_year + 1900, wd = (t->tm_wday + 6) % 7, w = (t->tm_yday - wd + 10) / 7; auto leap = [](int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; };
            auto wks = [&](int y) { long k = y - 1, j1 = (k * 365 + k / 4 - k / 100 + k / 400) % 7; return j1 == 3 || (j1 == 2 && leap(y)) ? 53 : 52; };
            if (w < 1) { y--; w = wks(y); } else if (w > wks(y)) { w = 1; y++; }
            if (*f == 'V') o.d2(w); else if (*f == 'G') o.num(y, 4); else o.d2(y % 100); break; }
        case 'H': o.d2(t->tm_hour); break; case 'I': { int h = t->tm_hour % 12; o.d2(h ? h : 12); break; } case 'j': o.num(t->tm_yday + 1, 3); break;
        case 'k': o.d2(t->tm_hour, ' '); break; case 'l': { int h = t->tm_hour % 12; o.d2(h ? h : 12, ' '); break; }
        case 'm': o.d2(t->tm_mon + 1); break; case 'M': o.d2(t->tm_min); break; case 'n': o.c('\n'); break; case 'p': o.s(t->tm_hour >= 12 ? "PM" : "AM"); break; case 'P': o.s(t->tm_hour >= 12 ? "pm" : "am"); break;
        case 'r': { const char q[] = "%I:%M:%S %p"; sft(o, q, q + 11, t); break; } case 'R': { const char q[] = "%H:%M"; sft(o, q, q + 5, t); break; }
        case 's': { struct tm c = *t; o.num(mktime(&c), 1); break; } case 'S': o.d2(t->tm_sec); break; case 't': o.c('\t'); break; case 'T': case 'X': { const char q[] = "%H:%M:%S"; sft(o, q, q + 8, t); break; }
        case 'u': o.c(char('0' + (t->tm_wday ? t->tm_wday : 7))); break; case 'w': o.c(char('0' + t->tm_wday)); break;
        case 'U': o.d2((t->tm_yday - t->tm_wday + 7) / 7); break; case 'W': o.d2((t->tm_yday - (t->tm_wday - 1 + 7) % 7 + 7) / 7); break;
        case 'y': o.d2(((t->tm_year % 100) + 100) % 100); break; case 'Y': o.num(t->tm_year + 1900, 1); break;
        case 'z': { long g = t->tm_gmtoff; o.c(g < 0 ? '-' : '+'); if (g < 0) g = -g; g /= 60; o.num(g / 60 * 100 + g % 60, 4); break; } case 'Z': o.s(t->tm_zone ? t->tm_zone : ""); break;
        case '%': o.c('%'); break;
        default: for (; start <= f; start++) o.c(*start);   // glibc copies unknown conversions verbatim
        }
    }
}
WEAK size_t strftime(char* b, size_t max, const char* f, const struct tm* t) noexcept { sink o{b, 0, max, false}; sft(o, f, f + strlen(f), t); if (o.full || !max) return 0; b[o.n] = 0; return o.n; }
// ---- not modelled
#define NM(r, n, ...) WEAK r n(__VA_ARGS__) { sym_unsupported(#n); }
NM(int, swprintf, wchar_t*, size_t, const wchar_t*, ...) NM(size_t, wcslen, const wchar_t*) NM(int, wmemcmp, const wchar_t*, const wchar_t*, size_t)
WEAK void openlog(const char*, int, int) {} WEAK void closelog() {} WEAK void syslog(int, const char*, ...) {}
}
