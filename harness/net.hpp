// A network behind the socket system calls: connections as byte streams, datagrams, and faults chosen by the solver.
#pragma once
#include "sym.h"
#include <cerrno>
#include <cstring>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
namespace net {
struct addr { int family; unsigned port; unsigned last; };
struct sock { int type, family; bool open = true, connected = false, failed = false; std::string sent; addr to{0, 0, 0}; unsigned first = 0; };
struct dgram { std::string data; addr to; };
static std::vector<sock*> all; static std::vector<dgram> dgrams; static std::string node, service;
static unsigned addresses = 1, faults, splits, bad, resolves, connects, sends;      // faults, splits: how many are left
static bool failing, v6; static unsigned unresolved, attempts;   // attempts: connects and failed socket() calls
static unsigned hard;                                            // hard: faults so far that nothing can hide
static const int BASE = 1000;
static bool inner(int fd) { return fd >= 900 && fd < 910; }
static sock* of(int fd) { if (fd >= BASE && fd < BASE + (int)all.size() && all[fd - BASE]->open) return all[fd - BASE]; bad++; errno = EBADF; return nullptr; }
static unsigned live() { unsigned n = 0; for (auto s : all) n += s->open; return n; }
static unsigned event(const char* name, unsigned kinds) { if (!faults) return 0; unsigned c = sym_choice(name, kinds + 1); if (c) faults--; return c; }
static addr read(const void* a) { const sockaddr* s = (const sockaddr*)a; if (s->sa_family == AF_INET) { const sockaddr_in* i = (const sockaddr_in*)a; return {AF_INET, ntohs(i->sin_port), ((const unsigned char*)&i->sin_addr)[3]}; } const sockaddr_in6* i = (const sockaddr_in6*)a; return {AF_INET6, ntohs(i->sin6_port), i->sin6_addr.s6_addr[15]}; }
static ssize_t put(int fd, const std::string& d, const void* to, int flags) {
    sym_call c; sock* s = of(fd); if (!s) return -1; sends++;
    if (s->type == SOCK_DGRAM) {
        unsigned e = event("udp_fault", 2); if (e) { hard++; errno = e == 1 ? ECONNREFUSED : EMSGSIZE; return -1; }
        if (d.size() > 65507) { hard++; errno = EMSGSIZE; return -1; }
        addr a = read(to); if (a.family != s->family) bad++; dgrams.push_back({d, a}); return (ssize_t)d.size(); }
    if (!s->connected || s->failed) { bad++; errno = EPIPE; return -1; }
    if (!(flags & MSG_NOSIGNAL)) bad++;      // a broken pipe would kill the process
    unsigned e = event("tcp_fault", 3); if (e == 3) { errno = EAGAIN; return -1; } if (e) { s->failed = true; hard++; errno = e == 1 ? EPIPE : ECONNRESET; return -1; }
    std::size_t n = d.size(); if (splits && n > 1) { unsigned k = 1 + sym_choice("accepted", n < 16 ? (unsigned)n : 3); if (n >= 16) k = k == 1 ? 1 : k == 2 ? (unsigned)n / 2 : (unsigned)n; if (k < n) { splits--; n = k; } }
    s->sent.append(d, 0, n); return (ssize_t)n; }
}
extern "C" {
ssize_t write(int fd, const void* p, size_t n) { return net::inner(fd) ? (ssize_t)n : syscall(SYS_write, fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { if (net::inner(fd)) { errno = EAGAIN; return -1; } return syscall(SYS_read, fd, p, n); }
int epoll_create1(int) noexcept { return 900; } int epoll_create(int) noexcept { return 900; } int epoll_ctl(int, int, int, struct epoll_event*) noexcept { return 0; } int eventfd(unsigned, int) noexcept { return 901; } int timerfd_create(int, int) noexcept { return 902; }
int socket(int family, int type, int) noexcept { sym_call c; if (net::event("socket_fault", 1)) { net::hard++; net::attempts++; errno = EMFILE; return -1; } net::sock* s = new net::sock; s->type = type & 15; s->family = family; net::all.push_back(s); return net::BASE + (int)net::all.size() - 1; }
int close(int fd) { sym_call c; if (net::inner(fd)) return 0; if (net::sock* s = net::of(fd)) { s->open = false; return 0; } return -1; }
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
int getsockopt(int, int, int, void* p, socklen_t* n) noexcept { if (p && n && *n >= 4) memset(p, 0, 4); return 0; }
__attribute__((weak)) int ioctl(int, unsigned long, ...) noexcept { return 0; }
int poll(struct pollfd* p, nfds_t n, int) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
int connect(int fd, const struct sockaddr* a, socklen_t) {
    sym_call c; net::connects++; net::attempts++; net::sock* s = net::of(fd); if (!s) return -1; if (s->connected || s->failed) { net::bad++; errno = EISCONN; return -1; } s->to = net::read(a); if (s->to.family != s->family) { net::bad++; errno = EAFNOSUPPORT; return -1; }
    unsigned e = net::event("connect_fault", 2); if (e) { s->failed = true; net::hard++; errno = e == 1 ? ECONNREFUSED : ETIMEDOUT; return -1; } s->connected = true; return 0; }
ssize_t sendmsg(int fd, const struct msghdr* m, int f) { std::string d; for (std::size_t i = 0; i < m->msg_iovlen; i++) d.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return net::put(fd, d, m->msg_name, f); }
ssize_t send(int fd, const void* p, std::size_t n, int f) { return net::put(fd, std::string((const char*)p, n), nullptr, f); }
ssize_t sendto(int fd, const void* p, std::size_t n, int f, const struct sockaddr* a, socklen_t) { return net::put(fd, std::string((const char*)p, n), a, f); }
int getaddrinfo(const char* node, const char* service, const struct addrinfo* h, struct addrinfo** res) {
    sym_call c; net::resolves++; net::node = node ? node : ""; net::service = service ? service : ""; if (net::event("resolve_fault", 1)) { net::hard++; net::unresolved++; return EAI_NONAME; } unsigned port = 0; for (char ch : net::service) { if (ch < '0' || ch > '9') return EAI_SERVICE; port = port * 10 + (unsigned)(ch - '0'); }
    addrinfo* first = nullptr; for (unsigned i = net::addresses; i-- > 0;) { addrinfo* x = new addrinfo(); bool six = net::v6 && i == 0; x->ai_family = six ? AF_INET6 : AF_INET; x->ai_socktype = h ? h->ai_socktype : 0;
        if (six) { sockaddr_in6* a = new sockaddr_in6(); a->sin6_family = AF_INET6; a->sin6_port = htons((unsigned short)port); a->sin6_addr.s6_addr[15] = (unsigned char)(i + 1); x->ai_addr = (sockaddr*)a; x->ai_addrlen = sizeof *a; } else { sockaddr_in* a = new sockaddr_in(); a->sin_family = AF_INET; a->sin_port = htons((unsigned short)port); unsigned char* b = (unsigned char*)&a->sin_addr; b[0] = 127; b[3] = (unsigned char)(i + 1); x->ai_addr = (sockaddr*)a; x->ai_addrlen = sizeof *a; }
        x->ai_next = first; first = x; } *res = first; return 0; }
void freeaddrinfo(struct addrinfo* a) noexcept { while (a) { addrinfo* n = a->ai_next; if (a->ai_family == AF_INET6) delete (sockaddr_in6*)a->ai_addr; else delete (sockaddr_in*)a->ai_addr; delete a; a = n; } }
const char* gai_strerror(int) noexcept { return "name not known"; }
}
