// A file system with inodes behind std::ofstream and stat(2), for the encoding and for the native replay alike.
#pragma once
#include <cerrno>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/stat.h>
#include "sym.h"
namespace vfs {
struct inode { std::string data; unsigned long ino; int opens = 0, writes = 0; };
static std::vector<inode*> all; static std::map<std::string, inode*> dir; struct of { inode* n; int mode; bool open; unsigned long pos; }; static std::vector<of> fds;
static int opens, closes, stats, lastmode, fail_open, fail_write, fail_stat, bad_io; static long chunk;   // fail_*: the number of coming calls that fail; chunk: most bytes taken by one write
static inode* make(const std::string& s = "") { inode* n = new inode{s, 100 + all.size()}; all.push_back(n); return n; }
static inode* at(const std::string& p) { auto i = dir.find(p); return i == dir.end() ? nullptr : i->second; }
static int live() { int k = 0; for (auto& f : fds) k += f.open; return k; }
}
extern "C" {
int rt_file_open(const char* path, int mode) {
    sym_call guard;
    if (vfs::fail_open) { vfs::fail_open--; errno = EACCES; return -1; } bool app = mode & 1, in = mode & 8, out = mode & 16, trunc = mode & 32; vfs::inode*& n = vfs::dir[path];
    if (!n) { if (!out && !app) { vfs::dir.erase(path); errno = ENOENT; return -1; } n = vfs::make(); } if ((out && !app && !in) || trunc) n->data.clear();
    vfs::opens++; n->opens++; vfs::lastmode = mode; vfs::fds.push_back(vfs::of{n, mode, true, 0}); return (int)vfs::fds.size() - 1;
}
long rt_file_write(int fd, const char* p, long n) {
    sym_call guard;
    vfs::of& f = vfs::fds[fd]; if (!f.open) { vfs::bad_io++; return -1; } if (vfs::fail_write) { vfs::fail_write--; errno = ENOSPC; return -1; } if (vfs::chunk && n > vfs::chunk) n = vfs::chunk;
    f.n->writes++; if (f.mode & 1) f.pos = f.n->data.size(); f.n->data.replace(f.pos, n, p, n); f.pos += n; return n;
}
long rt_file_read(int, char*, long) { return 0; }
int rt_file_close(int fd) { sym_call guard; if (!vfs::fds[fd].open) vfs::bad_io++; vfs::fds[fd].open = false; vfs::closes++; return 0; }
int stat(const char* p, struct stat* s) noexcept { sym_call guard; vfs::stats++; if (vfs::fail_stat) { vfs::fail_stat--; errno = EIO; return -1; } vfs::inode* n = vfs::at(p); if (!n) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_ino = n->ino; s->st_dev = 7; s->st_nlink = 1; s->st_mode = S_IFREG | 0644; s->st_size = n->data.size(); return 0; }
}
