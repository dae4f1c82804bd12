// std::__basic_file<char> over rt_file_*: included by lib.cpp (encoding) and native.cpp (replay), so that both
// run the real std::basic_filebuf over the same modelled files.
extern "C" {
int rt_file_open(const char* path, int mode);           // -1 on failure
long rt_file_write(int fd, const char* p, long n);      // bytes taken, -1 on failure
int rt_file_close(int fd);
long rt_file_read(int fd, char* p, long n);
}
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { this->close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int) {
    if (_M_cfile) return nullptr; int fd = rt_file_open(n, (int)m); if (fd < 0) return nullptr; _M_cfile = (__c_file*)(long)(fd + 1); _M_cfile_created = true; return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return nullptr; int r = rt_file_close((int)(long)_M_cfile - 1); _M_cfile = nullptr; return r ? nullptr : this; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { streamsize l = n; while (l > 0) { long r = rt_file_write((int)(long)_M_cfile - 1, s, l); if (r < 0) break; l -= r; s += r; } return n - l; }
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n1, const char* b, streamsize n2) { streamsize r = 0; if (n1) { r = xsputn(a, n1); if (r != n1) return r; } return r + (n2 ? xsputn(b, n2) : 0); }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { return rt_file_read((int)(long)_M_cfile - 1, s, n); }
streamoff __basic_file<char>::seekoff(streamoff, ios_base::seekdir) throw() { return 0; }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { return 0; }
int __basic_file<char>::fd() throw() { return (int)(long)_M_cfile - 1; }
}
