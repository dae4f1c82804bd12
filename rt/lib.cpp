// libstdc++ (non-header part) model for symex: strings, containers, threads, streams, locale.
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <list>
#include <unordered_map>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <memory>
#include <chrono>
#include <cstring>
#include <bits/functional_hash.h>
#include "sym.h"
extern "C" {
int __symex_thread_create(void (*)(void*), void*);
void __symex_thread_join(int);
int __symex_thread_self(); long long __symex_clock();
void __symex_yield();
char __libc_single_threaded = 0;
__attribute__((used)) void* rt_throw_bad_alloc(std::size_t);
}
template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(char, const std::string&);
namespace std {
template basic_ostream<char>& operator<<(basic_ostream<char>&, const string&);
// ------------------------------------------------------------------ red-black tree: kept unbalanced-correct
// (a plain binary search tree with the same interface; balance is not observable)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;   // header stays the only red node
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (o == h._M_parent) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        auto y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    auto r = h._M_parent;
    if (!r) { h._M_left = h._M_right = &h; }
    else { auto l = r; while (l->_M_left) l = l->_M_left; h._M_left = l; l = r; while (l->_M_right) l = l->_M_right; h._M_right = l; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// Hash containers: a fixed, sufficient bucket policy (bucket counts are not observable for the code under test).
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    std::size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t el, std::size_t ins) const {
    if (el + ins > _M_next_resize) { std::size_t n = el + ins; if (n < 11) n = 11; if (n < bkt * 2 && el) n = bkt * 2; std::size_t b = _M_next_bkt(n); if (b > bkt || bkt == 1) return {true, b}; }
    return {false, 0};
}
}
// Hash of bytes: any deterministic function is a valid model; a constant keeps symbolic keys out of address arithmetic
// and makes every lookup a comparison of contents (the part that matters).
std::size_t _Hash_bytes(const void*, std::size_t, std::size_t) { return 7; }
std::size_t _Fnv_hash_bytes(const void*, std::size_t, std::size_t) { return 7; }
// ------------------------------------------------------------------ shared_ptr atomics
_Sp_locker::_Sp_locker(const void*) noexcept { ::sym_unsupported("std::atomic_load(shared_ptr)"); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { ::sym_unsupported("std::atomic_load(shared_ptr)"); }
_Sp_locker::~_Sp_locker() {}
// ------------------------------------------------------------------ threads
thread::_State::~_State() {}
void rt_tss_cleanup();
struct rt_dtor { void (*f)(void*); void* p; rt_dtor* next; };
static thread_local rt_dtor* t_dtors;
// destructors of the thread's thread_local objects; those of the main thread run at exit, beyond the harness
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* p, void*) { if (__symex_thread_self()) t_dtors = new rt_dtor{f, p, t_dtors}; return 0; }
static void rt_tls_cleanup() { while (rt_dtor* d = t_dtors) { t_dtors = d->next; d->f(d->p); delete d; } }
extern "C" void rt_thread_main(void* p) { { unique_ptr<thread::_State> st((thread::_State*)p); st->_M_run(); } rt_tls_cleanup(); rt_tss_cleanup(); }
void thread::_M_start_thread(unique_ptr<_State> st, void (*)()) { int id = __symex_thread_create(rt_thread_main, st.release()); _M_id = thread::id((unsigned long)id + 1); }
void thread::join() { if (!joinable()) __throw_system_error(EINVAL); __symex_thread_join((int)(_M_id._M_thread - 1)); _M_id = thread::id(); }
void thread::detach() { if (!joinable()) __throw_system_error(EINVAL); _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
}
extern "C" {
__attribute__((weak)) pthread_t pthread_self() { return (pthread_t)(__symex_thread_self() + 1); }
int pthread_once(pthread_once_t* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
struct PT { void* (*f)(void*); void* a; };
static void pt_main(void* p) { PT t = *(PT*)p; delete (PT*)p; t.f(t.a); std::rt_tls_cleanup(); std::rt_tss_cleanup(); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { *t = (pthread_t)(__symex_thread_create(pt_main, new PT{f, a}) + 1); return 0; }
int pthread_join(pthread_t t, void**) { __symex_thread_join((int)t - 1); return 0; }
int pthread_detach(pthread_t) { return 0; }
}
// ------------------------------------------------------------------ boost::thread_specific_ptr
namespace std { struct TssEnt { const void* key; void* val; void (*caller)(void (*)(void*), void*); void (*cl)(void*); }; static thread_local TssEnt t_tss[8]; 
void rt_tss_cleanup() { for (auto& e : t_tss) if (e.key && e.val) { void* v = e.val; e.val = nullptr; e.key = nullptr; e.caller(e.cl, v); } } }
namespace boost { namespace detail {
typedef void (*cleanup_func_t)(void*); typedef void (*cleanup_caller_t)(cleanup_func_t, void*);
void* get_tss_data(void const* key) { for (auto& e : std::t_tss) if (e.key == key) return e.val; return nullptr; }
void set_tss_data(void const* key, cleanup_caller_t caller, cleanup_func_t func, void* val, bool cleanup_existing) {
    for (auto& e : std::t_tss) if (e.key == key) {
        if (cleanup_existing && e.val && e.caller) e.caller(e.cl, e.val);
        if (func || val) { e.val = val; e.caller = caller; e.cl = func; } else { e.key = nullptr; e.val = nullptr; }
        return;
    }
    if (!func && !val) return;
    for (auto& e : std::t_tss) if (!e.key) { e.key = key; e.val = val; e.caller = caller; e.cl = func; return; }
    ::sym_unsupported("more than 8 thread-specific slots");
}
}}
// ------------------------------------------------------------------ clocks (weak: harnesses override)
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { static long long t = 1500000000000000000ll; return time_point(duration(t)); }
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(__symex_clock())); }
}}}
// ------------------------------------------------------------------ locale and facets: the classic locale only
namespace std {
static const locale::facet* rt_facets[64];
static char rt_impl_mem[sizeof(locale::_Impl) + 64];
static locale::_Impl* rt_impl();
locale::facet::~facet() {}
_Atomic_word locale::id::_S_refcount;
static int rt_ids;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++rt_ids; return _M_index - 1; }
locale::id ctype<char>::id; 
size_t id_a __asm__("_ZNSt7__cxx118numpunctIcE2idE"); size_t id_b __asm__("_ZNSt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE2idE"); size_t id_c __asm__("_ZNSt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEE2idE");
locale::id codecvt<char, char, mbstate_t>::id;
locale::locale() throw() : _M_impl(rt_impl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
static locale* g_classic;
const locale& locale::classic() { if (!g_classic) g_classic = new locale(); return *g_classic; }
locale locale::global(const locale&) { return locale(); }
string locale::name() const { return "C"; }

ctype_base::mask rt_ctab[256];
const ctype_base::mask* ctype<char>::classic_table() throw() { return rt_ctab; }
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : rt_ctab), _M_widen_ok(1), _M_narrow_ok(0) { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; memset(_M_narrow, 0, 256); }
ctype<char>::~ctype() {}
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char ctype<char>::do_toupper(char c) const { return up(c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { while (a < b) { *a = up(*a); a++; } return b; }
char ctype<char>::do_tolower(char c) const { return lo(c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { while (a < b) { *a = lo(*a); a++; } return b; }

codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(nullptr) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t d = e - f; return (int)(d < m ? d : m); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }

static locale::_Impl* g_impl; static void* g_cvt_mem[16]; static void* g_ct_mem[128];
static locale::_Impl* rt_impl() {
    if (!g_impl) {
        g_impl = (locale::_Impl*)rt_impl_mem; g_impl->_M_refcount = 1; g_impl->_M_facets = rt_facets; g_impl->_M_facets_size = 64; g_impl->_M_caches = nullptr;
        rt_facets[codecvt<char, char, mbstate_t>::id._M_id()] = new codecvt<char, char, mbstate_t>(1);
        rt_facets[ctype<char>::id._M_id()] = new ctype<char>(nullptr, false, 1);
        for (int i = 0; i < 256; i++) {
            unsigned m = 0; char c = (char)i;
            if (c >= '0' && c <= '9') m |= ctype_base::digit | ctype_base::xdigit;
            if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
            if (c >= 'a' && c <= 'z') m |= ctype_base::lower | ctype_base::alpha; if (c >= 'A' && c <= 'Z') m |= ctype_base::upper | ctype_base::alpha;
            if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (c >= 32 && c < 127) m |= ctype_base::print; else if (i < 128) m |= ctype_base::cntrl;
            rt_ctab[i] = m;
        }
    }
    return g_impl;
}
template class ctype_byname<char>;
// ------------------------------------------------------------------ ios_base
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::_Words& ios_base::_M_grow_words(int, bool) { ::sym_unsupported("ios_base::iword"); }
bool ios_base::sync_with_stdio(bool) { return true; }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void ios_base_library_init() {}
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ofstream<char>;
template class basic_ifstream<char>;
template ostream& endl(ostream&); template ostream& flush(ostream&); template ostream& ends(ostream&);
template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, unsigned char); template ostream& operator<<(ostream&, signed char);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
}
// number insertion: decimal only (what the library uses)
static std::ostream& insU(std::ostream& o, unsigned long v, bool neg) { char b[24]; int n = 24; do { b[--n] = char('0' + v % 10); v /= 10; } while (v); if (neg) b[--n] = '-'; return std::__ostream_insert(o, b + n, 24 - n); }
extern "C" {
std::ostream& _ZNSo9_M_insertIlEERSoT_(std::ostream* o, long v) { return insU(*o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); }
std::ostream& _ZNSo9_M_insertIxEERSoT_(std::ostream* o, long long v) { return insU(*o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); }
std::ostream& _ZNSo9_M_insertImEERSoT_(std::ostream* o, unsigned long v) { return insU(*o, v, false); }
std::ostream& _ZNSo9_M_insertIyEERSoT_(std::ostream* o, unsigned long long v) { return insU(*o, v, false); }
std::ostream& _ZNSo9_M_insertIbEERSoT_(std::ostream* o, bool v) { return insU(*o, v, false); }
std::ostream& _ZNSo9_M_insertIdEERSoT_(std::ostream* o, double v) { char b[64]; int n = snprintf(b, 64, "%g", v); return std::__ostream_insert(*o, b, n); }
std::ostream& _ZNSo9_M_insertIeEERSoT_(std::ostream* o, long double v) { sym_unsupported("long double output"); }
std::ostream& _ZNSo9_M_insertIPKvEERSoT_(std::ostream* o, const void* v) { sym_unsupported("pointer output"); }
}
#define NOEX(T, c) extern "C" std::istream& _ZNSi10_M_extractI##c##EERSiRT_(std::istream* i, T&) { sym_unsupported("stream extraction"); }
// num_get<double> of the classic locale: gathers [sign] digits [. digits] [e [sign] digits], then converts the gathered text
extern "C" std::istream& _ZNSi10_M_extractIdEERSiRT_(std::istream* i, double& v) {
    std::istream::sentry ok(*i, false); if (!ok) return *i;
    std::streambuf* b = i->rdbuf(); std::string t; bool digits = false, point = false, ex = false, first = true; int c; 
    while ((c = b->sgetc()) != EOF) {
        if (sym_concrete(c >= '0' && c <= '9')) { digits = true; t.push_back((char)sym_concrete(c)); }
        else if (sym_concrete(first && (c == '+' || c == '-'))) t.push_back((char)sym_concrete(c));
        else if (sym_concrete(c == '.' && !point && !ex)) { point = true; t.push_back('.'); }
        else if (sym_concrete((c == 'e' || c == 'E') && digits && !ex)) { ex = true; t.push_back('e'); b->snextc(); int d = b->sgetc(); if (d != EOF && sym_concrete(d == '+' || d == '-')) t.push_back((char)sym_concrete(d)); else { first = false; continue; } }
        else break;
        first = false; b->snextc();
    }
    std::ios_base::iostate st = std::ios_base::goodbit; char* end; v = 0;
    if (t.empty()) st |= std::ios_base::failbit; else { double d = strtod(t.c_str(), &end); if (*end || end == t.c_str()) st |= std::ios_base::failbit; else if (d > 1.7976931348623157e308) { v = 1.7976931348623157e308; st |= std::ios_base::failbit; } else if (d < -1.7976931348623157e308) { v = -1.7976931348623157e308; st |= std::ios_base::failbit; } else v = d; }
    if (c == EOF) st |= std::ios_base::eofbit;
    if (st) i->setstate(st);
    return *i;
}
NOEX(float, f) NOEX(long double, e) NOEX(long, l) NOEX(unsigned long, m) NOEX(bool, b) NOEX(unsigned short, t) NOEX(unsigned, j) NOEX(long long, x) NOEX(unsigned long long, y) NOEX(void*, Pv)
// ------------------------------------------------------------------ files: see env.cpp
#include "file.inl"
// ------------------------------------------------------------------ std::cout / std::cerr
extern "C" void rt_console_write(int fd, const char* p, long n);   // env.cpp
namespace {
struct conbuf : public std::streambuf {
    int fd; conbuf(int fd) : fd(fd) {}
    std::streamsize xsputn(const char* p, std::streamsize n) override { rt_console_write(fd, p, n); return n; }
    int_type overflow(int_type c) override { if (c != -1) { char b = (char)c; rt_console_write(fd, &b, 1); } return c == -1 ? 0 : c; }
    int sync() override { return 0; }
};
alignas(16) char m_cb1[sizeof(conbuf)], m_cb2[sizeof(conbuf)];
}
alignas(16) char rt_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char rt_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char rt_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
__attribute__((constructor(101))) static void rt_init() {
    std::rt_impl();
    new (rt_cout) std::ostream(new (m_cb1) conbuf(1)); new (rt_cerr) std::ostream(new (m_cb2) conbuf(2)); new (rt_clog) std::ostream((conbuf*)m_cb2);
}
extern "C" void* rt_throw_bad_alloc(std::size_t) { throw std::bad_alloc(); }
