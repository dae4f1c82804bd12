// C++ ABI runtime model for symex: exceptions, type information, standard exception classes.
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <functional>
#include <ios>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include "sym.h"
extern "C" {
[[noreturn]] void __symex_unwind(void*);
int __symex_thread_self();
void __symex_yield();
}
// ------------------------------------------------------------------ type info vtables
#define VT(cls, sym) extern "C" { void* cls[8] __asm__(sym) = {nullptr, nullptr, (void*)1, (void*)1, (void*)1, (void*)1, (void*)1, (void*)1}; }
VT(vt_class, "_ZTVN10__cxxabiv117__class_type_infoE")
VT(vt_si, "_ZTVN10__cxxabiv120__si_class_type_infoE")
VT(vt_vmi, "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
VT(vt_ptr, "_ZTVN10__cxxabiv119__pointer_type_infoE")
VT(vt_fund, "_ZTVN10__cxxabiv123__fundamental_type_infoE")
VT(vt_fn, "_ZTVN10__cxxabiv120__function_type_infoE")
VT(vt_enum, "_ZTVN10__cxxabiv116__enum_type_infoE")
VT(vt_arr, "_ZTVN10__cxxabiv117__array_type_infoE")
VT(vt_memptr, "_ZTVN10__cxxabiv129__pointer_to_member_type_infoE")
struct TI { void** vt; const char* name; };
struct PTI { void** vt; const char* name; unsigned flags; TI* pointee; };
#define FT(c, n) extern "C" { TI ti_##c __asm__("_ZTI" n) = {&vt_fund[2], n}; \
  PTI tip_##c __asm__("_ZTIP" n) = {&vt_ptr[2], "P" n, 0, &ti_##c}; PTI tipk_##c __asm__("_ZTIPK" n) = {&vt_ptr[2], "PK" n, 1, &ti_##c}; }
FT(v, "v") FT(b, "b") FT(c, "c") FT(a, "a") FT(h, "h") FT(s, "s") FT(t, "t") FT(i, "i") FT(j, "j") FT(l, "l") FT(m, "m") FT(x, "x") FT(y, "y") FT(f, "f") FT(d, "d") FT(e, "e") FT(w, "w") FT(n, "n") FT(o, "o") FT(Dn, "Dn") FT(Ds, "Ds") FT(Di, "Di")

// dynamic_cast over the single/multiple non-virtual inheritance used here
namespace {
struct SI { void** vt; const char* name; const TI* base; };
struct VB { const TI* base; long off; };
struct VMI { void** vt; const char* name; unsigned flags, n; VB b[1]; };
const char* find(const TI* t, const char* p, const TI* want) {
    if (t == want || (t->name[0] != '*' && !strcmp(t->name, want->name))) return p;
    if (t->vt == &vt_si[2]) return find(((const SI*)t)->base, p, want);
    if (t->vt == &vt_vmi[2]) {
        auto v = (const VMI*)t;
        for (unsigned i = 0; i < v->n; i++) {
            if (!(v->b[i].off & 2)) continue;
            long o = v->b[i].off >> 8;
            if (v->b[i].off & 1) o = *(const long*)(*(const char* const*)p + o);
            if (auto r = find(v->b[i].base, p + o, want)) return r;
        }
    }
    return nullptr;
}
}
extern "C" void* __dynamic_cast(const void* src, const TI*, const TI* dst, long) {
    auto vt = *(void* const* const*)src; auto whole = (const char*)src + (long)vt[-2]; auto ti = (const TI*)vt[-1];
    return (void*)find(ti, whole, dst);
}
// std::type_info
namespace std {
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
}
// ------------------------------------------------------------------ exceptions
struct Hdr { void* tinfo; void (*dtor)(void*); long refs; long handlers; Hdr* next; void* adj; long prim; long pad; };
static_assert(sizeof(Hdr) == 64, "header");
static thread_local Hdr* g_caught;
static thread_local int g_uncaught;
static inline Hdr* H(void* e) { return (Hdr*)e - 1; }
extern "C" {
void* __cxa_allocate_exception(std::size_t n) { char* p = (char*)std::malloc(n + 64); std::memset(p, 0, 64); return p + 64; }
void __cxa_free_exception(void* e) { std::free(H(e)); }
__cxxabiv1::__cxa_refcounted_exception* __cxxabiv1::__cxa_init_primary_exception(void* e, std::type_info* t, void (*d)(void*)) noexcept { H(e)->tinfo = t; H(e)->dtor = d; H(e)->adj = e; return (__cxxabiv1::__cxa_refcounted_exception*)H(e); }
void __cxa_throw(void* e, std::type_info* t, void (*d)(void*)) { Hdr* h = H(e); h->tinfo = t; h->dtor = d; h->refs = 1; h->handlers = 0; h->next = nullptr; h->prim = 0; g_uncaught++; __symex_unwind(e); }
void* __cxa_get_exception_ptr(void* e) { return H(e)->adj; }
void* __cxa_begin_catch(void* e) {
    Hdr* h = H(e); g_uncaught--; h->handlers = (h->handlers < 0 ? -h->handlers : h->handlers) + 1;
    if (g_caught != h) { h->next = g_caught; g_caught = h; }
    return h->adj;
}
static void release(Hdr* h) { if (h->prim) { Hdr* d = h; h = H((void*)h->prim); std::free(d); } if (__atomic_sub_fetch(&h->refs, 1, __ATOMIC_ACQ_REL) == 0) { if (h->dtor) h->dtor(h + 1); std::free(h); } }
void __cxa_end_catch() {
    Hdr* h = g_caught; if (!h) return;
    if (h->handlers < 0) { if (++h->handlers == 0) g_caught = h->next; return; }   // being rethrown
    if (--h->handlers == 0) { g_caught = h->next; release(h); }
}
void __cxa_rethrow() { Hdr* h = g_caught; if (!h) std::terminate(); h->handlers = -h->handlers; g_uncaught++; __symex_unwind(h + 1); }
int __cxa_guard_acquire(std::uint64_t* g) {
    for (;;) {
        char st = __atomic_load_n((char*)g, __ATOMIC_ACQUIRE);
        if (st & 1) return 0;
        char* busy = (char*)g + 1; char z = 0;
        if (__atomic_compare_exchange_n(busy, &z, (char)1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE) & 1) { __atomic_store_n(busy, (char)0, __ATOMIC_RELEASE); return 0; }
            return 1;
        }
        __symex_yield();
    }
}
void __cxa_guard_release(std::uint64_t* g) { __atomic_store_n((char*)g, (char)1, __ATOMIC_RELEASE); __atomic_store_n((char*)g + 1, (char)0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(std::uint64_t* g) { __atomic_store_n((char*)g + 1, (char)0, __ATOMIC_RELEASE); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_call_unexpected(void*) { std::terminate(); }
int __gxx_personality_v0() { return 0; }
void* __dso_handle = nullptr;
}
namespace std {
bool uncaught_exception() noexcept { return g_uncaught > 0; }
int uncaught_exceptions() noexcept { return g_uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __atomic_add_fetch(&H(_M_exception_object)->refs, 1, __ATOMIC_ACQ_REL); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { release(H(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object ? (const type_info*)H(_M_exception_object)->tinfo : nullptr; }
}
exception_ptr current_exception() noexcept { Hdr* h = g_caught; return h ? exception_ptr(h->prim ? (void*)h->prim : (void*)(h + 1)) : exception_ptr(); }
void rethrow_exception(exception_ptr p) {
    // a dependent exception: a header of its own in front of nothing, pointing to the object, which it keeps alive
    void* e = p._M_exception_object; Hdr* h = H(e); __atomic_add_fetch(&h->refs, 1, __ATOMIC_ACQ_REL);
    Hdr* d = (Hdr*)std::malloc(sizeof(Hdr) + 8); std::memset(d, 0, sizeof(Hdr) + 8); d->tinfo = h->tinfo; d->prim = (long)e; g_uncaught++;
    p._M_release();
    __symex_unwind(d + 1);
}
// ------------------------------------------------------------------ std exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// __cow_string: pointer to characters preceded by a reference count
namespace {
const char* cow_new(const char* s, size_t n) { long* p = (long*)malloc(sizeof(long) + n + 1); *p = 1; char* q = (char*)(p + 1); if (n) memcpy(q, s, n); q[n] = 0; return q; }
void cow_ref(const char* s) { __atomic_add_fetch((long*)s - 1, 1, __ATOMIC_ACQ_REL); }
void cow_unref(const char* s) { if (s && __atomic_sub_fetch((long*)s - 1, 1, __ATOMIC_ACQ_REL) == 0) free((long*)s - 1); }
}
__cow_string::__cow_string() : _M_p(cow_new("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cow_new(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cow_new(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { cow_ref(_M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { cow_ref(o._M_p); cow_unref(_M_p); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { cow_unref(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = cow_new("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { swap(_M_p, o._M_p); return *this; }

logic_error::logic_error(const string& s) : _M_msg(s.data(), s.size()) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s.data(), s.size()) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SUB(c, b) c::c(const string& s) : b(s) {} c::c(const char* s) : b(s) {} c::~c() noexcept {}
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)

// error categories
inline namespace _V2 {
error_category::~error_category() {}
__cow_string error_category::_M_message(int c) const { string s = message(c); return __cow_string(s.data(), s.size()); }
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int c, const error_condition& e) const noexcept { return default_error_condition(c) == e; }
bool error_category::equivalent(const error_code& e, int c) const noexcept { return *this == e.category() && e.value() == c; }
}
namespace {
string errtext(int c) {
    string s = "errno "; char b[12]; int n = 0; unsigned v = (unsigned)c; do { b[n++] = char('0' + v % 10); v /= 10; } while (v); while (n) s.push_back(b[--n]); return s;
}
struct cat_t : public error_category {
    const char* n; cat_t(const char* n) : n(n) {}
    const char* name() const noexcept override { return n; }
    string message(int c) const override { return errtext(c); }
};
}
inline namespace _V2 {
const error_category& generic_category() noexcept { static cat_t* c = new cat_t("generic"); return *c; }
const error_category& system_category() noexcept { static cat_t* c = new cat_t("system"); return *c; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
ios_base::failure::failure(const string& s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return runtime_error::what(); }
const error_category& iostream_category() noexcept { static cat_t* c = new cat_t("iostream"); return *c; }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int e) { throw ios_base::failure(s, e ? error_code(e, system_category()) : error_code(io_errc::stream)); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
}
extern "C" { TI ti_fu __asm__("_ZTIN10__cxxabiv115__forced_unwindE") = {&vt_class[2], "N10__cxxabiv115__forced_unwindE"}; }
