// A configuration tree whose scalars may be symbolic: objects, arrays, integers and strings, with the strictness of the JSON one.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <boost/optional/optional.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
struct tree { char t = 'o'; std::int64_t i = 0; std::uint64_t u = 0; std::string s; std::vector<std::pair<std::string, tree>> m; };
static inline tree t_obj() { return tree(); } static inline tree t_arr() { tree x; x.t = 'a'; return x; } static inline tree t_int(std::int64_t v) { tree x; x.t = 'i'; x.i = v; return x; } static inline tree t_uint(std::uint64_t v) { tree x; x.t = 'u'; x.u = v; return x; } static inline tree t_str(const std::string& s) { tree x; x.t = 's'; x.s = s; return x; } static inline tree t_bool(bool b) { tree x; x.t = 'b'; x.i = b; return x; }
static inline tree& put(tree& o, const std::string& k, const tree& v) { o.m.emplace_back(k, v); return o.m.back().second; }
struct stub : blackhole::config::node_t {
    const tree& v; stub(const tree& v) : v(v) {} [[noreturn]] static void bad() { throw std::logic_error("type mismatch"); }
    bool is_bool() const noexcept override { return v.t == 'b'; } bool is_sint64() const noexcept override { return v.t == 'i' || (v.t == 'u' && (std::int64_t)v.u >= 0); } bool is_uint64() const noexcept override { return v.t == 'u' || (v.t == 'i' && v.i >= 0); } bool is_double() const noexcept override { return false; }
    bool is_string() const noexcept override { return v.t == 's'; } bool is_vector() const noexcept override { return v.t == 'a'; } bool is_object() const noexcept override { return v.t == 'o'; }
    bool to_bool() const override { if (!is_bool()) bad(); return v.i; } std::int64_t to_sint64() const override { if (!is_sint64()) bad(); return v.t == 'u' ? (std::int64_t)v.u : v.i; } std::uint64_t to_uint64() const override { if (!is_uint64()) bad(); return v.t == 'u' ? v.u : (std::uint64_t)v.i; } double to_double() const override { bad(); } std::string to_string() const override { if (v.t != 's') bad(); return v.s; }
    void each(const each_function& f) const override { if (v.t != 'a') bad(); for (auto& p : v.m) f(stub(p.second)); } void each_map(const member_function& f) const override { if (v.t != 'o') bad(); for (auto& p : v.m) f(p.first, stub(p.second)); }
    blackhole::config::option<blackhole::config::node_t> operator[](const std::size_t& k) const override { if (v.t != 'a' || k >= v.m.size()) return blackhole::config::option<blackhole::config::node_t>(); return blackhole::config::make_option<stub>(v.m[k].second); }
    blackhole::config::option<blackhole::config::node_t> operator[](const std::string& k) const override { if (v.t == 'o') for (auto& p : v.m) if (p.first == k) return blackhole::config::make_option<stub>(p.second); return blackhole::config::option<blackhole::config::node_t>(); }
};
