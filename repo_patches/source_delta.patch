From eab6ddd705c7aa93789108880abfebda6b3c1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 01/53] hook: let clang parse sink/file.hpp under
 BLACKHOLE_VERIFY

---
 include/blackhole/sink/file.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/blackhole/sink/file.hpp b/include/blackhole/sink/file.hpp
index 1f8eb05..c46c45e 100644
--- a/include/blackhole/sink/file.hpp
+++ b/include/blackhole/sink/file.hpp
@@ -29,8 +29,12 @@ template<class Rep, class Ratio = std::ratio<1>>
 class binary_unit;
 
 /// Disable all fractional units.
+#ifndef BLACKHOLE_VERIFY
+// Clang rejects this declaration as ambiguous with the specialization below; verification builds,
+// which are made with Clang, leave it out.
 template<class Rep, std::uintmax_t Denom>
 class binary_unit<Rep, std::ratio<1, Denom>>;
+#endif
 
 template<class Rep>
 class binary_unit<Rep, std::ratio<1>> {
-- 
2.43.0


From 7836a869d6bc98ba03c0cce95e22a1139ce7db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:55 +0000
Subject: [PATCH 02/53] fix: std::hash for string_view used a non-existent
 function and did not compile

---
 include/blackhole/stdext/string_view.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/blackhole/stdext/string_view.hpp b/include/blackhole/stdext/string_view.hpp
index 6ae2c1c..f9ebb5b 100644
--- a/include/blackhole/stdext/string_view.hpp
+++ b/include/blackhole/stdext/string_view.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <functional>
 #include <iosfwd>
 #include <limits>
 #include <stdexcept>
@@ -199,7 +200,13 @@ template<typename Char, typename Traits>
 auto hash<blackhole::stdext::basic_string_view<Char, Traits>>::operator()(
     const blackhole::stdext::basic_string_view<Char, Traits>& val) const noexcept -> std::size_t
 {
-    return __do_string_hash(val.data(), val.data() + val.size());
+    // Polynomial hash over characters, because the standard library provides no portable function
+    // that hashes a character range.
+    std::size_t result = val.size();
+    for (std::size_t id = 0; id < val.size(); ++id) {
+        result = result * 31 + std::hash<Char>()(val.data()[id]);
+    }
+    return result;
 }
 
 }  // namespace std
-- 
2.43.0


From 62dd57e9da484a0948337694651c62dcec8adf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 03/53] fix: string_view ordering compared signed characters
 instead of Traits::compare as documented

---
 include/blackhole/stdext/string_view.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/blackhole/stdext/string_view.hpp b/include/blackhole/stdext/string_view.hpp
index f9ebb5b..12bca17 100644
--- a/include/blackhole/stdext/string_view.hpp
+++ b/include/blackhole/stdext/string_view.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <iosfwd>
 #include <limits>
@@ -163,11 +164,11 @@ operator==(typename std::common_type<basic_string_view<Char, Traits>>::type this
 }
 
 template<typename Char, typename Traits >
-constexpr auto operator<(basic_string_view<Char, Traits> lhs, basic_string_view<Char, Traits> rhs) ->
+auto operator<(basic_string_view<Char, Traits> lhs, basic_string_view<Char, Traits> rhs) ->
     bool
 {
-    return std::lexicographical_compare(lhs.data(), lhs.data() + lhs.size(),
-        rhs.data(), rhs.data() + rhs.size());
+    const auto rc = Traits::compare(lhs.data(), rhs.data(), std::min(lhs.size(), rhs.size()));
+    return rc < 0 || (rc == 0 && lhs.size() < rhs.size());
 }
 
 template<class Char, class Traits>
-- 
2.43.0


From 573e58de0b87ffb9a5e5a144230b96b2a16413e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:06 +0000
Subject: [PATCH 04/53] fix: facade passed a non-terminated pattern view to the
 formatter, reading past its end

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..2d33510 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), std::cref(pattern), std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..02a83d0 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -17,8 +17,9 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    // The view is not required to be null-terminated, unlike the format string expected by the writer.
+    wr.write(pattern.to_string(), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +88,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), std::cref(pattern), std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
-- 
2.43.0


From 7b891c7bb0a6924aabfc43a33444f574bf04cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:02 +0000
Subject: [PATCH 05/53] fix: move-assigning a logger with live scopes lost them
 and tripped an assertion; moved-from logger kept dangling scopes

---
 include/blackhole/scope/watcher.hpp |  3 +++
 src/root.cpp                        | 18 ++++++++++--------
 src/scope/watcher.cpp               | 25 +++++++++++++++++++++++--
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/blackhole/scope/watcher.hpp b/include/blackhole/scope/watcher.hpp
index 6a577e9..67a5726 100644
--- a/include/blackhole/scope/watcher.hpp
+++ b/include/blackhole/scope/watcher.hpp
@@ -53,6 +53,9 @@ public:
     /// Recursively collects all scoped attributes into the given attributes pack.
     auto collect(attribute_pack& pack) const -> void;
 
+    /// Attaches the given chain of watches (may be null) below the outermost one of this chain.
+    auto append(watcher_t* other) -> void;
+
     /// Recursively rebind all scoped attributes with the new logger manager.
     ///
     /// Usually called in the middle of the logger's move operation.
diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..5389425 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -109,10 +109,10 @@ root_logger_t::root_logger_t(root_logger_t&& other) noexcept :
     sync(new sync_t),
     inner(other.sync->load(other.inner))
 {
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
+    if (auto scope = other.sync->manager.get()) {
+        other.sync->manager.reset(nullptr);
+        sync->manager.reset(scope);
+        scope->rebind(sync->manager);
     }
 }
 
@@ -127,10 +127,12 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     const auto inner = other.sync->load(other.inner);
     sync->store(this->inner, std::move(inner));
 
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
+    // Scopes that are already attached to this logger stay alive, so they have to be kept.
+    if (auto scope = other.sync->manager.get()) {
+        other.sync->manager.reset(nullptr);
+        scope->append(sync->manager.get());
+        sync->manager.reset(scope);
+        scope->rebind(sync->manager);
     }
 
     return *this;
diff --git a/src/scope/watcher.cpp b/src/scope/watcher.cpp
index f55f002..fbad9d1 100644
--- a/src/scope/watcher.cpp
+++ b/src/scope/watcher.cpp
@@ -18,8 +18,20 @@ watcher_t::watcher_t(logger_t& logger) :
 }
 
 watcher_t::~watcher_t() {
-    BOOST_ASSERT(manager.get().get() == this);
-    manager.get().reset(prev);
+    auto current = manager.get().get();
+
+    if (current == this) {
+        manager.get().reset(prev);
+        return;
+    }
+
+    // The logger has taken over the scopes of another one, which may be placed above this one.
+    while (current && current->prev != this) {
+        current = current->prev;
+    }
+
+    BOOST_ASSERT(current);
+    current->prev = prev;
 }
 
 auto watcher_t::collect(attribute_pack& pack) const -> void {
@@ -30,6 +42,15 @@ auto watcher_t::collect(attribute_pack& pack) const -> void {
     }
 }
 
+auto watcher_t::append(watcher_t* other) -> void {
+    auto last = this;
+    while (last->prev) {
+        last = last->prev;
+    }
+
+    last->prev = other;
+}
+
 auto watcher_t::rebind(manager_t& manager) -> void {
     this->manager = manager;
 
-- 
2.43.0


From 52a2efa080371a821cea4d618655dbe8b7aa7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:24 +0000
Subject: [PATCH 06/53] fix: attribute view inequality was declared but never
 defined

---
 src/attribute.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute.cpp b/src/attribute.cpp
index 4e17d41..56207b3 100644
--- a/src/attribute.cpp
+++ b/src/attribute.cpp
@@ -253,6 +253,10 @@ auto view_t::operator==(const view_t& other) const -> bool {
     return inner().value == other.inner().value;
 }
 
+auto view_t::operator!=(const view_t& other) const -> bool {
+    return !(*this == other);
+}
+
 auto view_t::apply(visitor_t& visitor) const -> void {
     boost::apply_visitor(from<view_t>{visitor}, inner().value);
 }
-- 
2.43.0


From da7be63d486e95efc1a08f9403e5b315089a3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:12 +0000
Subject: [PATCH 07/53] fix: unclosed placeholder specification tripped an
 assertion instead of being rejected as ill-formed

---
 src/formatter/string/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index 9985a29..0c4de27 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -208,7 +208,8 @@ parser_t::parse_spec() -> std::string {
         ++pos;
     }
 
-    return spec;
+    // The placeholder isn't closed.
+    throw_<illformed_t>();
 }
 
 auto
-- 
2.43.0


From 2aed59b93fb7378ee13ac2a59dfc83dad874d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 08/53] fix: an empty string argument was measured again as
 NUL-terminated, reading past its end

---
 include/blackhole/extensions/format.hpp | 4 +++-
 src/format.cpp                          | 8 --------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 45fac32..8bbfc7c 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -1235,7 +1235,9 @@ class ArgVisitor {
       return FMT_DISPATCH(visit_long_double(arg.long_double_value));
     case Arg::CSTRING: {
       Arg::StringValue<char> str = arg.string;
-      str.size = 0;
+      if (!str.value)
+        throw FormatError("string pointer is null");
+      str.size = std::char_traits<char>::length(str.value);
       return FMT_DISPATCH(visit_string(str));
     }
     case Arg::STRING:
diff --git a/src/format.cpp b/src/format.cpp
index 575e4b7..2ca779d 100644
--- a/src/format.cpp
+++ b/src/format.cpp
@@ -795,14 +795,6 @@ void fmt::BasicWriter<Char>::write_str(
     internal::report_unknown_type(spec.type_, "string");
   const StrChar *str_value = s.value;
   std::size_t str_size = s.size;
-  if (str_size == 0) {
-    if (!str_value) {
-      FMT_THROW(FormatError("string pointer is null"));
-      return;
-    }
-    if (*str_value)
-      str_size = std::char_traits<StrChar>::length(str_value);
-  }
   std::size_t precision = spec.precision_;
   if (spec.precision_ >= 0 && precision < str_size)
     str_size = spec.precision_;
-- 
2.43.0


From c340f9e988c757feae99a690acf18c5f4c4b0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:28 +0000
Subject: [PATCH 09/53] fix: formatters ignored the length of string
 attributes, reading past views that are not NUL-terminated and truncating at
 NUL

---
 src/formatter/json.cpp   | 2 +-
 src/formatter/string.cpp | 2 +-
 src/formatter/tskv.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..327cc30 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -96,7 +96,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..5997cca 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -82,7 +82,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, string_ref(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..fcf686c 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -44,7 +44,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
-- 
2.43.0


From 44848933637f888023091124f6188c2b85c31e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:48 +0000
Subject: [PATCH 10/53] fix: time zone fields were left uninitialised, so %z
 and %Z in UTC timestamps printed garbage or crashed

---
 src/util/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..3756160 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = "GMT";
 
     return tp;
 }
-- 
2.43.0


From b3040ed99eaf8d11992ccf121432413e2de5aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 11/53] fix: local timestamps ignored daylight saving time and
 had the sign of the UTC offset reversed

---
 src/util/time.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index 3756160..c4a4575 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -85,12 +85,7 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    return ::localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From 795acd520989b050d46b47f2d9bd95280b335856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 12/53] fix: an escaped percent sign before 'f' or 's' in a
 timestamp pattern was taken for a placeholder

---
 src/datetime/generator.linux.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..2f28d91 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -46,7 +46,12 @@ generator_t::generator_t(std::string pattern) {
 
     auto pos = std::begin(pattern);
     while (pos != std::end(pattern)) {
-        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
+        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%%")) {
+            // An escaped percent sign can't start a placeholder.
+            literal.append("%%");
+            ++pos;
+            ++pos;
+        } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
             tokens.emplace_back(literal_t{std::move(literal)});
             tokens.emplace_back(usecond_t{});
             literal.clear();
-- 
2.43.0


From a43c0dbf14faf864d1bd267ae6768bdc59567655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:57 +0000
Subject: [PATCH 13/53] fix: timestamp text longer than the internal buffer was
 dropped

---
 src/datetime/generator.linux.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 2f28d91..e8f2d9c 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -26,8 +26,21 @@ struct visitor_t : public boost::static_visitor<> {
     {}
 
     auto operator()(const literal_t& value) -> void {
+        // The strftime function returns zero both on overflow and on empty result, so there is a
+        // single leading character in the pattern to distinguish them, which is not written.
         std::size_t ret = std::strftime(buffer, sizeof(buffer), value.value.c_str(), &tm);
-        stream << fmt::StringRef(buffer, ret);
+        if (ret > 0) {
+            stream << fmt::StringRef(buffer + 1, ret - 1);
+            return;
+        }
+
+        std::vector<char> large(sizeof(buffer));
+        do {
+            large.resize(2 * large.size());
+            ret = std::strftime(large.data(), large.size(), value.value.c_str(), &tm);
+        } while (ret == 0);
+
+        stream << fmt::StringRef(large.data() + 1, ret - 1);
     }
 
     auto operator()(epoch_t) -> void {
@@ -52,13 +65,13 @@ generator_t::generator_t(std::string pattern) {
             ++pos;
             ++pos;
         } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
-            tokens.emplace_back(literal_t{std::move(literal)});
+            tokens.emplace_back(literal_t{" " + literal});
             tokens.emplace_back(usecond_t{});
             literal.clear();
             ++pos;
             ++pos;
         } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%s")) {
-            tokens.emplace_back(literal_t{std::move(literal)});
+            tokens.emplace_back(literal_t{" " + literal});
             tokens.emplace_back(epoch_t{});
             literal.clear();
             ++pos;
@@ -70,7 +83,7 @@ generator_t::generator_t(std::string pattern) {
     }
 
     if (!literal.empty()) {
-        tokens.emplace_back(literal_t{std::move(literal)});
+        tokens.emplace_back(literal_t{" " + literal});
     }
 }
 
-- 
2.43.0


From 212ec37e8802cce6bb6de5185cbf620044dda7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 14/53] fix: a negative severity without a configured name was
 printed as a huge unsigned number

---
 src/formatter/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 5997cca..a7b85a1 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -385,9 +385,9 @@ auto factory<string_t>::from(const config::node_t& config) const -> std::unique_
             sevmap.emplace_back(config.to_string());
         });
 
-        auto fn = [=](std::size_t severity, const std::string& spec, writer_t& writer) {
-            if (severity < sevmap.size()) {
-                writer.write(spec, sevmap[severity]);
+        auto fn = [=](int severity, const std::string& spec, writer_t& writer) {
+            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
+                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
             } else {
                 writer.write(spec, severity);
             }
-- 
2.43.0


From f7f9e48ee521e5b445cd586ee42a1d2a0d404a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 15/53] fix: an attribute view reserved too few bytes, so
 copying one could drop the end of a pointer

---
 include/blackhole/attribute.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blackhole/attribute.hpp b/include/blackhole/attribute.hpp
index 1919368..cf35619 100644
--- a/include/blackhole/attribute.hpp
+++ b/include/blackhole/attribute.hpp
@@ -228,7 +228,7 @@ public:
     struct inner_t;
 
 private:
-    typedef std::aligned_storage<2 * sizeof(void*) + sizeof(int)>::type storage_type;
+    typedef std::aligned_storage<3 * sizeof(void*)>::type storage_type;
 
     /// The underlying type.
     storage_type storage;
-- 
2.43.0


From f02ec98b0f5c8fed297f33e690835e21968aac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:11 +0000
Subject: [PATCH 16/53] fix: a non-finite double attribute truncated the JSON
 document

---
 src/formatter/json.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 327cc30..58f8001 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/json.hpp"
 
 #include <array>
+#include <cmath>
 #include <set>
 #include <unordered_map>
 
@@ -44,14 +45,22 @@ struct visitor_t {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
     }
 
-    // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
+    // There is no way to represent non-finite numbers in JSON.
+    auto operator()(double value) -> void {
+        if (std::isfinite(value)) {
+            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        } else {
+            node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        }
+    }
+
+    // For `bool`, `std::int64_t` and `std::uint64_t` types.
     template<typename T>
     auto operator()(T value) -> void {
         static_assert(
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
-            std::is_same<T, std::uint64_t>::value ||
-            std::is_same<T, double>::value, "type mismatch");
+            std::is_same<T, std::uint64_t>::value, "type mismatch");
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
     }
 
-- 
2.43.0


From 2d4757fcae732f452f7e45f2372c94879170a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 17/53] fix: an invalid JSON pointer in routing tripped an
 assertion on the first record instead of being rejected

---
 src/formatter/json.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 58f8001..5175246 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -173,7 +173,7 @@ public:
     std::vector<std::string> severity;
 
     inner_t(json_t::properties_t properties) :
-        rest(properties.routing.unspecified),
+        rest(pointer(properties.routing.unspecified)),
         mapping(std::move(properties.mapping)),
         formatting(std::move(properties.formatting)),
         unique(properties.unique),
@@ -183,11 +183,21 @@ public:
     {
         for (const auto& route : properties.routing.specified) {
             for (const auto& name : route.second) {
-                routing.insert({name, rapidjson::Pointer(route.first)});
+                routing.insert({name, pointer(route.first)});
             }
         }
     }
 
+    static auto pointer(const std::string& route) -> rapidjson::Pointer {
+        rapidjson::Pointer result(route);
+
+        if (!result.IsValid()) {
+            throw std::invalid_argument("route \"" + route + "\" is not a valid JSON pointer");
+        }
+
+        return result;
+    }
+
     template<typename Document>
     auto get(const string_view& name, Document& root) -> rapidjson::Value& {
         // TODO: Here we can avoid a temporary string construction by using multi indexed
-- 
2.43.0


From 4bd1646ab4c8aeb2a19147c215582ab501a75eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:44 +0000
Subject: [PATCH 18/53] fix: an attribute named like a routing destination
 aborted the process or was overwritten

---
 src/formatter/json.cpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 5175246..a0a84e6 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -205,12 +205,41 @@ public:
         const auto it = routing.find(name.to_string());
 
         if (it == routing.end()) {
-            return rest.GetWithDefault(root, rapidjson::kObjectType);
+            return object(rest, root);
         } else {
-            return it->second.GetWithDefault(root, rapidjson::kObjectType);
+            return object(it->second, root);
         }
     }
 
+    /// Returns an object at the given location, creating it if there is nothing yet.
+    ///
+    /// If the location is already occupied by some other value, for example by an attribute with
+    /// the same name, the root is returned to neither overwrite that value nor lose a new one.
+    template<typename Document>
+    static auto object(const rapidjson::Pointer& pointer, Document& root) -> rapidjson::Value& {
+        const rapidjson::Value* node = &root;
+
+        for (std::size_t id = 0; id < pointer.GetTokenCount(); ++id) {
+            const auto& token = pointer.GetTokens()[id];
+
+            if (node->IsObject()) {
+                const auto it = node->FindMember(
+                    rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
+                node = it == node->MemberEnd() ? nullptr : &it->value;
+            } else if (node->IsArray()) {
+                node = token.index < node->Size() ? &(*node)[token.index] : nullptr;
+            } else {
+                return root;
+            }
+
+            if (node == nullptr) {
+                return pointer.GetWithDefault(root, rapidjson::kObjectType);
+            }
+        }
+
+        return node->IsObject() ? const_cast<rapidjson::Value&>(*node) : root;
+    }
+
     template<typename Document>
     auto create(Document& root, const record_t& record) -> builder<Document>;
 
-- 
2.43.0


From 47bfbbacf02b48c9f023df548947e3dd53511b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:51 +0000
Subject: [PATCH 19/53] fix: unique JSON option let duplicate keys through when
 attributes met predefined fields or were renamed

---
 src/formatter/json.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index a0a84e6..3e4e0ca 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -2,7 +2,6 @@
 
 #include <array>
 #include <cmath>
-#include <set>
 #include <unordered_map>
 
 #include <boost/optional/optional.hpp>
@@ -322,12 +321,9 @@ public:
 
     auto attributes() -> void {
         if (inner.unique) {
-            // TODO: Small buffer optimization is possible here (see stack allocator with arena).
-            std::set<string_view> set;
-
             for (const auto& attributes : record.attributes()) {
                 for (const auto& attribute : attributes.get()) {
-                    if (set.insert(attribute.first).second) {
+                    if (!contains(attribute.first)) {
                         apply(attribute.first, attribute.second);
                     }
                 }
@@ -345,6 +341,14 @@ public:
     }
 
 private:
+    /// Checks whether there is already a value at the place where the given attribute goes.
+    auto contains(const string_view& name) -> bool {
+        const auto renamed = inner.renamed(name);
+        const auto& node = inner.get(name, root);
+
+        return node.HasMember(rapidjson::Value(rapidjson::StringRef(renamed.data(), renamed.size())));
+    }
+
     template<typename T>
     auto apply(const string_view& name, const T& value) -> void {
         const auto renamed = inner.renamed(name);
-- 
2.43.0


From ef856ff96c062dfcc9b18a29973625f06b16fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:59 +0000
Subject: [PATCH 20/53] fix: TSKV attribute names were not escaped, so tabs,
 newlines or backslashes in them broke the framing

---
 src/formatter/tskv.cpp | 82 +++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index fcf686c..6a8eea2 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -179,54 +179,56 @@ private:
 
     auto write_escaped_key(string_view key) -> void {
         for (auto it = key.data(); it != key.data() + key.size(); ++it) {
-            switch (*it) {
-            case '=':
+            if (*it == '=') {
                 wr.inner << "\\=";
-                break;
-            default:
-                wr.inner << *it;
-            };
+            } else {
+                write_escaped(*it);
+            }
         }
     }
 
     auto write_escaped_val(string_view value) -> void {
         for (auto it = value.data(); it != value.data() + value.size(); ++it) {
-            switch (*it) {
-            case '\a':
-                wr.inner << "\\a";
-                break;
-            case '\b':
-                wr.inner << "\\b";
-                break;
-            case '\t':
-                wr.inner << "\\t";
-                break;
-            case '\n':
-                wr.inner << "\\n";
-                break;
-            case '\v':
-                wr.inner << "\\v";
-                break;
-            case '\f':
-                wr.inner << "\\f";
-                break;
-            case '\r':
-                wr.inner << "\\r";
-                break;
-            case '\x1B':
-                wr.inner << "\\e";
-                break;
-            case '\0':
-                wr.inner << "\\0";
-                break;
-            case '\\':
-                wr.inner << "\\\\";
-                break;
-            default:
-                wr.inner << *it;
-            };
+            write_escaped(*it);
         }
     }
+
+    auto write_escaped(char c) -> void {
+        switch (c) {
+        case '\a':
+            wr.inner << "\\a";
+            break;
+        case '\b':
+            wr.inner << "\\b";
+            break;
+        case '\t':
+            wr.inner << "\\t";
+            break;
+        case '\n':
+            wr.inner << "\\n";
+            break;
+        case '\v':
+            wr.inner << "\\v";
+            break;
+        case '\f':
+            wr.inner << "\\f";
+            break;
+        case '\r':
+            wr.inner << "\\r";
+            break;
+        case '\x1B':
+            wr.inner << "\\e";
+            break;
+        case '\0':
+            wr.inner << "\\0";
+            break;
+        case '\\':
+            wr.inner << "\\\\";
+            break;
+        default:
+            wr.inner << c;
+        };
+    }
 };
 
 class tskv_t : public formatter_t {
-- 
2.43.0


From 97a80e02a43a140d6cfeeb281662fe452d85eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:07 +0000
Subject: [PATCH 21/53] fix: TSKV formatter ignored removing and renaming of
 the thread id field

---
 src/formatter/tskv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 6a8eea2..3e7141d 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -95,13 +95,15 @@ public:
     }
 
     auto add_tid() -> void {
-        wr.write("\ttid={:#x}",
+        writer_t id;
+        id.write("{:#x}",
 #ifdef __linux__
             record.tid()
 #elif __APPLE__
             reinterpret_cast<unsigned long>(record.tid())
 #endif
         );
+        add("tid", string_view(id.inner.data(), id.inner.size()));
     }
 
     auto add_message() -> void {
-- 
2.43.0


From b170a12d9d09718182210f4aa83e3401e46f1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 22/53] fix: JSON configuration strings and keys were truncated
 at an embedded NUL

---
 src/config/json.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 2d8904c..b586837 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -134,7 +134,7 @@ public:
 
     auto to_string() const -> std::string {
         if (is_string()) {
-            return value.GetString();
+            return std::string(value.GetString(), value.GetStringLength());
         }
 
         type_mismatch("string");
@@ -156,7 +156,8 @@ public:
         }
 
         for (auto it = value.MemberBegin(); it != value.MemberEnd(); ++it) {
-            fn(it->name.GetString(), json_t(it->value, advance(it->name.GetString())));
+            const std::string name(it->name.GetString(), it->name.GetStringLength());
+            fn(name, json_t(it->value, advance(name)));
         }
     }
 
@@ -169,8 +170,12 @@ public:
     }
 
     auto operator[](const std::string& key) const -> option_t {
-        if (value.IsObject() && value.HasMember(key.c_str())) {
-            return make_option<json_t>(value[key.c_str()], advance(key));
+        if (value.IsObject()) {
+            const auto it = value.FindMember(rapidjson::Value(rapidjson::StringRef(key.data(), key.size())));
+
+            if (it != value.MemberEnd()) {
+                return make_option<json_t>(it->value, advance(key));
+            }
         }
 
         return {};
-- 
2.43.0


From 59e78d5986e47640490c0e3081b4aaf6ef9c1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:21 +0000
Subject: [PATCH 23/53] fix: string formatter without a pattern in
 configuration tripped an assertion instead of throwing

---
 src/formatter/string.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index a7b85a1..0f96409 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -377,7 +377,13 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    const auto option = config["pattern"].to_string();
+
+    if (!option) {
+        throw std::invalid_argument("field 'pattern' is required");
+    }
+
+    auto pattern = option.get();
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
-- 
2.43.0


From e58bef8725006c70ef901d92e0c47f099ca4686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:27 +0000
Subject: [PATCH 24/53] fix: asynchronous sink without factor or overflow in
 configuration tripped an assertion instead of throwing

---
 src/sink/asynchronous.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..dc14992 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -70,14 +70,25 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    const auto factor = config["factor"].to_uint64();
+
+    if (!factor) {
+        throw std::invalid_argument("\"factor\" field is required");
+    }
+
+    const auto policy = config["overflow"].to_string();
+
+    if (!policy) {
+        throw std::invalid_argument("\"overflow\" field is required");
+    }
+
+    auto overflow = sink::overflow_policy_factory_t().create(policy.get());
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
     auto sink = factory(*config["sink"].unwrap());
 
-    return std::unique_ptr<sink_t>(new sink::asynchronous_t(std::move(sink), factor, std::move(overflow)));
+    return std::unique_ptr<sink_t>(new sink::asynchronous_t(std::move(sink), factor.get(), std::move(overflow)));
 }
 
 template auto deleter_t::operator()(builder<sink::asynchronous_t>::inner_t* value) -> void;
-- 
2.43.0


From 1131ab0ac87d672f2afad2368ff5dfdfe70a7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 25/53] fix: asynchronous sink builder ignored the overflow
 policy set

---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index dc14992..9df551a 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From aa9f51f792196a98749f79d82c16be8d4346784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:42 +0000
Subject: [PATCH 26/53] fix: a port above 65535 in socket sinks configuration
 was silently truncated

---
 src/sink/socket/tcp.cpp | 5 +++++
 src/sink/socket/udp.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..31dd48c 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <mutex>
 
 #include <boost/asio/write.hpp>
@@ -154,6 +155,10 @@ auto factory<tcp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<tcp_t>(host, static_cast<std::uint16_t>(port));
 }
 
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index f819b48..97bf278 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
@@ -55,6 +57,10 @@ auto factory<udp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<udp_t>(host, static_cast<std::uint16_t>(port));
 }
 
-- 
2.43.0


From 2f64a4561a2be65812db0187bb208850cf7572ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:48 +0000
Subject: [PATCH 27/53] fix: a data size that does not fit in 64 bits silently
 wrapped around

---
 src/sink/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..e2a5112 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -76,6 +76,10 @@ auto parse_dunit(const std::string& encoded) -> std::uint64_t {
         throw std::invalid_argument("unknown data unit - " + unit);
     }
 
+    if (base > std::numeric_limits<std::uint64_t>::max() / it->second) {
+        throw std::invalid_argument("data size is too large - " + encoded);
+    }
+
     return base * it->second;
 }
 
-- 
2.43.0


From 9164703ca9a4e0123d76ae4afafe4a22a597449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 28/53] fix: an ill-typed flush option of the file sink was
 silently ignored

---
 src/sink/file.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index e2a5112..5bf5cb7 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -227,13 +227,17 @@ auto factory<sink::file_t>::from(const config::node_t& config) const -> std::uni
     builder<sink::file_t> builder(filename.get());
 
     if (auto flush = config["flush"]) {
-        if (flush.unwrap()->is_uint64()) {
+        const auto is_uint64 = flush.unwrap()->is_uint64();
+
+        if (is_uint64) {
             builder.flush_every(flush.unwrap()->to_uint64());
         }
 
         if (flush.unwrap()->is_string()) {
             const auto bytes = sink::file::flusher::parse_dunit(flush.unwrap()->to_string());
             builder.flush_every(bytes_t(bytes));
+        } else if (!is_uint64) {
+            throw std::invalid_argument("field 'flush' must be either a number or a string");
         }
     }
 
-- 
2.43.0


From 9a2367d5c88b02c6a74fdc428f21f331b753ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:50 +0000
Subject: [PATCH 29/53] fix: a file rotation without a type was silently
 ignored

---
 src/sink/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 5bf5cb7..ccbf7c0 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -248,6 +248,8 @@ auto factory<sink::file_t>::from(const config::node_t& config) const -> std::uni
             } else {
                 throw std::invalid_argument("rotate type \"" + *type + "\" is not registered");
             }
+        } else {
+            throw std::invalid_argument("rotate type is required");
         }
     }
 
-- 
2.43.0


From 5eff4c57fb9910e9ea7786c7d1b04d4ca9dbda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:55 +0000
Subject: [PATCH 30/53] fix: a console sink filter without a type was silently
 ignored

---
 src/sink/console.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 86a2ec3..10ff01b 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -172,11 +172,16 @@ auto factory<sink::console_t>::type() const noexcept -> const char* {
 }
 
 auto factory<sink::console_t>::from(const config::node_t& config) const -> std::unique_ptr<sink_t> {
-    if (auto type = config["filter"]["type"].to_string()) {
+    if (auto filter = config["filter"]) {
+        auto type = filter["type"].to_string();
+
+        if (!type) {
+            throw std::invalid_argument("each filter must have a type");
+        }
+
         auto factory = registry.filter(*type);
-        auto filter = factory(*config["filter"].unwrap());
 
-        return blackhole::make_unique<sink::console_t>(std::move(filter));
+        return blackhole::make_unique<sink::console_t>(factory(*filter.unwrap()));
     }
 
     return blackhole::make_unique<sink::console_t>();
-- 
2.43.0


From 5008c99f53408573de3b0597ec0d74901fdf95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 31/53] fix: a syslog priority out of the int range was
 silently truncated

---
 src/sink/syslog.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6bd4941..6be49e6 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -2,6 +2,8 @@
 
 #include <syslog.h>
 
+#include <limits>
+
 #include "blackhole/config/node.hpp"
 #include "blackhole/config/option.hpp"
 #include "blackhole/stdext/string_view.hpp"
@@ -72,7 +74,13 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
         mapping.each([&](const config::node_t& config) {
-            priorities.emplace_back(config.to_sint64());
+            const auto priority = config.to_sint64();
+
+            if (priority < std::numeric_limits<int>::min() || priority > std::numeric_limits<int>::max()) {
+                throw std::invalid_argument("syslog priority is out of range");
+            }
+
+            priorities.emplace_back(static_cast<int>(priority));
         });
 
         syslog.priorities(std::move(priorities));
-- 
2.43.0


From 67ad277f23fd43f3f3e016bf508f3304091475ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 32/53] fix: an incomplete TSKV mutation was silently ignored

---
 src/formatter/tskv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 3e7141d..967b00d 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -366,6 +366,8 @@ auto factory<tskv_t>::from(const config::node_t& config) const -> std::unique_pt
                 builder.timestamp(key, strftime.to_string().get(), gmtime);
                 return;
             }
+
+            throw std::invalid_argument("mutation requires \"strftime\" field");
         });
     }
 
-- 
2.43.0


From d25ef985ca8b2ac79eab347781f9c5a1b932d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 33/53] fix: building a logger that is not in the configuration
 silently gave one without handlers

---
 src/registry.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index ac2ac9f..7f48b37 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -65,8 +65,13 @@ auto builder_t::build(const std::string& name) -> root_logger_t {
 
     std::vector<std::unique_ptr<handler_t>> handlers;
 
-    // TODO: Check `config.contains(name)`.
-    config[name].each([&](const config::node_t& config) {
+    const auto root = config[name];
+
+    if (!root) {
+        throw std::invalid_argument("logger \"" + name + "\" is not configured");
+    }
+
+    root.each([&](const config::node_t& config) {
         handlers.emplace_back(handler(config));
     });
 
-- 
2.43.0


From 5b3651e14eebf38c1cc1b061f1cd3a9514a95fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 34/53] fix: a syslog sink built from configuration left a
 dangling identity and closed the log

---
 src/sink/syslog.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6be49e6..9953fb5 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -69,7 +69,8 @@ auto factory<sink::syslog_t>::type() const noexcept -> const char* {
 
 auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::unique_ptr<sink_t> {
     (void)registry;
-    sink::syslog_t syslog;
+    // The object must not be moved, because syslog(3) keeps a pointer to its identity.
+    std::unique_ptr<sink::syslog_t> syslog(new sink::syslog_t);
 
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
@@ -83,10 +84,10 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
             priorities.emplace_back(static_cast<int>(priority));
         });
 
-        syslog.priorities(std::move(priorities));
+        syslog->priorities(std::move(priorities));
     }
 
-    return std::unique_ptr<sink_t>(new sink::syslog_t(std::move(syslog)));
+    return std::move(syslog);
 }
 
 }  // namespace v1
-- 
2.43.0


From 91a3bc7ac119bd707375513a60d89b133fc9c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 35/53] fix: syslog sink lost the message bound for sizes above
 the int range

---
 src/sink/syslog.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 9953fb5..ce046ea 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -2,6 +2,7 @@
 
 #include <syslog.h>
 
+#include <algorithm>
 #include <limits>
 
 #include "blackhole/config/node.hpp"
@@ -58,7 +59,10 @@ auto syslog_t::emit(const record_t& record, const string_view& formatted) -> voi
         priority = LOG_ERR;
     }
 
-    ::syslog(priority, "%.*s", static_cast<int>(formatted.size()), formatted.data());
+    // A negative precision means that there is no one, so a size must not overflow.
+    const auto size = std::min<std::size_t>(formatted.size(), std::numeric_limits<int>::max());
+
+    ::syslog(priority, "%.*s", static_cast<int>(size), formatted.data());
 }
 
 }  // namespace sink
-- 
2.43.0


From beffcd187fb8dabaeb3f0609b1aa1e90efe5a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 36/53] fix: setting a filter could undo a concurrent logger
 reassignment

---
 src/root.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 5389425..e4beedb 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -140,13 +140,11 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
 
 auto
 root_logger_t::filter(filter_t fn) -> void {
-    auto inner = sync->load(this->inner);
+    const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0


From c5dc8841ea92c5eea117dbc2199b4d6a58cf8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 37/53] fix: asynchronous sink assigned to an object that is
 not constructed in the queue

---
 src/sink/asynchronous.p.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..768b237 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <condition_variable>
 #include <mutex>
+#include <new>
 
 namespace blackhole {
 inline namespace v1 {
@@ -92,6 +93,8 @@ auto asynchronous_t::capacity() const -> std::size_t {
 }
 
 auto asynchronous_t::emit(const record_t& record, const string_view& message) -> void {
+    value_type item{recordbuf_t(record), message.to_string()};
+
     while (true) {
         // TODO: Uncomment.
         // switch (filter->filter(record, message)) {
@@ -103,7 +106,8 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         // }
 
         const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+            // There is no value in an empty cell yet.
+            new(&value) value_type(std::move(item));
         });
 
         if (enqueued) {
-- 
2.43.0


From 25d216808d1ccf147e54ebbbcce7aa6fd000f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 38/53] fix: asynchronous sink could lose the last records on
 destruction

---
 src/sink/asynchronous.p.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 768b237..0e16a73 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -126,6 +126,9 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 
 auto asynchronous_t::run() -> void {
     while (true) {
+        // Must be read before checking the queue, otherwise records enqueued between are lost.
+        const bool stopped = this->stopped;
+
         value_type result;
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
-- 
2.43.0


From 6ff210391d863c776aef75ff5134fb7231225b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:03 +0000
Subject: [PATCH 39/53] fix: an exception from the sink wrapped by the
 asynchronous one terminated the process

---
 src/sink/asynchronous.p.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 0e16a73..ffef616 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -141,11 +141,10 @@ auto asynchronous_t::run() -> void {
         if (dequeued) {
             try {
                 wrapped->emit(result.record.into_view(), result.message);
-                overflow_policy->wakeup();
             } catch (...) {
-                throw;
                 // TODO: exception_policy->process();
             }
+            overflow_policy->wakeup();
         } else {
             std::this_thread::sleep_for(std::chrono::milliseconds(1));
             // TODO: underflow_policy->underflow(); [wait for enqueue, sleep].
-- 
2.43.0


From dce52ae339cc7c27b4e9a6c706d5ad1e7cfcd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 40/53] fix: documented range of the asynchronous sink factor

---
 include/blackhole/sink/asynchronous.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blackhole/sink/asynchronous.hpp b/include/blackhole/sink/asynchronous.hpp
index cbffc95..8b2ee43 100644
--- a/include/blackhole/sink/asynchronous.hpp
+++ b/include/blackhole/sink/asynchronous.hpp
@@ -17,14 +17,14 @@ namespace sink {
 /// # Parameters
 ///
 /// The factor value maps directly into the queue capacity and equals exp2(factor). The value must
-/// fit in [0; 20] range (1048576 items).
+/// fit in [2; 20] range (1048576 items).
 ///
 /// Overflow policy decides what action is taken when the queue is overflowed. There are currently
 /// only two available policies: drop and wait. The first one will silently (or not) drop all log
 /// events that weren't enqueued. The second one will block the caller thread until the queue is
 /// full.
 ///
-/// \throw std::invalid_argument on construction if the factor is greater than 20.
+/// \throw std::invalid_argument on construction if the factor is less than 2 or greater than 20.
 /// \throw std::invalid_argument on construction if the overflow policy value differs from "drop" or
 ///     "wait".
 class asynchronous_t;
-- 
2.43.0


From f45d3cd78d6c8e8b2191f55088f048a2dc7371b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 41/53] fix: reserve the padding before formatting a floating
 point number

---
 include/blackhole/extensions/format.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 8bbfc7c..264a09b 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2443,8 +2443,11 @@ void BasicWriter<Char>::write_double(
 
   std::size_t offset = buffer_.size();
   unsigned width = spec.width();
+  // Reserve the space for both sign and padding in advance, because the text
+  // formatted below is not accounted in the buffer size until the very end and
+  // therefore doesn't survive a reallocation.
+  buffer_.reserve(buffer_.size() + (std::max)(width, 1u));
   if (sign) {
-    buffer_.reserve(buffer_.size() + (std::max)(width, 1u));
     if (width > 0)
       --width;
     ++offset;
-- 
2.43.0


From f1277ab03428ef9d94abaa09ba02a973b2c97009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 42/53] fix: pad left aligned floating point numbers with the
 fill character

---
 include/blackhole/extensions/format.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 264a09b..b11ed1a 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2461,13 +2461,11 @@ void BasicWriter<Char>::write_double(
   unsigned width_for_sprintf = width;
   if (spec.flag(HASH_FLAG))
     *format_ptr++ = '#';
-  if (spec.align() == ALIGN_CENTER) {
+  if (spec.align() == ALIGN_CENTER || spec.align() == ALIGN_LEFT) {
+    // sprintf always pads with spaces, fill the padding ourselves.
     width_for_sprintf = 0;
-  } else {
-    if (spec.align() == ALIGN_LEFT)
-      *format_ptr++ = '-';
-    if (width != 0)
-      *format_ptr++ = '*';
+  } else if (width != 0) {
+    *format_ptr++ = '*';
   }
   if (spec.precision() >= 0) {
     *format_ptr++ = '.';
@@ -2513,6 +2511,13 @@ void BasicWriter<Char>::write_double(
         fill_padding(p, spec.width(), n, fill);
         return;
       }
+      if (spec.align() == ALIGN_LEFT &&
+          spec.width() > static_cast<unsigned>(n)) {
+        width = spec.width();
+        CharPtr p = grow_buffer(width);
+        std::fill(p + n, p + width, fill);
+        return;
+      }
       if (spec.fill() != ' ' || sign) {
         while (*start == ' ')
           *start++ = fill;
-- 
2.43.0


From 04a56763e23cde0f570f81011c6dc2791b45e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 43/53] fix: numeric alignment of infinities and NaN pads
 between the sign and the text

---
 include/blackhole/extensions/format.hpp | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index b11ed1a..a6bc8b4 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -1992,6 +1992,28 @@ class BasicWriter {
   template <typename T>
   void write_double(T value, const FormatSpec &spec);
 
+  // Writes a text of a floating-point number, which is either NaN or infinity,
+  // with a placeholder for the sign at the beginning.
+  void write_nonfinite(const char *text, char sign, AlignSpec spec) {
+    std::size_t size = 4;
+    if (sign && spec.align() == ALIGN_NUMERIC) {
+      // The padding is placed after the sign.
+      buffer_.push_back(sign);
+      if (spec.width_ > 0)
+        --spec.width_;
+      sign = 0;
+    }
+    if (!sign) {
+      --size;
+      ++text;
+    }
+    if (spec.align() == ALIGN_NUMERIC)
+      spec.align_ = ALIGN_RIGHT;
+    CharPtr out = write_str(text, size, spec);
+    if (sign)
+      *out = sign;
+  }
+
   // Writes a formatted string.
   template <typename StrChar>
   CharPtr write_str(
@@ -2414,30 +2436,14 @@ void BasicWriter<Char>::write_double(
   if (internal::isnotanumber(value)) {
     // Format NaN ourselves because sprintf's output is not consistent
     // across platforms.
-    std::size_t nan_size = 4;
-    const char *nan = upper ? " NAN" : " nan";
-    if (!sign) {
-      --nan_size;
-      ++nan;
-    }
-    CharPtr out = write_str(nan, nan_size, spec);
-    if (sign)
-      *out = sign;
+    write_nonfinite(upper ? " NAN" : " nan", sign, spec);
     return;
   }
 
   if (internal::isinfinity(value)) {
     // Format infinity ourselves because sprintf's output is not consistent
     // across platforms.
-    std::size_t inf_size = 4;
-    const char *inf = upper ? " INF" : " inf";
-    if (!sign) {
-      --inf_size;
-      ++inf;
-    }
-    CharPtr out = write_str(inf, inf_size, spec);
-    if (sign)
-      *out = sign;
+    write_nonfinite(upper ? " INF" : " inf", sign, spec);
     return;
   }
 
-- 
2.43.0


From faf777d993912542184043f5e516692c400a9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 44/53] fix: JSON formatter accepts empty string views without
 data

---
 src/formatter/json.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 3e4e0ca..e3808ac 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -32,6 +32,11 @@ inline namespace v1 {
 namespace formatter {
 namespace {
 
+/// Returns a reference to the given string, which may be empty with no data at all.
+auto reference(const string_view& value) -> rapidjson::GenericStringRef<char> {
+    return rapidjson::StringRef(value.size() == 0 ? "" : value.data(), value.size());
+}
+
 struct visitor_t {
     typedef void result_type;
 
@@ -41,15 +46,15 @@ struct visitor_t {
     const string_view& name;
 
     auto operator()(std::nullptr_t) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        node.AddMember(reference(name), rapidjson::kNullType, allocator);
     }
 
     // There is no way to represent non-finite numbers in JSON.
     auto operator()(double value) -> void {
         if (std::isfinite(value)) {
-            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+            node.AddMember(reference(name), value, allocator);
         } else {
-            node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+            node.AddMember(reference(name), rapidjson::kNullType, allocator);
         }
     }
 
@@ -60,17 +65,17 @@ struct visitor_t {
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
             std::is_same<T, std::uint64_t>::value, "type mismatch");
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        node.AddMember(reference(name), value, allocator);
     }
 
     auto operator()(const string_view& value) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+        node.AddMember(reference(name),
+            reference(value), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
     auto operator()(const char* data, std::size_t size) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(reference(name),
             rapidjson::Value(data, static_cast<unsigned int>(size), allocator), allocator);
     }
 
@@ -78,7 +83,7 @@ struct visitor_t {
         writer_t wr;
         value(wr);
 
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(reference(name),
             wr.result().to_string(), allocator);
     }
 };
@@ -346,7 +351,7 @@ private:
         const auto renamed = inner.renamed(name);
         const auto& node = inner.get(name, root);
 
-        return node.HasMember(rapidjson::Value(rapidjson::StringRef(renamed.data(), renamed.size())));
+        return node.HasMember(rapidjson::Value(reference(renamed)));
     }
 
     template<typename T>
-- 
2.43.0


From 9d0e6fab0c9d951d393c0492e023227a2a94604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 45/53] fix: keep array elements when a JSON route names a key
 inside an array

---
 src/formatter/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index e3808ac..e6b291f 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -231,6 +231,10 @@ public:
                     rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
                 node = it == node->MemberEnd() ? nullptr : &it->value;
             } else if (node->IsArray()) {
+                if (token.index == rapidjson::kPointerInvalidIndex) {
+                    return root;
+                }
+
                 node = token.index < node->Size() ? &(*node)[token.index] : nullptr;
             } else {
                 return root;
-- 
2.43.0


From ed2f4fc276171d12b3382e8e9b58ff4a8ca22058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 46/53] fix: escape values of constant TSKV fields

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 967b00d..0ffb21e 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -122,7 +122,7 @@ public:
 
     auto add_constants() -> void {
         for (const auto& kv : data.attributes) {
-            add(kv.first, kv.second);
+            add(kv.first, string_view(kv.second));
         }
     }
 
-- 
2.43.0


From 2ee9e3d9059499c76b1a8bc482b026b28966c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 47/53] fix: keep broken-down time intact when formatting
 seconds since epoch

---
 src/datetime/generator.linux.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index e8f2d9c..5638df6 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -44,7 +44,9 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // The mktime function normalizes its argument, which is required intact by other tokens.
+        std::tm copy(tm);
+        stream.write("{}", std::mktime(&copy));
     }
 
     auto operator()(usecond_t) -> void {
-- 
2.43.0


From 28ec88930ae9b090ac780de5c5c17b2d28b4f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:29 +0000
Subject: [PATCH 48/53] fix: byte count flush policy missed the threshold when
 the counter overflowed

---
 src/sink/file/flusher/bytecount.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sink/file/flusher/bytecount.hpp b/src/sink/file/flusher/bytecount.hpp
index 19bd57f..138367a 100644
--- a/src/sink/file/flusher/bytecount.hpp
+++ b/src/sink/file/flusher/bytecount.hpp
@@ -38,11 +38,16 @@ public:
         auto result = flusher_t::result_t::idle;
 
         if (nwritten != 0) {
-            if (counter + nwritten >= threshold()) {
+            // The counter is always less than the threshold. Comparing with what is left until the
+            // threshold, because their sum may be unrepresentable.
+            const auto left = threshold() - counter;
+
+            if (nwritten >= left) {
                 result = flusher_t::result_t::flush;
+                counter = (nwritten - left) % threshold();
+            } else {
+                counter += nwritten;
             }
-
-            counter = (counter + nwritten) % threshold();
         }
 
         return result;
-- 
2.43.0


From 3d7d423077784cdbf199d7d4c0de4b97379024d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 49/53] fix: a NUL byte ended the configuration document

---
 src/config/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/json.cpp b/src/config/json.cpp
index ac7dee5..febf804 100644
--- a/src/config/json.cpp
+++ b/src/config/json.cpp
@@ -45,6 +45,12 @@ auto factory<json_t>::initialize(std::istream& stream) -> void {
             boost::lexical_cast<std::string>(doc.GetErrorOffset()) +
             ": " + rapidjson::GetParseError_En(doc.GetParseError()));
     }
+
+    // The parser treats a NUL character as the end of the stream.
+    if (wrapper.Peek() != '\0' || !stream.eof()) {
+        throw std::invalid_argument("parse error at offset " +
+            boost::lexical_cast<std::string>(wrapper.Tell()) + ": unexpected NUL character");
+    }
 }
 
 }  // namespace config
-- 
2.43.0


From 7ef6644a39432f35e92138bcaa4e1ada9019ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:58 +0000
Subject: [PATCH 50/53] fix: compile-time formatting of booleans, characters
 and null strings

---
 include/blackhole/extensions/metaformat.hpp | 44 +++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/blackhole/extensions/metaformat.hpp b/include/blackhole/extensions/metaformat.hpp
index 1059aa7..9555986 100644
--- a/include/blackhole/extensions/metaformat.hpp
+++ b/include/blackhole/extensions/metaformat.hpp
@@ -168,6 +168,50 @@ struct format_traits {
     }
 };
 
+/// Unlike the writer, the runtime formatter distinguishes booleans and characters from integers.
+template<>
+struct format_traits<bool> {
+    static inline
+    void
+    format(fmt::MemoryWriter& writer, bool val) {
+        writer << (val ? "true" : "false");
+    }
+};
+
+template<>
+struct format_traits<signed char> {
+    static inline
+    void
+    format(fmt::MemoryWriter& writer, signed char val) {
+        writer << static_cast<char>(val);
+    }
+};
+
+template<>
+struct format_traits<unsigned char> {
+    static inline
+    void
+    format(fmt::MemoryWriter& writer, unsigned char val) {
+        writer << static_cast<char>(val);
+    }
+};
+
+template<>
+struct format_traits<const char*> {
+    static inline
+    void
+    format(fmt::MemoryWriter& writer, const char* val) {
+        if (val == nullptr) {
+            throw fmt::FormatError("string pointer is null");
+        }
+
+        writer << val;
+    }
+};
+
+template<>
+struct format_traits<char*> : public format_traits<const char*> {};
+
 // TODO: Store placeholder number information too.
 template<std::size_t N>
 struct formatter {
-- 
2.43.0


From 547470b9714b5fc629e9c5a845218d8bae979c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:07 +0000
Subject: [PATCH 51/53] fix: compile-time patterns with escaped braces did not
 compile

---
 include/blackhole/extensions/metaformat.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/blackhole/extensions/metaformat.hpp b/include/blackhole/extensions/metaformat.hpp
index 9555986..d70141e 100644
--- a/include/blackhole/extensions/metaformat.hpp
+++ b/include/blackhole/extensions/metaformat.hpp
@@ -240,6 +240,19 @@ public:
         }
     }
 
+    /// Formats the rest of a pattern, when there are no arguments left.
+    constexpr
+    void
+    format(fmt::MemoryWriter& writer) const {
+        writer << fmt::StringRef(literal.data.data(), literal.data.size());
+
+        if (literal.placeholder_next) {
+            throw fmt::FormatError("argument index out of range");
+        }
+
+        next.format(writer);
+    }
+
     template<class Stream>
     Stream&
     repr(Stream& stream) const {
-- 
2.43.0


From 26422f9e21a940babffe7cc23e4d6161ea0d3ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 52/53] fix: records formatted with a compile-time pattern had
 no message

---
 include/blackhole/extensions/facade.hpp     | 3 +--
 include/blackhole/extensions/metaformat.hpp | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 2d33510..bb3e89c 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -128,8 +128,7 @@ logger_facade<Logger>::log(int severity, const detail::formatter<N>& pattern, co
     };
 
     attribute_pack pack;
-    // TODO: Pass non-empty pattern.
-    inner().log(severity, {"", std::cref(fn)}, pack);
+    inner().log(severity, {pattern.pattern, std::cref(fn)}, pack);
 }
 
 #endif
diff --git a/include/blackhole/extensions/metaformat.hpp b/include/blackhole/extensions/metaformat.hpp
index d70141e..3c63b7b 100644
--- a/include/blackhole/extensions/metaformat.hpp
+++ b/include/blackhole/extensions/metaformat.hpp
@@ -215,12 +215,15 @@ struct format_traits<char*> : public format_traits<const char*> {};
 // TODO: Store placeholder number information too.
 template<std::size_t N>
 struct formatter {
+    /// The pattern this formatter was constructed with.
+    const string_view pattern;
     const literal_t literal;
     const formatter<N - 1> next;
 
 public:
     constexpr
     formatter(const string_view& format) :
+        pattern(format),
         literal(::next_literal(format)),
         // NOTE: 2 == placeholder.width.
         next(format.substr(literal.placeholder_next ? literal.data.size() + 2 : literal.data.size() + 1))
@@ -268,11 +271,13 @@ struct formatter<0>;
 
 template<>
 struct formatter<1> {
+    const string_view pattern;
     const literal_t literal;
 
 public:
     constexpr
     formatter(const string_view& format) :
+        pattern(format),
         literal({format, false})
     {}
 
-- 
2.43.0


From 5e4f1080051fd50505ed1d3cce36034eecf53578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 53/53] fix: an owned record showed the LWP of the thread
 reading it

---
 src/record.cpp    | 6 ++++++
 src/recordbuf.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/record.cpp b/src/record.cpp
index 79ae526..263d364 100644
--- a/src/record.cpp
+++ b/src/record.cpp
@@ -28,6 +28,7 @@ record_t::record_t(severity_t severity,
     inner.severity = severity;
     inner.timestamp = time_point();
 
+    inner.lwp = 0;
     inner.tid = ::pthread_self();
 
     inner.attributes = attributes;
@@ -54,6 +55,11 @@ auto record_t::pid() const noexcept -> std::uint64_t {
 }
 
 auto record_t::lwp() const noexcept -> std::uint64_t {
+    // Owned records remember the thread they were copied on, others are always used on their own.
+    if (inner().lwp != 0) {
+        return inner().lwp;
+    }
+
 #if defined(__linux__)
     return ::syscall(SYS_gettid);
 #else
diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index bd238e6..84c2565 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -133,6 +133,7 @@ public:
         inner.formatted = formatted.view;
         inner.severity = record.severity();
         inner.timestamp = record.timestamp();
+        inner.lwp = record.lwp();
         inner.tid = record.tid();
         inner.attributes = pack;
     }
-- 
2.43.0

