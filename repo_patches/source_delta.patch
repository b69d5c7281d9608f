From 90dc864894895d7ff48c3972248e488fb16508c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 01/26] fix: accept lower-case hex digits in escapes and IPv6
 addresses

---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From 5f033380f5ada38518b7be88fc99cffda9cb86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 02/26] fix: accept digits in a scheme

---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 91c5703d4dc3952b16cc65467641099626db0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 03/26] fix: validate the first character of an absolute path

---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 54a2d6231b933a7ee04775fc8028387827af8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:36 +0000
Subject: [PATCH 04/26] fix: reject IPv6 addresses whose IPv4 part has no or a
 zero-padded first octet

---
 include/boost/url/detail/parse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..586ed1f 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -457,6 +457,7 @@ struct parser
         bool b = false; // got '::'
         bool c = false; // need colon
         long word = 0;
+        auto pw = p_; // start of word
         for(;;)
         {
             if(p_ == end_)
@@ -493,6 +494,7 @@ struct parser
                 }
                 else if(c)
                 {
+                    pw = p_;
                     word = parse_word(ec);
                     if(ec)
                         return;
@@ -515,7 +517,9 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
+                if(! c ||
+                    (*pw == '0' && p_ - pw > 1) ||
+                    ! maybe_octet(word))
                 {
                     // invalid octet
                     ec = error::syntax;
@@ -571,6 +575,7 @@ struct parser
             }
             else if(! c)
             {
+                pw = p_;
                 word = parse_word(ec);
                 if(ec)
                     return;
-- 
2.43.0


From aba5b489d51183c24cf7d4f28f73061ed9e01e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:36 +0000
Subject: [PATCH 05/26] fix: accept IPvFuture host literals

---
 include/boost/url/detail/parse.hpp | 40 ++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 586ed1f..9e327f9 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -280,7 +280,17 @@ struct parser
             return;
         }
         ++p_;
-        parse_ip_v6(ec);
+        auto host = host_type::ipv6;
+        if(p_ != end_ && (
+            *p_ == 'v' || *p_ == 'V'))
+        {
+            host = host_type::ipvfuture;
+            parse_ip_vfuture(ec);
+        }
+        else
+        {
+            parse_ip_v6(ec);
+        }
         if(ec)
             return;
         if(p_ == end_)
@@ -294,7 +304,33 @@ struct parser
             return;
         }
         ++p_;
-        pt.host = host_type::ipv6;
+        pt.host = host;
+    }
+
+    // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
+    void
+    parse_ip_vfuture(
+        error_code& ec) noexcept
+    {
+        auto p0 = ++p_;
+        while(p_ != end_ &&
+            hex_digit(*p_) != -1)
+            ++p_;
+        if( p_ == p0 ||
+            p_ == end_ ||
+            *p_ != '.')
+        {
+            ec = error::syntax;
+            return;
+        }
+        p0 = ++p_;
+        auto const e =
+            userinfo_pct_set();
+        while(p_ != end_ &&
+            ! e.is_special(*p_))
+            ++p_;
+        if(p_ == p0)
+            ec = error::syntax;
     }
 
     void
-- 
2.43.0


From 9a60c18376948c5f6200b8967a66fe3bf43b3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 06/26] fix: end segment iteration at the end of the path, not
 of the query

---
 include/boost/url/impl/url_base.ipp | 9 +++------
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..8e12fc4 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1245,10 +1245,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1297,16 +1297,13 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
     auto const p0 =
         v_->s_ + off_;
     auto p = p0;
-    if(*p == '/')
+    if(p != end && *p == '/')
         ++p;
     while(p < end)
     {
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..8a2ea61 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From 6c872d6aeb341a866c245582182f83713a3dcae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 07/26] fix: split query parameters at every '&' and stop at
 the fragment

---
 include/boost/url/detail/parse.hpp  | 13 -------------
 include/boost/url/impl/url_base.ipp | 22 ++++++++++++----------
 include/boost/url/impl/url_view.ipp | 22 ++++++++++++----------
 3 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 9e327f9..93ac0f8 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -795,25 +795,12 @@ struct parser
             return;
         if(*p_ != '?')
             return;
-        auto const ek =
-            qkey_pct_set();
         auto const ev =
             qval_pct_set();
         std::size_t n = 0;
         for(;;)
         {
             ++n;
-            p_ = ek.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
             p_ = ev.parse(
                 p_, end_, ec);
             if(ec)
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 8e12fc4..0d3f83f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1624,6 +1624,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
@@ -1637,7 +1638,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
@@ -1646,25 +1647,26 @@ parse() noexcept
         ( off_ != v_->pt_.offset[
             detail::id_query] &&
             *p == '&' ));
-    auto p0 = p++;
+    auto const p0 = p++;
     auto const ek =
         detail::qkey_pct_set();
+    auto const ev =
+        detail::qval_pct_set();
     error_code ec;
-    p = ek.parse(p, end, ec);
+    // the parameter ends at '&'
+    auto const p1 =
+        ev.parse(p, end, ec);
+    BOOST_ASSERT(! ec);
+    p = ek.parse(p, p1, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == p1)
     {
         nv_ = 0;
         return;
     }
-    auto const ev =
-        detail::qval_pct_set();
     BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
-    nv_ = p - p0;
+    nv_ = p1 - p;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 8a2ea61..a99fd6f 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
@@ -649,7 +650,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
@@ -658,25 +659,26 @@ parse() noexcept
         ( off_ != pt_->offset[
             detail::id_query] &&
             *p == '&' ));
-    auto p0 = p++;
+    auto const p0 = p++;
     auto const ek =
         detail::qkey_pct_set();
+    auto const ev =
+        detail::qval_pct_set();
     error_code ec;
-    p = ek.parse(p, end, ec);
+    // the parameter ends at '&'
+    auto const p1 =
+        ev.parse(p, end, ec);
+    BOOST_ASSERT(! ec);
+    p = ek.parse(p, p1, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == p1)
     {
         nv_ = 0;
         return;
     }
-    auto const ev =
-        detail::qval_pct_set();
     BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
-    nv_ = p - p0;
+    nv_ = p1 - p;
 }
 
 //----------------------------------------------------------
-- 
2.43.0


From c8c5b1b862140a604ed2fa9536b37e9bf0f05916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 08/26] fix: keep the parameter count in step with the query

---
 include/boost/url/impl/url_base.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 0d3f83f..15752f8 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -13,6 +13,7 @@
 #include <boost/url/error.hpp>
 #include <boost/url/url_base.hpp>
 #include <boost/url/detail/parse.hpp>
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 
@@ -987,6 +988,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -998,6 +1000,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = 1 + std::count(
+        dest + 1, dest + 1 + n, '&');
     return *this;
 }
 
@@ -1009,6 +1013,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1019,6 +1024,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
@@ -1030,6 +1037,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1043,6 +1051,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
-- 
2.43.0


From 83e8f5c304a73599972b9fd100ed6f0dcdc0771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 09/26] fix: keep the segment count in step with the path

---
 include/boost/url/impl/url_base.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 15752f8..2845f36 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -919,6 +919,7 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
     if(has_authority())
@@ -945,6 +946,10 @@ set_encoded_path(
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = std::count(
+        s.begin(), s.end(), '/');
+    if(s.front() != '/')
+        ++pt_.nseg;
     return *this;
 }
 
-- 
2.43.0


From 260d573bc754380e9433bcdfccdb1ebc33e26980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 10/26] fix: clearing the url also resets its host type and
 counts

---
 include/boost/url/impl/url_base.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 2845f36..c16c816 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -70,6 +70,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = {};
         return *this;
     }
     error_code ec;
-- 
2.43.0


From cc5693b5396dfe8290dda81f7b085569a035a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 11/26] fix: update host_type when the authority or host is set
 or cleared

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c16c816..af81ba5 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -212,6 +212,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -237,6 +238,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -695,6 +697,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From 5505ea3c8578f0e09e4130e6da7f0359e0185068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 12/26] fix: set_encoded_userinfo splits the user after the
 leading slashes

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index af81ba5..60f974d 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -351,7 +351,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 366cd5b256b7cd99f1330d4553ec4399390679a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 13/26] fix: shrink the storage along with the url

---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 60f974d..c9f3196 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1788,6 +1788,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1842,6 +1843,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 1b91f3516054be361bb987dc7ac9ba1a7bdf4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 14/26] fix: null-terminate the first buffer allocated

---
 include/boost/url/detail/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..ed32c00 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -84,8 +84,8 @@ public:
                 p, p_, size_ + 1);
             a_.deallocate(
                 p_, cap_ + 1);
-            p[size_] = 0;
         }
+        p[size_] = 0;
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From b0932f3f930f10b27c7f7f7622aa729e08f9750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 15/26] fix: password_part asserts the trailing '@'

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c9f3196..b03bcf5 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -513,7 +513,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From 0f15708502a3ad5154fb3fa3a120329e4ff052a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 16/26] fix: set_user("") does nothing when there is no
 userinfo

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b03bcf5..62ff85c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -395,7 +395,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From 159c83273dab6002940dadf083c42fb5a8f48aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 17/26] fix: set_password_part requires its colon and keeps an
 empty password

---
 include/boost/url/impl/url_base.ipp | 42 ++++++++++++++---------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 62ff85c..fd2822f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -619,31 +619,29 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
-    if(s.size() == 1)
+    if(s.front() != ':')
+        invalid_part::raise();
+    detail::userinfo_pct_set().validate(s);
+
+    auto const n = s.size();
+    if(pt_.length(
+        detail::id_user) != 0)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
-        if(pt_.length(
-            detail::id_user) != 0)
-        {
-            auto const dest = resize(
-                detail::id_password, 2);
-            dest[0] = ':';
-            dest[1] = '@';
-            return *this;
-        }
         auto const dest = resize(
-            detail::id_user,
-            detail::id_host, 4);
-        dest[0] = '/';
-        dest[1] = '/';
-        dest[2] = ':';
-        dest[3] = '@';
-        pt_.split(
-            detail::id_user, 2);
+            detail::id_password, n + 1);
+        s.copy(dest, n);
+        dest[n] = '@';
+        return *this;
     }
-    set_encoded_password(
-        s.substr(1));
+    auto const dest = resize(
+        detail::id_user,
+        detail::id_host, 2 + n + 1);
+    dest[0] = '/';
+    dest[1] = '/';
+    s.copy(dest + 2, n);
+    dest[2 + n] = '@';
+    pt_.split(
+        detail::id_user, 2);
     return *this;
 }
 
-- 
2.43.0


From e676eb867ea50e49175e06e683385c49ac7963e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 18/26] fix: set_port_part(":") adds an authority when there is
 none

---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index fd2822f..15a7981 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -891,6 +891,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 7a63e484d2967948d5c8a8e3411b0b9e3a22f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 19/26] fix: set_encoded_origin uses only the origin of its
 argument

---
 include/boost/url/detail/parse.hpp  | 9 +--------
 include/boost/url/impl/url_base.ipp | 5 +++++
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 93ac0f8..e45c6d7 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -908,7 +908,7 @@ parse_origin(
 {
     parser pr(s);
 
-    // scheme ":" [ "//" authority ]
+    // scheme ":" hier-part
     if(! pr.match_scheme())
     {
         ec = error::syntax;
@@ -921,15 +921,8 @@ parse_origin(
     }
     pr.mark(pt, id_scheme);
     pr.parse_hier_part(pt, ec);
-
-    // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
     if(ec)
         return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 15a7981..d3990de 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -97,6 +97,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -105,6 +106,9 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    // the origin ends where the path begins
+    s = s.substr(
+        0, pt.offset[detail::id_path]);
     auto const dest =
         resize(
             detail::id_scheme,
@@ -125,6 +129,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
-- 
2.43.0


From 39c6862b9d9ff2b91fe864d42d04e43c09277164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 20/26] fix: refuse modifications after which the path would
 read differently

---
 include/boost/url/impl/url_base.ipp | 57 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  3 ++
 2 files changed, 60 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index d3990de..2ad14e8 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -94,6 +94,8 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_remove_scheme();
+        check_remove_authority();
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -106,6 +108,12 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    if(pt.length(
+        detail::id_user,
+        detail::id_path) != 0)
+        check_add_authority();
+    else
+        check_remove_authority();
     // the origin ends where the path begins
     s = s.substr(
         0, pt.offset[detail::id_path]);
@@ -160,6 +168,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_remove_scheme();
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -214,6 +223,7 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_remove_authority();
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -223,6 +233,7 @@ set_encoded_authority(
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_add_authority();
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -332,6 +343,7 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_remove_authority();
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -346,6 +358,7 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_add_authority();
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -425,6 +438,7 @@ set_user(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_nc_pct_set();
     if(pt_.length(
@@ -463,6 +477,7 @@ set_encoded_user(
     auto const e =
         detail::userinfo_nc_pct_set();
     e.validate(s);
+    check_add_authority();
 
     auto const n = s.size();
     if(pt_.length(detail::id_password) != 0)
@@ -554,6 +569,7 @@ set_password(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_pct_set();
     auto const n =
@@ -593,6 +609,7 @@ set_encoded_password(
     if(s[0] == ':')
         invalid_part::raise();
     e.validate(s);
+    check_add_authority();
 
     auto const n = s.size();
     if(pt_.length(detail::id_user) != 0)
@@ -627,6 +644,7 @@ set_password_part(
     if(s.front() != ':')
         invalid_part::raise();
     detail::userinfo_pct_set().validate(s);
+    check_add_authority();
 
     auto const n = s.size();
     if(pt_.length(
@@ -692,6 +710,7 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_remove_authority();
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -704,6 +723,7 @@ set_host(
         return *this;
     }
     detail::parts pt;
+    check_add_authority();
     detail::parse_plain_hostname(pt, s);
     BOOST_ASSERT(
         pt.host != urls::host_type::none);
@@ -770,6 +790,7 @@ set_encoded_host(
         return set_host(s);
     detail::parts pt;
     detail::parse_hostname(pt, s);
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -841,6 +862,7 @@ set_port(string_view s)
             detail::id_port) == 2)
         {
             // remove authority
+            check_remove_authority();
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
@@ -855,6 +877,7 @@ set_port(string_view s)
         return *this;
     }
     detail::match_port(s);
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -899,6 +922,7 @@ set_port_part(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_add_authority();
         auto const dest = resize(
             detail::id_user, 3);
         dest[0] = '/';
@@ -1783,6 +1807,39 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// An authority can only be followed by
+// an empty path or one that starts with '/'
+void
+url_base::
+check_add_authority() const
+{
+    auto const s = encoded_path();
+    if(! s.empty() && s.front() != '/')
+        invalid_part::raise();
+}
+
+// Without an authority, a path that starts
+// with "//" would be read as an authority
+void
+url_base::
+check_remove_authority() const
+{
+    if(encoded_path().substr(0, 2) == "//")
+        invalid_part::raise();
+}
+
+// Without a scheme or authority, a colon in the
+// first segment would be read as ending a scheme
+void
+url_base::
+check_remove_scheme() const
+{
+    auto const s = encoded_path();
+    if(s.substr(0, s.find('/')).find(':') !=
+        string_view::npos)
+        invalid_part::raise();
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..6a31f92 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1609,6 +1609,9 @@ public:
     normalize_scheme() noexcept;
 
 private:
+    inline void check_add_authority() const;
+    inline void check_remove_authority() const;
+    inline void check_remove_scheme() const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
 };
-- 
2.43.0


From 1ca97d8131eff8d2ae836084ad7beeae99ac3b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 21/26] fix: segment edits keep relative paths relative and
 paths readable

---
 include/boost/url/impl/url_base.ipp | 185 ++++++++++++++++++++++------
 include/boost/url/url_base.hpp      |   9 ++
 2 files changed, 155 insertions(+), 39 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 2ad14e8..3768166 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1425,22 +1425,80 @@ erase( iterator first, iterator last ) noexcept ->
     if( d == 0 )
         return first;
     BOOST_ASSERT(d > 0);
-    int c = 0;
-    for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
-        c += (*i == '/'); // Count the number of segments in the range
+    std::size_t c = std::count( // Count the number of segments in the range
+        v.s_ + first.off_, v.s_ + last.off_, '/');
+    auto len = d;
+    string_view dot;
+    if( first.off_ == v.pt_.offset[detail::id_path] )
+    {
+        auto const rel = is_relative();
+        c += rel;
+        if( last != end() )
+        {
+            // The path must still read as
+            // the remaining segments.
+            auto next = last;
+            bool const more = ++next != end();
+            auto const s = last->encoded_string();
+            if(rel)
+            {
+                if( s.empty() || (
+                    v.pt_.length(detail::id_scheme) == 0 &&
+                    s.find(':') != string_view::npos ))
+                    dot = ".";
+                else
+                    ++len; // remove '/'
+            }
+            else if( s.empty() && more && ! v.has_authority() )
+            {
+                dot = "/.";
+            }
+        }
+    }
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
     v.pt_.nseg -= c;
-    std::memmove(v.s_ + first.off_, v.s_ + last.off_, v.pt_.offset[detail::id_end] - last.off_ + 1);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - d);
-    BOOST_ASSERT(v.size() + d == v.a_.size());
-    auto const s = v.a_.resize(v.size());
-    BOOST_ASSERT(v.s_ == s);
+    if( ! dot.empty() )
+        ++v.pt_.nseg;
+    auto const dest = v.resize_path(first.off_, len, dot.size());
+    dot.copy(dest, dot.size());
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
+    first.off_ += dot.size();
     first.parse();
     return first;
 }
 
+// True if the path is not empty
+// and does not start with '/'
+bool
+url_base::
+segments_type::
+is_relative() const noexcept
+{
+    auto const s = v_->encoded_path();
+    return ! s.empty() && s.front() != '/';
+}
+
+// Throws if the path would not read back as
+// the segment `s`, followed by others if `more`
+void
+url_base::
+segments_type::
+check_first( bool relative, string_view s, bool more ) const
+{
+    if( relative )
+    {
+        if( s.empty() || (
+            v_->pt_.length(detail::id_scheme) == 0 &&
+            s.find(':') != string_view::npos ))
+            invalid_part::raise();
+    }
+    else if( s.empty() && more && ! v_->has_authority() )
+    {
+        invalid_part::raise();
+    }
+}
+
 auto
 url_base::
 segments_type::
@@ -1454,14 +1512,25 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const n0 = v.pt_.offset[detail::id_end];
+    bool const front = pos.off_ == v.pt_.offset[detail::id_path];
+    bool const rel = is_relative();
+    if( front )
+        check_first(rel, s, v.pt_.nseg != 0);
+    else
+        check_first(rel, begin()->encoded_string(), true);
     auto const n = s.size() + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    auto dest = v.resize_path(pos.off_, 0, n);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
+    if( front && rel )
+    {
+        dest[s.size()] = '/';
+        --pos.off_;
+    }
+    else
+    {
+        *dest++ = '/';
+    }
+    s.copy(dest, s.size());
     ++v.pt_.nseg;
     pos.off_ += n;
     pos.parse();
@@ -1482,14 +1551,25 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
     auto const pct = detail::pchar_pct_set();
     BOOST_ASSERT(pct.encoded_size(s) == ns);
-    auto const n0 = v.pt_.offset[detail::id_end];
+    bool const front = pos.off_ == v.pt_.offset[detail::id_path];
+    bool const rel = is_relative();
+    if( front )
+        check_first(rel, s, v.pt_.nseg != 0);
+    else
+        check_first(rel, begin()->encoded_string(), true);
     auto const n = ns + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    auto dest = v.resize_path(pos.off_, 0, n);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    if( front && rel )
+    {
+        dest[ns] = '/';
+        --pos.off_;
+    }
+    else
+    {
+        *dest++ = '/';
+    }
+    pct.encode(dest, s);
     ++v.pt_.nseg;
     pos.off_ += n;
     pos.parse();
@@ -1525,15 +1605,16 @@ replace_encoded( iterator pos, string_view s ) ->
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
     auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    bool const front = pos.off_ == v.pt_.offset[detail::id_path];
+    bool const rel = is_relative();
+    if( front )
+        check_first(rel, s, v.pt_.nseg > 1);
+    std::size_t const slash = ! ( front && rel );
+    auto const dest = v.resize_path(pos.off_ + slash, pos.n_ - slash, ns);
+    s.copy(dest, ns);
+    pos.off_ += slash + ns;
+    pos.parse();
+    return pos;
 }
 
 auto
@@ -1545,16 +1626,18 @@ replace( iterator pos, string_view s ) ->
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const ns = pct.encoded_size(s);
+    bool const front = pos.off_ == v.pt_.offset[detail::id_path];
+    bool const rel = is_relative();
+    if( front )
+        check_first(rel, s, v.pt_.nseg > 1);
+    std::size_t const slash = ! ( front && rel );
+    auto const dest = v.resize_path(pos.off_ + slash, pos.n_ - slash, ns);
+    pct.encode(dest, s);
+    pos.off_ += slash + ns;
+    pos.parse();
+    return pos;
 }
 
 //----------------------------------------------------------
@@ -1948,6 +2031,30 @@ resize(
     return s_ + pt_.offset[first];
 }
 
+// Resize part of the path
+char*
+url_base::
+resize_path(
+    std::size_t pos,
+    std::size_t len,
+    std::size_t new_len)
+{
+    auto const n0 = size();
+    if(new_len > len)
+        s_ = a_.resize(n0 + (new_len - len));
+    std::memmove(
+        s_ + pos + new_len,
+        s_ + pos + len,
+        n0 - pos - len + 1);
+    pt_.resize(
+        detail::id_path,
+        pt_.length(detail::id_path) +
+            new_len - len);
+    if(new_len < len)
+        s_ = a_.resize(size());
+    return s_ + pos;
+}
+
 } // urls
 } // boost
 
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 6a31f92..596e605 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1614,6 +1614,7 @@ private:
     inline void check_remove_scheme() const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline char* resize_path(std::size_t pos, std::size_t len, std::size_t new_len);
 };
 
 //----------------------------------------------------------
@@ -1632,6 +1633,14 @@ public:
 
 private:
 
+    inline
+    bool
+    is_relative() const noexcept;
+
+    inline
+    void
+    check_first( bool relative, string_view s, bool more ) const;
+
     BOOST_URL_DECL
     iterator
     insert_encoded_impl( iterator pos, string_view s );
-- 
2.43.0


From 7c49f4cb39b98b05cb8fd774bcb6f4ceab09beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:10 +0000
Subject: [PATCH 22/26] fix: implement copy, move and assignment of basic_url

---
 include/boost/url/basic_url.hpp      | 23 ++++++++++++++++++++---
 include/boost/url/detail/storage.hpp | 26 ++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..3df2073 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -54,19 +54,36 @@ public:
     }
 
     basic_url(
-        basic_url&&) noexcept
+        basic_url&& other) noexcept
+        : detail::storage_member<
+            Allocator>(std::move(other.st_))
+        , url_base(static_cast<
+            detail::storage&>(this->st_))
     {
+        this->pt_ = other.pt_;
+        this->s_ = other.s_;
+        other.pt_ = {};
+        other.s_ = nullptr;
     }
 
     basic_url(
-        basic_url const&)
+        basic_url const& other)
+        : detail::storage_member<
+            Allocator>(std::allocator_traits<Allocator>::
+                select_on_container_copy_construction(
+                    other.st_.get_allocator()))
+        , url_base(this->st_,
+            other.encoded_url())
     {
     }
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& other)
     {
+        if(this != &other)
+            this->set_encoded_url(
+                other.encoded_url());
         return *this;
     }
 };
diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index ed32c00..0bd4d9e 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -14,6 +14,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <memory>
+#include <utility>
 
 namespace boost {
 namespace urls {
@@ -49,6 +50,24 @@ public:
     {
     }
 
+    alloc_storage(
+        alloc_storage&& other) noexcept
+        : a_(std::move(other.a_))
+        , p_(other.p_)
+        , size_(other.size_)
+        , cap_(other.cap_)
+    {
+        other.p_ = nullptr;
+        other.size_ = 0;
+        other.cap_ = 0;
+    }
+
+    Allocator
+    get_allocator() const noexcept
+    {
+        return a_;
+    }
+
     ~alloc_storage()
     {
         if(p_)
@@ -123,6 +142,13 @@ struct storage_member
         : st_(alloc)
     {
     }
+
+    explicit
+    storage_member(
+        alloc_storage<Allocator>&& st) noexcept
+        : st_(std::move(st))
+    {
+    }
 };
 
 } // detail
-- 
2.43.0


From 8493abcb0c7bf2c346f06248ae1659436f09a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:22 +0000
Subject: [PATCH 23/26] fix: static_pool refuses a request whose alignment
 passes the end

---
 include/boost/url/static_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..0760802 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,7 +35,7 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
+        if( u < u0 || p > base_ + capacity_ || bytes >
             capacity_ - (p - base_))
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
-- 
2.43.0


From 22dd3f459311ae128a218c3b0595b50503d99f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:50 +0000
Subject: [PATCH 24/26] fix: static_pool refuses a request whose size overflows

---
 include/boost/url/static_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 0760802..1c541a1 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -103,6 +103,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > std::size_t(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From cfc3ba84d498f9cbb6d6f1b54ed162cf6cee326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:53 +0000
Subject: [PATCH 25/26] fix: recognise scheme names independently of the locale

string_to_scheme called the C library's tolower, whose result depends on
the global locale (FILE was not recognised in a Turkish one) and which is
undefined for negative characters. Use detail::to_lower, which was meant
here, and correct it: it added 'a' to the letter instead of to its index.
---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..2256615 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return static_cast<char>('a' + u);
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From 2194a42e5c85ff7842170c68bc3e0a69b2b2159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:55 +0000
Subject: [PATCH 26/26] fix: respect the allocator's max_size when growing

When doubling the capacity would exceed the allocator's max_size, the
capacity became max_size even if more was needed, so the text was written
past the end of the buffer, and one character more than max_size was
requested. Raise too_large if the text and its null do not fit, as for
other sizes that cannot be represented.
---
 include/boost/url/detail/storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 0bd4d9e..9a7c4e5 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -11,6 +11,7 @@
 #define BOOST_URL_DETAIL_STORAGE_HPP
 
 #include <boost/url/config.hpp>
+#include <boost/url/error.hpp>
 #include <cstdlib>
 #include <cstring>
 #include <memory>
@@ -90,6 +91,9 @@ public:
 
         std::size_t cap =
             traits::max_size(a_);
+        if(n >= cap) // room for null
+            too_large::raise();
+        --cap;
         if(cap_ < cap - cap_)
         {
             cap = 2 * cap_;
-- 
2.43.0

