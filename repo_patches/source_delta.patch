From cc021517fcc2aeff1f839a18d62c80cfbeaa19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/67] fix: read the whole size prefix of framed packets

The length prefix was read with async_read_some: when a stream segment ended
in the middle of the 4 bytes the size was garbage and every following packet
was lost or altered.
---
 src/ossia/network/sockets/size_prefix_framing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..1a38113 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -27,9 +27,10 @@ struct size_prefix_decoder
   template <typename F>
   void receive(F f)
   {
-    // Receive the size prefix
-    socket.async_read_some(
+    // Receive the size prefix. It may be split across multiple segments.
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
+        boost::asio::transfer_exactly(sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
         });
-- 
2.43.0


From 009efb39fbb21abb2796e078876fda7e19abc195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 02/67] fix: let the SLIP decoder resynchronise after a stray
 END

Two ENDs in a row were always taken as an empty packet: after any noise with
an odd number of ENDs the decoder swapped packet bodies and gaps, and lost
every following packet.
---
 src/ossia/network/sockets/slip_framing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..9757594 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -90,9 +90,11 @@ struct slip_decoder
         {
           // End of a message, we can process it
           case slip::eot:
-            m_status = waiting;
+            // If there was no data since the previous eot, this one
+            // can be the start of an actual message.
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
             }
             m_decoded.clear();
-- 
2.43.0


From 652165962c890fa20f5870dd149daefc89c53722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 03/67] fix: compare empty lists and unset list elements
 consistently

---
 src/ossia/network/value/value.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/value/value.cpp b/src/ossia/network/value/value.cpp
index 3a2e64d..d781e20 100644
--- a/src/ossia/network/value/value.cpp
+++ b/src/ossia/network/value/value.cpp
@@ -381,7 +381,9 @@ struct value_comparison_visitor2
     if (lhs.size() != rhs.size())
       return false;
 
-    bool result = true;
+    // Two empty lists, or two unset elements, compare like equal numbers
+    const bool when_equal = Comparator{}(0, 0);
+    bool result = !lhs.empty() || when_equal;
     auto tit = rhs.begin();
     for (const auto& val : lhs)
     {
@@ -389,10 +391,9 @@ struct value_comparison_visitor2
       {
         result &= ossia::apply(*this, val.v, tit->v);
       }
-      else // TODO handle case where !val && !tit
+      else
       {
-        result = false;
-        break;
+        result &= !val.valid() && !tit->valid() && when_equal;
       }
       if (!result)
         break;
-- 
2.43.0


From 13eece143a4b008ce76f447f94e945aeebc27bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 04/67] fix: a negative index designates no element of a value

---
 src/ossia/network/value/value_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/value/value_algorithms.hpp b/src/ossia/network/value/value_algorithms.hpp
index 47c670d..19718bd 100644
--- a/src/ossia/network/value/value_algorithms.hpp
+++ b/src/ossia/network/value/value_algorithms.hpp
@@ -363,7 +363,7 @@ struct destination_index_retriever
     {
       return t;
     }
-    else if ((int64_t)t.size() > *it)
+    else if (*it >= 0 && (int64_t)t.size() > *it)
     {
       auto& val = t[*it];
       ++it;
@@ -395,7 +395,7 @@ struct destination_index_retriever
     {
       return t;
     }
-    else if ((int64_t)t.size() > *it)
+    else if (*it >= 0 && (int64_t)t.size() > *it)
     {
       if (it + 1 == index.end())
         return float{t[*it]};
-- 
2.43.0


From c257b22bd0f0edd40c80a819aac26a2ac428c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 05/67] fix: pretty-printed strings and characters parse back
 unchanged

---
 src/ossia/network/value/detail/value_parse_impl.hpp | 6 +++---
 src/ossia/network/value/format_value.hpp            | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/value/detail/value_parse_impl.hpp b/src/ossia/network/value/detail/value_parse_impl.hpp
index 8309351..01eb434 100644
--- a/src/ossia/network/value/detail/value_parse_impl.hpp
+++ b/src/ossia/network/value/detail/value_parse_impl.hpp
@@ -50,7 +50,7 @@ struct EscapedChar : x3::symbols<const char>
 {
   EscapedChar()
   {
-    add("\\\"", '\"');
+    add("\\\"", '\"')("\\\\", '\\');
   }
 };
 using float_p = real_parser<float, x3::real_policies<float>>;
@@ -58,7 +58,7 @@ using float_p = real_parser<float, x3::real_policies<float>>;
 const auto o_impulse__def
     = x3::lit("impulse")[([](auto&) { return ossia::impulse{}; })];
 const auto o_str__def
-    = "string: \"" >> (x3::lexeme[*(EscapedChar() | (char_ - '"'))]) >> '"';
+    = "string: \"" >> (x3::no_skip[*(EscapedChar() | (char_ - '"'))]) >> '"';
 const auto o_vec2__def = "vec2f: [" >> float_p() >> "," >> float_p() >> "]";
 const auto o_vec3__def
     = "vec3f: [" >> float_p() >> "," >> float_p() >> "," >> float_p() >> "]";
@@ -74,7 +74,7 @@ BOOST_SPIRIT_DEFINE(o_vec4_)
 BOOST_SPIRIT_DEFINE(o_list_)
 
 const auto value__def = ("float: " >> float_p())
-                        | ("char: '" >> (char_ - "'") >> "'")
+                        | ("char: '" >> x3::no_skip[char_] >> "'")
                         | ("int: " >> int_) | BoolParse_map{} | o_impulse_
                         | o_str_ | o_vec2_ | o_vec3_ | o_vec4_ | o_list_;
 
diff --git a/src/ossia/network/value/format_value.hpp b/src/ossia/network/value/format_value.hpp
index 648ee80..8a09ab5 100644
--- a/src/ossia/network/value/format_value.hpp
+++ b/src/ossia/network/value/format_value.hpp
@@ -32,6 +32,7 @@ struct value_prettyprint_visitor
   }
   auto operator()(std::string str) const
   {
+    boost::algorithm::replace_all(str, "\\", "\\\\");
     boost::algorithm::replace_all(str, "\"", "\\\"");
     return fmt::format_to(ctx.out(), "string: \"{}\"", str);
   }
-- 
2.43.0


From 945049479b7188eb1fa69517e0f564bf8455cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 06/67] fix: wrapping or folding into a single-value range
 yields that value

---
 src/ossia/detail/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ossia/detail/math.hpp b/src/ossia/detail/math.hpp
index 8a6df35..45c8907 100644
--- a/src/ossia/detail/math.hpp
+++ b/src/ossia/detail/math.hpp
@@ -116,6 +116,8 @@ OSSIA_INLINE constexpr T wrap(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val < high))
     return val;
+  else if (low == high) // Only one value is possible
+    return low;
   else if (val >= low)
     return low + std::fmod(val - low, std::fabs(low - high));
   else
@@ -127,6 +129,8 @@ OSSIA_INLINE constexpr T fold(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val <= high))
     return val;
+  else if (low == high) // Only one value is possible
+    return low;
   else
   {
     return low
-- 
2.43.0


From 6d5aec63debfced0ca391cea83a5dc046489e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 07/67] fix: the FREE bounding mode leaves lvalues unchanged
 too

---
 src/ossia/network/domain/domain_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/domain_base.cpp b/src/ossia/network/domain/domain_base.cpp
index 63a9bed..85213d5 100644
--- a/src/ossia/network/domain/domain_base.cpp
+++ b/src/ossia/network/domain/domain_base.cpp
@@ -235,7 +235,7 @@ ossia::domain make_domain_from_minmax(
 
 value apply_domain(const domain& dom, bounding_mode b, const ossia::value& val)
 {
-  if (bool(dom) && bool(val.v))
+  if (bool(dom) && bool(val.v) && b != ossia::bounding_mode::FREE)
   {
     return ossia::apply(apply_domain_visitor{b}, val.v, dom.v);
   }
-- 
2.43.0


From 9f00f595b2ba1db4e56683dc5c6225170e898965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 08/67] fix: unset bounds of a vector domain do not become zero

---
 src/ossia/network/domain/domain_conversion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/domain/domain_conversion.hpp b/src/ossia/network/domain/domain_conversion.hpp
index 434df4e..b3bb6ad 100644
--- a/src/ossia/network/domain/domain_conversion.hpp
+++ b/src/ossia/network/domain/domain_conversion.hpp
@@ -109,13 +109,15 @@ struct domain_conversion<vecf_domain<N>>
     const std::size_t min_size = std::min(N, t.min.size());
     for (std::size_t i = 0; i < min_size; i++)
     {
-      dom.min[i] = ossia::convert<float>(t.min[i]);
+      if (t.min[i].valid())
+        dom.min[i] = ossia::convert<float>(t.min[i]);
     }
 
     const std::size_t max_size = std::min(N, t.max.size());
     for (std::size_t i = 0; i < max_size; i++)
     {
-      dom.max[i] = ossia::convert<float>(t.max[i]);
+      if (t.max[i].valid())
+        dom.max[i] = ossia::convert<float>(t.max[i]);
     }
 
     const std::size_t vals_size = std::min(N, t.values.size());
-- 
2.43.0


From bf1ae0de386ba95273c8cfade1bf55b037ec6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 09/67] fix: copying a generic domain keeps its set of values

---
 src/ossia/network/domain/domain_base_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/domain/domain_base_impl.hpp b/src/ossia/network/domain/domain_base_impl.hpp
index 0976e19..d45c3c3 100644
--- a/src/ossia/network/domain/domain_base_impl.hpp
+++ b/src/ossia/network/domain/domain_base_impl.hpp
@@ -317,14 +317,14 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(const domain_base<value_type>& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
   domain_base(domain_base<value_type>&& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
@@ -355,12 +355,12 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(
       const value_type& v1, const value_type& v2,
       const std::vector<value_type>& vals)
-      : min{v1}, max{v2}, values{vals}
+      : min{v1}, max{v2}, values(vals)
   {
   }
   domain_base(
       value_type&& v1, value_type&& v2, std::vector<value_type>&& vals)
-      : min{std::move(v1)}, max{std::move(v2)}, values{std::move(vals)}
+      : min{std::move(v1)}, max{std::move(v2)}, values(std::move(vals))
   {
   }
 
-- 
2.43.0


From b5900dd38e0df255dbaf97ec5914a7aff871c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 10/67] fix: adding a negative duration does not yield an
 infinite one

---
 src/ossia/editor/scenario/time_value.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 80a297f..66747cf 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -138,13 +138,11 @@ struct OSSIA_EXPORT time_value
     }
     else if(lhs.impl >= 0 && rhs.impl < 0)
     {
-      uint64_t l = lhs.impl;
-      return l + rhs.impl >= infinite_min;
+      return false;
     }
     else if(lhs.impl < 0 && rhs.impl >= 0)
     {
-      uint64_t r = rhs.impl;
-      return lhs.impl + r >= infinite_min;
+      return false;
     }
     else if(lhs.impl < 0 && rhs.impl < 0)
     {
-- 
2.43.0


From cb1ff38cccb34feee3c7519803cf6d7151394f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 11/67] fix: comparisons of infinite durations agree with their
 equality

---
 src/ossia/editor/scenario/time_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 66747cf..c85aefe 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -264,7 +264,7 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator!=(ossia::time_value rhs) const noexcept
   {
-    return (infinite() != rhs.infinite()) || (impl != rhs.impl);
+    return !(*this == rhs);
   }
   constexpr bool operator<(ossia::time_value rhs) const noexcept
   {
@@ -276,11 +276,11 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator<=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl <= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl <= rhs.impl);
   }
   constexpr bool operator>=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl >= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl >= rhs.impl);
   }
 
   int64_t impl;
-- 
2.43.0


From 6903796be9abd0c3ea94e1070fbfded186f0e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 12/67] fix: an infinite duration stays infinite when a delay
 is added in place

---
 src/ossia/editor/scenario/time_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index c85aefe..60145ed 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -48,7 +48,7 @@ struct OSSIA_EXPORT time_value
   constexpr time_value& operator+=(int64_t d) noexcept
   {
     if (infinite())
-      impl = 0;
+      impl = infinity;
     else
       impl += d;
 
-- 
2.43.0


From 3ee1d8f2819cce7eb6566e790e6eae1eef61dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 13/67] fix: dispose an event once all the branches that lead
 to it are disposed

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..355cf84 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -104,8 +104,10 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      // The event may already be marked as finished too
+      const auto st = previousTimeInterval->get_start_event().get_status();
+      if ((uint8_t(st) & ~uint8_t(time_event::status::FINISHED))
+          != uint8_t(time_event::status::DISPOSED))
       {
         dispose = false;
         break;
-- 
2.43.0


From bab8340f8df586af3395d3011515f9b400af7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 14/67] fix: process a sync in the tick where the last branch
 it waited for is disposed

---
 .../scenario/detail/scenario_execution.cpp    | 22 ++++++++++++++++++-
 src/ossia/editor/scenario/scenario.hpp        |  2 +-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 355cf84..8c4747f 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -114,8 +114,28 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
       }
     }
 
-    if (dispose && !nextTimeInterval->graphal)
+    const bool already_disposed
+        = nextTimeInterval->get_end_event().get_status()
+          == time_event::status(
+              uint8_t(time_event::status::DISPOSED)
+              | uint8_t(time_event::status::FINISHED));
+    if (dispose && !nextTimeInterval->graphal && !already_disposed)
       make_dispose(nextTimeInterval->get_end_event(), stopped);
+    else if (!dispose)
+    {
+      // Other intervals may have already reached this sync in this tick,
+      // and only be waiting for this event
+      auto& end_event = nextTimeInterval->get_end_event();
+      for (auto& itv : end_event.previous_time_intervals())
+      {
+        if (m_runningIntervals.find(itv.get()) != m_runningIntervals.end()
+            && itv->get_date() >= itv->get_min_duration())
+        {
+          m_retry_syncs.insert(&end_event.get_time_sync());
+          break;
+        }
+      }
+    }
   }
 
   if (event.m_callback)
diff --git a/src/ossia/editor/scenario/scenario.hpp b/src/ossia/editor/scenario/scenario.hpp
index 1d69e0a..09ae60d 100644
--- a/src/ossia/editor/scenario/scenario.hpp
+++ b/src/ossia/editor/scenario/scenario.hpp
@@ -138,7 +138,7 @@ private:
       time_event& event, interval_set& started, interval_set& stopped,
       ossia::time_value tick_offset, const ossia::token_request& tok);
 
-  static void make_dispose(time_event& event, interval_set& stopped);
+  void make_dispose(time_event& event, interval_set& stopped);
 
   sync_status process_this(time_sync& node, small_event_vec& pendingEvents,
       small_event_vec& maxReachedEvents, interval_set& started,
-- 
2.43.0


From dbdaba611661924781d012c053bc06b24886e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 15/67] fix: the time left after an interval running at a speed
 is in its parent's time

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 8c4747f..ce103a0 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -191,8 +191,9 @@ void scenario::run_interval(
           interval.tick_offset_speed_precomputed(max_tick, offset, tk);
         }
 
+        // The remaining time is expressed in the time of the parent
         const auto ot
-            = ossia::time_value{int64_t(diff)};
+            = ossia::time_value{int64_t(s > 0. ? diff / s : diff)};
         const auto node_it = m_overticks.lower_bound(end_node);
         if (node_it != m_overticks.end() && (end_node == node_it->first))
         {
-- 
2.43.0


From 35e2292d765e771fdc01671bbff1587476ebc1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 16/67] fix: an interval running backwards stops at its
 beginning

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index ce103a0..45f788f 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -218,7 +218,7 @@ void scenario::run_interval(
     }
     else
     {
-      if (tick * s < cst_old_date)
+      if (cst_old_date.impl + s * tick.impl >= 0.)
       {
         if (tick != 0_tv)
           interval.tick_offset(tick, offset, tk);
-- 
2.43.0


From 83c7b4356eaba4ab8936fe2b241e9f396531fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 17/67] fix: ranges with a negative step or a single element
 expand

---
 src/ossia/network/base/node_functions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..832843b 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -434,7 +434,7 @@ void expand_ranges(std::string& str)
       }
       else
       {
-        for (int64_t v = it->last; v <= it->first; v += it->increment)
+        for (int64_t v = it->last; v >= it->first; v += it->increment)
         {
           rep += std::to_string(v);
           rep += ',';
@@ -444,6 +444,9 @@ void expand_ranges(std::string& str)
       if (rep.back() == ',')
       {
         rep.back() = '}';
+        // A single element does not need (and would keep) its braces
+        if (rep.find(',') == std::string::npos)
+          rep = rep.substr(1, rep.size() - 2);
         str.replace(it->start, it->length, rep);
       }
     }
-- 
2.43.0


From 4bd1e6b1f9938099083411ec000a95b99f91ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 18/67] fix: a class of one character expands to that character

---
 src/ossia/network/base/node_functions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 832843b..73f3324 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -567,6 +567,9 @@ std::string canonicalize_str(std::string str)
       if (rep.back() == ',')
       {
         rep.back() = '}';
+        // A single character does not need (and would keep) its braces
+        if (it->chars.count() == 1)
+          rep = rep.substr(1, 1);
         str.replace(it->start, it->length, rep);
       }
     }
-- 
2.43.0


From 7dd180d218e27dd182f7b81d925dd66164467610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 19/67] fix: patterns match all the characters legal in names

---
 src/ossia/network/base/name_validation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/base/name_validation.hpp b/src/ossia/network/base/name_validation.hpp
index 1e2488b..fca31ea 100644
--- a/src/ossia/network/base/name_validation.hpp
+++ b/src/ossia/network/base/name_validation.hpp
@@ -42,7 +42,7 @@ bool is_valid_character_for_name(Char_T c)
  */
 constexpr ossia::string_view device_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .=-"));
 }
 
 /**
@@ -50,7 +50,7 @@ constexpr ossia::string_view device_characters() noexcept
  */
 constexpr ossia::string_view name_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .=-"));
 }
 
 /**
@@ -58,12 +58,12 @@ constexpr ossia::string_view name_characters() noexcept
  */
 constexpr ossia::string_view path_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .=-"));
 }
 
 constexpr ossia::string_view name_characters_no_instance() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): -"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =-"));
 }
 /**
  * @brief Characters valid in an OSSIA pattern-matching part.
@@ -74,7 +74,7 @@ constexpr ossia::string_view name_characters_no_instance() noexcept
  */
 constexpr ossia::string_view pattern_match_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .*?,{}\\[\\]-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =.*?,{}\\[\\]-"));
 }
 
 /**
-- 
2.43.0


From d106e0366263875aed93ab8bbbe8a84a32d527cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 20/67] fix: a dot in a pattern only matches a dot

---
 src/ossia/network/common/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/common/path.cpp b/src/ossia/network/common/path.cpp
index 5cb23af..f20b147 100644
--- a/src/ossia/network/common/path.cpp
+++ b/src/ossia/network/common/path.cpp
@@ -173,6 +173,8 @@ std::string substitute_characters(const std::string& part)
       res.append("\\(");
     else if (part[i] == ')')
       res.append("\\)");
+    else if (part[i] == '.')
+      res.append("\\.");
     else if (part[i] == '{')
       res.append("(");
     else if (part[i] == '}')
-- 
2.43.0


From ce3f012a7589aeb539cb01a9aefe8b3e79337773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 21/67] fix: every callback gets the arguments that are sent

---
 src/ossia/detail/callback_container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 3790d15..c963f33 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -186,8 +186,9 @@ public:
     std::lock_guard<std::mutex> lck{m_mutx};
     for (auto& callback : m_callbacks)
     {
+      // The arguments are not forwarded: every callback must get them
       if (callback)
-        callback(std::forward<Args>(args)...);
+        callback(args...);
     }
   }
 
-- 
2.43.0


From 2bc43e8b886830744aa10bfdabe221c34e3b42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 22/67] fix: callbacks can still be removed after one was
 disabled for a while

---
 src/ossia/detail/callback_container.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index c963f33..21301e4 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -129,31 +129,31 @@ public:
   class disabled_callback
   {
   public:
-    explicit disabled_callback(callback_container& self)
-      : self{self}, old_callbacks{self.m_callbacks}
+    //! Takes the callback out, so that the iterators to it and to the others
+    //! stay valid.
+    disabled_callback(callback_container& self, iterator it) : self{self}
     {
-
+      disabled.splice(disabled.begin(), self.m_callbacks, it);
     }
+    disabled_callback(disabled_callback&&) = default;
 
     ~disabled_callback()
     {
-      self.replace_callbacks(std::move(old_callbacks));
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      self.m_callbacks.splice(self.m_callbacks.begin(), disabled);
     }
 
   private:
     callback_container& self;
-    callback_container::impl old_callbacks;
+    callback_container::impl disabled;
   };
 
   disabled_callback disable_callback(iterator it)
   {
     std::lock_guard<std::mutex> lck{m_mutx};
-    disabled_callback dis{*this};
-
     // TODO should we also call on_removing_last_blah ?
     // I don't think so : it's supposed to be a short operation
-    m_callbacks.erase(it);
-    return dis;
+    return disabled_callback{*this, it};
   }
 
   /**
-- 
2.43.0


From d1f2d0f7275d79de87b0e1108f4f5dff1efa1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 23/67] fix: get_disabled of full_parameter_data

---
 src/ossia/network/base/parameter_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/parameter_data.hpp b/src/ossia/network/base/parameter_data.hpp
index 6d047ba..4af41b0 100644
--- a/src/ossia/network/base/parameter_data.hpp
+++ b/src/ossia/network/base/parameter_data.hpp
@@ -158,7 +158,7 @@ public:
   }
   bool get_disabled() const
   {
-    return muted;
+    return disabled;
   }
   bool get_muted() const
   {
-- 
2.43.0


From 2a8004e5d2995843e2c62b1410801a174f5885f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 24/67] fix: setting an attribute does not empty the caller's
 object

---
 src/ossia/detail/any_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/detail/any_map.hpp b/src/ossia/detail/any_map.hpp
index 5e5bd08..a859560 100644
--- a/src/ossia/detail/any_map.hpp
+++ b/src/ossia/detail/any_map.hpp
@@ -140,9 +140,9 @@ void set_attribute(any_map& e, ossia::string_view str, T&& val)
     // TODO insert_or_assign
     auto it = e.find(str);
     if (it != e.end())
-      it.value() = std::move(val);
+      it.value() = std::forward<T>(val);
     else
-      e.insert(std::make_pair(std::string(str), ossia::any{std::move(val)}));
+      e.insert(std::make_pair(std::string(str), ossia::any{std::forward<T>(val)}));
   }
   else
   {
-- 
2.43.0


From ed5bf1818915a1ef98a9c388ce4a5aadd6d559e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 25/67] fix: polar, cylindrical, spherical and euler units
 convert back to where they came from

The azimuth was computed from the other axis, and the roll with the sign
of the inverse rotation, so that no round trip was the identity.
---
 src/ossia/network/dataspace/detail/dataspace_impl.cpp | 6 +++---
 src/ossia/network/dataspace/position.hpp              | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_impl.cpp b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
index 8c70552..0a1d4a0 100644
--- a/src/ossia/network/dataspace/detail/dataspace_impl.cpp
+++ b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
@@ -195,7 +195,7 @@ euler_u::from_neutral(strong_value<euler_u::neutral_unit> self)
   return {
       (float)(rad_to_deg * std::atan2(-2. * (z * w - x * y), w * w - x * x + y * y - z * z)),
       (float)(rad_to_deg * std::asin(2. * (w * x + y * z))),
-      (float)(rad_to_deg * std::atan2(2. * (w * y + x * z), w * w - x * x - y * y + z * z))};
+      (float)(rad_to_deg * std::atan2(2. * (w * y - x * z), w * w - x * x - y * y + z * z))};
 }
 
 strong_value<axis_u::neutral_unit>
@@ -265,7 +265,7 @@ spherical_u::from_neutral(strong_value<spherical_u::neutral_unit> self)
 
   const auto temp = ipow(x, 2) + ipow(y, 2);
 
-  return {(float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(std::atan2(x, y) * rad_to_deg),
           (float)(std::atan2(z, std::sqrt(temp)) * rad_to_deg),
           (float)(std::sqrt(temp + ipow(z, 2)))};
 }
@@ -287,7 +287,7 @@ cylindrical_u::from_neutral(strong_value<cylindrical_u::neutral_unit> self)
   const auto y = self.dataspace_value[1];
   const auto z = self.dataspace_value[2];
 
-  return {(float)(ossia::norm(x, y)), (float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(ossia::norm(x, y)), (float)(std::atan2(x, y) * rad_to_deg),
           z};
 }
 }
diff --git a/src/ossia/network/dataspace/position.hpp b/src/ossia/network/dataspace/position.hpp
index d49944d..602af00 100644
--- a/src/ossia/network/dataspace/position.hpp
+++ b/src/ossia/network/dataspace/position.hpp
@@ -154,7 +154,7 @@ struct OSSIA_EXPORT polar_u : public position_unit<polar_u>
     const auto x = self.dataspace_value[0];
     const auto y = self.dataspace_value[1];
 
-    return {(float)(std::atan2(y, x) * float(rad_to_deg)),
+    return {(float)(std::atan2(x, y) * float(rad_to_deg)),
             (float)(ossia::norm(x, y))};
   }
 
-- 
2.43.0


From 63c51fe78dc3c3d7b9489f2fee6d3db6daa63c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 26/67] fix: bfs scheduling of a graph with a feedback cable no
 longer reads past the node list

---
 src/ossia/dataflow/graph/graph_static.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 53371a1..a893f1b 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -175,13 +175,13 @@ public:
     auto& m_graph = g.m_graph;
     auto& m_nodes = g.m_nodes;
     auto& m_all_nodes = g.m_all_nodes;
-    const auto N = boost::num_vertices(m_graph);
     // m_color.clear();
     // m_color.reserve(N);
     m_sub_graph = m_graph;
 
     g.sort_all_nodes(m_graph);
-    // m_active_nodes is in topo order
+    // m_active_nodes is in topo order, and empty if the graph isn't a DAG
+    const auto N = m_all_nodes.size();
 
     for (std::size_t i = 0; i < N; i++)
     {
-- 
2.43.0


From db8b2b96680862d5c4b9e1dc948283f4eb0ce3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 27/67] fix: value_port::write_value keeps the timestamp of the
 value

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From dbf0d5e7115f5005d6f3bf3078e3c7239bb07964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 28/67] fix: a parameter listened to by two ports stays
 listened to when one is unregistered

---
 src/ossia/network/base/message_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/message_queue.hpp b/src/ossia/network/base/message_queue.hpp
index 5710211..dc8670e 100644
--- a/src/ossia/network/base/message_queue.hpp
+++ b/src/ossia/network/base/message_queue.hpp
@@ -50,7 +50,7 @@ public:
       auto it = p.add_callback([this, ptr](const ossia::value& val) {
         m_queue.enqueue({ptr, val});
       });
-      m_reg.insert({&p, {0, it}});
+      m_reg.insert({&p, {1, it}});
     }
     else
     {
-- 
2.43.0


From ea91b79b659ac8bb00fcbc945d90b497bb8132d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 29/67] fix: merging messages to a vector parameter keeps the
 last whole value and its order

---
 .../state/detail/state_flatten_visitor.hpp    | 23 +++++++++++++++++++
 src/ossia/editor/state/flat_vec_state.hpp     |  7 +++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index c4dafa7..b8d29e3 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -109,6 +109,24 @@ struct vec_merger
     return ossia::message{incoming_dest, incoming};
   }
 
+  template <std::size_t N>
+  ossia::state_element
+  operator()(float orig, const std::array<float, N>& incoming) const
+  {
+    auto& existing_index = existing_dest.index;
+    auto& incoming_index = incoming_dest.index;
+
+    if (!existing_index.empty() && !incoming_index.empty()
+        && existing_index != incoming_index
+        && incoming_index[0] < (int64_t)N)
+    {
+      return make_piecewise_from_floats<N>(orig, incoming[incoming_index[0]]);
+    }
+
+    // The whole array, or the same index, replace the existing value
+    return ossia::message{incoming_dest, incoming};
+  }
+
   template <std::size_t N>
   ossia::state_element
   operator()(std::array<float, N>& orig, float incoming) const
@@ -151,6 +169,10 @@ struct vec_merger
     auto& incoming_index = incoming_dest.index;
     if (incoming_index.empty())
     {
+      // An indexed array only sets one component : replace it entirely
+      if (!existing_index.empty())
+        return ossia::message{incoming_dest, incoming};
+
       orig = incoming;
       return {};
     }
@@ -347,6 +369,7 @@ struct state_flatten_visitor_merger
         else
         {
           existing.message_value = incoming.message_value.get<vec_type>();
+          existing.used_values.set();
         }
         break;
       }
diff --git a/src/ossia/editor/state/flat_vec_state.hpp b/src/ossia/editor/state/flat_vec_state.hpp
index 49ca454..1dcc7ae 100644
--- a/src/ossia/editor/state/flat_vec_state.hpp
+++ b/src/ossia/editor/state/flat_vec_state.hpp
@@ -35,7 +35,12 @@ struct flat_vec_state
   template <typename T>
   auto find(const T& val) noexcept
   {
-    return ossia::find(m_children, val);
+    // Only the last message can be merged with the next one : merging with an
+    // earlier one would reorder it before those in between
+    auto it = m_children.end();
+    if (!m_children.empty() && m_children.back() == val)
+      --it;
+    return it;
   }
 
   void launch() noexcept
-- 
2.43.0


From 3d12b084482e27d9e6d57030496c7526620e2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 30/67] fix: list_all_children keeps siblings of equal priority
 sorted by name

---
 src/ossia/network/base/node_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 73f3324..1dfdeaf 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -660,8 +660,8 @@ std::vector<ossia::net::node_base*> list_all_children(ossia::net::node_base* nod
     return s1 < s2;
   });
 
-  // then sort by priority
-  ossia::sort(children, [](auto n1, auto n2) {
+  // then sort by priority, keeping the order of names among equal priorities
+  std::stable_sort(children.begin(), children.end(), [](auto n1, auto n2) {
     return ossia::net::get_priority(*n1) > ossia::net::get_priority(*n2);
   });
 
-- 
2.43.0


From 6dbe7dbb924679956e03f73b68811c7747020897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 31/67] fix: destinations that differ by their unit are
 different

---
 src/ossia/network/value/value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/value/value.cpp b/src/ossia/network/value/value.cpp
index d781e20..d18eeea 100644
--- a/src/ossia/network/value/value.cpp
+++ b/src/ossia/network/value/value.cpp
@@ -178,12 +178,13 @@ bool destination::operator<=(const ossia::value& v) const noexcept
 
 bool operator==(const destination& lhs, const destination& rhs) noexcept
 {
-  return lhs.value == rhs.value && lhs.index == rhs.index;
+  return lhs.value == rhs.value && lhs.index == rhs.index
+         && lhs.unit == rhs.unit;
 }
 
 bool operator!=(const destination& lhs, const destination& rhs) noexcept
 {
-  return lhs.value != rhs.value || lhs.index != rhs.index;
+  return !(lhs == rhs);
 }
 
 bool operator==(
-- 
2.43.0


From cb0c138e3fb9902b53b339d5cef9a9299973d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 32/67] fix: merging a state with several components of a
 vector into one that sets one no longer throws

---
 .../state/detail/state_flatten_visitor.hpp    | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index b8d29e3..c06873b 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -414,6 +414,35 @@ struct state_flatten_visitor_merger
   }
 
   //// Piecewise Vec Message incoming
+  template <std::size_t N>
+  void
+  operator()(message& existing, const piecewise_vec_message<N>& incoming)
+  {
+    // The components that are not in the incoming message are kept
+    piecewise_vec_message<N> other = incoming;
+    const auto& index = existing.dest.index;
+    const auto vec = existing.message_value.target<std::array<float, N>>();
+    const auto flt = existing.message_value.target<float>();
+    for (std::size_t i = 0; i < N; i++)
+    {
+      if (other.used_values.test(i))
+        continue;
+      if (!index.empty() && index[0] != int64_t(i))
+        continue;
+
+      if (vec)
+        other.message_value[i] = (*vec)[i];
+      else if (flt && !index.empty())
+        other.message_value[i] = *flt;
+      else
+        continue;
+      other.used_values.set(i);
+    }
+
+    state.remove(existing_it);
+    state.add(other);
+  }
+
   template <std::size_t N>
   void operator()(
       piecewise_vec_message<N>& existing,
@@ -567,14 +596,6 @@ struct state_flatten_visitor_merger
         "impossible case (state <- *");
   }
 
-  template <std::size_t M>
-  void operator()(message& existing, const piecewise_vec_message<M>& incoming)
-  {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (message <- const piecewise_vec_message&");
-  }
-
   template <std::size_t M>
   void operator()(
       piecewise_message& existing, const piecewise_vec_message<M>& incoming)
-- 
2.43.0


From 2366095529c3574a7dda3db7a5af214a49fbab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 33/67] fix: audio_protocol sets up its tree when the device
 starts with no channels

---
 src/ossia/audio/audio_protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/audio/audio_protocol.cpp b/src/ossia/audio/audio_protocol.cpp
index d5b2c78..40123b4 100644
--- a/src/ossia/audio/audio_protocol.cpp
+++ b/src/ossia/audio/audio_protocol.cpp
@@ -17,7 +17,8 @@ audio_protocol::~audio_protocol()
 
 void audio_protocol::setup_tree(int inputs, int outputs)
 {
-  if(inputs == int(audio_ins.size()) && outputs == int(audio_outs.size()))
+  if(main_audio_in && main_audio_out && inputs == int(audio_ins.size())
+     && outputs == int(audio_outs.size()))
     return;
 
   auto& dev = get_device();
-- 
2.43.0


From aef3ee6e402ac493715ac97a1b902aebc6f8ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 34/67] fix: virtual audio parameters advance with the tick
 like the other audio parameters

---
 src/ossia/audio/audio_protocol.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ossia/audio/audio_protocol.cpp b/src/ossia/audio/audio_protocol.cpp
index 40123b4..51b6a0a 100644
--- a/src/ossia/audio/audio_protocol.cpp
+++ b/src/ossia/audio/audio_protocol.cpp
@@ -97,6 +97,17 @@ void audio_protocol::advance_tick(std::size_t count)
     }
   }
 
+  for (auto virt : virtaudio)
+  {
+    for (auto& chan : virt->audio)
+    {
+      if (!chan.empty())
+      {
+        chan = chan.subspan(count);
+      }
+    }
+  }
+
   for (auto out : audio_outs)
   {
     for (auto& chan : out->audio)
-- 
2.43.0


From 73b665efaac8673b10a867bbc1b391ebd06f6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 35/67] fix: audio channels removed by a new channel count do
 not keep pointers to old buffers

---
 src/ossia/audio/audio_protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia/audio/audio_protocol.cpp b/src/ossia/audio/audio_protocol.cpp
index 51b6a0a..bc95d70 100644
--- a/src/ossia/audio/audio_protocol.cpp
+++ b/src/ossia/audio/audio_protocol.cpp
@@ -24,6 +24,12 @@ void audio_protocol::setup_tree(int inputs, int outputs)
   auto& dev = get_device();
   auto& root = dev.get_root_node();
 
+  // The channels which do not exist anymore must not refer to old buffers
+  for (auto in : audio_ins)
+    in->audio.clear();
+  for (auto out : audio_outs)
+    out->audio.clear();
+
   audio_ins.clear();
   audio_outs.clear();
 
-- 
2.43.0


From d4274865c1be96f3902d51c2dd1c4ae0010e0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 36/67] fix: spline nodes stay at their end point past the end
 of their parent

---
 src/ossia/dataflow/nodes/spline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/spline.hpp b/src/ossia/dataflow/nodes/spline.hpp
index 2fa7cd0..84fa4df 100644
--- a/src/ossia/dataflow/nodes/spline.hpp
+++ b/src/ossia/dataflow/nodes/spline.hpp
@@ -42,7 +42,7 @@ private:
       return;
 
     ossia::value_port& vp = *value_out;
-    const double pos = [&] { double p = t.position(); return p >= 0. ? p : 0.; }();
+    const double pos = ossia::clamp(t.position(), 0., 1.);
 
     auto [res_x, res_y] = m_spline.evaluate(pos);
 
@@ -93,7 +93,7 @@ private:
       return;
 
     ossia::value_port& vp = *value_out;
-    const double pos = [&] { double p = t.position(); return p >= 0. ? p : 0.; }();
+    const double pos = ossia::clamp(t.position(), 0., 1.);
 
     auto [res_x, res_y, res_z] = m_spline.evaluate(pos);
 
-- 
2.43.0


From 28a951d78fc931d04516837442d96d68e7eef7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 37/67] fix: a spline with too few points to be one sends
 nothing instead of crashing

---
 src/ossia/editor/automation/tinyspline_util.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/automation/tinyspline_util.hpp b/src/ossia/editor/automation/tinyspline_util.hpp
index 762d7bb..4cf6473 100644
--- a/src/ossia/editor/automation/tinyspline_util.hpp
+++ b/src/ossia/editor/automation/tinyspline_util.hpp
@@ -38,14 +38,17 @@ struct spline
       ts_bspline_free(&m_spline);
 
     m_spline = ts_bspline_init();
-    ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status);
+    ts_int_deboornet_init(&m_net);
+
+    // There may not be enough points to make a spline
+    if(ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status) != TS_SUCCESS)
+      return;
 
     ts_bspline_set_control_points(
         &m_spline,
         points,
         &status);
 
-    ts_int_deboornet_init(&m_net);
     ts_int_deboornet_new(&m_spline, &m_net, &status);
   }
 
-- 
2.43.0


From 39ec3e131e7151f44007f8c24bb1437e5dd4e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 38/67] fix: the metronome keeps the time elapsed since its
 last beat

---
 src/ossia/dataflow/nodes/metronome.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/metronome.hpp b/src/ossia/dataflow/nodes/metronome.hpp
index ebd6aca..98f60d2 100644
--- a/src/ossia/dataflow/nodes/metronome.hpp
+++ b/src/ossia/dataflow/nodes/metronome.hpp
@@ -64,7 +64,7 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        m_metroPrevTick = m_metroPrevTick + elapsed - cur;
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
@@ -80,7 +80,7 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        m_metroPrevTick = m_metroPrevTick + elapsed - cur;
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
-- 
2.43.0


From 711b230f476eed89a615ca153ef3899c0fb28e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 39/67] fix: the step sequencer sends every step of a tick

---
 src/ossia/dataflow/nodes/step.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/step.hpp b/src/ossia/dataflow/nodes/step.hpp
index 0d5a75d..7f33f50 100644
--- a/src/ossia/dataflow/nodes/step.hpp
+++ b/src/ossia/dataflow/nodes/step.hpp
@@ -26,7 +26,10 @@ public:
     {
       auto& port = *m_outlets[0]->target<ossia::value_port>();
       const int64_t d = dur.impl * e.samplesToModel();
-      int64_t quo = std::floor(double(t.date.impl) / d);
+      if (d <= 0 || values.empty())
+        return;
+      // First step in this tick
+      int64_t quo = std::ceil(double(t.prev_date.impl) / d);
       int64_t prev_step = d * quo;
 
       while(t.in_range(time_value{prev_step}))
-- 
2.43.0


From 91752653229715c6067abff86a3383fb7086d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 40/67] fix: a MIDI note added where playback is going to start
 is played

---
 src/ossia/dataflow/nodes/midi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index da4b317..3dc43c7 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -57,7 +57,7 @@ public:
   void add_note(note_data nd)
   {
     m_orig_notes.insert(nd);
-    if (nd.start > m_prev_date)
+    if (nd.start >= m_prev_date)
     {
       m_notes.insert(nd);
     }
-- 
2.43.0


From 4709cdf6eb0d93097efd6320941d5650968268ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 41/67] fix: a MIDI note that starts and ends in the same tick
 is ended

---
 src/ossia/dataflow/nodes/midi.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index 3dc43c7..a1b4fd9 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -251,7 +251,20 @@ private:
             mp.messages.back().timestamp
                 = t.to_physical_time_in_tick(start_time, samplesratio);
 
-            m_playingnotes.insert(note);
+
+            const auto end_time = note.start + note.duration;
+            if (t.in_range({end_time}))
+            {
+              // The note also ends in this tick
+              mp.messages.push_back(libremidi::message::note_off(
+                  m_channel, note.pitch, 0));
+              mp.messages.back().timestamp
+                  = t.to_physical_time_in_tick(end_time, samplesratio);
+            }
+            else
+            {
+              m_playingnotes.insert(note);
+            }
             it = m_notes.erase(it);
             max_it = std::lower_bound(
                 it, m_notes.end(), t.date.impl + 1, note_comparator{});
-- 
2.43.0


From 34934c22c3fa458b637ee8dd7be792635c74024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 42/67] fix: removing a MIDI note leaves the other notes that
 start with it

---
 src/ossia/dataflow/nodes/midi.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index a1b4fd9..eb81798 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -65,13 +65,11 @@ public:
 
   void remove_note(note_data nd)
   {
-    m_orig_notes.erase(nd);
-    m_notes.erase(nd);
-    auto it = m_playingnotes.find(nd);
-    if (it != m_playingnotes.end())
+    erase_note(m_orig_notes, nd);
+    erase_note(m_notes, nd);
+    if (erase_note(m_playingnotes, nd))
     {
       m_toStop.insert(nd);
-      m_playingnotes.erase(it);
     }
   }
 
@@ -149,6 +147,22 @@ public:
   bool doTransport{};
 
 private:
+  // The sets are ordered by start date only: other notes may start together
+  static bool erase_note(note_set& notes, const note_data& nd)
+  {
+    for (auto it = notes.lower_bound(nd);
+         it != notes.end() && it->start == nd.start; ++it)
+    {
+      if (it->duration == nd.duration && it->pitch == nd.pitch
+          && it->velocity == nd.velocity)
+      {
+        notes.erase(it);
+        return true;
+      }
+    }
+    return false;
+  }
+
   void
   run(const ossia::token_request& t, ossia::exec_state_facade e) noexcept override
   {
-- 
2.43.0


From 85dd17fe54b38ff177f6308f63a32e203f644750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 43/67] fix: MIDI playback restarts exactly from the date of a
 transport or loop

---
 src/ossia/dataflow/nodes/midi.hpp | 57 ++++++++-----------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index eb81798..f231fd7 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -73,10 +73,10 @@ public:
     }
   }
 
-  void transport(ossia::time_value date)
+  // Takes effect with the first tick that starts at the new date
+  void transport(ossia::time_value)
   {
     requestTransport = true;
-    m_transport_date = date;
   }
 
   void transport_impl(ossia::time_value date)
@@ -85,41 +85,12 @@ public:
     m_toStop.insert(m_playingnotes.begin(), m_playingnotes.end());
     m_playingnotes.clear();
 
-    // 2. Re-add following notes
-    if (date < m_prev_date)
+    // 2. Re-add following notes, and those which are not finished
+    m_notes.clear();
+    for (const note_data& note : m_orig_notes)
     {
-      if (date == 0_tv)
-      {
-        m_notes = m_orig_notes;
-      }
-      else
-      {
-        auto min_it = m_orig_notes.lower_bound({date});
-        auto max_it = m_orig_notes.lower_bound({m_prev_date});
-
-        if (min_it != m_orig_notes.end())
-          m_notes.insert(min_it, max_it);
-
-        // all of these will have it->start < date
-        for (auto it = m_orig_notes.begin(); it != min_it; ++it)
-        {
-          if ((it->start + it->duration) > date)
-          {
-            m_notes.insert(*it);
-          }
-        }
-      }
-    }
-    else if (date > m_prev_date)
-    {
-      // remove previous notes
-      auto min_it = m_notes.lower_bound({date});
-      if (min_it != m_notes.begin() && min_it != m_notes.end())
-      {
-        std::advance(min_it, -1);
-        m_notes.erase(m_notes.begin(), min_it);
-      }
-      // todo resume current notes
+      if (note.start >= date || (note.start + note.duration) > date)
+        m_notes.insert(note);
     }
 
     m_prev_date = date;
@@ -171,15 +142,16 @@ private:
       const ossia::token_request& t;
       ~scope_guard() {
         self.m_prev_date = t.date;
-
-        if(self.requestTransport)
-        {
-          self.transport_impl(self.m_transport_date);
-          self.requestTransport = false;
-        }
+        self.requestTransport = false;
       }
     } guard{*this, t};
 
+    // This tick does not follow the previous one: there was a transport, or
+    // we are looping.
+    if (t.prev_date != m_prev_date)
+      transport_impl(t.prev_date);
+
+
     ossia::midi_port& mp = *midi_out;
     const auto samplesratio = e.modelToSamples();
     const auto tick_start = t.physical_start(samplesratio);
@@ -297,7 +269,6 @@ private:
   note_set m_playingnotes;
   note_set m_toStop;
   time_value m_prev_date{};
-  time_value m_transport_date{};
 
   int m_channel{};
 };
-- 
2.43.0


From 8527ab16f339695e1200aaa2a7a7822c4c785bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 44/67] fix: sound fades cover the part of the buffer that was
 written

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 2 +-
 src/ossia/dataflow/nodes/sound_ref.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index 57bea25..c82a671 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -312,7 +312,7 @@ public:
       {
         // fade
         snd::do_fade(t.start_discontinuous, t.end_discontinuous, ap.samples[chan],
-                     samples_offset, samples_to_write);
+                     samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, channels, ap);
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 1d5a2fb..356cd51 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -165,7 +165,7 @@ public:
       {
           ossia::snd::do_fade(
               t.start_discontinuous, t.end_discontinuous, ap.samples[i],
-              samples_offset, samples_to_write);
+              samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, chan, ap);
-- 
2.43.0


From 1dbdfc7eefb731c588b3edd9742a9a66c2fdb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 45/67] fix: a sound played in several parts of a buffer keeps
 its start channel

---
 src/ossia/dataflow/nodes/sound.hpp      | 9 +++++++++
 src/ossia/dataflow/nodes/sound_mmap.hpp | 1 +
 src/ossia/dataflow/nodes/sound_ref.hpp  | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/ossia/dataflow/nodes/sound.hpp b/src/ossia/dataflow/nodes/sound.hpp
index 5568b13..49949ef 100644
--- a/src/ossia/dataflow/nodes/sound.hpp
+++ b/src/ossia/dataflow/nodes/sound.hpp
@@ -231,6 +231,15 @@ inline void perform_upmix(const std::size_t upmix, const std::size_t chan, ossia
   }
 }
 
+// Undoes perform_start_offset for the next part of the same buffer
+inline void undo_start_offset(const std::size_t start, const std::size_t chan, ossia::audio_port& ap)
+{
+  if (start != 0 && ap.samples.size() >= start + chan)
+  {
+    ap.samples.erase(ap.samples.begin(), ap.samples.begin() + start);
+  }
+}
+
 inline void perform_start_offset(const std::size_t start, ossia::audio_port& ap)
 {
   if (start != 0)
diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index c82a671..28b0508 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -278,6 +278,7 @@ public:
     const auto len = m_handle.totalPCMFrameCount();
 
     ossia::audio_port& ap = *audio_out;
+    ossia::snd::undo_start_offset(this->start, channels, ap);
     ap.samples.resize(channels);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 356cd51..df540b6 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -129,6 +129,7 @@ public:
     const std::size_t chan = m_data.size();
     const std::size_t len = m_data[0].size();
     ossia::audio_port& ap = *audio_out;
+    ossia::snd::undo_start_offset(this->start, chan, ap);
     ap.samples.resize(chan);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
-- 
2.43.0


From 76dcfe6e13931156f680ccb9eac7e02c31a0d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 46/67] fix: OSC blobs are sent with their size and received by
 string parameters

---
 src/ossia/network/osc/detail/osc.hpp               |  2 ++
 src/ossia/network/osc/detail/osc_common_policy.hpp |  6 ++++--
 src/ossia/network/osc/detail/osc_utils.hpp         | 14 ++++++++++++++
 .../network/osc/detail/osc_value_write_visitor.hpp |  4 ++--
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index 52487c3..c8c3284 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -350,6 +350,8 @@ struct osc_inbound_visitor
         return std::string{cur_it->AsStringUnchecked()};
       case oscpack::SYMBOL_TYPE_TAG:
         return std::string{cur_it->AsSymbolUnchecked()};
+      case oscpack::BLOB_TYPE_TAG:
+        return osc_utilities::get_blob(cur_it);
       default:
         return str;
     }
diff --git a/src/ossia/network/osc/detail/osc_common_policy.hpp b/src/ossia/network/osc/detail/osc_common_policy.hpp
index b8c24ce..b677d01 100644
--- a/src/ossia/network/osc/detail/osc_common_policy.hpp
+++ b/src/ossia/network/osc/detail/osc_common_policy.hpp
@@ -103,8 +103,10 @@ struct osc_common_outbound_static_policy
     buffer[2] = '\0';
     buffer[3] = '\0';
 
-    std::size_t written = write_string(std::string_view((const char *)v.data, v.size), buffer + 4);
-    return 4 + written;
+    boost::endian::endian_store<int32_t, 4, boost::endian::order::big>((unsigned char*) buffer + 4, (int32_t)v.size);
+
+    std::size_t written = write_blob(std::string_view((const char *)v.data, v.size), buffer + 8);
+    return 8 + written;
   }
 
   std::size_t operator()(char* buffer, vec2f v) const noexcept
diff --git a/src/ossia/network/osc/detail/osc_utils.hpp b/src/ossia/network/osc/detail/osc_utils.hpp
index d3bff08..4c6bda0 100644
--- a/src/ossia/network/osc/detail/osc_utils.hpp
+++ b/src/ossia/network/osc/detail/osc_utils.hpp
@@ -50,6 +50,20 @@ static inline std::size_t write_string(std::string_view str, char* buffer) noexc
   return i;
 }
 
+// Unlike strings, blobs have no terminating zero
+static inline std::size_t write_blob(std::string_view str, char* buffer) noexcept
+{
+  std::size_t i = 0;
+  for (; i < str.size(); i++) {
+    buffer[i] = str[i];
+  }
+
+  for (; i % 4 != 0; i++) {
+    buffer[i] = 0;
+  }
+  return i;
+}
+
 static inline bool is_blob(const ossia::net::parameter_base& b) noexcept
 {
   using namespace std::literals;
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 8947d96..9f29af9 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -50,7 +50,7 @@ struct osc_value_send_visitor
 
   void operator()(const std::string& v) const noexcept try
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     if(sz < 16384) {
       char* buffer = (char*) alloca(sz);
       std::size_t i = write_string(address_pattern, buffer);
@@ -152,7 +152,7 @@ struct osc_value_write_visitor
 
   void operator()(const std::string& v) const noexcept
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     result.resize(sz);
     std::size_t i = write_string(address_pattern, result.data());
 
-- 
2.43.0


From eda251942cbd2278af7fac2f33488dc25df1b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 47/67] fix: lists up to the maximal OSC message size are sent

---
 .../osc/detail/osc_value_write_visitor.hpp     | 18 ++++++++++++------
 src/ossia/network/osc/detail/sender.hpp        |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 9f29af9..2a498f0 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -7,6 +7,8 @@
 #include <ossia/network/osc/detail/osc_messages.hpp>
 
 #include <boost/endian/conversion.hpp>
+
+#include <algorithm>
 #include <ossia/detail/buffer_pool.hpp>
 
 #include <oscpack/osc/OscOutboundPacketStream.h>
@@ -90,7 +92,7 @@ struct osc_value_send_visitor
   {
     auto& pool = buffer_pool::instance();
     auto buf = pool.acquire();
-    while (buf.size() < max_osc_message_size)
+    for (;;)
     {
       try
       {
@@ -105,9 +107,11 @@ struct osc_value_send_visitor
       }
       catch(...)
       {
-        auto n = buf.size();
+        const std::size_t n = buf.size();
+        if (n >= max_osc_message_size)
+          break;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min(n * 2 + 1, (std::size_t)max_osc_message_size));
       }
     }
 
@@ -167,7 +171,7 @@ struct osc_value_write_visitor
   void operator()(const std::vector<ossia::value>& v) const noexcept
   {
     // OPTIMIZEME
-    while (result.size() < max_osc_message_size)
+    for (;;)
     {
       try
       {
@@ -182,9 +186,11 @@ struct osc_value_write_visitor
       }
       catch(...)
       {
-        auto n = result.size();
+        const std::size_t n = result.size();
         result.clear();
-        result.resize(n * 2 + 1);
+        if (n >= max_osc_message_size)
+          break;
+        result.resize(std::min(n * 2 + 1, (std::size_t)max_osc_message_size));
       }
     }
   }
diff --git a/src/ossia/network/osc/detail/sender.hpp b/src/ossia/network/osc/detail/sender.hpp
index e146a92..bad3be8 100644
--- a/src/ossia/network/osc/detail/sender.hpp
+++ b/src/ossia/network/osc/detail/sender.hpp
@@ -12,6 +12,7 @@
 #include <oscpack/osc/OscOutboundPacketStream.h>
 #include <oscpack/osc/OscPrintReceivedElements.h>
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -91,7 +92,7 @@ private:
   void send_base(Args&&... args)
   {
     auto buf = m_pool.acquire();
-    while(buf.size() < ossia::net::max_osc_message_size) {
+    for(;;) {
       try {
         oscpack::OutboundPacketStream p{buf.data(), buf.size()};
         oscpack::osc_message_generator<ossia::net::osc_1_0_outbound_stream_visitor> generate_message{p};
@@ -99,9 +100,11 @@ private:
         send_impl(p);
         break;
       } catch(...) {
-        auto n = buf.size();
+        const std::size_t n = buf.size();
+        if(n >= ossia::net::max_osc_message_size)
+          break;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min(n * 2 + 1, (std::size_t)ossia::net::max_osc_message_size));
       }
     }
 
-- 
2.43.0


From 94236202653689c409dbd8bc1689b5b25f625810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 48/67] fix: parameters that are listened to keep receiving
 messages after a renaming

---
 src/ossia/network/generic/generic_node.cpp | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ossia/network/generic/generic_node.cpp b/src/ossia/network/generic/generic_node.cpp
index eb2dc19..e485e29 100644
--- a/src/ossia/network/generic/generic_node.cpp
+++ b/src/ossia/network/generic/generic_node.cpp
@@ -50,6 +50,17 @@ void generic_node_base::on_address_change()
   }
 }
 
+static void
+listened_parameters_of(node_base& n, std::vector<parameter_base*>& res)
+{
+  if (auto p = n.get_parameter())
+    if (!p->callbacks_empty())
+      res.push_back(p);
+
+  for (auto cld : n.children_copy())
+    listened_parameters_of(*cld, res);
+}
+
 node_base& generic_node_base::set_name(std::string name)
 {
   auto old_name = std::move(m_name);
@@ -64,8 +75,20 @@ node_base& generic_node_base::set_name(std::string name)
     m_name = std::move(name);
     sanitize_name(m_name);
   }
+
+  // The protocols find the parameters they listen to by their address
+  std::vector<parameter_base*> listened;
+  if (m_parent && m_name != old_name)
+    listened_parameters_of(*this, listened);
+
+  for (auto p : listened)
+    m_device.get_protocol().observe(*p, false);
+
   on_address_change();
 
+  for (auto p : listened)
+    m_device.get_protocol().observe(*p, true);
+
   // notify observers
   m_device.on_node_renamed(*this, old_name);
 
-- 
2.43.0


From a45b5206bf2a80e4d3d38fef4d99a8a134d94e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 49/67] fix: bundles sent by the OSC protocol leave out the
 parameters that only receive

---
 src/ossia/network/osc/osc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/osc/osc.cpp b/src/ossia/network/osc/osc.cpp
index aafbd29..651a636 100644
--- a/src/ossia/network/osc/osc.cpp
+++ b/src/ossia/network/osc/osc.cpp
@@ -188,7 +188,7 @@ bool osc_protocol::push_raw(const ossia::net::full_parameter_data& addr)
 bool osc_protocol::push_bundle(
     const std::vector<const parameter_base*>& addresses)
 {
-  if(auto bundle = make_bundle(bundle_server_policy<osc_1_0_policy>{}, addresses)) {
+  if(auto bundle = make_bundle(bundle_client_policy<osc_1_0_policy>{}, addresses)) {
     m_sender->socket().Send(bundle->data.data(), bundle->data.size());
     ossia::buffer_pool::instance().release(std::move(bundle->data));
     return true;
@@ -199,7 +199,7 @@ bool osc_protocol::push_bundle(
 bool osc_protocol::push_raw_bundle(
     const std::vector<ossia::net::full_parameter_data>& addresses)
 {
-  if(auto bundle = make_bundle(bundle_server_policy<osc_1_0_policy>{}, addresses)) {
+  if(auto bundle = make_bundle(bundle_client_policy<osc_1_0_policy>{}, addresses)) {
     m_sender->socket().Send(bundle->data.data(), bundle->data.size());
     ossia::buffer_pool::instance().release(std::move(bundle->data));
     return true;
-- 
2.43.0


From 3e2874d6bb57ddc262aa20a2ad966e5cea30d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 50/67] fix: destroyed generic expressions no longer observe
 their implementation

---
 src/ossia/editor/expression/expression_generic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/editor/expression/expression_generic.cpp b/src/ossia/editor/expression/expression_generic.cpp
index 1ff0093..851f1f7 100644
--- a/src/ossia/editor/expression/expression_generic.cpp
+++ b/src/ossia/editor/expression/expression_generic.cpp
@@ -12,6 +12,8 @@ expression_generic_base::~expression_generic_base()
 
 expression_generic::~expression_generic()
 {
+  if (!expression_callback_container::callbacks_empty())
+    expression_callback_container::callbacks_clear();
 }
 }
 }
-- 
2.43.0


From 3f726bc900a2cafc837ae13d2d614f9cc9e5c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 51/67] fix: recalled JSON arrays which start with a number may
 hold anything else

---
 src/ossia/preset/preset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index c7c7f30..544999e 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -451,21 +451,21 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble())
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble() && value[3].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble() && value[3].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From 2860831cc242a854ccb1f9f514f0ad5067278ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 52/67] fix: instances missing from a JSON preset are not read
 as empty values

---
 src/ossia/preset/preset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 544999e..572b6b6 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -517,6 +517,9 @@ void explore(
       {
         for (int i = 0; i < arrsize; ++i)
         {
+          // Instances which do not exist are written as null
+          if (jsonval[i].IsNull())
+            continue;
           explore(fmt::format("{}.{}", root, i), jsonval[i], preset);
         }
       }
-- 
2.43.0


From 57477dda712037cce16dd905a09445726ff46541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 53/67] fix: a preset for a root instance is not applied to
 other nodes with names of the same length

---
 src/ossia/preset/preset.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 572b6b6..4830827 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1174,10 +1174,11 @@ void apply_preset_node(
         {
           // Case of the 'bar.0' / 'bar'.
           const auto N = currentkey.size();
-          if ((childName.size() == (N - 2)) && currentkey[N - 2] == '.'
-              && currentkey[N - 1] == '0')
+          if ((childName.size() + 2 == N) && currentkey[N - 2] == '.'
+              && currentkey[N - 1] == '0'
+              && currentkey.compare(0, N - 2, childName) == 0
+              && !root.find_child(currentkey))
           {
-            currentkey.resize(currentkey.size() - 2);
             child_exists = true;
             apply_preset_node(
                 *child, keys, val, keeparch, created_nodes, allow_nonterminal);
-- 
2.43.0


From 852322dee501d5e5eec96f9c5f44d56456f8ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 54/67] fix: presets which name a node without parameter do not
 crash

---
 src/ossia/preset/preset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 4830827..a62f3c0 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1144,7 +1144,9 @@ void apply_preset_node(
     }
     else
     {
-      root.get_parameter()->push_value(val);
+      // Like for the other kinds of presets, nodes without value are ignored
+      if (auto param = root.get_parameter())
+        param->push_value(val);
     }
   }
   else
-- 
2.43.0


From e457497c35885bd0b6faf82245688f201b877ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 55/67] fix: node_base::add_child checks the name under the
 lock it inserts with, two threads could add the same name

---
 src/ossia/network/base/node.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/base/node.cpp b/src/ossia/network/base/node.cpp
index 5bf63db..04eb69b 100644
--- a/src/ossia/network/base/node.cpp
+++ b/src/ossia/network/base/node.cpp
@@ -145,17 +145,20 @@ node_base* node_base::add_child(std::unique_ptr<node_base> n)
 
   if (n)
   {
-    const auto& name = n->get_name();
-    if (name == sanitize_name(name, children_names()))
+    auto ptr = n.get();
     {
-      auto ptr = n.get();
-      {
-        write_lock_t lock{m_mutex};
-        m_children.push_back(std::move(n));
-      }
-      dev.on_node_created(*ptr);
-      return ptr;
+      // The name must still be free when the child is added
+      write_lock_t lock{m_mutex};
+
+      auto name = ptr->get_name();
+      sanitize_name(name, m_children);
+      if (name != ptr->get_name())
+        return nullptr;
+
+      m_children.push_back(std::move(n));
     }
+    dev.on_node_created(*ptr);
+    return ptr;
   }
   return nullptr;
 }
-- 
2.43.0


From baa4da5796ec0df012246f5082ab3a062b5fd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 56/67] fix: renaming a node locks its parent's children, the
 names were read and written without protection

---
 src/ossia/network/base/node.hpp            |  6 ++++++
 src/ossia/network/generic/generic_node.cpp | 10 +++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/node.hpp b/src/ossia/network/base/node.hpp
index 2c53c8d..30cd3df 100644
--- a/src/ossia/network/base/node.hpp
+++ b/src/ossia/network/base/node.hpp
@@ -209,6 +209,12 @@ protected:
   //! Reimplement for a specific removal action.
   virtual void removing_child(node_base& node_base) = 0;
 
+  //! The mutex that protects the children of a node and their names.
+  static shared_mutex_t& children_mutex(const node_base& n)
+  {
+    return n.m_mutex;
+  }
+
   std::string m_name;
   children_t m_children;
   mutable shared_mutex_t m_mutex;
diff --git a/src/ossia/network/generic/generic_node.cpp b/src/ossia/network/generic/generic_node.cpp
index e485e29..a210c7c 100644
--- a/src/ossia/network/generic/generic_node.cpp
+++ b/src/ossia/network/generic/generic_node.cpp
@@ -63,15 +63,19 @@ listened_parameters_of(node_base& n, std::vector<parameter_base*>& res)
 
 node_base& generic_node_base::set_name(std::string name)
 {
-  auto old_name = std::move(m_name);
+  std::string old_name;
   if (m_parent)
   {
-    read_lock_t lock{m_mutex};
+    // The names of the siblings, and this one, are protected by the parent
+    write_lock_t lock{children_mutex(*m_parent)};
+    old_name = std::move(m_name);
+    m_name.clear();
     sanitize_name(name, m_parent->unsafe_children());
-    m_name = name;
+    m_name = std::move(name);
   }
   else
   {
+    old_name = std::move(m_name);
     m_name = std::move(name);
     sanitize_name(m_name);
   }
-- 
2.43.0


From a7270d1b11990083bb3c6f61e96dea57c4f15396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 57/67] fix: stopping a rate-limited device stops its sending
 thread, it kept using parameters being destroyed

---
 src/ossia/network/rate_limiting_protocol.cpp | 10 +++++++++-
 src/ossia/network/rate_limiting_protocol.hpp |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index d8f884a..192d7f0 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -102,9 +102,15 @@ rate_limiting_protocol::rate_limiting_protocol(
 }
 
 rate_limiting_protocol::~rate_limiting_protocol()
+{
+  stop_thread();
+}
+
+void rate_limiting_protocol::stop_thread()
 {
   m_running = false;
-  m_thread.join();
+  if(m_thread.joinable())
+    m_thread.join();
 }
 
 void rate_limiting_protocol::set_duration(rate_limiting_protocol::duration d)
@@ -152,6 +158,8 @@ const network_logger&rate_limiting_protocol::get_logger() const noexcept
 
 void rate_limiting_protocol::stop()
 {
+  // The parameters are going to be destroyed, nothing must be sent anymore
+  stop_thread();
   return m_protocol->stop();
 }
 
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index aebfc9a..d0e730f 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -36,6 +36,7 @@ private:
   void stop() override;
   void set_device(ossia::net::device_base& dev) override;
 
+  void stop_thread();
   void parameter_removed(const ossia::net::parameter_base& b);
 
   rate_limiting_protocol() = delete;
-- 
2.43.0


From 69c8f588f04135e84abc2638406b60b386b42043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 58/67] fix: a parameter removed from a rate-limited device is
 no longer sent afterwards

---
 src/ossia/network/rate_limiting_protocol.cpp | 27 ++++++++++++++++++--
 src/ossia/network/rate_limiting_protocol.hpp |  2 ++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index 192d7f0..ea93cdb 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -21,7 +21,10 @@ struct rate_limiter
         if(time_to_sleep > 1ms)
           std::this_thread::sleep_for(time_to_sleep);
 
-        // TODO find safe way to handle if a parameter is removed
+        // Parameters are not removed while their messages are being sent,
+        // see parameter_removed
+        std::lock_guard sending{self.m_sendMutex};
+
         // TODO instead we should do the value filtering in the parameter ...
         // but still have to handle cases that can be optimized, such as midi
         {
@@ -45,7 +48,7 @@ struct rate_limiter
           auto val = v.second.first;
           if(val.valid())
           {
-            self.m_protocol->push(*v.first, v.second.first);
+            self.m_protocol->push(*v.first, val);
           }
         }
 
@@ -104,6 +107,24 @@ rate_limiting_protocol::rate_limiting_protocol(
 rate_limiting_protocol::~rate_limiting_protocol()
 {
   stop_thread();
+  if(m_device)
+    m_device->on_parameter_removing
+        .disconnect<&rate_limiting_protocol::parameter_removed>(*this);
+}
+
+void rate_limiting_protocol::parameter_removed(
+    const ossia::net::parameter_base& b)
+{
+  // Waits for the messages being sent ; recursive since sending a message
+  // may itself remove a parameter.
+  std::lock_guard sending{m_sendMutex};
+  std::lock_guard lock{m_msgMutex};
+  for(auto map : {&m_userMessages, &m_buffer, &m_threadMessages})
+  {
+    auto it = map->find(&b);
+    if(it != map->end())
+      it->second.first = ossia::value{};
+  }
 }
 
 void rate_limiting_protocol::stop_thread()
@@ -166,6 +187,8 @@ void rate_limiting_protocol::stop()
 void rate_limiting_protocol::set_device(device_base& dev)
 {
   m_device = &dev;
+  m_device->on_parameter_removing
+      .connect<&rate_limiting_protocol::parameter_removed>(*this);
   m_protocol->set_device(dev);
 }
 
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index d0e730f..c6ec2c6 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -6,6 +6,7 @@
 #include <ossia/detail/algorithms.hpp>
 #include <readerwriterqueue.h>
 #include <chrono>
+#include <mutex>
 #include <thread>
 #include <vector>
 
@@ -60,6 +61,7 @@ private:
   map_t m_buffer;
   map_t m_threadMessages;
   std::mutex m_msgMutex;
+  std::recursive_mutex m_sendMutex;
 };
 
 template<typename Protocol, typename... Args>
-- 
2.43.0


From 316b0f7ec95405d38885cb75567c6e5134ecacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:52 +0000
Subject: [PATCH 59/67] fix: changing the period of a rate-limited device takes
 effect while it runs

---
 src/ossia/network/rate_limiting_protocol.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index ea93cdb..b31d8ee 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -12,10 +12,11 @@ struct rate_limiter
   void operator()() const noexcept {
     using namespace std::literals;
     using clock = rate_limiting_protocol::clock;
-    const auto duration = self.m_duration.load();
-    thread_local auto time_to_sleep = duration;
+    auto time_to_sleep = self.m_duration.load();
     while(self.m_running)
     {
+      // It can be changed at any time by set_duration
+      const auto duration = self.m_duration.load();
       try {
         auto prev_time = clock::now();
         if(time_to_sleep > 1ms)
-- 
2.43.0


From c8098144ccfc52f18bae408ac7015dad70bad4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 60/67] fix: OSCQuery range writing reads past short vector
 domains, writes invalid JSON for value domains

---
 .../oscquery/detail/domain_to_json.hpp        | 41 +------------------
 1 file changed, 2 insertions(+), 39 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/domain_to_json.hpp b/src/ossia/network/oscquery/detail/domain_to_json.hpp
index d0d2b8c..1a0ecde 100644
--- a/src/ossia/network/oscquery/detail/domain_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/domain_to_json.hpp
@@ -152,13 +152,13 @@ struct domain_to_json
             || (max_count > i && dom.max[i].valid()))
         {
           writer.StartObject();
-          if (dom.min[i].valid())
+          if (min_count > i && dom.min[i].valid())
           {
             writer.Key("MIN");
             write_json(writer, dom.min[i]);
           }
 
-          if (dom.max[i].valid())
+          if (max_count > i && dom.max[i].valid())
           {
             writer.Key("MAX");
             write_json(writer, dom.max[i]);
@@ -221,43 +221,6 @@ struct domain_to_json
     }
     writer.EndArray();
   }
-
-  void operator()(const ossia::domain_base<ossia::value>& dom)
-  {
-    /* TODO this code is not correct
-    if (dom.min)
-    {
-      dom.min->apply(value_to_json{writer});
-    }
-    else
-    {
-      writer.Null();
-    }
-
-    if (dom.max)
-    {
-      dom.max->apply(value_to_json{writer});
-    }
-    else
-    {
-      writer.Null();
-    }
-
-    if (!dom.values.empty())
-    {
-      writer.StartArray();
-      for (const auto& val : dom.values)
-      {
-        val.apply(value_to_json{writer});
-      }
-      writer.EndArray();
-    }
-    else
-    {
-      writer.Null(); // TODO why not just nothing ?
-    }
-    */
-  }
 };
 }
 }
-- 
2.43.0


From dbcd0a7e9bd570485f33d4ab924727fbab38b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 61/67] fix: OSCQuery values: nested vectors, default lists,
 booleans in lists, rgba8 colors were not read back

---
 .../network/oscquery/detail/value_to_json.hpp | 55 ++++++++++---------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b9d0171..6d46098 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -32,7 +32,7 @@ struct value_to_json
   }
   void operator()(bool v) const
   {
-    writer.Null(); // the value is already encoded in the typetag
+    writer.Bool(v);
   }
   void operator()(char v) const
   {
@@ -165,7 +165,16 @@ struct json_to_value
   {
     bool b = false;
 
-    switch(typetags[typetag_cursor])
+    // When the boolean is there it says more than the typetag,
+    // which for a default value is the one of the current value
+    if (val.IsBool())
+    {
+      typetag_cursor++;
+      res = val.GetBool();
+      return true;
+    }
+
+    switch(typetag_cursor < (int)typetags.size() ? typetags[typetag_cursor] : '\0')
     {
       case 'F':
         res = false;
@@ -175,10 +184,6 @@ struct json_to_value
         res = true;
         b = true;
         break;
-      default:
-        b = val.IsBool();
-        if (b)
-          res = val.GetBool();
     }
     typetag_cursor++;
     return b;
@@ -211,7 +216,8 @@ struct json_to_value
   {
     if constexpr (N == 4)
     {
-      if (typetags[typetag_cursor]
+      if (typetag_cursor < (int)typetags.size()
+          && typetags[typetag_cursor]
           == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
       {
         typetag_cursor += 1;
@@ -386,15 +392,7 @@ struct json_to_value
 
   bool can_read(ossia::string_view sv) const noexcept
   {
-      const auto res = typetags.find(sv);
-      if(res == std::string_view::npos)
-      {
-        return false;
-      }
-      else
-      {
-        return int64_t(res) == typetag_cursor;
-      }
+      return typetags.substr(typetag_cursor, sv.size()) == sv;
   }
 
   bool operator()(std::vector<ossia::value>& res) const
@@ -405,6 +403,7 @@ struct json_to_value
     {
       auto arr = val.GetArray();
 
+      res.clear();
       for (const auto& elt : arr)
       {
         if (!handleVecElement(elt, res))
@@ -449,7 +448,14 @@ struct json_to_single_value
   bool operator()(bool& res) const
   {
     bool b=false;
-    if(typetags == "F")
+    if (val.IsBool())
+    {
+      // When the boolean is there it says more than the typetag,
+      // which for a default value is the one of the current value
+      res = val.GetBool();
+      b = true;
+    }
+    else if(typetags == "F")
     {
       res = false;
       b = true;
@@ -459,15 +465,6 @@ struct json_to_single_value
       res = true;
       b = true;
     }
-    else
-    {
-      // weird case where the typetag is wrongly set
-      // then we expect that the value is not null
-      // This doesn't follow the OSCQuery specification
-      bool b = val.IsBool();
-      if (b)
-        res = val.GetBool();
-    }
     return b;
   }
 
@@ -622,6 +619,12 @@ struct json_to_value_unchecked
           res[i] = arr[i].GetDouble();
         }
       }
+      else if constexpr (N == 4)
+      {
+        // [ "#RRGGBBAA" ]
+        if (arr.Size() == 1)
+          json_to_single_value{arr[0], "r"}(res);
+      }
     }
   }
 
-- 
2.43.0


From 89415a7974013b20b88a155ba9dc7b891f6c79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 62/67] fix: OSCQuery reader: removed attributes, ranges of
 values, extended types, removed parameters were not mirrored

---
 .../oscquery/detail/json_reader_detail.cpp    | 125 +++++++++++++++---
 1 file changed, 106 insertions(+), 19 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9ca055f..20e1a46 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -237,22 +237,19 @@ vecf_domain<N> parse_vecf(const rapidjson::Value& val)
     {
       auto min_it = elt.FindMember("MIN");
       auto max_it = elt.FindMember("MAX");
-      // auto values_it = elt.FindMember("VALS");
+      auto values_it = elt.FindMember("VALS");
 
       auto mem_end = elt.MemberEnd();
 
-      /* TODO values for vecf
-      if (values_it != mem_end)
+      if (values_it != mem_end && values_it->value.IsArray())
       {
-        if (values_it->value.IsArray())
+        for (auto& val : values_it->value.GetArray())
         {
-          for (auto& val : values_it->value.GetArray())
-          {
-            dom.values[i].insert(ReadValue(val));
-          }
+          float f;
+          if (json_parser_impl::ReadValue(val, f))
+            dom.values[i].insert(f);
         }
       }
-      */
 
       if (min_it != mem_end)
       {
@@ -275,7 +272,12 @@ bool json_parser_impl::ReadValue(
     const ossia::net::node_base& node, const rapidjson::Value& val,
     domain& res)
 {
-  if (val.IsObject())
+  if (val.IsNull())
+  {
+    res = domain{};
+    return true;
+  }
+  else if (val.IsObject())
   {
     return ReadValueObject(val, res);
   }
@@ -424,7 +426,22 @@ static auto make_setter_pair()
   return std::make_pair(
       metadata<Attr>::key(),
       [](const rapidjson::Value& val, ossia::net::node_base& node) {
-        typename Attr::type res;
+        using type = typename Attr::type;
+        using result
+            = decltype(Attr::getter(std::declval<const ossia::net::node_base&>()));
+        if constexpr (
+            std::is_same_v<std::decay_t<result>, std::optional<type>>
+            && !std::is_enum_v<type>)
+        {
+          // Null means that the attribute is not there anymore
+          if (val.IsNull())
+          {
+            Attr::setter(node, std::nullopt);
+            return;
+          }
+        }
+
+        type res;
         if (json_parser_impl::ReadValue(val, res))
           Attr::setter(node, std::move(res));
       });
@@ -572,6 +589,16 @@ static ossia::val_type underlying_type(
     return actual_type;
 }
 
+// The extended type is not kept when it is only what the type implies:
+// else it would survive a later change of the type.
+static void update_extended_type(
+    ossia::net::node_base& node, const std::optional<ossia::extended_type>& ext_type)
+{
+  ossia::net::set_extended_type(node, std::nullopt);
+  if (ext_type && ossia::net::get_extended_type(node) != ext_type)
+    ossia::net::set_extended_type(node, ext_type);
+}
+
 
 static void create_or_update_parameter_type(
         ossia::net::node_base& node,
@@ -626,6 +653,20 @@ static void create_or_update_parameter_type(
     }
   }
 
+  // Null means that the node does not have it anymore
+  if (auto ext_type_it = obj.FindMember(detail::attribute_extended_type());
+      ext_type_it != obj.MemberEnd() && ext_type_it->value.IsNull())
+  {
+    ossia::net::set_extended_type(node, std::nullopt);
+  }
+
+  if (auto unit_it = obj.FindMember(detail::attribute_unit());
+      unit_it != obj.MemberEnd() && unit_it->value.IsNull())
+  {
+    if (auto p = node.get_parameter())
+      p->set_unit({});
+  }
+
   // If any of these exist, we can update the parameter
   if (val_type || unit || ext_type)
   {
@@ -637,12 +678,12 @@ static void create_or_update_parameter_type(
       {
         addr = node.create_parameter(ossia::matching_type(*unit));
         addr->set_unit(*unit);
-        ossia::net::set_extended_type(node, ext_type);
+        update_extended_type(node, ext_type);
       }
       else if (ext_type)
       {
         addr = node.create_parameter(detail::underlying_type(*ext_type, typetag));
-        ossia::net::set_extended_type(node, ext_type);
+        update_extended_type(node, ext_type);
       }
       else if (val_type)
       {
@@ -654,14 +695,14 @@ static void create_or_update_parameter_type(
       if (unit) // The unit enforces the value type
       {
         addr->set_unit(*unit);
-        ossia::net::set_extended_type(node, ext_type);
+        update_extended_type(node, ext_type);
       }
       else if (ext_type)
       {
         const auto t = detail::underlying_type(*ext_type, typetag);
         if(t != addr->get_value_type())
             addr->set_value_type(t);
-        ossia::net::set_extended_type(node, ext_type);
+        update_extended_type(node, ext_type);
       }
       else if (val_type)
       {
@@ -705,6 +746,22 @@ ossia::value parse_oscquery_value(
   return res;
 }
 
+static ossia::value parse_default_value(
+        ossia::net::node_base& node,
+        const rapidjson::Value& v,
+        std::string_view typetag,
+        bool& ok)
+{
+  auto res = parse_oscquery_value(node, v, typetag, ok);
+  if (!ok && v.IsArray() && res.get_type() == ossia::val_type::LIST)
+  {
+    // The typetag is the one of the current value, which may have another shape
+    res = ReadValue(v);
+    ok = true;
+  }
+  return res;
+}
+
 void json_parser_impl::readParameter(
     net::node_base& node, const rapidjson::Value& obj)
 {
@@ -769,22 +826,24 @@ void json_parser_impl::readParameter(
     {
       addr = node.create_parameter(ossia::matching_type(*unit));
       addr->set_unit(*unit);
-      ossia::net::set_extended_type(node, ext_type);
+      update_extended_type(node, ext_type);
     }
     // FIXME necessary for R color handling... berk handle that better
     else if (has_typetag)
     {
       addr = setup_parameter(val_type, node);
+      if (addr && ext_type)
+        update_extended_type(node, ext_type);
     }
     else if (ext_type)
     {
       addr = node.create_parameter(underlying_type(*ext_type, obj, typetag, value_it, default_value_it));
-      ossia::net::set_extended_type(node, ext_type);
+      update_extended_type(node, ext_type);
     }
     if(!addr && ext_type)
     {
       addr = node.create_parameter(underlying_type(*ext_type, obj, typetag, value_it, default_value_it));
-      ossia::net::set_extended_type(node, ext_type);
+      update_extended_type(node, ext_type);
     }
     // We have a type. Now we read the value according to it.
     if (value_it != obj.MemberEnd())
@@ -799,7 +858,7 @@ void json_parser_impl::readParameter(
     if (default_value_it != obj.MemberEnd())
     {
       bool ok = false;
-      auto res = parse_oscquery_value(node, default_value_it->value, typetag, ok);
+      auto res = parse_default_value(node, default_value_it->value, typetag, ok);
       if (ok)
       {
         if(value_it == obj.MemberEnd())
@@ -1234,9 +1293,37 @@ void json_parser::parse_attributes_changed(
       auto node = ossia::net::find_node(root, path);
       if (node)
       {
+        // A null typetag means that there is no parameter anymore
+        auto type_it = dat.FindMember(detail::attribute_typetag());
+        if (type_it != dat.MemberEnd() && type_it->value.IsNull())
+        {
+          node->remove_parameter();
+          return;
+        }
+
         // First handle the typetag, unit, ext_type, etc
         detail::create_or_update_parameter_type(*node, dat, request_value);
 
+        // Then the default value
+        auto default_it = dat.FindMember(detail::attribute_default_value());
+        if (default_it != dat.MemberEnd() && node->get_parameter())
+        {
+          if (default_it->value.IsNull()
+              && node->get_parameter()->get_value_type() != ossia::val_type::IMPULSE)
+          {
+            ossia::net::set_default_value(*node, std::nullopt);
+          }
+          else
+          {
+            const auto typetag = get_osc_typetag(*node);
+            bool ok = false;
+            auto res = detail::parse_default_value(
+                *node, default_it->value, *typetag, ok);
+            if (ok)
+              ossia::net::set_default_value(*node, std::move(res));
+          }
+        }
+
         // Then the remaining attributes
         auto& map = detail::namespaceSetterMap();
         auto memb_end = dat.MemberEnd();
-- 
2.43.0


From 95a3a0b906e949085bb77105f1af939d25aab0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 63/67] fix: OSCQuery live unit changes were not written as in
 the namespace

---
 .../oscquery/detail/json_writer_detail.cpp    | 34 +++++++++++++++++--
 .../oscquery/detail/json_writer_detail.hpp    |  3 ++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index 453fe37..482bcf9 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -300,6 +300,28 @@ struct node_attribute_writer
   }
 };
 
+void json_writer_impl::writeUnitChange(const net::node_base& n) const
+{
+  // In the same form than in the namespace
+  const auto p = n.get_parameter();
+  if (p)
+  {
+    writeKey(detail::attribute_typetag());
+    writeAttribute(n, detail::attribute_typetag());
+  }
+
+  if (p && p->get_unit())
+  {
+    node_attribute_writer{n, *p, *this}(
+        type_tag<ossia::net::unit_attribute>{});
+  }
+  else
+  {
+    writeKey(detail::attribute_unit());
+    writer.Null();
+  }
+}
+
 void json_writer_impl::writeNodeAttributes(const net::node_base& n) const
 {
   using namespace std;
@@ -439,7 +461,11 @@ void json_writer::attribute_changed_impl(
 
     auto& map = ossia_to_oscquery_key();
     auto it = map.find(attr);
-    if (it != map.end())
+    if (it != map.end() && it.value() == detail::attribute_unit())
+    {
+      p.writeUnitChange(n);
+    }
+    else if (it != map.end())
     {
       write_json_key(wr, it.value());
       p.writeAttribute(n, it.value());
@@ -479,7 +505,11 @@ void json_writer::attributes_changed_impl(
     for (auto& attr : attributes)
     {
       auto it = map.find(attr);
-      if (it != map.end())
+      if (it != map.end() && it.value() == detail::attribute_unit())
+      {
+        p.writeUnitChange(n);
+      }
+      else if (it != map.end())
       {
         write_json_key(wr, it.value());
         p.writeAttribute(n, it.value());
diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.hpp b/src/ossia/network/oscquery/detail/json_writer_detail.hpp
index 7ed3bd8..29d13da 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.hpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.hpp
@@ -46,6 +46,9 @@ struct json_writer_impl
   void writeAttribute(
       const ossia::net::node_base& n, ossia::string_view method) const;
 
+  //! Writes the unit of a node after it changed
+  void writeUnitChange(const ossia::net::node_base& n) const;
+
   //! Writes only the attributes
   void writeNodeAttributes(const ossia::net::node_base& n) const;
 
-- 
2.43.0


From 875ede62952eea46d1f7c4fa4b67fa3d7fbf3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 64/67] fix: OSCQuery mirror: a value reply was given to
 whichever request came first, request() had no effect

---
 .../network/oscquery/oscquery_mirror.cpp      | 192 +++++++++++-------
 .../network/oscquery/oscquery_mirror.hpp      |  19 +-
 2 files changed, 118 insertions(+), 93 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index e61e2bf..01089db 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -37,6 +37,25 @@ struct http_answer
   }
 };
 
+//! Each value requested over HTTP has its own connection:
+//! the reply is the one of the address which was asked there.
+struct http_value_answer
+{
+  oscquery_mirror_protocol& self;
+  std::string address;
+  std::shared_ptr<std::promise<void>> promise;
+
+  template <typename T, typename S>
+  void operator()(T& req, const S& str)
+  {
+    if (self.on_value(address, str))
+    {
+      promise->set_value();
+      req.close();
+    }
+  }
+};
+
 struct http_error
 {
   template <typename T>
@@ -47,6 +66,8 @@ struct http_error
 };
 
 using http_request = ossia::net::http_get_request<http_answer, http_error>;
+using http_value_request
+    = ossia::net::http_get_request<http_value_answer, http_error>;
 
 struct http_client_context
 {
@@ -176,6 +197,20 @@ void oscquery_mirror_protocol::http_send_message(
   hrq->resolve(m_httpHost, m_queryPort);
 }
 
+std::future<void>
+oscquery_mirror_protocol::http_request_value(const std::string& address)
+{
+  auto promise = std::make_shared<std::promise<void>>();
+  auto fut = promise->get_future();
+  std::string text = address;
+  text += detail::query_value();
+  auto hrq = std::make_shared<http_value_request>(
+      http_value_answer{*this, address, std::move(promise)}, http_error{},
+      m_http->context, m_httpHost, text);
+  hrq->resolve(m_httpHost, m_queryPort);
+  return fut;
+}
+
 void oscquery_mirror_protocol::ws_send_message(const std::string& str)
 {
   if (m_hasWS)
@@ -230,32 +265,30 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
       "Time taken: {}",
       std::chrono::duration_cast<std::chrono::microseconds>(t2 - t1).count());
 #endif
-  return status == std::future_status::ready;
+  if (status != std::future_status::ready)
+    return false;
+
+  try
+  {
+    fut.get();
+    return true;
+  }
+  catch (const std::future_error&)
+  {
+    // The server does not have this value
+    return false;
+  }
 }
 
 std::future<void>
 oscquery_mirror_protocol::pull_async(net::parameter_base& address)
 {
-  std::promise<void> promise;
-  auto fut = promise.get_future();
-  auto text = address.get_node().osc_address();
-  m_getWSPromises.enqueue(get_ws_promise{std::move(promise), text});
-  /*
-  m_getOSCPromises.insert(
-        std::make_pair(
-          address.get_node().osc_address(),
-          get_promise{std::move(promise), &address}));
-  */
-  text += detail::query_value();
-  http_send_message(text);
-  return fut;
+  return http_request_value(address.get_node().osc_address());
 }
 
 void oscquery_mirror_protocol::request(net::parameter_base& address)
 {
-  auto text = address.get_node().osc_address();
-  text += detail::query_value();
-  http_send_message(text);
+  http_request_value(address.get_node().osc_address());
 }
 
 bool oscquery_mirror_protocol::push(const net::parameter_base& addr, const ossia::value& v)
@@ -750,73 +783,31 @@ bool oscquery_mirror_protocol::on_WSMessage(
         }
         case message_type::Value:
         {
-          // TODO instead just put full path in reply ?
-          get_ws_promise p;
-          if (m_getWSPromises.try_dequeue(p))
+          // update from critical param
+          for (auto it = data->MemberBegin(), end = data->MemberEnd();
+               it != end; ++it)
           {
-            auto node
-                = ossia::net::find_node(m_device->get_root_node(), p.address);
-
-            const rapidjson::Value* obj_value = data.get();
-            if(obj_value->IsObject())
-            {
-                if(auto it = obj_value->FindMember("VALUE");
-                        it != obj_value->MemberEnd())
-                {
-                    obj_value = &it->value;
-                }
-            }
-
-            if (node)
+            auto path = get_string_view(it->name);
+            if (!path.empty() && path[0] == '/')
             {
-              auto addr = node->get_parameter();
-              if (addr)
-              {
-                json_parser::parse_value(*addr, *obj_value);
-                m_device->on_message(*addr);
-              }
-              else
+              auto node
+                  = ossia::net::find_node(m_device->get_root_node(), path);
+              if (node)
               {
-                m_device->on_unhandled_message(
-                    p.address, detail::ReadValue(*obj_value));
-              }
-            }
-            else
-            {
-              m_device->on_unhandled_message(
-                  p.address, oscquery::detail::ReadValue(*obj_value));
-            }
-
-            p.promise.set_value();
-          }
-
-          else // if update from critical param
-          {
-            for (auto it = data->MemberBegin(), end = data->MemberEnd();
-                 it != end; ++it)
-            {
-              auto path = get_string_view(it->name);
-              if (!path.empty() && path[0] == '/')
-              {
-                auto node
-                    = ossia::net::find_node(m_device->get_root_node(), path);
-                if (node)
+                auto addr = node->get_parameter();
+                if (addr)
                 {
-                  auto addr = node->get_parameter();
-                  if (addr)
-                  {
-                    auto val = addr->value();
-                    json_parser::parse_value(*addr, it->value);
-                    // val.apply(detail::json_to_value_unchecked{it->value});
-                    m_device->on_message(*addr);
-                    continue;
-                  }
+                  auto val = addr->value();
+                  json_parser::parse_value(*addr, it->value);
+                  // val.apply(detail::json_to_value_unchecked{it->value});
+                  m_device->on_message(*addr);
+                  continue;
                 }
               }
-
-              m_device->on_unhandled_message(
-                  std::string(path), detail::ReadValue(it->value));
             }
+
+            m_device->on_unhandled_message(
+                std::string(path), detail::ReadValue(it->value));
           }
 
           break;
@@ -913,6 +904,53 @@ bool oscquery_mirror_protocol::on_WSMessage(
   return true;
 }
 
+bool oscquery_mirror_protocol::on_value(
+    const std::string& address, const std::string& message)
+{
+  try
+  {
+    std::shared_ptr<rapidjson::Document> data = json_parser::parse(message);
+    if (data->HasParseError())
+    {
+      if (m_logger.inbound_logger)
+        m_logger.inbound_logger->warn("Invalid value received: {}", message);
+      return false;
+    }
+
+    const rapidjson::Value* obj_value = data.get();
+    if (obj_value->IsObject())
+    {
+      if (auto it = obj_value->FindMember("VALUE");
+          it != obj_value->MemberEnd())
+      {
+        obj_value = &it->value;
+      }
+    }
+
+    auto node = ossia::net::find_node(m_device->get_root_node(), address);
+    if (auto addr = node ? node->get_parameter() : nullptr)
+    {
+      json_parser::parse_value(*addr, *obj_value);
+      m_device->on_message(*addr);
+    }
+    else
+    {
+      m_device->on_unhandled_message(address, detail::ReadValue(*obj_value));
+    }
+  }
+  catch (std::exception& e)
+  {
+    if (m_logger.inbound_logger)
+      m_logger.inbound_logger->warn(
+          "Error while parsing: {} ==> {}", e.what(), message);
+    return false;
+  }
+
+  if (m_logger.inbound_logger)
+    m_logger.inbound_logger->info("HTTP In: {} {}", address, message);
+  return true;
+}
+
 bool oscquery_mirror_protocol::on_BinaryWSMessage(
     oscquery_mirror_protocol::connection_handler hdl,
     const std::string& message)
diff --git a/src/ossia/network/oscquery/oscquery_mirror.hpp b/src/ossia/network/oscquery/oscquery_mirror.hpp
index adf1463..ea4a426 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.hpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.hpp
@@ -127,10 +127,12 @@ public:
   void connect() override;
 private:
   friend struct http_answer;
+  friend struct http_value_answer;
 
   void init();
   using connection_handler = std::weak_ptr<void>;
   bool on_WSMessage(connection_handler hdl, const std::string& message);
+  bool on_value(const std::string& address, const std::string& message);
   bool on_BinaryWSMessage(connection_handler hdl, const std::string& message);
   void on_OSCMessage(
       const oscpack::ReceivedMessage& m, const oscpack::IpEndpointName& ip);
@@ -139,6 +141,7 @@ private:
 
   void http_send_message(const std::string& str);
   void http_send_message(const rapidjson::StringBuffer& str);
+  std::future<void> http_request_value(const std::string& address);
 
   void ws_send_message(const std::string& str);
   void ws_send_binary_message(const std::string& str);
@@ -169,24 +172,8 @@ private:
     std::promise<void> promise;
     ossia::net::parameter_base* address{};
   };
-  struct get_ws_promise
-  {
-    get_ws_promise() = default;
-    get_ws_promise(const get_ws_promise&) = delete;
-    get_ws_promise(get_ws_promise&&) noexcept = default;
-    get_ws_promise& operator=(const get_ws_promise&) = delete;
-    get_ws_promise& operator=(get_ws_promise&&) noexcept = default;
-
-    get_ws_promise(std::promise<void>&& p, const std::string& addr)
-        : promise{std::move(p)}, address{addr}
-    {
-    }
-    std::promise<void> promise;
-    std::string address{};
-  };
   using promises_map = locked_map<string_map<get_osc_promise>>;
 
-  ossia::spsc_queue<get_ws_promise> m_getWSPromises;
   ossia::spsc_queue<std::function<void()>> m_functionQueue;
   std::function<void()> m_commandCallback;
 
-- 
2.43.0


From 1bf5cf6da4af7c59e22ce575d6c3d2ec0e84707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 65/67] fix: OSCQuery server with several clients sent a client
 its own values back

---
 .../network/oscquery/oscquery_client.hpp      |  2 ++
 .../network/oscquery/oscquery_server.cpp      | 31 ++++++++++---------
 .../network/oscquery/oscquery_server.hpp      |  1 +
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_client.hpp b/src/ossia/network/oscquery/oscquery_client.hpp
index dab5e7f..b7a96a8 100644
--- a/src/ossia/network/oscquery/oscquery_client.hpp
+++ b/src/ossia/network/oscquery/oscquery_client.hpp
@@ -37,6 +37,7 @@ public:
       , listening{std::move(other.listening)}
       , client_ip{std::move(other.client_ip)}
       , sender{std::move(other.sender)}
+      , remote_sender_port{other.remote_sender_port}
   {
     // FIXME http://stackoverflow.com/a/29988626/1495627
   }
@@ -47,6 +48,7 @@ public:
     listening = std::move(other.listening);
     client_ip = std::move(other.client_ip);
     sender = std::move(other.sender);
+    remote_sender_port = other.remote_sender_port;
     return *this;
   }
 
diff --git a/src/ossia/network/oscquery/oscquery_server.cpp b/src/ossia/network/oscquery/oscquery_server.cpp
index 578291d..382ddfa 100644
--- a/src/ossia/network/oscquery/oscquery_server.cpp
+++ b/src/ossia/network/oscquery/oscquery_server.cpp
@@ -551,9 +551,20 @@ void oscquery_server_protocol::rename_node(
 }
 
 void oscquery_server_protocol::on_OSCMessage(
-    const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip) try
+    const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip)
 {
-  auto id = ossia::net::message_origin_identifier{*this, client_identifier(m_clients, ip)};
+  uintptr_t client{};
+  {
+    lock_t lock(m_clientsMutex);
+    client = client_identifier(m_clients, ip);
+  }
+  on_OSCMessage(m, client);
+}
+
+void oscquery_server_protocol::on_OSCMessage(
+    const oscpack::ReceivedMessage& m, uintptr_t client) try
+{
+  auto id = ossia::net::message_origin_identifier{*this, client};
   ossia::net::on_input_message<true>(
         m.AddressPattern(),
         ossia::net::osc_message_applier{id, m},
@@ -781,19 +792,11 @@ ossia::net::server_reply oscquery_server_protocol::on_BinaryWSrequest(
     const std::string& message)
 {
   auto handler
-      = [this](const oscpack::ReceivedMessage& m,
-            const oscpack::IpEndpointName& ip) { this->on_OSCMessage(m, ip); };
+      = [this, client = (uintptr_t)hdl.lock().get()](
+            const oscpack::ReceivedMessage& m,
+            const oscpack::IpEndpointName&) { this->on_OSCMessage(m, client); };
   osc::listener<decltype(handler)> h{handler};
-  auto clt = find_client(hdl);
-  if (clt)
-  {
-    // TODO use proper ip / port
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
-  else
-  {
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
+  h.ProcessPacket(message.data(), message.size(), {});
 
   return {};
 }
diff --git a/src/ossia/network/oscquery/oscquery_server.hpp b/src/ossia/network/oscquery/oscquery_server.hpp
index 99e1f1e..d1989bb 100644
--- a/src/ossia/network/oscquery/oscquery_server.hpp
+++ b/src/ossia/network/oscquery/oscquery_server.hpp
@@ -90,6 +90,7 @@ private:
   // OSC callback
   void
   on_OSCMessage(const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip);
+  void on_OSCMessage(const oscpack::ReceivedMessage& m, uintptr_t client);
 
   // Websocket callbacks
   void on_connectionOpen(const connection_handler& hdl);
-- 
2.43.0


From 17a84ac7e12b624b4a37dea493ba2323cee90bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:03 +0000
Subject: [PATCH 66/67] fix: malformed OSCQuery messages crashed servers and
 clients

---
 .../oscquery/detail/json_query_parser.hpp     | 10 ++++-
 .../oscquery/detail/json_reader_detail.cpp    | 39 ++++++++++++-------
 .../network/oscquery/detail/value_to_json.hpp |  3 +-
 .../network/oscquery/oscquery_mirror.cpp      |  2 +-
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_query_parser.hpp b/src/ossia/network/oscquery/detail/json_query_parser.hpp
index bd98b72..8b4fc72 100644
--- a/src/ossia/network/oscquery/detail/json_query_parser.hpp
+++ b/src/ossia/network/oscquery/detail/json_query_parser.hpp
@@ -30,9 +30,15 @@ struct json_query_answerer
       const auto& arr = doc.GetArray();
       for (const auto& e : arr)
       {
+        if (!e.IsObject())
+          throw bad_request_error{"Object expected"};
         json_parser::parse_parameter_value(root, e, dev);
       }
     }
+    else if (!doc.IsObject())
+    {
+      throw bad_request_error{"Object expected"};
+    }
     else
     {
       switch (json_parser::message_type(doc))
@@ -132,7 +138,7 @@ struct json_query_answerer
       throw bad_request_error{"Client not found"};
 
     auto m = doc.FindMember("DATA");
-    if (m == doc.MemberEnd())
+    if (m == doc.MemberEnd() || !m->value.IsString())
       return {};
 
     auto nodes = ossia::net::find_nodes(
@@ -157,7 +163,7 @@ struct json_query_answerer
       throw bad_request_error{"Client not found"};
 
     auto m = doc.FindMember("DATA");
-    if (m == doc.MemberEnd())
+    if (m == doc.MemberEnd() || !m->value.IsString())
       return {};
 
     auto nodes = ossia::net::find_nodes(
diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 20e1a46..f8f29ac 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -281,7 +281,7 @@ bool json_parser_impl::ReadValue(
   {
     return ReadValueObject(val, res);
   }
-  else if (val.IsArray())
+  else if (val.IsArray() && node.get_parameter())
   {
     auto t = node.get_parameter()->get_value_type();
     switch (t)
@@ -344,6 +344,9 @@ bool json_parser_impl::ReadValue(
 
       default:
       {
+        if (val.Empty())
+          return false;
+
         const rapidjson::Value& elt = *val.GetArray().Begin();
         if (elt.IsObject())
         {
@@ -645,10 +648,10 @@ static void create_or_update_parameter_type(
     else if (ext_type_it->value.IsArray())
     {
       // FIXME ext_type should be an array
-      if (auto arr = ext_type_it->value.GetArray(); arr.Size() > 0)
+      if (auto arr = ext_type_it->value.GetArray(); arr.Size() > 0 && arr[0].IsString())
         ext_type = get_string(ext_type_it->value.GetArray()[0]);
     }
-    else {
+    else if (ext_type_it->value.IsString()) {
         ext_type = get_string(ext_type_it->value);
     }
   }
@@ -782,7 +785,7 @@ void json_parser_impl::readParameter(
   // Look for the typetag
   const auto type_it = obj.FindMember(detail::attribute_typetag());
   bool has_typetag = false;
-  if (type_it != obj.MemberEnd())
+  if (type_it != obj.MemberEnd() && type_it->value.IsString())
   {
     has_typetag = true;
     typetag = get_string_view(type_it->value);
@@ -810,10 +813,10 @@ void json_parser_impl::readParameter(
     }
     else if (ext_type_it->value.IsArray())
     {
-      if (auto arr = ext_type_it->value.GetArray(); arr.Size() > 0)
+      if (auto arr = ext_type_it->value.GetArray(); arr.Size() > 0 && arr[0].IsString())
         ext_type = get_string(ext_type_it->value.GetArray()[0]);
     }
-    else {
+    else if (ext_type_it->value.IsString()) {
         ext_type = get_string(ext_type_it->value);
     }
   }
@@ -846,7 +849,7 @@ void json_parser_impl::readParameter(
       update_extended_type(node, ext_type);
     }
     // We have a type. Now we read the value according to it.
-    if (value_it != obj.MemberEnd())
+    if (value_it != obj.MemberEnd() && node.get_parameter())
     {
       bool ok = false;
       auto res = parse_oscquery_value(node, value_it->value, typetag, ok);
@@ -855,7 +858,7 @@ void json_parser_impl::readParameter(
     }
 
     // Same for default value
-    if (default_value_it != obj.MemberEnd())
+    if (default_value_it != obj.MemberEnd() && node.get_parameter())
     {
       bool ok = false;
       auto res = parse_default_value(node, default_value_it->value, typetag, ok);
@@ -910,6 +913,9 @@ void json_parser_impl::readParameter(
 void json_parser_impl::readObject(
     net::node_base& node, const rapidjson::Value& obj)
 {
+  if (!obj.IsObject())
+    return;
+
   // If it's a real parameter
   if (obj.FindMember(detail::attribute_full_path()) != obj.MemberEnd())
   {
@@ -934,6 +940,9 @@ void json_parser_impl::readObject(
 void json_parser_impl::reloadObject(
     net::node_base& node, const rapidjson::Value& obj)
 {
+  if (!obj.IsObject())
+    return;
+
   // If it's a real parameter
   if (obj.FindMember(detail::attribute_full_path()) != obj.MemberEnd())
   {
@@ -1004,7 +1013,7 @@ json_parser::message_type(const rapidjson::Value& obj)
   using namespace detail;
 
   auto it = obj.FindMember(detail::command());
-  if (it != obj.MemberEnd())
+  if (it != obj.MemberEnd() && it->value.IsString())
   {
     auto mt_it = map.find(get_string(it->value)); // TODO string_view
     if (mt_it != map.end())
@@ -1094,6 +1103,8 @@ void json_parser::parse_namespace(
   auto path_it = obj.FindMember(detail::attribute_full_path());
   if (path_it != obj.MemberEnd())
   {
+    if (!path_it->value.IsString())
+      throw ossia::bad_request_error{"Path expected"};
     auto str = get_string_view(path_it->value);
     auto node = ossia::net::find_node(root.get_device().get_root_node(), str);
     if (node)
@@ -1177,6 +1188,8 @@ void json_parser::parse_path_added(
   // TODO potential race condition there,
   // if the node is created in-between the if / else
   auto opt_str = splitParentChild(full_path);
+  if (!opt_str || opt_str->second.empty())
+    return;
   auto& s = *opt_str;
 
   if (auto parent = ossia::net::find_node(root, s.first))
@@ -1210,10 +1223,10 @@ void json_parser::parse_path_removed(
     net::node_base& root, const rapidjson::Value& obj, bool zombie_on_remove)
 {
   auto dat_it = obj.FindMember(detail::data());
-  if (dat_it != obj.MemberEnd())
+  if (dat_it != obj.MemberEnd() && dat_it->value.IsString())
   {
     auto path = get_string_view(dat_it->value);
-    if (auto node = ossia::net::find_node(root, path))
+    if (auto node = ossia::net::find_node(root, path); node && node->get_parent())
     {
       if( zombie_on_remove )
       {
@@ -1283,11 +1296,11 @@ void json_parser::parse_attributes_changed(
     ossia::net::parameter_base*& request_value)
 {
   auto dat_it = obj.FindMember(detail::data());
-  if (dat_it != obj.MemberEnd())
+  if (dat_it != obj.MemberEnd() && dat_it->value.IsObject())
   {
     const rapidjson::Value& dat = dat_it->value;
     auto path_it = dat.FindMember(detail::attribute_full_path());
-    if (path_it != dat.MemberEnd())
+    if (path_it != dat.MemberEnd() && path_it->value.IsString())
     {
       auto path = get_string_view(path_it->value);
       auto node = ossia::net::find_node(root, path);
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 6d46098..b66c620 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -616,7 +616,8 @@ struct json_to_value_unchecked
       {
         for (int i = 0; i < (int)N; i++)
         {
-          res[i] = arr[i].GetDouble();
+          if (arr[i].IsNumber())
+            res[i] = arr[i].GetDouble();
         }
       }
       else if constexpr (N == 4)
diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index 01089db..6cffcde 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -725,7 +725,7 @@ bool oscquery_mirror_protocol::on_WSMessage(
   try
   {
     std::shared_ptr<rapidjson::Document> data = json_parser::parse(message);
-    if (data->IsNull())
+    if (!data->IsObject() && !data->IsArray())
     {
       if (m_logger.inbound_logger)
         m_logger.inbound_logger->warn(
-- 
2.43.0


From 1f79328675d13f4164a0b2e654f0e4836405b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:19 +0000
Subject: [PATCH 67/67] fix: clock counts its pauses as playing time, ends
 twice and races with its user

Resuming cleared the paused flag before resetting the time reference, and a tick
used a flag read before its wait: a pause could be played, or played after
pause() returned. stop() on a clock that just ended told it twice, the last
tick of a late clock ignored the ratio, and the date was read without
synchronisation.
---
 src/ossia/editor/scenario/clock.cpp | 105 +++++++++++++++-------------
 src/ossia/editor/scenario/clock.hpp |   4 ++
 2 files changed, 62 insertions(+), 47 deletions(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index af64b41..e2f3def 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -74,6 +74,7 @@ void clock::stop()
 
 void clock::pause()
 {
+  std::lock_guard lock{m_timeMutex};
   m_paused = true;
 }
 
@@ -84,49 +85,56 @@ bool clock::paused() const
 
 void clock::resume()
 {
-  m_paused = false;
+  std::lock_guard lock{m_timeMutex};
 
   // reset the time reference
   m_lastTime = clock_type::now();
+  m_paused = false;
 }
 
 bool clock::tick()
 {
   using namespace std::chrono;
-  bool paused = m_paused;
-  bool running = m_running;
-  if (paused || !running)
-    return false;
-
   int64_t droppedTicks = 0;
-
-  // how many time since the last tick ?
-  int64_t deltaInUs
-      = duration_cast<microseconds>(clock_type::now() - m_lastTime).count();
-
-  // how much ticks it represents ?
-  droppedTicks
-      = ossia::llround(std::floor(double(deltaInUs) / double(m_granularity.impl)));
+  int64_t deltaInUs = 0;
+  bool finished = false;
 
   const auto tok = ossia::token_request{};
-  // adjust date and elapsed time considering the dropped ticks
-  if (droppedTicks)
   {
-    m_date += droppedTicks * m_granularity.impl;
-    m_elapsedTime += droppedTicks * m_granularity.impl;
+    std::lock_guard lock{m_timeMutex};
+    if (m_paused || m_shouldStop || !m_running)
+      return false;
 
-    // maybe the clock reaches the end ?
-    if (m_duration - m_date < Zero && !m_duration.infinite())
-    {
-      // notify the owner
-      m_interval.tick_offset(time_value{deltaInUs}, 0_tv, tok);
+    // how many time since the last tick ?
+    deltaInUs
+        = duration_cast<microseconds>(clock_type::now() - m_lastTime).count();
+
+    // how much ticks it represents ?
+    droppedTicks
+        = ossia::llround(std::floor(double(deltaInUs) / double(m_granularity.impl)));
 
-      request_stop();
+    // adjust date and elapsed time considering the dropped ticks
+    if (droppedTicks)
+    {
+      m_date += droppedTicks * m_granularity.impl;
+      m_elapsedTime += droppedTicks * m_granularity.impl;
+      m_lastTime += microseconds(droppedTicks * m_granularity.impl);
 
-      return true;
+      // maybe the clock reaches the end ?
+      finished = m_duration - m_date < Zero && !m_duration.infinite();
     }
   }
 
+  if (finished)
+  {
+    // notify the owner
+    m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
+
+    request_stop();
+
+    return true;
+  }
+
   // how many time to pause to reach the next tick ?
   int64_t pauseInUs = m_granularity.impl - m_elapsedTime % m_granularity.impl;
   // std::cerr << m_granularity << " " << m_ratio << " " << deltaInUs << " "<<
@@ -150,33 +158,36 @@ bool clock::tick()
              < (pauseInUs + 10))
         ;
     }
-
-    deltaInUs
-        = duration_cast<microseconds>(clock_type::now() - m_lastTime).count()
-          - droppedTicks * m_granularity.impl;
   }
 
-  // std::cerr << deltaInUs << std::endl;
-  // how many time elapsed from the start ?
+  {
+    std::lock_guard lock{m_timeMutex};
 
-  m_date += deltaInUs;
-  m_elapsedTime += deltaInUs;
+    // test paused and running status when computing the date because there is
+    // a sleep before
+    if (m_paused || m_shouldStop || !m_running)
+      return false;
 
-  // note the time now to evaluate how long is the callback processing
-  m_lastTime = clock_type::now();
+    // note the time now to evaluate how long is the callback processing
+    const auto now = clock_type::now();
+    deltaInUs = duration_cast<microseconds>(now - m_lastTime).count();
+    m_lastTime = now;
 
-  // test paused and running status after computing the date because there is a
-  // sleep before
-  if (!paused && running)
-  {
-    // notify the owner
-    m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
+    // std::cerr << deltaInUs << std::endl;
+    // how many time elapsed from the start ?
+    m_date += deltaInUs;
+    m_elapsedTime += deltaInUs;
 
     // is this the end
-    if (m_duration - m_date < Zero && !m_duration.infinite())
-    {
-      request_stop();
-    }
+    finished = m_duration - m_date < Zero && !m_duration.infinite();
+  }
+
+  // notify the owner
+  m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
+
+  if (finished)
+  {
+    request_stop();
   }
 
   return true;
@@ -217,14 +228,14 @@ bool clock::running() const
 
 time_value clock::get_date() const
 {
+  std::lock_guard lock{m_timeMutex};
   return m_date;
 }
 
 void clock::request_stop()
 {
-  if (m_running)
+  if (m_running && !m_shouldStop.exchange(true))
   {
-    m_shouldStop = true;
     m_paused = false;
     if (m_statusCallback)
       m_statusCallback(exec_status::STOPPED);
diff --git a/src/ossia/editor/scenario/clock.hpp b/src/ossia/editor/scenario/clock.hpp
index fa3f46b..e12f357 100644
--- a/src/ossia/editor/scenario/clock.hpp
+++ b/src/ossia/editor/scenario/clock.hpp
@@ -8,6 +8,7 @@
 #include <chrono>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 namespace ossia
@@ -120,6 +121,9 @@ private:
   /// a time reference used to know elapsed time in a microsecond
   int64_t m_elapsedTime{};
 
+  /// protects the date, the time reference and pausing
+  mutable std::mutex m_timeMutex;
+
   std::atomic_bool m_running{}; /// is the clock running right now ?
   std::atomic_bool m_paused{};  /// is the clock paused right now ?
   std::atomic_bool m_shouldStop{};
-- 
2.43.0

