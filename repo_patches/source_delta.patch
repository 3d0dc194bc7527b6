From eb365ac0a9191ee6b20dfbcfb3105ab4cecafd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:03 +0000
Subject: [PATCH 01/41] fix: insert both edges of a local minimum by their own
 position

The ascending edge was only searched to the right of the descending one.
With a horizontal bottom running right to left it belongs to its left, so
the active edge list was mis-ordered and the result region wrong.
---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..b6ef1b6 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -758,7 +758,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From 8572472f26be6d8ed33587aed77eba710a7ad162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:23 +0000
Subject: [PATCH 02/41] fix: orient new output bounds by the side the result
 lies on

new_output assumed its two edges have opposite input directions. That does
not hold for difference, xor, or even_odd/non_zero input of mixed
orientation: both bounds then pointed the same way and the output was wrong
or the scan crashed.
---
 src/src/vatti.cpp | 14 ++++++++------
 src/src/vatti.h   |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index b6ef1b6..8d8b15d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -874,6 +874,7 @@ namespace vatti
       bool is_done = false;
     };
     std::vector<new_bound> bound_edge;
+    const bool left_is_up = fillrule_ == fill_rule::negative;
     // 开始构建新的输出
     auto e = ael_first;
     while (e) {
@@ -895,7 +896,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, left_is_up);
       }
     }
 
@@ -949,7 +950,8 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge,
+          (it->obl_index % 2 == 0) == left_is_up);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1354,8 +1356,8 @@ namespace vatti
     delete_obl_bound(b);
   }
 
-  // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  // a、b 的朝向只由输出区域的位置决定，与输入的 wind_dx 无关
+  void clipper::new_output(edge* a, edge* b, bool a_is_up)
   {
     auto output = new_out_polygon();
     output->idx = output_list.size();
@@ -1366,14 +1368,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_is_up ? -1 : 1;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -up->wind_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..fdca485 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool a_is_up);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 12a9d2a0582411ab4219d933303ac1c6d0348253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:27 +0000
Subject: [PATCH 03/41] fix: dist2_point_line measures the distance to the
 infinite line

It is declared as the distance to the (infinite) line but clamped to the
segment, so collinear overlapping segments were not recognised as collinear
unless the first start point lay on the second segment.
---
 src/src/rmath.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..54c5843 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -54,23 +54,13 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
-    AC = p - l0;
-    vec2 AB = l1 - l0;
-    double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
-      res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
-    else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+    const vec2 AB = l1 - l0;
+    const vec2 AC = p - l0;
+    const double d = AB.dist2();
+    if (d == 0) return AC.dist2();
 
-    return res;
+    const double c = AB.cross(AC);
+    return c * c / d;
   }
 
   // 计算点投影到（有限长）线段的点是否位于线段内
-- 
2.43.0


From 15639e80e7048ba4becf9897cfda96b89b3d6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:49 +0000
Subject: [PATCH 04/41] fix: reinsert every edge at a changed x when resorting
 the edge list

Horizontal edges move curr_x, so the list is not sorted by curr_x when it is
resorted and the merge scan skipped edges.
---
 src/src/vatti.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 8d8b15d..d14a0f5 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1223,23 +1223,20 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
     auto e = ael_first;
 
+    // 水平线会使 curr_x 跳跃，此时 ael 不一定按 curr_x 有序，因此逐个查找
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      auto next = e->next_in_ael;
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From 29d89f1ad9b6379c56ea651a3380d681c23c9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:53 +0000
Subject: [PATCH 05/41] fix: keep intersections with axis aligned lines exactly
 on them

The rounded point could leave the horizontal or vertical segment, which
turned it into a nearly horizontal one with a wrong scan order.
---
 src/src/rmath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 54c5843..829671d 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -152,7 +152,13 @@ namespace rmath
 
     if (in_l && in_r) {
       res.count = 1;
-      res.data[0].p = (p0 + a * na);
+      auto& p = res.data[0].p;
+      p = (p0 + a * na);
+      // 水平或垂直的线段，其坐标是精确的，交点不应该偏离
+      if (a.x == 0) p.x = p0.x;
+      else if (b.x == 0) p.x = p2.x;
+      if (a.y == 0) p.y = p0.y;
+      else if (b.y == 0) p.y = p2.y;
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
-- 
2.43.0


From dd000470af410c808f4d55c834015d21c35ae4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:16 +0000
Subject: [PATCH 06/41] fix: break a segment exactly at the end point that
 touches it

When an intersection falls on an end point of one segment, the other one was
broken at the computed point, which is not the same point after rounding.
---
 src/src/vatti.cpp | 28 +++++++++++++++++++---------
 src/src/vatti.h   |  1 +
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index d14a0f5..7527b6f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1542,6 +1542,22 @@ namespace vatti
       }
   }
 
+  void clipper::add_break(vertex* a, vertex* b, const intersect_info& info)
+  {
+    const bool in_a = zero < info.t0 && info.t0 < one;
+    const bool in_b = zero < info.t1 && info.t1 < one;
+
+    // 交点落在其中一条的端点上时, 另一条必须在该端点上打断, 否则两者不会共享同一个点
+    if (in_a) {
+      auto& p = in_b ? info.p : (info.t1 < 0.5 ? b->pt : b->next_seg->get_target());
+      break_info_list.push_back({ a, p, info.t0 });
+    }
+    if (in_b) {
+      auto& p = in_a ? info.p : (info.t0 < 0.5 ? a->pt : a->next_seg->get_target());
+      break_info_list.push_back({ b, p, info.t1 });
+    }
+  }
+
   void clipper::intersect(vertex* const& l, vertex* const& r)
   {
 
@@ -1559,9 +1575,7 @@ namespace vatti
     {
       auto res = rmath::intersect(l->pt, lseg->get_target(), r->pt, rseg->get_target());
       for (int i = 0; i < res.count; ++i) {
-        auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break(l, r, res.data[i]);
       }
       break;
     }
@@ -1576,9 +1590,7 @@ namespace vatti
       auto _curve = _cubic_to->get_cubic(cubic->pt);
       auto res = rmath::intersect(_line, _curve);
       for (int i = 0; i < res.count; ++i) {
-        auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ line,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ cubic,data.p,data.t1 });
+        add_break(line, cubic, res.data[i]);
       }
       break;
     }
@@ -1589,9 +1601,7 @@ namespace vatti
 
       auto res = rmath::intersect(c1->get_cubic(l->pt), c2->get_cubic(r->pt), 40);
       for (int i = 0; i < res.count; ++i) {
-        auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break(l, r, res.data[i]);
       }
       break;
     }
diff --git a/src/src/vatti.h b/src/src/vatti.h
index fdca485..ca8e2c9 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -166,6 +166,7 @@ namespace vatti
     out_polygon* new_out_polygon();
     segment* copy_seg(const edge* e, bool reverse = false);
 
+    void add_break(vertex* a, vertex* b, const rmath::intersect_info& info);
     void process_intersect();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
-- 
2.43.0


From d2d43ebef8ace8f07660c084ce55b4af641817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:20 +0000
Subject: [PATCH 07/41] fix: bezier_cubic::split_y returns its parameters in
 ascending order

With a positive leading coefficient the larger one came first; splitting at
them in that order gives overlapping pieces, on which the intersection search
does not end.
---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 829671d..e31cd00 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -436,7 +436,7 @@ namespace rmath
       switch (res.size())
       {
       case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = res[0]; *t2 = res[1]; return 2;
+      case 2: *t1 = (std::min)(res[0], res[1]); *t2 = (std::max)(res[0], res[1]); return 2;
       default: return 0;
       }
     }
-- 
2.43.0


From b4ba6cba74a5d3e0ebb61f42f839b3076f81cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:24 +0000
Subject: [PATCH 08/41] fix: resolv_cubic_equa loses or misplaces real roots

The discriminant was compared with zero absolutely although its magnitude
follows the coefficients, the one root case cancelled (x^3+1=0 gave NaN), and
the three root case used a truncated pi.
---
 src/src/rmath.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index e31cd00..4008a09 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -752,8 +752,11 @@ namespace rmath
     //      y3 = v1·ϵ^2 + w1·ϵ
 
 
-    double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (is_zero(k))
+    const double k_q = std::pow(q / 2, 2);
+    const double k_p = std::pow(p / 3, 3);
+    double k = k_q + k_p;
+    // k 的量级取决于 p 和 q，因此是否为零只能以相对误差判断
+    if (std::abs(k) <= 1e-12 * (k_q + std::abs(k_p)))
     {
       //此时v1, w1均为实数
       //观察有ϵ和ϵ^2为共轭复数
@@ -786,7 +789,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      // 选择和 -q/2 同号的平方根，避免相减抵消 (v1 为 0)
+      double v1 = std::cbrt(-q / 2 - std::copysign(sqrtk, q));
       double w1 = -p / (3 * v1);
 
       res.count = 1;
@@ -809,7 +813,6 @@ namespace rmath
 
       double r = std::sqrt(q * q / 4 - k);
       double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
 
       res.count = 3;
       res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
-- 
2.43.0


From 0f713551a63dc584db17bc7f04816e86034cac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:27 +0000
Subject: [PATCH 09/41] fix: find x on a monotone curve by bisection when the
 root is lost

The linear fallback is not on the curve and mis-ordered the edge list.
---
 src/src/segment.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.cpp b/src/src/segment.cpp
index 8107b02..d3fab2f 100644
--- a/src/src/segment.cpp
+++ b/src/src/segment.cpp
@@ -45,7 +45,15 @@ namespace river {
       return cubic.point_at(res.t[0]).x;
     }
     else {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 曲线在 y 轴上单调，必定有且仅有一个解，误差使得解的数量不为 1 时用二分法求解
+      const bool up = from.y < target.y;
+      double lo = 0, hi = 1;
+      for (int i = 0; i < 60; ++i) {
+        double mid = (lo + hi) / 2;
+        if ((cubic.point_at(mid).y < y) == up) lo = mid;
+        else hi = mid;
+      }
+      return cubic.point_at((lo + hi) / 2).x;
     }
 
   }
-- 
2.43.0


From 2bb5869ae12b4e83f33ef73766b30fd2e0cc1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 10/41] fix: a second process() emitted the earlier results
 again

The output list was never cleared, so every process() on the same processor
also wrote the polygons of the earlier ones.
---
 src/src/vatti.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 7527b6f..345f66d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -352,6 +352,7 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    output_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0


From 0c855f03117d8f804d9bdb98cb10128f506af0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 11/41] fix: scan_line leaked every segment and scan point

Each process() lost the memory of its whole broad phase.
---
 src/src/scan_line.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..c7e8689 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,6 +72,14 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line() {
+      for (auto s : segments) delete s;
+      for (auto p : scan_points) delete p;
+    }
+
     void add_segment(const segment& in);
     void process(void* user);
 
-- 
2.43.0


From fb5cb2aa6a401c1282819fdf25a082b3aca55402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:09 +0000
Subject: [PATCH 12/41] fix: rect::inflated grows the maximum corner from the
 maximum

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From abb2a8ad9eaf51a671d990406e52ad6ee9560852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:13 +0000
Subject: [PATCH 13/41] fix: point_project_in_segment accepted points before
 the segment start

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 4008a09..b43d223 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -74,7 +74,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From c8814eb391f17de057a729574fb7758e475595b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:25 +0000
Subject: [PATCH 14/41] fix: make_path wrote to a path that does not exist

Text whose first command is l or c called back() on an empty vector.
---
 src/src/river.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..10f7932 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -61,7 +61,8 @@ namespace river
     //auto path = *(move_p | line_p | arc_p | cubic_p);
 
     std::string str(s);
-    if (!qi::phrase_parse(str.begin(), str.end(), *(move_p | line_p | arc_p | cubic_p), ascii::space)) {
+    // 每个路径必须以 m 开头
+    if (!qi::phrase_parse(str.begin(), str.end(), *(move_p >> *(line_p | arc_p | cubic_p)), ascii::space)) {
       res.clear();
     }
 
-- 
2.43.0


From 966e9aa81b0b719e23b2787ab9f3c8b85a347ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:30 +0000
Subject: [PATCH 15/41] fix: arc end angle is relative to the center, reverse()
 flips the sweep

---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index b43d223..fed9018 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -255,7 +255,7 @@ namespace rmath
     double end_rad = _start_rad + sweep_rad();
     p1 = vec2(cos(end_rad), sin(end_rad));
     p1 = center() + p1 * _radius;
-    _end_rad = clamp_0_2pi(atan2(p1.y, p1.x));
+    _end_rad = clamp_0_2pi(end_rad);
   }
 
   const vec2& arc::start() const{
@@ -290,6 +290,7 @@ namespace rmath
     arc r = *this;
     std::swap(r.p0, r.p1);
     std::swap(r._start_rad, r._end_rad);
+    r._sweep_rad = -r._sweep_rad;
 
     return r;
   }
-- 
2.43.0


From e154a3bcad9c4caea44fd54e3801477fd7305b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 16/41] fix: clamp_0_2pi returned 2pi for negative multiples
 and tiny negatives

The documented range is [0,2pi).
---
 src/src/rmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index fed9018..65f8926 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -9,7 +9,9 @@ namespace rmath
 
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
-    return std::signbit(rad) ? rad + pi * 2 : rad;
+    if (rad < 0) rad += pi * 2;
+    // 极小的负数加上 2pi 后会舍入为 2pi
+    return rad > 0 && rad < pi * 2 ? rad : 0;
   }
 
   bool rect::intersect(const rect& r) const
-- 
2.43.0


From 20721660866a8cf4045d658fb28143364287d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:37 +0000
Subject: [PATCH 17/41] fix: resolv_quad_equa merged distinct roots of small
 equations

The discriminant was compared with zero absolutely: 1e-5x^2-1e-5=0 had the
single root 0.
---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 65f8926..a2de048 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -659,7 +659,8 @@ namespace rmath
     }
 
     double k = b * b - 4 * a * c;
-    if (is_zero(k))
+    // k 的量级取决于系数，因此是否为零只能以相对误差判断
+    if (std::abs(k) <= 1e-12 * (b * b + std::abs(4 * a * c)))
     {
       res.count = 1;
       res.data[0] = -b / (2 * a);
-- 
2.43.0


From 70e1468718d7c1f2ecf572929bd5dfeac623c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 18/41] fix: intersecting a curve with itself never ended

Every pair of sub curves of identical (or reversed) curves overlaps, so the
subdivision ran away and exhausted the memory; such curves have no isolated
intersections, like collinear segments with the same end points.
---
 src/src/rmath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a2de048..9e183fc 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -864,6 +864,10 @@ namespace rmath
     res.count = 0;
 
 
+    // 完全重合（或反向重合）的曲线没有孤立的交点
+    if (b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3) return res;
+    if (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0) return res;
+
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
     std::vector<data_pair> intersect_pair;
-- 
2.43.0


From 3b769eb71a606f7e3df4cdbccc60cccde2439736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:33 +0000
Subject: [PATCH 19/41] fix: give break points that should coincide the same
 coordinates

Lines meeting in one point, or collinear edges crossed by a third one, were
broken at points that differ by rounding. The scan relies on exact equality,
so about one in fifty integer polygon pairs came out wrong or crashed.
---
 src/src/vatti.cpp | 45 +++++++++++++++++++++++++++++++++++++++++++++
 src/src/vatti.h   |  1 +
 2 files changed, 46 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 345f66d..8f5c149 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -50,6 +50,7 @@ namespace vatti
   constexpr double err = 1e-6;
   constexpr double zero = 0 + err;
   constexpr double one = 1 - err;
+  constexpr double snap_err = 1e-12;
 
   // ToDO: 判断没齐全
   bool is_vaild(const path& p) {
@@ -569,6 +570,49 @@ namespace vatti
 #endif
   }
 
+  // 本应为同一个值的坐标会因误差略有不同, 把 values 中过于接近的坐标统一成同一个值, 优先取 fixed 中的坐标
+  void snap_coordinate(std::vector<num>& fixed, std::vector<num*>& values)
+  {
+    num scale = 0;
+    for (auto v : fixed) scale = (std::max)(scale, std::abs(v));
+    const num eps = scale * snap_err;
+
+    std::sort(fixed.begin(), fixed.end());
+    std::sort(values.begin(), values.end(), [](num* l, num* r) { return *l < *r; });
+
+    bool has_last = false;
+    num last = 0;
+    for (auto v : values) {
+      auto it = std::lower_bound(fixed.begin(), fixed.end(), *v);
+      if (it != fixed.end() && *it - *v <= eps) *v = *it;
+      else if (it != fixed.begin() && *v - *std::prev(it) <= eps) *v = *std::prev(it);
+      else if (has_last && *v - last <= eps) *v = last;
+      last = *v;
+      has_last = true;
+    }
+  }
+
+  void clipper::snap_break_points()
+  {
+    std::vector<num> fixed_x, fixed_y;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        fixed_x.push_back(cur->pt.x);
+        fixed_y.push_back(cur->pt.y);
+        cur = cur->next;
+      } while (cur != start);
+    }
+
+    std::vector<num*> values_x, values_y;
+    for (auto& b : break_info_list) {
+      values_x.push_back(&b.break_point.x);
+      values_y.push_back(&b.break_point.y);
+    }
+    snap_coordinate(fixed_x, values_x);
+    snap_coordinate(fixed_y, values_y);
+  }
+
   void clipper::process_intersect()
   {
     break_info_list.clear();
@@ -599,6 +643,7 @@ namespace vatti
         if (l.vert != r.vert) return l.vert < r.vert;
     return l.t < r.t;
       });
+    snap_break_points();
     break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end()), break_info_list.end());
 
     auto start = break_info_list.begin();
diff --git a/src/src/vatti.h b/src/src/vatti.h
index ca8e2c9..dea22c7 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -168,6 +168,7 @@ namespace vatti
 
     void add_break(vertex* a, vertex* b, const rmath::intersect_info& info);
     void process_intersect();
+    void snap_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
     void insert_scanline(num y);
-- 
2.43.0


From b2dd114853a7495d7c327a083cf4383f886e5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:03 +0000
Subject: [PATCH 20/41] fix: coincident segments of opposite direction get the
 same x

x was interpolated from the start of the segment, so an edge and its reverse
differed by rounding between their end points and were torn apart by the
scan: wrong results or crashes for shapes sharing an edge.
---
 src/src/segment.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..878fb6d 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 总是从下往上计算, 使得重合但反向的线段得到完全一致的结果
+      const point& bot = from.y < target.y ? from : target;
+      const point& top = from.y < target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From 7d5df0e4f08defe9cd5c47d64232f68646fa7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:10 +0000
Subject: [PATCH 21/41] fix: the last output bound kept a link to an earlier
 one

When the order of the bounds changed the list became a cycle and process()
never returned.
---
 src/src/vatti.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 8f5c149..52d95a3 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1025,6 +1025,7 @@ namespace vatti
         last = next_b;
         ++it;
       }
+      last->next_in_obl = nullptr;
     }
   }
 
-- 
2.43.0


From 6fcd974f520855657106e86091b773303ff1ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 22/41] fix: solve nearly quadratic and badly scaled equations
 accurately

Curves that are degree elevated quadratics have a cubic coefficient that is
only rounding noise; whether it was treated as zero depended on the scale of
the drawing, and the intersections of larger drawings were lost.
---
 src/src/rmath.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 9e183fc..65150d7 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -647,10 +647,10 @@ namespace rmath
   quad_equa_result resolv_quad_equa(double a, double b, double c)
   {
     quad_equa_result res;
-    if (is_zero(a))
+    if (std::abs(a) <= 1e-14 * std::abs(b))
     {
       //一元方程
-      if (is_zero(b))
+      if (b == 0)
         return res;
 
       res.count = 1;
@@ -667,10 +667,11 @@ namespace rmath
     }
     else if (k > 0)
     {
-      double sqrtK = std::sqrt(k);
+      // 避免 b 和 sqrtK 相减抵消
+      const double q = -(b + std::copysign(std::sqrt(k), b)) / 2;
       res.count = 2;
-      res.data[0] = (-b + sqrtK) / (2 * a);
-      res.data[1] = (-b - sqrtK) / (2 * a);
+      res.data[0] = b < 0 ? q / a : c / q;
+      res.data[1] = b < 0 ? c / q : q / a;
     }
 
     return res;
@@ -680,14 +681,22 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // ToDo 这里还需要判断a3与a2的指数是否相差过大
-    if (is_zero(a3))
+    // a3 与其余系数相差过大时，三次方程的解法会丢失精度
+    if (std::abs(a3) <= 1e-7 * (std::max)(std::abs(a2), std::abs(a1)))
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
       res.count = quad_res.count;
       for (int i = 0; i < quad_res.count; ++i) {
-        res.data[i] = quad_res.data[i];
+        // 用牛顿法补回 a3 的影响
+        double x = quad_res.data[i];
+        for (int n = 0; n < 3; ++n) {
+          const double d = (3 * a3 * x + 2 * a2) * x + a1;
+          const double step = (((a3 * x + a2) * x + a1) * x + a0) / d;
+          if (!(std::abs(step) <= 1e-4 * (1 + std::abs(x)))) break;
+          x -= step;
+        }
+        res.data[i] = x;
       }
       return res;
     }
-- 
2.43.0


From 08700ac0bf11c2ae0b70acd3b39f9fd794214271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:38 +0000
Subject: [PATCH 23/41] fix: stop instead of running past the bounds on nearly
 degenerate input

When rounding puts edges in the wrong order the bounds cannot be paired. The
list end was dereferenced, which crashed, corrupted memory or never ended.
---
 src/src/vatti.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 52d95a3..94a1cf4 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -346,14 +346,16 @@ namespace vatti
         else { return l->vert->pt.x < r->vert->pt.x; }
       });
 
-    for (auto it = local_minima_list.rbegin(); it != local_minima_list.rend(); ++it) {
-      insert_scanline((*it)->vert->pt.y);
-    }
-
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
     output_list.clear();
+    scanline_list = {};
+    windcnt_change_list.clear();
+    succeeded_ = true;
+    for (auto it = local_minima_list.rbegin(); it != local_minima_list.rend(); ++it) {
+      insert_scanline((*it)->vert->pt.y);
+    }
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
@@ -409,6 +411,7 @@ namespace vatti
       insert_local_minima_to_ael(y);
       recalc_windcnt();
       update_ouput_bound(y);
+      if (!succeeded_) break;
       if (!pop_scanline(y, y)) break;  // y new top of scanbeam
       do_top_of_scanbeam(y);
       close_output(y);
@@ -996,6 +999,11 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
+        if (next == sbl.end()) {
+          // 误差使得 ael 的顺序出错，无法继续
+          succeeded_ = false;
+          return;
+        }
         if (it->edge && next->edge) new_output(it->edge, next->edge,
           (it->obl_index % 2 == 0) == left_is_up);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
@@ -1013,6 +1021,13 @@ namespace vatti
         obl_first = nullptr;
         return;
       }
+      for (auto& new_b : bound_edge) {
+        auto bound = new_b.edge->bound;
+        if (!bound || bound->curr_edge != new_b.edge) {
+          succeeded_ = false;
+          return;
+        }
+      }
       auto it = bound_edge.begin();
       obl_first = it->edge->bound;
       obl_first->prev_in_obl = nullptr; obl_first->next_in_obl = nullptr;
@@ -1337,6 +1352,12 @@ namespace vatti
   // 到达顶点close了，left 和 right 都会从 obl 中移除
   void clipper::join_output(out_bound* a, out_bound* b, num y)
   {
+    if (a->is_up() == b->is_up()) {
+      // 误差使得输出的方向出错，无法继续
+      succeeded_ = false;
+      return;
+    }
+
     if (a->curr_edge) a->curr_edge->bound = nullptr;
     if (b->curr_edge) b->curr_edge->bound = nullptr;
     a->curr_edge = nullptr;
-- 
2.43.0


From 16e59b054d11222c2d995659c66b5372265fa736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:02 +0000
Subject: [PATCH 24/41] fix: coincident curves of opposite direction are
 computed alike

Shapes that share a curved edge always walk it in opposite directions. Their
splits, intersections and x positions differed by rounding, and process()
ran out of memory or never ended.
---
 src/src/segment.cpp |  8 ++++--
 src/src/vatti.cpp   | 62 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/src/src/segment.cpp b/src/src/segment.cpp
index d3fab2f..77aff83 100644
--- a/src/src/segment.cpp
+++ b/src/src/segment.cpp
@@ -39,18 +39,22 @@ namespace river {
 
   double seg_cubicto::curr_x(const point& from, double y) const
   {
+    // 总是从下往上计算, 使得重合但反向的曲线得到完全一致的结果
     auto cubic = get_cubic(from);
+    if (from.y > target.y) {
+      std::swap(cubic.p0, cubic.p3);
+      std::swap(cubic.p1, cubic.p2);
+    }
     auto res = cubic.point_at_y(y);
     if (res.count == 1) {
       return cubic.point_at(res.t[0]).x;
     }
     else {
       // 曲线在 y 轴上单调，必定有且仅有一个解，误差使得解的数量不为 1 时用二分法求解
-      const bool up = from.y < target.y;
       double lo = 0, hi = 1;
       for (int i = 0; i < 60; ++i) {
         double mid = (lo + hi) / 2;
-        if ((cubic.point_at(mid).y < y) == up) lo = mid;
+        if (cubic.point_at(mid).y < y) lo = mid;
         else hi = mid;
       }
       return cubic.point_at((lo + hi) / 2).x;
diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 94a1cf4..d4cf027 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -138,6 +138,40 @@ namespace vatti
     return res;
   }
 
+  // 重合但反向的曲线必须得到完全一致的计算结果, 因此曲线的求交和拆分总是按同一个方向计算
+  bool is_less(const point& l, const point& r) {
+    return l.y != r.y ? l.y < r.y : l.x < r.x;
+  }
+
+  inline bezier_cubic flipped(const bezier_cubic& b) {
+    return bezier_cubic{ b.p3, b.p2, b.p1, b.p0 };
+  }
+
+  inline bool need_flip(const bezier_cubic& b) {
+    return b.p0 != b.p3 ? is_less(b.p3, b.p0) : is_less(b.p2, b.p1);
+  }
+
+  bool is_less(const bezier_cubic& l, const bezier_cubic& r) {
+    if (l.p0 != r.p0) return is_less(l.p0, r.p0);
+    if (l.p1 != r.p1) return is_less(l.p1, r.p1);
+    if (l.p2 != r.p2) return is_less(l.p2, r.p2);
+    return is_less(l.p3, r.p3);
+  }
+
+  // 统一方向上的 t 转换为原方向上的 t, 两个方向的结果可以精确地用 1 - t 互换
+  inline double direct_t(double t, bool flip) { return flip ? 1 - t : 1 - (1 - t); }
+
+  // t 必须递增, out 的数量为 size + 1
+  void split_cubic(const bezier_cubic& b, const double* t, bezier_cubic* out, size_t size) {
+    if (!need_flip(b)) return b.split(t, out, size);
+
+    std::vector<double> flip_t;
+    for (size_t i = 0; i < size; ++i) flip_t.push_back(1 - t[size - 1 - i]);
+    flipped(b).split(flip_t.data(), out, size);
+    std::reverse(out, out + size + 1);
+    for (size_t i = 0; i <= size; ++i) out[i] = flipped(out[i]);
+  }
+
   void set_segment(vertex* prev, vertex* mem, segment* move_seg)
   {
     prev->next = mem;
@@ -261,7 +295,10 @@ namespace vatti
     }
 
     double split_t[] = { -1,-1 };
-    b.split_y(split_t, split_t + 1);
+    const bool flip = need_flip(b);
+    const int num = (flip ? flipped(b) : b).split_y(split_t, split_t + 1);
+    for (int i = 0; i < num; ++i) split_t[i] = direct_t(split_t[i], flip);
+    if (flip && num == 2) std::swap(split_t[0], split_t[1]);
     // 在误差范围内检查
     std::vector<double> recheck_t;
     for (size_t i = 0; i < 2; ++i) {
@@ -269,7 +306,7 @@ namespace vatti
       if (zero < t && t < one) recheck_t.push_back(t);
     }
     bezier_cubic tmp[3];
-    b.split(recheck_t.data(), tmp, recheck_t.size());
+    split_cubic(b, recheck_t.data(), tmp, recheck_t.size());
     switch (recheck_t.size())
     {
     case 2:
@@ -695,7 +732,7 @@ namespace vatti
         std::vector<double> split_t;
         for (auto& info : cur_break_list) split_t.push_back(info.t);
         auto first_cubicto = (seg_cubicto*)start_seg;
-        first_cubicto->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
+        split_cubic(first_cubicto->get_cubic(start_p), split_t.data(), split_c.data(), split_t.size());
 
         first_cubicto->ctrl1 = split_c[0].p1;
         first_cubicto->ctrl2 = split_c[0].p2;
@@ -1656,8 +1693,10 @@ namespace vatti
       rmath::line _line{ line->pt, line->next_seg->get_target() };
       auto _cubic_to = (const seg_cubicto*)(cubic->next_seg);
       auto _curve = _cubic_to->get_cubic(cubic->pt);
-      auto res = rmath::intersect(_line, _curve);
+      const bool flip = need_flip(_curve);
+      auto res = rmath::intersect(_line, flip ? flipped(_curve) : _curve);
       for (int i = 0; i < res.count; ++i) {
+        res.data[i].t1 = direct_t(res.data[i].t1, flip);
         add_break(line, cubic, res.data[i]);
       }
       break;
@@ -1667,9 +1706,20 @@ namespace vatti
       auto c1 = (const seg_cubicto*)(lseg);
       auto c2 = (const seg_cubicto*)(rseg);
 
-      auto res = rmath::intersect(c1->get_cubic(l->pt), c2->get_cubic(r->pt), 40);
+      auto curve1 = c1->get_cubic(l->pt);
+      auto curve2 = c2->get_cubic(r->pt);
+      const bool flip1 = need_flip(curve1);
+      const bool flip2 = need_flip(curve2);
+      if (flip1) curve1 = flipped(curve1);
+      if (flip2) curve2 = flipped(curve2);
+      const bool swap = is_less(curve2, curve1);
+      auto res = swap ? rmath::intersect(curve2, curve1, 40) : rmath::intersect(curve1, curve2, 40);
       for (int i = 0; i < res.count; ++i) {
-        add_break(l, r, res.data[i]);
+        auto& data = res.data[i];
+        if (swap) std::swap(data.t0, data.t1);
+        data.t0 = direct_t(data.t0, flip1);
+        data.t1 = direct_t(data.t1, flip2);
+        add_break(l, r, data);
       }
       break;
     }
-- 
2.43.0


From 62ac7691c902b13f58bef86136e1802396a5f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 25/41] fix: resolv_cubic_equa loses precision when one root is
 far away

A cubic coefficient that is small but not zero left errors of 1e-8 in the
other roots, enough to put intersections of curves on the wrong side.
---
 src/src/rmath.cpp | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 65150d7..bb5125e 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -681,23 +681,48 @@ namespace rmath
   {
     cubic_equa_result res;
 
+    // 用牛顿法消除求根公式的误差, 重根附近不收敛时保持原值
+    auto polish = [&](double x) {
+      double f = ((a3 * x + a2) * x + a1) * x + a0;
+      for (int n = 0; n < 4; ++n) {
+        const double step = f / ((3 * a3 * x + 2 * a2) * x + a1);
+        if (!(std::abs(step) <= 1e-3 * (1 + std::abs(x)))) break;
+        const double next_f = ((a3 * (x - step) + a2) * (x - step) + a1) * (x - step) + a0;
+        if (!(std::abs(next_f) < std::abs(f))) break;
+        x -= step;
+        f = next_f;
+      }
+      return x;
+    };
+
     // a3 与其余系数相差过大时，三次方程的解法会丢失精度
-    if (std::abs(a3) <= 1e-7 * (std::max)(std::abs(a2), std::abs(a1)))
+    const double rest = (std::max)(std::abs(a2), std::abs(a1));
+    double far_root = 0;
+    if (std::abs(a3) > 1e-14 * rest && std::abs(a3) < 1e-2 * std::abs(a2)) {
+      // 有一个解远大于其余的解
+      far_root = -a2 / a3;
+      double step = far_root;
+      for (int n = 0; n < 8; ++n) {
+        step = (((a3 * far_root + a2) * far_root + a1) * far_root + a0) / ((3 * a3 * far_root + 2 * a2) * far_root + a1);
+        far_root -= step;
+      }
+      const bool is_far = std::abs(far_root) > 10 * (std::abs(a1 / a2) + std::sqrt(std::abs(a0 / a2)));
+      if (!(is_far && std::abs(step) <= 1e-12 * std::abs(far_root))) far_root = 0;
+    }
+    if (std::abs(a3) <= 1e-14 * rest || far_root != 0)
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
+      if (far_root != 0) {
+        // 除以 (x - far_root), 得到其余两个解的方程
+        const double b1 = a1 + a0 / far_root;
+        quad_res = resolv_quad_equa(a2 + b1 / far_root, b1, a0);
+      }
       res.count = quad_res.count;
       for (int i = 0; i < quad_res.count; ++i) {
-        // 用牛顿法补回 a3 的影响
-        double x = quad_res.data[i];
-        for (int n = 0; n < 3; ++n) {
-          const double d = (3 * a3 * x + 2 * a2) * x + a1;
-          const double step = (((a3 * x + a2) * x + a1) * x + a0) / d;
-          if (!(std::abs(step) <= 1e-4 * (1 + std::abs(x)))) break;
-          x -= step;
-        }
-        res.data[i] = x;
+        res.data[i] = polish(quad_res.data[i]);
       }
+      if (far_root != 0) res.data[res.count++] = far_root;
       return res;
     }
 
@@ -833,6 +858,7 @@ namespace rmath
       res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
     }
 
+    for (int i = 0; i < res.count; ++i) res.data[i] = polish(res.data[i]);
     return res;
   }
 
-- 
2.43.0


From ae5b411afa9883ffab77c3d397b1cc33cc89f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:49 +0000
Subject: [PATCH 26/41] fix: nearly collinear lines intersected at a random
 place

The pieces of a split line are collinear up to rounding. Feeding a result back
into the processor intersected them with each other somewhere in the middle,
and the result was lost.
---
 src/src/rmath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index bb5125e..2ab6620 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -97,10 +97,14 @@ namespace rmath
     const vec2 c = p0 - p2;
 
     const double denominator = a.y * b.x - a.x * b.y;
-    if (denominator == 0 || !std::isfinite(denominator))
+    // 几乎平行的直线，其交点只由误差决定，视为平行
+    constexpr double err = 1e-12;
+    if (std::abs(denominator) <= err * a.dist() * b.dist() || !std::isfinite(denominator))
     {
       // 此时平行
-      if (dist2_point_line(p0, p2, p3) == 0)
+      const rect bound = rect::from({ p0,p1,p2,p3 });
+      const double max_dist = err * (std::max)({ -bound.min.x, -bound.min.y, bound.max.x, bound.max.y });
+      if (dist2_point_line(p0, p2, p3) <= max_dist * max_dist)
       {
         // 此时共线
         if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
-- 
2.43.0


From fabc2b404680f355bd37f16389dabc50f9c1adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:29 +0000
Subject: [PATCH 27/41] fix: judge parallel lines by the rounding of their
 coordinates

Short pieces of a split line are less parallel than long ones.
---
 src/src/rmath.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2ab6620..08a558f 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -97,13 +97,13 @@ namespace rmath
     const vec2 c = p0 - p2;
 
     const double denominator = a.y * b.x - a.x * b.y;
-    // 几乎平行的直线，其交点只由误差决定，视为平行
-    constexpr double err = 1e-12;
-    if (std::abs(denominator) <= err * a.dist() * b.dist() || !std::isfinite(denominator))
+    // 几乎平行的直线，其交点只由坐标的舍入误差决定，视为平行
+    const rect bound = rect::from({ p0,p1,p2,p3 });
+    const double size = (std::max)({ -bound.min.x, -bound.min.y, bound.max.x, bound.max.y });
+    if (std::abs(denominator) <= 1e-14 * size * (a.dist() + b.dist()) || !std::isfinite(denominator))
     {
       // 此时平行
-      const rect bound = rect::from({ p0,p1,p2,p3 });
-      const double max_dist = err * (std::max)({ -bound.min.x, -bound.min.y, bound.max.x, bound.max.y });
+      const double max_dist = 1e-12 * size;
       if (dist2_point_line(p0, p2, p3) <= max_dist * max_dist)
       {
         // 此时共线
-- 
2.43.0


From 418e554644026503554ec85aa67e209ea3210b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 28/41] fix: a process() call left the input broken at rounded
 points

Later calls on the same processor started from the rounded pieces, and
paths added afterwards nearly, but not exactly, overlapped them.
---
 src/src/vatti.cpp | 22 ++++++++++++++++------
 src/src/vatti.h   | 10 ++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index d4cf027..e0571bc 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -653,8 +653,20 @@ namespace vatti
     snap_coordinate(fixed_y, values_y);
   }
 
+  void clipper::restore_broken()
+  {
+    for (auto& b : broken_list) {
+      auto end_flags = b.end->flags;
+      set_segment(b.start, b.end, b.seg);
+      b.end->flags = end_flags;
+    }
+    broken_list.clear();
+  }
+
   void clipper::process_intersect()
   {
+    // 打断点带有误差, 每次都从原始的输入开始, 避免误差随着多次 process 累积
+    restore_broken();
     break_info_list.clear();
 
     // 先求交点
@@ -700,6 +712,7 @@ namespace vatti
 
       auto start_p = cur_v->pt;
       auto start_seg = cur_v->next_seg;
+      broken_list.push_back({ start_v, end_v, start_seg });
       //auto end_p = cur_v->next->pt;
       switch (start_seg->get_type())
       {
@@ -708,9 +721,8 @@ namespace vatti
         std::vector<break_info> cur_break_list(start, end);
         //auto dx = end_p.x >= start_p.x;
         //auto dy = end_p.y >= start_p.y;
-        ((seg_lineto*)start_seg)->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, start_seg);
+        set_segment(start_v, next, new_lineto(cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_lineto(cur_break_list[i].break_point));
@@ -734,11 +746,9 @@ namespace vatti
         auto first_cubicto = (seg_cubicto*)start_seg;
         split_cubic(first_cubicto->get_cubic(start_p), split_t.data(), split_c.data(), split_t.size());
 
-        first_cubicto->ctrl1 = split_c[0].p1;
-        first_cubicto->ctrl2 = split_c[0].p2;
-        first_cubicto->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, first_cubicto);
+        set_segment(start_v, next, new_cubicto(
+          split_c[0].p1, split_c[0].p2, cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_cubicto(
diff --git a/src/src/vatti.h b/src/src/vatti.h
index dea22c7..0385cf2 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -69,6 +69,14 @@ namespace vatti
     }
   };
 
+  // 被打断前的 segment
+  struct broken_info
+  {
+    vertex* start;
+    vertex* end;
+    segment* seg;
+  };
+
   struct out_seg {
     seg_type type = seg_type::moveto;
     void* data = nullptr;
@@ -167,6 +175,7 @@ namespace vatti
     segment* copy_seg(const edge* e, bool reverse = false);
 
     void add_break(vertex* a, vertex* b, const rmath::intersect_info& info);
+    void restore_broken();
     void process_intersect();
     void snap_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
@@ -211,6 +220,7 @@ namespace vatti
 
     std::vector<vertex*> paths_start;
     std::vector<break_info> break_info_list;
+    std::vector<broken_info> broken_list;
     std::vector<local_minima*> local_minima_list;
     std::vector<local_minima*>::iterator cur_locmin_it;
     std::priority_queue<num, std::vector<num>, std::greater<num>> scanline_list;
-- 
2.43.0


From 416d9152daea0cd5877e0f6df9053e2a78f87614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 29/41] fix: a tangential crossing hid the other intersections
 of two curves

It is found many times over, and the copies filled the result.
---
 src/src/rmath.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 08a558f..520dc99 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -944,15 +944,24 @@ namespace rmath
       [](const data_pair& l, const data_pair& r) {
         return l.first.t0 < r.first.t0;
       });
-    // 移除太过相似的结果
-    intersect_pair.erase(std::unique(intersect_pair.begin(), intersect_pair.end(),
-      [](const data_pair& l, const data_pair& r) ->bool {
-        return (std::abs)(l.first.t0 - r.first.t0) < 1e-8;
-      }), intersect_pair.end());
+    // 同一个交点会得到一串相邻的结果，归为一组，只保留中间的一个，否则会占满结果的空间
+    // 曲线在某处可能走得很慢，此时它的 t 相差会大一些
+    const double same_t = std::ldexp(1., 5 - precise);
+    const double slow_t = (std::max)(same_t, 1e-3);
+    std::vector<std::vector<data_pair>> groups;
+    for (auto& p : intersect_pair) {
+      auto it = std::find_if(groups.rbegin(), groups.rend(), [&](const std::vector<data_pair>& g) {
+        const double d0 = (std::abs)(g.back().first.t0 - p.first.t0);
+        const double d1 = (std::abs)(g.back().second.t0 - p.second.t0);
+        return (std::min)(d0, d1) < same_t && (std::max)(d0, d1) < slow_t;
+        });
+      if (it == groups.rend()) groups.push_back({ p });
+      else it->push_back(p);
+    }
 
     // ToDo 不能检查部分重合的情况
-    for (int i = 0; i < intersect_pair.size(); ++i) {
-      auto& p = intersect_pair[i];
+    for (size_t i = 0; i < groups.size(); ++i) {
+      auto& p = groups[i][groups[i].size() / 2];
       res.data[i].t0 = (p.first.t0 + p.first.t1) / 2;
       res.data[i].t1 = (p.second.t0 + p.second.t1) / 2;
       res.data[i].p = b1.point_at(res.data[i].t0);
-- 
2.43.0


From 8aa21b9ecf3f7fec17320e18e2bb7a5116f8361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 30/41] fix: polishing a root could jump to another one

The step was limited by the unit, not by the size of the roots.
---
 src/src/rmath.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 520dc99..1d5b8a4 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -685,12 +685,12 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // 用牛顿法消除求根公式的误差, 重根附近不收敛时保持原值
-    auto polish = [&](double x) {
+    // 用牛顿法消除求根公式的误差, 重根附近不收敛时保持原值, size 是各个解的量级
+    auto polish = [&](double x, double size) {
       double f = ((a3 * x + a2) * x + a1) * x + a0;
       for (int n = 0; n < 4; ++n) {
         const double step = f / ((3 * a3 * x + 2 * a2) * x + a1);
-        if (!(std::abs(step) <= 1e-3 * (1 + std::abs(x)))) break;
+        if (!(std::abs(step) <= 1e-3 * (size + std::abs(x)))) break;
         const double next_f = ((a3 * (x - step) + a2) * (x - step) + a1) * (x - step) + a0;
         if (!(std::abs(next_f) < std::abs(f))) break;
         x -= step;
@@ -724,7 +724,7 @@ namespace rmath
       }
       res.count = quad_res.count;
       for (int i = 0; i < quad_res.count; ++i) {
-        res.data[i] = polish(quad_res.data[i]);
+        res.data[i] = polish(quad_res.data[i], 0);
       }
       if (far_root != 0) res.data[res.count++] = far_root;
       return res;
@@ -862,7 +862,8 @@ namespace rmath
       res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
     }
 
-    for (int i = 0; i < res.count; ++i) res.data[i] = polish(res.data[i]);
+    const double size = std::abs(a) / 3 + std::sqrt(std::abs(p));
+    for (int i = 0; i < res.count; ++i) res.data[i] = polish(res.data[i], size);
     return res;
   }
 
-- 
2.43.0


From 92a9a627d6e0f58d78e91635433a5a7eb7762256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:34 +0000
Subject: [PATCH 31/41] fix: extrema of curves depended on the scale of the
 coordinates

The quadratic term was compared with a fixed limit, so the box of a large
quadratic curve was wrong and small curves lost their extrema.
---
 src/src/rmath.cpp | 182 ++++++++--------------------------------------
 1 file changed, 29 insertions(+), 153 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 1d5b8a4..f16ab86 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -395,6 +395,17 @@ namespace rmath
 
   arc const& arc_split_y::curr_arc() const { return target; }
 
+  // 求 a·t^2 + b·t + c = 0 位于 (0,1) 内的解，升序，返回个数
+  inline int extreme_t(double a, double b, double c, double* out) {
+    auto res = resolv_quad_equa(a, b, c);
+    int count = 0;
+    for (int i = 0; i < res.count; ++i) {
+      if (0 < res.data[i] && res.data[i] < 1) out[count++] = res.data[i];
+    }
+    std::sort(out, out + count);
+    return count;
+  }
+
   int bezier_cubic::split_y(double* t1, double* t2) const
   {
     //p = A (1-t)^3 +3 B t (1-t)^2 + 3 C t^2 (1-t) + D t^3
@@ -408,47 +419,14 @@ namespace rmath
     const vec2 B = p0 * 6 - p1 * 12 + p2 * 6;
     const vec2 C = (p1 - p0) * 3;
 
-    double a, b, c, k;
-
-    a = A.y;
-    b = B.y;
-    c = C.y;
-    k = b * b - 4 * a * c;
-
-    if (is_zero(a)) {
-      if (is_zero(b)) {
-        return 0;
-      }
-      else {
-        auto t = -c / b;
-        if (0 < t && t < 1) {
-          *t1 = t;
-          return 1;
-        }
-      }
-    }
-    else if (k > 0) {
-      k = std::sqrt(k);
-      auto r1 = (-b + k) / (2 * a);
-      auto r2 = (-b - k) / (2 * a);
+    // 没有极值
+    if (B.y * B.y - 4 * A.y * C.y <= 0) return 0;
 
-      std::vector<double> res;
-      if (0 < r1 && r1 < 1) {
-        res.push_back(r1);
-      }
-      if (0 < r2 && r2 < 1) {
-        res.push_back(r2);
-      }
-
-      switch (res.size())
-      {
-      case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = (std::min)(res[0], res[1]); *t2 = (std::max)(res[0], res[1]); return 2;
-      default: return 0;
-      }
-    }
-
-    return 0;
+    double t[2];
+    const int count = extreme_t(A.y, B.y, C.y, t);
+    if (count > 0) *t1 = t[0];
+    if (count > 1) *t2 = t[1];
+    return count;
   }
 
   vec2 bezier_cubic::point_at(double t) const
@@ -464,9 +442,6 @@ namespace rmath
 
   rect bezier_cubic::get_boundary() const
   {
-    double a, b, c, k;
-    double t1, t2;
-
     //x = A (1-t)^3 +3 B t (1-t)^2 + 3 C t^2 (1-t) + D t^3
     //dx/dt =  3 (B - A) (1-t)^2 + 6 (C - B) (1-t) t + 3 (D - C) t^2
     //      =  [3 (D - C) - 6 (C - B) + 3 (B - A)] t^2
@@ -476,123 +451,24 @@ namespace rmath
 
     //不能直接求拐点，因为拐点不代表xy方向上的极值
 
-    double x1, x2;
     const vec2 A = p3 * 3 - p2 * 9 + p1 * 9 - p0 * 3;
     const vec2 B = p0 * 6 - p1 * 12 + p2 * 6;
     const vec2 C = (p1 - p0) * 3;
 
-    a = A.x;
-    b = B.x;
-    c = C.x;
-    k = b * b - 4 * a * c;
-
-    if (is_zero(a))
-    {
-      if (is_zero(b))
-      {
-        x1 = p0.x;
-        x2 = p3.x;
-      }
-      else
-      {
-        t1 = -c / b;
-        if (t1 > 0 && t1 < 1)
-        {
-          x1 = point_at(t1).x;
-          x2 = x1;
-        }
-        else
-        {
-          x1 = p0.x;
-          x2 = p3.x;
-        }
-      }
+    rect res = rect::from({ p0, p3 });
+    double t[2];
+    for (int i = extreme_t(A.x, B.x, C.x, t) - 1; i >= 0; --i) {
+      const double x = point_at(t[i]).x;
+      res.min.x = (std::min)(res.min.x, x);
+      res.max.x = (std::max)(res.max.x, x);
     }
-    else if (k < 0)
-    {
-      x1 = p0.x;
-      x2 = p3.x;
+    for (int i = extreme_t(A.y, B.y, C.y, t) - 1; i >= 0; --i) {
+      const double y = point_at(t[i]).y;
+      res.min.y = (std::min)(res.min.y, y);
+      res.max.y = (std::max)(res.max.y, y);
     }
-    else
-    {
-      k = std::sqrt(k);
-      t1 = (-b + k) / (2 * a);
-      t2 = (-b - k) / (2 * a);
-
-      if (t1 > 0 && t1 < 1)
-      {
-        x1 = point_at(t1).x;
-      }
-      else
-        x1 = p0.x;
 
-      if (t2 > 0 && t2 < 1)
-      {
-        x2 = point_at(t2).x;
-      }
-      else
-        x2 = p3.x;
-
-    }
-
-    double y1, y2;
-    a = A.y;
-    b = B.y;
-    c = C.y;
-    k = b * b - 4 * a * c;
-
-    if (is_zero(a))
-    {
-      if (is_zero(b))
-      {
-        y1 = p0.y;
-        y2 = p3.y;
-      }
-      else
-      {
-        t1 = -c / b;
-        if (t1 > 0 && t1 < 1)
-        {
-          y1 = point_at(t1).y;
-          y2 = y1;
-        }
-        else
-        {
-          y1 = p0.y;
-          y2 = p3.y;
-        }
-      }
-    }
-    else if (k < 0)
-    {
-      y1 = p0.y;
-      y2 = p3.y;
-    }
-    else
-    {
-      k = std::sqrt(k);
-      t1 = (-b + k) / (2 * a);
-      t2 = (-b - k) / (2 * a);
-
-      if (t1 > 0 && t1 < 1)
-      {
-        y1 = point_at(t1).y;
-      }
-      else
-        y1 = p0.y;
-
-      if (t2 > 0 && t2 < 1)
-      {
-        y2 = point_at(t2).y;
-      }
-      else
-        y2 = p3.y;
-    }
-
-    vec2 tp1((std::min)(x1, x2), (std::min)(y1, y2));
-    vec2 tp2((std::max)(x1, x2), (std::max)(y1, y2));
-
-    return rect::from({ p0, p3, tp1, tp2 });
+    return res;
   }
 
   void bezier_cubic::split(const double* t, bezier_cubic* out, size_t size) const
-- 
2.43.0


From b8a33853624276214eafac4955a0c30ead617302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:28 +0000
Subject: [PATCH 32/41] fix: nearly coincident segments wrote past the
 intersection result

---
 src/src/rmath.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index f16ab86..10e76b7 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -106,7 +106,8 @@ namespace rmath
       const double max_dist = 1e-12 * size;
       if (dist2_point_line(p0, p2, p3) <= max_dist * max_dist)
       {
-        // 此时共线
+        // 此时共线，误差范围内的端点可能同时位于对方内，注意不要超出结果的空间
+        constexpr int max_count = sizeof(res.data) / sizeof(res.data[0]);
         if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
           // p0 在 r 内
           auto& data = res.data[res.count];
@@ -116,7 +117,7 @@ namespace rmath
           else data.t1 = (p0 - p2).y / -b.y;
           res.count++;
         }
-        if (p1 != p2 && p1 != p3 && point_between_two_point(p1, p2, p3)) {
+        if (res.count < max_count && p1 != p2 && p1 != p3 && point_between_two_point(p1, p2, p3)) {
           // p1 在 r 内
           auto& data = res.data[res.count];
           data.p = p1;
@@ -126,7 +127,7 @@ namespace rmath
           res.count++;
         }
 
-        if (p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
+        if (res.count < max_count && p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
           // p2 在 l 内
           auto& data = res.data[res.count];
           data.p = p2;
@@ -135,7 +136,7 @@ namespace rmath
           else data.t0 = (p2 - p0).y / a.y;
           res.count++;
         }
-        if (p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
+        if (res.count < max_count && p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
           // p3 在 l 内
           auto& data = res.data[res.count];
           data.p = p3;
-- 
2.43.0


From 38b2c4ca9bbbba1a45cb6fc2ee7b8317178ff4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:49 +0000
Subject: [PATCH 33/41] fix: curves that move slowly at their ends took seconds
 to intersect

A curve whose control point equals an end point was split much further than
the other one, and every small piece met the same large one.
---
 src/src/rmath.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 10e76b7..6bab0eb 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -760,6 +760,8 @@ namespace rmath
     double t1 = 1;
     int recurse = 0;
 
+    inline double size() const { return (std::max)(bbox.width(), bbox.height()); }
+
     inline void subdive(data& out1, data& out2) const
     {
       bezier.split(0.5, &out1.bezier, &out2.bezier);
@@ -798,24 +800,25 @@ namespace rmath
       auto back = pairs.back();
       pairs.pop_back();
 
-      data p11, p12, p21, p22;
-      back.first.subdive(p11, p12);
-      back.second.subdive(p21, p22);
-
-      constexpr auto check_func = [](const data& p0, const data& p1, int precise,
-        decltype(pairs)& next_out, decltype(intersect_pair)& intersect_out) {
-          if (p0.bbox.intersect(p1.bbox)) {
-            if (p0.recurse > precise)
-              intersect_out.push_back(data_pair(p0, p1));
-            else
-              next_out.push_back(data_pair(p0, p1));
-          }
+      // 远小于对方的一方暂时不需要细分，否则走得很慢的一方（例如控制点和端点重合）会产生大量的结果
+      auto need_split = [precise](const data& self, const data& other) {
+        return self.recurse <= precise && self.size() * 256 > other.size();
       };
+      const bool split1 = need_split(back.first, back.second);
+      const bool split2 = need_split(back.second, back.first);
+      if (!split1 && !split2) {
+        intersect_pair.push_back(back);
+        continue;
+      }
 
-      check_func(p11, p21, precise, pairs, intersect_pair);
-      check_func(p11, p22, precise, pairs, intersect_pair);
-      check_func(p12, p21, precise, pairs, intersect_pair);
-      check_func(p12, p22, precise, pairs, intersect_pair);
+      data d1[2]{ back.first }, d2[2]{ back.second };
+      if (split1) back.first.subdive(d1[0], d1[1]);
+      if (split2) back.second.subdive(d2[0], d2[1]);
+      for (int i = 0; i < (split1 ? 2 : 1); ++i) {
+        for (int j = 0; j < (split2 ? 2 : 1); ++j) {
+          if (d1[i].bbox.intersect(d2[j].bbox)) pairs.push_back(data_pair(d1[i], d2[j]));
+        }
+      }
     }
 
     std::sort(intersect_pair.begin(), intersect_pair.end(),
-- 
2.43.0


From 570c4631f2779de905210607f46cc88665ca91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 34/41] fix: curves meeting at a cusp or running along each
 other exhausted the memory

Boxes below the precision of the coordinates were split on and on, and every
pair of them was reported as another intersection; tangential and overlapping
curves gave an unbounded number of pairs.
---
 src/src/rmath.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 6bab0eb..c9a6f13 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -795,14 +795,28 @@ namespace rmath
     data p2{ b2,rough_rect(b2),0,1,0 };
     if (!p1.bbox.intersect(p2.bbox)) return res;
 
+    // 相切或者部分重合的曲线会得到极多的结果，此时降低精度重新计算
+    const size_t max_pair = 1 << 16;
+    double magnitude = 0;
+    for (auto& p : { b1.p0, b1.p1, b1.p2, b1.p3, b2.p0, b2.p1, b2.p2, b2.p3 }) {
+      magnitude = (std::max)({ magnitude, std::abs(p.x), std::abs(p.y) });
+    }
+    const double tiny = magnitude * std::numeric_limits<double>::epsilon() * 64;
+
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
+      if (intersect_pair.size() > max_pair && precise > 10) {
+        precise -= 5;
+        intersect_pair.clear();
+        pairs.assign(1, data_pair(p1, p2));
+      }
       auto back = pairs.back();
       pairs.pop_back();
 
       // 远小于对方的一方暂时不需要细分，否则走得很慢的一方（例如控制点和端点重合）会产生大量的结果
-      auto need_split = [precise](const data& self, const data& other) {
-        return self.recurse <= precise && self.size() * 256 > other.size();
+      // 已经小于坐标的精度也不需要细分，否则得到的全是重合的点
+      auto need_split = [&precise, tiny](const data& self, const data& other) {
+        return self.recurse <= precise && self.size() > tiny && self.size() * 256 > other.size();
       };
       const bool split1 = need_split(back.first, back.second);
       const bool split2 = need_split(back.second, back.first);
@@ -829,11 +843,14 @@ namespace rmath
     // 曲线在某处可能走得很慢，此时它的 t 相差会大一些
     const double same_t = std::ldexp(1., 5 - precise);
     const double slow_t = (std::max)(same_t, 1e-3);
+    auto gap = [](const data& l, const data& r) {
+      return (std::max)(0., (std::max)(l.t0, r.t0) - (std::min)(l.t1, r.t1));
+    };
     std::vector<std::vector<data_pair>> groups;
     for (auto& p : intersect_pair) {
       auto it = std::find_if(groups.rbegin(), groups.rend(), [&](const std::vector<data_pair>& g) {
-        const double d0 = (std::abs)(g.back().first.t0 - p.first.t0);
-        const double d1 = (std::abs)(g.back().second.t0 - p.second.t0);
+        const double d0 = gap(g.back().first, p.first);
+        const double d1 = gap(g.back().second, p.second);
         return (std::min)(d0, d1) < same_t && (std::max)(d0, d1) < slow_t;
         });
       if (it == groups.rend()) groups.push_back({ p });
-- 
2.43.0


From c7f7e57fae1e345463f0ee40dad248c8a236bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 35/41] fix: a segment and a curve touching at an end of either
 were reported apart

Rounding puts the root slightly outside of [0,1].
---
 src/src/rmath.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index c9a6f13..c2451f7 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -203,15 +203,17 @@ namespace rmath
     auto l = segment.p1 - segment.p0;
     auto cubic_res = resolv_cubic_equa(a3, a2, a1, a0);
     for (auto i = 0; i < cubic_res.count; ++i) {
+      // 误差会使靠近任意一方端点的交点略微超出范围，这样的交点视为就在端点上
+      constexpr double err = 1e-10;
       auto t = cubic_res.data[i];
-      if (0 <= t && t <= 1) {
-        // ToDo 由于计算精度的问题，这里应该很难算出同一个点，特别实在交点靠近任意一方的端点时
+      if (-err <= t && t <= 1 + err) {
+        t = (std::min)((std::max)(t, 0.), 1.);
         auto p = curve.point_at(t);
-        if (point_between_two_point(p, segment.p0, segment.p1)) {
+        auto t0 = std::abs(l.x) > std::abs(l.y) ? (p - segment.p0).x / l.x : (p - segment.p0).y / l.y;
+        if (-err <= t0 && t0 <= 1 + err) {
           auto& data = res.data[res.count];
           data.p = p;
-          if (l.y == 0) { data.t0 = (p - segment.p0).x / l.x; }
-          else { data.t0 = (p - segment.p0).y / l.y; }
+          data.t0 = (std::min)((std::max)(t0, 0.), 1.);
           data.t1 = t;
           ++res.count;
         }
-- 
2.43.0


From e9632c00add35076d03ac9b0f7314fae668e6f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 36/41] fix: points where curves are split were not matched
 with other vertices

The computed extremum of a curve differs from a vertex at the same place by
rounding, and the sweep failed between the two.
---
 src/src/vatti.cpp | 29 +++++++++++++++++++++++++++++
 src/src/vatti.h   |  3 +++
 2 files changed, 32 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index e0571bc..9ed2dc7 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -312,10 +312,12 @@ namespace vatti
     case 2:
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[0].p1, tmp[0].p2, tmp[0].p3));
+      cur->is_split = true;
       data->next_loop();
 
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[1].p1, tmp[1].p2, tmp[1].p3));
+      cur->is_split = true;
       data->next_loop();
 
       data->new_cur_vertex();
@@ -325,6 +327,7 @@ namespace vatti
     case 1:
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[0].p1, tmp[0].p2, tmp[0].p3));
+      cur->is_split = true;
       data->next_loop();
 
       data->new_cur_vertex();
@@ -632,6 +635,31 @@ namespace vatti
     }
   }
 
+  void clipper::snap_split_points()
+  {
+    std::vector<num> fixed_x, fixed_y;
+    std::vector<num*> values_x, values_y;
+    std::vector<vertex*> split;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        if (cur->is_split) {
+          split.push_back(cur);
+          values_x.push_back(&cur->pt.x);
+          values_y.push_back(&cur->pt.y);
+        }
+        else {
+          fixed_x.push_back(cur->pt.x);
+          fixed_y.push_back(cur->pt.y);
+        }
+        cur = cur->next;
+      } while (cur != start);
+    }
+    snap_coordinate(fixed_x, values_x);
+    snap_coordinate(fixed_y, values_y);
+    for (auto v : split) ((seg_cubicto*)v->prev->next_seg)->target = v->pt;
+  }
+
   void clipper::snap_break_points()
   {
     std::vector<num> fixed_x, fixed_y;
@@ -667,6 +695,7 @@ namespace vatti
   {
     // 打断点带有误差, 每次都从原始的输入开始, 避免误差随着多次 process 累积
     restore_broken();
+    snap_split_points();
     break_info_list.clear();
 
     // 先求交点
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0385cf2..270bebb 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -44,6 +44,8 @@ namespace vatti
     vertex* next;
     vertex* prev;
     vertex_flags flags = vertex_flags::none;
+    // 在 y 轴极值处拆分曲线得到的点，带有误差
+    bool is_split = false;
   };
 
   struct local_minima
@@ -177,6 +179,7 @@ namespace vatti
     void add_break(vertex* a, vertex* b, const rmath::intersect_info& info);
     void restore_broken();
     void process_intersect();
+    void snap_split_points();
     void snap_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
-- 
2.43.0


From 11cfe7b06ecf06816d843660bac6cb2cef3b1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 37/41] fix: straight curves along other edges were not clipped

A cubic with collinear control points is a straight edge, like the horizontal
ones, and has to be broken where it overlaps others.
---
 src/src/vatti.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 9ed2dc7..986ce88 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -147,6 +147,11 @@ namespace vatti
     return bezier_cubic{ b.p3, b.p2, b.p1, b.p0 };
   }
 
+  inline bool is_straight(const bezier_cubic& b) {
+    const auto v1 = b.p1 - b.p0, v2 = b.p2 - b.p0, v3 = b.p3 - b.p0;
+    return v1.cross(v2) == 0 && v1.cross(v3) == 0 && v2.cross(v3) == 0;
+  }
+
   inline bool need_flip(const bezier_cubic& b) {
     return b.p0 != b.p3 ? is_less(b.p3, b.p0) : is_less(b.p2, b.p1);
   }
@@ -294,6 +299,12 @@ namespace vatti
       return;
     }
 
+    // 控制点共线的曲线也视为直线，否则无法处理它和其他直线重合的部分
+    if (is_straight(b)) {
+      read_lineto(from, to, user);
+      return;
+    }
+
     double split_t[] = { -1,-1 };
     const bool flip = need_flip(b);
     const int num = (flip ? flipped(b) : b).split_y(split_t, split_t + 1);
-- 
2.43.0


From ce20b6729de5b266fbadd33c5448ada3e11ca6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 38/41] fix: report the ends of a cubic among the parameters at
 their height

---
 src/src/rmath.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index c2451f7..a170500 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -44,9 +44,11 @@ namespace rmath
 
     auto cubic_res = resolv_cubic_equa(a3, a2, a1, a0);
     for (auto i = 0; i < cubic_res.count; ++i) {
+      // 误差会使靠近端点的解略微超出范围，这样的解视为就在端点上
+      constexpr double err = 1e-10;
       auto t = cubic_res.data[i];
-      if (0 <= t && t <= 1) {
-        res.t[res.count] = t;
+      if (-err <= t && t <= 1 + err) {
+        res.t[res.count] = (std::min)((std::max)(t, 0.), 1.);
         res.count += 1;
       }
     }
-- 
2.43.0


From 7dc726f22d779d03a333c5775a25287d12ecd7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:19 +0000
Subject: [PATCH 39/41] fix: compare edges that meet at a point within their
 common height

is_valid_ael_order compared at the middle between the LOWER of the two
bottoms and the lower top; when the resident edge started far below, that
height lay under the newcomer, where it has no x, and a vertex on the side
of another curve was sorted on the wrong side of it.
---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 986ce88..eff2d5d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1270,7 +1270,7 @@ namespace vatti
     // 同一点排序，以点为原点，9点钟方向，顺时针排序
     // subject 在 clip 前面
 
-    auto min = (std::min)(resident->bot.y, newcomer->bot.y);
+    auto min = (std::max)(resident->bot.y, newcomer->bot.y);
     auto max = (std::min)(resident->top.y, newcomer->top.y);
     auto mid = (min + max) / 2;
 
-- 
2.43.0


From d44a4aca54acbed6788b61a877c711d6badeb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 40/41] fix: a contact of two curves was lost to the rounding
 of the sub-boxes

The boxes of the halves are rounded; where one curve touches the side of
the other with an end, or at a vertical or horizontal tangent, they could
miss each other by less than that and the contact was not reported.
---
 src/src/rmath.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a170500..39e9479 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -807,6 +807,11 @@ namespace rmath
     }
     const double tiny = magnitude * std::numeric_limits<double>::epsilon() * 64;
 
+    auto touches = [margin = tiny / 16](const rect& l, const rect& r) {
+      return (std::max)(l.min.x, r.min.x) <= (std::min)(l.max.x, r.max.x) + margin
+        && (std::max)(l.min.y, r.min.y) <= (std::min)(l.max.y, r.max.y) + margin;
+    };
+
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
       if (intersect_pair.size() > max_pair && precise > 10) {
@@ -834,7 +839,7 @@ namespace rmath
       if (split2) back.second.subdive(d2[0], d2[1]);
       for (int i = 0; i < (split1 ? 2 : 1); ++i) {
         for (int j = 0; j < (split2 ? 2 : 1); ++j) {
-          if (d1[i].bbox.intersect(d2[j].bbox)) pairs.push_back(data_pair(d1[i], d2[j]));
+          if (touches(d1[i].bbox, d2[j].bbox)) pairs.push_back(data_pair(d1[i], d2[j]));
         }
       }
     }
-- 
2.43.0


From d817bb4cc253267c3a454f3ad532a6d054b6da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:28 +0000
Subject: [PATCH 41/41] fix: snapping flattened curves that are tiny beside the
 rest of the input

process() did not come to an end for them.
---
 src/src/vatti.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index eff2d5d..68ae19d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -666,8 +666,28 @@ namespace vatti
         cur = cur->next;
       } while (cur != start);
     }
+    // 极小的曲线不能因此变形或压平, 移动的距离必须远小于曲线的大小, 与相邻点的上下关系也必须保持不变
+    auto compare_y = [](const vertex* l, const vertex* r) { return int(l->pt.y > r->pt.y) - int(l->pt.y < r->pt.y); };
+    auto size = [](const point& v) { return (std::max)(std::abs(v.x), std::abs(v.y)); };
+    struct old_split { point pt; int prev, next; num size; };
+    std::vector<old_split> old;
+    for (auto v : split) {
+      old.push_back({ v->pt, compare_y(v, v->prev), compare_y(v, v->next),
+        (std::min)(size(v->prev->pt - v->pt), size(v->next->pt - v->pt)) });
+    }
     snap_coordinate(fixed_x, values_x);
     snap_coordinate(fixed_y, values_y);
+    for (bool changed = true; changed;) {
+      changed = false;
+      for (size_t i = 0; i < split.size(); ++i) {
+        auto v = split[i];
+        if (v->pt == old[i].pt) continue;
+        if (size(v->pt - old[i].pt) <= old[i].size * 1e-3
+          && compare_y(v, v->prev) == old[i].prev && compare_y(v, v->next) == old[i].next) continue;
+        v->pt = old[i].pt;
+        changed = true;
+      }
+    }
     for (auto v : split) ((seg_cubicto*)v->prev->next_seg)->target = v->pt;
   }
 
-- 
2.43.0

