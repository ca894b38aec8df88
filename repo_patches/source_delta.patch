From 10e283287bb4d644884d6af29587b444dd0387dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 01/39] fix: identity with a non-zero least significant qubit
 must not use the identity table

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..9c065cd 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2180,7 +2180,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From c19cb512a9ef117b04fe792bb5b5012a099ca13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 02/39] fix: controlled two-qubit gates with a start offset
 must not extend below the offset

---
 include/dd/Package.hpp | 112 ++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9c065cd..30e1c9e 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -635,7 +635,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e));
+            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start)), static_cast<Qubit>(start));
             return e;
         }
 
@@ -643,7 +643,7 @@ namespace dd {
             auto c = controls;
             c.insert(Control{target1});
             mEdge e = makeGateDD(Xmat, n, c, target0, start);
-            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e);
+            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -651,7 +651,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, controls, target1, start);
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(makeGateDD(Xmat, n, c, target0, start), e);
+            e = multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -660,15 +660,15 @@ namespace dd {
         }
         mEdge makeiSWAPDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             mEdge e = makeGateDD(Smat, n, controls, target1, start);              // S q[1]
-            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start)); // S q[0]
-            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start)); // H q[0]
+            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start), static_cast<Qubit>(start)); // S q[0]
+            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start)); // H q[0]
             auto c  = controls;
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start)); // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start)); // CX q[0], q[1]
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));        // CX q[1], q[0]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start)); // H q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));        // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start), static_cast<Qubit>(start)); // H q[1]
             return e;
         }
 
@@ -679,13 +679,13 @@ namespace dd {
             mEdge e = makeGateDD(Hmat, n, controls, target1, start); // H q[1]
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start)); // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start)); // CX q[1], q[0]
             c.erase(Control{target1});
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));           // CX q[0], q[1]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start));    // H q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start)); // Sdag q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start)); // Sdag q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));           // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start));    // H q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start), static_cast<Qubit>(start)); // Sdag q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start), static_cast<Qubit>(start)); // Sdag q[1]
             return e;
         }
 
@@ -698,7 +698,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -710,9 +710,9 @@ namespace dd {
             c.insert(Control{target0});
             auto e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
-            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start));
+            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start), static_cast<Qubit>(start));
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -722,10 +722,10 @@ namespace dd {
         mEdge makeRYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the RX gates since they cancel if the controls are 0.
             auto e = makeGateDD(RXmat(PI_2), n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -735,10 +735,10 @@ namespace dd {
         mEdge makeRXXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -748,8 +748,8 @@ namespace dd {
         mEdge makeRZXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target1, start);
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -758,8 +758,8 @@ namespace dd {
         }
         mEdge makeECRDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             auto e = makeRZXDD(n, controls, target0, target1, -PI_4, start);
-            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start));
-            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start));
+            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -768,21 +768,21 @@ namespace dd {
         }
         mEdge makeXXMinusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(-beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -791,21 +791,21 @@ namespace dd {
         }
         mEdge makeXXPlusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
-- 
2.43.0


From 9c441b91078d03eda30fc2511f15343b003ba47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 03/39] fix: Kronecker product with a scaled identity must keep
 the weight of the identity

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 30e1c9e..4f67e3a 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1992,7 +1992,7 @@ namespace dd {
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From 3b9517424883e8a83fbfd9377a4b60b6d93c4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 04/39] fix: Kronecker product without index shift must keep
 identities at their position

---
 include/dd/Package.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 4f67e3a..ad9d0f8 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1984,11 +1984,12 @@ namespace dd {
             constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
             // special case handling for matrices
             if constexpr (n == NEDGE) {
-                if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
+                // (without index shift, the identity keeps its position, which the general case below takes care of)
+                if (incIdx && x.p->isIdentity()) {
+                    auto idx = static_cast<Qubit>(y.p->v + 1);
                     auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
                     for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
+                        idx = static_cast<Qubit>(e.p->v + 1);
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-- 
2.43.0


From 4b0afde3868655883f723320e2111f8a11c84562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 05/39] fix: number lookup must not return a negative zero for
 a value of exactly minus the tolerance

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From cb514e5ffbffee9277e070ab913ac84bed911192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 06/39] fix: matrix edges whose normalized weight vanishes must
 point to the terminal

---
 include/dd/Package.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ad9d0f8..ccb8bca 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -464,6 +464,9 @@ namespace dd {
                         auto c = cn.getTemporary();
                         ComplexNumbers::div(c, r.p->e[i].w, maxc);
                         r.p->e[i].w = cn.lookup(c);
+                        if (r.p->e[i].w == Complex::zero) {
+                            r.p->e[i] = Edge<Node>::zero;
+                        }
                     }
                 }
                 return r;
-- 
2.43.0


From ea3a9e747fd23a44d1d2d62391a51aa5c02f97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 07/39] fix: number table buckets must stay sorted if an entry
 is barely out of tolerance

---
 include/dd/ComplexTable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..b450bf8 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -529,6 +529,10 @@ namespace dd {
                     ++hits;
                     return curr;
                 }
+                // due to rounding, an entry can be covered by `valTol` although it is (just) not within the tolerance
+                if (curr->value > val) {
+                    break;
+                }
                 ++collisions;
                 prev = curr;
                 curr = curr->next;
-- 
2.43.0


From 430445f6fea100769edfee0e15b0e1bec67dbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 08/39] fix: deserialization must keep weights that are
 factored out of inner nodes

---
 include/dd/Package.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ccb8bca..87f8951 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2974,11 +2974,11 @@ namespace dd {
             auto         result = Edge::zero;
             ComplexValue rootweight{};
 
-            std::unordered_map<std::int64_t, Node*> nodes{};
-            std::int64_t                            nodeIndex{};
-            Qubit                                   v{};
-            std::array<ComplexValue, N>             edgeWeights{};
-            std::array<std::int64_t, N>             edgeIndices{};
+            std::unordered_map<std::int64_t, Edge> nodes{};
+            std::int64_t                           nodeIndex{};
+            Qubit                                  v{};
+            std::array<ComplexValue, N>            edgeWeights{};
+            std::array<std::int64_t, N>            edgeIndices{};
             edgeIndices.fill(-2);
 
             if (readBinary) {
@@ -2998,7 +2998,7 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             } else {
                 std::string version;
@@ -3058,7 +3058,7 @@ namespace dd {
                         edgeWeights[i].fromString(m.str(edgeIdx + 3), m.str(edgeIdx + 4));
                     }
 
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             }
 
@@ -3083,7 +3083,7 @@ namespace dd {
 
     private:
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
-        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Node*>& nodes) {
+        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
             if (index == -1) {
                 return Edge::zero;
             }
@@ -3093,17 +3093,24 @@ namespace dd {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
                 } else {
+                    auto weight = edgeWeight[i];
                     if (edgeIdx[i] == -1) {
                         edges[i] = Edge::one;
                     } else {
-                        edges[i].p = nodes[edgeIdx[i]];
+                        edges[i] = nodes[edgeIdx[i]];
+                        // normalizing the node again might have factored out a weight
+                        if (edges[i].w != Complex::one) {
+                            const auto r = CTEntry::val(edges[i].w.r);
+                            const auto j = CTEntry::val(edges[i].w.i);
+                            weight       = {weight.r * r - weight.i * j, weight.r * j + weight.i * r};
+                        }
                     }
-                    edges[i].w = cn.lookup(edgeWeight[i]);
+                    edges[i].w = cn.lookup(weight);
                 }
             }
 
             auto newedge = makeDDNode(v, edges);
-            nodes[index] = newedge.p;
+            nodes[index] = newedge;
 
             // reset
             edgeIdx.fill(-2);
-- 
2.43.0


From fc1c1235bc3fa7322c92191c713687ae72cc6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 09/39] fix: deserialization of a terminal edge must keep its
 weight

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 87f8951..7132516 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2971,7 +2971,7 @@ namespace dd {
 
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
         Edge deserialize(std::istream& is, bool readBinary = false) {
-            auto         result = Edge::zero;
+            auto         result = Edge::one; // a terminal edge has no nodes, but a weight
             ComplexValue rootweight{};
 
             std::unordered_map<std::int64_t, Edge> nodes{};
-- 
2.43.0


From 538f6e301c606a2c20089cabf8c51f4133423825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 10/39] fix: deserialization must reject references to
 undefined nodes

---
 include/dd/Package.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 7132516..a2a6025 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3097,7 +3097,11 @@ namespace dd {
                     if (edgeIdx[i] == -1) {
                         edges[i] = Edge::one;
                     } else {
-                        edges[i] = nodes[edgeIdx[i]];
+                        const auto it = nodes.find(edgeIdx[i]);
+                        if (it == nodes.end()) {
+                            throw std::runtime_error("Reference to undefined node: " + std::to_string(edgeIdx[i]));
+                        }
+                        edges[i] = it->second;
                         // normalizing the node again might have factored out a weight
                         if (edges[i].w != Complex::one) {
                             const auto r = CTEntry::val(edges[i].w.r);
-- 
2.43.0


From 3c38e1b8506fa2ee716b2ca0bd02de1ae3a3b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 11/39] fix: transferring a decision diagram must visit every
 successor and stop at an empty stack

---
 include/dd/Package.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a2a6025..f208033 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2916,6 +2916,11 @@ namespace dd {
                     currentEdge = stack.top();
                     stack.pop();
 
+                    // skip successors that have already been mapped because they occur repeatedly
+                    while (!stack.empty() && mappedNode.find(stack.top()->p) != mappedNode.end()) {
+                        stack.pop();
+                    }
+
                     bool hasChild = false;
                     for (std::size_t i = 1; i < n && !hasChild; ++i) {
                         auto& edge = currentEdge->p->e[i];
@@ -2925,7 +2930,9 @@ namespace dd {
                         if (mappedNode.find(edge.p) != mappedNode.end()) {
                             continue;
                         }
-                        hasChild = edge.p == stack.top()->p;
+                        if (!stack.empty()) {
+                            hasChild = edge.p == stack.top()->p;
+                        }
                     }
 
                     if (hasChild) {
-- 
2.43.0


From 7aaf67495e1fe741c843afff1ab2e544927d8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 12/39] fix: transferring a decision diagram must keep weights
 that are factored out of inner nodes

---
 include/dd/Package.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f208033..1f43864 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2888,7 +2888,7 @@ namespace dd {
             Edge              root{};
             std::stack<Edge*> stack;
 
-            std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
+            std::unordered_map<decltype(original.p), Edge> mappedNode{};
 
             Edge* currentEdge = &original;
             if (!currentEdge->isTerminal()) {
@@ -2947,15 +2947,21 @@ namespace dd {
                         }
                         std::array<Edge, n> edges{};
                         for (std::size_t i = 0; i < n; i++) {
-                            if (currentEdge->p->e[i].isTerminal()) {
+                            if (currentEdge->p->e[i].w.approximatelyZero()) {
+                                edges[i] = Edge::zero;
+                            } else if (currentEdge->p->e[i].isTerminal()) {
                                 edges[i].p = currentEdge->p->e[i].p;
+                                edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                             } else {
-                                edges[i].p = mappedNode[currentEdge->p->e[i].p];
+                                edges[i] = mappedNode[currentEdge->p->e[i].p];
+                                // normalizing the node again might have factored out a weight
+                                auto weight = cn.getTemporary();
+                                dd::ComplexNumbers::mul(weight, edges[i].w, currentEdge->p->e[i].w);
+                                edges[i].w = cn.lookup(weight);
                             }
-                            edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                         }
                         root                       = makeDDNode(currentEdge->p->v, edges);
-                        mappedNode[currentEdge->p] = root.p;
+                        mappedNode[currentEdge->p] = root;
                         currentEdge                = nullptr;
                     }
                 } while (!stack.empty());
-- 
2.43.0


From c5c17b57767d4d5b70aea9641b3e0a408468a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 13/39] fix: numbers with a vanishing real part must not be
 printed as (1+i)

---
 include/dd/ComplexValue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 00d9444..3331563 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -197,11 +197,11 @@ namespace dd {
             }
             if (std::abs(imag) > tol) {
                 if (formatted) {
-                    if (std::abs(real - imag) <= tol) {
+                    if (std::abs(real) > tol && std::abs(real - imag) <= tol) {
                         ss << "(1+i)";
                         return ss.str();
                     }
-                    if (std::abs(real + imag) <= tol) {
+                    if (std::abs(real) > tol && std::abs(real + imag) <= tol) {
                         ss << "(1-i)";
                         return ss.str();
                     }
-- 
2.43.0


From 5fcaf6421cabf4f4de6c6905f7ce375bc1465736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 14/39] fix: reading a density matrix must not drop the flags
 of the given edge

---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1f43864..bfce046 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2740,12 +2740,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            // the given edge must keep its density matrix flags, otherwise it would denote a different matrix afterwards
+            auto eCopy = e;
+            dEdge::applyDmChangesToEdge(eCopy);
+            const std::size_t dim = 2ULL << eCopy.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(eCopy, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(eCopy);
             return mat;
         }
 
-- 
2.43.0


From ddf572c5a1f3c3a90c68724f4ab92052eba7300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 15/39] fix: vanishing reduced products must not be cached as
 products of full matrices

---
 include/dd/Package.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index bfce046..5301f34 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1744,7 +1744,10 @@ namespace dd {
             //                std::cout << "Caching error detected in mul" << std::endl;
             //            }
 
-            computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            // a reduced result may vanish even though the full result does not (and a terminal cannot be marked as reduced)
+            if (!generateDensityMatrix || !e.isTerminal()) {
+                computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            }
 
             if (!e.w.exactlyZero() && (x.w.exactlyOne() || !y.w.exactlyZero())) {
                 if (e.w.exactlyOne()) {
-- 
2.43.0


From 23ddf129f683f4a36acf7f237cc85ae70c6ac2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 16/39] fix: cached density matrix operations must distinguish
 conjugated operands from plain ones

---
 include/dd/ComputeTable.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..cec2dc1 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -46,7 +46,7 @@ namespace dd {
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {includeTempFlags(leftOperand), includeTempFlags(rightOperand), result};
             ++count;
         }
 
@@ -58,10 +58,10 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.leftOperand != leftOperand) {
+            if (entry.leftOperand != includeTempFlags(leftOperand)) {
                 return result;
             }
-            if (entry.rightOperand != rightOperand) {
+            if (entry.rightOperand != includeTempFlags(rightOperand)) {
                 return result;
             }
 
@@ -92,6 +92,17 @@ namespace dd {
         }
 
     private:
+        // The matrix that a density matrix node currently stands for depends on its temporary flags.
+        // Thus, they need to be part of the stored operands.
+        template<class OperandType>
+        static OperandType includeTempFlags(OperandType operand) {
+            if constexpr (std::is_same_v<OperandType, dEdge> || std::is_same_v<OperandType, dCachedEdge>) {
+                const auto flags = dNode::getDensityMatrixTempFlags(static_cast<std::uintptr_t>(operand.p->flags));
+                operand.p        = reinterpret_cast<dNode*>(reinterpret_cast<std::uintptr_t>(operand.p) | flags);
+            }
+            return operand;
+        }
+
         std::array<Entry, NBUCKET> table{};
         // compute table lookup statistics
         std::size_t hits    = 0;
-- 
2.43.0


From 8c6105b8b0f7e122a5923163c895e763c9d302f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 17/39] fix: ancilla and garbage reduction must keep the
 weights of successors sharing a node

The reduction of a successor was copied to all successors pointing to the
same node although their weights may differ (e.g. the minus sign of a Z).
---
 include/dd/Package.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5301f34..35cf323 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2326,6 +2326,19 @@ namespace dd {
         }
 
     private:
+        // the reduced version of a successor with weight `to`, given the one of a successor with weight `from` and the same node
+        template<class Edge>
+        Edge repeatedSuccessor(const Edge& reduced, const Complex& from, const Complex& to) {
+            auto r = reduced;
+            if (from != to) {
+                auto c = cn.divCached(to, from);
+                ComplexNumbers::mul(c, c, reduced.w);
+                r.w = cn.lookup(c);
+                cn.returnToCache(c);
+            }
+            return r;
+        }
+
         mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
@@ -2343,7 +2356,7 @@ namespace dd {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = edges[i];
+                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2389,7 +2402,7 @@ namespace dd {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
                         for (auto j = i + 1; j < RADIX; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = edges[i];
+                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2442,7 +2455,7 @@ namespace dd {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = edges[i];
+                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
-- 
2.43.0


From ca6e850ab1ee389bbf6ae21d3ab5fccbc8de065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 18/39] fix: ancilla and garbage reduction must keep the weight
 normalization factored out

The node was created (and normalized) a second time without the weight
the first normalization had factored out.
---
 include/dd/Package.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 35cf323..fe77e10 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2339,6 +2339,16 @@ namespace dd {
             return r;
         }
 
+        // replaces the successors of f by the given ones, keeping the weight of f
+        template<class Edge, std::size_t N>
+        Edge reducedNode(const Edge& f, const std::array<Edge, N>& edges) {
+            auto r = makeDDNode(f.p->v, edges);
+            auto c = cn.mulCached(r.w, f.w);
+            r.w    = cn.lookup(c);
+            cn.returnToCache(c);
+            return r;
+        }
+
         mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
             if (e.p->v < lowerbound) {
                 return e;
@@ -2370,11 +2380,11 @@ namespace dd {
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
+                        f = reducedNode(f, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
                     }
                 } else {
                     if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
+                        f = reducedNode(f, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
                     }
                 }
             }
@@ -2423,7 +2433,7 @@ namespace dd {
                     } else {
                         g = f.p->e[0];
                     }
-                    f = makeDDNode(e.p->v, std::array{g, vEdge::zero});
+                    f = reducedNode(f, std::array{g, vEdge::zero});
                 }
             }
 
@@ -2485,7 +2495,7 @@ namespace dd {
                         } else {
                             h = f.p->e[1];
                         }
-                        f = makeDDNode(e.p->v, std::array{g, h, mEdge::zero, mEdge::zero});
+                        f = reducedNode(f, std::array{g, h, mEdge::zero, mEdge::zero});
                     }
                 } else {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
@@ -2505,7 +2515,7 @@ namespace dd {
                         } else {
                             h = f.p->e[2];
                         }
-                        f = makeDDNode(e.p->v, std::array{g, mEdge::zero, h, mEdge::zero});
+                        f = reducedNode(f, std::array{g, mEdge::zero, h, mEdge::zero});
                     }
                 }
             }
-- 
2.43.0


From a56406c90ddcdb7158af6086f11f6ee53ad044e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 19/39] fix: garbage reduction must not drop the phase of
 weights of magnitude one

The squared magnitude of a weight such as exp(i*pi/4) exceeds one by rounding,
and the whole weight was then replaced by one.
---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index fe77e10..af6c818 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2442,8 +2442,9 @@ namespace dd {
             cn.returnToCache(c);
 
             // Quick-fix for normalization bug
-            if (ComplexNumbers::mag2(f.w) > 1.0) {
-                f.w = Complex::one;
+            if (const auto mag = std::sqrt(ComplexNumbers::mag2(f.w)); mag > 1.0) {
+                // limit the magnitude, but keep the phase
+                f.w = cn.lookup(CTEntry::val(f.w.r) / mag, CTEntry::val(f.w.i) / mag);
             }
 
             return f;
@@ -2525,8 +2526,9 @@ namespace dd {
             cn.returnToCache(c);
 
             // Quick-fix for normalization bug
-            if (ComplexNumbers::mag2(f.w) > 1.0) {
-                f.w = Complex::one;
+            if (const auto mag = std::sqrt(ComplexNumbers::mag2(f.w)); mag > 1.0) {
+                // limit the magnitude, but keep the phase
+                f.w = cn.lookup(CTEntry::val(f.w.r) / mag, CTEntry::val(f.w.i) / mag);
             }
 
             return f;
-- 
2.43.0


From 3394583bf80d15489e1c7eff7880cd092875dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 20/39] fix: two-qubit gates on all 128 qubits lacked the
 identities above the larger target

The number of qubits was converted to the (8 bit, signed) qubit type, which
cannot represent 128.
---
 include/dd/Package.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index af6c818..ffe8b2e 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -622,7 +622,9 @@ namespace dd {
             auto e = makeDDNode(z, em0);
 
             // process lines above the larger target (by creating identity structures)
-            for (++z; z < static_cast<Qubit>(n + start); ++z) {
+            // (the number of qubits itself might not be representable as a qubit)
+            for (const auto top = static_cast<Qubit>(n + start - 1); z < top;) {
+                ++z;
                 e = makeDDNode(z, std::array{e, mEdge::zero, mEdge::zero, e});
             }
 
-- 
2.43.0


From 0b5646ac12213b702c244ff0469be786e90b71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 21/39] fix: measuring and collapsing a state of 128 qubits
 must not run past the last qubit

The loop variable of the (8 bit, signed) qubit type never reaches 128.
---
 include/dd/Package.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ffe8b2e..7fdf693 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1146,15 +1146,15 @@ namespace dd {
                 vEdge                e = vEdge::one;
                 std::array<vEdge, 2> edges{};
 
-                for (Qubit p = 0; p < numberOfQubits; p++) {
-                    if (result[static_cast<std::size_t>(p)] == '0') {
+                for (std::size_t p = 0; p < numberOfQubits; p++) {
+                    if (result[p] == '0') {
                         edges[0] = e;
                         edges[1] = vEdge::zero;
                     } else {
                         edges[0] = vEdge::zero;
                         edges[1] = e;
                     }
-                    e = makeDDNode(p, edges, false);
+                    e = makeDDNode(static_cast<Qubit>(p), edges, false);
                 }
                 incRef(e);
                 rootEdge = e;
-- 
2.43.0


From 0113b6ed3c563e2ee015ebde5d50dce16d413502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 22/39] fix: compare magnitudes instead of their squares with
 the tolerance when normalizing matrix nodes

The square of a weight of magnitude 4e-7 is smaller than the tolerance, so such a weight next to one barely above the
tolerance (3e-13) did not become the leading one. The node then carried a weight of 1e6 below an edge that is dropped as
approximately zero: adding a matrix with the entries 3e-13 and 4e-7 to the identity lost the latter.
---
 include/dd/Package.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 7fdf693..a2f6ec5 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -406,10 +406,10 @@ namespace dd {
                     }
                     if (argmax == -1) {
                         argmax = static_cast<decltype(argmax)>(i);
-                        max    = ComplexNumbers::mag2(e.p->e[i].w);
+                        max    = ComplexNumbers::mag(e.p->e[i].w);
                         maxc   = e.p->e[i].w;
                     } else {
-                        auto mag = ComplexNumbers::mag2(e.p->e[i].w);
+                        auto mag = ComplexNumbers::mag(e.p->e[i].w);
                         if (mag - max > ComplexTable<>::tolerance()) {
                             argmax = static_cast<decltype(argmax)>(i);
                             max    = mag;
-- 
2.43.0


From 0e8eb64a0c974bf35e6da7c358c2a8567d0eac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 23/39] fix: compare magnitudes instead of their squares with
 the tolerance when normalizing vector nodes

Which weight of a node is made real and positive depended on the scale for weights below 5e-7 (whose squares are smaller
than the tolerance), so that sub-vectors which differ in such a factor only did not share their node.
---
 include/dd/Package.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a2f6ec5..1d37ce2 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -180,8 +180,8 @@ namespace dd {
             const auto mag0         = ComplexNumbers::mag2(e.p->e[0].w);
             const auto mag1         = ComplexNumbers::mag2(e.p->e[1].w);
             const auto norm2        = mag0 + mag1;
-            const auto mag2Max      = (mag0 + ComplexTable<>::tolerance() >= mag1) ? mag0 : mag1;
-            const auto argMax       = (mag0 + ComplexTable<>::tolerance() >= mag1) ? 0 : 1;
+            const auto argMax       = (std::sqrt(mag0) + ComplexTable<>::tolerance() >= std::sqrt(mag1)) ? 0 : 1;
+            const auto mag2Max      = (argMax == 0) ? mag0 : mag1;
             const auto norm         = std::sqrt(norm2);
             const auto magMax       = std::sqrt(mag2Max);
             const auto commonFactor = norm / magMax;
-- 
2.43.0


From e50de0567bf4b146576e073d74b4d2ff6e4ef7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 24/39] fix: reject basis states with too few given qubit
 states (bit vectors and start offsets)

---
 include/dd/Package.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1d37ce2..7e485f4 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -254,6 +254,10 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
+            }
+
             auto f = vEdge::one;
             for (std::size_t p = start; p < n + start; ++p) {
                 if (!state[p]) {
@@ -273,8 +277,8 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
-            if (state.size() < n) {
-                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n) + ", but received " + std::to_string(state.size()));
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
             }
 
             auto f = vEdge::one;
-- 
2.43.0


From 29ef006fadc8c6dd121c3f7fc790fc1b9750f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 25/39] fix: reject matrices whose rows differ in length

---
 include/dd/Package.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 7e485f4..c872d24 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -354,8 +354,10 @@ namespace dd {
             }
 
             const auto& width = matrix[0].size();
-            if (length != width) {
-                throw std::invalid_argument("Matrix must be square.");
+            for (const auto& row: matrix) {
+                if (row.size() != length) {
+                    throw std::invalid_argument("Matrix must be square.");
+                }
             }
 
             if (length == 1) {
-- 
2.43.0


From 17456cb17fb95d01423ca74e951f9ae3df3257d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 26/39] fix: size() kept a set of visited nodes that all
 packages share, so packages could not be used by different threads

---
 include/dd/Package.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c872d24..ace8b38 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2244,10 +2244,9 @@ namespace dd {
         ///
         template<class Edge>
         unsigned int size(const Edge& e) {
-            static constexpr unsigned int            NODECOUNT_BUCKETS = 200000;
-            static std::unordered_set<decltype(e.p)> visited{NODECOUNT_BUCKETS}; // 2e6
+            // not static, since packages may be used by different threads
+            std::unordered_set<decltype(e.p)> visited{};
             visited.max_load_factor(10);
-            visited.clear();
             return nodeCount(e, visited);
         }
 
-- 
2.43.0


From 120c5ef7276e7a3285803d91c7d47c8678e09725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 27/39] fix: the terminal shared by all packages was written to
 when density matrices were read or multiplied

---
 include/dd/Node.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 84ff004..f98c16d 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -189,8 +189,11 @@ namespace dd {
             // Align the node pointers
             if (isDensityMatrixTempFlagSet(p)) {
                 auto tmp = alignDensityNodeNode(p);
-                assert(getDensityMatrixTempFlags(p->flags) == 0);
-                p->flags = p->flags | tmp;
+                // the terminal, which is shared by all packages (and threads), is never marked
+                if (tmp != 0U) {
+                    assert(getDensityMatrixTempFlags(p->flags) == 0);
+                    p->flags = p->flags | tmp;
+                }
             }
         }
 
-- 
2.43.0


From 1365f28703dfce4899d9719687dec9fca406dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 28/39] fix: numbers beyond the range of an integer were stored
 outside of the complex table's buckets

---
 include/dd/ComplexTable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index b450bf8..939db08 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -130,8 +130,8 @@ namespace dd {
         // linear (clipped) hash function
         static constexpr std::int64_t hash(const fp val) {
             assert(val >= 0);
-            auto key = static_cast<std::int64_t>(std::nearbyint(val * MASK));
-            return std::min<std::int64_t>(key, MASK);
+            // clip before the conversion as large values cannot be represented as an integer
+            return static_cast<std::int64_t>(std::nearbyint(std::min(val * static_cast<fp>(MASK), static_cast<fp>(MASK))));
         }
 
         // access functions
-- 
2.43.0


From e2ba56d092e5fd528afcfcbdeba9afd65d64bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 29/39] fix: printing large numbers took time proportional to
 their size (or forever)

---
 include/dd/ComplexValue.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 3331563..b822ce5 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -73,8 +73,22 @@ namespace dd {
         static auto getLowestFraction(const double x, const std::uint64_t maxDenominator = 1U << 10, const fp tol = dd::ComplexTable<>::tolerance()) {
             assert(x >= 0.);
 
-            std::pair<std::uint64_t, std::uint64_t> lowerBound{0U, 1U};
-            std::pair<std::uint64_t, std::uint64_t> upperBound{1U, 0U};
+            // numbers this large cannot be represented by a fraction of integers
+            if (x >= static_cast<double>(1ULL << 63U)) {
+                return std::pair<std::uint64_t, std::uint64_t>{0U, 1U};
+            }
+
+            // the search starts between the two closest integers
+            const auto integer = static_cast<std::uint64_t>(x);
+
+            std::pair<std::uint64_t, std::uint64_t> lowerBound{integer, 1U};
+            std::pair<std::uint64_t, std::uint64_t> upperBound{integer + 1U, 1U};
+            if (x - static_cast<fp>(integer) <= tol) {
+                return lowerBound;
+            }
+            if (static_cast<fp>(integer + 1U) - x <= tol) {
+                return upperBound;
+            }
 
             while ((lowerBound.second <= maxDenominator) && (upperBound.second <= maxDenominator)) {
                 auto num    = lowerBound.first + upperBound.first;
-- 
2.43.0


From 48e62fd71d30b9dfed946f8827be1c8952c32e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 30/39] fix: the reference count of a negative number was
 reported negated

---
 include/dd/ComplexTable.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 939db08..868bc11 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -72,10 +72,7 @@ namespace dd {
             }
 
             [[nodiscard]] static inline RefCount ref(const Entry* e) {
-                if (isNegativePointer(e)) {
-                    return -getAlignedPointer(e)->refCount;
-                }
-                return e->refCount;
+                return getAlignedPointer(e)->refCount;
             }
 
             [[nodiscard]] static constexpr bool approximatelyEquals(const Entry* left, const Entry* right) {
-- 
2.43.0


From 5771417dadc12e201797bf4bb4de658f1935b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 31/39] fix: reading a scalar as a vector or matrix shifted by
 a negative number

---
 include/dd/Package.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ace8b38..f3be4b1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2676,7 +2676,7 @@ namespace dd {
         }
 
         CVec getVector(const vEdge& e) {
-            const std::size_t dim = 2ULL << e.p->v;
+            const std::size_t dim = 1ULL << (e.p->v + 1);
             // allocate resulting vector
             auto vec = CVec(dim, {0.0, 0.0});
             getVector(e, Complex::one, 0, vec);
@@ -2706,7 +2706,7 @@ namespace dd {
         }
 
         void printVector(const vEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = 1ULL << (e.p->v + 1);
             for (auto i = 0ULL; i < element; i++) {
                 const auto amplitude = getValueByPath(e, i);
                 for (Qubit j = e.p->v; j >= 0; j--) {
@@ -2722,7 +2722,7 @@ namespace dd {
         }
 
         void printMatrix(const mEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = 1ULL << (e.p->v + 1);
             for (auto i = 0ULL; i < element; i++) {
                 for (auto j = 0ULL; j < element; j++) {
                     const auto     amplitude = getValueByPath(e, i, j);
@@ -2738,7 +2738,7 @@ namespace dd {
         }
 
         CMat getMatrix(const mEdge& e) {
-            const std::size_t dim = 2ULL << e.p->v;
+            const std::size_t dim = 1ULL << (e.p->v + 1);
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getMatrix(e, Complex::one, 0, 0, mat);
@@ -2778,7 +2778,7 @@ namespace dd {
             // the given edge must keep its density matrix flags, otherwise it would denote a different matrix afterwards
             auto eCopy = e;
             dEdge::applyDmChangesToEdge(eCopy);
-            const std::size_t dim = 2ULL << eCopy.p->v;
+            const std::size_t dim = 1ULL << (eCopy.p->v + 1);
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getDensityMatrix(eCopy, Complex::one, 0, 0, mat);
-- 
2.43.0


From c810b4ee7226d84f228efeede9b95d7f9a2513e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 32/39] fix: garbageCollect did not report that only density
 nodes had been collected

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f3be4b1..c358620 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -991,7 +991,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From f1d14a85ad4998100e62d7a72b526fc90422d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 33/39] fix: multiplying a density matrix left its nodes
 modified, or used results that were

---
 include/dd/Package.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c358620..a8cebb1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1714,23 +1714,22 @@ namespace dd {
                                         edge[2] = ResultEdge{edge[1].p, cn.getCached(edge[1].w.r->value, edge[1].w.i->value)};
                                     }
                                 }
+                                dEdge::revertDmChangesToEdges(e1, e2);
                                 continue;
                             } else {
                                 m = multiply2(e1, e2, static_cast<Qubit>(var - 1), start, generateDensityMatrix);
                             }
+                            //Undo modifications on density matrices (before going on with the result, which may be one of the modified nodes)
+                            dEdge::revertDmChangesToEdges(e1, e2);
 
                             if (k == 0 || edge[idx].w.exactlyZero()) {
                                 edge[idx] = m;
                             } else if (!m.w.exactlyZero()) {
-                                dEdge::applyDmChangesToEdges(edge[idx], m);
                                 auto oldE = edge[idx];
                                 edge[idx] = add2(edge[idx], m);
-                                dEdge::revertDmChangesToEdges(edge[idx], e2);
                                 cn.returnToCache(oldE.w);
                                 cn.returnToCache(m.w);
                             }
-                            //Undo modifications on density matrices
-                            dEdge::revertDmChangesToEdges(e1, e2);
                         } else {
                             auto m = multiply2(e1, e2, static_cast<Qubit>(var - 1), start);
 
-- 
2.43.0


From 89756d6261abad98393b173d561d1eab2a5be9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 34/39] fix: ancilla and garbage reduction must not derive
 large weights from those of tiny successors

---
 include/dd/Package.hpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a8cebb1..6aff8bd 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2332,16 +2332,16 @@ namespace dd {
         }
 
     private:
-        // the reduced version of a successor with weight `to`, given the one of a successor with weight `from` and the same node
+        // the reduced version of an edge with the given weight, given the one of an edge with weight one and the same node
+        // (deriving it from the reduced version of an edge with another weight could multiply rounding errors)
         template<class Edge>
-        Edge repeatedSuccessor(const Edge& reduced, const Complex& from, const Complex& to) {
-            auto r = reduced;
-            if (from != to) {
-                auto c = cn.divCached(to, from);
-                ComplexNumbers::mul(c, c, reduced.w);
-                r.w = cn.lookup(c);
-                cn.returnToCache(c);
+        Edge weightedSuccessor(const Edge& reduced, const Complex& weight) {
+            if (reduced.w == Complex::one) {
+                return {reduced.p, weight};
             }
+            auto c = cn.mulCached(reduced.w, weight);
+            auto r = Edge{reduced.p, cn.lookup(c)};
+            cn.returnToCache(c);
             return r;
         }
 
@@ -2369,10 +2369,12 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
+                        auto       successor = mEdge{f.p->e[i].p, Complex::one};
+                        const auto reduced   = reduceAncillaeRecursion(successor, ancillary, lowerbound, regular);
+                        edges[i]             = weightedSuccessor(reduced, e.p->e[i].w);
                         for (auto j = i + 1; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
+                                edges[j] = weightedSuccessor(reduced, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2415,10 +2417,12 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
+                        auto       successor = vEdge{f.p->e[i].p, Complex::one};
+                        const auto reduced   = reduceGarbageRecursion(successor, garbage, lowerbound);
+                        edges[i]             = weightedSuccessor(reduced, e.p->e[i].w);
                         for (auto j = i + 1; j < RADIX; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
+                                edges[j] = weightedSuccessor(reduced, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
@@ -2469,10 +2473,12 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
+                        auto       successor = mEdge{f.p->e[i].p, Complex::one};
+                        const auto reduced   = reduceGarbageRecursion(successor, garbage, lowerbound, regular);
+                        edges[i]             = weightedSuccessor(reduced, e.p->e[i].w);
                         for (auto j = i + 1; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = repeatedSuccessor(edges[i], e.p->e[i].w, e.p->e[j].w);
+                                edges[j] = weightedSuccessor(reduced, e.p->e[j].w);
                                 handled.set(j);
                             }
                         }
-- 
2.43.0


From 372cfe7915dc1592e735cedc8fbdc92088cd29b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 35/39] fix: results that vanish must be the zero terminal
 (Kronecker products, deleted successors, traces, reductions)

---
 include/dd/Package.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 6aff8bd..1f1aa88 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1078,6 +1078,9 @@ namespace dd {
                 auto w = cn.getTemporary();
                 dd::ComplexNumbers::mul(w, newedge.w, e.w);
                 newedge.w = cn.lookup(w);
+                if (newedge.w == Complex::zero) {
+                    newedge = Edge<Node>::zero;
+                }
             }
 
             return newedge;
@@ -1960,6 +1963,9 @@ namespace dd {
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
                 cn.returnToCache(e.w);
                 e.w = cn.lookup(e.w);
+                if (e.w == Complex::zero) {
+                    return Edge::zero;
+                }
             }
 
             return e;
@@ -2019,7 +2025,9 @@ namespace dd {
 
             auto idx = incIdx ? static_cast<Qubit>(y.p->v + x.p->v + 1) : x.p->v;
             auto e   = makeDDNode(idx, edge, true);
-            ComplexNumbers::mul(e.w, e.w, x.w);
+            if (e.w != Complex::zero) {
+                ComplexNumbers::mul(e.w, e.w, x.w);
+            }
             computeTable.insert(x, y, {e.p, e.w});
             return e;
         }
@@ -2096,7 +2104,7 @@ namespace dd {
                     cn.returnToCache(r2.w);
                 }
 
-                return r;
+                return r.w == Complex::zero ? mEdge::zero : r;
             }
 
             std::array<mEdge, NEDGE> edge{};
@@ -2114,7 +2122,7 @@ namespace dd {
                 ComplexNumbers::mul(c, r.w, a.w);
                 r.w = cn.lookup(c);
             }
-            return r;
+            return r.w == Complex::zero ? mEdge::zero : r;
         }
 
         bool isCloseToIdentityRecursive(const mEdge& m, std::unordered_set<decltype(m.p)>& visited, dd::fp tol) {
@@ -2342,7 +2350,7 @@ namespace dd {
             auto c = cn.mulCached(reduced.w, weight);
             auto r = Edge{reduced.p, cn.lookup(c)};
             cn.returnToCache(c);
-            return r;
+            return r.w == Complex::zero ? Edge::zero : r;
         }
 
         // replaces the successors of f by the given ones, keeping the weight of f
@@ -2352,7 +2360,7 @@ namespace dd {
             auto c = cn.mulCached(r.w, f.w);
             r.w    = cn.lookup(c);
             cn.returnToCache(c);
-            return r;
+            return r.w == Complex::zero ? Edge::zero : r;
         }
 
         mEdge reduceAncillaeRecursion(mEdge& e, const std::vector<bool>& ancillary, Qubit lowerbound, bool regular = true) {
@@ -2400,7 +2408,7 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
-            return f;
+            return f.w == Complex::zero ? mEdge::zero : f;
         }
 
         vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound) {
@@ -2450,6 +2458,9 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
+            if (f.w == Complex::zero) {
+                return vEdge::zero;
+            }
 
             // Quick-fix for normalization bug
             if (const auto mag = std::sqrt(ComplexNumbers::mag2(f.w)); mag > 1.0) {
@@ -2536,6 +2547,9 @@ namespace dd {
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
+            if (f.w == Complex::zero) {
+                return mEdge::zero;
+            }
 
             // Quick-fix for normalization bug
             if (const auto mag = std::sqrt(ComplexNumbers::mag2(f.w)); mag > 1.0) {
-- 
2.43.0


From 5cd1742ccf238d22517e19663ec47a2744801f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 36/39] fix: transposed, transferred and deserialized diagrams
 that vanish must be the zero terminal

---
 include/dd/Package.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1f1aa88..b02cd14 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1472,6 +1472,9 @@ namespace dd {
             auto c = cn.getTemporary();
             ComplexNumbers::mul(c, r.w, a.w);
             r.w = cn.lookup(c);
+            if (r.w == Complex::zero) {
+                r = mEdge::zero;
+            }
 
             // put in compute table
             matrixTranspose.insert(a, r);
@@ -1507,6 +1510,9 @@ namespace dd {
             // adjust top weight including conjugate
             ComplexNumbers::mul(c, r.w, ComplexNumbers::conj(a.w));
             r.w = cn.lookup(c);
+            if (r.w == Complex::zero) {
+                r = mEdge::zero;
+            }
 
             // put it in the compute table
             conjugateMatrixTranspose.insert(a, r);
@@ -3026,6 +3032,9 @@ namespace dd {
                 dd::ComplexNumbers::mul(w, root.w, w);
                 root.w = cn.lookup(w);
                 cn.returnToCache(w);
+                if (root.w == Complex::zero) {
+                    root = Edge::zero;
+                }
             } else {
                 root.p = original.p; // terminal -> static
                 root.w = cn.lookup(original.w);
@@ -3135,6 +3144,9 @@ namespace dd {
             ComplexNumbers::mul(w, result.w, w);
             result.w = cn.lookup(w);
             cn.returnToCache(w);
+            if (result.w == Complex::zero) {
+                result = Edge::zero;
+            }
 
             return result;
         }
-- 
2.43.0


From 550da8d87c5626fdc01d3e607a3655ac6629b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 37/39] fix: releasing a diagram that is not referenced must
 not change the count of its weight

---
 include/dd/UniqueTable.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dd/UniqueTable.hpp b/include/dd/UniqueTable.hpp
index 733e657..9fa0526 100644
--- a/include/dd/UniqueTable.hpp
+++ b/include/dd/UniqueTable.hpp
@@ -177,6 +177,11 @@ namespace dd {
         // and recursively decrement reference counter for
         // each child if this is the last reference
         void decRef(const Edge<Node>& e) {
+            // reject nodes that are not referenced before changing any count
+            if (e.p != nullptr && !e.isTerminal() && e.p->ref == 0) {
+                throw std::runtime_error("In decref: ref==0 before decref\n");
+            }
+
             dd::ComplexNumbers::decRef(e.w);
             if (e.p == nullptr || e.isTerminal()) {
                 return;
@@ -185,10 +190,6 @@ namespace dd {
                 return;
             }
 
-            if (e.p->ref == 0) {
-                throw std::runtime_error("In decref: ref==0 before decref\n");
-            }
-
             e.p->ref--;
 
             if (e.p->ref == 0) {
-- 
2.43.0


From 9472cb7a51b6cefd73a2711b0a626ff9a0e97f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 38/39] fix: a node allocated for a cached result that vanishes
 must be made available again

---
 include/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index b02cd14..c61bc51 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1022,7 +1022,12 @@ namespace dd {
             }
 
             // normalize it
-            e = normalize(e, cached);
+            auto* const node = e.p;
+            e                = normalize(e, cached);
+            if (cached && e.p != node) {
+                // the result vanishes, and the node has not been put back into the chain yet
+                uniqueTable.returnNode(node);
+            }
             assert(e.p->v == var || e.isTerminal());
 
             // look it up in the unique tables
-- 
2.43.0


From c873374742f70e4511b70ed9dd0e6db495c7d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:33 +0000
Subject: [PATCH 39/39] fix: measuring a qubit of the zero vector read from an
 empty queue (crash) instead of being rejected

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c61bc51..8c64030 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1204,7 +1204,7 @@ namespace dd {
             visited.insert(rootEdge.p);
             q.push(rootEdge.p);
 
-            while (q.front()->v != index) {
+            while (!q.empty() && q.front()->v != index) {
                 vNode* ptr = q.front();
                 q.pop();
                 const fp prob = probsMone[ptr];
-- 
2.43.0

