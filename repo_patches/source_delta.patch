From 8dad34aec4d1a0edbe40d207ff772f2bc62b5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 01/17] fix: eventually must not truncate its child's
 robustness signal

ev_transducer::compute_robustness() resized child->z, which the interval
robustness and the parents of a nested formula read afterwards.
---
 src/transducer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..a51b3fd 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,7 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
 
         z.resize(start_time,max(start_time,et), 0.);
 
-- 
2.43.0


From c75dae11abe84ec44afb776adb5a8698ddb28c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 02/17] fix: upper bound is TOP, not BOTTOM, when no data
 reaches the start time

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From 1b05113d1ba83d98b3bd0cabf6b350fa54003249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 03/17] fix: and/or keep the value at the end of the common
 time domain

A jump of x or y exactly at endTime was lost, and the free functions
computeAnd/computeOr read past rend().
---
 src/robustness.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..dd7ef7f 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -123,6 +123,13 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
+	// value at endTime: x or y may be discontinuous there
+	while ((i->time > endTime) && i != x.rend()-1)
+		i++;
+	while ((j->time > endTime) && j != y.rend()-1)
+		j++;
+	double last = fmin(i->valueAt(endTime), j->valueAt(endTime));
+
 	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
 	while ((j->time >= endTime) && j != y.rend()-1)
@@ -130,6 +137,7 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
+	back() = Sample(endTime, last, 0.);
 
 }
 
@@ -230,6 +238,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 				z_max);
 
 	simplify();
+	back() = Sample(endTime, last, 0.);
 
 #ifdef DEBUG__
 	cout << "<<<Signal::compute_until                      OUT" << endl;
-- 
2.43.0


From 0add79b4909287dd6d11e46a251fc627a3c95cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 04/17] fix: until over its whole window, and its online bounds

compute_until started from BOTTOM, so t'=endTime was not a candidate; the
timed version fell back to the unbounded one when the data was shorter than
b, and the online bounds were taken over partial windows.
---
 src/interval_transducer.cpp |  36 +++++----
 src/robustness.cpp          | 156 ++++++++----------------------------
 src/transducer.cpp          |   3 +-
 3 files changed, 56 insertions(+), 139 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..5f9904e 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,18 +297,18 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        childL->compute_lower_rob();
+        childR->compute_lower_rob();
+        if (childL->z_low.front().value==BOTTOM || childR->z_low.front().value==BOTTOM) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
         z_low.resize(start_time,max(start_time,et),0.);
-        
-        
-        if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+
+        return z_low.front().value;
 
     }
 
@@ -318,17 +318,23 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        childL->compute_upper_rob();
+        childR->compute_upper_rob();
+        if (childL->z_up.front().value==TOP || childR->z_up.front().value==TOP) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
-        z_up.resize(start_time,max(start_time,et),0.);
+
+        // Here we remove values computed with partial data
+        double et =min(z_up.endTime-b+a,end_time);
+        z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+
+        return z_up.front().value;
     }
 
 }
diff --git a/src/robustness.cpp b/src/robustness.cpp
index dd7ef7f..f47f15d 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -150,6 +150,13 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
+	// value at endTime: x or y may be discontinuous there
+	while ((i->time > endTime) && i != x.rend()-1)
+		i++;
+	while ((j->time > endTime) && j != y.rend()-1)
+		j++;
+	double last = fmax(i->valueAt(endTime), j->valueAt(endTime));
+
 	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
 	while ((j->time >= endTime) && j != y.rend()-1)
@@ -157,6 +164,7 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
+	back() = Sample(endTime, last, 0.);
 
 }
 
@@ -212,9 +220,17 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	// t'=endTime is a candidate, and x or y may be discontinuous there
+	while ((i->time > endTime) && i != x.rend()-1)
+		i++;
+	while ((j->time > endTime) && j != y.rend()-1)
+		j++;
+	z_max = fmin(i->valueAt(endTime), j->valueAt(endTime));
+	double last = z_max;
+
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -383,39 +399,26 @@ void Signal::compute_timed_globally(const Signal& x, double a, double b) {
 
 void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, double b) {
 
-	Signal y1 = x;
-	Signal y2 = y;
-	Signal *yunt;
-
 	if (x.empty()||y.empty()) {
 		this->clear();
 		return;
 	}
 
+	// x until_[a,b] y = alw_[0,a] x and ev_[a,b] y and ev_[a,a] (x until y)
+	Signal z1, z2, z3, z4;
 
-	if(b > std::min(y1.endTime, y2.endTime))
-	{
-		if (a==0)
-			yunt = computeUntil(&y1,&y2);
-		else
-			if (a > y1.endTime) {
-				yunt = computeGlobally(&y1);
-			}
-			else
-			{
-				Signal * yalw1 = computeBoundedGlobally(&y1, a);
-				Signal * yuntmp = computeUntil(&y1,&y2);
-				yuntmp->shift(-a);
-				yunt = computeAnd(yalw1, yuntmp);
-				delete yalw1;
-				delete yuntmp;
-			}
+	z1.compute_timed_globally(x, 0., a);
+	if (std::min(x.endTime, y.endTime) - a < z1.beginTime) {
+		// no data for y in [a,b] yet
+		*this = z1;
+		return;
 	}
-	else
-		yunt = computeTimedUntil(&y1,&y2, a, b );
 
-	*this = *yunt;
-	delete yunt;
+	z2.compute_timed_eventually(y, a, b);
+	z3.compute_until(x, y);
+	z3.shift(-a);
+	z4.compute_and(z2, z3);
+	compute_and(z1, z4);
 
 }
 
@@ -680,68 +683,16 @@ Signal * computeNot(Signal * y) {
 
 Signal * computeAnd(Signal * x, Signal * y) {
 
-	Signal::const_reverse_iterator i = x->rbegin();
-	Signal::const_reverse_iterator j = y->rbegin();
-
 	Signal * z = new Signal();
-
-	z->beginTime = fmax(x->beginTime, y->beginTime);
-	z->endTime = fmin(x->endTime, y->endTime);
-
-	while (i->time >= z->endTime)
-		i++;
-	while (j->time >= z->endTime)
-		j++;
-
-	computePartialAnd(z, i, j, z->beginTime, z->endTime);
-	z->simplify();
-
+	z->compute_and(*x, *y);
 	return z;
 }
 
 Signal * computeOr(Signal * x, Signal * y) {
 
-#ifdef DEBUG__
-	cout << ">  computeOr:                                 IN." << endl;
-#endif
-
-	Signal::const_reverse_iterator i = x->rbegin();
-	Signal::const_reverse_iterator j = y->rbegin();
-
-#ifdef DEBUG__
-	cout << "IN: x " << *x <<  endl;
-	cout << "IN: y " << *y <<  endl;
-#endif
-
 	Signal * z = new Signal();
-
-	z->beginTime = fmax(x->beginTime, y->beginTime);
-	z->endTime = fmin(x->endTime, y->endTime);
-
-#ifdef DEBUG__
-	cout << "IN: z " << *z <<  endl;
-#endif
-
-
-	while (i->time >= z->endTime)
-		i++;
-	while (j->time >= z->endTime)
-		j++;
-
-
-#ifdef DEBUG__
-	cout << "Post................."<<  endl;
-#endif
-
-
-	computePartialOr(z, i, j, z->beginTime, z->endTime);
-	z->simplify();
-
-#ifdef DEBUG__
-	cout << "<  computeOr:                                 OUT." << endl;
-#endif
+	z->compute_or(*x, *y);
 	return z;
-
 }
 
 Signal * computeImplies(Signal * x, Signal * y) {
@@ -801,50 +752,9 @@ Signal * computeGlobally(Signal * x) {
 
 
 Signal * computeUntil(Signal * x, Signal * y) {
-#ifdef DEBUG__
-	cout << ">  computeUntil:                              IN." << endl;
-#endif
 
-	double s, t;
-	double z_max = BOTTOM;
 	Signal * z = new Signal();
-
-	Signal::const_reverse_iterator i = x->rbegin();
-	Signal::const_reverse_iterator j = y->rbegin();
-
-	z->beginTime = fmax(x->beginTime, y->beginTime);
-	z->endTime = fmin(x->endTime, y->endTime);
-
-	while (i->time >= z->endTime)
-		i++;
-	while (j->time >= z->endTime)
-		j++;
-
-	s = z->beginTime;
-	t = z->endTime;
-
-	while (i->time > s) {
-
-		computeSegmentUntil(z, *i, t, j, z_max);
-		z_max = z->front().value;
-
-		if (j->time == i->time)
-			j++;
-		t = i->time;
-		i++;
-	}
-
-	if (i->time == s)
-		computeSegmentUntil(z, *i, t, j, z_max);
-	else
-		computeSegmentUntil(z, Sample(s, i->valueAt(s), i->derivative), t, j,
-				z_max);
-
-	z->simplify();
-
-#ifdef DEBUG__
-	cout << "<  computeUntil:                              OUT." << endl;
-#endif
+	z->compute_until(*x, *y);
 	return z;
 }
 
diff --git a/src/transducer.cpp b/src/transducer.cpp
index a51b3fd..1caf164 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -280,7 +280,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From 964952549d137f78b33c05c3c9f6afcee2470442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 05/17] fix: Signal::resize keeps the slope of the segment it
 cuts

---
 src/signal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..89714ea 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,8 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                // the segment containing s may extend to the right of s
+                push_front(Sample(s, first.valueAt(s), s < endTime ? first.derivative : 0.));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 238564a2e8dbec290801371d7f408282a8c49b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 06/17] fix: arithmetic on signals keeps the part after the
 last sample

---
 src/signal_expr.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..7a8873a 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -27,8 +27,10 @@ double abs_transducer::compute_robustness() {
 			iter++) {
 		double t= (*iter).time;
 		double v = (*iter).value;
-		z.appendSample(t, fabs(v));
+		double d = (*iter).derivative;
+		z.appendSample(t, fabs(v), v<0. ? -d : d);
 	}
+	z.endTime = child->z.endTime;
 	return z.front().value;
 }
 
@@ -49,8 +51,11 @@ double plus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL+vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL+vR, dL+dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -67,8 +72,11 @@ double minus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL-vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL-vR, dL-dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -85,8 +93,11 @@ double mult_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL*vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL*vR, dL*vR+vL*dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
-- 
2.43.0


From d4612f349179721e3a2b50aa080eb12c4212c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 07/17] fix: multiplication binds tighter than addition in
 signal expressions

---
 include/stl_parser.h |  2 +-
 src/stl_parser.cpp   | 68 +++++++++++++++++++++++---------------------
 src/stl_parser.ypp   |  6 ++--
 3 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/include/stl_parser.h b/include/stl_parser.h
index 3818c79..2776290 100644
--- a/include/stl_parser.h
+++ b/include/stl_parser.h
@@ -506,7 +506,7 @@ namespace STLRom {
     enum
     {
       yyeof_ = 0,
-      yylast_ = 136,     ///< Last index in yytable_.
+      yylast_ = 143,     ///< Last index in yytable_.
       yynnts_ = 29,  ///< Number of nonterminal symbols.
       yyfinal_ = 22, ///< Termination state number.
       yyterror_ = 1,
diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..3a5439e 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1527,19 +1527,19 @@ namespace STLRom {
   Parser::yypact_[] =
   {
      -16,    -4,    38,   -20,    41,   -84,    28,   -84,   -84,   -84,
-       2,    26,    48,   -84,    75,   -84,   -84,   -84,    83,    54,
-      25,    12,   -84,   -84,   -84,   -84,    71,    72,    -4,    38,
-      67,    25,    25,   101,   101,   100,   -84,   -84,   -84,   103,
-     -84,   -84,   -84,   -84,   -84,    74,    27,   -84,    78,   102,
-     102,   -84,   -19,   -84,   -84,   -84,   -84,    91,    45,    64,
-      10,    47,    25,    25,    35,    93,    19,    19,    19,   -84,
-     -84,    35,    25,    25,    25,   101,    30,    73,   -84,   -84,
-     -84,    80,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
-     105,   109,   -84,   -84,   -84,   -84,     0,     0,     0,    25,
-      76,    77,   -84,     1,    25,    99,    47,   113,   112,   -84,
-     -84,   -84,    89,    90,   -84,    30,    70,    56,   117,   -84,
-     -84,   -84,   -84,    86,   -84,   -84,   -84,   -84,   106,    88,
-     108,    56,    87,   -84
+       2,    26,    48,   -84,    79,   -84,   -84,   -84,    80,    61,
+      25,    12,   -84,   -84,   -84,   -84,    69,    71,    -4,    38,
+      66,    25,    25,    97,    97,    98,   -84,   -84,   -84,   101,
+     -84,   -84,   -84,   -84,    83,    57,    27,   -84,    78,   102,
+     102,   -84,   -19,   -84,   -84,   -84,   -84,    89,    45,    64,
+      10,    53,    25,    25,    35,    92,    19,    35,    35,   -84,
+     -84,    35,    25,    25,    25,    97,    30,    72,   -84,   -84,
+     -84,    82,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
+     103,   106,   -84,    83,    83,   -84,     0,     0,     0,    25,
+      75,    76,   -84,     1,    25,    99,    53,   111,   112,   -84,
+     -84,   -84,    87,    90,   -84,    30,    70,    67,   115,   -84,
+     -84,   -84,   -84,    85,   -84,   -84,   -84,   -84,   105,    88,
+     108,    67,    86,   -84
   };
 
   const unsigned char
@@ -1554,7 +1554,7 @@ namespace STLRom {
       24,     0,     0,     0,     0,     0,     0,     0,     0,    19,
       20,     0,     0,     0,     0,     0,     0,     0,    55,    58,
       56,     0,     9,    31,     2,     3,     0,    29,    28,     0,
-       0,     0,    15,    16,    13,    18,    25,    26,    27,     0,
+       0,     0,    13,    15,    16,    18,    25,    26,    27,     0,
        0,     0,    45,     0,     0,     0,     0,     0,     0,    11,
        6,    30,     0,     0,    48,     0,     0,     0,     0,    22,
       43,    44,    46,     0,    36,    37,    35,    21,     0,     0,
@@ -1564,9 +1564,9 @@ namespace STLRom {
   const signed char
   Parser::yypgoto_[] =
   {
-     -84,   -83,   -84,   -84,    31,   -84,   -84,   -84,   -27,   -84,
-     -84,   -29,   -31,   116,   -84,    -3,   104,   -84,   119,    15,
-     -84,    81,   107,   -84,   -84,    82,   -84,   123,   -84
+     -84,   -83,   -84,   -84,    62,   -84,    24,   -84,   -27,   -84,
+     -84,   -29,   -31,   113,   -84,    -2,   104,   -84,   117,    15,
+     -84,    81,   107,   -84,   -84,    91,   -84,   123,   -84
   };
 
   const signed char
@@ -1587,13 +1587,14 @@ namespace STLRom {
       89,    96,    97,    98,    95,    49,    99,    50,    35,    36,
       37,    82,    69,    39,    70,    36,    37,    38,    35,    39,
       20,   100,   108,   101,    26,    36,    37,    21,   111,    39,
-      83,    15,    16,   116,    72,    73,    74,    84,    85,    75,
-      72,    73,    74,   124,   125,    75,    27,   123,    72,    73,
-      74,    30,    28,    75,    66,    67,    68,    92,    93,    94,
-      29,    53,    54,    57,    61,    64,    65,    76,    81,    91,
-     105,   109,   104,   110,   112,   113,   117,   119,    82,   120,
-     121,   127,   128,   129,   130,   131,    23,   133,   132,    24,
-     122,    78,    55,    25,    80,     0,    56
+      83,    15,    16,   116,    72,    73,    74,    67,    68,    75,
+      72,    73,    74,    84,    85,    75,    27,   123,    72,    73,
+      74,    93,    94,    75,   124,   125,    28,    29,    30,    53,
+      61,    54,    57,    64,    65,    66,    81,    76,    91,   109,
+     110,   104,   105,   112,   113,   119,   117,   120,    82,   127,
+     121,   128,   129,    23,   130,   131,   133,    24,    92,   132,
+     122,    78,    55,    25,     0,     0,    56,     0,     0,     0,
+       0,     0,     0,    80
   };
 
   const short int
@@ -1606,13 +1607,14 @@ namespace STLRom {
        5,    72,    73,    74,    71,    33,    75,    35,    23,    30,
       31,     6,     7,    34,     9,    30,    31,    32,    23,    34,
       19,    31,    89,    33,    38,    30,    31,    39,    99,    34,
-       6,    33,    34,   104,    10,    11,    12,    30,    31,    15,
-      10,    11,    12,    27,    28,    15,    38,    17,    10,    11,
-      12,    37,    17,    15,    20,    21,    22,    66,    67,    68,
-      17,    30,    30,    36,     3,     5,     3,     5,    17,    16,
-      30,     6,    39,     4,    38,    38,    17,     4,     6,    30,
-      30,     4,    36,    17,    36,    17,    10,    40,   131,    10,
-     115,    50,    28,    10,    52,    -1,    29
+       6,    33,    34,   104,    10,    11,    12,    20,    21,    15,
+      10,    11,    12,    30,    31,    15,    38,    17,    10,    11,
+      12,    67,    68,    15,    27,    28,    17,    17,    37,    30,
+       3,    30,    36,     5,     3,    22,    17,     5,    16,     6,
+       4,    39,    30,    38,    38,     4,    17,    30,     6,     4,
+      30,    36,    17,    10,    36,    17,    40,    10,    66,   131,
+     115,    50,    28,    10,    -1,    -1,    29,    -1,    -1,    -1,
+      -1,    -1,    -1,    52
   };
 
   const unsigned char
@@ -1624,10 +1626,10 @@ namespace STLRom {
       37,     5,     8,    13,    14,    23,    30,    31,    32,    34,
       43,    44,    45,    46,    47,    48,    49,    50,    53,    33,
       35,    66,    67,    30,    30,    57,    63,    36,    49,    53,
-      53,     3,    52,    52,     5,     3,    20,    21,    22,     7,
+      53,     3,    52,    52,     5,     3,    22,    20,    21,     7,
        9,    51,    10,    11,    12,    15,     5,    62,    62,    40,
       66,    17,     6,     6,    30,    31,    42,    53,    53,     5,
-      49,    16,    45,    45,    45,    49,    53,    53,    53,    52,
+      49,    16,    45,    47,    47,    49,    53,    53,    53,    52,
       31,    33,    60,    61,    39,    30,    17,    42,    49,     6,
        4,    53,    38,    38,     6,    17,    53,    17,    42,     4,
       30,    30,    60,    17,    27,    28,    56,     4,    36,    17,
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..b37cae4 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -228,7 +228,7 @@ signal_multexpr : signal_unaryexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr MULT signal_atom
+        | signal_multexpr MULT signal_atom
           {
 	      $$ = new mult_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -241,7 +241,7 @@ signal_addexpr : signal_multexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr PLUS signal_atom
+        | signal_addexpr PLUS signal_multexpr
           {
 	      $$ = new plus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -249,7 +249,7 @@ signal_addexpr : signal_multexpr
           $$->signal_map = driver.signal_map;
 
           }
-        | signal_addexpr MINUS signal_atom
+        | signal_addexpr MINUS signal_multexpr
           {
 	      $$ = new minus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
-- 
2.43.0


From 44659feffa9f48bcc3faafe22077be3cae7c6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 08/17] fix: time robustness at a zero of the signal and on a
 single sample

---
 src/robustness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index f47f15d..abb3914 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -30,7 +30,7 @@ void Signal::compute_boolean(const Signal &y) {
 		else 
 			next_time = next_i->time;
 		
-		if (v>0.) {
+		if ((v>0.)||((v==0.)&&(d>0.))) {
 			push_back(Sample(i->time, 1. , 0.));
 			if (d<0.) {
 				double t_zero_cross = i->time-v/d;
@@ -48,7 +48,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size()>1 && back().time == endTime) {
 		pop_back();
 	}
 }
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From aea379b7924d245bce0df577f22fe5297ea315b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 09/17] fix: a trace written to a file reads back as the same
 trace

---
 src/stl_driver.cpp |  1 +
 src/tools.cpp      | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..18d1ecf 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -568,6 +568,7 @@ namespace STLRom
 		ofs.open(filename.c_str(), std::ofstream::out);
 		if (ofs.is_open())
 		{
+			ofs.precision(17); // enough digits to read back the same values
 			for (auto ii = data.begin(); ii != data.end(); ii++)
 			{
 				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..0d6da22 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,15 +115,15 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
-			double val;
-			reader >> val;
+		double val;
+		while (reader >> val) {
 			lineData.push_back(val);
 		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From 55ded19775d791c69128abcdf496184c62d86546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 10/17] fix: listing the signal names of a driver without
 signals

---
 src/tools.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 0d6da22..4ad7765 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -45,7 +45,9 @@ string signal_map_to_string(map<string, int> signal_map)
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
-		string signames[n_signals];
+		if (n_signals == 0)
+			return "";
+		vector<string> signames(n_signals);
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
 		for (const auto &ii : signal_map)
-- 
2.43.0


From d04b98bdc7f9181a039baa4e078a553065735c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 11/17] fix: stl_test owns its formula (double deletion by
 clear and by copies of a driver)

---
 include/stl_driver.h | 23 +++++++++++++++++++++++
 src/stl_driver.cpp   | 27 +--------------------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..45431fb 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,29 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error) {
+                                          };
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                test_id = other.test_id;
+                param_map = other.param_map;
+                delete formula;
+                formula = other.formula ? other.formula->clone() : nullptr;
+                report_positive = other.report_positive;
+                report_negative = other.report_negative;
+                is_error = other.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 18d1ecf..71b65c2 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -206,30 +206,10 @@ namespace STLRom
 			}
 		}
 
-		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
-		{
-			if (stest->second.formula != 0)
-			{
-				delete stest->second.formula;
-				stest->second.formula = 0;
-			}
-		}
-
 		formula_map.clear();
 		param_map.clear();
 		stl_test_map.clear();
-
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -402,7 +382,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -428,7 +407,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -451,10 +429,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From ff839d1ab96a6c618828b9984b88507347461f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 12/17] fix: stl_tests are evaluated on the trace, with their
 parameters

---
 src/stl_driver.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 71b65c2..12fee3c 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -268,12 +268,15 @@ namespace STLRom
 	void STLDriver::dump()
 	{
 
-		// transducer::param_map = param_map; FIXME
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			formula->second->reset();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
@@ -293,19 +296,20 @@ namespace STLRom
 
 			report.append("stl_test " + trace_test_queue.front().id + "\n");
 
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
 
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
+				// global parameters, overridden by the local ones
+				map<string, double> test_param_map = curr_test->param_map;
+				test_param_map.insert(param_map.begin(), param_map.end());
 
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(test_param_map);
+				formula->reset();
+				formula->set_horizon(0., 0.);
 				double rob = formula->compute_robustness();
 
 				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
@@ -332,9 +336,9 @@ namespace STLRom
 				formula = get_next_formula();
 				curr_test = get_next_stl_test();
 			}
+			trace_test_queue.pop_front();
 		}
 		report += "\n";
-		trace_test_queue.pop_front();
 		return error_flag;
 	}
 
-- 
2.43.0


From 13b6a12c6806287d80ae0acb52d18b90a7746e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 13/17] fix: the signal of a monitor without formula is empty

---
 include/stl_monitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..da96375 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -247,7 +247,7 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
-            return formula->get_signal();
+            return formula ? formula->get_signal() : Signal();
         }
 
         // display stuff
-- 
2.43.0


From 7edf4171e08f139afc27c17cd95e019f518065f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 14/17] fix: eventually inside a segment that begins before the
 part considered

The instant at which the leftmost, decreasing segment reaches the maximum of
the rest was computed from the start of the part considered instead of the
start of the segment. Until with linear interpolation was wrong when its
operands have different sample times.
---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index abb3914..c2577ba 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1135,7 +1135,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From 16b39aa07dcd74a761ead5dc447f16b29412aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 15/17] fix: simplify goes around the signal once

It stopped at the first sample whose time is beginTime. When rounding gives
the second sample that time too, the samples were left out of order and the
robustness was wrong.
---
 src/signal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 89714ea..14dcea8 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,9 +124,11 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        // go around once; rounding may give several samples the time beginTime
+        size_t n = size();
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
+        for (size_t k = 1; k < n; k++) {
             if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
-- 
2.43.0


From f0fa4b2945a330306abb68eb4d292d951b247617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 16/17] fix: the crossing of two segments lies inside them

Rounding may put the computed instant outside of the segments, or divide by
zero when the segments have the same slope and nearly the same value: and, or
and until then gave a signal out of order or NaN, and a wrong robustness.
---
 src/robustness.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index c2577ba..2adfb24 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -848,6 +848,15 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
  *                         CONJUNCTION SUBROUTINES                           *
  *---------------------------------------------------------------------------*/
 
+//time in [s, t] at which i and j cross: rounding may move it outside of this
+//interval, or make it undefined when i and j have the same derivative
+static double crossing(const Sample & i, const Sample & j, double s, double t) {
+	double c = i.timeIntersect(j);
+	if (!(c <= t))
+		return t;
+	return c < s ? s : c;
+}
+
 //PRECONDITIONS: j->time < t, i.time < t.
 //POSTCONDITIONS: j->time <= i.time.
 void computeSegmentAnd(Signal * z, const Sample & i, double t,
@@ -859,7 +868,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -879,7 +888,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -902,7 +911,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -922,7 +931,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -970,7 +979,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -990,7 +999,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1013,7 +1022,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1033,7 +1042,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From b9e24c79b703daa29968e34125ba3b963e4358ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:38 +0000
Subject: [PATCH 17/17] fix: untimed eventually and until start from an empty
 result

---
 src/robustness.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 2adfb24..6aeb370 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -179,6 +179,7 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
@@ -211,6 +212,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		return;
 	}
 
+	clear();
 	double s, t;
 	double z_max = BOTTOM;
 
-- 
2.43.0

