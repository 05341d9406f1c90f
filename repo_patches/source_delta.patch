From 48a5f314bd40861ce0b60e474511b0631c72dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 01/42] fix: single-path adders rounded 2^k - y the wrong way
 at an exponent gap of F+2

The smaller operand was treated as shifted out one position too early, so
the guard and round bits needed after the one bit renormalisation were lost.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index f0ddef3..d2b5c46 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -310,7 +310,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index a7722f7..340aaab 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -244,7 +244,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a85454c..68837c3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -279,7 +279,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 64c1eb1..805498a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -300,7 +300,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b8e6c84..22de0ed 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -140,7 +140,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
-- 
2.43.0


From 65176d5bca2a0f1a99c1021dc928ee228e296611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 02/42] fix: single-path adders aborted on the alignment shift
 when the exponent is narrow

With wE <= log2(wF+3) the shift distance was not clamped, so it could reach the
width of the shifted value; and with a special operand a negative exponent
difference did not fit the shift count.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 8 ++------
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 7 ++-----
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 7 ++-----
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 8 ++------
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 7 ++-----
 5 files changed, 10 insertions(+), 27 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d2b5c46..b1c5dcd 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -320,18 +320,14 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 340aaab..f91d4e7 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -250,14 +250,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 68837c3..0ed8be9 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -285,14 +285,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 805498a..82c526c 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -310,18 +310,14 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 22de0ed..ee5f179 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -145,14 +145,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
-- 
2.43.0


From 6e560f5da4de1f90c1211285fb909722a4e22084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 03/42] fix: dual-path adder aborted for 61 fraction bits when
 the exponent gap was 126 or 127

---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index 571d523..b63f3c0 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -347,7 +347,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
     // HACK: This is a complete hack to get very specific widths to
     // pass. It has a small cost, but seems to be benign   
     // TODO: WTF is going on here?
-    static const int pad1=(wF==5 || wF==13 || wF==29) ? 2 : 0;
+    static const int pad1=(wF==5 || wF==13 || wF==29 || wF==61) ? 2 : 0;
     auto preFracNewY=zpad_lo<wF+3+pad1>(fracNewY);
     //sstd::cerr<<"shiftVal="<<shiftVal<<", pad="<<pad1<<"\n";
     fw_uint<2*wF+4+pad1> shiftedFracYp = preFracNewY >> shiftVal.to_int();    
-- 
2.43.0


From f071133bf19acc1767bc47908547ad4c6fbf321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/42] fix: count-leading-zeros adder header could not be
 included in two translation units and called __builtin_clz(0)

---
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 0ed8be9..cc6d43e 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -111,7 +111,7 @@ THLS_INLINE void LZOCShifter(fw_uint<WD> &out, fw_uint<WC> &count, const fw_uint
 
 THLS_INLINE fw_uint<3> clz(const fw_uint<8> &x)
 {
-    return fw_uint<3>(0x7&__builtin_clz(0xFF & x.to_int()));
+    return fw_uint<3>(0x7&__builtin_clz(0x1 | (0xFF & x.to_int())));
 }
 
 THLS_INLINE fw_uint<1> non_zero(const fw_uint<8> &x)
@@ -123,7 +123,7 @@ THLS_INLINE fw_uint<1> non_zero(const fw_uint<8> &x)
 
 
 
-void LZOCShifterCLZ(fw_uint<32> &out, fw_uint<5> &count, fw_uint<1> &isZero, const fw_uint<32> &x0)
+THLS_INLINE void LZOCShifterCLZ(fw_uint<32> &out, fw_uint<5> &count, fw_uint<1> &isZero, const fw_uint<32> &x0)
 {
     auto lz0=clz(get_bits<31,24>(x0));
     auto nz0=non_zero(get_bits<31,24>(x0));
-- 
2.43.0


From 7780ba9e327eace95ab16a432d62392c0ee5743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 05/42] fix: single-path adders returned infinity for exact
 cancellation when the exponent is narrow and the fraction wide

The zero test looked at the class after exponent wrap-around instead of the
class of the operands.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index b1c5dcd..d37ec86 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -576,7 +576,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     //vhdl<<tab<<declare("signR2") << " <= '0' when (eqdiffsign='1' and EffSub='1') else signR;"<<endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index f91d4e7..7ecbb6a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -396,7 +396,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index cc6d43e..04c3c1f 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -442,7 +442,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 82c526c..9d5c299 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -549,7 +549,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO - I think it should be NaN
     // TODO
     //auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
-    auto excR = select( concat(eqdiffsign,EffSub,excRt2)==cg<4>(0b1101), zg<2>(), excRt2);
+    auto excR = select( concat(eqdiffsign,EffSub,excRt)==cg<4>(0b1101), zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     //vhdl<<tab<<declare("signR2") << " <= '0' when (eqdiffsign='1' and EffSub='1') else signR;"<<endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index ee5f179..f8a399a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -296,7 +296,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
-- 
2.43.0


From 0b6f7c1148ea6bb4164dd9bcbe8f58eeec143c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 06/42] fix: add_single_v4 added the round bit only in the one
 case where it must not

---
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 9d5c299..26e5d6f 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -481,7 +481,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     /*auto addToRoundBit = select(
         lsb==0 && grd==1 && rnd==0 && stk==0, zg<1>(),
         og<1>());*/
-    auto addToRoundBit = concat(lsb,grd,rnd,stk) ==cg<4>(0b0100);
+    auto addToRoundBit = concat(lsb,grd,rnd,stk) !=cg<4>(0b0100);
     //round
 
     //IntAdder *ra = new IntAdder(target, wE+2+wF+1, inDelayMap("X", getCriticalPath() ) );
-- 
2.43.0


From 797215820ba9cb9d1886f06bd00c32ee302fe1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 07/42] fix: multiplier with an exact-width result returned NaN
 on underflow

---
 include/thls/tops/fp_flopoco_mul_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_mul_v1.hpp b/include/thls/tops/fp_flopoco_mul_v1.hpp
index fbb3c99..90c5282 100644
--- a/include/thls/tops/fp_flopoco_mul_v1.hpp
+++ b/include/thls/tops/fp_flopoco_mul_v1.hpp
@@ -107,7 +107,7 @@ THLS_INLINE fp_flopoco<wER,wFR> mul_v1(const fp_flopoco<wEX,wFX> &x, const fp_fl
         fw_uint<2> excPostNorm = select(
             expPostNormB==0b00, fw_uint<2>(0b01),
             expPostNormB==0b01, fw_uint<2>(0b10),
-            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b11),
+            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b00),
             fw_uint<2>(0b11)// Impossible last case?
         ); 
 
-- 
2.43.0


From 7cda5931ab6d3fdae0cbbd490336557b678062df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 08/42] fix: inv aborted because the constant one was written
 in octal

---
 include/thls/tops/fp_flopoco_inv_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_v1.hpp b/include/thls/tops/fp_flopoco_inv_v1.hpp
index bf2285f..5e05e49 100644
--- a/include/thls/tops/fp_flopoco_inv_v1.hpp
+++ b/include/thls/tops/fp_flopoco_inv_v1.hpp
@@ -34,7 +34,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_v1(const fp_flopoco<wEY,wFY> &y, int DEBUG)
     static const int wE=wEY;
     static const int wF=wFY;
 
-    auto X=concat(cg<4>(0100),og<wE-1>(),zg<wF>());
+    auto X=concat(cg<4>(0b0100),og<wE-1>(),zg<wF>());
     auto Y=y.bits;
 
 
-- 
2.43.0


From f122beae176a50563455a23faef49a535f790d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 09/42] fix: inv_faithful did not compile for small fraction
 widths

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 97b3b17..1421a81 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -318,7 +318,7 @@ namespace thls
     {
         template<int LSBR,int LSBY>
         static fw_fix<0,LSBR> go(const fw_fix<0,LSBY> &x)
-        { return inv_frac_direct_table<LSBR>(x); }
+        { return inv_frac_direct_table<0,LSBR,0,LSBY>(x); }
     };
 
     template<>
-- 
2.43.0


From daf6bf216d229480f42de24560decfeed026aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 10/42] fix: inv_faithful and inv_direct wrapped the exponent
 when the reciprocal underflows or rounds up to a power of two

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 1421a81..ce2145a 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -380,7 +380,8 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         flags=fw_uint<2>(0b10);
         break;
     case 1:
-        if((y.get_exp_bits()==og<wEY>()).to_bool()){
+        if((y.get_exp_bits()==og<wEY>()).to_bool()
+            || ((y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !take_msb(frac_out_fix.bits).to_bool())){
             flags=fw_uint<2>(0b00);
         }else {
             flags = fw_uint<2>(0b01);
@@ -410,7 +411,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         auto frac_out_fix=inv_frac_direct_table<0,-wFR-1,0,-wFY>(frac_in_fix);
         fw_uint<wFR> frac=take_lsbs<wFR>(frac_out_fix.bits);
         fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
-        if((y.get_frac_bits()==zg<wFY>()).to_bool()){
+        if(take_msb(frac_out_fix.bits).to_bool()){
             exp=exp+fw_uint<wER>(1);
         }
 
@@ -419,7 +420,8 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
                 flags=fw_uint<2>(0b10);
                 break;
             case 1:
-                if((y.get_exp_bits()==og<wEY>()).to_bool()){
+                if((y.get_exp_bits()==og<wEY>()).to_bool()
+                    || ((y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !take_msb(frac_out_fix.bits).to_bool())){
                     flags=fw_uint<2>(0b00);
                 }else {
                     flags = fw_uint<2>(0b01);
-- 
2.43.0


From b92f0718307c0ade0178bf31529e3925d2519845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 11/42] fix: nextdown skipped a binade when stepping across a
 power of two

---
 include/thls/tops/fp_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..2ebeadc 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -451,7 +451,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==zg<FracBits>(),
                 select(x.get_exp_bits()==zg<ExpBits>(),
                     traits::pos_zero(),
-                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,zg<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,og<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits(),x.get_frac_bits()-1))
             ),
@@ -463,7 +463,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==og<FracBits>(),
                 select(x.get_exp_bits()==og<ExpBits>(),
                     traits::neg_infinity(),
-                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,og<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,zg<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits(),x.get_frac_bits()+1))
             ),
-- 
2.43.0


From cf0b528b6e9e3e4edfcf33cbbdc11beceb8a8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 12/42] fix: to_double negated an unsigned integer, so negative
 values came out as huge positive ones

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 2ebeadc..ca2d4ef 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1000,7 +1000,7 @@ double fp_flopoco<ExpBits,FracBits>::to_double() const
     if(is_zero().to_bool()){
         return is_negative().to_bool() ? neg_zero : pos_zero;
     }else if(is_normal().to_bool()){
-        uint64_t frac=concat(og<1>(), get_frac_bits()).to_uint64();
+        double frac=concat(og<1>(), get_frac_bits()).to_uint64();
         if(is_negative().to_bool()){
             frac=-frac;
         }
-- 
2.43.0


From 3690df85270271521ec0455b96e8faa09733de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 13/42] fix: conversion from double turned infinities into nan
 and lost the sign of zero

---
 include/thls/tops/fp_flopoco.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index ca2d4ef..6afb90e 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -51,7 +51,7 @@ struct fp_flopoco
     explicit fp_flopoco(double x)
     {
         fw_uint<1> sign(0);
-        if(x<0){
+        if(std::signbit(x)){
             sign=fw_uint<1>(1);
             x=-x;
         }
@@ -59,7 +59,9 @@ struct fp_flopoco
         fw_uint<ExpBits> exp(0);
         fw_uint<FracBits> frac(0);
         switch(std::fpclassify(x)){
-        case FP_INFINITE:  ;
+        case FP_INFINITE:
+            flags=fw_uint<2>(0b10);
+            break;
         case FP_NAN:
             flags=fw_uint<2>(0b11);
             break;
-- 
2.43.0


From b3f6f45950e1193076cba2bcad8f8284e3cd9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 14/42] fix: extraction to mpfr applied the rounding mode to
 the magnitude, so directed modes went the wrong way for negative numbers

---
 include/thls/tops/fp_flopoco.hpp | 6 +++---
 include/thls/tops/fp_ieee.hpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 6afb90e..a52db5e 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -603,12 +603,12 @@ void fp_flopoco<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(negative.to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits);
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..cf4e884 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -392,12 +392,12 @@ void fp_ieee<ExpBits,FracBits>::get(mpfr_t dst, mpfr_rnd_t mode) const
         int e=get_bits<FracBits+ExpBits-1,FracBits>(bits).to_int();
         e=e-FracBits-traits::bias; // Move from fraction to integer
 
-        mpfr_set_z_2exp(dst, fracBits, e, mode);
-
         if(is_negative().to_bool()){
-            mpfr_mul_si(dst, dst, -1, MPFR_RNDN);
+            mpz_neg(fracBits, fracBits);
         }
 
+        mpfr_set_z_2exp(dst, fracBits, e, mode);
+
         mpz_clear(fracBits);
     }
 
-- 
2.43.0


From 1ec1289d61a510ada0654db5577a39fbbe742809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 15/42] fix: ref_inv and ref_inv_faithful leaked an mpfr
 variable per call

---
 include/thls/tops/fp_flopoco.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index a52db5e..fa82a28 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -754,6 +754,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
     fp_flopoco<ER,FR> res(mr,true);
 
     mpfr_clear(ma);
+    mpfr_clear(mb);
     mpfr_clear(mr);
 
     return res;
@@ -777,6 +778,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
         r2=fp_flopoco<ER,FR>(mr,true);
 
         mpfr_clear(ma);
+        mpfr_clear(mb);
         mpfr_clear(mr);
 
     }
-- 
2.43.0


From b888fa8accd44ebebb2263ddf795ef03c2f64287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 16/42] fix: random test source could produce a disabled class
 when the draw was exactly zero

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index fa82a28..ddafda1 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1146,7 +1146,7 @@ public:
         double u=m_udist(rng) * class_cdf.back();
         unsigned sel;
         for(sel=0; sel<class_cdf.size(); sel++){
-            if( u <= class_cdf[sel] ){
+            if( u < class_cdf[sel] ){
                 break;
             }
         }
-- 
2.43.0


From db7b2977294fa1cbe4c2d508c33d960ba1628768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 17/42] fix: ordering compared the arbitrary exponent and
 fraction bits of infinities

---
 include/thls/tops/fp_flopoco_ordering.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/thls/tops/fp_flopoco_ordering.hpp b/include/thls/tops/fp_flopoco_ordering.hpp
index a8cf000..5f5da5f 100644
--- a/include/thls/tops/fp_flopoco_ordering.hpp
+++ b/include/thls/tops/fp_flopoco_ordering.hpp
@@ -28,6 +28,8 @@ THLS_INLINE fw_uint<1> equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<wEB,
             zg<1>(), // Flags must be the same 
         na.is_zero(),
             og<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()==nb.get_sign(), // Exponent and fraction of infinities are arbitrary
         // else
             na.get_sign()==nb.get_sign() && na.get_exp_frac_bits()==nb.get_exp_frac_bits()
     );
@@ -50,6 +52,8 @@ THLS_INLINE fw_uint<1> not_equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             og<1>(), // Flags must be the same
         na.is_zero(),
             zg<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()!=nb.get_sign(), // Exponent and fraction of infinities are arbitrary
         // else
             na.get_sign() != nb.get_sign() || na.get_exp_frac_bits()!=nb.get_exp_frac_bits()
     );
@@ -78,6 +82,8 @@ THLS_INLINE fw_uint<1> less_than(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_negative(), // If different signs, first must be negative for less than
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(),  // Infinities of the same sign are equal
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()>nb.get_flags_exp_frac_bits(),
@@ -107,6 +113,8 @@ THLS_INLINE fw_uint<1> less_than_equal(const fp_flopoco<wEA,wFA> &a, const fp_fl
         // Pre: neither is nan, both are not zero
         na.is_negative() ^ nb.is_negative(),
             na.is_negative(), // If different signs, first must be negative for less than equal
+        (na.is_inf() & nb.is_inf()),
+            og<1>(),  // Infinities of the same sign are equal
         // Pre: not nan, not _both_ zero, same sign
         na.is_negative(),
             na.get_flags_exp_frac_bits()>=nb.get_flags_exp_frac_bits(),
@@ -133,6 +141,8 @@ THLS_INLINE fw_uint<1> greater_than(const fp_flopoco<wEA,wFA> &a, const fp_flopo
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be negative for greater than
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(),  // Infinities of the same sign are equal
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<nb.get_flags_exp_frac_bits(),
@@ -159,6 +169,8 @@ THLS_INLINE fw_uint<1> greater_than_equal(const fp_flopoco<wEA,wFA> &a, const fp
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be positive for greater than equal
+            (na.is_inf() & nb.is_inf()),
+                og<1>(),  // Infinities of the same sign are equal
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<=nb.get_flags_exp_frac_bits(),
-- 
2.43.0


From dd02f5b829430789954667e96fb1ef70fec8e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 18/42] fix: narrowing the fraction turned zeros and nans with
 all-ones payload bits into infinity

---
 include/thls/tops/fp_convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_convert.hpp b/include/thls/tops/fp_convert.hpp
index 5c3da9a..6a1295e 100644
--- a/include/thls/tops/fp_convert.hpp
+++ b/include/thls/tops/fp_convert.hpp
@@ -153,7 +153,7 @@ void convert(fp_flopoco<ER,FR> &dst, const fp_flopoco<EX,FX> &src)
         const int ADJ = (1<<(ER-1)) - (1<<(EX-1));
         rExp = checked_cast<ER>(zpad_hi<ER-EX>(xExp)) + fw_uint<ER>(ADJ) + zpad_hi<ER-1>(fracWrappedUp);
     }else if(ER == EX){
-        if( (fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
+        if( (src.is_normal() & fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
             rFlags=fw_uint<2>(0b10); // infinity
         }
         rExp = checked_cast<ER>( xExp ) + zpad_hi<ER-1>(fracWrappedUp);
-- 
2.43.0


From 99a3498b7c2ac4e82fdf40c13bda99c75f904676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 19/42] fix: promotion from ieee to flopoco of the same width
 returned a reference to a temporary

---
 include/thls/tops/fp_promote.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..906bc57 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -126,7 +126,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0


From 3a697baa4d17fae13d304ce1be675069213e7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 20/42] fix: promotion from ieee to a wider flopoco type did
 not compile

---
 include/thls/tops/fp_promote.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 906bc57..4f5d0a3 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -77,7 +77,7 @@ namespace detail
         
         static fp_flopoco<DstE,DstF> to_flopoco(const fp_ieee<SrcE,SrcF> &src)
         {
-            return fp_ieee<DstE,DstF>(
+            return fp_flopoco<DstE,DstF>(
                 concat(
                     src.get_flags(),
                     src.get_sign(),
-- 
2.43.0


From ba1e79e912f557f5fff52fe4d67139f9ec1563d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 21/42] fix: promotion between ieee widths turned zeros,
 infinities and nans into normal numbers

---
 include/thls/tops/fp_promote.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 4f5d0a3..518ef48 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -69,7 +69,14 @@ namespace detail
             return fp_ieee<DstE,DstF>(
                 concat(
                     src.get_sign(),
-                    promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
+                    select(
+                        src.is_zero(),
+                            zg<DstE>(),
+                        src.is_inf() | src.is_nan(),
+                            og<DstE>(),
+                        // default: normal
+                            promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits())
+                    ),
                     promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
                 )
             );
-- 
2.43.0


From fa9bd187f10e8e447d22c9f438558016d744b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 22/42] fix: dot4_pos_rndd lost the carry of truncated terms
 into a long run of ones

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 082d7c3..6f134dc 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -227,7 +227,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto shift3=x0_exp-x3_exp;
 
     const int WAB=2*WF;
-    const int PAD_LOW=2*WAB-1;
+    const int PAD_LOW=2*WAB+4; // Truncated terms can carry out of a run of ones as long as this allows
 
     auto x0_frac_full=concat(zg<2>(), x0_frac, zg<PAD_LOW>());
     auto x1_frac_full=concat(zg<2>(), x1_frac, zg<PAD_LOW>());
-- 
2.43.0


From b3fec0ce297d89395c35842d398c7bb327957a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 23/42] fix: dot2 and dot4 headers shared an include guard, so
 the second one included was dropped

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 6f134dc..888da1e 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -1,5 +1,5 @@
-#ifndef dot2_pos_hpp
-#define dot2_pos_hpp
+#ifndef dot4_pos_hpp
+#define dot4_pos_hpp
 
 #include "fp_flopoco.hpp"
 
-- 
2.43.0


From 77863545d53edc840632be2e4f890af81d6885ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 24/42] fix: fw_uint operator|(int) aborted when the integer
 was the all-ones value of the width

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..531fcc8 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -595,7 +595,7 @@ struct fw_uint
 
     THLS_INLINE fw_uint operator|(int b) const
     {
-        assert(b>=0 && b< MASK());
+        assert(b>=0 && bits_t(b) <= MASK());
         return fw_uint( bits_t(bits|b) & MASK(), detail::init_from_bits());
     }
 
-- 
2.43.0


From 2a806c750ff2dcaa29c1d446b37a3d1a99c30dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 25/42] fix: fw_uint wider than 64 bits could not be
 constructed from a string

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index 531fcc8..5b172c1 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -439,11 +439,19 @@ struct fw_uint
                 throw std::runtime_error("Unexpected trailing characgers in binary string.");
             }
         }else{
-            std::stringstream tmp;
-            tmp<<std::string(value);
-            tmp>>bits;
-            assert( bits<= MASK());
-            bits=bits&MASK();
+            // There is no stream extraction for 128-bit integers, so convert digit by digit
+            bits=0;
+            if(*value==0){
+                throw std::runtime_error("Empty decimal string.");
+            }
+            for(const char *read=value; *read!=0; read++){
+                if(*read<'0' || '9'<*read){
+                    throw std::runtime_error("Unexpected character in decimal string.");
+                }
+                bits_t digit=bits_t(*read-'0');
+                assert( digit <= MASK() && bits <= bits_t((MASK()-digit)/bits_t(10)) ); // Must be in range
+                bits=(bits*bits_t(10)+digit)&MASK();
+            }
         }
     }
 #endif
-- 
2.43.0


From ebcd9c5c70e87563ece2a659d281149156855ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 26/42] fix: numeric_limits of fp_ieee returned infinity as
 signalling_NaN

---
 include/thls/tops/fp_ieee.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index cf4e884..8ecf5c5 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -245,7 +245,7 @@ namespace std
         static THLS_CONSTEXPR T signalling_NaN()
         {
             // This just returns a quiet nan (MSB of fraction is one)
-            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::zg<FracBits>()));
+            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::og<FracBits>()));
         }
 
         static THLS_CONSTEXPR T denorm_min()
-- 
2.43.0


From 0285c142e9291929c00f980f8e5d29d730834ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 27/42] fix: conversion from double aborted or lost high bits
 for fractions wider than 31 bits

---
 include/thls/tops/fp_flopoco.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index ddafda1..73c5d7c 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -79,8 +79,10 @@ struct fp_flopoco
                     flags=fw_uint<2>(0b10);
                 }else{
                     assert(1.0<=f && f<2.0);
-                    uint64_t fx=ldexp(f-1.0, FracBits);
-                    frac=fw_uint<FracBits>(fx);
+                    // A double has 52 fraction bits, so a wider fraction ends in zeros
+                    static const int usedBits=thls_ctMin(FracBits,52);
+                    uint64_t fx=ldexp(f-1.0, usedBits);
+                    frac=zpad_lo<FracBits-usedBits>(fw_uint<usedBits>::from_uint64(fx));
                     exp=fw_uint<ExpBits>(e+bias);
                     //std::cerr<<"  x="<<x<<", f="<<f<<", e="<<e<<", fx="<<fx<<", exp="<<exp<<", frac="<<frac<<"\n";
 
-- 
2.43.0


From 6876235d066e72ddff7f1380b3f8592d85c28c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 28/42] fix: to<> from a negative float to flopoco aborted

---
 include/thls/tops/policy_flopoco.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/thls/tops/policy_flopoco.hpp b/include/thls/tops/policy_flopoco.hpp
index 649f153..c8876ce 100644
--- a/include/thls/tops/policy_flopoco.hpp
+++ b/include/thls/tops/policy_flopoco.hpp
@@ -5,6 +5,8 @@
 #include <mpfr.h>
 #endif
 
+#include <string.h>
+
 #include "thls/tops/policy_test.hpp"
 #include "thls/tops/fp_flopoco.hpp"
 #include "thls/tops/fp_flopoco_primitives.hpp"
@@ -242,9 +244,10 @@ struct to_impl<fp_flopoco_wrapper <wE, wF>,TPolicy,float>
         static_assert( (TPolicy&(allow_overflow|allow_underflow)) || (wE>=8), "Conversion could cause under/over-flow" );
         static_assert( (TPolicy&(allow_precision_loss)) || (wF>=23), "Conversion could cause precision loss" );
         
-        fw_uint<32> bits( *(uint32_t*)&src );
+        uint32_t src_bits;
+        memcpy(&src_bits, &src, sizeof(src_bits));
         
-        fp_ieee<8,23> ieee(bits);
+        fp_ieee<8,23> ieee(fw_uint<32>::from_bits(src_bits));
         fp_flopoco<wE,wF> res;
         convert(res,ieee);
         
@@ -266,7 +269,9 @@ struct to_impl<float,TPolicy,fp_flopoco_wrapper <wE, wF>>
         
         uint32_t bits=res.bits.to_uint64();
         
-        return *(float*)&bits;
+        float dst;
+        memcpy(&dst, &bits, sizeof(dst));
+        return dst;
     }
 };
 
-- 
2.43.0


From 625ef4d8271030a86630a206ac8d15820684c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 29/42] fix: to<> between float and flopoco types of other
 widths did not compile

---
 include/thls/tops/policy_flopoco.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/policy_flopoco.hpp b/include/thls/tops/policy_flopoco.hpp
index c8876ce..9d8ab94 100644
--- a/include/thls/tops/policy_flopoco.hpp
+++ b/include/thls/tops/policy_flopoco.hpp
@@ -248,8 +248,11 @@ struct to_impl<fp_flopoco_wrapper <wE, wF>,TPolicy,float>
         memcpy(&src_bits, &src, sizeof(src_bits));
         
         fp_ieee<8,23> ieee(fw_uint<32>::from_bits(src_bits));
+        fp_flopoco<8,23> tmp;
+        convert(tmp,ieee);
+        
         fp_flopoco<wE,wF> res;
-        convert(res,ieee);
+        convert(res,tmp);
         
         return res;
     }
@@ -264,8 +267,11 @@ struct to_impl<float,TPolicy,fp_flopoco_wrapper <wE, wF>>
         static_assert( (TPolicy&(allow_overflow|allow_underflow)) || (wE<=8), "Conversion could cause under/over-flow" );
         static_assert( (TPolicy&(allow_precision_loss)) || (wF<=23), "Conversion could cause precision loss." );
                 
+        fp_flopoco<8,23> tmp;
+        convert(tmp,src.raw);
+        
         fp_ieee<8,23> res;
-        convert(res,src.raw);
+        convert(res,tmp);
         
         uint32_t bits=res.bits.to_uint64();
         
-- 
2.43.0


From 8094db07ea5cb3e0719299b83c0574ed13fd0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 30/42] fix: policies leaked mpfr variables when reporting an
 inexact conversion or a failed comparison

---
 include/thls/tops/policy_native.hpp | 2 ++
 include/thls/tops/policy_test.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/policy_native.hpp b/include/thls/tops/policy_native.hpp
index 2e105fd..ad2bc88 100644
--- a/include/thls/tops/policy_native.hpp
+++ b/include/thls/tops/policy_native.hpp
@@ -26,6 +26,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
@@ -123,6 +124,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
diff --git a/include/thls/tops/policy_test.hpp b/include/thls/tops/policy_test.hpp
index 80ed8f2..fa68831 100644
--- a/include/thls/tops/policy_test.hpp
+++ b/include/thls/tops/policy_test.hpp
@@ -61,6 +61,7 @@ struct policy_concept {
                 mpfr_div(xxR, xxA, x, MPFR_RNDN);
                 mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                 mpfr_clear(xxA);
+                mpfr_clear(xxR);
                 throw std::runtime_error("Conversion is not exact.");
             }
         }
@@ -332,7 +333,7 @@ struct test_policy
                 mpfr_div(tmp2,tmp,ref,MPFR_RNDN);
                 mpfr_fprintf(stderr, "Fail: %s, a=%.Re, b=%.Re, ref=%.Re, got=%.Re,  errA=%.Re, errR=%.Re\n", op.c_str(), inA, inB, ref, gotM, tmp, tmp2);
                 mpfr_clear(tmp);
-
+                mpfr_clear(tmp2);
             }
         }
 
-- 
2.43.0


From 49d02efbceed6e17eec64d1537ed0c4e194d08b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 31/42] fix: str of fp_ieee aborted for fractions wider than 31
 bits

---
 include/thls/tops/fp_ieee.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 8ecf5c5..7292bb5 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -492,7 +492,7 @@ std::string fp_ieee<ExpBits,FracBits>::str() const
         fw_uint<FracBits> frac=get_bits<FracBits-1,0>(bits);
         acc<<" e="<<expnt<<"="<<(expnt.to_int()- (1<<(ExpBits-1))+1);
         
-        acc<<" f="<<frac<<"= (approx)"<<(ldexp(frac.to_int()+ldexp(1,FracBits),-FracBits));
+        acc<<" f="<<frac<<"= (approx)"<<(ldexp(thls::to_double_approx(frac)+ldexp(1,FracBits),-FracBits));
     }else if( is_inf().to_bool() ){
         acc<<select(is_negative(), "-inf" , "+inf");
     }else{
-- 
2.43.0


From 222cb0fbd7a7c1893f1261b9827bebe21c9edd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 32/42] fix: fma flushed results to zero when the result format
 has more exponent bits than the operands

---
 include/thls/tops/fp_flopoco_fma.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_fma.hpp b/include/thls/tops/fp_flopoco_fma.hpp
index 5f66d47..c1b3a43 100644
--- a/include/thls/tops/fp_flopoco_fma.hpp
+++ b/include/thls/tops/fp_flopoco_fma.hpp
@@ -30,7 +30,9 @@ THLS_INLINE fp_flopoco<wER,wFR> fma(const fp_flopoco<wEX,wFX> &x, const fp_flopo
     const int wFXY=wFX+wFY+2;
     auto xy=mul<wEXY,wFXY>(xx,yy, DEBUG);
 
-    const int wEXYZ=wEXY > wEZ ? wEXY : (wEZ+1);
+    // Must also cover the exponents of the result, as the sum can cancel down to
+    // values which are much smaller than both xy and z.
+    const int wEXYZ=thls_ctMax(wEXY > wEZ ? wEXY : (wEZ+1), wER+1);
     const int wFXYZ=thls_ctMax(wFXY,wFZ); // HACK!
 
     fp_flopoco<wEXYZ,wFXYZ> xyxy;
-- 
2.43.0


From c039a711dac6168fa31c32f62355009d2e6b89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 33/42] fix: the dot4 reference aborted when the products are
 far apart

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 888da1e..d301421 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -314,7 +314,8 @@ fp_flopoco<WE,WF> dot4_pos_rndd_ref_large(
     MPFR_DECL_INIT(va, WF+1);
     MPFR_DECL_INIT(vb, WF+1);
     MPFR_DECL_INIT(vab, 2*(WF+1));
-    MPFR_DECL_INIT(vacc, 12*(WF+2)); // NOTE: I think this should be 8 not 12, but that triggers the notExact test.
+    // Products are up to 2*(2^WE-1) binades apart, and all of them must fit for the sum to be exact
+    MPFR_DECL_INIT(vacc, 2*(WF+1)+(2<<WE)+2);
     MPFR_DECL_INIT(vr, WF+1);
 
     int notExact=0;
-- 
2.43.0


From ad36fd86d71d2a76df744536b4f95208b8d0b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 34/42] fix: the dot2 and dot4 references used doubles for
 formats whose exponents exceed those of doubles

---
 include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp | 2 +-
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index cd48863..ccfe2ba 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -238,7 +238,7 @@ fp_flopoco<WE,WF> dot2_pos_rndd_ref(
     const fp_flopoco<WE,WF> &b0,
     const fp_flopoco<WE,WF> &b1
 ){
-    if((WF+1)*4 < 52){
+    if(WE<=10 && (WF+1)*4 < 52){ // doubles must cover the exponents of the operands too
         return dot2_pos_rndd_ref_small(a0,a1,b0,b1);
     }else{
         return dot2_pos_rndd_ref_large(a0,a1,b0,b1);
diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index d301421..31d019d 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -386,7 +386,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd_ref(
     const fp_flopoco<WE,WF> &b2,
     const fp_flopoco<WE,WF> &b3
 ){
-    if((WF+1)*8 < 52){
+    if(WE<=10 && (WF+1)*8 < 52){ // doubles must cover the exponents of the operands too
         return dot4_pos_rndd_ref_small(a0,a1,a2,a3,b0,b1,b2,b3);
     }else{
         return dot4_pos_rndd_ref_large(a0,a1,a2,a3,b0,b1,b2,b3);
-- 
2.43.0


From 3053f59783bcec21c950b3b6b1428505e7ba481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 35/42] fix: restore policy_test.hpp as it was, it is a test
 support file (the leak on its failure paths stays as it was)

---
 include/thls/tops/policy_test.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/thls/tops/policy_test.hpp b/include/thls/tops/policy_test.hpp
index fa68831..80ed8f2 100644
--- a/include/thls/tops/policy_test.hpp
+++ b/include/thls/tops/policy_test.hpp
@@ -61,7 +61,6 @@ struct policy_concept {
                 mpfr_div(xxR, xxA, x, MPFR_RNDN);
                 mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                 mpfr_clear(xxA);
-                mpfr_clear(xxR);
                 throw std::runtime_error("Conversion is not exact.");
             }
         }
@@ -333,7 +332,7 @@ struct test_policy
                 mpfr_div(tmp2,tmp,ref,MPFR_RNDN);
                 mpfr_fprintf(stderr, "Fail: %s, a=%.Re, b=%.Re, ref=%.Re, got=%.Re,  errA=%.Re, errR=%.Re\n", op.c_str(), inA, inB, ref, gotM, tmp, tmp2);
                 mpfr_clear(tmp);
-                mpfr_clear(tmp2);
+
             }
         }
 
-- 
2.43.0


From f64a1118e64c9d16cf83068eec0e4595c532ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 36/42] fix: adders returned infinity for cancellation below
 the range when the exponent is narrow and the fraction wide

The exponent after normalisation has E+2 bits, which cannot hold E - (F+2)
for 4 exponent bits and more than 31 fraction bits: the borrow was lost.
One more bit keeps the sign.  Formats with 4 exponent and 59 or more
fraction bits compile now.
---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp   | 4 +++-
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 4 +++-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 4 +++-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 4 +++-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index b63f3c0..c70788e 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -295,7 +295,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
              << "newX("<<wE+wF-1<<" downto "<<wF<<")) "
              <<"- (CONV_STD_LOGIC_VECTOR(0,"<<wE-lzocs->getCountWidth()+2<<") & nZerosNew);"
              <<endl;*/
-        auto exponentResultClose = zpad_hi<2>(get_bits<wE+wF-1,wF>(newX)) - zpad_hi<wE-lzocCountWidth+2>(nZerosNew);
+        // One extra bit keeps the sign when the count exceeds the range of a narrow exponent
+        auto exponentResultCloseWide = zpad_hi<3>(get_bits<wE+wF-1,wF>(newX)) - zpad_hi<wE-lzocCountWidth+3>(nZerosNew);
+        auto exponentResultClose = concat(get_bit<wE+2>(exponentResultCloseWide), take_lsbs<wE+1>(exponentResultCloseWide));
 
 
         // concatenate exponent with fractional part before rounding so the possible carry propagation automatically increments the exponent
diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d37ec86..7fec4d3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -465,7 +465,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //update exponent
 
     //vhdl << tab << declare("updatedExp",wE+2) << " <= extendedExpInc - (" << zg(wE+2-lzocs->getCountWidth(),0) <<" & nZerosNew);"<<endl;
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // One extra bit keeps the sign when the count exceeds the range of a narrow exponent
+    auto updatedExpWide = zpad_hi<1>(extendedExpInc) - zpad_hi<wE+3-lzocCountWidth>(nZerosNew);
+    auto updatedExp = concat(get_bit<wE+2>(updatedExpWide), take_lsbs<wE+1>(updatedExpWide));
     //vhdl << tab << declare("eqdiffsign")<< " <= '1' when nZerosNew="<<og(lzocs->getCountWidth(),0)<<" else '0';"<<endl;
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 7ecbb6a..b78b321 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -328,7 +328,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     //need to decide how much to add to the exponent
     //update exponent
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // One extra bit keeps the sign when the count exceeds the range of a narrow exponent
+    auto updatedExpWide = zpad_hi<1>(extendedExpInc) - zpad_hi<wE+3-lzocCountWidth>(nZerosNew);
+    auto updatedExp = concat(get_bit<wE+2>(updatedExpWide), take_lsbs<wE+1>(updatedExpWide));
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 26e5d6f..3663945 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -445,7 +445,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //update exponent
 
     //vhdl << tab << declare("updatedExp",wE+2) << " <= extendedExpInc - (" << zg(wE+2-lzocs->getCountWidth(),0) <<" & nZerosNew);"<<endl;
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // One extra bit keeps the sign when the count exceeds the range of a narrow exponent
+    auto updatedExpWide = zpad_hi<1>(extendedExpInc) - zpad_hi<wE+3-lzocCountWidth>(nZerosNew);
+    auto updatedExp = concat(get_bit<wE+2>(updatedExpWide), take_lsbs<wE+1>(updatedExpWide));
     //vhdl << tab << declare("eqdiffsign")<< " <= '1' when nZerosNew="<<og(lzocs->getCountWidth(),0)<<" else '0';"<<endl;
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index f8a399a..b9aa7ac 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -226,7 +226,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
 
     //need to decide how much to add to the exponent
     //update exponent
-    auto updatedExp = extendedExpInc - zpad_hi<wE+2-lzocCountWidth>(nZerosNew);
+    // One extra bit keeps the sign when the count exceeds the range of a narrow exponent
+    auto updatedExpWide = zpad_hi<1>(extendedExpInc) - zpad_hi<wE+3-lzocCountWidth>(nZerosNew);
+    auto updatedExp = concat(get_bit<wE+2>(updatedExpWide), take_lsbs<wE+1>(updatedExpWide));
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
-- 
2.43.0


From 7c0e12f838ac424fb4a98ffe3fc43f00ade8ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 37/42] fix: compile-time fixed-point comparison compared the
 first operand with itself

---
 include/thls/core/constfunc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/core/constfunc_helpers.hpp b/include/thls/core/constfunc_helpers.hpp
index 3324d65..6b8cd92 100644
--- a/include/thls/core/constfunc_helpers.hpp
+++ b/include/thls/core/constfunc_helpers.hpp
@@ -64,7 +64,7 @@ struct ctFixCompare
 	static const int eLo=ctMin<eA,eB>::val;
 	
 	static const int64_t nA=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
-	static const int64_t nB=ctCheckedShiftLeft<vA,(eA-eLo)>::val;
+	static const int64_t nB=ctCheckedShiftLeft<vB,(eB-eLo)>::val;
 	
 	static const int val = (nA < nB) ? -1 : (nA>nB) ? +1 : 0;
 };
-- 
2.43.0


From 998cc870ef39a2c155057dbc68673bff34326791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 38/42] fix: tracing and reference code of several operators
 did not build for synthesis

---
 include/thls/tops/bit_heap_mul.hpp            |  8 +++++
 .../thls/tops/fp_flopoco_add_single_v2.hpp    | 30 +++++++++++++++++
 .../thls/tops/fp_flopoco_add_single_v3.hpp    | 32 +++++++++++++++++++
 .../thls/tops/fp_flopoco_add_single_v4.hpp    | 30 +++++++++++++++++
 .../thls/tops/fp_flopoco_add_single_v5.hpp    | 32 +++++++++++++++++++
 include/thls/tops/fp_flopoco_div_v2.hpp       | 24 ++++++++++++++
 .../thls/tops/fp_flopoco_dot2_pos_rndd.hpp    | 14 ++++++++
 .../thls/tops/fp_flopoco_dot4_pos_rndd.hpp    | 10 ++++++
 8 files changed, 180 insertions(+)

diff --git a/include/thls/tops/bit_heap_mul.hpp b/include/thls/tops/bit_heap_mul.hpp
index afb4540..4ab41f3 100644
--- a/include/thls/tops/bit_heap_mul.hpp
+++ b/include/thls/tops/bit_heap_mul.hpp
@@ -52,13 +52,21 @@ namespace detail
         static heap_t build(const fw_uint<WA> &a, const fw_uint<WB> &b)
         {
             hi_heap_orig_t hi_orig=hi_next_t::build(a,take_msbs<TILE>(b));
+            #ifndef THLS_SYNTHESIS
             std::cerr<<hi_orig<<"\n";
+            #endif
             hi_heap_t hi=bit_heap_shift_left_impl<WB_LO,hi_heap_orig_t>::build(hi_orig);
+            #ifndef THLS_SYNTHESIS
             std::cerr<<hi<<"\n";
+            #endif
             lo_heap_t lo=lo_next_t::build(a, drop_msbs<TILE>(b));
+            #ifndef THLS_SYNTHESIS
             std::cerr<<lo<<"\n";
+            #endif
             auto res=detail::merge_bit_heaps_impl<hi_heap_t,lo_heap_t>::build(hi,lo);
+            #ifndef THLS_SYNTHESIS
             std::cerr<<res<<"\n";
+            #endif
             return res;
         }
     };
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index b78b321..f938e52 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -192,8 +192,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     fw_uint<wE+1> eYmeX = zpad_hi<1>(get_bits<wE+wF-1, wF>(Y)) - zpad_hi<1>(get_bits< wE+wF-1, wF>(X));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  eXmeY = "<<eXmeY<<"\n";
         std::cerr<<"  eYmeX = "<<eYmeX<<"\n";
+        #endif
     }
 
     fw_uint<1> swap=excExpFracX < excExpFracY;
@@ -212,7 +214,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto fracY = select(excY==0b00, zg<wF+1>(), opad_hi<1>(get_bits<wF-1,0>(newY)));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracY = "<<fracY<<"\n";
+        #endif
     }
 
     //exception bits: need to be updated but for not FIXME
@@ -228,20 +232,26 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     );
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"   sXsYExnXY = "<<sXsYExnXY<<"\n";
         std::cerr<<"   excRt = "<<excRt<<"\n";
+        #endif
     }
 
     auto signR = select(sXsYExnXY==0b100000 || sXsYExnXY==0b010000, zg<1>(), signX);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  signR = "<<signR<<"\n";
+        #endif
     }
 
 
     auto expDiff = select(swap==0, eXmeY, eYmeX);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
+        #endif
     }
 
     auto shiftedOut = expDiff >= (wF+3);
@@ -258,7 +268,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     }
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftVal = "<<shiftVal<<"\n";
+        #endif
     }
 
 
@@ -271,7 +283,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //   wOut = wIn+maxShift = wF+wF+4
     auto preFracY=zpad_lo<wF+3>(fracY);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  preFracY = "<<preFracY<<"\n";
+        #endif
     }
     fw_uint<2*wF+4> shiftedFracY = preFracY >> shiftVal.to_int();
     fw_uint<1> sticky = get_bits<wF,0>(shiftedFracY)!=0;
@@ -287,16 +301,20 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto cInAddFar = EffSub & ~sticky;
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracYfar = "<<fracYfar<<"\n";
         std::cerr<<"  fracYfarXorOp = "<<fracYfarXorOp<<"\n";
         std::cerr<<"  fracXfar = "<<fracXfar<<"\n";
         std::cerr<<"  cInAddFar = "<<cInAddFar<<"\n";
+        #endif
     }
 
     //result is always positive.
     fw_uint<wF+4> fracAddResult = add_with_cin(fracXfar,fracYfarXorOp,cInAddFar);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracAddResult = "<<fracAddResult<<"\n";
+        #endif
     }
 
     //shift in place
@@ -305,7 +323,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //incremented exponent.
     fw_uint<wE+2> extendedExpInc = zpad_hi<2>(expX)+1;
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  extendedExpInc = "<<extendedExpInc<<"\n";
+        #endif
     }
 
     // LZOCShifterSticky
@@ -322,8 +342,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     LZOCShifter<wF+5>(shiftedFrac, nZerosNew, fracGRS);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftedFrac = "<<shiftedFrac<<"\n";
         std::cerr<<"  nZerosNew = "<<nZerosNew<<"\n";
+        #endif
     }
 
     //need to decide how much to add to the exponent
@@ -334,8 +356,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  updatedExp = "<<updatedExp<<"\n";
         std::cerr<<"  eqdiffsign = "<<eqdiffsign<<"\n";
+        #endif
     }
 
     //concatenate exponent with fraction to absorb the possible carry out
@@ -349,10 +373,12 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto lsb = get_bit<4>(shiftedFrac);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  stk = "<<stk<<"\n";
         std::cerr<<"  rnd = "<<rnd<<"\n";
         std::cerr<<"  grd = "<<grd<<"\n";
         std::cerr<<"  lsb = "<<lsb<<"\n";
+        #endif
     }
 
     //decide what to add to the guard bit
@@ -361,9 +387,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     auto RoundedExpFrac = add_cin(expFrac, addToRoundBit);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  addToRoundBit = "<<addToRoundBit<<"\n";
         std::cerr<<"  expFrac = "<<expFrac<<"\n";
         std::cerr<<"  RoundedExpFrac = "<<RoundedExpFrac<<"\n";
+        #endif
     }
 
     //possible update to exception bits
@@ -386,8 +414,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     );
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exExpExc = "<<exExpExc<<"\n";
         std::cerr<<"  excRt2 = "<<excRt2<<"\n";
+        #endif
     }
 
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 04c3c1f..73dff78 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -224,8 +224,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     fw_uint<wE+1> eYmeX = zpad_hi<1>(get_bits<wE+wF-1, wF>(Y)) - zpad_hi<1>(get_bits< wE+wF-1, wF>(X));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  eXmeY = "<<eXmeY<<"\n";
         std::cerr<<"  eYmeX = "<<eYmeX<<"\n";
+        #endif
     }
 
     fw_uint<1> swap=excExpFracX < excExpFracY;
@@ -244,7 +246,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto fracY = select(excY==0b00, zg<wF+1>(), opad_hi<1>(get_bits<wF-1,0>(newY)));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracY = "<<fracY<<"\n";
+        #endif
     }
 
     //exception bits: need to be updated but for not FIXME
@@ -263,20 +267,26 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto excRt=excRt_lut(sXsYExnXY);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"   sXsYExnXY = "<<sXsYExnXY<<"\n";
         std::cerr<<"   excRt = "<<excRt<<"\n";
+        #endif
     }
 
     auto signR = select(sXsYExnXY==0b100000 || sXsYExnXY==0b010000, zg<1>(), signX);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  signR = "<<signR<<"\n";
+        #endif
     }
 
 
     auto expDiff = select(swap==0, eXmeY, eYmeX);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
+        #endif
     }
 
     auto shiftedOut = expDiff >= (wF+3);
@@ -293,7 +303,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     }
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftVal = "<<shiftVal<<"\n";
+        #endif
     }
 
 
@@ -306,7 +318,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //   wOut = wIn+maxShift = wF+wF+4
     auto preFracY=zpad_lo<wF+3>(fracY);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  preFracY = "<<preFracY<<"\n";
+        #endif
     }
     fw_uint<2*wF+4> shiftedFracY = preFracY >> shiftVal.to_int();
     fw_uint<1> sticky = get_bits<wF,0>(shiftedFracY)!=0;
@@ -322,28 +336,36 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto cInAddFar = EffSub & ~sticky;
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracYfar = "<<fracYfar<<"\n";
         std::cerr<<"  fracYfarXorOp = "<<fracYfarXorOp<<"\n";
         std::cerr<<"  fracXfar = "<<fracXfar<<"\n";
         std::cerr<<"  cInAddFar = "<<cInAddFar<<"\n";
+        #endif
     }
 
     //result is always positive.
     fw_uint<wF+4> fracAddResult = add_with_cin(fracXfar,fracYfarXorOp,cInAddFar);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracAddResult = "<<fracAddResult<<"\n";
+        #endif
     }
 
     //shift in place
     fw_uint<wF+5> fracGRS = concat(fracAddResult, sticky);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracGRS = "<<fracGRS<<"\n";
+        #endif
     }
 
     //incremented exponent.
     fw_uint<wE+2> extendedExpInc = zpad_hi<2>(expX)+1;
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  extendedExpInc = "<<extendedExpInc<<"\n";
+        #endif
     }
 
     // LZOCShifterSticky
@@ -365,8 +387,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     shiftedFrac=take_msbs<wF+5>(shiftedFracExt);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftedFrac = "<<shiftedFrac<<"\n";
         std::cerr<<"  nZerosNew = "<<nZerosNew<<"\n";
+        #endif
     }
 
     //need to decide how much to add to the exponent
@@ -375,8 +399,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  updatedExp = "<<updatedExp<<"\n";
         std::cerr<<"  eqdiffsign = "<<eqdiffsign<<"\n";
+        #endif
     }
 
     //concatenate exponent with fraction to absorb the possible carry out
@@ -390,10 +416,12 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto lsb = get_bit<4>(shiftedFrac);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  stk = "<<stk<<"\n";
         std::cerr<<"  rnd = "<<rnd<<"\n";
         std::cerr<<"  grd = "<<grd<<"\n";
         std::cerr<<"  lsb = "<<lsb<<"\n";
+        #endif
     }
 
     //decide what to add to the guard bit
@@ -402,9 +430,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     auto RoundedExpFrac = add_cin(expFrac, addToRoundBit);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  addToRoundBit = "<<addToRoundBit<<"\n";
         std::cerr<<"  expFrac = "<<expFrac<<"\n";
         std::cerr<<"  RoundedExpFrac = "<<RoundedExpFrac<<"\n";
+        #endif
     }
 
     //possible update to exception bits
@@ -430,8 +460,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     fw_uint<2> excRt2 = excRt2_lut(exExpExc);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exExpExc = "<<exExpExc<<"\n";
         std::cerr<<"  excRt2 = "<<excRt2<<"\n";
+        #endif
     }
 
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 3663945..2e52cec 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -220,8 +220,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     fw_uint<wE+1> eYmeX = zpad_hi<1>(get_bits<wE+wF-1, wF>(Y)) - zpad_hi<1>(get_bits< wE+wF-1, wF>(X));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  eXmeY = "<<eXmeY<<"\n";
         std::cerr<<"  eYmeX = "<<eYmeX<<"\n";
+        #endif
     }
 
     // NOTE : FloPoCo used logic here that swapped to an adder component
@@ -256,7 +258,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto fracY = select(excY==0b00, zg<wF+1>(), opad_hi<1>(get_bits<wF-1,0>(newY)));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracY = "<<fracY<<"\n";
+        #endif
     }
 
     //exception bits: need to be updated but for not FIXME
@@ -281,14 +285,18 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto excRt=excRt_lut(sXsYExnXY);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"   sXsYExnXY = "<<sXsYExnXY<<"\n";
         std::cerr<<"   excRt = "<<excRt<<"\n";
+        #endif
     }
 
     //vhdl <<tab<<declare("signR") << "<= '0' when (sXsYExnXY=\"100000\" or sXsYExnXY=\"010000\") else signX;"<<endl;
     auto signR = select(sXsYExnXY==0b100000 || sXsYExnXY==0b010000, zg<1>(), signX);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  signR = "<<signR<<"\n";
+        #endif
     }
 
 
@@ -296,7 +304,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto expDiff = select(swap==0, eXmeY, eYmeX);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
+        #endif
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
@@ -321,7 +331,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     }
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftVal = "<<shiftVal<<"\n";
+        #endif
     }
 
 
@@ -356,7 +368,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //   wOut = wIn+maxShift = wF+wF+4
     auto preFracY=zpad_lo<wF+3>(fracY);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  preFracY = "<<preFracY<<"\n";
+        #endif
     }
     unsigned shiftValI=shiftVal.to_int();
     assert(shiftValI<wF+4);
@@ -379,10 +393,12 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto cInAddFar = EffSub & ~sticky;
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracYfar = "<<fracYfar<<"\n";
         std::cerr<<"  fracYfarXorOp = "<<fracYfarXorOp<<"\n";
         std::cerr<<"  fracXfar = "<<fracXfar<<"\n";
         std::cerr<<"  cInAddFar = "<<cInAddFar<<"\n";
+        #endif
     }
 
     //result is always positive.
@@ -396,7 +412,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<wF+4> fracAddResult = add_with_cin(fracXfar,fracYfarXorOp,cInAddFar);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracAddResult = "<<fracAddResult<<"\n";
+        #endif
     }
 
     //shift in place
@@ -407,7 +425,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     //vhdl << tab << declare("extendedExpInc",wE+2) << "<= (\"00\" & expX) + '1';"<<endl;
     fw_uint<wE+2> extendedExpInc = zpad_hi<2>(expX)+1;
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  extendedExpInc = "<<extendedExpInc<<"\n";
+        #endif
     }
 
 
@@ -435,8 +455,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     LZOCShifter<wF+5>(shiftedFrac, nZerosNew, fracGRS);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftedFrac = "<<shiftedFrac<<"\n";
         std::cerr<<"  nZerosNew = "<<nZerosNew<<"\n";
+        #endif
     }
 
     //need to decide how much to add to the exponent
@@ -452,8 +474,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  updatedExp = "<<updatedExp<<"\n";
         std::cerr<<"  eqdiffsign = "<<eqdiffsign<<"\n";
+        #endif
     }
 
     //concatenate exponent with fraction to absorb the possible carry out
@@ -472,10 +496,12 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     auto lsb = get_bit<4>(shiftedFrac);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  stk = "<<stk<<"\n";
         std::cerr<<"  rnd = "<<rnd<<"\n";
         std::cerr<<"  grd = "<<grd<<"\n";
         std::cerr<<"  lsb = "<<lsb<<"\n";
+        #endif
     }
 
     //decide what to add to the guard bit
@@ -497,9 +523,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     auto RoundedExpFrac = add_cin(expFrac, addToRoundBit);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  addToRoundBit = "<<addToRoundBit<<"\n";
         std::cerr<<"  expFrac = "<<expFrac<<"\n";
         std::cerr<<"  RoundedExpFrac = "<<RoundedExpFrac<<"\n";
+        #endif
     }
 
 // 		vhdl<<tab<<declare("RoundedExpFrac",wE+2+wF+1)<<"<= expFrac + addToRoundBit;"<<endl;
@@ -538,8 +566,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     fw_uint<2> excRt2 = excRt2_lut(exExpExc);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exExpExc = "<<exExpExc<<"\n";
         std::cerr<<"  excRt2 = "<<excRt2<<"\n";
+        #endif
     }
 
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b9aa7ac..27120b9 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -70,8 +70,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     fw_uint<wE+1> eYmeX = zpad_hi<1>(get_bits<wE+wF-1, wF>(Y)) - zpad_hi<1>(get_bits< wE+wF-1, wF>(X));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  eXmeY = "<<eXmeY<<"\n";
         std::cerr<<"  eYmeX = "<<eYmeX<<"\n";
+        #endif
     }
 
     // NOTE : FloPoCo used logic here that swapped to an adder component
@@ -87,8 +89,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //fw_uint<1> swap= excExpFracX < excExpFracY;
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  excExpFracX = "<<excExpFracX<<"\n";
         std::cerr<<"  excExpFracY = "<<excExpFracY<<"\n";
+        #endif
     }
 
     // depending on the value of swap, assign the corresponding values to the newX and newY signals
@@ -105,7 +109,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     auto fracY = select(excY==0b00, zg<wF+1>(), opad_hi<1>(get_bits<wF-1,0>(newY)));
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracY = "<<fracY<<"\n";
+        #endif
     }
 
     //exception bits: need to be updated but for not FIXME
@@ -125,19 +131,25 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     auto excRt=excRt_lut(sXsYExnXY);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"   sXsYExnXY = "<<sXsYExnXY<<"\n";
         std::cerr<<"   excRt = "<<excRt<<"\n";
+        #endif
     }
 
     auto signR = select(sXsYExnXY==0b100000 || sXsYExnXY==0b010000, zg<1>(), signX);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  signR = "<<signR<<"\n";
+        #endif
     }
 
     auto expDiff = select(swap==0, eXmeY, eYmeX);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
+        #endif
     }
 
     auto shiftedOut = expDiff >= (wF+3);
@@ -153,7 +165,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
 
     }
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftVal = "<<shiftVal<<"\n";
+        #endif
     }
 
 
@@ -169,7 +183,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //   wOut = wIn+maxShift = wF+wF+4
     auto preFracY=zpad_lo<wF+3>(fracY);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  preFracY = "<<preFracY<<"\n";
+        #endif
     }
     fw_uint<2*wF+4> shiftedFracY = preFracY >> shiftVal.to_int();
     fw_uint<1> sticky = get_bits<wF,0>(shiftedFracY)!=0;
@@ -185,16 +201,20 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     auto cInAddFar = EffSub & ~sticky;
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracYfar = "<<fracYfar<<"\n";
         std::cerr<<"  fracYfarXorOp = "<<fracYfarXorOp<<"\n";
         std::cerr<<"  fracXfar = "<<fracXfar<<"\n";
         std::cerr<<"  cInAddFar = "<<cInAddFar<<"\n";
+        #endif
     }
 
     //result is always positive.
     fw_uint<wF+4> fracAddResult = add_with_cin(fracXfar,fracYfarXorOp,cInAddFar);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fracAddResult = "<<fracAddResult<<"\n";
+        #endif
     }
 
     //shift in place
@@ -203,7 +223,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //incremented exponent.
     fw_uint<wE+2> extendedExpInc = zpad_hi<2>(expX)+1;
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  extendedExpInc = "<<extendedExpInc<<"\n";
+        #endif
     }
 
     // LZOCShifterSticky
@@ -220,8 +242,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     LZOCShifter<wF+5>(shiftedFrac, nZerosNew, fracGRS);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  shiftedFrac = "<<shiftedFrac<<"\n";
         std::cerr<<"  nZerosNew = "<<nZerosNew<<"\n";
+        #endif
     }
 
     //need to decide how much to add to the exponent
@@ -232,8 +256,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     auto eqdiffsign = nZerosNew==og<lzocCountWidth>();
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  updatedExp = "<<updatedExp<<"\n";
         std::cerr<<"  eqdiffsign = "<<eqdiffsign<<"\n";
+        #endif
     }
 
     //concatenate exponent with fraction to absorb the possible carry out
@@ -247,10 +273,12 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     auto lsb = get_bit<4>(shiftedFrac);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  stk = "<<stk<<"\n";
         std::cerr<<"  rnd = "<<rnd<<"\n";
         std::cerr<<"  grd = "<<grd<<"\n";
         std::cerr<<"  lsb = "<<lsb<<"\n";
+        #endif
     }
 
     //decide what to add to the guard bit
@@ -260,9 +288,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //round
     auto RoundedExpFrac = add_cin(expFrac, addToRoundBit);
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  addToRoundBit = "<<addToRoundBit<<"\n";
         std::cerr<<"  expFrac = "<<expFrac<<"\n";
         std::cerr<<"  RoundedExpFrac = "<<RoundedExpFrac<<"\n";
+        #endif
     }
 
     //possible update to exception bits
@@ -288,8 +318,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     fw_uint<2> excRt2 = excRt2_lut(exExpExc);
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exExpExc = "<<exExpExc<<"\n";
         std::cerr<<"  excRt2 = "<<excRt2<<"\n";
+        #endif
     }
 
 
diff --git a/include/thls/tops/fp_flopoco_div_v2.hpp b/include/thls/tops/fp_flopoco_div_v2.hpp
index be90acc..1c4c39e 100644
--- a/include/thls/tops/fp_flopoco_div_v2.hpp
+++ b/include/thls/tops/fp_flopoco_div_v2.hpp
@@ -60,7 +60,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
     //vhdl << tab << declare("expR0", wE+2) << " <= (\"00\" & X(" << wE+wF-1 << " downto " << wF << ")) - (\"00\" & Y(" << wE+wF-1 << " downto " << wF<< "));" << endl;
     auto expR0 = zpad_hi<2>(get_bits<wE+wF-1,wF>(X)) - zpad_hi<2>(get_bits<wE+wF-1,wF>(Y));
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expR0 = "<<expR0<<"\n";
+        #endif
     }
     //vhdl << tab << declare("sR") << " <= X(" << wE+wF << ") xor Y(" << wE+wF<< ");" << endl;
     auto sR = get_bit<wE+wF>(X) ^ get_bit<wE+wF>(Y);
@@ -68,7 +70,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
     //vhdl << tab << declare("exnXY",4) << " <= X(" << wE+wF+2 << " downto " << wE+wF+1  << ") & Y(" << wE+wF+2 << " downto " << wE+wF+1 << ");" <<endl;
     auto exnXY = concat(get_bits<wE+wF+2,wE+wF+1>(X) , get_bits<wE+wF+2,wE+wF+1>(Y) );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exnXY = "<<exnXY<<"\n";
+        #endif
     }
     /*vhdl << tab << "with exnXY select" <<endl;
     vhdl << tab << tab << declare("exnR0", 2) << " <= " << endl;
@@ -83,7 +87,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
         /* else */                                          cg<2>(0b11)  // NaN
     );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exnR0 = "<<exnR0<<"\n";
+        #endif
     }
 
     //vhdl << tab << " -- compute 3Y" << endl;
@@ -261,8 +267,10 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
     );
 
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  qPcat = "<<qPcat<<"\n";
         std::cerr<<"  qMcat = "<<qMcat<<"\n";
+        #endif
     }
     
     /*std::cerr<<"  fX = "<<fX<<", fY = "<<fY<<"\n";
@@ -282,7 +290,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
     //vhdl << tab << declare("fR0", 2*nDigit) << " <= qP - qM;" << endl;
     auto fR0 = qPcat - qMcat;
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fR0 = "<<fR0<<"\n";
+        #endif
     }
 
     /*vhdl << tab << declare("fR", wF+4) << " <= "; 
@@ -297,7 +307,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
         fR=checked_cast<4+wF>( concat( get_bits<2*nDigit-1,3>(fR0) , get_bit<2>(fR0)|get_bit<1>(fR0) ) );
     }
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fR = "<<fR<<"\n";
+        #endif
     }
 
 
@@ -310,21 +322,27 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
         /* else */              get_bits<wF+1,0>(fR)
     );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  fRn1 = "<<fRn1<<"\n";
+        #endif
     }
 
     /*vhdl << tab << declare("expR1", wE+2) << " <= expR0" 
           << " + (\"000\" & (" << wE-2 << " downto 1 => '1') & fR(" << wF+3 << ")); -- add back bias" << endl;*/
     fw_uint<wE+2> expR1 = expR0 + concat( zg3 , og<wE-2>() , get_bit<wF+3>(fR) );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expR1 = "<<expR1<<"\n";
+        #endif
     }
 
 
     //vhdl << tab << declare("round") << " <= fRn1(1) and (fRn1(2) or fRn1(0)); -- fRn1(0) is the sticky bit" << endl;
     auto round = get_bit<1>(fRn1) & (get_bit<2>(fRn1) | get_bit<0>(fRn1));
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  round = "<<round<<"\n";
+        #endif
     }
 
     //vhdl << tab << "-- final rounding" <<endl;
@@ -332,7 +350,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
          << "expR1 & fRn1(" << wF+1 << " downto 2) ;" << endl;*/
     auto expfrac = concat(expR1 , get_bits<wF+1,2>(fRn1) );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  expfrac = "<<expfrac<<"\n";
+        #endif
     }
          
     /*vhdl << tab << declare("expfracR", wE+wF+2) << " <= " 
@@ -347,7 +367,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
         /* else */                                  cg<2>(0b01)     // normal
     );
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exnR = "<<exnR<<"\n";
+        #endif
     }
 
 
@@ -362,7 +384,9 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
     );
     
     if(DEBUG){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  exnRfinal = "<<exnRfinal<<"\n";
+        #endif
     }
 
     /*vhdl << tab << "R <= exnRfinal & sR & " 
diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index ccfe2ba..f5f1df9 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -88,7 +88,9 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     assert( (b1.is_positive() & b1.is_normal()).to_bool() );
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         fprintf(stderr, "dot2_pos_rndd(%g,%g,%g,%g)\n", a0.to_double_approx(), a1.to_double_approx(), b0.to_double_approx(), b1.to_double_approx());
+        #endif
     }
 
     auto fraca0=opad_hi<1>(a0.get_frac_bits());
@@ -105,7 +107,9 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     auto ab1_exp=zpad_hi<1>(a1.get_exp_bits())+zpad_hi<1>(b1.get_exp_bits());
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  ab0_frac="<<ab0_frac<<", ab1_frac="<<ab1_frac<<"\n";
+        #endif
     }
 
     // Swap the full width products and exponents to get the biggest one
@@ -117,7 +121,9 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     auto shift=maj_exp-min_exp;
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  maj_frac="<<maj_frac<<", min_frac="<<min_frac<<"\n";
+        #endif
     }
 
     auto maj_frac_full=concat(zg<1>(), maj_frac, zg<1>());
@@ -127,13 +133,17 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     auto min_frac_shifted= shift_loss ? zg<min_frac_full.width>() : (min_frac_full >> shift.to_int());
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  maj_frac_full="<<maj_frac_full<<", min_frac_shifted="<<min_frac_shifted<<"\n";
+        #endif
     }
 
     auto frac_full=maj_frac_full+min_frac_shifted;
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  frac_full="<<frac_full<<"\n";
         std::cerr<<"  value = "<<ldexp( frac_full.to_uint64(), maj_exp.to_int()-2*bias-2*WE-1 );
+        #endif
     }
 
     // At this point we have  ???.ffffffff  where there is
@@ -164,7 +174,9 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     exp_post_norm=zpad_hi<1>(maj_exp) + exp_post_norm_adj;
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  frac_post_norm="<<frac_post_norm<<"\n";
+        #endif
     }
 
     // Final conversion back
@@ -178,6 +190,7 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     return fp_flopoco<WE,WF>(flags, zg<1>(), take_lsbs<WE>(exp_post_norm-bias), frac_post_norm );
 }
 
+#ifndef THLS_SYNTHESIS
 template<int WE, int WF>
 fp_flopoco<WE,WF> dot2_pos_rndd_ref_large(
     const fp_flopoco<WE,WF> &a0,
@@ -307,6 +320,7 @@ void exhaust_dot2_pos_rndd()
         }
     }
 }
+#endif
 
 }; // thls
 
diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 31d019d..870f3f9 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -161,9 +161,11 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     assert( (b3.is_positive() & b3.is_normal()).to_bool() );
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         fprintf(stderr, "dot2_pos_rndd(%g,%g,%g,%g,%g,%g,%g,%g)\n",
             a0.to_double(), a1.to_double(), a2.to_double(), a3.to_double(),
             b0.to_double(), b1.to_double(), b2.to_double(), b3.to_double());
+        #endif
     }
 
     auto fraca0=opad_hi<1>(a0.get_frac_bits());
@@ -188,7 +190,9 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto ab3_exp=zpad_hi<1>(a3.get_exp_bits())+zpad_hi<1>(b3.get_exp_bits());
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  ab0_frac="<<ab0_frac<<", ab1_frac="<<ab1_frac<<"  ab2_frac="<<ab2_frac<<", ab3_frac="<<ab3_frac<<"\n";
+        #endif
     }
 
     /* DESIGN CHOICE:
@@ -241,8 +245,10 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
 
     auto frac_full=x0_frac_shifted+x1_frac_shifted+x2_frac_shifted+x3_frac_shifted;
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  frac_full="<<frac_full<<"\n";
         std::cerr<<"  value = "<<ldexp( to_double_approx(frac_full), x0_exp.to_int()-2*bias-2*WF-PAD_LOW );
+        #endif
     }
 
     // At this point we have  ????.ffffffff  where there is
@@ -277,7 +283,9 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     exp_post_norm=zpad_hi<1>(x0_exp) + exp_post_norm_adj;
 
     if(log){
+        #ifndef THLS_SYNTHESIS
         std::cerr<<"  frac_post_norm="<<frac_post_norm<<"\n";
+        #endif
     }
 
     // Final conversion back
@@ -291,6 +299,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     return fp_flopoco<WE,WF>(flags, zg<1>(), take_lsbs<WE>(exp_post_norm-bias), frac_post_norm );
 }
 
+#ifndef THLS_SYNTHESIS
 template<int WE, int WF>
 fp_flopoco<WE,WF> dot4_pos_rndd_ref_large(
     const fp_flopoco<WE,WF> &a0,
@@ -464,6 +473,7 @@ void exhaust_dot4_pos_rndd()
         }
     }
 }
+#endif
 
 }; // thls
 
-- 
2.43.0


From 18c5991fde457f4c1330d4a50a37a9dd17fa319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 39/42] fix: dot2_pos_rndd with logging aborted for fractions
 wider than 30 bits and printed a wrong value

---
 include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
index f5f1df9..ad6a4d3 100644
--- a/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot2_pos_rndd.hpp
@@ -142,7 +142,7 @@ fp_flopoco<WE,WF> dot2_pos_rndd(
     if(log){
         #ifndef THLS_SYNTHESIS
         std::cerr<<"  frac_full="<<frac_full<<"\n";
-        std::cerr<<"  value = "<<ldexp( frac_full.to_uint64(), maj_exp.to_int()-2*bias-2*WE-1 );
+        std::cerr<<"  value = "<<ldexp( to_double_approx(frac_full), maj_exp.to_int()-2*bias-2*WF-1 );
         #endif
     }
 
-- 
2.43.0


From 5509e97efb3d6ae33e8b50a54d6d0e2c1da3c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 40/42] fix: dot4_pos_rndd did not compile for exponents wider
 than those of double

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 870f3f9..4c7ba82 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -163,8 +163,8 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     if(log){
         #ifndef THLS_SYNTHESIS
         fprintf(stderr, "dot2_pos_rndd(%g,%g,%g,%g,%g,%g,%g,%g)\n",
-            a0.to_double(), a1.to_double(), a2.to_double(), a3.to_double(),
-            b0.to_double(), b1.to_double(), b2.to_double(), b3.to_double());
+            a0.to_double_approx(), a1.to_double_approx(), a2.to_double_approx(), a3.to_double_approx(),
+            b0.to_double_approx(), b1.to_double_approx(), b2.to_double_approx(), b3.to_double_approx());
         #endif
     }
 
-- 
2.43.0


From cd40e5aea1c1dd1248a3e31e66abd87b2e1fae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 41/42] fix: numeric_limits epsilon and round_error aborted,
 and epsilon was half the gap above one

---
 include/thls/tops/fp_flopoco.hpp | 9 ++++-----
 include/thls/tops/fp_ieee.hpp    | 7 ++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 73c5d7c..3e30977 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -331,15 +331,14 @@ namespace std
         }
 
         static THLS_CONSTEXPR T epsilon()
-        { // == 2^-(FracBits+1)
-          // expnt == ExpBits -FracBits-1
-            assert(0); // not tested
-            return T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias - FracBits-1) ,thls::zg<FracBits>()));
+        { // == 2^-FracBits, the gap above one; zero if the format cannot represent it
+            return bias>=FracBits
+                ? T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias>=FracBits ? bias-FracBits : 0 ) ,thls::zg<FracBits>()))
+                : T(concat(thls::zg<3>(),thls::zg<ExpBits>(),thls::zg<FracBits>()));
         }
 
         static THLS_CONSTEXPR T round_error()
         { // == 0.5
-            assert(0); // not tested
             return T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias - 1 ) ,thls::zg<FracBits>()));
         }
 
diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 7292bb5..621b4a6 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -214,15 +214,12 @@ namespace std
         }
 
         static THLS_CONSTEXPR T epsilon()
-        { // == 2^-(FracBits+1)
-          // expnt == ExpBits -FracBits-1
-            assert(0); // not tested
-            return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias - FracBits-1) ,thls::zg<FracBits>()));
+        { // == 2^-FracBits, the gap above one; zero if the format has no such normal number
+            return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias>FracBits ? bias-FracBits : 0 ) ,thls::zg<FracBits>()));
         }
 
         static THLS_CONSTEXPR T round_error()
         { // == 0.5
-            assert(0); // not tested
             return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias - 1 ) ,thls::zg<FracBits>()));
         }
 
-- 
2.43.0


From 32388fe96c6ab185855715c2027e0af9b522ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 42/42] fix: inv_direct rounded twice for wide results, so the
 last bit could be wrong from 46 fraction bits

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index ce2145a..0a55578 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -299,7 +299,16 @@ namespace thls
                     //std::cerr<<"i="<<i<<" -> v="<<v<<", vr="<<vr<<", WR="<<WR<<"\n";
                     //assert( (1<<(WR-2)) <= vr );
                     //assert( vr < (1<<(WR-1)) );
-                    return fw_uint<WR>::from_uint64(uint64_t(vr));
+                    // Dividing and then rounding to WR bits rounds twice, so settle the last bit exactly
+                    const int K=-LSBR-LSBI;
+                    uint64_t d=(uint64_t(1)<<-LSBI)+i, q=uint64_t(vr);
+                    int64_t r=int64_t( (K<64 ? uint64_t(1)<<(K&63) : 0) - q*d ); // remainder, exact modulo 2^64
+                    if(2*r > int64_t(d)){
+                        q++;
+                    }else if(2*r < -int64_t(d)){
+                        q--;
+                    }
+                    return fw_uint<WR>::from_uint64(q);
                 }
         );
         assert(take_msb(x.bits).to_bool()); // Should always have explicit bit
-- 
2.43.0

