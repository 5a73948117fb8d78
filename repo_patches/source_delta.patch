From 25667246097f5c127399c3f51760e3b521918215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:32 +0000
Subject: [PATCH 001/170] Add guarded hook to drive the random number generator
 from outside

---
 eo/src/utils/eoRNG.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..593dc45 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -489,6 +489,11 @@ namespace eo
 {
     /** The one and only global eoRng object */
     extern eoRng rng;
+
+#ifdef PARADISEO_VERIF
+    /** Verification hook: when set, it supplies every raw 32 bits word. */
+    extern uint32_t (*verif_rand)();
+#endif
 }
 using eo::rng;
 
@@ -541,6 +546,10 @@ inline uint32_t eoRng::restart()
 
 inline uint32_t eoRng::rand()
 {
+#ifdef PARADISEO_VERIF
+    if(eo::verif_rand)
+        return eo::verif_rand();
+#endif
     if(--left < 0)
         return(restart());
     uint32_t y  = *next++;
-- 
2.43.0


From 8e883cc49545caaed42651481f4efd3ee999eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:53 +0000
Subject: [PATCH 002/170] fix: n-point crossover never ended on chromosomes of
 one bit

With one bit there is no cut point, and the counter of points still to draw
wrapped around below zero.
---
 eo/src/ga/eoBitOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/ga/eoBitOp.h b/eo/src/ga/eoBitOp.h
index 50e2320..5f85f15 100644
--- a/eo/src/ga/eoBitOp.h
+++ b/eo/src/ga/eoBitOp.h
@@ -404,7 +404,7 @@ public:
         std::vector<bool> points(max_size, false);
 
         // select ranges of bits to swap
-        do {
+        while(max_points) {
             unsigned bit(eo::rng.random(max_size));
             if(points[bit])
                 continue;
@@ -412,7 +412,7 @@ public:
                 points[bit] = true;
                 --max_points;
             }
-        } while(max_points);
+        }
 
         // swap bits between chromosomes
         bool change(false);
-- 
2.43.0


From 4ce72d3ad295b46c49e98c65626cf1c66fa299e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:53 +0000
Subject: [PATCH 003/170] fix: swap, shift and 2-opt mutations never ended on
 solutions of one element

They draw a second position until it differs from the first one.
---
 eo/src/eoShiftMutation.h  | 4 ++++
 eo/src/eoSwapMutation.h   | 4 ++++
 eo/src/eoTwoOptMutation.h | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/eo/src/eoShiftMutation.h b/eo/src/eoShiftMutation.h
index a9b71d6..96ffb59 100644
--- a/eo/src/eoShiftMutation.h
+++ b/eo/src/eoShiftMutation.h
@@ -57,6 +57,10 @@ template<class EOT> class eoShiftMutation: public eoMonOp<EOT>
    */
   bool operator()(EOT& _eo)
     {
+// there is no second position to choose
+if(_eo.size() < 2)
+    return false;
+
 
       unsigned i, j, from, to;
       GeneType tmp;
diff --git a/eo/src/eoSwapMutation.h b/eo/src/eoSwapMutation.h
index 33d04ac..d7cec69 100644
--- a/eo/src/eoSwapMutation.h
+++ b/eo/src/eoSwapMutation.h
@@ -58,6 +58,10 @@ template<class Chrom> class eoSwapMutation: public eoMonOp<Chrom>
    */
   bool operator()(Chrom& chrom)
     {
+      // there is no second position to choose
+      if(chrom.size() < 2)
+          return false;
+
       unsigned i, j;
 
       for(unsigned int swap = 0; swap < howManySwaps; swap++)
diff --git a/eo/src/eoTwoOptMutation.h b/eo/src/eoTwoOptMutation.h
index 054f223..9a6aa45 100644
--- a/eo/src/eoTwoOptMutation.h
+++ b/eo/src/eoTwoOptMutation.h
@@ -52,6 +52,10 @@ public:
     * @param _eo The cromosome which is going to be changed.
     */
     bool operator()(EOT& _eo) {
+        // there is no second position to choose
+        if(_eo.size() < 2)
+            return false;
+
         // generate two different indices
         unsigned i(eo::rng.random(_eo.size()));
         unsigned j;
-- 
2.43.0


From 91281c7836e13d34b07b3519a7516650170ad13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:04 +0000
Subject: [PATCH 004/170] fix: variable-length uniform crossovers duplicated
 genes after a retry

The offspring under construction was not emptied before drawing again, and the
binary version reported no change when the offspring was a copy of the second
parent, so that the fitness of the first one was kept.
---
 eo/src/eoVariableLengthCrossover.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..4c034d3 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -236,6 +236,8 @@ public :
     EOT tmp1, tmp2;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmp2.clear();
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
@@ -296,16 +298,15 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne=true;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmpIsOne=true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-            {
-              tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
-            }
+            tmp1.push_back(_eo1[i]);
           else
             tmpIsOne=false;
         // we should look for _eo1[i] inside _eo2 and erase it there if found!
@@ -317,8 +318,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -331,11 +330,6 @@ public :
       }
 
     _eo1.swap(tmp1);
-    if (tmpIsTwo)
-      {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
     if (tmpIsOne)                  // already has the right fitness
       {                            // WRONG: NO FITNESS EXISTS HERE!
         return false;
-- 
2.43.0


From 4ffc99942065ff02b031b55e8e82eb2c62ff1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:04 +0000
Subject: [PATCH 005/170] fix: deterministic uniform mutation replaced the
 value instead of moving it

Without bounds the mutated coordinate was overwritten by a number around zero,
whatever its value was.
---
 eo/src/es/eoRealOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..debc424 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -207,7 +207,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
           {
             unsigned lieu = rng.random(_eo.size());
             // actually, we should test that we don't re-modify same variable!
-            _eo[lieu] = 2*epsilon[0]*rng.uniform()-epsilon[0];
+            _eo[lieu] += 2*epsilon[0]*rng.uniform()-epsilon[0];
           }
       else
         {
-- 
2.43.0


From 14500f85a2049202fd1885acc8cf4fc58102c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:04 +0000
Subject: [PATCH 006/170] fix: vector normal mutation without bounds read
 outside its sigma vector

The constructor took the standard deviation for the size of the vector.
---
 eo/src/es/eoNormalMutation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 266b101..72385c1 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -58,7 +58,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    * @param _p_change the probability to change a given coordinate
    */
   eoNormalVecMutation(double _sigma, const double& _p_change = 1.0):
-    sigma(_sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
+    sigma(1, _sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
 
   /**
    * Constructor with bounds
@@ -92,7 +92,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
         {
           if (rng.flip(p_change))
             {
-              _eo[lieu] += sigma[lieu]*rng.normal();
+              _eo[lieu] += sigma[sigma.size() == 1 ? 0 : lieu]*rng.normal();
               bounds.foldsInBounds(lieu, _eo[lieu]);
               hasChanged = true;
             }
-- 
2.43.0


From bde71758d0f1cda88b1c3e0f32f9dcfe369a84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:19 +0000
Subject: [PATCH 007/170] fix: elite selection returned the first individual
 instead of the best

---
 eo/src/eoSequentialSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSequentialSelect.h b/eo/src/eoSequentialSelect.h
index 002aca7..310382c 100644
--- a/eo/src/eoSequentialSelect.h
+++ b/eo/src/eoSequentialSelect.h
@@ -104,7 +104,7 @@ class eoEliteSelect: public eoSequentialSelect<EOT>
         virtual const EOT& operator()(const eoPop<EOT>& pop)
         {
             this->setup(pop);
-            return pop[0]; // the best one
+            return eoSequentialSelect<EOT>::operator()(pop); // the best one
         }
 };
 
-- 
2.43.0


From d0beb83743f156392a5a6a6c3cde9ce57f48036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:36 +0000
Subject: [PATCH 008/170] fix: linear fitness scaling gave NaN worths when all
 fitnesses are equal

---
 eo/src/eoLinearFitScaling.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/eoLinearFitScaling.h b/eo/src/eoLinearFitScaling.h
index 269518f..24dcfd2 100644
--- a/eo/src/eoLinearFitScaling.h
+++ b/eo/src/eoLinearFitScaling.h
@@ -27,6 +27,7 @@
 #ifndef eoLinearFitScaling_h
 #define eoLinearFitScaling_h
 
+#include <algorithm>
 #include "eoSelectFromWorth.h"
 #include "eoPerf2Worth.h"
 
@@ -77,6 +78,10 @@ public:
 
         // the coefficients for linear scaling
         double denom = pSize*(bestFitness - averageFitness);
+        if (denom == 0) { // all fitnesses are equal: so are the worthes
+            std::fill(value().begin(), value().end(), 1.0/pSize);
+            return;
+        }
         double alpha = (pressure-1)/denom;
         double beta = (bestFitness - pressure*averageFitness)/denom;
 
-- 
2.43.0


From a399be2341afc0d7a5c66bb34b1326a6484f7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:36 +0000
Subject: [PATCH 009/170] fix: eoHowMany::value ignored positive rates

---
 eo/src/utils/eoHowMany.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index 7804398..a497bc1 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -184,6 +184,8 @@ public:
   {
     if (_interpret_as_rate)
       {
+        rate = _rate;
+        count = 0;
         if (_rate<0)
           {
             rate = 1.0+_rate;
-- 
2.43.0


From d4ae68d314203aba83c9f2774c7ca95004fa568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:29 +0000
Subject: [PATCH 010/170] fix: population shuffles and random permutations
 ignored the seed

---
 eo/src/eoInit.h |  8 ++++----
 eo/src/eoPop.h  | 14 +++++---------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/eo/src/eoInit.h b/eo/src/eoInit.h
index 5230b29..e582500 100644
--- a/eo/src/eoInit.h
+++ b/eo/src/eoInit.h
@@ -34,7 +34,7 @@
 #include "eoOp.h"
 #include "eoSTLFunctor.h"
 #include "utils/eoRndGenerators.h"
-// #include "utils/rnd_generators.h"  // for shuffle method
+#include "utils/eoRNG.h" // for shuffle method
 #include "eoExceptions.h"
 
 
@@ -198,9 +198,9 @@ class eoInitPermutation: public eoInit<EOT> // FIXME inherit from eoInitWithDim
                 chrom[idx] = idx+startFrom;
             }
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            std::shuffle(chrom.begin(), chrom.end(), gen);
+            for(unsigned idx=chrom.size(); idx > 1; idx--) {
+                std::swap(chrom[idx-1], chrom[eo::rng.random(idx)]);
+            }
             chrom.invalidate();
         }
 
diff --git a/eo/src/eoPop.h b/eo/src/eoPop.h
index fe91102..6800a86 100644
--- a/eo/src/eoPop.h
+++ b/eo/src/eoPop.h
@@ -45,7 +45,7 @@ Authors:
 #include "eoOp.h" // for eoInit
 #include "eoPersistent.h"
 #include "eoInit.h"
-// #include "utils/rnd_generators.h"  // for shuffle method
+#include "utils/eoRNG.h" // for shuffle method
 #include "eoExceptions.h"
 
 /** A std::vector of EO object, to be used in all algorithms
@@ -183,10 +183,8 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
         */
         void shuffle(void)
         {
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            //UF_random_generator<unsigned int> gen; // FIXME refactor
-            std::shuffle(begin(), end(), gen);
+            for (unsigned i = size(); i > 1; --i)
+                std::swap(operator[](i - 1), operator[](eo::rng.random(i)));
         }
 
 
@@ -197,10 +195,8 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
 
             std::transform(begin(), end(), result.begin(), Ref());
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            //UF_random_generator<unsigned int> gen; // FIXME refactor
-            std::shuffle(result.begin(), result.end(), gen);
+            for (unsigned i = result.size(); i > 1; --i)
+                std::swap(result[i - 1], result[eo::rng.random(i)]);
         }
 
 
-- 
2.43.0


From 8d344cd352f95e83a080e5820271997bfeffcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:29 +0000
Subject: [PATCH 011/170] fix: bucket bit mutation drew from the C library
 generator and ignored the seed

---
 eo/src/ga/eoStandardBitMutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 32ece13..77d31ce 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -301,7 +301,7 @@ class eoBucketBitMutation : public eoMonOp<EOT>
 
             int nbBits;
             if (gapBit > 0) {
-                nbBits = rand() % gapBit + startBit;
+                nbBits = eo::rng.random(gapBit) + startBit;
             } else {
                 nbBits = endBit;
             }
-- 
2.43.0


From 91f13c8135325434f3b9e37b0a5d38cb80a11e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:29 +0000
Subject: [PATCH 012/170] fix: random neighbourhood order ignored the seed

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..7209a5d 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -86,14 +86,8 @@ public:
       for(unsigned int i = 0; i < LSvector.size(); i++) {
           order.push_back(i); }
 
-#if __cplusplus >= 201103L
-    std::random_device rd;
-    std::mt19937 gen(rd());
-    std::shuffle(order.begin(), order.end(), gen);
-#else
-    UF_random_generator<unsigned int> gen(order.size());
-    std::random_shuffle(order.begin(), order.end(), gen);
-#endif
+    for(unsigned int i = order.size(); i > 1; i--)
+      std::swap(order[i - 1], order[eo::rng.random(i)]);
 
     currentOrder = 0;
     current = order[currentOrder];
-- 
2.43.0


From 49a03f5467a0560d13d5fc32d813a505f1f000ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:29 +0000
Subject: [PATCH 013/170] fix: archive and unvisited selections ignored the
 seed

---
 moeo/src/selection/moeoDetArchiveSelect.h      | 7 ++-----
 moeo/src/selection/moeoNumberUnvisitedSelect.h | 5 ++---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..708a7db 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -74,11 +74,8 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 					std::vector <int> permutation;
 					for(unsigned int i=0; i < archive_size; i++)
 						permutation.push_back(i);
-					// UF_random_generator<unsigned int> rndGen(permutation.size());
-					// random_shuffle(permutation.begin(), permutation.end(), rndGen);
-					std::random_device rd;
-					std::mt19937 gen(rd());
-					std::shuffle(permutation.begin(), permutation.end(), gen);
+					for (unsigned int i=archive_size; i>1; i--)
+						std::swap(permutation[i-1], permutation[eo::rng.random(i)]);
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
 				}
diff --git a/moeo/src/selection/moeoNumberUnvisitedSelect.h b/moeo/src/selection/moeoNumberUnvisitedSelect.h
index 5a23843..fbd210d 100644
--- a/moeo/src/selection/moeoNumberUnvisitedSelect.h
+++ b/moeo/src/selection/moeoNumberUnvisitedSelect.h
@@ -74,9 +74,8 @@ public:
                 res.push_back(i);
         }
         if(number < res.size()){
-            std::random_device rd;
-            std::mt19937 gen(rd());
-            std::shuffle(res.begin(), res.end(), gen);
+            for (unsigned int i=res.size(); i>1; i--)
+                std::swap(res[i-1], res[eo::rng.random(i)]);
             res.resize(number);
         }
         return res;
-- 
2.43.0


From 609ae019341cb0e8d3a4cabe591c5adef2a7386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:02 +0000
Subject: [PATCH 014/170] fix: roulette wheel on a population could run past
 its end by single precision rounding

---
 eo/src/utils/selectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index fda0633..b043cd3 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -255,7 +255,7 @@ const EOT& roulette_wheel(const eoPop<EOT>& _pop, double total, eoRng& _gen = rn
 template <class EOT>
 EOT& roulette_wheel(eoPop<EOT>& _pop, double total, eoRng& _gen = rng)
 {
-    float roulette = _gen.uniform(total);
+    double roulette = _gen.uniform(total);
 
     if (roulette == 0.0)           // covers the case where total==0.0
       return _pop[_gen.random(_pop.size())]; // uniform choice
-- 
2.43.0


From 99a13363312a6baaf135a83b6fb95c769a1f98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:02 +0000
Subject: [PATCH 015/170] fix: elitism merged the whole parent population
 instead of the elite

---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From b06ca99525e8f222d0946de807213b2b40c05e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:15 +0000
Subject: [PATCH 016/170] fix: weak elitism never kept the last elite parent

---
 eo/src/eoReduceMergeReduce.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoReduceMergeReduce.h b/eo/src/eoReduceMergeReduce.h
index d12a2b6..27ba4fc 100644
--- a/eo/src/eoReduceMergeReduce.h
+++ b/eo/src/eoReduceMergeReduce.h
@@ -118,9 +118,10 @@ public:
             {
               unsigned toSave = 0;
               _parents.sort();
+              temp.sort();
               EOT & eoLimit = _parents[elite-1];
               unsigned index=0;
-              while ( (temp[index++] > eoLimit) && (index < temp.size()) )
+              while ( (index < temp.size()) && (temp[index++] > eoLimit) )
                 toSave++;
               if (toSave)
                 for (unsigned i=0; i<toSave; i++)
-- 
2.43.0


From 7177cb070ab41069572e4f2c972edb30d84af91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:30 +0000
Subject: [PATCH 017/170] fix: splits did not refuse to eliminate more
 individuals than there are

---
 eo/src/eoReduceSplit.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index b310087..0df28ea 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -64,7 +64,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoTruncateSplit: Cannot truncate to a larger size!\n");
 
@@ -141,7 +141,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoRandomSplit: Cannot truncate to a larger size!\n");
 
@@ -180,7 +180,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoLinearRandomSplit: Cannot truncate to a larger size!\n");
 
@@ -232,7 +232,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
@@ -299,7 +299,7 @@ end of old version    */
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
-- 
2.43.0


From b7a953607bb9040386ab38be1dade899a3c19348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:30 +0000
Subject: [PATCH 018/170] fix: eoLinearRandomSplit could not be instantiated

---
 eo/src/eoReduceSplit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index 0df28ea..14d7f19 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -187,7 +187,7 @@ public:
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
     for (unsigned i=0; i<eliminated; i++)
       {
-        unsigned loser=random(_newgen.size());
+        unsigned loser=eo::rng.random(_newgen.size());
         typename eoPop<EOT>::iterator it = _newgen.begin()+loser;
         if (returnEliminated)
           _eliminated.push_back(*it);
-- 
2.43.0


From dd4573a971b02435ce9da0101694ba22f3c5aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:30 +0000
Subject: [PATCH 019/170] fix: eoStochTournamentTruncateSplit could not be
 instantiated and eliminated nobody

---
 eo/src/eoReduceSplit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index 14d7f19..a541686 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -257,7 +257,7 @@ private:
 To be used in SSGA-like replacements (e.g. see eoSSGAStochTournamentReplacement)
 */
 template <class EOT>
-class eoStochTournamentTruncateSplit : public eoReduce<EOT>
+class eoStochTournamentTruncateSplit : public eoReduceSplit<EOT>
 {
 public:
   /** Ctor: must provide amount of reduction,
@@ -306,7 +306,7 @@ end of old version    */
 
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
-    for (unsigned i=0; i<_eliminated.size(); i++)
+    for (unsigned i=0; i<eliminated; i++)
       {
         typename eoPop<EOT>::iterator it = inverse_stochastic_tournament(_newgen.begin(), _newgen.end(), t_rate);
         if (returnEliminated)
-- 
2.43.0


From b783f5a4cce73cdd54224264a482667c9bd32250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:30 +0000
Subject: [PATCH 020/170] fix: inverse deterministic tournament never ended on
 one individual

---
 eo/src/utils/selectors.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index b043cd3..f593b00 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -305,6 +305,9 @@ It inverse_deterministic_tournament(It _begin, It _end, unsigned _t_size, eoRng&
 {
     It worst = _begin + _gen.random(_end - _begin);
 
+  if (_end - _begin < 2) // no other competitor
+    return worst;
+
     for (unsigned i = 1; i < _t_size; ++i)
     {
         It competitor = _begin + _gen.random(_end - _begin);
-- 
2.43.0


From be32b75acd9b0178d16d8a8e6ae54c91ec0ddfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:35 +0000
Subject: [PATCH 021/170] fix: eoRealToIntInit left the old fitness on the
 solution it initialised

---
 eo/src/eoRealToIntInit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/eoRealToIntInit.h b/eo/src/eoRealToIntInit.h
index 4b79ca6..334ea55 100644
--- a/eo/src/eoRealToIntInit.h
+++ b/eo/src/eoRealToIntInit.h
@@ -59,6 +59,7 @@ public:
             }
             intsol[i] = static_cast<typename EOTINT::AtomType>(rounded);
         }
+        intsol.invalidate();
     }
 
 protected:
-- 
2.43.0


From 405881cdb6df251707ffca02dc9763bf67265f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:35 +0000
Subject: [PATCH 022/170] fix: the sequential populator threw an exception that
 nobody could catch

---
 eo/src/eoPopulator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/eoPopulator.h b/eo/src/eoPopulator.h
index 9c8d28a..51f1708 100644
--- a/eo/src/eoPopulator.h
+++ b/eo/src/eoPopulator.h
@@ -167,7 +167,7 @@ public:
     /** the select method simply returns next individual in the src pop */
     const EOT& select(void) {
         if(current >= eoPopulator< EOT >::src.size()) {
-            throw OutOfIndividuals();
+            throw typename eoPopulator<EOT>::OutOfIndividuals();
         }
 
         const EOT& res = src[current++];
@@ -177,8 +177,6 @@ public:
 
 private:
 
-    struct OutOfIndividuals {};
-
     unsigned current;
 };
 
-- 
2.43.0


From 205b13365ef0b75d54291569840779c023b6fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:35 +0000
Subject: [PATCH 023/170] fix: eoInvertedContinue could not be instantiated

---
 eo/src/eoInvertedContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoInvertedContinue.h b/eo/src/eoInvertedContinue.h
index 9b723a5..9d1ff05 100644
--- a/eo/src/eoInvertedContinue.h
+++ b/eo/src/eoInvertedContinue.h
@@ -55,7 +55,7 @@ public:
   virtual std::string className(void) const { return "eoInvertedContinue"; }
   
 private:
-  eoContinue<EOT> &eval;
+  eoContinue<EOT> &cont;
 
 };
 
-- 
2.43.0


From 5290f01d6f44c1b69ab858ebee4b9fcc18ccd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:53 +0000
Subject: [PATCH 024/170] fix: eoEvalTimeThrowException could not be
 instantiated and did not count evaluations

---
 eo/src/eoEvalTimeThrowException.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..b968dec 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From c473cbf2e973183b6db8c421dc29afc1abb4c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:53 +0000
Subject: [PATCH 025/170] fix: eoEvalUserTimeThrowException did not count
 evaluations

---
 eo/src/eoEvalUserTimeThrowException.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..08476dc 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 5df328b5747410310ae9ecf888749cfb64bcbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:53 +0000
Subject: [PATCH 026/170] fix: eoSteadyFitContinue compared with an unset best
 when created on a running counter

---
 eo/src/eoSteadyFitContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSteadyFitContinue.h b/eo/src/eoSteadyFitContinue.h
index 0b63c5e..d8fc820 100644
--- a/eo/src/eoSteadyFitContinue.h
+++ b/eo/src/eoSteadyFitContinue.h
@@ -53,7 +53,7 @@ public:
   eoSteadyFitContinue( unsigned long _minGens, unsigned long _steadyGen,
                  unsigned long& _currentGen)
     : eoCountContinue<EOT>( _currentGen ), repMinGenerations( _minGens ), repSteadyGenerations( _steadyGen),
-      steadyState(_currentGen>_minGens)
+      steadyState(false)
     {};
 
   /** Returns false when a certain number of generations is
-- 
2.43.0


From 02872073f9021ad57d75523173a0cbd283976ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:33 +0000
Subject: [PATCH 027/170] fix: power law draws left the requested range

---
 eo/src/utils/eoRNG.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index 593dc45..7f9fb04 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -234,7 +234,7 @@ public :
      */
     double powerlaw(double min, double max, double gamma)
        {
-            double x = uniform(min,max);
+            double x = uniform();
             return std::pow(
                      x * (std::pow(max,-gamma+1) - std::pow(min,-gamma+1))
                        + std::pow(min,-gamma+1.0),
-- 
2.43.0


From 2b203fc7f6f2944bedcfe0f40d72d0bec513c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:33 +0000
Subject: [PATCH 028/170] fix: a saved generator lost digits of its pending
 normal deviate

---
 eo/src/utils/eoRNG.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index 7f9fb04..481644e 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -125,7 +125,7 @@ public :
     @see reseed for details on usage of the seeding value.
     */
     eoRng(uint32_t s)
-        : state(0), next(0), left(-1), cached(false)
+        : state(0), next(0), left(-1), cached(false), cacheValue(0)
         {
             state = new uint32_t[N+1];
             initialize(2*s);
@@ -362,7 +362,10 @@ public :
                 _os << state[i] << ' ';
             }
             _os << int(next - state) << ' ';
+            // enough digits to give back the very same normal deviate
+            std::streamsize precision = _os.precision(17);
             _os << left << ' ' << cached << ' ' << cacheValue;
+            _os.precision(precision);
         }
 
     /** @brief Read RNG
-- 
2.43.0


From bbf311fcea78f91dfad2fc992f747e341854a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:01 +0000
Subject: [PATCH 029/170] fix: weighted choice could run past the weights by
 single precision rounding

---
 eo/src/utils/eoRNG.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index 481644e..afb59bc 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -313,14 +313,15 @@ public :
     template <typename TYPE>
     int roulette_wheel(const std::vector<TYPE>& vec, TYPE total = 0)
         {
+            double sum = total;
             if (total == 0)
             { // count
                 for (unsigned    i = 0; i < vec.size(); ++i)
-                    total += vec[i];
+                    sum += vec[i];
             }
-            double fortune = uniform() * total;
+            double fortune = uniform() * sum;
             int i = 0;
-            while (fortune >= 0)
+            while (fortune >= 0 && i < int(vec.size()))
             {
                 fortune -= vec[i++];
             }
-- 
2.43.0


From 001d23beb56a75d5e792e7970c30cdad1dac6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:51 +0000
Subject: [PATCH 030/170] fix: folding moved large values that were already
 inside their interval

---
 eo/src/utils/eoIntBounds.h  | 3 +++
 eo/src/utils/eoRealBounds.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 73b1854..7616c0b 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -285,6 +285,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c760318..09af1f2 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -271,6 +271,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
-- 
2.43.0


From ebc14623d11d0dbd777d28c41d79932bb5fe1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:51 +0000
Subject: [PATCH 031/170] fix: bounds sampled from the global generator instead
 of the given one

---
 eo/src/utils/eoIntBounds.h        | 4 ++--
 eo/src/utils/eoRealBounds.h       | 2 +-
 eo/src/utils/eoRealVectorBounds.h | 4 +---
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 7616c0b..c11d6a0 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -691,12 +691,12 @@ public:
   /** random generator of uniform doubles in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** random generator of uniform ints in bounds
    * std::exception if unbounded
    */
-  virtual long int random(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->random();}
+  virtual long int random(eoRng & _rng = eo::rng)  const {return repBound->random(_rng);}
 
   /** for memory managements - ugly */
   virtual eoIntBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index 09af1f2..f63f722 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -660,7 +660,7 @@ public:
   /** random generator of uniform numbers in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** for memory managements - ugly */
   virtual eoRealBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealVectorBounds.h b/eo/src/utils/eoRealVectorBounds.h
index d877853..e7e14b5 100644
--- a/eo/src/utils/eoRealVectorBounds.h
+++ b/eo/src/utils/eoRealVectorBounds.h
@@ -187,9 +187,7 @@ public:
    */
   virtual double uniform(unsigned _i, eoRng & _rng = eo::rng)
   {
-    (void)_rng;
-
-    double r= (*this)[_i]->uniform();
+    double r= (*this)[_i]->uniform(_rng);
     return r;
   }
 
-- 
2.43.0


From a7296485c5d6dc820545f28a13303e045bc84fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:57 +0000
Subject: [PATCH 032/170] fix: a copy of vector bounds kept using the bounds
 owned by the original

---
 eo/src/utils/eoRealBounds.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRealBounds.cpp b/eo/src/utils/eoRealBounds.cpp
index c80c655..9d5f156 100644
--- a/eo/src/utils/eoRealBounds.cpp
+++ b/eo/src/utils/eoRealBounds.cpp
@@ -7,6 +7,7 @@
 #include <config.h>
 #endif
 
+#include <algorithm>
 #include <ctime>
 #include <sstream>
 
@@ -56,7 +57,11 @@ eoRealVectorBounds::eoRealVectorBounds(const eoRealVectorBounds & _b):
   // duplicate all pointers!
   if (ownedBounds.size()>0)
     for (unsigned i=0; i<ownedBounds.size(); i++)
-      ownedBounds[i] = ownedBounds[i]->dup();
+      {
+        ownedBounds[i] = ownedBounds[i]->dup();
+        // and use the duplicates, not the bounds owned by the original
+        std::replace(begin(), end(), _b.ownedBounds[i], ownedBounds[i]);
+      }
 }
 
 
-- 
2.43.0


From 1a1c21825cbf722b86b8f61b266b598dd2bdf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 033/170] fix: folding on a null range left the interval

---
 eo/src/utils/eoRealBounds.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index f63f722..edf663b 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -274,6 +274,12 @@ public :
     if (isInBounds(_r))
       return;
 
+    if (dlargloc == 0)			// null range: nothing to fold on
+      {
+        truncate(_r);
+        return;
+      }
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
-- 
2.43.0


From e01e9c4e5232c41d262e7def82a3f88f9bc5a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 034/170] fix: folding could leave the interval by one rounding
 error

---
 eo/src/utils/eoRealBounds.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index edf663b..a08454a 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -301,6 +301,8 @@ public :
         if (_r < minimum())
           _r = 2*minimum() - _r ;
       }
+
+    truncate(_r);		// rounding may have left the last bit outside
   }
 
   // truncates to the bounds
-- 
2.43.0


From e858c1264e1a3b60d5aa80a5d26b73a81c037989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:29 +0000
Subject: [PATCH 035/170] fix: reading a vector parameter dropped the first
 character of every value

---
 eo/src/utils/eoParam.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 969ea00..85f09d6 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -349,10 +349,9 @@ inline void eoValueParam<std::vector<double> >::setValue(const std::string& _val
     is >> sz;
     repValue.resize(sz);
     for(unsigned i=0; i<repValue.size(); ++i) {
-        char c;
-        do {
-            is >> c;
-        } while((std::string::npos != delimiter.find(c)) && (! is.eof()));
+        // skip the delimiters, not the first character of the number
+        while((is >> std::ws) && (! is.eof()) && (std::string::npos != delimiter.find(is.peek())))
+            is.get();
         is >> repValue[i];
     }
 }
-- 
2.43.0


From 8140c74176c3d359e6647ddcf64e10861a3d9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:46 +0000
Subject: [PATCH 036/170] fix: arguments of a parametrised parameter were cut
 wrongly, or read forever

---
 eo/src/utils/eoParam.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 85f09d6..7ded576 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -485,9 +485,10 @@ public:
             while ( (pos=t.find_first_not_of(delim)) < t.size())
             {
                 size_t posEnd = t.find_first_of(delim, pos);
-                std::string u = t.substr(pos,posEnd);//(t, pos);
-                /*u.resize(posEnd - pos);*/
+                std::string u = t.substr(pos,posEnd-pos);
                 second.push_back(u);
+                if (posEnd == std::string::npos) // no closing parenthesis
+                    break;
                 t = t.substr(posEnd+1);
             }
         }
-- 
2.43.0


From c3c8a00027fa71ca924a6312fcbb2bafad55201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:52 +0000
Subject: [PATCH 037/170] fix: the long form on the command line could not
 override the short form of a parameter file

---
 eo/src/utils/eoParser.cpp | 16 ++++++++++++----
 eo/src/utils/eoParser.h   |  5 +++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/eo/src/utils/eoParser.cpp b/eo/src/utils/eoParser.cpp
index a7c3c18..54c4700 100644
--- a/eo/src/utils/eoParser.cpp
+++ b/eo/src/utils/eoParser.cpp
@@ -174,6 +174,7 @@ std::pair<bool, std::string> eoParser::getValue(eoParam& _param) const
 {
     std::pair<bool, std::string> result(false, "");
 
+    unsigned shortRank = 0;
     if (_param.shortName() != 0)
     {
         std::map<char, std::string>::const_iterator it = shortNameMap.find(_param.shortName());
@@ -181,15 +182,20 @@ std::pair<bool, std::string> eoParser::getValue(eoParam& _param) const
         {
             result.second = it->second;
             result.first = true;
-            return result;
+            std::map<char, unsigned>::const_iterator r = shortNameRank.find(_param.shortName());
+            shortRank = (r == shortNameRank.end() ? 0 : r->second);
         }
     }
     std::map<std::string, std::string>::const_iterator it = longNameMap.find(_param.longName());
     if (it != longNameMap.end())
     {
-        result.second = it->second;
-        result.first = true;
-        return result;
+        std::map<std::string, unsigned>::const_iterator r = longNameRank.find(_param.longName());
+        // if both forms were given, the last one read is the good one
+        if (!result.first || (r != longNameRank.end() && r->second > shortRank))
+        {
+            result.second = it->second;
+            result.first = true;
+        }
     }
     //! @todo check environment, just long names
     return result;
@@ -247,6 +253,7 @@ void eoParser::readFrom(std::istream& is)
 
                     std::string name(str.begin() + 2, equalLocation);
                     longNameMap[name] = value;
+                    longNameRank[name] = ++rank;
                 }
                 else // it should be a char
                 {
@@ -266,6 +273,7 @@ void eoParser::readFrom(std::istream& is)
                     }
 
                     shortNameMap[str[1]] = value;
+                    shortNameRank[str[1]] = ++rank;
                 }
             }
         }
diff --git a/eo/src/utils/eoParser.h b/eo/src/utils/eoParser.h
index 8e1df04..891f31a 100644
--- a/eo/src/utils/eoParser.h
+++ b/eo/src/utils/eoParser.h
@@ -340,6 +340,11 @@ private:
   typedef std::map<std::string, std::string> LongNameMapType;
   LongNameMapType longNameMap;
 
+  // the order in which the names were read: the last form given is the one used
+  std::map<char, unsigned> shortNameRank;
+  std::map<std::string, unsigned> longNameRank;
+  unsigned rank = 0;
+
   // flag that marks if the user need to know that there was a problem
   // used to display the message about "-h" only once
   bool needHelpMessage;
-- 
2.43.0


From 4e9d5758d6f1e2b397d492540ab85de8384246dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:23 +0000
Subject: [PATCH 038/170] fix: negative numbers were printed but not read by
 eoHowMany

---
 eo/src/utils/eoHowMany.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index a497bc1..84a3f94 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -166,7 +166,7 @@ public:
       count = int(rate);           // and rate will not be used
 
     // minimal check
-    if ( rate < 0.0 )
+    if ( interpret_as_rate && rate < 0.0 )
       throw eoException("Negative rate read in eoHowMany::readFrom");
   }
 
-- 
2.43.0


From 9ca249bbf4a04eec738ce509486d3cf03c90892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:32 +0000
Subject: [PATCH 039/170] fix: loading a state ignored every section

---
 eo/src/utils/eoState.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 6a46dc6..80975f8 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -36,7 +36,13 @@ bool eoState::is_section(const std::string& str, std::string& name)
         return false;
     //else
 
-    std::string::size_type end = str.find(_tag_section_sc);
+    // the line was read without its end of line
+    std::string tag = _tag_section_sc;
+    if (!tag.empty() && tag[tag.size()-1] == '\n')
+        tag.erase(tag.size()-1);
+
+    pos += _tag_section_so.size();
+    std::string::size_type end = str.find(tag, pos);
 
     if (end == std::string::npos)
         return false;
@@ -44,7 +50,7 @@ bool eoState::is_section(const std::string& str, std::string& name)
 
     // affect name, passed by reference
     // Note: substr( start, count )
-    name = str.substr( pos + _tag_section_so.size(), end - _tag_section_so.size() );
+    name = str.substr( pos, end - pos );
 
     return true;
 }
-- 
2.43.0


From ea7fdad5ff9766c4c826dcc97b09eefd9b557e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:43 +0000
Subject: [PATCH 040/170] fix: a saved state lost digits of its real numbers

---
 eo/src/utils/eoState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 80975f8..db64aee 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <limits>
 #include <sstream>
 
 #include "eoState.h"
@@ -191,6 +192,9 @@ void eoState::saveSection( std::ostream& os, std::vector<ObjectMap::iterator>::c
 
 void eoState::save(std::ostream& os) const
 {
+    // enough digits to load the very same numbers
+    std::streamsize precision = os.precision(std::numeric_limits<double>::max_digits10);
+
     os << _tag_state_so << _tag_state_name << _tag_state_sc;
    
     // save the first section
@@ -207,6 +211,7 @@ void eoState::save(std::ostream& os) const
         it++;
     }
     os << _tag_state_e;
+    os.precision(precision);
 }
 
 
-- 
2.43.0


From 37f0c8842278d99e662612c9f4ea0847439ba088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:43 +0000
Subject: [PATCH 041/170] fix: a fitness written in several words was not read
 back

---
 eo/src/EO.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/eo/src/EO.h b/eo/src/EO.h
index 09bb2d2..5395bbd 100644
--- a/eo/src/EO.h
+++ b/eo/src/EO.h
@@ -130,6 +130,7 @@ public:
   virtual void readFrom(std::istream& _is)
   {
         std::string fitness_str;
+        std::streampos pos = _is.tellg();
         _is >> fitness_str;
 
         if (fitness_str == invalidTag)
@@ -141,6 +142,18 @@ public:
                 invalidFitness = false;
                 std::istringstream iss(fitness_str);
                 iss >> repFitness;
+                if (iss.fail() && pos != std::streampos(-1))
+                {
+                        // maybe a fitness that is written in several words
+                        std::streampos next = _is.tellg();
+                        _is.seekg(pos);
+                        _is >> repFitness;
+                        if (_is.fail())
+                        {
+                                _is.clear();
+                                _is.seekg(next);
+                        }
+                }
         }
   }
 
-- 
2.43.0


From 4bb43084304dc0f6971ca62a01d879c131616e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:02 +0000
Subject: [PATCH 042/170] fix: the nth fitness statistic read one element past
 the population

---
 eo/src/utils/eoStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 9803f66..54d9516 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -250,7 +250,7 @@ public :
 
     virtual void operator()(const std::vector<const EOT*>& _pop)
     {
-        if (whichElement > _pop.size())
+        if (whichElement >= _pop.size())
             throw eoException("fitness requested of element outside of pop");
 
         doit(_pop, Fitness());
-- 
2.43.0


From 2c11efc0e1b74d1476fda51d85ce83f00a71ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:51 +0000
Subject: [PATCH 043/170] fix: population dumps read past populations smaller
 than the requested number

---
 eo/src/utils/eoPopStat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoPopStat.h b/eo/src/utils/eoPopStat.h
index 8102af0..3598c2a 100644
--- a/eo/src/utils/eoPopStat.h
+++ b/eo/src/utils/eoPopStat.h
@@ -70,7 +70,7 @@ that are written by the monitor it is probably used from.
 void operator()(const eoPop<EOT>& _pop)
 {
   value() = "\n# ====== pop dump =====\n";
-  unsigned howmany=combien?combien:_pop.size();
+  unsigned howmany=(combien && combien<_pop.size())?combien:_pop.size();
   for (unsigned i = 0; i < howmany; ++i)
   {
       std::ostringstream os;
@@ -120,7 +120,7 @@ public:
     void operator()(const std::vector<const EOT*>& _pop)
         {
     value() = "";                  // empty
-    unsigned howMany=combien?combien:_pop.size();
+    unsigned howMany=(combien && combien<_pop.size())?combien:_pop.size();
     for (unsigned i = 0; i < howMany; ++i)
       {
         std::ostringstream os;
-- 
2.43.0


From 3be136aa9300ca928fae5616484421968e9f6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:51 +0000
Subject: [PATCH 044/170] fix: file snapshots wrote the second vector in place
 of all the following ones

---
 eo/src/utils/eoFileSnapshot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoFileSnapshot.h b/eo/src/utils/eoFileSnapshot.h
index 3c70958..1c4b1e5 100644
--- a/eo/src/utils/eoFileSnapshot.h
+++ b/eo/src/utils/eoFileSnapshot.h
@@ -148,7 +148,7 @@ public :
         vv[0]=v;
         for (unsigned i=1; i<vec.size(); i++)
           {
-            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[1]);
+            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[i]);
             vv[i] = ptParam->value();
             if (vv[i].size() != v.size())
               throw eoException("Dimension error in eoSnapshotMonitor");
-- 
2.43.0


From 3c81b9d02604619fc7159d8a22902e9cdb5f8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:39 +0000
Subject: [PATCH 045/170] fix: the standard deviation of equal fitnesses could
 be not a number

---
 eo/src/utils/eoStat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 54d9516..da666e1 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -33,6 +33,7 @@ Contact: http://eodev.sourceforge.net
 #define _eoStat_h
 
 #include <iostream>
+#include <algorithm> // max
 #include <numeric> // accumulate
 
 #include "../eoFunctor.h"
@@ -221,7 +222,7 @@ public :
 
         double n = _pop.size();
         value().first = result.first / n; // average
-        value().second = sqrt( (result.second - n * value().first * value().first) / (n - 1.0)); // stdev
+        value().second = sqrt( std::max(0.0, result.second - n * value().first * value().first) / (n - 1.0)); // stdev
     }
 
     virtual std::string className(void) const { return "eoSecondMomentStats"; }
-- 
2.43.0


From ab4daff96926d066e65c55d98e2d0cad7ac507a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:37 +0000
Subject: [PATCH 046/170] fix: the strongly typed tree operators did not
 compile

---
 eo/src/gp/eoStParseTreeOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index d5b520b..64a9fdf 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -30,7 +30,7 @@
 
 #include "../EO.h"
 #include "../eoOp.h"
-#include <map.h>
+#include <map>
 #include <iostream>
 #include <set>
 
-- 
2.43.0


From cb73e931b1872c4ef2702a5e1a351cf269d2d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:37 +0000
Subject: [PATCH 047/170] fix: copying a branch inside one tree left the sizes
 of its ancestors unchanged

---
 eo/src/gp/parse_tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index 6b9ab80..b3b5ead 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -243,7 +243,9 @@ public :
             if (s.get_root() == get_root())
         { // from the same tree, maybe a child. Don't take any chances
             subtree anotherS = s;
-            return copy(anotherS);
+            copy(anotherS);
+            updateAfterInsert();
+            return *this;
         }
 
                 copy(s);
-- 
2.43.0


From 3955a879c6e2e52f1e1dbd4deeac5f85dcf79aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:37 +0000
Subject: [PATCH 048/170] fix: swapping branches of two trees mixed up their
 parents and sizes

---
 eo/src/gp/parse_tree.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index b3b5ead..e34ed0e 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -383,12 +383,11 @@ public :
         adopt();
         y.adopt();
 
-        do_the_swap(parent, y.parent);
-
         do_the_swap(_cumulative_size, y._cumulative_size);
         do_the_swap(_depth, y._depth);
         do_the_swap(_size, y._size);
                 updateAfterInsert();
+                y.updateAfterInsert();
         }
 
 protected :
-- 
2.43.0


From 63ca9eaf060c5ef61b0761a4c158a236b2b98515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:37 +0000
Subject: [PATCH 049/170] fix: strongly typed point mutation ignored the types
 of the arguments

---
 eo/src/gp/eoStParseTreeOp.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index 64a9fdf..71b5ec2 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -240,10 +240,23 @@ public:
         int i = rng.random(_eo1.size());
         int arity = _eo1[i].arity();
         int type = _eo1[i]->type();
-        int j = rng.random(node[type][arity].size());
 
-
-        _eo1[i] = node[type][arity][j];
+        // the arguments stay in place, so they must have the expected types
+        std::vector<Node> same;
+        for(unsigned int n=0; n < node[type][arity].size(); n++)
+        {
+                const Node& candidate = node[type][arity][n];
+                int a=0;
+                while (a < arity && candidate.type(a) == _eo1[i]->type(a))
+                        a++;
+                if (a == arity)
+                        same.push_back(candidate);
+        }
+        if (same.empty())
+                return false;
+        int j = rng.random(same.size());
+
+        _eo1[i] = same[j];
         return true;
   }
 
-- 
2.43.0


From 65093bb1c4321edb03e93c4093473c564b776b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:13 +0000
Subject: [PATCH 050/170] fix: the star topology could not be instantiated

globalBest did not override the pure virtual function of eoTopology.
---
 eo/src/eoStarTopology.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoStarTopology.h b/eo/src/eoStarTopology.h
index 6083dbb..73b9699 100644
--- a/eo/src/eoStarTopology.h
+++ b/eo/src/eoStarTopology.h
@@ -114,7 +114,7 @@ public:
          * Return the global best of the topology
          */
 
-    virtual POT & globalBest(const eoPop<POT>&)
+    virtual POT & globalBest()
     {
         return neighborhood.best();
     }
-- 
2.43.0


From 14bed45fb6e2680e4c5d71763fbdb94f1319d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:13 +0000
Subject: [PATCH 051/170] fix: three inertia weighted velocities could not be
 instantiated

getTopology is pure virtual in eoVelocity and was not defined.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 9 +++++++++
 eo/src/eoFixedInertiaWeightedVelocity.h      | 9 +++++++++
 eo/src/eoVariableInertiaWeightedVelocity.h   | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index cff14bc..488b4a3 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -187,6 +187,15 @@ public:
 
 
 
+    /**
+     * get the topology
+     * @return topology
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 protected:
     eoTopology < POT > & topology;
 
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 996845c..74a5954 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -173,6 +173,15 @@ public:
 
 
 
+    /**
+     * get the topology
+     * @return topology
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 protected:
     eoTopology < POT > & topology;
     const VelocityType & c1;    // learning factor 1
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 33bbe4f..b74b02b 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -179,6 +179,15 @@ public:
 
 
 
+    /**
+     * get the topology
+     * @return topology
+     */
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 protected:
     eoTopology < POT > & topology;
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
-- 
2.43.0


From 8f9fbe0c1ed4fdd779588711ff6b7d4cbfbce32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:13 +0000
Subject: [PATCH 052/170] fix: particle velocities kept references to temporary
 coefficients

The coefficients are usually given as literals, so the references
were dangling as soon as the constructor returned.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 6 +++---
 eo/src/eoConstrictedVelocity.h               | 6 +++---
 eo/src/eoExtendedVelocity.h                  | 8 ++++----
 eo/src/eoFixedInertiaWeightedVelocity.h      | 6 +++---
 eo/src/eoIntegerVelocity.h                   | 6 +++---
 eo/src/eoLinearDecreasingWeightUp.h          | 4 ++--
 eo/src/eoStandardVelocity.h                  | 6 +++---
 eo/src/eoVariableInertiaWeightedVelocity.h   | 4 ++--
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index 488b4a3..2e6e7ee 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -199,11 +199,11 @@ public:
 protected:
     eoTopology < POT > & topology;
 
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
 
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index 2e13bc1..aa41987 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -183,9 +183,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index bcbd51c..36024e5 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -193,10 +193,10 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 74a5954..31fa00b 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -184,9 +184,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
-    const VelocityType & weight;   // the fixed weight
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
+    const VelocityType weight;   // the fixed weight
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 2ff8108..d65dcc4 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoLinearDecreasingWeightUp.h b/eo/src/eoLinearDecreasingWeightUp.h
index e6a1b31..57243dd 100644
--- a/eo/src/eoLinearDecreasingWeightUp.h
+++ b/eo/src/eoLinearDecreasingWeightUp.h
@@ -67,8 +67,8 @@ public:
     }
 
 protected:
-    const StopCriteriaType & stop;
-    const WeightType & initialValue,finalValue;
+    const StopCriteriaType stop;
+    const WeightType initialValue,finalValue;
     eoValueParam<StopCriteriaType> & counter; // a counter of the number of past events (should say "generations")
 };
 
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index 3f67eec..b1c22b8 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index b74b02b..b98d346 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -191,8 +191,8 @@ public:
 protected:
     eoTopology < POT > & topology;
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
 
         eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
-- 
2.43.0


From 95d2f0b8af8b53260604b4f9944fae50f37e0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:13 +0000
Subject: [PATCH 053/170] fix: particle velocities ignored the random generator
 they were given

---
 eo/src/eoConstrictedVariableWeightVelocity.h | 4 ++--
 eo/src/eoConstrictedVelocity.h               | 4 ++--
 eo/src/eoExtendedVelocity.h                  | 6 +++---
 eo/src/eoFixedInertiaWeightedVelocity.h      | 4 ++--
 eo/src/eoIntegerVelocity.h                   | 4 ++--
 eo/src/eoStandardVelocity.h                  | 4 ++--
 eo/src/eoVariableInertiaWeightedVelocity.h   | 4 ++--
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index 2e6e7ee..666dd4c 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -150,8 +150,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index aa41987..34a3287 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -141,8 +141,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index 36024e5..5b3999b 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -150,9 +150,9 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 =  (VelocityType) rng.uniform (1) * c1;
-        r2 =  (VelocityType) rng.uniform (1) * c2;
-                r3 =  (VelocityType) rng.uniform (1) * c3;
+        r1 =  (VelocityType) gen.uniform (1) * c1;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
+                r3 =  (VelocityType) gen.uniform (1) * c3;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 31fa00b..fe44c14 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index d65dcc4..27f2675 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r2 =  (VelocityType) rng.uniform (1) * c2;
-        r3 =  (VelocityType) rng.uniform (1) * c3;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
+        r3 =  (VelocityType) gen.uniform (1) * c3;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index b1c22b8..1c59e16 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -139,8 +139,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 =  (VelocityType) rng.uniform (1) * c1;
-        r2 =  (VelocityType) rng.uniform (1) * c2;
+        r1 =  (VelocityType) gen.uniform (1) * c1;
+        r2 =  (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index b98d346..56a306e 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -142,8 +142,8 @@ public:
         VelocityType newVelocity;
 
         // cast the learning factors to VelocityType
-        r1 = (VelocityType) rng.uniform (1) * c1;
-        r2 = (VelocityType) rng.uniform (1) * c2;
+        r1 = (VelocityType) gen.uniform (1) * c1;
+        r2 = (VelocityType) gen.uniform (1) * c2;
 
         // need to resize the bounds even if there are dummy because of "isBounded" call
         bounds.adjust_size(_po.size());
-- 
2.43.0


From 88b480fe88c95f21cea37aa9f2be0f924abc50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:50 +0000
Subject: [PATCH 054/170] fix: three particle velocities ignored the bound
 modifier they were given

---
 eo/src/eoExtendedVelocity.h | 3 +++
 eo/src/eoIntegerVelocity.h  | 3 +++
 eo/src/eoStandardVelocity.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index 5b3999b..b7e7875 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -165,6 +165,9 @@ public:
                                         + r2 * (topology.best (_indice)[j] - _po[j])
                                         + r3 * (topology.globalBest()[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 27f2675..d21f9da 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= round (c1 *  _po.velocities[j] + r2 * (_po.bestPositions[j] - _po[j]) +  r3 * (topology.best (_indice)[j] - _po[j]));
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index 1c59e16..de0ff0e 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -150,6 +150,9 @@ public:
         {
             newVelocity= omega *  _po.velocities[j] + r1 * (_po.bestPositions[j] - _po[j]) +  r2 * (topology.best (_indice)[j] - _po[j]);
 
+            /* modify the bounds */
+            bndsModifier(bounds,j);
+
             /* check bounds */
             if (bounds.isMinBounded(j))
                 newVelocity=std::max(newVelocity,bounds.minimum(j));
-- 
2.43.0


From 00bbe0ea2ba4b0a484154bb14012a2b10a8a8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:50 +0000
Subject: [PATCH 055/170] fix: decaying velocity bounds shrank once per
 particle

The reduction was applied to the already reduced maximum instead of the
original one.
---
 eo/src/eoRealBoundModifier.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoRealBoundModifier.h b/eo/src/eoRealBoundModifier.h
index 1b44057..286fa96 100644
--- a/eo/src/eoRealBoundModifier.h
+++ b/eo/src/eoRealBoundModifier.h
@@ -24,6 +24,9 @@
 #ifndef EOREALBOUNDMODIFIER_H
 #define EOREALBOUNDMODIFIER_H
 
+#include <map>
+#include <utility>
+
 #include "eoFunctor.h"
 #include "utils/eoRealVectorBounds.h"
 
@@ -92,7 +95,9 @@ public:
 
     void operator() (eoRealBaseVectorBounds & _bnds,unsigned _i)
     {
-        double newMaxBound=(1-pow((double)genCounter.value()/stopCriteria,alpha))*_bnds.maximum(_i);
+        // the formula applies to the original maximum, not to an already reduced one
+        double max=initialMax.insert(std::make_pair(std::make_pair(&_bnds,_i),_bnds.maximum(_i))).first->second;
+        double newMaxBound=(1-pow((double)genCounter.value()/stopCriteria,alpha))*max;
 
         // should delete the old eoRealBounds ?
         _bnds[_i]=new eoRealInterval(_bnds.minimum(_i),std::max(_bnds.minimum(_i),newMaxBound));
@@ -103,6 +108,7 @@ protected:
     unsigned stopCriteria;
     double alpha;
     eoValueParam<unsigned> & genCounter;
+    std::map<std::pair<eoRealBaseVectorBounds*,unsigned>,double> initialMax;
 
 };
 
-- 
2.43.0


From 11b54f59e90f783a3da18468e1470a5ca0fd7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:50 +0000
Subject: [PATCH 056/170] fix: the validity of the best fitness of a new
 particle was undefined

---
 eo/src/PO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..ce48f4b 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
-- 
2.43.0


From 9e43dad85528d2f5dc7ed01cdc373cce2f94e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:50 +0000
Subject: [PATCH 057/170] fix: the best of a ring neighbourhood was not updated

For sizes above one the unsigned loop never ran, and the indices were
wrapped by the dimension of the particle instead of the population.
---
 eo/src/eoRingTopology.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..9e1b16d 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -118,12 +118,11 @@ public:
                         _po.bestPositions[i]=_po[i];
         }
         // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
-                {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
-                }
+        for (unsigned i=0; i < neighborhoods.size(); i++)
+        {
+            if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                neighborhoods[i].best(_po);
+        }
      }
 
 
-- 
2.43.0


From f14bb9e412b6f029464bfbdd6c73b9ba6cb1114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:43 +0000
Subject: [PATCH 058/170] fix: the forge of an operator without parameter gave
 an empty pointer

---
 eo/src/eoForge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..e2fef28 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -203,7 +203,7 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
             if(no_cache or _instantiated == nullptr) {
-                _instantiated_ptr = std::shared_ptr<Op>();
+                _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
         }
-- 
2.43.0


From 488314bc6ba9a9ab9c3b8c6eb35974f96590d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:43 +0000
Subject: [PATCH 059/170] fix: the pointer cache of the forges looked at the
 other cache

---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index e2fef28..9473379 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -139,7 +139,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr(bool no_cache = true) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 // if(_instantiated) {
                     // delete _instantiated;
                 // }
@@ -202,7 +202,7 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
-- 
2.43.0


From d772fafac18ec72d63b97269603e0d4f922b326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:43 +0000
Subject: [PATCH 060/170] fix: changing the set up of a named forge did not
 compile

It would also have kept the deleted entry, as emplace never replaces.
---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 9473379..3983b77 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -479,7 +479,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             delete this->at(name); // Silent on nullptr.
             auto pfo = new eoForgeOperator<Itf,Op,std::decay_t<Args>...>(
                     std::forward<Args>(args)...);
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         /** Specialization for empty constructors.
@@ -489,7 +489,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
         {
             delete this->at(name);
             auto pfo = new eoForgeOperator<Itf,Op>;
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         virtual ~eoForgeMap()
-- 
2.43.0


From ac5bda0160ce6e9968f3b0968ded2379e3fa1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 061/170] fix: multi-bit random neighbours pick their distance
 inside the table

---
 mo/src/problems/bitString/moBitsWithReplNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
index 34d2a96..bb390ed 100644
--- a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
@@ -131,7 +131,7 @@ public:
       unsigned n = rng.random(neighborhoodSize);
 
       unsigned d = 1;
-      while (n < nSize[d - 1]) d++;
+      while (n >= nSize[d - 1]) d++;
 
       randomNeighbor(_solution, _neighbor, d);
     }
-- 
2.43.0


From 69a8bb6206dde2130370d5e89c2778593794c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 062/170] fix: random walks without replacement follow a
 changed neighbourhood size

---
 mo/src/neighborhood/moRndWithoutReplNeighborhood.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
index dfa057a..b510a0b 100644
--- a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
+++ b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
@@ -81,6 +81,11 @@ public:
     virtual void init(EOT & _solution, Neighbor & _neighbor) {
         unsigned int i, tmp;
         maxIndex = neighborhoodSize ;
+        if (indexVector.size() != neighborhoodSize) {
+            indexVector.clear();
+            for (i=0; i < neighborhoodSize; i++)
+                indexVector.push_back(i);
+        }
         i = rng.random(maxIndex);
         _neighbor.index(_solution, indexVector[i]);
         tmp=indexVector[i];
-- 
2.43.0


From a27008c7ddd17e9e64e25944adf4b99520a3a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 063/170] fix: a list of one neighbourhood without cycle comes
 to an end

---
 mo/src/neighborhood/moForwardVectorVNSelection.h | 2 +-
 mo/src/neighborhood/moRndVectorVNSelection.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moForwardVectorVNSelection.h b/mo/src/neighborhood/moForwardVectorVNSelection.h
index d469cf6..879de80 100644
--- a/mo/src/neighborhood/moForwardVectorVNSelection.h
+++ b/mo/src/neighborhood/moForwardVectorVNSelection.h
@@ -70,7 +70,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return (cycle || (current <= (LSvector.size() - 2)));
+    return (cycle || (current + 1 < LSvector.size()));
   }
 
   /**
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 7209a5d..3a27c70 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -73,7 +73,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return ( cycle || (currentOrder <= (order.size() - 2)) );
+    return ( cycle || (currentOrder + 1 < order.size()) );
   }
 
   /**
-- 
2.43.0


From 85d1b25d0106eb2fb8d516c93825b69670409142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 064/170] fix: the random list of neighbourhoods includes those
 added after a run

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 3a27c70..67a7afa 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -82,9 +82,8 @@ public:
    * @param _solution the current solution
    */
   virtual void init(EOT& /*_solution*/) {
-    if(order.size() == 0)
-      for(unsigned int i = 0; i < LSvector.size(); i++) {
-          order.push_back(i); }
+    for(unsigned int i = order.size(); i < LSvector.size(); i++)
+      order.push_back(i);
 
     for(unsigned int i = order.size(); i > 1; i--)
       std::swap(order[i - 1], order[eo::rng.random(i)]);
-- 
2.43.0


From 253f0ffc4470db5727a2d3d966dcfce510daa68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 065/170] fix: multi-bit neighbours get room for their bits at
 every step

---
 mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h
index 34dad41..1cfffce 100644
--- a/mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h
@@ -153,7 +153,7 @@ public:
     indexVector[maxIndex - 1] = tmp;
     maxIndex--;
 
-    _neighbor.bits.resize(nBits);
+
     setNeighbor(key, _neighbor);
   }
   
@@ -219,6 +219,7 @@ protected:
    */
   virtual void setNeighbor(unsigned _key, Neighbor & _neighbor) {
     _neighbor.nBits = neighborsVec[_key].size();
+    _neighbor.bits.resize(_neighbor.nBits);
 
     for(unsigned i = 0; i < _neighbor.nBits; i++)
       _neighbor.bits[i] = neighborsVec[_key][i];
-- 
2.43.0


From 3ec68eb9999cdc40599cfba3f7ee149aa1537b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:06 +0000
Subject: [PATCH 066/170] fix: partition neighbours that are not evaluated can
 be copied

---
 .../partition/moBinaryPartitionSwapNeighbor.h        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
index 8f6bc60..7ee2a02 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
@@ -71,7 +71,11 @@ class moBinaryPartitionSwapNeighbor :
                 , is_set(other.is_set)
             #endif
         {
-            this->fitness(other.fitness());
+            if(other.invalid()) {
+                this->invalidate();
+            } else {
+                this->fitness(other.fitness());
+            }
         }
 
         /** Default assignment operator.
@@ -85,7 +89,11 @@ class moBinaryPartitionSwapNeighbor :
             #ifndef NDEBUG
                 this->is_set = other.is_set;
             #endif
-            this->fitness(other.fitness());
+            if(other.invalid()) {
+                this->invalidate();
+            } else {
+                this->fitness(other.fitness());
+            }
             return *this;
         }
 
-- 
2.43.0


From 59839d1441373e5b5af927f87b9a99a7c87be690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 067/170] fix: a partition with nothing selected has no swap
 neighbour

---
 mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
index d51325b..1c0e4ab 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
@@ -133,10 +133,10 @@ class moBinaryPartitionSwapNeighborhood : public moNeighborhood<moBinaryPartitio
 
     /** Returns true if there is actual neighbors in the neighborhood.
      *
-     * Essentially just tells if the rejected set is not empty.
+     * Essentially just tells if none of the two sets is empty.
      */
     virtual bool hasNeighbor(EOT& solution) override {
-        return solution.rejected.size() > 0;
+        return solution.rejected.size() > 0 and solution.selected.size() > 0;
     }
 
     //! Class name for state management.
-- 
2.43.0


From 58533e5759b2f455e7cc5cccc78b57915efb18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 068/170] fix: binary partitions are written with both sets, as
 they are read

---
 mo/src/problems/partition/moBinaryPartition.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartition.h b/mo/src/problems/partition/moBinaryPartition.h
index 7feaef0..ba7957f 100644
--- a/mo/src/problems/partition/moBinaryPartition.h
+++ b/mo/src/problems/partition/moBinaryPartition.h
@@ -151,12 +151,10 @@ class moBinaryPartition : public EO<FitT>
         virtual void printOn(std::ostream& out) const override
         {
             this->printSelectedOn(out);
-            // Printing the rejected atom should not be necessary,
-            // as this is the complementary set of the selected.
-            // out << "   ";
-            // out << rejected.size() << "  "; // Size.
-            // std::copy(std::begin(rejected), std::end(rejected),
-            //     std::ostream_iterator<AtomType>(out, " ")); // Values.
+            out << "   ";
+            out << rejected.size() << "  "; // Size.
+            std::copy(std::begin(rejected), std::end(rejected),
+                std::ostream_iterator<AtomType>(out, " ")); // Values.
         }
 
         /** Deserialization of the `selected` and `rejected` atoms.
@@ -167,6 +165,8 @@ class moBinaryPartition : public EO<FitT>
         virtual void readFrom(std::istream& in) override
         {
             EO<FitT>::readFrom(in); // Fitness.
+            selected.clear();
+            rejected.clear();
             unsigned size;
             in >> size; // Size.
             for(size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 8bcd4cef5ebe3ceecd37c4d6587dc25b0a6dce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 069/170] fix: multi-bit moves invalidate the solution they
 change

---
 mo/src/problems/bitString/moBitsNeighbor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/problems/bitString/moBitsNeighbor.h b/mo/src/problems/bitString/moBitsNeighbor.h
index e0f1363..45dddbe 100644
--- a/mo/src/problems/bitString/moBitsNeighbor.h
+++ b/mo/src/problems/bitString/moBitsNeighbor.h
@@ -104,6 +104,7 @@ public:
   virtual void move(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
@@ -113,6 +114,7 @@ public:
   virtual void moveBack(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From 44f3a0e26bd4de48b60fe9e3b208ba58cb30a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 070/170] fix: undoing a shift move invalidates the solution

---
 mo/src/problems/permutation/moShiftNeighbor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/problems/permutation/moShiftNeighbor.h b/mo/src/problems/permutation/moShiftNeighbor.h
index 13eba18..6a1021d 100644
--- a/mo/src/problems/permutation/moShiftNeighbor.h
+++ b/mo/src/problems/permutation/moShiftNeighbor.h
@@ -65,6 +65,8 @@ public:
       insertion(_solution, indices.second - 1, indices.first);
     else
       insertion(_solution, indices.second, indices.first + 1);
+    // invalidate the fitness
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From 82e66973a122e1c8a7a2762d889ab99abd736df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 071/170] fix: MaxSAT incremental evaluation with negated,
 repeated and first-clause literals

---
 mo/src/problems/eval/moMaxSATincrEval.h | 42 +++++++++++--------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/mo/src/problems/eval/moMaxSATincrEval.h b/mo/src/problems/eval/moMaxSATincrEval.h
index 69dfbdb..3a207d4 100644
--- a/mo/src/problems/eval/moMaxSATincrEval.h
+++ b/mo/src/problems/eval/moMaxSATincrEval.h
@@ -66,34 +66,28 @@ public :
         unsigned int size = modifiedClauses.size();
 
         int nc;
-        bool litt;
+        int previous = -1;
 
         for (unsigned int k = 0; k < size; k++) {
-            // number of the clause
+            // number of the clause (negative means that the not(variable) is in the clause)
             nc = modifiedClauses[k];
-
-            // negative means that the not(variable) is in the clause
-            if (nc < 0) {
+            if (nc < 0)
                 nc = - nc;
-                litt = !_solution[bit];
-            } else
-                litt = _solution[bit];
-
-            if (litt) {
-                // the litteral was true and becomes false
-                _solution[bit] = !_solution[bit];
-
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was true and becomes false
-                    delta--;
-
-                _solution[bit] = !_solution[bit];
-            } else {
-                // the litteral was false and becomes true
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was false and becomes true
-                    delta++;
-            }
+
+            // a clause with several litterals of the variable counts once
+            if (nc == previous)
+                continue;
+            previous = nc;
+
+            if (fulleval.clauseEval(nc, _solution))
+                delta--;
+
+            _solution[bit] = !_solution[bit];
+
+            if (fulleval.clauseEval(nc, _solution))
+                delta++;
+
+            _solution[bit] = !_solution[bit];
         }
 
         _neighbor.fitness(_solution.fitness() + delta);
-- 
2.43.0


From 5d2ae4a9ea249f08e8e2fc57ac0a936962ee2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 072/170] fix: OneMax multi-bit evaluation counts only the bits
 of the move

---
 mo/src/problems/eval/moOneMaxBitsIncrEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/eval/moOneMaxBitsIncrEval.h b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
index 5758d3c..f74509e 100644
--- a/mo/src/problems/eval/moOneMaxBitsIncrEval.h
+++ b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
@@ -50,7 +50,7 @@ public:
     virtual void operator()(EOT & _solution, Neighbor & _neighbor) {
       int delta = 0;
 
-      for(unsigned i = 0; i < _neighbor.bits.size(); i++) 	
+      for(unsigned i = 0; i < _neighbor.nBits; i++) 	
         if (_solution[_neighbor.bits[i]] == 0)
 	  delta++;
         else
-- 
2.43.0


From 05aacfe6420acfd75890fa36cf279ef6d233fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:35 +0000
Subject: [PATCH 073/170] fix: Royal Road incremental evaluation of bits after
 the last block

---
 mo/src/problems/eval/moRoyalRoadIncrEval.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo/src/problems/eval/moRoyalRoadIncrEval.h b/mo/src/problems/eval/moRoyalRoadIncrEval.h
index 3296ab2..14e34b2 100644
--- a/mo/src/problems/eval/moRoyalRoadIncrEval.h
+++ b/mo/src/problems/eval/moRoyalRoadIncrEval.h
@@ -60,6 +60,12 @@ public:
         // complete block?
         unsigned int offset = n * k;
 
+        // the bits after the last complete block do not count
+        if (offset + k > _solution.size()) {
+            _neighbor.fitness(_solution.fitness());
+            return;
+        }
+
         unsigned int j = 0;
         while (j < k && _solution[offset + j]) j++;
 
-- 
2.43.0


From 384513d1222732fc9d1e70e31a3a9a1959c6e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:19 +0000
Subject: [PATCH 074/170] fix: variable neighbourhood search restarts its list
 after an accepted move

---
 mo/src/explorer/moVNSexplorer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..4d95ca7 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -86,13 +86,14 @@ public:
    */
   virtual void updateParam(EOT & _solution) {
     if (!first && (*this).moveApplied()) {
-      first = false;
       selection.init(_solution);
     } else 
       if (selection.cont(currentSol)) {
 	selection.next(_solution);
       } else
 	stop = true;
+
+    first = false;
   }
 
   /**
-- 
2.43.0


From e989407dbd8a36c85df2c197593b95cd2a118cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:19 +0000
Subject: [PATCH 075/170] fix: variable neighbourhood search can be run again

---
 mo/src/explorer/moVNSexplorer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index 4d95ca7..8c7b4f2 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -78,6 +78,7 @@ public:
     selection.init(_solution);
     // for the first ls, the solution will be improved, so the next ls must be applied
     first = true;
+    stop = false;
   }
 
   /**
-- 
2.43.0


From 73290e33c1f72de10367450f6321b63786e1db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:39 +0000
Subject: [PATCH 076/170] fix: solution tabu list has its position set from the
 start

---
 mo/src/memory/moSolVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moSolVectorTabuList.h b/mo/src/memory/moSolVectorTabuList.h
index 31c57c0..cda2b62 100644
--- a/mo/src/memory/moSolVectorTabuList.h
+++ b/mo/src/memory/moSolVectorTabuList.h
@@ -48,7 +48,7 @@ public:
      * @param _maxSize maximum size of the tabu list
      * @param _howlong how many iteration a solution is tabu
      */
-    moSolVectorTabuList(unsigned int _maxSize, unsigned int _howlong) : maxSize(_maxSize), howlong(_howlong) {
+    moSolVectorTabuList(unsigned int _maxSize, unsigned int _howlong) : maxSize(_maxSize), howlong(_howlong), index(0) {
         tabuList.reserve(_maxSize);
         tabuList.resize(0);
     }
-- 
2.43.0


From 9c3630325589bafe9fd3616c30310b594cfb56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:39 +0000
Subject: [PATCH 077/170] fix: indexed tabu list allows the moves it has no
 room for

---
 mo/src/memory/moIndexedVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moIndexedVectorTabuList.h b/mo/src/memory/moIndexedVectorTabuList.h
index b567426..82da038 100644
--- a/mo/src/memory/moIndexedVectorTabuList.h
+++ b/mo/src/memory/moIndexedVectorTabuList.h
@@ -111,7 +111,7 @@ public:
      * @return true if tabuList contains _sol
      */
     virtual bool check(EOT & /*_sol*/, Neighbor & _neighbor) {
-      return (tabuList[_neighbor.index()] > 0);
+      return (_neighbor.index() < maxSize) && (tabuList[_neighbor.index()] > 0);
     }
 
     /**
-- 
2.43.0


From 2fa2aa8b3860646ce26a0867dbfe979b1456ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:39 +0000
Subject: [PATCH 078/170] fix: diversification evaluates the changed solution
 even if it had a fitness

---
 mo/src/memory/moMonOpDiversification.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..66714e3 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,8 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        if (res)
+            _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From d4888fb26bea9fec317ef41771edd2e59840c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:39 +0000
Subject: [PATCH 079/170] fix: tabu search keeps the best solution reached by a
 jump

---
 mo/src/explorer/moTSexplorer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mo/src/explorer/moTSexplorer.h b/mo/src/explorer/moTSexplorer.h
index 8438d58..017eabf 100644
--- a/mo/src/explorer/moTSexplorer.h
+++ b/mo/src/explorer/moTSexplorer.h
@@ -137,8 +137,12 @@ public:
     virtual void operator()(EOT & _solution)
     {
         bool found=false;
-        intensification(_solution);
-        diversification(_solution);
+        bool changed = intensification(_solution);
+        if (changed && (_solution.fitness() > bestSoFar.fitness()))
+            bestSoFar = _solution;
+        changed = diversification(_solution);
+        if (changed && (_solution.fitness() > bestSoFar.fitness()))
+            bestSoFar = _solution;
         if (neighborhood.hasNeighbor(_solution))
         {
             //init the current neighbor
-- 
2.43.0


From 22c9246a21855996d993024d397a55c60e21fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:03 +0000
Subject: [PATCH 080/170] fix: annealing given only a continuator uses the
 default cooling

---
 mo/src/algo/moSA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/algo/moSA.h b/mo/src/algo/moSA.h
index 5748f02..1d81b09 100644
--- a/mo/src/algo/moSA.h
+++ b/mo/src/algo/moSA.h
@@ -89,7 +89,7 @@ public:
      */
     moSA(Neighborhood& _neighborhood, eoEvalFunc<EOT>& _fullEval, moEval<Neighbor>& _eval, moContinuator<Neighbor>& _cont):
             moLocalSearch<Neighbor>(explorer, _cont, _fullEval),
-            defaultCool(0, 0, 0, 0),
+            defaultCool(10, 0.9, 100, 0.01),
             explorer(_neighborhood, _eval, defaultSolNeighborComp, defaultCool)
     {}
 
-- 
2.43.0


From 77595ff72bf4757bcf96100cace402f745ba2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:13 +0000
Subject: [PATCH 081/170] fix: checkpoint counts its calls once, whatever the
 number of statistics

---
 mo/src/continuator/moCheckpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..b3631e6 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
-- 
2.43.0


From d051af81e52d0fff802d49b4382e90aef7a0daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:21 +0000
Subject: [PATCH 082/170] fix: continuators held by another one get their last
 call

---
 mo/src/continuator/moCheckpoint.h          | 3 +++
 mo/src/continuator/moCombinedContinuator.h | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index b3631e6..33035dd 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -174,6 +174,9 @@ public :
 
         for (i = 0; i < monitors.size(); ++i)
             monitors[i]->lastCall();
+
+        for (i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_sol);
     }
 
 private :
diff --git a/mo/src/continuator/moCombinedContinuator.h b/mo/src/continuator/moCombinedContinuator.h
index 7533bd4..521341d 100644
--- a/mo/src/continuator/moCombinedContinuator.h
+++ b/mo/src/continuator/moCombinedContinuator.h
@@ -85,6 +85,15 @@ public:
         return bContinue;
     }
 
+    /**
+     * last call of all continuators
+     * @param _solution a solution
+     */
+    virtual void lastCall(EOT & _solution) {
+        for (unsigned int i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_solution);
+    }
+
 private:
     /** continuators vector */
     std::vector< moContinuator<Neighbor>* > continuators;
-- 
2.43.0


From 65ffbefa0d987aaa1e1e63f458ef77ccf46ecf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:37 +0000
Subject: [PATCH 083/170] fix: best over several runs counts the solution a
 later run starts from

---
 mo/src/continuator/moBestFitnessStat.h | 2 +-
 mo/src/continuator/moBestSoFarStat.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/continuator/moBestFitnessStat.h b/mo/src/continuator/moBestFitnessStat.h
index 192919c..fe46e82 100644
--- a/mo/src/continuator/moBestFitnessStat.h
+++ b/mo/src/continuator/moBestFitnessStat.h
@@ -61,7 +61,7 @@ public :
     virtual void init(EOT & _sol) {
     	if (reInitSol)
     		value() = _sol.fitness();
-    	else if (firstTime)
+    	else if (firstTime || value() < _sol.fitness())
 			{
     			value() = _sol.fitness();
     			firstTime = false;
diff --git a/mo/src/continuator/moBestSoFarStat.h b/mo/src/continuator/moBestSoFarStat.h
index fa57971..c34b7db 100644
--- a/mo/src/continuator/moBestSoFarStat.h
+++ b/mo/src/continuator/moBestSoFarStat.h
@@ -60,7 +60,7 @@ public :
     virtual void init(EOT & _sol) {
     	if (reInitSol)
     		value() = _sol;
-    	else if (firstTime)
+    	else if (firstTime || value().fitness() < _sol.fitness())
 			{
     			value() = _sol;
     			firstTime = false;
-- 
2.43.0


From 96cc30569353e2913b97b8a112462cee411dfb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:05 +0000
Subject: [PATCH 084/170] fix: autocorrelation with no lag asked stays inside
 its tables

---
 mo/src/sampling/moStatistics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index 7c74cbc..c459dca 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -201,7 +201,8 @@ public:
             //double phi2[nbS+1][nbS+1];
             double tmp1, tmp2;
 
-            phi2[1][1] = rho[1];
+            if (nbS > 0)
+                phi2[1][1] = rho[1];
             for (k = 2; k <= nbS; k++) {
                 tmp1 = 0;
                 tmp2 = 0;
-- 
2.43.0


From a09639db4d1b175eed35d4396757fd9ce5f5c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:52 +0000
Subject: [PATCH 085/170] fix: deviation of equal values is zero, not a small
 negative number

---
 mo/src/sampling/moStatistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/sampling/moStatistics.h b/mo/src/sampling/moStatistics.h
index c459dca..319b0dc 100644
--- a/mo/src/sampling/moStatistics.h
+++ b/mo/src/sampling/moStatistics.h
@@ -94,6 +94,8 @@ public:
             std = (std / n) - avg * avg ;
             if (std > 0)
                 std = sqrt(std);
+            else
+                std = 0.0;
         }
     }
 
-- 
2.43.0


From d364ef40878b233a1e0aa6637b01f0b958011a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:50 +0000
Subject: [PATCH 086/170] fix: dual objective vectors know their feasibility
 from the start

---
 moeo/src/core/moeoDualRealObjectiveVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 64bf65f..879b181 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -50,7 +50,7 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
 
         moeoDualRealObjectiveVector(double value=0.0, bool feasible = false)
             : moeoScalarObjectiveVector<ObjectiveVectorTraits,T>
-              ( T(value, feasible) ) {}
+              ( T(value, feasible) ), _is_feasible(feasible) {}
 
         bool is_feasible() const
         {
-- 
2.43.0


From 5df9bce20857aa4beeecf0ff5823a1be49a0a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:50 +0000
Subject: [PATCH 087/170] fix: dual objective vectors are compared with their
 own type

---
 moeo/src/core/moeoDualRealObjectiveVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 879b181..80c6040 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -78,14 +78,14 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
         /**
          * Returns true if the current objective vector dominates _other according to the Pareto dominance relation
          */
-        bool dominates(const moeoRealObjectiveVector < ObjectiveVectorTraits > & other) const
+        bool dominates(const moeoDualRealObjectiveVector < ObjectiveVectorTraits, T > & other) const
         {
             moeoParetoDualObjectiveVectorComparator<moeoDualRealObjectiveVector> cmp;
             return cmp( other, *this );
         }
 
         //! True if this is smaller than other
-        bool operator<(const moeoDualRealObjectiveVector < ObjectiveVectorTraits > & other) const
+        bool operator<(const moeoDualRealObjectiveVector < ObjectiveVectorTraits, T > & other) const
         {
             // am I better than the other ?
 
@@ -99,7 +99,7 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
                 return true;
 
             } else {
-                moeoObjectiveObjectiveVectorComparator < moeoDualRealObjectiveVector < ObjectiveVectorTraits > > cmp;
+                moeoObjectiveObjectiveVectorComparator < moeoDualRealObjectiveVector < ObjectiveVectorTraits, T > > cmp;
                 // Returns true if this is smaller than other
                 return cmp(*this, other);
             }
-- 
2.43.0


From 352fa13444560ff58c14a9ff0708ebe47e4f0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:22 +0000
Subject: [PATCH 088/170] fix: solutions with objectives can be compared with
 the greater-than operator

---
 moeo/src/core/MOEO.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/moeo/src/core/MOEO.h b/moeo/src/core/MOEO.h
index 061af30..995fccd 100644
--- a/moeo/src/core/MOEO.h
+++ b/moeo/src/core/MOEO.h
@@ -308,6 +308,16 @@ class MOEO : public EO < MOEOObjectiveVector >
       }
 
 
+    /**
+     * Returns true if the objective vector of the other solution is smaller than the objective vector of the current solution.
+     * @param _other the other MOEO object to compare with
+     */
+    bool operator>(const MOEO & _other) const
+      {
+        return _other.objectiveVector() < objectiveVector();
+      }
+
+
     /**
      * Return the class id (the class name as a std::string)
      */
-- 
2.43.0


From daf5362de691a438eac4da2635a06ecbb2fb8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:12 +0000
Subject: [PATCH 089/170] fix: two points outside the reference region are
 compared by dominance

---
 .../comparator/moeoGDominanceObjectiveVectorComparator.h  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
index ecdb540..59f7166 100644
--- a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
+++ b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
@@ -68,19 +68,19 @@ class moeoGDominanceObjectiveVectorComparator : public moeoObjectiveVectorCompar
     {
       unsigned int flag1 = flag(_objectiveVector1);
       unsigned int flag2 = flag(_objectiveVector2);
-      if (flag2==0)
+      if (flag2 < flag1)
         {
           // cannot dominate
           return false;
         }
-      else if ( (flag2==1) && (flag1==0) )
+      else if (flag2 > flag1)
         {
           // is dominated
           return true;
         }
-      else // (flag1==1) && (flag2==1)
+      else // flag1 == flag2
         {
-          // both are on the good region, so let's use the classical Pareto dominance
+          // both are on the good region, or none of them, so let's use the classical Pareto dominance
           return paretoComparator(_objectiveVector1, _objectiveVector2);
         }
     }
-- 
2.43.0


From 6a9a1ba8122994d40e7bbf1d789ca4b4e79ca1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:12 +0000
Subject: [PATCH 090/170] fix: comparing on an objective that does not exist is
 refused

---
 moeo/src/comparator/moeoOneObjectiveComparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/comparator/moeoOneObjectiveComparator.h b/moeo/src/comparator/moeoOneObjectiveComparator.h
index f354385..4abca86 100644
--- a/moeo/src/comparator/moeoOneObjectiveComparator.h
+++ b/moeo/src/comparator/moeoOneObjectiveComparator.h
@@ -54,7 +54,7 @@ class moeoOneObjectiveComparator : public moeoComparator < MOEOT >
      */
     moeoOneObjectiveComparator(unsigned int _obj) : obj(_obj)
     {
-      if (obj > MOEOT::ObjectiveVector::nObjectives())
+      if (obj >= MOEOT::ObjectiveVector::nObjectives())
         {
           throw eoException("Problem with the index of objective in moeoOneObjectiveComparator");
         }
-- 
2.43.0


From 12a120672e910f2ae55dba21229b771b8766fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:24 +0000
Subject: [PATCH 091/170] fix: the order of the hypervolume archive can be used
 on a constant object

---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index de022bb..e027d8d 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -51,7 +51,7 @@ struct comp
 {
 	// returns a "before" b
 	// all objectives = min
-	bool operator() (const MOEOT & a, const MOEOT & b)
+	bool operator() (const MOEOT & a, const MOEOT & b) const
 	{
 		return  ((a.objectiveVector()[1] < b.objectiveVector()[1]) || ((a.objectiveVector()[1] == b.objectiveVector()[1]) && (a.objectiveVector()[0] < b.objectiveVector()[0])));
 	}
-- 
2.43.0


From 0fde1234ca0c5ecd6db58d4b0d1debc751f7b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:16 +0000
Subject: [PATCH 092/170] fix: a full bounded archive keeps the best of its
 members

---
 moeo/src/archive/moeoFitDivBoundedArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoFitDivBoundedArchive.h b/moeo/src/archive/moeoFitDivBoundedArchive.h
index 32e13ec..bd5e8f6 100644
--- a/moeo/src/archive/moeoFitDivBoundedArchive.h
+++ b/moeo/src/archive/moeoFitDivBoundedArchive.h
@@ -156,7 +156,7 @@ private:
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            return comp(_moeo1,_moeo2);
+            return comp(_moeo2,_moeo1);
         }
     private:
         /** the comparator */
-- 
2.43.0


From fdc4bda9a49f123c8f642da6fb6825e828362a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:16 +0000
Subject: [PATCH 093/170] fix: the hypervolume archive does not look beyond its
 last member

---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index e027d8d..d49aa21 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -341,7 +341,10 @@ protected:
 				res= _objVec[0] - (*hint).objectiveVector()[0];
 				tmp=(*hint).objectiveVector()[1];
 				hint++;
-				res*= ((*hint).objectiveVector()[1] - tmp);
+				if(hint==end())
+					res=maxValue;
+				else
+					res*= ((*hint).objectiveVector()[1] - tmp);
 				hint--;
 			}
 		}
-- 
2.43.0


From eb4b619266ac9fd7e8018ad0cf9fcddf5b36c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:35 +0000
Subject: [PATCH 094/170] fix: the environmental archive replaces its worst
 members one after the other

---
 moeo/src/archive/moeoSPEA2Archive.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/moeo/src/archive/moeoSPEA2Archive.h b/moeo/src/archive/moeoSPEA2Archive.h
index d2c64b8..a41433c 100644
--- a/moeo/src/archive/moeoSPEA2Archive.h
+++ b/moeo/src/archive/moeoSPEA2Archive.h
@@ -178,17 +178,24 @@ public:
             i=0;
 
             //While we have a better element in pop than the worst <= -1 in the archive, replace the worst(of archive) by the best(of pop)
-            while ( (i<borne) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) && ( j < copy_pop.size() ) )
+            while ( (i<borne) && ( j < copy_pop.size() ) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) )
             {
-                operator[](i)= back();
-                pop_back();
-                push_back(_pop[copy_pop[j].index]);
                 i++;
                 j++;
             }
+            while (i > 0)
+            {
+                i--;
+                operator[](i)= back();
+                pop_back();
+            }
+            for (i=0; i<j; i++)
+            {
+                push_back(_pop[copy_pop[i].index]);
+            }
 
             //If their are others goods elements in pop (fitness=0) , keep only archive's size elements between the archive's elements and the good element in the pop (k ieme smallest distance is used)
-            if (copy_pop[j].fitness > -1)
+            if ( ( j < copy_pop.size() ) && (copy_pop[j].fitness > -1) )
             {
                 unsigned int inf=j;
                 unsigned int p;
-- 
2.43.0


From 10055b04419632997527170a8a9e7e744916edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:16 +0000
Subject: [PATCH 095/170] fix: an indexed archive can lose several members at
 once

---
 .../scalarStuffs/archive/moeoIndexedArchive.h | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
index a70eb33..9b23847 100644
--- a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
+++ b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
@@ -1,6 +1,7 @@
 #ifndef MOEOINDEXEDARCHIVE_H_
 #define MOEOINDEXEDARCHIVE_H_
 
+#include <algorithm>
 #include <eoPop.h>
 #include <archive/moeoArchive.h>
 #include <scalarStuffs/archive/moeoArchiveIndex.h>
@@ -42,6 +43,8 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 				return false;
 			}
 			else{
+				// from the last one to the first one, so that the member taking a free place is never one to remove
+				std::sort(res.second.begin(),res.second.end(),later);
 				for (unsigned int i=0;i<res.second.size();i++){
 					apply_modif(res.second[i]);
 				}
@@ -73,14 +76,23 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 		void apply_modif(typename moeoArchiveIndex<MOEOT>::modif &_modif){
 			if (_modif.newIdx==-1){
 				int oldIdx=size()-1;
-				(*this)[_modif.oldIdx]=(*this)[size()-1];
-				ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
-				typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
-				index.update(upd);
+				if (_modif.oldIdx!=oldIdx){
+					(*this)[_modif.oldIdx]=(*this)[size()-1];
+					ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
+					typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
+					index.update(upd);
+				}
 				pop_back();
 			}
 		}
 
+		/**
+		 * order of the modifications, from the last place to the first one
+		 */
+		static bool later(const typename moeoArchiveIndex<MOEOT>::modif & _a, const typename moeoArchiveIndex<MOEOT>::modif & _b){
+			return _a.oldIdx > _b.oldIdx;
+		}
+
 		//not used yet...
 		void apply_modif(std::vector<typename moeoArchiveIndex<MOEOT>::modif> &_modifs){
 			unsigned int num_to_delete=0;
-- 
2.43.0


From 50d70dc511759ca97888ba9fcc423a1a08520c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:16 +0000
Subject: [PATCH 096/170] fix: the quad tree knows the place of its members

---
 moeo/src/scalarStuffs/archive/moeoQuadTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTree.h b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
index b06a248..80a4df9 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTree.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
@@ -162,7 +162,7 @@ public:
 		//else try to insert the new node in the tree
 		else{
 			res.first = insert_aux(tmp, root, NULL, 0, res.second);
-			if(res.first) tmp->set_index(size()-1);
+			if(res.first) tmp->set_index(size()-res.second.size());
 		}
 	}
 
@@ -497,7 +497,7 @@ private:
 	QuadTreeNode<ObjectiveVector>* find_node(ObjectiveVector &_obj, QuadTreeNode<ObjectiveVector>* current){
 		if (current->getVec()==_obj) return current;
 		else{
-			int succ=k_succ(current->getVec(),_obj);
+			int succ=k_succ(_obj,current->getVec());
 			if(current->getSubTree()[succ]!=NULL)
 				return find_node(_obj,current->getSubTree()[succ]);
 			else{
-- 
2.43.0


From 1a55c9453667d5266efdfe3a89f8d7485be9ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:16 +0000
Subject: [PATCH 097/170] fix: removing a node of the quad tree keeps its last
 child

---
 moeo/src/scalarStuffs/archive/moeoQuadTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTree.h b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
index 80a4df9..540ba6a 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTree.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
@@ -359,7 +359,7 @@ public:
 			_parent->setChild(_succ, tmp);
 		}
 		k++;
-		while(k < (bound -1)){
+		while(k < bound){
 			if(_node->getSubTree()[k]!=NULL){
 				reinsert(tmp ,_node->getSubTree()[k]);
 			}
-- 
2.43.0


From d7c51316693b654a8eb6cc95a4ec0f7172fe25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:59 +0000
Subject: [PATCH 098/170] fix: dominance matrix forgets the copies of the
 previous population

---
 moeo/src/utils/moeoDominanceMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 474e492..2a84afb 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -93,6 +93,7 @@ public:
         //Initialization
         unsigned int i= _pop1.size();
         unsigned int j= _pop2.size();
+        copySet.clear();
         resize(i+j);
         countVector.resize(i+j);
         rankVector.resize(i+j);
-- 
2.43.0


From dfb51d099fdf7e7ef972cf1acc6722a53c76217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:59 +0000
Subject: [PATCH 099/170] fix: normalizer updated by bounds keeps its maximum

---
 moeo/src/utils/moeoObjectiveVectorNormalizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/utils/moeoObjectiveVectorNormalizer.h b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
index c6d1588..e58ba90 100644
--- a/moeo/src/utils/moeoObjectiveVectorNormalizer.h
+++ b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
@@ -264,13 +264,13 @@ class moeoObjectiveVectorNormalizer
 		  @param boundaries a vector of bounds corresponding to the bounds in each dimension
 		  */
 		void update_by_bounds(const std::vector<Bounds> &boundaries){
-			scale=make_scale_from_bounds(boundaries);
+			scale=make_scale_from_bounds(boundaries,max);
 		}
 		/** change the scale according to bounds,them same is used in each dimension
 		  @param bounds bounds corresponding to the bounds in each dimension
 		  */
 		void update_by_bounds(const Bounds &bounds){
-			scale=make_scale_from_bounds(bounds);
+			scale=make_scale_from_bounds(bounds,max);
 		}
 
 
-- 
2.43.0


From 8411fccec06e41d5dbd24ca60e553511cbd4430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:16 +0000
Subject: [PATCH 100/170] fix: achievement function fitness uses the given
 normalizer

---
 .../moeoAchievementScalarizingFunctionMetricFitnessAssignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
index 7546092..8b25226 100644
--- a/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
+++ b/moeo/src/scalarStuffs/fitness/moeoAchievementScalarizingFunctionMetricFitnessAssignment.h
@@ -65,7 +65,7 @@ class moeoAchievementScalarizingFunctionMetricFitnessAssignment : public moeoSin
 		 * @param _weight the weights applied to the objectives
 		 * @param _normalizer the normalizer to apply to objectiveVectors
 		 */
-		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, defaultNormalizer){}
+		moeoAchievementScalarizingFunctionMetricFitnessAssignment(unsigned int _rho, const ObjectiveVector& _reference, const ObjectiveVector& _weight, moeoObjectiveVectorNormalizer<MOEOT>& _normalizer) : normalizer(_normalizer), eval(defaultEval), distance(_rho, _weight),	metric( distance, _reference, _normalizer){}
 
 		/**
 		 * ctor with an evaluing fonction, applied if give moeot is invalid
-- 
2.43.0


From fd2c925b1ad52e0b1dab2ddb0654e01d144609c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:16 +0000
Subject: [PATCH 101/170] fix: dominance depth with two objectives sorts by
 their directions

---
 .../moeoDominanceDepthFitnessAssignment.h     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 96f295b..9a9e854 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -149,20 +149,23 @@ private:
     {
     public:
         /**
-         * Returns true if _moeo1 > _moeo2 on the first objective, then on the second, and so on
+         * Returns true if _moeo1 is better than _moeo2 on the first objective, then on the second, and so on
          * @param _moeo1 the first solution
          * @param _moeo2 the second solution
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            if (MOEOT::ObjectiveVector::maximizing(0))
-                return cmp(_moeo2.objectiveVector(), _moeo1.objectiveVector());
-            else
-                return cmp(_moeo1.objectiveVector(), _moeo2.objectiveVector());
+            const ObjectiveVector & o1 = _moeo1.objectiveVector();
+            const ObjectiveVector & o2 = _moeo2.objectiveVector();
+            for (unsigned int i=0; i<ObjectiveVector::nObjectives(); i++)
+            {
+                if ( fabs(o1[i] - o2[i]) > ObjectiveVector::Traits::tolerance() )
+                {
+                    return ObjectiveVector::maximizing(i) ? (o1[i] > o2[i]) : (o1[i] < o2[i]);
+                }
+            }
+            return false;
         }
-    private:
-        /** the corresponding comparator for objective vectors */
-        moeoObjectiveObjectiveVectorComparator < ObjectiveVector > cmp;
     }
     objComparator;
     
-- 
2.43.0


From 207d6515a01aabb15ea3b8c8a2f0960e54b63e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:16 +0000
Subject: [PATCH 102/170] fix: dominance depth puts equal objective vectors
 into the same front

---
 moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 9a9e854..96899fc 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -199,7 +199,7 @@ private:
     void twoObjectives (eoPop < MOEOT > & _pop)
     {
         double value_obj1;
-        unsigned int front;
+        unsigned int front = 0;
         unsigned int last_front = 0;
         bool equiv_flag;
         
@@ -243,10 +243,13 @@ private:
             // check for equivalent solutions and assign them to the worst front
             if (i>0)
             {
-                if ( (rm_equiv_flag_in_2D) && (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector()) )
+                if ( sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector() )
                 {
                     equiv_flag = true;
-                    fronts.back().push_back(i);
+                    if (rm_equiv_flag_in_2D)
+                        fronts.back().push_back(i);
+                    else // neither dominates the other
+                        fronts[front].push_back(i);
                 }
             }
             if (!equiv_flag)
-- 
2.43.0


From 4599f17b81f7b9caeeff1e7cb5011f69afc98365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:53 +0000
Subject: [PATCH 103/170] fix: Manhattan distance has the return type of the
 distances

---
 moeo/src/distance/moeoManhattanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoManhattanDistance.h b/moeo/src/distance/moeoManhattanDistance.h
index 37d70c8..ac818e6 100644
--- a/moeo/src/distance/moeoManhattanDistance.h
+++ b/moeo/src/distance/moeoManhattanDistance.h
@@ -74,7 +74,7 @@ class moeoManhattanDistance : public moeoObjSpaceDistance < MOEOT >
      * @param _obj1 the first objective vector
      * @param _obj2 the second objective vector
      */
-    double operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
+    const Fitness operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
     {
       double result = 0.0;
       double tmp1, tmp2;
-- 
2.43.0


From 6cdfbb4572a81e35e9aa8276f82ea1427ad5aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:53 +0000
Subject: [PATCH 104/170] fix: Euclidean distance keeps the given normalizer

---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..4adce96 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):defaultNormalizer(_normalizer), normalizer(defaultNormalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From 9f5b4c5172422dee08cc42a978edb9ca211516d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:10 +0000
Subject: [PATCH 105/170] fix: diversity of an individual without neighbours

---
 moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h b/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
index 434bb0b..d66dc43 100644
--- a/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
+++ b/moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h
@@ -40,6 +40,7 @@
 #ifndef MOEONEARESTNEIGHBORDIVERSITYASSIGNMENT_H_
 #define MOEONEARESTNEIGHBORDIVERSITYASSIGNMENT_H_
 
+#include <limits>
 #include <list>
 #include <diversity/moeoDiversityAssignment.h>
 #include <archive/moeoUnboundedArchive.h>
@@ -169,6 +170,9 @@ private:
      */
     double getElement(std::list<double> _myList)
     {
+        // no neighbour at all
+        if (_myList.empty())
+            return std::numeric_limits<double>::max();
         std::list<double>::iterator it= _myList.begin();
         for (unsigned int i=1; i< std::min((unsigned int)_myList.size(),index); i++)
             it++;
-- 
2.43.0


From 7d1322dabe1e47c8eaa4e1e1c8785b5effb7b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:10 +0000
Subject: [PATCH 106/170] fix: crowding distance along an objective where all
 are equal

---
 moeo/src/diversity/moeoCrowdingDiversityAssignment.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
index 8f9b554..354bb2f 100644
--- a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
@@ -131,6 +131,11 @@ class moeoCrowdingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
           // min & max
           min = _pop[0].objectiveVector()[obj];
           max = _pop[_pop.size()-1].objectiveVector()[obj];
+          if (min == max)
+            {
+              min -= tiny();
+              max += tiny();
+            }
           // set the diversity value to infiny for min and max
           _pop[0].diversity(inf());
           _pop[_pop.size()-1].diversity(inf());
-- 
2.43.0


From a4314aaabfdfbfac35c4ec094b418b0fcb5bb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:38 +0000
Subject: [PATCH 107/170] fix: hypervolume ignores points that do not dominate
 the reference

---
 moeo/src/metric/moeoHyperVolumeMetric.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index ce1ee0c..9b36e74 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -120,17 +120,21 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
     	}
     	else if(normalize)
     		setup(_set);
-    	front.resize(_set.size());
     	for(unsigned int i=0; i < _set.size(); i++){
-    		front[i].resize(ObjectiveVector::Traits::nObjectives());
+    		std::vector<double> point(ObjectiveVector::Traits::nObjectives());
+    		bool inside = true;
 	    	for (unsigned int j=0; j<ObjectiveVector::Traits::nObjectives(); j++){
 	    		if (ObjectiveVector::Traits::minimizing(j)){
-	    			front[i][j]=ref_point[j] - ((_set[i][j] - bounds[j].minimum()) /bounds[j].range());
+	    			point[j]=ref_point[j] - ((_set[i][j] - bounds[j].minimum()) /bounds[j].range());
 	    		}
 	    		else{
-	    			front[i][j]=((_set[i][j] - bounds[j].minimum()) /bounds[j].range()) - ref_point[j];
+	    			point[j]=((_set[i][j] - bounds[j].minimum()) /bounds[j].range()) - ref_point[j];
 	    		}
+	    		inside = inside && point[j] > 0;
 	    	}
+	    	// a point that is not better than the reference everywhere dominates no volume
+	    	if (inside)
+	    		front.push_back(point);
     	}
 
     	return calc_hypervolume(front, front.size(),ObjectiveVector::Traits::nObjectives());
-- 
2.43.0


From 8523804fa50e79c73a89724ee2da35a5cd2a80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:38 +0000
Subject: [PATCH 108/170] fix: entropy indicator takes logarithms in base two

---
 moeo/src/metric/moeoEntropyMetric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoEntropyMetric.h b/moeo/src/metric/moeoEntropyMetric.h
index 012e99d..74e8aa5 100644
--- a/moeo/src/metric/moeoEntropyMetric.h
+++ b/moeo/src/metric/moeoEntropyMetric.h
@@ -87,7 +87,7 @@ class moeoEntropyMetric : public moeoVectorVsVectorBinaryMetric < ObjectiveVecto
           if (n_i > 0)
             {
               omega += 1.0 / N_i;
-              entropy += (float) n_i / (N_i * C) * log (((float) n_i / C) / log (2.0));
+              entropy += (float) n_i / (N_i * C) * log ((float) n_i / C) / log (2.0);
             }
         }
       entropy /= - log (omega);
-- 
2.43.0


From 572979b563479fa52daa984505d52945dc2e2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:38 +0000
Subject: [PATCH 109/170] fix: contribution does not count common points as
 incomparable ones

---
 moeo/src/metric/moeoContributionMetric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoContributionMetric.h b/moeo/src/metric/moeoContributionMetric.h
index f8df458..2152665 100644
--- a/moeo/src/metric/moeoContributionMetric.h
+++ b/moeo/src/metric/moeoContributionMetric.h
@@ -122,7 +122,7 @@ class moeoContributionMetric : public moeoVectorVsVectorBinaryMetric < Objective
         {
           bool domin_rel = false;
           for (unsigned int j=0; j<_set2.size(); j++)
-            if ( (paretoComparator(_set2[j], _set1[i])) || (paretoComparator(_set1[i], _set2[j])) )
+            if ( (_set1[i] == _set2[j]) || (paretoComparator(_set2[j], _set1[i])) || (paretoComparator(_set1[i], _set2[j])) )
               {
                 domin_rel = true;
                 break;
-- 
2.43.0


From c3d41bd237faaf977c45484392dd96ca533014f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:52 +0000
Subject: [PATCH 110/170] fix: normalized indicators of sets where an objective
 does not vary

---
 moeo/src/metric/moeoHyperVolumeMetric.h           | 10 ++++++++++
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index 9b36e74..ebc1d94 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -166,6 +166,10 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 	                min = std::min(min, _set[j][i]);
 	                max = std::max(max, _set[j][i]);
 	            }
+	            if (min == max){
+	                min -= tiny();
+	                max += tiny();
+	            }
 	            bounds[i] = eoRealInterval(min, max);
 	        }
     	}
@@ -346,6 +350,12 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 
   private:
 
+	    /** half the range given to an objective that does not vary */
+	    static double tiny()
+	    {
+	        return 1e-6;
+	    }
+
 	    /*boolean indicates if data must be normalized or not*/
 	    bool normalize;
 
diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..7ca42a7 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -123,6 +123,10 @@ public:
                 min = std::min(min, _set2[j][i]);
                 max = std::max(max, _set2[j][i]);
             }
+            if (min == max){
+                min -= tiny();
+                max += tiny();
+            }
             bounds[i] = eoRealInterval(min, max);
         }
     }
@@ -130,6 +134,12 @@ public:
 
 protected:
 
+    /** half the range given to an objective that does not vary */
+    static double tiny()
+    {
+        return 1e-6;
+    }
+
     /*vectors contains bounds for normalization*/
     std::vector < eoRealInterval > bounds;
 
-- 
2.43.0


From 63847c6dc22002ed6f5437c149974f53c4b29774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:09 +0000
Subject: [PATCH 111/170] fix: roulette selection uses the sum of the fitness
 values as its total

---
 moeo/src/selection/moeoRouletteSelect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moeo/src/selection/moeoRouletteSelect.h b/moeo/src/selection/moeoRouletteSelect.h
index 3a293b1..4b45b8e 100644
--- a/moeo/src/selection/moeoRouletteSelect.h
+++ b/moeo/src/selection/moeoRouletteSelect.h
@@ -73,7 +73,12 @@ class moeoRouletteSelect:public moeoSelectOne < MOEOT >
     const MOEOT & operator  () (const eoPop < MOEOT > & _pop)
     {
       // use the selector
-      return mo_roulette_wheel(_pop,tSize);
+      double total = 0;
+      for (unsigned int i=0; i<_pop.size(); i++)
+      {
+          total += static_cast<double>(_pop[i].fitness());
+      }
+      return mo_roulette_wheel(_pop,total);
     }
 
 
-- 
2.43.0


From 4c8b9ec5496471b491fd96f75019235bfcabddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:09 +0000
Subject: [PATCH 112/170] fix: simple elitist EA breeds with the transformation
 it was given

---
 moeo/src/algo/moeoSEEA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/algo/moeoSEEA.h b/moeo/src/algo/moeoSEEA.h
index 055fc80..c8da679 100644
--- a/moeo/src/algo/moeoSEEA.h
+++ b/moeo/src/algo/moeoSEEA.h
@@ -137,7 +137,7 @@ public:
         while (continuator (_pop))
         {
             // generate offspring, worths are recalculated if necessary
-            genBreed (_pop, offspring);
+            breed (_pop, offspring);
 
             popEval (_pop, offspring); // eval of offspring
             // after replace, the new pop is in _pop
-- 
2.43.0


From f4145767a3689ba9305bc188890c5c38845d9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:50 +0000
Subject: [PATCH 113/170] fix: SPEA2 built from a crossover and a mutation
 selects its parents in the archive

---
 moeo/src/algo/moeoSPEA2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/algo/moeoSPEA2.h b/moeo/src/algo/moeoSPEA2.h
index 8b419b5..557194b 100644
--- a/moeo/src/algo/moeoSPEA2.h
+++ b/moeo/src/algo/moeoSPEA2.h
@@ -84,7 +84,7 @@ public:
     moeoSPEA2 (unsigned int _maxGen, eoEvalFunc < MOEOT > & _eval, eoQuadOp < MOEOT > & _crossover, double _pCross, eoMonOp < MOEOT > & _mutation, double _pMut, moeoArchive < MOEOT >& _archive, unsigned int _k=1, bool _nocopy=false) :
             defaultGenContinuator(_maxGen), continuator(defaultGenContinuator), eval(_eval), loopEval(_eval), popEval(loopEval), archive(_archive),defaultSelect(2),select(defaultSelect, defaultSelect, _archive, 0.0),
             defaultSGAGenOp(_crossover, _pCross, _mutation, _pMut), fitnessAssignment(_archive, _nocopy),
-            genBreed(defaultSelect, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
+            genBreed(select, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
     {}
 
 
@@ -103,7 +103,7 @@ public:
     moeoSPEA2 (eoContinue < MOEOT >& _continuator, eoEvalFunc < MOEOT > & _eval, eoQuadOp < MOEOT > & _crossover, double _pCross, eoMonOp < MOEOT > & _mutation, double _pMut, moeoArchive < MOEOT >& _archive, unsigned int _k=1, bool _nocopy=false) :
             defaultGenContinuator(0), continuator(_continuator), eval(_eval), loopEval(_eval), popEval(loopEval), archive(_archive),defaultSelect(2),select(defaultSelect, defaultSelect, _archive, 0.0),
             defaultSGAGenOp(_crossover, _pCross, _mutation, _pMut), fitnessAssignment(_archive, _nocopy),
-            genBreed(defaultSelect, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
+            genBreed(select, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
     {}
 
 
@@ -122,7 +122,7 @@ public:
     moeoSPEA2 (eoContinue < MOEOT >& _continuator, eoPopEvalFunc < MOEOT > & _eval, eoQuadOp < MOEOT > & _crossover, double _pCross, eoMonOp < MOEOT > & _mutation, double _pMut, moeoArchive < MOEOT >& _archive, unsigned int _k=1, bool _nocopy=false) :
             defaultGenContinuator(0), continuator(_continuator), eval(dummyEval), loopEval(dummyEval), popEval(_eval), archive(_archive),defaultSelect(2),select(defaultSelect, defaultSelect, _archive, 0.0),
             defaultSGAGenOp(_crossover, _pCross, _mutation, _pMut), fitnessAssignment(_archive, _nocopy),
-            genBreed(defaultSelect, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
+            genBreed(select, defaultSGAGenOp),selectMany(defaultSelect,0.0), selectTransform(selectMany, dummyTransform), breed(genBreed), diversityAssignment(dist,_archive, _k)
     {}
 
 
-- 
2.43.0


From 67df97654cd366006a2b14f8906d36aac315184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:06 +0000
Subject: [PATCH 114/170] fix: a solution without neighbours counts as visited
 in dominance-based local search

---
 moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h     | 3 +++
 moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h | 3 +++
 moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h | 3 +++
 moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h b/moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h
index 1f08a9a..1e263a7 100644
--- a/moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h
+++ b/moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h
@@ -115,6 +115,9 @@ private:
 			//fix the source flag to 1 (visited solution)
 			_src.flag(1);
 		}
+		//nothing to visit
+		else
+			_src.flag(1);
 	}
 
 	/** Neighbor */
diff --git a/moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h b/moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h
index fdc3ad4..34c656a 100644
--- a/moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h
+++ b/moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h
@@ -92,6 +92,9 @@ private:
 			if(!neighborhood.cont(_src))
 				_src.flag(1);
 		}
+		//nothing to visit
+		else
+			_src.flag(1);
 	}
 
 	/**
diff --git a/moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h b/moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h
index d5858a7..cdb52ea 100644
--- a/moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h
+++ b/moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h
@@ -101,6 +101,9 @@ private:
 			if(!neighborhood.cont(_src))
 				_src.flag(1);
 		}
+		//nothing to visit
+		else
+			_src.flag(1);
 	}
 
 	/** Objective Vector Pareto Comparator */
diff --git a/moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h b/moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h
index ab79cd6..b000a9d 100644
--- a/moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h
+++ b/moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h
@@ -97,6 +97,9 @@ private:
 			if(!neighborhood.cont(_src))
 				_src.flag(1);
 		}
+		//nothing to visit
+		else if(!neighborhood.hasNeighbor(_src))
+			_src.flag(1);
 	}
 
 	/**
-- 
2.43.0


From 61cc218d5b801658a1239e074f14a5ec771f1473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:30 +0000
Subject: [PATCH 115/170] fix: best objective vector statistic names
 individuals of the current population

---
 moeo/src/utils/moeoBestObjVecStat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoBestObjVecStat.h b/moeo/src/utils/moeoBestObjVecStat.h
index 604ca90..f77adec 100644
--- a/moeo/src/utils/moeoBestObjVecStat.h
+++ b/moeo/src/utils/moeoBestObjVecStat.h
@@ -65,7 +65,7 @@ public:
 	*/
 	const MOEOT & bestindividuals(unsigned int which) {
 		typedef typename moeoObjVecStat<MOEOT>::Traits traits;
-		if(which > traits::nObjectives() ) throw eoException("which is larger than the number of objectives");
+		if(which >= traits::nObjectives() ) throw eoException("which is larger than the number of objectives");
 		return *(best_individuals[which]);
 	}
 
@@ -97,6 +97,7 @@ private :
       typedef typename moeoObjVecStat<MOEOT>::Traits traits;
 
       value().resize(traits::nObjectives());
+      best_individuals.clear();
 
       for (unsigned o = 0; o < traits::nObjectives(); ++o)
       {
-- 
2.43.0


From 334fc79a9ce1834c920ef3da23518a26b2a875fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:00 +0000
Subject: [PATCH 116/170] fix: NK landscapes can be read back from the files
 they write

---
 problems/eval/nkLandscapesEval.h  | 2 ++
 problems/eval/nkpLandscapesEval.h | 2 ++
 problems/eval/nkqLandscapesEval.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 73d4908..8ac8034 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -168,6 +168,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N and K." ;
 	throw eoException(str);
@@ -182,6 +183,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 343d25d..85729c9 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -129,6 +129,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and p." ;
 	throw eoException(str);
@@ -143,6 +144,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 368bae9..b7cf4e7 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -128,6 +128,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and q." ;
 	throw eoException(str);
@@ -142,6 +143,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
-- 
2.43.0


From bd582f3258a2a6f0ea7cc48d32f1ec0a13890cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:00 +0000
Subject: [PATCH 117/170] fix: NKp and NKq landscapes built from a file read
 their own format

---
 problems/eval/nkpLandscapesEval.h | 2 +-
 problems/eval/nkqLandscapesEval.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 85729c9..422be7f 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -89,7 +89,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index b7cf4e7..67b3433 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -88,7 +88,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
-- 
2.43.0


From 830ffdbabbcdcead22c52c8526fe103ae6898c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:44 +0000
Subject: [PATCH 118/170] fix: UBQP instances in ORLIB format are read as
 symmetric matrices

---
 problems/eval/ubqpEval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/problems/eval/ubqpEval.h b/problems/eval/ubqpEval.h
index 094030d..453651a 100644
--- a/problems/eval/ubqpEval.h
+++ b/problems/eval/ubqpEval.h
@@ -115,9 +115,10 @@ public:
     if (format == 0) {
       for(unsigned int k = 0; k < nbNonZero; k++) {
 	file >> i >> j >> v;
-	if (i > 0 && j > 0)
+	if (i > 0 && j > 0) {
 	  Q[i - 1][j - 1] = v;
-	else {
+	  Q[j - 1][i - 1] = v;
+	} else {
 	  std::string str = "UbqpEval: some indices are 0 in the instance file (in format 0), please check." ;
 	  throw eoException(str);
 	}
-- 
2.43.0


From 91175dd5ece8e31ee9f529bc45b7f7b5a6402176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:04 +0000
Subject: [PATCH 119/170] fix: centering a distribution moves its mean or
 bounds

---
 edo/src/edoNormalMono.h        | 6 ++++--
 edo/src/edoNormalMulti.h       | 2 ++
 edo/src/edoNormalMultiCenter.h | 2 +-
 edo/src/edoVectorBounds.h      | 6 ++++--
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/edo/src/edoNormalMono.h b/edo/src/edoNormalMono.h
index 1260446..0d728bc 100644
--- a/edo/src/edoNormalMono.h
+++ b/edo/src/edoNormalMono.h
@@ -64,8 +64,10 @@ public:
         return _mean.size();
     }
 
-    EOT mean(){return _mean;}
-    EOT variance(){return _variance;}
+    EOT& mean(){return _mean;}
+    const EOT& mean() const {return _mean;}
+    EOT& variance(){return _variance;}
+    const EOT& variance() const {return _variance;}
 
 private:
     EOT _mean;
diff --git a/edo/src/edoNormalMulti.h b/edo/src/edoNormalMulti.h
index a64a912..88a9f4c 100644
--- a/edo/src/edoNormalMulti.h
+++ b/edo/src/edoNormalMulti.h
@@ -105,6 +105,7 @@ public:
         return _mean.size();
     }
 
+    ublas::vector< AtomType >& mean() {return _mean;}
     ublas::vector< AtomType > mean() const {return _mean;}
     ublas::symmetric_matrix< AtomType, ublas::lower > varcovar() const {return _varcovar;}
 
@@ -148,6 +149,7 @@ public:
         return _mean.innerSize();
     }
 
+    Vector& mean() {return _mean;}
     Vector mean() const {return _mean;}
     Matrix varcovar() const {return _varcovar;}
 
diff --git a/edo/src/edoNormalMultiCenter.h b/edo/src/edoNormalMultiCenter.h
index 30510c6..9f96585 100644
--- a/edo/src/edoNormalMultiCenter.h
+++ b/edo/src/edoNormalMultiCenter.h
@@ -69,7 +69,7 @@ public:
 
     void operator() ( edoNormalMulti< EOT >& distrib, EOT& mass )
     {
-        assert( distrib.size() == mass.innerSize() );
+        assert( distrib.size() == mass.size() );
         Vector mean( distrib.size() );
         for( unsigned int i=0; i < distrib.size(); i++ ) {
             mean(i) = mass[i];
diff --git a/edo/src/edoVectorBounds.h b/edo/src/edoVectorBounds.h
index 7d01bad..7594b82 100644
--- a/edo/src/edoVectorBounds.h
+++ b/edo/src/edoVectorBounds.h
@@ -41,8 +41,10 @@ public:
         assert(_min.size() == _max.size());
     }
 
-    EOT min(){return _min;}
-    EOT max(){return _max;}
+    EOT& min(){return _min;}
+    const EOT& min() const {return _min;}
+    EOT& max(){return _max;}
+    const EOT& max() const {return _max;}
 
     unsigned int size()
     {
-- 
2.43.0


From 30db27f99191d79459a4587c438ce18d2a93386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:04 +0000
Subject: [PATCH 120/170] fix: adaptive normal distribution keeps the dimension
 it is built with

---
 edo/src/edoNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoNormalAdaptive.h b/edo/src/edoNormalAdaptive.h
index 7b60d2b..9e2963c 100644
--- a/edo/src/edoNormalAdaptive.h
+++ b/edo/src/edoNormalAdaptive.h
@@ -99,6 +99,7 @@ public:
             Vector p_c,
             Vector p_s
         ) :
+        _dim( dim ),
         _mean( mean ),
         _C( C ),
         _B( B ),
-- 
2.43.0


From 4fd6e4bfad06840e7978486cdd04203a7e56cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:04 +0000
Subject: [PATCH 121/170] fix: stateless combined estimator restarts from a new
 distribution without freeing it twice

---
 edo/src/edoEstimatorCombined.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edo/src/edoEstimatorCombined.h b/edo/src/edoEstimatorCombined.h
index 3c546bd..bfbf214 100644
--- a/edo/src/edoEstimatorCombined.h
+++ b/edo/src/edoEstimatorCombined.h
@@ -88,8 +88,7 @@ public:
 
     virtual D operator()( eoPop<EOType>& pop )
     {
-        delete &(this->_distrib);
-        this->_distrib = *(new D);
+        this->_distrib = D();
         return edoEstimatorCombinedAdaptive<D>::operator()(pop);
     }
 
-- 
2.43.0


From 567703c0d4e045f11096b5440ecacad290c456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:04 +0000
Subject: [PATCH 122/170] fix: chi expectation of the CMA-ES step size rule is
 not rounded by integer division

---
 edo/src/edoEstimatorNormalAdaptive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index a19e14b..fa46284 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -147,7 +147,7 @@ public:
         assert( invsqrtC.outerSize() == d.coord_sys().outerSize() );
 
         // expectation of ||N(0,I)|| == norm(randn(N,1))
-        double chiN = sqrt(N)*(1-1/(4*N)+1/(21*pow(N,2)));
+        double chiN = sqrt(N)*(1-1/(4.0*N)+1/(21*pow(N,2)));
 
 
         /**********************************************************************
-- 
2.43.0


From 2a5a1e4cd852666661f99ae3b6950962cf7aa56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 123/170] fix: multi-binomial estimator accepts solutions with
 more ones than the population size

---
 edo/src/edoEstimatorBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorBinomialMulti.h b/edo/src/edoEstimatorBinomialMulti.h
index 7fd1a45..11a325c 100644
--- a/edo/src/edoEstimatorBinomialMulti.h
+++ b/edo/src/edoEstimatorBinomialMulti.h
@@ -97,7 +97,7 @@ public:
             assert( indiv.rows() == rows && indiv.cols() == cols );
 
             // the EOT matrix should be filled with 1 or 0 only
-            assert( indiv.sum() <= popsize );
+            assert( indiv.sum() <= rows * cols );
 
             probas += indiv / popsize;
 
-- 
2.43.0


From 726bf863859b8066684427f0237f65b8932464dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 124/170] fix: constant multi-binomial distribution can be
 built

---
 edo/src/edoBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoBinomialMulti.h b/edo/src/edoBinomialMulti.h
index a2e7bfb..ba84e89 100644
--- a/edo/src/edoBinomialMulti.h
+++ b/edo/src/edoBinomialMulti.h
@@ -54,7 +54,7 @@ public:
      * 0.5 by default
      */
     edoBinomialMulti( unsigned int rows, unsigned int cols, double proba=0.5 )
-        : T::Constant(rows,cols,proba) {}
+        : T(T::Constant(rows,cols,proba)) {}
 
     /** Constructor without any assumption.
      */
-- 
2.43.0


From b849d4f8d51f2fbf9995f4c4d33104d6162ce6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 125/170] fix: covariance stopping rule sees ill-conditioned
 matrices whose smallest eigenvalue is negative

---
 edo/src/edoContAdaptiveIllCovar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoContAdaptiveIllCovar.h b/edo/src/edoContAdaptiveIllCovar.h
index 409d6db..3d7b565 100644
--- a/edo/src/edoContAdaptiveIllCovar.h
+++ b/edo/src/edoContAdaptiveIllCovar.h
@@ -83,7 +83,7 @@ public:
 
         }else {
             Matrix EV = eigensolver.eigenvalues();
-            double condition = EV.maxCoeff() / EV.minCoeff();
+            double condition = std::fabs( EV.maxCoeff() / EV.minCoeff() );
 
             if( not std::isfinite(condition) ) {
                 eo::log << eo::progress << "STOP because the covariance matrix"
-- 
2.43.0


From 00ca4ce304563951534d94dc687d632b1cb6b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 126/170] fix: EDA-SA accepts better candidates, and worse ones
 with the Metropolis probability

---
 edo/src/edoEDASA.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edo/src/edoEDASA.h b/edo/src/edoEDASA.h
index 1966d54..e7bd165 100644
--- a/edo/src/edoEDASA.h
+++ b/edo/src/edoEDASA.h
@@ -204,8 +204,8 @@ public:
 			_evaluation( candidate_solution );
 
 			// TODO: verifier le critere d'acceptation
-			if ( candidate_solution.fitness() < current_solution.fitness() ||
-			     rng.uniform() < exp( ::fabs(candidate_solution.fitness() - current_solution.fitness()) / temperature ) )
+			if ( candidate_solution.fitness() > current_solution.fitness() ||
+			     rng.uniform() < exp( - ::fabs(candidate_solution.fitness() - current_solution.fitness()) / temperature ) )
 			    {
 				current_pop.push_back(candidate_solution);
 				current_solution = candidate_solution;
-- 
2.43.0


From 5d390109954bf87be013b3a981fdf37d0635046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 127/170] fix: estimator and sampler transform fills the
 population again

---
 edo/src/edoTransform.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edo/src/edoTransform.h b/edo/src/edoTransform.h
index 20421d5..5ead0d4 100644
--- a/edo/src/edoTransform.h
+++ b/edo/src/edoTransform.h
@@ -39,7 +39,7 @@ Authors:
  * @ingroup Wrappers
  */
 template<class D>
-class edoTransform : public eoTransform< eoPop<typename D::EOType>& >
+class edoTransform : public eoTransform< typename D::EOType >
 {
 public:
     typedef typename D::EOType EOType;
@@ -67,14 +67,15 @@ public:
     typedef typename D::EOType EOType;
 
     edoTransformAdaptive( D & distrib, edoEstimator<D> & estimator, edoSampler<D> & sampler )
-        : _distrib(distrib), _estimator(estimator), _sampler(sampler)
+        : edoTransform<D>(estimator, sampler), _distrib(distrib), _estimator(estimator), _sampler(sampler)
     {}
 
     virtual void operator()( eoPop<EOType> & pop )
     {
         _distrib = _estimator( pop );
+        unsigned int size = pop.size();
         pop.clear();
-        for( unsigned int i = 0; i < pop.size(); ++i ) {
+        for( unsigned int i = 0; i < size; ++i ) {
             pop.push_back( _sampler(_distrib) );
         }
     }
-- 
2.43.0


From d08486cbc9f31eb0cceef34756c76904bc6f6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 128/170] fix: Cholesky factorisations find the checks of their
 base class

---
 edo/src/utils/edoCholesky.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edo/src/utils/edoCholesky.h b/edo/src/utils/edoCholesky.h
index fad0675..06a483e 100644
--- a/edo/src/utils/edoCholesky.h
+++ b/edo/src/utils/edoCholesky.h
@@ -135,7 +135,7 @@ class CholeskyLLT : public CholeskyBase<T>
 public:
   virtual void factorize( const typename CholeskyBase<T>::CovarMat& V )
     {
-        unsigned int N = assert_properties( V );
+        unsigned int N = this->assert_properties( V );
 
         unsigned int i=0, j=0, k;
         this->_L(0, 0) = sqrt( V(0, 0) );
@@ -237,7 +237,7 @@ public:
     virtual void factorize( const typename CholeskyBase<T>::CovarMat& V )
     {
         // use "int" everywhere, because of the "j-1" operation
-        int N = assert_properties( V );
+        int N = this->assert_properties( V );
         // example of an invertible matrix whose decomposition is undefined
         assert( V(0,0) != 0 ); 
 
-- 
2.43.0


From 0c6781b0b79c0c0cfb823002e9ee82b71145f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:05 +0000
Subject: [PATCH 129/170] fix: multi-normal sampling follows the pivots of the
 factorisation and accepts singular matrices

---
 edo/src/edoSamplerNormalMulti.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index d6e3b9b..6623cdc 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -125,7 +125,7 @@ public:
 
         // LsD = cholesky decomposition of varcovar
 
-        // Computes L and mD such as V = L mD L^T
+        // Computes P, L and mD such as V = P^T L mD L^T P
         Eigen::LDLT<Matrix> cholesky( distrib.varcovar() );
         Matrix L = cholesky.matrixL();
         assert(L.innerSize() == size);
@@ -135,15 +135,15 @@ public:
         assert(mD.innerSize() == size);
         assert(mD.outerSize() == size);
 
-        // now compute the final symetric matrix: LsD = L mD^1/2
-        // remember that V = ( L mD^1/2) ( L mD^1/2)^T
+        // now compute the final matrix: LsD = P^T L mD^1/2
+        // remember that V = ( P^T L mD^1/2) ( P^T L mD^1/2)^T
         // fortunately, the square root of a diagonal matrix is the square 
         // root of all its elements
-        Matrix sqrtD = mD.cwiseSqrt();
+        Matrix sqrtD = mD.cwiseMax( AtomType(0) ).cwiseSqrt();
         assert(sqrtD.innerSize() == size);
         assert(sqrtD.outerSize() == size);
 
-        Matrix LsD = L * sqrtD;
+        Matrix LsD = cholesky.transpositionsP().transpose() * Matrix( L * sqrtD );
         assert(LsD.innerSize() == size);
         assert(LsD.outerSize() == size);
 
-- 
2.43.0


From 58e2815b7f15527d41157112c2e5427d5d7263af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:15 +0000
Subject: [PATCH 130/170] fix: covariance is estimated around the mean

---
 edo/src/edoEstimatorNormalMulti.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/edo/src/edoEstimatorNormalMulti.h b/edo/src/edoEstimatorNormalMulti.h
index 1298d8a..aeb829d 100644
--- a/edo/src/edoEstimatorNormalMulti.h
+++ b/edo/src/edoEstimatorNormalMulti.h
@@ -199,16 +199,6 @@ public:
                     }
             }
 
-            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
-            // variance-covariance matrix computation : transpose(A) * A
-            Matrix var = sample.transpose() * sample;
-
-            // Be sure that the symmetric matrix got the good size
-            assert(var.innerSize() == s_size);
-            assert(var.outerSize() == s_size);
-
-            _varcovar = var / p_size;
-
             // unit vector
             Vector u( p_size);
             u = Vector::Constant(p_size, 1);
@@ -218,6 +208,17 @@ public:
 
             // division by n
             _mean /= p_size;
+
+            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
+            // variance-covariance matrix computation : transpose(A) * A, A being centered
+            sample.rowwise() -= _mean.transpose();
+            Matrix var = sample.transpose() * sample;
+
+            // Be sure that the symmetric matrix got the good size
+            assert(var.innerSize() == s_size);
+            assert(var.outerSize() == s_size);
+
+            _varcovar = var / p_size;
         }
 
         const Matrix& get_varcovar() const {return _varcovar;}
-- 
2.43.0


From c8b182994d95eef3620f48d33e52389522ea602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:00 +0000
Subject: [PATCH 131/170] fix: EDA-SA cools down

---
 edo/src/edoEDASA.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edo/src/edoEDASA.h b/edo/src/edoEDASA.h
index e7bd165..105466e 100644
--- a/edo/src/edoEDASA.h
+++ b/edo/src/edoEDASA.h
@@ -220,6 +220,8 @@ public:
 
 		pop.sort();
 
+		_cooling_schedule.update( temperature, ! current_pop.empty() );
+
 		if ( ! _cooling_schedule( temperature ) ){ eo::log << eo::debug << "_cooling_schedule" << std::endl; break; }
 
 		if ( ! _distribution_continue( distrib ) ){ eo::log << eo::debug << "_distribution_continue" << std::endl; break; }
-- 
2.43.0


From bac49a08f247fff9a140c25f0d4b790cc0d036b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:25 +0000
Subject: [PATCH 132/170] fix: quotes and backslashes in serialised strings
 survive printing and parsing

---
 eo/src/serial/Parser.cpp       | 10 +++++++++-
 eo/src/serial/SerialObject.cpp |  4 +++-
 eo/src/serial/SerialString.cpp | 12 +++++++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/eo/src/serial/Parser.cpp b/eo/src/serial/Parser.cpp
index e78b353..95aee88 100644
--- a/eo/src/serial/Parser.cpp
+++ b/eo/src/serial/Parser.cpp
@@ -83,7 +83,15 @@ static std::string parseString(const std::string& str, size_t & pos)
         pos = secondQuote;
     } while( backslashesCount % 2 == 1 );
 
-    value = str.substr( firstQuote+1, secondQuote-firstQuote-1 );
+    // drop the backslash in front of escaped characters
+    for( size_t i = firstQuote+1; i < secondQuote; ++i )
+    {
+        if( str[ i ] == '\\' && i+1 < secondQuote )
+        {
+            ++i;
+        }
+        value += str[ i ];
+    }
     pos = secondQuote + 1;
     return value;
 }
diff --git a/eo/src/serial/SerialObject.cpp b/eo/src/serial/SerialObject.cpp
index e926e44..6d5f215 100644
--- a/eo/src/serial/SerialObject.cpp
+++ b/eo/src/serial/SerialObject.cpp
@@ -20,6 +20,7 @@ Authors:
     Benjamin Bouvier <benjamin.bouvier@gmail.com>
 */
 # include "SerialObject.h"
+# include "SerialString.h"
 
 using namespace eoserial;
 
@@ -40,7 +41,8 @@ namespace eoserial
                 out << ", ";
             }
 
-            out << '"' << it->first << "\":";   // key
+            String( it->first ).print( out );   // key
+            out << ':';
             it->second->print( out );           // value
         }
         out << "}\n";
diff --git a/eo/src/serial/SerialString.cpp b/eo/src/serial/SerialString.cpp
index 6d49106..af10945 100644
--- a/eo/src/serial/SerialString.cpp
+++ b/eo/src/serial/SerialString.cpp
@@ -25,7 +25,17 @@ namespace eoserial
 {
     std::ostream& String::print( std::ostream& out ) const
     {
-        out << '"' << *this << '"';
+        out << '"';
+        for( const_iterator it = begin(), final = end(); it != final; ++it )
+        {
+            // the parser needs those to be escaped
+            if( *it == '"' || *it == '\\' )
+            {
+                out << '\\';
+            }
+            out << *it;
+        }
+        out << '"';
         return out;
     }
 } // namespace eoserial
-- 
2.43.0


From a4ab94f10ed659fd59c8f62d1cde6912d7a15d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:25 +0000
Subject: [PATCH 133/170] fix: the serialisation parser accepts tabs and spaces
 around colons

---
 eo/src/serial/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/serial/Parser.cpp b/eo/src/serial/Parser.cpp
index 95aee88..68f9483 100644
--- a/eo/src/serial/Parser.cpp
+++ b/eo/src/serial/Parser.cpp
@@ -107,7 +107,7 @@ static void ignoreChars(const std::string& str, size_t & pos)
 {
     // ignore white spaces and comas
     for (char current = str[ pos ];
-        current == ',' || current == ' ' || current == '\n';
+        current == ',' || current == ' ' || current == '\n' || current == '\t' || current == '\r';
         current = str[ ++pos ]);
 }
 
@@ -174,6 +174,7 @@ Entity* Parser::parseRight(const std::string & str, size_t & pos)
 void Parser::parseLeft(const std::string & str, size_t & pos, Object* eoserial)
 {
     std::string key = parseString(str, pos);
+    ignoreChars( str, pos );
     ++pos; // the colon
     DEBUG("We've read the key ")
     (*eoserial)[ key ] = parseRight( str, pos ); 
-- 
2.43.0


From ded89d52184913b109e5228877868949f8994659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:34 +0000
Subject: [PATCH 134/170] fix: vectors, lists and maps can be packed

---
 eo/src/serial/Utils.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eo/src/serial/Utils.h b/eo/src/serial/Utils.h
index 5acc558..ef80396 100644
--- a/eo/src/serial/Utils.h
+++ b/eo/src/serial/Utils.h
@@ -290,6 +290,12 @@ namespace eoserial
     // Pre declaration for being usable in packIterable.
     template<class T>
     inline Entity* pack( const T& value );
+    template<class T>
+    inline Entity* pack( const std::vector<T>& v );
+    template<class T>
+    inline Entity* pack( const std::list<T>& l );
+    template<class T>
+    inline Entity* pack( const std::map<std::string, T>& map );
 
     /**
      * @brief Pack method for iterable (begin, end) objects.
@@ -298,7 +304,7 @@ namespace eoserial
     inline Entity* packIterable( const T& container )
     {
         Array* arr = new Array;
-        for( Array::const_iterator it = container.begin(), end = container.end();
+        for( typename T::const_iterator it = container.begin(), end = container.end();
                 it != end;
                 ++it )
         {
@@ -332,7 +338,7 @@ namespace eoserial
     inline Entity* pack( const std::map<std::string, T>& map )
     {
         Object* obj = new Object;
-        for( Object::const_iterator it = map.begin(), end = map.end();
+        for( typename std::map<std::string, T>::const_iterator it = map.begin(), end = map.end();
                 it != end;
                 ++it )
         {
-- 
2.43.0


From 42746a36fc4ad062293bf9705f57d2434f4e26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:34 +0000
Subject: [PATCH 135/170] fix: serialised doubles keep all their digits

---
 eo/src/serial/SerialString.h | 2 +-
 eo/src/serial/Utils.h        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/serial/SerialString.h b/eo/src/serial/SerialString.h
index 2ef1f94..95edcfa 100644
--- a/eo/src/serial/SerialString.h
+++ b/eo/src/serial/SerialString.h
@@ -83,7 +83,7 @@ namespace eoserial
         inline void String::deserialize( T & value ) const
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << *this;
             ss >> value;
         }
diff --git a/eo/src/serial/Utils.h b/eo/src/serial/Utils.h
index ef80396..9b5ad47 100644
--- a/eo/src/serial/Utils.h
+++ b/eo/src/serial/Utils.h
@@ -269,7 +269,7 @@ namespace eoserial
         Entity* operator()( const T& value )
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << value;
             return new String(ss.str());
         }
@@ -425,7 +425,7 @@ namespace eoserial
     String* make( const T & value )
     {
         std::stringstream ss;
-        ss.precision(std::numeric_limits<double>::digits10 + 1);
+        ss.precision(std::numeric_limits<double>::max_digits10);
         ss << value;
         return new String( ss.str() );
     }
-- 
2.43.0


From e0c53e4af6ed85704b42248ea1d98589758120ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:44 +0000
Subject: [PATCH 136/170] fix: timers borrow the right number of microseconds
 from a second

---
 eo/src/utils/eoTimer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoTimer.h b/eo/src/utils/eoTimer.h
index 5ced8c6..599cfb9 100644
--- a/eo/src/utils/eoTimer.h
+++ b/eo/src/utils/eoTimer.h
@@ -86,7 +86,7 @@ class eoTimer
                 uuremainder += remainder;
             } else
             {
-                uuremainder += ( 1000000 - remainder );
+                uuremainder += ( 1000000 + remainder );
                 --result;
             }
 
@@ -119,7 +119,7 @@ class eoTimer
                 usremainder += remainder;
             } else
             {
-                usremainder += ( 1000000 - remainder );
+                usremainder += ( 1000000 + remainder );
                 --result;
             }
 
-- 
2.43.0


From 4ea2ab1dfcc2c1f8211ef640621450506bc873e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 137/170] fix: static assignment allocates its table of
 attributions

---
 eo/src/mpi/eoMpiAssignmentAlgorithm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
index 39ce02f..e8b57be 100644
--- a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
+++ b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
@@ -149,11 +149,12 @@ namespace eo
 
             if( runs <= 0 )
             {
+                attributions.resize( nbWorkers, 0 );
                 return;
             }
 
             attributions.clear();
-            attributions.reserve( nbWorkers );
+            attributions.resize( nbWorkers );
 
             // Let be the euclidean division of runs by nbWorkers :
             // runs == q * nbWorkers + r, 0 <= r < nbWorkers
-- 
2.43.0


From 77db227027fc5ff5897b900b076f3eab7e0bb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 138/170] fix: rank 0 can be a worker of another master

---
 eo/src/mpi/eoMpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/eoMpi.h b/eo/src/mpi/eoMpi.h
index 1038078..3b67d67 100644
--- a/eo/src/mpi/eoMpi.h
+++ b/eo/src/mpi/eoMpi.h
@@ -710,7 +710,7 @@ namespace eo
                         {
                             timerStat.start("master_wait_for_assignee");
                             int assignee = assignmentAlgo.get( );
-                            while( assignee <= 0 )
+                            while( assignee < 0 )
                             {
                                 eo::log << eo::debug << "[M" << comm.rank() << "] Waitin' for node..." << std::endl;
 
-- 
2.43.0


From cb0f6707e035a4b62a113e403d467712e771e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 139/170] fix: strings sent between nodes keep embedded null
 characters

---
 eo/src/mpi/implMpi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/implMpi.cpp b/eo/src/mpi/implMpi.cpp
index d045da3..513fd59 100644
--- a/eo/src/mpi/implMpi.cpp
+++ b/eo/src/mpi/implMpi.cpp
@@ -122,7 +122,7 @@ namespace mpi
             _bufsize = size;
         }
         MPI_Recv( _buf, size, MPI_CHAR, src, tag, MPI_COMM_WORLD, &stat );
-        str.assign( _buf );
+        str.assign( _buf, size - 1 );
     }
 
     /*
-- 
2.43.0


From f614d02eece103d8d27cd14b5866eb32dc9f123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 140/170] fix: release the receive buffer with delete[]

---
 eo/src/mpi/implMpi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/implMpi.cpp b/eo/src/mpi/implMpi.cpp
index 513fd59..a425b9e 100644
--- a/eo/src/mpi/implMpi.cpp
+++ b/eo/src/mpi/implMpi.cpp
@@ -58,7 +58,7 @@ namespace mpi
     {
         if( _buf )
         {
-            delete _buf;
+            delete [] _buf;
             _buf = 0;
         }
     }
-- 
2.43.0


From fe09dfaa7bab3e26d13a8bba6842d18658a794c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 141/170] fix: only the master tells workers to stop when an
 empty job ends

---
 eo/src/mpi/eoTerminateJob.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eo/src/mpi/eoTerminateJob.h b/eo/src/mpi/eoTerminateJob.h
index 2f29991..9e5344b 100644
--- a/eo/src/mpi/eoTerminateJob.h
+++ b/eo/src/mpi/eoTerminateJob.h
@@ -122,10 +122,13 @@ namespace eo
 
             ~EmptyJob()
             {
-                std::vector< int > idles = assignmentAlgo.idles();
-                for(unsigned i = 0, size = idles.size(); i < size; ++i)
+                if( isMaster() )
                 {
-                    comm.send( idles[i], Channel::Commands, Message::Kill );
+                    std::vector< int > idles = assignmentAlgo.idles();
+                    for(unsigned i = 0, size = idles.size(); i < size; ++i)
+                    {
+                        comm.send( idles[i], Channel::Commands, Message::Kill );
+                    }
                 }
                 delete & this->store;
             }
-- 
2.43.0


From a31eace580c7aa85d60caeb2c3fe0fd7ac7766ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 142/170] fix: receivers of a broadcast get the value

---
 eo/src/mpi/implMpi.cpp | 2 +-
 eo/src/mpi/implMpi.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/mpi/implMpi.cpp b/eo/src/mpi/implMpi.cpp
index a425b9e..e29f1bf 100644
--- a/eo/src/mpi/implMpi.cpp
+++ b/eo/src/mpi/implMpi.cpp
@@ -161,7 +161,7 @@ namespace mpi
         MPI_Barrier( MPI_COMM_WORLD );
     }
 
-    void broadcast( communicator & /*comm*/, int value, int root )
+    void broadcast( communicator & /*comm*/, int & value, int root )
     {
         MPI_Bcast( &value, 1, MPI_INT, root, MPI_COMM_WORLD );
     }
diff --git a/eo/src/mpi/implMpi.h b/eo/src/mpi/implMpi.h
index 0efb89a..8523bf1 100644
--- a/eo/src/mpi/implMpi.h
+++ b/eo/src/mpi/implMpi.h
@@ -319,7 +319,7 @@ namespace eo
          *
          * @todo Actually comm isn't used and broadcast is performed on the whole MPI_COMM_WORLD. TODO: Use comm instead
          */
-        void broadcast(communicator &comm, int value, int root);
+        void broadcast(communicator &comm, int &value, int root);
 
         /**
          * @}
-- 
2.43.0


From 55bb1a0028ca9e15e6c3395fb9f11d4f30495b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:02 +0000
Subject: [PATCH 143/170] fix: restarting from the original population accepts
 a plain evaluator

---
 eo/src/mpi/eoMultiStart.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eo/src/mpi/eoMultiStart.h b/eo/src/mpi/eoMultiStart.h
index dd8c1fa..eed9a4c 100644
--- a/eo/src/mpi/eoMultiStart.h
+++ b/eo/src/mpi/eoMultiStart.h
@@ -1,6 +1,8 @@
 # ifndef __EO_MULTISTART_H__
 # define __EO_MULTISTART_H__
 
+# include <memory>
+
 # include "../eo"
 # include "eoMpi.h"
 
@@ -418,7 +420,8 @@ namespace eo
                     eoEvalFunc<EOT>& eval) :
                 _continuator( continuator ),
                 _originalPop( originalPop ),
-                _pop_eval( eval )
+                _loop_eval( new eoPopLoopEval<EOT>( eval ) ),
+                _pop_eval( *_loop_eval )
             {
                 // empty
             }
@@ -445,6 +448,7 @@ namespace eo
             private:
             eoCountContinue<EOT> & _continuator;
             const eoPop<EOT>& _originalPop;
+            std::shared_ptr< eoPopEvalFunc<EOT> > _loop_eval;
             eoPopEvalFunc<EOT>& _pop_eval;
         };
 
-- 
2.43.0


From 59063728c4e56912628895fe89990dc18b8fc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:17 +0000
Subject: [PATCH 144/170] fix: parallel evaluation with static assignment
 attributes every packet

---
 eo/src/eoPopEvalFunc.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoPopEvalFunc.h b/eo/src/eoPopEvalFunc.h
index c3037c2..1edaa2e 100644
--- a/eo/src/eoPopEvalFunc.h
+++ b/eo/src/eoPopEvalFunc.h
@@ -195,12 +195,14 @@ class eoParallelPopLoopEval : public eoPopEvalFunc<EOT>
             (void)_parents;
             // Reinits the store and the scheduling algorithm
             store->data( _offspring );
-            // For static scheduling, it's mandatory to reinit attributions
-            int nbWorkers = assignAlgo.availableWorkers();
-            assignAlgo.reinit( nbWorkers );
             if( ! eo::parallel.isDynamic() ) {
+                int nbWorkers = assignAlgo.availableWorkers();
                 store->data()->packetSize = ceil( static_cast<double>( _offspring.size() ) / nbWorkers );
             }
+            // For static scheduling, it's mandatory to reinit attributions: one run for each packet
+            if( ! _offspring.empty() ) {
+                assignAlgo.reinit( ceil( static_cast<double>( _offspring.size() ) / store->data()->packetSize ) );
+            }
             // Effectively launches the job.
             eo::mpi::ParallelApply<EOT> job( assignAlgo, masterRank, *store );
             job.run();
-- 
2.43.0


From 50a4242707a4a29f8db45eb2971cc166b18f65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:45 +0000
Subject: [PATCH 145/170] fix: topology files may begin with an empty line

---
 smp/src/topology/customBooleanTopology.cpp    | 2 +-
 smp/src/topology/customStochasticTopology.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/customBooleanTopology.cpp b/smp/src/topology/customBooleanTopology.cpp
index 8bd87d1..a10854f 100644
--- a/smp/src/topology/customBooleanTopology.cpp
+++ b/smp/src/topology/customBooleanTopology.cpp
@@ -67,7 +67,7 @@ paradiseo::smp::CustomBooleanTopology::CustomBooleanTopology(std::string filenam
             }
             
             //if this is the first line, we must initiate the variable size
-            if(isFirst)
+            if(isFirst && !lineVector.empty())
             {
                 size = lineVector.size();
                 isFirst = false;
diff --git a/smp/src/topology/customStochasticTopology.cpp b/smp/src/topology/customStochasticTopology.cpp
index c0d9a3b..b23cf08 100644
--- a/smp/src/topology/customStochasticTopology.cpp
+++ b/smp/src/topology/customStochasticTopology.cpp
@@ -72,7 +72,7 @@ paradiseo::smp::CustomStochasticTopology::CustomStochasticTopology(std::string f
             }
             
             // If this is the first line, we must initiate the variable size
-            if(isFirst)
+            if(isFirst && !lineVector.empty())
             {
                 size = lineVector.size();
                 isFirst=false;
-- 
2.43.0


From b4e184f2c47c70c9e7f7dd80684b9a98242f8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:45 +0000
Subject: [PATCH 146/170] fix: rebuilding a custom topology connects isolated
 nodes again

---
 smp/src/topology/customBooleanTopology.cpp    | 2 ++
 smp/src/topology/customBooleanTopology.h      | 1 +
 smp/src/topology/customStochasticTopology.cpp | 2 ++
 smp/src/topology/customStochasticTopology.h   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/smp/src/topology/customBooleanTopology.cpp b/smp/src/topology/customBooleanTopology.cpp
index a10854f..d0566a7 100644
--- a/smp/src/topology/customBooleanTopology.cpp
+++ b/smp/src/topology/customBooleanTopology.cpp
@@ -86,6 +86,7 @@ paradiseo::smp::CustomBooleanTopology::CustomBooleanTopology(std::string filenam
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not squared" );
 
+        _initial = _matrix;
         f.close () ;
     }   
     else
@@ -107,6 +108,7 @@ std::vector<unsigned> paradiseo::smp::CustomBooleanTopology::getIdNeighbors(unsi
 void paradiseo::smp::CustomBooleanTopology::construct(unsigned nbNode)
 {
     assert(nbNode == _matrix.size());
+    _matrix = _initial;
 }
 
 void paradiseo::smp::CustomBooleanTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customBooleanTopology.h b/smp/src/topology/customBooleanTopology.h
index 6fc9b4a..4df0e0a 100644
--- a/smp/src/topology/customBooleanTopology.h
+++ b/smp/src/topology/customBooleanTopology.h
@@ -68,6 +68,7 @@ public :
 	
 private :
 	std::vector<std::vector<bool>> _matrix;
+	std::vector<std::vector<bool>> _initial; //!< as read from the file, without isolated nodes
 };
 
 }
diff --git a/smp/src/topology/customStochasticTopology.cpp b/smp/src/topology/customStochasticTopology.cpp
index b23cf08..8b82016 100644
--- a/smp/src/topology/customStochasticTopology.cpp
+++ b/smp/src/topology/customStochasticTopology.cpp
@@ -91,6 +91,7 @@ paradiseo::smp::CustomStochasticTopology::CustomStochasticTopology(std::string f
             if(line.size() != _matrix.size())
                 throw eoException("Mistake in the topology, matrix is not square" );
 
+        _initial = _matrix;
         f.close () ;
     }   
     else
@@ -115,6 +116,7 @@ std::vector<unsigned> paradiseo::smp::CustomStochasticTopology::getIdNeighbors(u
 void paradiseo::smp::CustomStochasticTopology::construct(unsigned nbNode)
 {
     assert(nbNode == _matrix.size());
+    _matrix = _initial;
 }
 
 void paradiseo::smp::CustomStochasticTopology::isolateNode(unsigned idNode)
diff --git a/smp/src/topology/customStochasticTopology.h b/smp/src/topology/customStochasticTopology.h
index d220e97..2675933 100644
--- a/smp/src/topology/customStochasticTopology.h
+++ b/smp/src/topology/customStochasticTopology.h
@@ -69,6 +69,7 @@ public :
 	
 private :
 	std::vector<std::vector<double>> _matrix;
+	std::vector<std::vector<double>> _initial; //!< as read from the file, without isolated nodes
 };
 
 }
-- 
2.43.0


From fb2e228bc185d2a25c08fbf9073f4cbf04b72fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:45 +0000
Subject: [PATCH 147/170] fix: a mesh finds its best ratio for every number of
 nodes

---
 smp/src/topology/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index e4b25ec..70b8622 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -44,10 +44,10 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     // ListFact[i] contains first factor which produces a ratio above the variable _ratio,
     // or the last element if there is no ratio that can go over the variable _ratio. 
 	double r1 = (double)listFact[i] * listFact[i] / nbNode;
-	double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+	double r2 = i > 0 ? (double)listFact[i-1] * listFact[i-1] / nbNode : r1;
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (std::abs(r2 - _ratio) <= _ratio - r1)
+    if (i > 0 && std::abs(r2 - _ratio) <= std::abs(r1 - _ratio))
         height = listFact[i-1];
     else
         height = listFact[i];
-- 
2.43.0


From 155a548aad3f77a099bc62a71f3f7623e2998d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:53 +0000
Subject: [PATCH 148/170] fix: packages of the progressive scheduler are only
 looked at under their lock

---
 smp/src/scheduler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smp/src/scheduler.cpp b/smp/src/scheduler.cpp
index 9a5210e..47fa8f3 100644
--- a/smp/src/scheduler.cpp
+++ b/smp/src/scheduler.cpp
@@ -102,10 +102,11 @@ void paradiseo::smp::Scheduler<EOT,Policy>::operator()(eoUF<EOT&, void>& func, e
     {
         for(unsigned i = 0; i < workers.size(); i++)
         {
-            if(popPackages[i].empty() && counter < pop.size())
+            // a package belongs to whoever holds its lock
+            std::unique_lock<std::mutex> lock(m[i], std::try_to_lock);
+            if(lock.owns_lock() && popPackages[i].empty() && counter < pop.size())
             {
                 j = 0;
-                std::unique_lock<std::mutex> lock(m[i]);
                 while (j < planning[i] && counter < pop.size()) 
                 {
                     //std::cout << counter << std::endl;
@@ -136,8 +137,11 @@ void paradiseo::smp::Scheduler<EOT,Policy>::applyLinearPolicy(eoUF<EOT&, void>&
 template<class EOT, class Policy>
 void paradiseo::smp::Scheduler<EOT,Policy>::applyProgressivePolicy(eoUF<EOT&, void>& func, std::vector<EOT*>& pop, int id)
 { 
-    while(!done || !pop.empty())
+    bool last = false;
+    while(!last)
     {   
+        // nothing is added to the package once done is set
+        last = done;
         std::unique_lock<std::mutex> lock(m[id]);
         for(unsigned i = 0; i < pop.size(); i++) {
             //std::cout << "."  << id << "." << std::endl;
-- 
2.43.0


From 2dd07fb74a46dc5d8f97ecdc4f064e22a09de4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:21 +0000
Subject: [PATCH 149/170] fix: changing the topology of an island model takes
 effect and is protected

---
 smp/src/islandModel.cpp | 11 ++++++-----
 smp/src/islandModel.h   |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index e32fb8e..2648140 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -80,8 +80,9 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             // If an island is stopped we need to isolate its node in the topology
             if(it.second && it.first->isStopped())
             {
+                std::lock_guard<std::mutex> lock(m);
                 it.second = false;
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo.get().isolateNode(table.getLeft()[it.first]);
             }
         }        
         // Check sending
@@ -138,11 +139,11 @@ void paradiseo::smp::IslandModel<EOT>::setTopology(AbstractTopology& _topo)
     // If we change when the algorithm is running, we need to recontruct the topo
     if(running)
     {
-        topo.construct(islands.size());
+        topo.get().construct(islands.size());
         // If we change the topology during the algorithm, we need to isolate stopped islands
         for(auto it : islands)
             if(!it.second)
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo.get().isolateNode(table.getLeft()[it.first]);
     }
 }
 
@@ -154,7 +155,7 @@ void paradiseo::smp::IslandModel<EOT>::send(void)
     {
         // Get the neighbors
         unsigned idFrom = table.getLeft()[listEmigrants.front().second];
-        std::vector<unsigned> neighbors = topo.getIdNeighbors(idFrom);
+        std::vector<unsigned> neighbors = topo.get().getIdNeighbors(idFrom);
         
         // Send elements to neighbors
         eoPop<EOT> migPop = std::move(listEmigrants.front().first);
@@ -185,7 +186,7 @@ void paradiseo::smp::IslandModel<EOT>::initModel(void)
         it.second = true; // Indicate islands are active
     
     // Construct topology according to the number of islands
-    topo.construct(islands.size());
+    topo.get().construct(islands.size());
     
     // Create table
     table = createTable();
diff --git a/smp/src/islandModel.h b/smp/src/islandModel.h
index 1b76550..bf0915e 100644
--- a/smp/src/islandModel.h
+++ b/smp/src/islandModel.h
@@ -32,6 +32,7 @@ Contact: paradiseo-help@lists.gforge.inria.fr
 
 #include <queue>
 #include <algorithm>
+#include <functional>
 #include <utility>
 #include <future>
 #include <thread>
@@ -99,7 +100,7 @@ protected:
     std::queue<std::pair<eoPop<EOT>,AIsland<EOT>*>> listEmigrants;
     Bimap<unsigned, AIsland<EOT>*> table;
     std::vector<std::pair<AIsland<EOT>*, bool>> islands;
-    AbstractTopology& topo;
+    std::reference_wrapper<AbstractTopology> topo;
     std::vector<std::shared_future<bool>> sentMessages;
     std::mutex m;
     std::atomic<bool> running;
-- 
2.43.0


From 35fd15bd7c0ae6ac4fc8c7587ee70c02dc896746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:23 +0000
Subject: [PATCH 150/170] fix: tournament replacements read their own argument,
 not that of the selection

---
 eo/src/do/make_algo_scalar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/do/make_algo_scalar.h b/eo/src/do/make_algo_scalar.h
index 7819a42..76cc273 100644
--- a/eo/src/do/make_algo_scalar.h
+++ b/eo/src/do/make_algo_scalar.h
@@ -240,7 +240,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("6"));
         }
       else        // parameter passed by user as EPTour(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoEPReplacement<EOT>(detSize);
     }
@@ -260,7 +260,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("2"));
         }
       else        // parameter passed by user as SSGADet(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoSSGADetTournamentReplacement<EOT>(detSize);
     }
@@ -275,7 +275,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("1"));
         }
       else        // parameter passed by user as SSGADet(T)
-        p = atof(ppSelect.second[0].c_str());
+        p = atof(ppReplace.second[0].c_str());
 
       replace = new eoSSGAStochTournamentReplacement<EOT>(p);
     }
-- 
2.43.0


From 85eb1ee787cf479deaa67b5e7005e493629ed27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:38 +0000
Subject: [PATCH 151/170] fix: operators of bit strings without crossover or
 mutation rates do none

---
 eo/src/ga/make_op.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/eo/src/ga/make_op.h b/eo/src/ga/make_op.h
index 6b95b2c..744a026 100644
--- a/eo/src/ga/make_op.h
+++ b/eo/src/ga/make_op.h
@@ -115,11 +115,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid uRate");
 
     // minimum check
-    // bool bCross = true; // not used ?
+    bool bCross = true;
     if (onePointRateParam.value()+twoPointsRateParam.value()+uRateParam.value()==0)
       {
         std::cerr << "Warning: no crossover" << std::endl;
-        // bCross = false;
+        bCross = false;
       }
 
     // Create the CombinedQuadOp
@@ -174,11 +174,11 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
       throw eoParamException("Invalid kBitRate");
 
     // minimum check
-    // bool bMut = true; // not used ?
-    if (bitFlipRateParam.value()+oneBitRateParam.value()==0)
+    bool bMut = true;
+    if (bitFlipRateParam.value()+oneBitRateParam.value()+kBitRateParam.value()==0)
       {
         std::cerr << "Warning: no mutation" << std::endl;
-        // bMut = false;
+        bMut = false;
       }
 
     // Create the CombinedMonOp
@@ -216,14 +216,16 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoInit<EOT>& /*_in
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> *op = new eoSequentialOp<EOT>;
   _state.storeFunctor(op);
   op->add(*cross, 1.0);  // always crossover (but clone with prob 1-pCross
-  op->add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op->add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return *op;
-- 
2.43.0


From 302521ede3c6c90c0da3247d9027d1b9fee4aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:38 +0000
Subject: [PATCH 152/170] fix: operators of real vectors without crossover or
 mutation rates no longer use a null operator

---
 eo/src/es/make_op_real.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eo/src/es/make_op_real.h b/eo/src/es/make_op_real.h
index 0c202d7..2522d05 100644
--- a/eo/src/es/make_op_real.h
+++ b/eo/src/es/make_op_real.h
@@ -274,13 +274,15 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoRealInitBounded<
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+  cross->add(*ptQuad, bCross ? 1-pCrossParam.value() : 1.0); // clone operator
 
   // now the sequential
   eoSequentialOp<EOT> & op =  _state.storeFunctor(new eoSequentialOp<EOT>);
   op.add(*cross, 1.0);   // always crossover (but clone with prob 1-pCross
-  op.add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op.add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return op;
-- 
2.43.0


From b147d17d277166f3712a0d9fd2f0cc9d997cbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:38 +0000
Subject: [PATCH 153/170] fix: restarting with a smaller population retains the
 best individuals

---
 eo/src/do/make_pop.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eo/src/do/make_pop.h b/eo/src/do/make_pop.h
index 516d7a7..813257d 100644
--- a/eo/src/do/make_pop.h
+++ b/eo/src/do/make_pop.h
@@ -79,6 +79,12 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
       inState.registerObject(pop);
       inState.registerObject(rng);
       inState.load(loadNameParam.value()); //  load the pop and the rng
+      if (pop.size() > popSize.value())
+        {
+          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
+          pop.sort();
+          pop.resize(popSize.value());
+        }
       // the fitness is read in the file:
       // do only evaluate the pop if the fitness has changed
       if (recomputeFitnessParam.value())
@@ -88,11 +94,6 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
         }
       if (pop.size() < popSize.value())
         std::cerr << "WARNING, only " << pop.size() << " individuals read in file " << loadNameParam.value() << "\nThe remaining " << popSize.value() - pop.size() << " will be randomly drawn" << std::endl;
-      if (pop.size() > popSize.value())
-        {
-          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
-          pop.resize(popSize.value());
-        }
     }
   else				// nothing loaded from a file
     {
-- 
2.43.0


From bfd093b6e6927c31a8cc86d488100332486e5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:33 +0000
Subject: [PATCH 154/170] fix: algorithms built from a single evaluation
 function are returned to the caller

---
 eo/src/do/make_algo_easea.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/do/make_algo_easea.h b/eo/src/do/make_algo_easea.h
index bf5b8b1..9c0277c 100644
--- a/eo/src/do/make_algo_easea.h
+++ b/eo/src/do/make_algo_easea.h
@@ -381,7 +381,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoPopEvalF
 template <class EOT>
 eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc<EOT>& _eval, eoContinue<EOT>& _continue, eoGenOp<EOT>& _op)
 {
-         do_make_algo_scalar( _parser, _state, *(new eoPopLoopEval<EOT>(_eval)), _continue, _op);
+         return do_make_algo_scalar( _parser, _state, *(new eoPopLoopEval<EOT>(_eval)), _continue, _op);
 }
 
 
-- 
2.43.0


From c3738f704c36ee73b1a761fa2fe9069a6b52d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:55 +0000
Subject: [PATCH 155/170] fix: the niche size given for sharing is no longer
 truncated to an integer

---
 moeo/src/do/make_ea_moeo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/do/make_ea_moeo.h b/moeo/src/do/make_ea_moeo.h
index 76559e1..de1546e 100644
--- a/moeo/src/do/make_ea_moeo.h
+++ b/moeo/src/do/make_ea_moeo.h
@@ -159,7 +159,7 @@ moeoEA < MOEOT > & do_make_ea_moeo(eoParser & _parser, eoState & _state, eoEvalF
         }
       else
         {
-          nicheSize = atoi(diversityParamValue.second[0].c_str());
+          nicheSize = atof(diversityParamValue.second[0].c_str());
         }
       diversityAssignment = new moeoFrontByFrontSharingDiversityAssignment < MOEOT> (nicheSize);
     }
-- 
2.43.0


From 042734e2b1535ba1bb65409755aacaac4080a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:15 +0000
Subject: [PATCH 156/170] fix: CMA-ES keeps as many selection weights as the mu
 given by the user

---
 eo/src/es/CMAParams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index d27204f..c886b45 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -97,6 +97,7 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
         mu = lambda/2;
         cerr << "Mu set larger/equal to lambda, setting it to " << mu << endl;
     }
+    weights.resize(mu);
 
     /* handle selection weights */
 
-- 
2.43.0


From 7663391f98aa59fada2a335b16c6e563438fc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:15 +0000
Subject: [PATCH 157/170] fix: equal and linear weighting of CMA-ES were
 exchanged

---
 eo/src/es/CMAParams.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index c886b45..5d2ea23 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -109,14 +109,14 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
             section).value();
 
     switch (weight_type) {
-        case 1:
+        case 2:
             {
                 for (unsigned i = 0; i < weights.size(); ++i) {
                     weights[i] = mu - i;
                 }
                 break;
             }
-        case 2:
+        case 1:
             {
                 weights = 1.;
                 break;
-- 
2.43.0


From ce0706a4c34b68f141fd8995c6afe1532b3706b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:15 +0000
Subject: [PATCH 158/170] fix: default cumulation rate of CMA-ES was computed
 from an uninitialised value

---
 eo/src/es/CMAParams.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index 5d2ea23..2fc8809 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -210,7 +210,7 @@ void CMAParams::defaults(unsigned n_, unsigned maxgen_) {
     weights /= sumw;
 
     mucov = mueff;
-    ccumsig *= (mueff + 2.) / (n + mueff + 3.);
+    ccumsig = (mueff + 2.) / (n + mueff + 3.);
     ccumcov = 4. / (n + 4);
 
     double t1 = 2. / ((n+1.4142)*(n+1.4142));
-- 
2.43.0


From 52ec286e56e09a63a48297789b009f15cf81c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:15 +0000
Subject: [PATCH 159/170] fix: CMA-ES corrects the length of the step size path
 from the first generation on

---
 eo/src/es/CMAState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index 897b32f..ec2ab4d 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -164,7 +164,7 @@ struct CMAStateImpl {
 
         double chiN =  sqrt((double) p.n) * (1. - 1./(4.*p.n) + 1./(21.*p.n*p.n));
         /* cumulation for covariance matrix (pc) using B*D*z~N(0,C) */
-        double hsig = sqrt(psxps) / sqrt(1. - pow(1.-p.ccumsig, 2.*gen)) / chiN < 1.5 + 1./(p.n-0.5);
+        double hsig = sqrt(psxps) / sqrt(1. - pow(1.-p.ccumsig, 2.*(gen+1))) / chiN < 1.5 + 1./(p.n-0.5);
 
         pc = (1. - p.ccumcov) * pc + hsig * sqrt(p.ccumcov * (2. - p.ccumcov)) * BDz;
 
-- 
2.43.0


From 79b76133fe913fe3debd33914163c6e1d666af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:15 +0000
Subject: [PATCH 160/170] fix: CMA-ES scales the compensation of a stalled path
 like the path itself

---
 eo/src/es/CMAState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index ec2ab4d..0614593 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -207,7 +207,7 @@ struct CMAStateImpl {
                                         +
                                 p.ccov * (1./p.mucov) * pc[i] * pc[j]
                                         +
-                                (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j];
+                                p.ccov * (1./p.mucov) * (1-hsig) * p.ccumcov * (2. - p.ccumcov) * c_row[j];
 
                     /*C[i][j] = (1 - p.ccov) * C[i][j]
                         + sp.ccov * (1./sp.mucov)
-- 
2.43.0


From 25b4020412a346109389f797b4a713ae130128e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:04 +0000
Subject: [PATCH 161/170] fix: an eigen decomposition stopped by its iteration
 limit was reported as successful

---
 eo/src/es/eig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eig.cpp b/eo/src/es/eig.cpp
index d7ddd41..0b8b3d0 100644
--- a/eo/src/es/eig.cpp
+++ b/eo/src/es/eig.cpp
@@ -168,7 +168,7 @@ QLalgo( int N, valarray<double>& diag, square_matrix& mq,
       }
       if (j != i)
       {
-        if (++iter > maxIter) return maxIter-1;
+        if (++iter > maxIter) return maxIter;
         diff = (diag[i+1]-diag[i])/neben[i]/2.0;
         if (diff >= 0)
           diff = diag[j] - diag[i] +
-- 
2.43.0


From 13172d8add70e99b850a6e416b3f0aa7a3031d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:49 +0000
Subject: [PATCH 162/170] fix: a saved virus individual can be read back

---
 eo/contrib/MGE/eoVirus.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/contrib/MGE/eoVirus.h b/eo/contrib/MGE/eoVirus.h
index 37b1daf..eaf3f4d 100644
--- a/eo/contrib/MGE/eoVirus.h
+++ b/eo/contrib/MGE/eoVirus.h
@@ -91,7 +91,7 @@ public:
         os << ' ';
         os << size() << ' ';
         std::copy(begin(), end(), std::ostream_iterator<bool>(os));
-        std::cout << std::endl;
+        os << ' ' << virus.size() << ' ';
         std::copy(virus.begin(), virus.end(), std::ostream_iterator<bool>(os));
     }
 
-- 
2.43.0


From 5f9a03a9d54fc50b3dc3627802db37414377285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:49 +0000
Subject: [PATCH 163/170] fix: virus shift mutation can move the virus to the
 first gene

---
 eo/contrib/MGE/VirusOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/contrib/MGE/VirusOp.h b/eo/contrib/MGE/VirusOp.h
index 54d7b4a..d97b0ba 100644
--- a/eo/contrib/MGE/VirusOp.h
+++ b/eo/contrib/MGE/VirusOp.h
@@ -110,7 +110,7 @@ public:
                         _chrom.virusBitSet(i, false);
                     }
                 } else {
-                    if ( i > 1 ) {
+                    if ( i > 0 ) {
                         _chrom.virusBitSet(i-1,true);
                         _chrom.virusBitSet(i, false);
                     }
-- 
2.43.0


From 174902c4faa4e4e7b676ef602c30be3b74494939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:14 +0000
Subject: [PATCH 164/170] fix: adding to, subtracting from or dividing a dual
 fitness gives a new one and leaves the operand alone

---
 eo/src/eoDualFitness.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 7fdf402..30267f0 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -288,8 +288,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator+( T that )
     {
-        this->_value += that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from += that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -302,8 +302,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator-( T that )
     {
-        this->_value -= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from -= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -317,8 +317,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator/( T that )
     {
-        this->_value /= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from /= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
-- 
2.43.0


From 43904bf2894d42dbe588f770c1b94d73c87dbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:14 +0000
Subject: [PATCH 165/170] fix: a dual objective vector read from a stream knows
 whether it is feasible

---
 moeo/src/core/moeoDualRealObjectiveVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 80c6040..e110aa1 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -135,6 +135,7 @@ std::istream & operator>>( std::istream & _is, moeoDualRealObjectiveVector<Objec
     for( unsigned int i=0; i<_objectiveVector.size(); i++ ) {
         _is >> _objectiveVector[i];
     }
+    _objectiveVector.is_feasible( _objectiveVector[0].is_feasible() );
     return _is;
 }
 
-- 
2.43.0


From 466d1a07e269e56d748eca6953a9066b3d3c7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:14 +0000
Subject: [PATCH 166/170] fix: the dual hypervolume continuator accepts a
 feasible target and does not stop on an unfeasible archive

---
 moeo/src/continue/moeoDualHypContinue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moeo/src/continue/moeoDualHypContinue.h b/moeo/src/continue/moeoDualHypContinue.h
index 99c33d4..f32f65a 100644
--- a/moeo/src/continue/moeoDualHypContinue.h
+++ b/moeo/src/continue/moeoDualHypContinue.h
@@ -94,7 +94,8 @@ public:
         // The current Pareto front is either feasible or unfeasible.
         // It could not contains both kind of objective vectors, because a feasible solution always dominates an unfeasible front.
         if( bestCurrentParetoSet[0].is_feasible() != OptimSet[0].is_feasible() ) {
-            return false;
+            // A feasible front is beyond an unfeasible target, an unfeasible one has not reached a feasible target.
+            return OptimSet[0].is_feasible();
         }
 
         return is_null_hypervolume( bestCurrentParetoSet );
@@ -114,6 +115,7 @@ protected:
                 // Use the feasibility declaration of an eoDualFitness
                 OptimSet[i][j] = AtomType(_OptimVec[k++], is_feasible);
             }
+            OptimSet[i].is_feasible( is_feasible );
         }
     }
 };
-- 
2.43.0


From 2dbfbcec0240628ecba90a3f62e5fabb9ad7ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:34 +0000
Subject: [PATCH 167/170] fix: a sequence of operators makes room for what each
 operator produces

---
 eo/src/eoOpContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoOpContainer.h b/eo/src/eoOpContainer.h
index 0636bd0..bfe3743 100644
--- a/eo/src/eoOpContainer.h
+++ b/eo/src/eoOpContainer.h
@@ -114,7 +114,7 @@ public:
 
                     //(*ops[i])(_pop);
 
-                    ops[i]->apply(_pop);
+                    (*ops[i])(_pop);
 
                     //            }
                     // check for out of individuals and do nothing with that...
-- 
2.43.0


From 456fb5991f15aff1db2b7ed0c5466622f58ea3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:53 +0000
Subject: [PATCH 168/170] fix: the combined binary operator can be used and
 reports changes

---
 eo/src/eoProportionalCombinedOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoProportionalCombinedOp.h b/eo/src/eoProportionalCombinedOp.h
index 0dce5b0..b1d00cc 100644
--- a/eo/src/eoProportionalCombinedOp.h
+++ b/eo/src/eoProportionalCombinedOp.h
@@ -149,7 +149,7 @@ virtual void add(eoBinOp<EOT> & _op, const double _rate, bool _verbose=false)
       }
   }
 
-  virtual void operator()(EOT & _indi1, const EOT & _indi2)
+  virtual bool operator()(EOT & _indi1, const EOT & _indi2)
   {
     unsigned what = rng.roulette_wheel(rates); // choose one op index
     return (*ops[what])(_indi1, _indi2);                   // apply it
-- 
2.43.0


From b2c17a64d494450e2aa450cec42652941c77c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:46 +0000
Subject: [PATCH 169/170] fix: an individual alone in its front keeps the worth
 of that front

---
 eo/src/eoNDSorting.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoNDSorting.h b/eo/src/eoNDSorting.h
index fee6d1c..0867910 100644
--- a/eo/src/eoNDSorting.h
+++ b/eo/src/eoNDSorting.h
@@ -480,8 +480,8 @@ class eoNDSorting_II : public eoNDSorting<EOT>
       double max_dist = *std::max_element(nc.begin(), nc.end());
 
       // set boundary at max_dist + 1 (so it will get chosen over all the others
-      nc[performance[0].second]     += max_dist + 1;
-      nc[performance.back().second] += max_dist + 1;
+      nc[performance[0].second]     = max_dist + 1;
+      nc[performance.back().second] = max_dist + 1;
 
       for (i = 0; i < nc.size(); ++i)
       {
-- 
2.43.0


From edebd556214dd50ade3306a676dc3557cbfd3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:35:03 +0000
Subject: [PATCH 170/170] fix: worths that are the fitness itself, and
 tournaments on worths, can be used

---
 eo/src/eoPerf2Worth.h      | 4 ++--
 eo/src/eoSelectFromWorth.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoPerf2Worth.h b/eo/src/eoPerf2Worth.h
index 02c065c..26f868d 100644
--- a/eo/src/eoPerf2Worth.h
+++ b/eo/src/eoPerf2Worth.h
@@ -247,14 +247,14 @@ class eoNoPerf2Worth : public eoPerf2Worth<EOT, typename EOT::Fitness>
 {
 public:
 
-    using eoValueParam< EOT >::value;
+    using eoPerf2Worth<EOT, typename EOT::Fitness>::value;
 
     // default behaviour, just copy fitnesses
     void operator()(const eoPop<EOT>& _pop) {
         unsigned i;
         value().resize(_pop.size());
         for (i = 0; i < _pop.size(); ++i)
-            value()[i]=_pop[i];
+            value()[i]=_pop[i].fitness();
     }
 };
 
diff --git a/eo/src/eoSelectFromWorth.h b/eo/src/eoSelectFromWorth.h
index bbd0380..fc1c9d9 100644
--- a/eo/src/eoSelectFromWorth.h
+++ b/eo/src/eoSelectFromWorth.h
@@ -114,7 +114,7 @@ public:
         unsigned index = it - perf2Worth.value().begin();
 #ifndef NDEBUG
         // check whether the stuff is still in sync
-        check_sync(index, pop[index]);
+        this->check_sync(index, pop[index]);
 #endif
         return pop[index];
     }
@@ -156,7 +156,7 @@ public:
 
 #ifndef NDEBUG
   // check whether the stuff is still in sync
-  check_sync(index, _pop[index]);
+  this->check_sync(index, _pop[index]);
 #endif
 
     return _pop[index];
-- 
2.43.0

