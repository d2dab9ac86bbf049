From b0b5d889312ae3d9ff37c0787993961204c5534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 01/58] fix: do not dereference end() for options that are no
 logging level

---
 src/utility/Logger.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 061282d..979fcfb 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -102,15 +102,15 @@ void SetLogger(const std::vector<std::string> &args)
                      [&el](auto pr) { return StringStartsWith(el, pr.first); });
     if (pos != LoggingPrefixes.end())
     {
-      Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
-    }
-    // Catch logginglevel::complete
-    if ((pos->second == LoggingLevel::Complete) and
-        (el.substr(pos->first.size()) == "true"))
-    {
-      for (const auto &[prefix, enumValue] : LoggingPrefixes)
-        Logger::SetLevel(enumValue, true);
-      Logger::SetLevel(LoggingLevel::MinimizerDetailed, false);
+      const bool enable = el.substr(pos->first.size()) == "true";
+      Logger::SetLevel(pos->second, enable);
+      // Catch logginglevel::complete
+      if (pos->second == LoggingLevel::Complete and enable)
+      {
+        for (const auto &[prefix, enumValue] : LoggingPrefixes)
+          Logger::SetLevel(enumValue, true);
+        Logger::SetLevel(LoggingLevel::MinimizerDetailed, false);
+      }
     }
   }
 }
-- 
2.43.0


From 575462dbcf6ff6a5abf8093f898ed578413bdbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 02/58] fix: explicitly given logging levels take precedence
 over logginglevel::complete

---
 src/utility/Logger.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 979fcfb..0f5c5b6 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -60,6 +60,20 @@ void SetLogger(const BSMPT::parser &argparser)
   {
   }
 
+  // logginglevel::complete is the backdrop for the explicitly given levels
+  try
+  {
+    if (argparser.get_value("logginglevel::complete") == "true")
+    {
+      for (const auto &[prefix_, enumValue_] : LoggingPrefixes)
+        Logger::SetLevel(enumValue_, true);
+      Logger::SetLevel(LoggingLevel::MinimizerDetailed, false);
+    }
+  }
+  catch (BSMPT::parserException &)
+  {
+  }
+
   for (const auto &[prefix, enumValue] : LoggingPrefixes)
   {
     auto beginning  = prefix.find_first_not_of("-");
@@ -70,13 +84,6 @@ void SetLogger(const BSMPT::parser &argparser)
     {
       auto value = argparser.get_value(key);
       Logger::SetLevel(enumValue, value == "true");
-      // Catch logginglevel::complete
-      if ((key == "logginglevel::complete") and (value == "true"))
-      {
-        for (const auto &[prefix_, enumValue_] : LoggingPrefixes)
-          Logger::SetLevel(enumValue_, true);
-        Logger::SetLevel(LoggingLevel::MinimizerDetailed, false);
-      }
     }
     catch (BSMPT::parserException &)
     {
-- 
2.43.0


From a381b75a080d8a04f014a019096119906ae159f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 03/58] fix: recognise the json option case insensitively

---
 src/utility/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/parser.cpp b/src/utility/parser.cpp
index 2f838bb..b07b1c0 100644
--- a/src/utility/parser.cpp
+++ b/src/utility/parser.cpp
@@ -197,7 +197,8 @@ void parser::add_input(const std::vector<std::string> &input)
   if (input.size() == 1)
   {
     std::string arg{input.at(0)};
-    auto [argument, value] = get_key_value(arg);
+    auto [key, value] = get_key_value(arg);
+    auto argument     = to_lower(key);
     if (argument == "help")
     {
       print_help();
-- 
2.43.0


From be41c807206be152c8737c9c00c87d07947d4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 04/58] fix: the first minimum added to a phase sets its
 temperature range

---
 src/minimum_tracer/minimum_tracer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..f57239f 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1730,6 +1730,8 @@ void Phase::Add(Minimum min)
   if (MinimumPhaseVector.size() == 0)
   {
     MinimumPhaseVector = {min};
+    T_low              = min.temp;
+    T_high             = min.temp;
     return;
   }
   // Temperature is the lowest yet.
-- 
2.43.0


From a47aa93b451bf30bae5c4d34d3f0af77504fb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 05/58] fix: overlap check of a phase nested inside another one
 used an empty phase

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index f57239f..831844b 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1878,7 +1878,7 @@ bool Vacuum::DoGlobMinOverlap(const Phase &new_phase, const Phase &old_phase)
         phase_high = new_phase;
         phase_low  = old_phase;
       }
-      else if (new_phase.T_low <= old_phase.T_low)
+      else
       {
         phase_high = old_phase;
         phase_low  = new_phase;
-- 
2.43.0


From bc0f9becde2824431eab1acc18c8af10cb210281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 06/58] fix: critical temperature of phases that share a single
 temperature

The plot of the depth difference never advanced (and could not be drawn) for a
temperature range of zero length.
---
 src/minimum_tracer/minimum_tracer.cpp | 47 +++++++++++++++------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 831844b..8b6f77e 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1299,27 +1299,32 @@ void CoexPhases::CalculateTc()
   auto deltaV = [&](double T)
   { return true_phase.Get(T).potential - false_phase.Get(T).potential; };
 
-  /// Ploting deltaV
-  std::stringstream ss;
-  AsciiPlotter plotter("dV(T) = V(True Vacuum) - V(False Vacuum) | Phase " +
-                           std::to_string(false_phase.id) + " -> Phase " +
-                           std::to_string(true_phase.id),
-                       100,
-                       35);
-  std::vector<double> plotT, plotDeltaV, plot0;
-  for (double T = T_low; T <= T_high; T += (T_high - T_low) / 100)
-  {
-    plotT.push_back(T);
-    plotDeltaV.push_back(deltaV(T));
-    plot0.push_back(0);
-  }
-  plotter.addPlot(plotT, plot0, "", '.');
-  plotter.addPlot(plotT, plotDeltaV, "dV", '*');
-
-  plotter.xlabel("T (GeV)");
-  plotter.ylabel("dV (GeV)");
-  plotter.show(ss);
-  Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
+  /// Ploting deltaV (needs a temperature range of finite length)
+  if (T_low < T_high)
+  {
+    std::stringstream ss;
+    AsciiPlotter plotter("dV(T) = V(True Vacuum) - V(False Vacuum) | Phase " +
+                             std::to_string(false_phase.id) + " -> Phase " +
+                             std::to_string(true_phase.id),
+                         100,
+                         35);
+    std::vector<double> plotT, plotDeltaV, plot0;
+    const int plot_steps = 100;
+    for (int i = 0; i <= plot_steps; i++)
+    {
+      const double T = T_low + i * (T_high - T_low) / plot_steps;
+      plotT.push_back(T);
+      plotDeltaV.push_back(deltaV(T));
+      plot0.push_back(0);
+    }
+    plotter.addPlot(plotT, plot0, "", '.');
+    plotter.addPlot(plotT, plotDeltaV, "dV", '*');
+
+    plotter.xlabel("T (GeV)");
+    plotter.ylabel("dV (GeV)");
+    plotter.show(ss);
+    Logger::Write(LoggingLevel::MinTracerDetailed, ss.str());
+  }
 
   if (deltaV(T_high) > 0 and deltaV(T_low) > 0)
   {
-- 
2.43.0


From 7f36452328e2d6e61738f3f300185465dce3bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 07/58] fix: threads take GSL starting points only from a
 non-empty queue

---
 src/minimizer/MinimizeGSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..5cc05f5 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From a1a9faaebab7d35887e0c192e96db0010f428378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 08/58] fix: remove every electroweak component of a vacuum,
 not only those before the first singlet

---
 src/models/ClassPotentialOrigin.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..4571a9d 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3515,18 +3515,17 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
-  for (std::size_t i = 0; i < NHiggs; i++)
+  for (std::size_t count = 0; count < nVEV; count++)
   {
+    const auto i      = VevOrder[count];
     double checkgauge = 0;
     for (std::size_t j = 0; j < NGauge; j++)
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10) // true for doublet vevs
     {
       sol.at(count) = 0;
-      count += 1;
     }
   }
 }
-- 
2.43.0


From 53d3fa127ea0c67fcfeca99b2ac1233be21b7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 09/58] fix: do not read past the end of the list of vacuum
 directions

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 4571a9d..ec57b4b 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3970,7 +3970,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 9af6078e99aa67f45522237c222ea015c0232c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:31 +0000
Subject: [PATCH 10/58] fix: search box of NLopt contains negative tree-level
 vacua beyond 300 GeV

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 8e8f767..1ffbc31 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -42,7 +42,7 @@ NLOPTReturnType MinimizeUsingNLOPT(const Class_Potential_Origin &model,
   {
     if (std::abs(model.get_vevTreeMin(i)) > UpperBound.at(i))
     {
-      UpperBound.at(i) = 1.5 * model.get_vevTreeMin(i);
+      UpperBound.at(i) = 1.5 * std::abs(model.get_vevTreeMin(i));
     }
     if (-std::abs(model.get_vevTreeMin(i)) < LowerBound.at(i))
     {
@@ -99,7 +99,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
     {
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) > UpperBound.at(i))
       {
-        UpperBound.at(i) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) < LowerBound.at(i))
       {
@@ -112,7 +113,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) >
           UpperBound.at(i - 1))
       {
-        UpperBound.at(i - 1) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i - 1) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) <
           LowerBound.at(i - 1))
-- 
2.43.0


From 0eba43d79df4fdc46bfd78deb19125f79b6f56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:09 +0000
Subject: [PATCH 11/58] fix: critical-temperature search reports the vacuum at
 the lower end if no probe is broken

---
 src/minimizer/Minimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 09989da..98617bc 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -343,6 +343,10 @@ PTFinder_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
     return result;
   }
 
+  pSol[0] = vStart;
+  for (std::size_t k = 0; k < dim; k++)
+    pSol[k + 1] = solStart.at(k);
+
   for (std::size_t k = 0; k < dim; k++)
     startMitte.push_back(modelPointer->get_vevTreeMin(k));
   do
-- 
2.43.0


From aa4dff20148272c4c7e9f4206aceb3dd607f9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 12/58] fix: a one-loop vacuum that is not a number is not the
 tree-level vacuum

---
 src/models/ClassPotentialOrigin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index ec57b4b..42f0226 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3486,6 +3486,7 @@ bool Class_Potential_Origin::CheckNLOVEV(const std::vector<double> &v) const
   for (std::size_t i = 0; i < nVEV; i++)
   {
     double tmp = std::abs(std::abs(v[i]) - std::abs(vevTreeMin[i]));
+    if (std::isnan(tmp)) return false;
     if (tmp > MaxDiff) MaxDiff = tmp;
   }
 
-- 
2.43.0


From 34ec8123d5b489df3cabb785ce8155c0bca08509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 13/58] fix: reduce a vacuum by applying every symmetry to the
 same point

---
 src/minimum_tracer/minimum_tracer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 8b6f77e..80fa52a 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -704,13 +704,15 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
   int MaximumMeasure = -1;
   char *ptr;
   std::string BinaryNumber;
+  // All group elements act on the same point
+  const std::vector<double> original = vev;
   for (auto GroupElement : GroupElements)
   {
     // Clean buffer
     BinaryNumber.clear();
     // Feed buffer
     for (size_t i = 0; i < vev.size(); i++)
-      BinaryNumber.append(std::to_string(vev[i] * GroupElement(i, i) >=
+      BinaryNumber.append(std::to_string(original[i] * GroupElement(i, i) >=
                                          1e-5)); // Heaviside function
 
     // Converto to decimal and compare
@@ -718,7 +720,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
     {
       MaximumMeasure = std::strtol(BinaryNumber.c_str(), &ptr, 2);
       for (size_t i = 0; i < vev.size(); i++)
-        vev[i] *= GroupElement(i, i); // Transform vev
+        vev[i] = original[i] * GroupElement(i, i); // Transform vev
     }
 
     // Reached maximum measure
-- 
2.43.0


From 444100291edd54c7fd12bf475c555faa26f4644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 14/58] fix: an exchange symmetry of two vacuum directions is
 not a flat direction

---
 src/minimum_tracer/minimum_tracer.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 80fa52a..901234e 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -836,10 +836,21 @@ void MinimumTracer::FindFlatDirections()
                     this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
                 if (almost_the_same(res_1, res_2, 1e-8))
                 {
-                  NonFlatDirections.at(j) = 0; // choose one point in sphere
-                  NonFlatDirections.at(k) = 0; // choose one point in sphere
-                  flat_dirs_found         = true;
-                  flat_3D_dirs.push_back(std::vector<std::size_t>({i, j, k}));
+                  // an exchange symmetry is not a rotation, compare with a
+                  // point of the sphere that is no permutation
+                  point.at(i) = 60;
+                  point.at(j) = 80;
+                  point.at(k) = std::sqrt(2. * 2. + 100. * 100. + 200. * 200. -
+                                          60. * 60. - 80. * 80.);
+                  res_1       = this->modelPointer->VEff(
+                      this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
+                  if (almost_the_same(res_1, res_2, 1e-8))
+                  {
+                    NonFlatDirections.at(j) = 0; // choose one point in sphere
+                    NonFlatDirections.at(k) = 0; // choose one point in sphere
+                    flat_dirs_found         = true;
+                    flat_3D_dirs.push_back(std::vector<std::size_t>({i, j, k}));
+                  }
                 }
               }
             }
@@ -864,8 +875,8 @@ void MinimumTracer::FindFlatDirections()
       point.at(j) = 100;
       res_1       = this->modelPointer->VEff(
           this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
-      point.at(i) = 100;
-      point.at(j) = 2;
+      point.at(i) = 60;
+      point.at(j) = std::sqrt(2. * 2. + 100. * 100. - 60. * 60.);
       res_2       = this->modelPointer->VEff(
           this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
       point.at(i) = 1;
-- 
2.43.0


From d2d8d09979b2b6b61361ee2e44b0fe30ea58ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 15/58] fix: set_All discards the tensors and couplings of an
 earlier parameter point

---
 src/models/ClassPotentialOrigin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 42f0226..321befb 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -51,11 +51,15 @@ void Class_Potential_Origin::set_All(const std::vector<double> &par,
                                      const std::vector<double> &parCT)
 {
 
+  resetbools();
   set_gen(par);
   if (!SetCurvatureDone) SetCurvatureArrays();
   set_CT_Pot_Par(parCT);
   CalculateDebye();
   CalculateDebyeGauge();
+
+  parStored   = par;
+  parCTStored = parCT;
 }
 
 void Class_Potential_Origin::Prepare_Triple()
-- 
2.43.0


From 3144134977e811e48ef7859bc40a415514224e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 16/58] fix: recalculate the C2HDM triple Higgs couplings after
 a change of the scale

---
 include/BSMPT/models/ClassPotentialOrigin.h | 6 +++++-
 src/models/ClassPotentialOrigin.cpp         | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/BSMPT/models/ClassPotentialOrigin.h b/include/BSMPT/models/ClassPotentialOrigin.h
index 4c791f3..d5497ba 100644
--- a/include/BSMPT/models/ClassPotentialOrigin.h
+++ b/include/BSMPT/models/ClassPotentialOrigin.h
@@ -473,7 +473,11 @@ public:
    * @brief set_scale sets the MSBar renormalisation scale to scale_new
    * @param scale_new
    */
-  void set_scale(double scale_new) { scale = scale_new; }
+  void set_scale(double scale_new)
+  {
+    scale                     = scale_new;
+    CalculatedTripleCopulings = false;
+  }
   /**
    * @brief get_nPar
    * @return nPar
diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 321befb..91f9104 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3790,7 +3790,7 @@ Class_Potential_Origin::initModel(const std::vector<double> &par)
 
 std::vector<double> Class_Potential_Origin::resetScale(const double &newScale)
 {
-  scale      = newScale;
+  set_scale(newScale);
   auto parCT = calc_CT();
   set_CT_Pot_Par(parCT);
 
-- 
2.43.0


From b59ebf889f78abd5c8fde10e869df43ef1285cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 17/58] fix: VEff of a shortened list of vacuum directions
 keeps the requested order

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 91f9104..36fe709 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2977,7 +2977,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From 4c70133fe86b90a57b823ed1c90f09d296d3575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 18/58] fix: derivatives of the Higgs masses are taken at the
 masses, not at their derivative

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 36fe709..841f8ba 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2428,7 +2428,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp, diff);
+  auto MassMatrix = HiggsMassMatrix(v, Temp);
 
   double ZeroMass = std::pow(10, -5);
 
-- 
2.43.0


From 089f958307adb3e18e487d16696e6a32bd7d9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 19/58] fix: one-loop derivatives in the second and further
 field directions contain the thermal part

---
 src/models/ClassPotentialOrigin.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 841f8ba..fe2f142 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3072,27 +3072,27 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesVec.at(k + NHiggs) *
-               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += GaugeMassesVec.at(k + NGauge) *
-               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 2 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         res += -6 * QuarkMassesVec.at(k + NQuarks) *
-               fermion(QuarkMassesVec[k], Temp, diff);
+               fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
     }
     else
@@ -3101,25 +3101,25 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesZeroTempVec.at(k + NHiggs) *
-               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 3 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, diff);
+               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, 1);
       }
       double AddContQuark = 0;
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         AddContQuark += -2 * QuarkMassesVec.at(k + NQuarks) *
-                        fermion(QuarkMassesVec[k], Temp, diff);
+                        fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NColour; k++)
         res += AddContQuark;
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
 
       double VDebye = 0;
-- 
2.43.0


From 239ac1f26c966cd666778f15bdcfa8e9d2e94147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 20/58] fix: sign of the derivative of the Coleman-Weinberg
 potential for negative squared masses

---
 src/models/ClassPotentialOrigin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index fe2f142..afe783f 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -119,7 +119,7 @@ double Class_Potential_Origin::boson(double MassSquared,
                                      int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), cb, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (diff == 0)
@@ -147,7 +147,7 @@ double
 Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), C_CWcbFermion, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, C_CWcbFermion, diff);
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (Temp == 0) return res;
   if (diff == 0)
-- 
2.43.0


From b9e80a07664625d7751af127731176aa85792498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 21/58] fix: temperature derivative of the potential contains
 the derivative of the thermal masses

---
 src/models/ClassPotentialOrigin.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index afe783f..9dd3d03 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3205,13 +3205,19 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       double VDebye = 0;
       for (std::size_t k = 0; k < NHiggs; k++)
       {
-        if (HiggsMassesVec[k] > 0) VDebye += std::pow(HiggsMassesVec[k], 1.5);
+        if (HiggsMassesVec[k] > 0)
+          VDebye += std::pow(HiggsMassesVec[k], 1.5) +
+                    Temp * 1.5 * HiggsMassesVec.at(k + NHiggs) *
+                        std::pow(HiggsMassesVec[k], 0.5);
         if (HiggsMassesZeroTempVec[k] > 0)
           VDebye += -std::pow(HiggsMassesZeroTempVec[k], 1.5);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
-        if (GaugeMassesVec[k] > 0) VDebye += std::pow(GaugeMassesVec[k], 1.5);
+        if (GaugeMassesVec[k] > 0)
+          VDebye += std::pow(GaugeMassesVec[k], 1.5) +
+                    Temp * 1.5 * GaugeMassesVec.at(k + NGauge) *
+                        std::pow(GaugeMassesVec[k], 0.5);
         if (GaugeMassesZeroTempVec[k] > 0)
           VDebye += -std::pow(GaugeMassesZeroTempVec[k], 1.5);
       }
-- 
2.43.0


From 9bbd7978c693fc51cfb99438355576eb786d913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 22/58] fix: exponents in the derivative of the thermal
 functions at high mass

---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0


From e218ca01e4ad756b68462731fd53ffb7acaa0a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 23/58] fix: derivatives of the thermal potential are those of
 the interpolated functions

---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 9dd3d03..246961c 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -130,15 +130,15 @@ double Class_Potential_Origin::boson(double MassSquared,
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JbosonInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 0) -
+                ThermalFunctions::JbosonInterpolated(Ratio) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 1));
+                ThermalFunctions::JbosonInterpolated(Ratio, 1));
   }
   return res;
 }
@@ -158,15 +158,15 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JfermionInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio) -
+                ThermalFunctions::JfermionInterpolated(Ratio) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio, 1));
+                ThermalFunctions::JfermionInterpolated(Ratio, 1));
   }
   return res;
 }
-- 
2.43.0


From 049aabbe440d816c0424c4b81f8c610dd910c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 24/58] fix: fbaseFour of three different masses and a
 vanishing one returned zero

---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 246961c..dcc72eb 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -567,7 +567,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   }
 
   // 2) two of the three non-zero masses are equal
-  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
+  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0 and
+           (mbs == mcs or mbs == mds or mcs == mds))
   {
     if (mbs == mcs and mds != mbs)
     {
@@ -591,7 +592,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mbs - mcs) * (mbs - mcs));
     }
   }
-  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0)
+  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0 and
+           (mas == mcs or mas == mds or mcs == mds))
   {
     if (mas == mcs and mds != mas)
     {
@@ -615,7 +617,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mcs - mas) * (mcs - mas));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0)
+  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0 and
+           (mas == mbs or mas == mds or mbs == mds))
   {
     if (mas == mbs and mds != mas)
     {
@@ -639,7 +642,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mbs * (mas - mbs) * (mas - mbs));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0)
+  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0 and
+           (mas == mbs or mas == mcs or mbs == mcs))
   {
     if (mas == mbs and mcs != mas)
     {
-- 
2.43.0


From 2b7613e55c3f9186d3565ad540bf98e12e2e31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:28 +0000
Subject: [PATCH 25/58] fix: loop functions lost all accuracy for nearly equal
 masses

---
 src/models/ClassPotentialOrigin.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index dcc72eb..333b9c1 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -299,12 +299,16 @@ double Class_Potential_Origin::fbaseTri(double MassSquaredA,
   double mcs  = MassSquaredC;
   double LogA = 0, LogB = 0, LogC = 0;
   double Thres = 1e-8;
+  // masses that are closer than this (relative to their size) count as equal,
+  // as the differences below would lose all accuracy
+  auto equal = [](double a, double b)
+  { return std::abs(a - b) <= 1e-5 * std::max(std::abs(a), std::abs(b)); };
   if (std::abs(mas) < Thres) mas = 0;
   if (std::abs(mbs) < Thres) mbs = 0;
   if (std::abs(mcs) < Thres) mcs = 0;
-  if (std::abs(mas - mbs) < Thres) mas = mbs;
-  if (std::abs(mas - mcs) < Thres) mas = mcs;
-  if (std::abs(mbs - mcs) < Thres) mbs = mcs;
+  if (equal(mas, mbs)) mas = mbs;
+  if (equal(mas, mcs)) mas = mcs;
+  if (equal(mbs, mcs)) mbs = mcs;
 
   if (mas != 0) LogA = std::log(mas) - 2 * std::log(scale);
   if (mbs != 0) LogB = std::log(mbs) - 2 * std::log(scale);
@@ -403,17 +407,20 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   double mds  = MassSquaredD;
   double LogA = 0, LogB = 0, LogC = 0, LogD = 0;
   double thresZero = 1e-6;
-  double thresDeg  = 1e-6;
+  // masses that are closer than this (relative to their size) count as equal,
+  // as the differences below would lose all accuracy
+  auto equal = [](double a, double b)
+  { return std::abs(a - b) <= 3e-4 * std::max(std::abs(a), std::abs(b)); };
   if (std::abs(mas) < thresZero) mas = 0;
   if (std::abs(mbs) < thresZero) mbs = 0;
   if (std::abs(mcs) < thresZero) mcs = 0;
   if (std::abs(mds) < thresZero) mds = 0;
-  if (std::abs(mas - mbs) < thresDeg) mbs = mas;
-  if (std::abs(mas - mcs) < thresDeg) mcs = mas;
-  if (std::abs(mas - mds) < thresDeg) mds = mas;
-  if (std::abs(mbs - mcs) < thresDeg) mcs = mbs;
-  if (std::abs(mbs - mds) < thresDeg) mds = mbs;
-  if (std::abs(mcs - mds) < thresDeg) mds = mcs;
+  if (equal(mas, mbs)) mbs = mas;
+  if (equal(mas, mcs)) mcs = mas;
+  if (equal(mas, mds)) mds = mas;
+  if (equal(mbs, mcs)) mcs = mbs;
+  if (equal(mbs, mds)) mds = mbs;
+  if (equal(mcs, mds)) mds = mcs;
 
   if (mas != 0) LogA = std::log(mas) - 2 * std::log(scale);
   if (mbs != 0) LogB = std::log(mbs) - 2 * std::log(scale);
@@ -870,7 +877,7 @@ double Class_Potential_Origin::fbase(double MassSquaredA,
   double res  = 0;
   double LogA = 0;
   if (MassSquaredA == 0 and MassSquaredB == 0) return 1;
-  double ZB = std::pow(10, -5);
+  double ZB = 1e-7 * std::max(std::abs(MassSquaredA), std::abs(MassSquaredB));
   if (MassSquaredA != 0) LogA = std::log(MassSquaredA) - 2 * std::log(scale);
   if (std::abs(MassSquaredA - MassSquaredB) > ZB)
   {
-- 
2.43.0


From 1326c60c70860c5391f7710025b9ac5093d9c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 26/58] fix: VEVEVO reaches the last temperature of the scan
 despite rounding

---
 src/prog/VEVEVO.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 2903286..650e4a4 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -115,11 +115,16 @@ try
   outfile << "T" << sep << "v" << sep << modelPointer->addLegendVEV() << sep
           << "Veff(v,T)" << std::endl;
 
-  for (double Temp = args.TemperatureStart; Temp <= args.TemperatureEnd;
-       Temp += args.TemperatureStep)
+  // number of steps, robust against the rounding of the division
+  const auto NumberOfSteps = static_cast<std::size_t>(std::floor(
+      (args.TemperatureEnd - args.TemperatureStart) / args.TemperatureStep +
+      1e-6));
+
+  for (std::size_t step = 0; step <= NumberOfSteps; ++step)
   {
+    const double Temp = args.TemperatureStart + step * args.TemperatureStep;
     start.clear();
-    if (Temp == args.TemperatureStart)
+    if (step == 0)
     {
       start = modelPointer->get_vevTreeMin();
     }
-- 
2.43.0


From d6d173d92e12cc2f811f771bd075e622c79942d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 27/58] fix: MinimaDevelopmentWithTemperature stops at the
 final temperature

---
 src/minimizer/Minimizer.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 98617bc..80cb1e5 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -534,25 +534,14 @@ MinimaDevelopmentWithTemperature(
     }
   }
 
-  auto StoppingCriteria = [&](const double &Temp)
-  {
-    double epsilon = std::abs((FinalTemperature - StartingTemperature) /
-                              StepsizeTemperature) *
-                     1e-2; // because 1+1 = 2.0000000000000001
-    if (StartingTemperature < FinalTemperature)
-    {
-      return Temp < FinalTemperature + epsilon;
-    }
-    else
-    {
-      return Temp > FinalTemperature - epsilon;
-    }
-  };
+  // number of steps towards the final temperature, robust against the rounding
+  // of the division
+  const double NumberOfSteps =
+      (FinalTemperature - StartingTemperature) / StepsizeTemperature + 1e-6;
 
-  for (double Temp = StartingTemperature + StepsizeTemperature;
-       StoppingCriteria(Temp);
-       Temp += StepsizeTemperature)
+  for (std::size_t step = 1; step <= NumberOfSteps; ++step)
   {
+    const double Temp = StartingTemperature + step * StepsizeTemperature;
     auto resOld = std::move(res);
     res.clear();
     for (const auto &Point : resOld)
-- 
2.43.0


From 017c5d59067c132cbe27e93d96b39a994816ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 28/58] fix: PotPlotter accepts non-integer field values and -1
 as boundaries of the grid

---
 src/prog/PotPlotter.cpp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec4d8da..472f24a 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -38,8 +38,8 @@ struct CLIOptions
   double Temperature{-1};
   int npoints{100}, npoints1{0}, npoints2{0}, npoints3{0}, npoints4{0},
       npoints5{0}, npoints6{0};
-  double low1{-1}, low2{-1}, low3{-1}, low4{-1}, low5{-1}, low6{-1}, high1{-1},
-      high2{-1}, high3{-1}, high4{-1}, high5{-1}, high6{-1};
+  double low1{NAN}, low2{NAN}, low3{NAN}, low4{NAN}, low5{NAN}, low6{NAN},
+      high1{NAN}, high2{NAN}, high3{NAN}, high4{NAN}, high5{NAN}, high6{NAN};
   bool use_slice_plotter = false;
   std::vector<double> min_start, min_end;
   std::vector<double> point;
@@ -409,12 +409,13 @@ bool CLIOptions::good() const
                   "Invalid field value boundaries requested.");
     return false;
   }
-  if ((npoints1 > 0 and (low1 == -1 or high1 == -1)) or
-      (npoints2 > 0 and (low2 == -1 or high2 == -1)) or
-      (npoints3 > 0 and (low3 == -1 or high3 == -1)) or
-      (npoints4 > 0 and (low4 == -1 or high4 == -1)) or
-      (npoints5 > 0 and (low5 == -1 or high5 == -1)) or
-      (npoints6 > 0 and (low6 == -1 or high6 == -1)))
+  // the field values are NAN as long as they are not defined
+  if ((npoints1 > 0 and (std::isnan(low1) or std::isnan(high1))) or
+      (npoints2 > 0 and (std::isnan(low2) or std::isnan(high2))) or
+      (npoints3 > 0 and (std::isnan(low3) or std::isnan(high3))) or
+      (npoints4 > 0 and (std::isnan(low4) or std::isnan(high4))) or
+      (npoints5 > 0 and (std::isnan(low5) or std::isnan(high5))) or
+      (npoints6 > 0 and (std::isnan(low6) or std::isnan(high6))))
   {
     Logger::Write(LoggingLevel::Default,
                   "Grid size in VEV direction non-zero, but no low/high field "
@@ -502,7 +503,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
 
   try
   {
-    low1 = argparser.get_value<int>("low1");
+    low1 = argparser.get_value<double>("low1");
   }
   catch (BSMPT::parserException &)
   {
@@ -510,7 +511,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low2 = argparser.get_value<int>("low2");
+    low2 = argparser.get_value<double>("low2");
   }
   catch (BSMPT::parserException &)
   {
@@ -518,7 +519,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low3 = argparser.get_value<int>("low3");
+    low3 = argparser.get_value<double>("low3");
   }
   catch (BSMPT::parserException &)
   {
@@ -526,7 +527,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low4 = argparser.get_value<int>("low4");
+    low4 = argparser.get_value<double>("low4");
   }
   catch (BSMPT::parserException &)
   {
@@ -534,7 +535,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low5 = argparser.get_value<int>("low5");
+    low5 = argparser.get_value<double>("low5");
   }
   catch (BSMPT::parserException &)
   {
@@ -542,7 +543,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    low6 = argparser.get_value<int>("low6");
+    low6 = argparser.get_value<double>("low6");
   }
   catch (BSMPT::parserException &)
   {
@@ -551,7 +552,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
 
   try
   {
-    high1 = argparser.get_value<int>("high1");
+    high1 = argparser.get_value<double>("high1");
   }
   catch (BSMPT::parserException &)
   {
@@ -559,7 +560,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high2 = argparser.get_value<int>("high2");
+    high2 = argparser.get_value<double>("high2");
   }
   catch (BSMPT::parserException &)
   {
@@ -567,7 +568,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high3 = argparser.get_value<int>("high3");
+    high3 = argparser.get_value<double>("high3");
   }
   catch (BSMPT::parserException &)
   {
@@ -575,7 +576,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high4 = argparser.get_value<int>("high4");
+    high4 = argparser.get_value<double>("high4");
   }
   catch (BSMPT::parserException &)
   {
@@ -583,7 +584,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high5 = argparser.get_value<int>("high5");
+    high5 = argparser.get_value<double>("high5");
   }
   catch (BSMPT::parserException &)
   {
@@ -591,7 +592,7 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
   }
   try
   {
-    high6 = argparser.get_value<int>("high6");
+    high6 = argparser.get_value<double>("high6");
   }
   catch (BSMPT::parserException &)
   {
-- 
2.43.0


From 8db4bb849ff033aac04d969a054d8d103822f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 29/58] fix: do not take the end of the input file for one more
 parameter point

---
 src/prog/NLOVEV.cpp     | 4 +---
 src/prog/PotPlotter.cpp | 4 +---
 src/prog/VEVEVO.cpp     | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 8cd51f7..ce88880 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -80,10 +80,8 @@ try
   std::shared_ptr<BSMPT::Class_Potential_Origin> modelPointer =
       ModelID::FChoose(args.Model, SMConstants);
   std::vector<double> Check;
-  while (true)
+  while (getline(infile, linestr))
   {
-
-    getline(infile, linestr);
     if (linecounter > args.LastLine) break;
     if (linecounter == 1)
     {
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index 472f24a..d0e3df4 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -89,10 +89,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 650e4a4..00c9e56 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -81,10 +81,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
-- 
2.43.0


From 588625a4d9825339e8fc4a611e2c813575748327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 30/58] fix: use the requested false vacuum fractions at
 percolation and completion

---
 include/BSMPT/bounce_solution/bounce_solution.h | 6 ++++++
 src/bounce_solution/bounce_solution.cpp         | 3 ++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..2020795 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -76,6 +76,12 @@ public:
    */
   bool percolation_temp_set = false;
 
+  /**
+   * @brief percolation_false_vac_frac false vacuum fraction at the percolation
+   * temperature
+   */
+  double percolation_false_vac_frac = 0.71;
+
   /**
    * @brief set to true if completion temperature is set
    */
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..9b90511 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -798,6 +798,7 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
 
 void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
+  percolation_false_vac_frac = false_vac_frac;
   if (status_bounce_sol == StatusGW::Success)
   {
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
@@ -954,7 +955,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(percolation_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..733591e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -204,7 +204,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -227,7 +227,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From a2c4477da159662c228fa2bbcd4251992a0162d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 31/58] fix: use the requested wall velocity for the
 characteristic temperatures

---
 src/bounce_solution/bounce_solution.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 9b90511..0b60dbf 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -36,6 +36,7 @@ BounceSolution::BounceSolution(
   Tm         = phase_pair.T_low;
 
   UserDefined_vwall               = UserDefined_vwall_in;
+  if (UserDefined_vwall >= 0) vwall = UserDefined_vwall;
   epsturb                         = UserDefined_epsturb_in;
   MaxPathIntegrations             = MaxPathIntegrations_in;
   NumberOfInitialScanTemperatures = NumberOfInitialScanTemperatures_in;
-- 
2.43.0


From 2b41fd5e036b9bb7f25fba7d313d4cd9c04be874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 32/58] fix: report a temperature lost on recalculation as not
 met

---
 src/bounce_solution/bounce_solution.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 0b60dbf..9d38a5e 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -815,10 +815,14 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
       }
       percolation_temp_set = true;
       SetBounceSol();
-      Tperc       = CalcTempAtFalseVacFraction(false_vac_frac);
+      Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
+    }
+
+    if (Tperc > 0)
+    {
       status_perc = BSMPT::StatusTemperature::Success;
     }
-    else if (Tperc < 0)
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the percolation temperature failed.");
@@ -844,9 +848,13 @@ void BounceSolution::CalculateCompletionTemp(const double &false_vac_frac)
       }
       completion_temp_set = true;
       Tcompl              = CalcTempAtFalseVacFraction(false_vac_frac);
-      status_compl        = BSMPT::StatusTemperature::Success;
     }
-    else if (Tcompl < 0)
+
+    if (Tcompl > 0)
+    {
+      status_compl = BSMPT::StatusTemperature::Success;
+    }
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the completion temperature failed.");
-- 
2.43.0


From 70e0379fea4d7bf634287f5f111511268b5f4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:44 +0000
Subject: [PATCH 33/58] fix: do not abort the run for a transition without
 percolation temperature

---
 src/transition_tracer/transition_tracer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 733591e..e6405b9 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -271,7 +271,10 @@ TransitionTracer::TransitionTracer(user_input &input)
                 trans_status = bounce.status_compl;
               }
 
+              // the strength and the duration of the transition are evaluated at
+              // the percolation temperature
               if (trans_status == BSMPT::StatusTemperature::Success &&
+                  bounce.status_perc == BSMPT::StatusTemperature::Success &&
                   input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
@@ -319,12 +322,11 @@ TransitionTracer::TransitionTracer(user_input &input)
                   new_gw_data.status_gw = gw.data.status;
                 }
               }
-              else if (input.gw_calculation &&
-                       trans_status != BSMPT::StatusTemperature::Success)
+              else if (input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
-                              "Requested transition temperature could not be "
-                              "calculated.");
+                              "Requested transition temperature or percolation "
+                              "temperature could not be calculated.");
               }
             }
             else
-- 
2.43.0


From 825b1f07e49dfc83f78e3dd8d10ab40d151fedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 34/58] fix: do not take the legend for a parameter point

---
 src/prog/CalcGW.cpp       | 3 ++-
 src/prog/CalcTemps.cpp    | 3 ++-
 src/prog/MinimaTracer.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index df90892..1d5533e 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -103,7 +103,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index c8c3efa..e396c77 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -100,7 +100,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 3214037..989c470 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -91,7 +91,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       Logger::Write(LoggingLevel::ProgDetailed,
                     "Currently at line " + std::to_string(linecounter));
-- 
2.43.0


From 07b51894fb17323e5f4f7ae404aa0f5a63de098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 35/58] fix: refuse unknown and accept all documented choices
 of enumerated options in CalcTemps, CalcGW and MinimaTracer

---
 src/prog/CalcGW.cpp       | 21 ++++++++++++++++++++-
 src/prog/CalcTemps.cpp    | 10 +++++++++-
 src/prog/MinimaTracer.cpp |  4 ++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index 1d5533e..62350d7 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -322,12 +322,18 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "firstline or lastline not set.");
     return false;
   }
+  if (firstline < 0 or lastline < 0)
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Invalid input for first- or lastline.");
+    return false;
+  }
   if (firstline > lastline)
   {
     Logger::Write(LoggingLevel::Default, "firstline is smaller then lastline.");
     return false;
   }
-  if (templow > temphigh)
+  if (templow >= temphigh)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
@@ -385,6 +391,7 @@ bool CLIOptions::good() const
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid transition temperature given.");
+    return false;
   }
 
   return true;
@@ -529,6 +536,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       WhichTransitionTemperature = 4;
     }
+    else
+    {
+      WhichTransitionTemperature = 0; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -557,6 +568,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      CheckNLOStability = -1; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -583,6 +598,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index e396c77..8b80b62 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -335,7 +335,7 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "Invalid choice for num_check_pts.");
     return false;
   }
-  if (CheckEWSymmetryRestoration > 2 or CheckEWSymmetryRestoration < 0)
+  if (CheckEWSymmetryRestoration > 3 or CheckEWSymmetryRestoration < 0)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid choice for CheckEWSymmetryRestoration.");
@@ -497,6 +497,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckNLOStability = 0;
     }
+    else
+    {
+      CheckNLOStability = -1; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
@@ -523,6 +527,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 3;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 989c470..10d8c5f 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -461,6 +461,10 @@ CLIOptions::CLIOptions(const BSMPT::parser &argparser)
     {
       CheckEWSymmetryRestoration = 0;
     }
+    else
+    {
+      CheckEWSymmetryRestoration = -1; // refused by good()
+    }
   }
   catch (BSMPT::parserException &)
   {
-- 
2.43.0


From d4557384ecc8b3a868af13eec4ac90a831a2635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 36/58] fix: report no critical temperature for pairs that have
 none

---
 src/transition_tracer/transition_tracer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index e6405b9..c368d07 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -394,7 +394,6 @@ TransitionTracer::TransitionTracer(user_input &input)
                 std::vector<double>(num_vev, EmptyValue);
           }
 
-          new_transition_data.crit_temp = pair.crit_temp;
           output_store.vec_trans_data.push_back(new_transition_data);
           output_store.vec_gw_data.push_back(new_gw_data);
         }
-- 
2.43.0


From 2f31989486eaf0e608707da6647a23ef63539ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:27 +0000
Subject: [PATCH 37/58] fix: integrate the signal-to-noise ratio over the
 logarithm of the frequency

---
 src/gravitational_waves/gw.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 506ae1e..301cb9f 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -190,6 +190,12 @@ double snr_integrand(double f, void *params)
   return func;
 }
 
+double snr_log_integrand(double logf, void *params)
+{
+  double f = std::exp(logf);
+  return f * snr_integrand(f, params);
+}
+
 struct resultErrorPair
 Nintegrate_SNR(GravitationalWave &obj, const double fmin, const double fmax)
 {
@@ -200,14 +206,15 @@ Nintegrate_SNR(GravitationalWave &obj, const double fmin, const double fmax)
   gsl_integration_workspace *w =
       gsl_integration_workspace_alloc(workspace_size);
   gsl_function F;
-  F.function = &snr_integrand;
+  // the integrand extends over many orders of magnitude of the frequency
+  F.function = &snr_log_integrand;
   F.params   = static_cast<void *>(&obj);
 
   struct resultErrorPair res;
 
   gsl_integration_qags(&F,
-                       fmin,
-                       fmax,
+                       std::log(fmin),
+                       std::log(fmax),
                        abs_err,
                        rel_err,
                        workspace_size,
-- 
2.43.0


From 78228878587c66613f33f9a6e6b574e928c5db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:27 +0000
Subject: [PATCH 38/58] fix: report the wall velocity used for the
 gravitational waves

---
 src/transition_tracer/transition_tracer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index c368d07..ea9e0e6 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -280,9 +280,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Start GW parameters calculation.");
 
-                new_gw_data.vwall = bounce.GetWallVelocity();
-
                 bounce.CalculatePTStrength();
+                new_gw_data.vwall       = bounce.GetWallVelocity();
                 new_gw_data.alpha       = bounce.GetPTStrength();
                 new_gw_data.beta_over_H = bounce.GetInvTimeScale();
 
-- 
2.43.0


From 36972b9b56c11ced2819f6022db9fd70a235c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:27 +0000
Subject: [PATCH 39/58] fix: compute both missing peak values before evaluating
 a spectrum

---
 src/gravitational_waves/gw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 301cb9f..5c94cba 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -115,7 +115,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeSoundWave();
     }
-    else if (!this->data.fPeakSoundWave)
+    if (!this->data.fPeakSoundWave)
     {
       this->CalcPeakFrequencySoundWave();
     }
@@ -131,7 +131,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeTurbulence();
     }
-    else if (!this->data.fPeakTurbulence)
+    if (!this->data.fPeakTurbulence)
     {
       this->CalcPeakFrequencyTurbulence();
     }
-- 
2.43.0


From c6ddbd7bfe0e42cb72eaa96648e6da6ecbca0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:27 +0000
Subject: [PATCH 40/58] fix: slope of the turbulence spectrum above the peak

---
 src/gravitational_waves/gw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 5c94cba..75edb0b 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -138,7 +138,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
 
     res += this->data.h2OmegaPeakTurbulence *
            std::pow(f / this->data.fPeakTurbulence, 3) /
-           std::pow(1 + f / this->data.fPeakTurbulence, 11 / 3) /
+           std::pow(1 + f / this->data.fPeakTurbulence, 11. / 3) /
            (1 + 8 * M_PI * f / this->data.Hstar);
   }
 
-- 
2.43.0


From 6e748e04ee1dd316b576f3eddf204169a7861fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:06 +0000
Subject: [PATCH 41/58] fix: no gravitational waves from unphysical strength,
 duration or velocity

---
 src/gravitational_waves/gw.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 75edb0b..412d401 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -30,7 +30,7 @@ GravitationalWave::GravitationalWave(BounceSolution &BACalc,
   data.gstar      = BACalc.GetGstar();
   data.Hstar      = BACalc.HubbleRate(data.transitionTemp);
 
-  if (data.InvTimeScale < 1)
+  if (not(data.InvTimeScale >= 1))
   {
     data.status = StatusGW::Failure;
     Logger::Write(
@@ -45,6 +45,13 @@ GravitationalWave::GravitationalWave(BounceSolution &BACalc,
     Logger::Write(LoggingLevel::GWDetailed,
                   "Requested transition temperature could not be calculated.");
   }
+  else if (not(data.PTStrength > 0) or not(data.vb > 0) or
+           not std::isfinite(data.InvTimeScale * data.PTStrength * data.vb))
+  {
+    data.status = StatusGW::Failure;
+    Logger::Write(LoggingLevel::GWDetailed,
+                  "Unphysical transition strength, duration or wall velocity.");
+  }
 }
 
 GravitationalWave::~GravitationalWave()
-- 
2.43.0


From b313da7091e0d5dabed3d186424e7ab275fbaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:02 +0000
Subject: [PATCH 42/58] fix: choose the equivalent true vacuum nearest to the
 false vacuum

---
 src/bounce_solution/bounce_solution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 9d38a5e..37b7db4 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -90,9 +90,9 @@ void BounceSolution::CalculateOptimalDiscreteSymmetry()
   for (auto GroupElement : GroupElements)
   {
     Eigen::VectorXd CandidateTrueVacuum = GroupElement * TrueVacuum;
-    std::vector<double> DeltaVEV        = FalseVacuum;
+    std::vector<double> DeltaVEV;
     for (std::size_t el = 0; el < FalseVacuum.size(); el++)
-      DeltaVEV.push_back(FalseVacuum[el] - TrueVacuum[el]);
+      DeltaVEV.push_back(FalseVacuum[el] - CandidateTrueVacuum[el]);
 
     if (L2NormVector(DeltaVEV) < MaximumDistance)
     {
-- 
2.43.0


From 4ab97321bbf8216c41fff3952634f3c510236855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 43/58] fix: start the interpolation of the action anew when
 solutions were added

---
 src/bounce_solution/bounce_solution.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 37b7db4..52b854c 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -452,6 +452,7 @@ void BounceSolution::SetBounceSol()
     return; // Not enough points to calculate path
   }
 
+  S3ofT_spline = tk::spline(); // the boundary has to be set before the points
   S3ofT_spline.set_boundary(
       tk::spline::not_a_knot, 0.0, tk::spline::not_a_knot, 0.0);
   S3ofT_spline.set_points(list_T, list_S3);
-- 
2.43.0


From 5d227019b5f233f637a795186179492e7757bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:48 +0000
Subject: [PATCH 44/58] fix: integrals of the false vacuum fraction keep the
 best estimate instead of aborting the program

---
 src/bounce_solution/bounce_solution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 52b854c..44fe313 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <BSMPT/bounce_solution/bounce_solution.h>
+#include <gsl/gsl_errno.h> // for gsl_set_error_handler_off
 
 namespace BSMPT
 {
@@ -898,6 +899,7 @@ struct resultErrorPair Nintegrate_Inner(BounceSolution &obj,
 
   struct resultErrorPair res;
 
+  gsl_set_error_handler_off(); // keep the best estimate, do not abort
   gsl_integration_qags(&F,
                        obj.GetStoredTemp(),
                        Tprime,
@@ -927,6 +929,7 @@ struct resultErrorPair Nintegrate_Outer(BounceSolution &obj)
 
   struct resultErrorPair res;
 
+  gsl_set_error_handler_off(); // keep the best estimate, do not abort
   gsl_integration_qags(&F,
                        obj.GetStoredTemp(),
                        obj.GetCriticalTemp(),
-- 
2.43.0


From 55ad850e6ca1cba97c20207ea3efcac7b1c48694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:56 +0000
Subject: [PATCH 45/58] fix: fall back to the default wall velocity if
 percolation is lost, and end if that does not help

---
 src/bounce_solution/bounce_solution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 44fe313..99b2e19 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -969,6 +969,7 @@ void BounceSolution::CalculatePTStrength()
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
     CalculatePercolationTemp(percolation_false_vac_frac);
+    if (Tperc < 0) break; // no percolation with this wall velocity
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
@@ -993,6 +994,7 @@ void BounceSolution::CalculatePTStrength()
     CalculateWallVelocity(false_min, true_min);
     if (abs(alpha / old_alpha - 1) < 1e-7) return; // Found a solution
   }
+  if (UserDefined_vwall >= 0) return; // nothing left to try
   // We could not find the solution for the system. use default value of .95
   // instead
   Logger::Write(LoggingLevel::TransitionDetailed,
-- 
2.43.0


From 796b25ef54c2c900ec4d8635e347d94badc3b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:35 +0000
Subject: [PATCH 46/58] fix: a temperature hit early by the bisection of the
 false vacuum fraction is not a failure

---
 src/bounce_solution/bounce_solution.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 99b2e19..b20dbf9 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -753,18 +753,11 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
 
   if (T_up > 0 and T_down > 0)
   {
-    T_middle = (T_up + T_down) / 2.;
-    this->SetStoredTemp(T_middle); // update temp storage for inner integral
-    double IatT = prefac * Nintegrate_Outer(*this).result;
-
-    while ((std::abs(T_up / T_down - 1) >
-            RelativeTemperatureInCalcTempAtFalseVacFraction *
-                MarginOfCalcTempAtFalseVacFractionBeforeFailure) and
-           (not almost_the_same(
-               int_at_false_vac_frac,
-               IatT,
-               RelativeErrorInCalcTempAtFalseVacFraction *
-                   MarginOfCalcTempAtFalseVacFractionBeforeFailure)))
+    double IatT;
+
+    while (std::abs(T_up / T_down - 1) >
+           RelativeTemperatureInCalcTempAtFalseVacFraction *
+               MarginOfCalcTempAtFalseVacFractionBeforeFailure)
     {
       T_middle = (T_up + T_down) / 2.;
       this->SetStoredTemp(T_middle); // update temp storage for inner integral
-- 
2.43.0


From 04d87ff1db1a7a27c499310d66ef00b2a83636f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 47/58] Revert "fix: derivatives of the thermal potential are
 those of the interpolated functions"

This reverts commit e218ca01e4ad756b68462731fd53ffb7acaa0a72.
---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 333b9c1..03fe187 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -130,15 +130,15 @@ double Class_Potential_Origin::boson(double MassSquared,
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonInterpolated(Ratio, 1);
+           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JbosonInterpolated(Ratio) -
+                ThermalFunctions::JbosonNumericalIntegration(Ratio, 0) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JbosonInterpolated(Ratio, 1));
+                ThermalFunctions::JbosonNumericalIntegration(Ratio, 1));
   }
   return res;
 }
@@ -158,15 +158,15 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JfermionInterpolated(Ratio, 1);
+           ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JfermionInterpolated(Ratio) -
+                ThermalFunctions::JfermionNumericalIntegration(Ratio) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JfermionInterpolated(Ratio, 1));
+                ThermalFunctions::JfermionNumericalIntegration(Ratio, 1));
   }
   return res;
 }
-- 
2.43.0


From 796b1eea58f1ef5f09ba0434990f8ecc255943e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 48/58] Revert "fix: temperature derivative of the potential
 contains the derivative of the thermal masses"

This reverts commit b9e80a07664625d7751af127731176aa85792498.
---
 src/models/ClassPotentialOrigin.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 03fe187..8ef9466 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3216,19 +3216,13 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       double VDebye = 0;
       for (std::size_t k = 0; k < NHiggs; k++)
       {
-        if (HiggsMassesVec[k] > 0)
-          VDebye += std::pow(HiggsMassesVec[k], 1.5) +
-                    Temp * 1.5 * HiggsMassesVec.at(k + NHiggs) *
-                        std::pow(HiggsMassesVec[k], 0.5);
+        if (HiggsMassesVec[k] > 0) VDebye += std::pow(HiggsMassesVec[k], 1.5);
         if (HiggsMassesZeroTempVec[k] > 0)
           VDebye += -std::pow(HiggsMassesZeroTempVec[k], 1.5);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
-        if (GaugeMassesVec[k] > 0)
-          VDebye += std::pow(GaugeMassesVec[k], 1.5) +
-                    Temp * 1.5 * GaugeMassesVec.at(k + NGauge) *
-                        std::pow(GaugeMassesVec[k], 0.5);
+        if (GaugeMassesVec[k] > 0) VDebye += std::pow(GaugeMassesVec[k], 1.5);
         if (GaugeMassesZeroTempVec[k] > 0)
           VDebye += -std::pow(GaugeMassesZeroTempVec[k], 1.5);
       }
-- 
2.43.0


From 4a379a3cedcd4854e1daf41e3ab528d5b89b9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:32 +0000
Subject: [PATCH 49/58] fix: field derivatives of the thermal potential are
 those of its functions; no integration over a pole for negative squared
 masses

---
 src/models/ClassPotentialOrigin.cpp | 30 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 8ef9466..0f51dc3 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -130,15 +130,20 @@ double Class_Potential_Origin::boson(double MassSquared,
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JbosonInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
+    // the integrand of the derivative is singular for negative arguments
+    const double Value =
+        Ratio < 0 ? ThermalFunctions::JbosonInterpolated(Ratio)
+                  : ThermalFunctions::JbosonNumericalIntegration(Ratio, 0);
+    const double Derivative =
+        Ratio < 0 ? ThermalFunctions::JbosonInterpolated(Ratio, 1)
+                  : ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
-           (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 0) -
-            2 * Temp * MassSquared *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 1));
+           (4 * std::pow(Temp, 3) * Value -
+            2 * Temp * MassSquared * Derivative);
   }
   return res;
 }
@@ -158,15 +163,20 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JfermionInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
+    // the integrand of the derivative is singular for negative arguments
+    const double Value =
+        Ratio < 0 ? ThermalFunctions::JfermionInterpolated(Ratio)
+                  : ThermalFunctions::JfermionNumericalIntegration(Ratio, 0);
+    const double Derivative =
+        Ratio < 0 ? ThermalFunctions::JfermionInterpolated(Ratio, 1)
+                  : ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
-           (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio) -
-            2 * Temp * MassSquared *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio, 1));
+           (4 * std::pow(Temp, 3) * Value -
+            2 * Temp * MassSquared * Derivative);
   }
   return res;
 }
-- 
2.43.0


From cc3847bdc277a7a3e63017a5b15f5abc30d3faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 50/58] fix: round-off in the integrals of the thermal
 functions does not abort the program

---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index c957bfc..514b943 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -144,6 +144,7 @@ double JbosonNumericalIntegration(const double &x, int diff)
   F.params = &dummy;
   double error, result;
   double upperLimit = 30;
+  gsl_set_error_handler_off(); // keep the best estimate, do not abort
   gsl_integration_qags(
       &F, 0, upperLimit, 0, 1e-7, workspaceSize, w, &result, &error);
   gsl_integration_workspace_free(w);
@@ -171,6 +172,7 @@ double JfermionNumericalIntegration(const double &x, int diff)
   F.params = &dummy;
   double error, result;
   double upperLimit = 30;
+  gsl_set_error_handler_off(); // keep the best estimate, do not abort
   gsl_integration_qags(
       &F, 0, upperLimit, 0, 1e-7, workspaceSize, w, &result, &error);
   gsl_integration_workspace_free(w);
-- 
2.43.0


From 84816df79aee6a69cd4b7d8691f6bd12b94b33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 51/58] fix: refuse options that are not a number in CalcTemps,
 CalcGW, MinimaTracer, VEVEVO and PotPlotter

---
 src/prog/CalcGW.cpp       | 10 +++++-----
 src/prog/CalcTemps.cpp    |  8 ++++----
 src/prog/MinimaTracer.cpp |  2 +-
 src/prog/PotPlotter.cpp   |  2 +-
 src/prog/VEVEVO.cpp       |  6 +++---
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index 62350d7..ef80760 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -333,20 +333,20 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "firstline is smaller then lastline.");
     return false;
   }
-  if (templow >= temphigh)
+  if (not(templow < temphigh))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
     return false;
   }
   if (UserDefined_epsturb != -1 and
-      (UserDefined_epsturb < 0 or UserDefined_epsturb > 1))
+      not(UserDefined_epsturb >= 0 and UserDefined_epsturb <= 1))
   {
     Logger::Write(LoggingLevel::Default, "Invalid choice for eps_turb.");
     return false;
   }
   if ((UserDefined_vwall != -1 and UserDefined_vwall != -2) and
-      (UserDefined_vwall <= 0 or UserDefined_vwall > 1))
+      not(UserDefined_vwall > 0 and UserDefined_vwall <= 1))
   {
     Logger::Write(LoggingLevel::Default, "Invalid choice for vwall.");
     return false;
@@ -373,14 +373,14 @@ bool CLIOptions::good() const
                   "Invalid choice for CheckNLOStability.");
     return false;
   }
-  if (perc_prbl < 0 or perc_prbl > 1)
+  if (not(perc_prbl >= 0 and perc_prbl <= 1))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid false vacuum fraction for determination of "
                   "percolation temperature given.");
     return false;
   }
-  if (compl_prbl < 0 or compl_prbl > 1)
+  if (not(compl_prbl >= 0 and compl_prbl <= 1))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid false vacuum fraction for determination of "
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 8b80b62..833eac0 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -313,14 +313,14 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "lastline is smaller then firstline.");
     return false;
   }
-  if (templow >= temphigh)
+  if (not(templow < temphigh))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
     return false;
   }
   if ((UserDefined_vwall != -1 and UserDefined_vwall != -2) and
-      (UserDefined_vwall <= 0 or UserDefined_vwall > 1))
+      not(UserDefined_vwall > 0 and UserDefined_vwall <= 1))
   {
     Logger::Write(LoggingLevel::Default, "Invalid choice for vwall.");
     return false;
@@ -347,14 +347,14 @@ bool CLIOptions::good() const
                   "Invalid choice for CheckNLOStability.");
     return false;
   }
-  if (perc_prbl < 0 or perc_prbl > 1)
+  if (not(perc_prbl >= 0 and perc_prbl <= 1))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid false vacuum fraction for determination of "
                   "percolation temperature given.");
     return false;
   }
-  if (compl_prbl < 0 or compl_prbl > 1)
+  if (not(compl_prbl >= 0 and compl_prbl <= 1))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid false vacuum fraction for determination of "
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 10d8c5f..9b3749a 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -330,7 +330,7 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "lastline is smaller then firstline.");
     return false;
   }
-  if (templow >= temphigh)
+  if (not(templow < temphigh))
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid temperature choice. Thigh has to be > 0 GeV.");
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index d0e3df4..81810ee 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -379,7 +379,7 @@ bool CLIOptions::good() const
     ShowInputError();
     return false;
   }
-  if (Temperature < 0)
+  if (not(Temperature >= 0))
   {
     if (Temperature == -1)
       Logger::Write(LoggingLevel::Default, "No input for temperature.");
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 00c9e56..39a479d 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -184,16 +184,16 @@ bool CLIOptions::good() const
     throw std::runtime_error(
         "You disabled all minimizers. You need at least one.");
   }
-  if (TemperatureStep <= 0)
+  if (not(TemperatureStep > 0))
   {
     throw std::runtime_error("The stepsize has to be larger than 0.");
   }
-  if (TemperatureStart < 0)
+  if (not(TemperatureStart >= 0))
   {
     throw std::runtime_error(
         "The starting value of the temperature can not be negative.");
   }
-  if (TemperatureEnd < TemperatureStart)
+  if (not(TemperatureEnd >= TemperatureStart))
   {
     throw std::runtime_error("The minimal value for the temperature is lower "
                              "then the maximal value.");
-- 
2.43.0


From 0ecf0feaf932dcee165be0b7885e53aa7e9b75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 52/58] fix: an empty line of the input file is not a parameter
 point

---
 src/prog/BSMPT.cpp          | 2 +-
 src/prog/CalcCT.cpp         | 2 +-
 src/prog/CalcGW.cpp         | 2 +-
 src/prog/CalcTemps.cpp      | 2 +-
 src/prog/MinimaTracer.cpp   | 2 +-
 src/prog/NLOVEV.cpp         | 2 +-
 src/prog/PotPlotter.cpp     | 2 +-
 src/prog/TripleHiggsNLO.cpp | 2 +-
 src/prog/VEVEVO.cpp         | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/prog/BSMPT.cpp b/src/prog/BSMPT.cpp
index 27be55c..7c6925e 100644
--- a/src/prog/BSMPT.cpp
+++ b/src/prog/BSMPT.cpp
@@ -102,7 +102,7 @@ try
       modelPointer->setUseIndexCol(linestr);
     }
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       if (args.TerminalOutput)
       {
diff --git a/src/prog/CalcCT.cpp b/src/prog/CalcCT.cpp
index b93e815..de33966 100644
--- a/src/prog/CalcCT.cpp
+++ b/src/prog/CalcCT.cpp
@@ -89,7 +89,7 @@ try
     }
 
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index ef80760..446013c 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -104,7 +104,7 @@ try
     if (linecounter > args.lastline) break;
 
     if (linecounter >= args.firstline and linecounter <= args.lastline and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 833eac0..35158bf 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -101,7 +101,7 @@ try
     if (linecounter > args.lastline) break;
 
     if (linecounter >= args.firstline and linecounter <= args.lastline and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 9b3749a..559d6d3 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -92,7 +92,7 @@ try
     if (linecounter > args.lastline) break;
 
     if (linecounter >= args.firstline and linecounter <= args.lastline and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       Logger::Write(LoggingLevel::ProgDetailed,
                     "Currently at line " + std::to_string(linecounter));
diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index ce88880..c37d911 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -97,7 +97,7 @@ try
       outfile << std::endl;
     }
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index 81810ee..3c94206 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -95,7 +95,7 @@ try
     {
       modelPointer->setUseIndexCol(linestr);
     }
-    else if (linecounter == args.Line)
+    else if (linecounter == args.Line and not linestr.empty())
     {
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
diff --git a/src/prog/TripleHiggsNLO.cpp b/src/prog/TripleHiggsNLO.cpp
index 5c01f90..03af4b3 100644
--- a/src/prog/TripleHiggsNLO.cpp
+++ b/src/prog/TripleHiggsNLO.cpp
@@ -99,7 +99,7 @@ try
     }
 
     if (linecounter >= args.FirstLine and linecounter <= args.LastLine and
-        linecounter != 1)
+        linecounter != 1 and not linestr.empty())
     {
 
       std::pair<std::vector<double>, std::vector<double>> parameters =
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 39a479d..108b429 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -87,7 +87,7 @@ try
     {
       modelPointer->setUseIndexCol(linestr);
     }
-    else if (linecounter == args.Line)
+    else if (linecounter == args.Line and not linestr.empty())
     {
       std::pair<std::vector<double>, std::vector<double>> parameters =
           modelPointer->initModel(linestr);
-- 
2.43.0


From 3ba4a4262a60e6afe066ac51a8c454afe2e0f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:50 +0000
Subject: [PATCH 53/58] fix: only the field derivatives of the Higgs masses
 change, the temperature derivative stays as it was

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 0f51dc3..245a91a 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2449,7 +2449,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp);
+  auto MassMatrix = HiggsMassMatrix(v, Temp, std::min(diff, 0));
 
   double ZeroMass = std::pow(10, -5);
 
-- 
2.43.0


From a623e20dd6b08bd103d9d49a2da06b97df1b26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:31 +0000
Subject: [PATCH 54/58] fix: the CPintheDark counterterm tadpoles are labelled
 in the order they are written

---
 src/models/ClassPotentialCPintheDark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d13d99b..ac717a5 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -85,10 +85,10 @@ std::vector<std::string> Class_Potential_CPintheDark::addLegendCT() const
   labels.push_back("dL6");
   labels.push_back("dL7");
   labels.push_back("dL8");
+  labels.push_back("dTCB");
   labels.push_back("dT1");
   labels.push_back("dT2");
   labels.push_back("dTCP");
-  labels.push_back("dTCB");
   labels.push_back("dTS");
   labels.push_back("dImL5");
 
-- 
2.43.0


From 5e9d00069848e61cf9eb98df32ff51a3ed4a2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:31 +0000
Subject: [PATCH 55/58] fix: a negative tan(beta) keeps its sign in the vacuum
 of the C2HDM and N2HDM

---
 src/models/ClassPotentialC2HDM.cpp | 5 +++++
 src/models/ClassPotentialN2HDM.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/models/ClassPotentialC2HDM.cpp b/src/models/ClassPotentialC2HDM.cpp
index e1e9aac..ed0e9e6 100644
--- a/src/models/ClassPotentialC2HDM.cpp
+++ b/src/models/ClassPotentialC2HDM.cpp
@@ -235,6 +235,11 @@ void Class_Potential_C2HDM::set_gen(const std::vector<double> &p)
   C_SinBetaSquared = TanBeta * TanBeta * C_CosBetaSquared;
   C_SinBeta        = sqrt(C_SinBetaSquared);
 
+  if (TanBeta < 0) // for beta in 4th quadrant
+  {
+    C_SinBeta *= -1;
+  }
+
   u1 = RealMMix * TanBeta -
        SMConstants.C_vev0 * SMConstants.C_vev0 * C_SinBetaSquared *
            (L4 + RL5 + L3) / 0.2e1 -
diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 2caed38..a95b4e6 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -239,6 +239,11 @@ void Class_Potential_N2HDM::set_gen(const std::vector<double> &p)
   C_CosBeta        = sqrt(C_CosBetaSquared);
   C_SinBetaSquared = TanBeta * TanBeta * C_CosBetaSquared;
   C_SinBeta        = sqrt(C_SinBetaSquared);
+
+  if (TanBeta < 0) // for beta in 4th quadrant
+  {
+    C_SinBeta *= -1;
+  }
   beta             = std::atan(TanBeta);
 
   double v1 = SMConstants.C_vev0 * C_CosBeta;
-- 
2.43.0


From af61fa2b5023bc7726cd410227645a6df1c7547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:17 +0000
Subject: [PATCH 56/58] fix: set the boundary of the rasterised gradient before
 its points

The spline of the gradient along the path is rebuilt in every iteration of the
path deformation; setting its boundary while it still holds the points of the
iteration before fails the spline's assertion and ends the program.
---
 src/bounce_solution/action_calculation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bounce_solution/action_calculation.cpp b/src/bounce_solution/action_calculation.cpp
index b1fd1eb..80c3d66 100644
--- a/src/bounce_solution/action_calculation.cpp
+++ b/src/bounce_solution/action_calculation.cpp
@@ -105,7 +105,8 @@ void BounceActionInt::RasterizedVdl(double l_start)
     l_temp.push_back(l_start + it / 1000.0 * (Spline.L - l_start));
     dVdl_temp.push_back(Calc_dVdl(l_temp.back()));
   }
-  // Set the not-a-knot boundary conditions
+  // Set the not-a-knot boundary conditions, before the points
+  RasterizeddVdl = tk::spline();
   RasterizeddVdl.set_boundary(
       tk::spline::not_a_knot, 0.0, tk::spline::not_a_knot, 0.0);
   RasterizeddVdl.set_points(l_temp, dVdl_temp);
-- 
2.43.0


From c3d74f88f1fa5bc0009d453b4d2714985452b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:20 +0000
Subject: [PATCH 57/58] fix: the model self-tests passed on quantities that are
 not numbers

---
 src/models/ModelTestfunctions.cpp | 36 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/models/ModelTestfunctions.cpp b/src/models/ModelTestfunctions.cpp
index ce97591..4e8ab5b 100644
--- a/src/models/ModelTestfunctions.cpp
+++ b/src/models/ModelTestfunctions.cpp
@@ -277,7 +277,7 @@ TestResults CheckGaugeBosonMasses(const Class_Potential_Origin &point)
              gaugeMassesInput.at(i);
     }
   }
-  auto result = sum > 1e-5 ? TestResults::Fail : TestResults::Pass;
+  auto result = sum <= 1e-5 ? TestResults::Pass : TestResults::Fail;
 
   std::string prsize_tline1 = "The SM gauge boson masses squared are : ";
   std::string prsize_tline2 =
@@ -392,7 +392,7 @@ CheckFermionicMasses(const Class_Potential_Origin &point)
         sum += std::abs(leptonMassesInput.at(i));
       }
     }
-    if (sum > ZeroMass)
+    if (not(sum <= ZeroMass))
     {
       result.first = TestResults::Fail;
     }
@@ -422,7 +422,7 @@ CheckFermionicMasses(const Class_Potential_Origin &point)
   {
     sum += std::abs(quarkMassCalculated.at(i) - quarkMassesInput.at(i));
   }
-  if (sum > ZeroMass)
+  if (not(sum <= ZeroMass))
   {
     result.second = TestResults::Fail;
   }
@@ -470,7 +470,7 @@ TestResults CheckTreeLevelMin(const Class_Potential_Origin &point,
     sum += std::abs(std::abs(CalculatedHiggsVEV.at(i)) -
                     std::abs(point.get_vevTreeMin(i)));
   }
-  if (sum > 0.5)
+  if (not(sum <= 0.5))
   {
     result = TestResults::Fail;
     ss << "Test failed with difference = " << sum;
@@ -489,7 +489,7 @@ TestResults CheckTadpoleRelations(const Class_Potential_Origin &point)
   for (std::size_t i = 0; i < point.get_NHiggs(); i++)
     SurviveTadpole += std::abs(point.VTree(transformedVEV, i + 1));
 
-  if (SurviveTadpole > 1e-5)
+  if (not(SurviveTadpole <= 1e-5))
   {
     Logger::Write(
         LoggingLevel::Default,
@@ -558,7 +558,7 @@ TestResults CheckNLOMasses(const Class_Potential_Origin &point)
     double n = std::max(std::abs(NLOMass[i]), std::abs(TreeMass[i]));
     if (n != 0) sum += z / n;
   }
-  if (sum > 0.5)
+  if (not(sum <= 0.5))
   {
     result = TestResults::Fail;
   }
@@ -587,10 +587,11 @@ TestResults CheckVTreeSimplified(const Class_Potential_Origin &point)
     ValSimplified = point.VTree(VevDummyConfigForPotential);
     ValTensor     = point.VTree(
         VevDummyConfigForPotential, 0, true /* = ForceExplicitCalculation */);
-    PotentialDifference += std::abs(ValTensor - ValSimplified) /
-                           (std::abs(ValTensor) + std::abs(ValSimplified));
+    if (ValTensor != 0 or ValSimplified != 0)
+      PotentialDifference += std::abs(ValTensor - ValSimplified) /
+                             (std::abs(ValTensor) + std::abs(ValSimplified));
   }
-  if (PotentialDifference > 1e-5)
+  if (not(PotentialDifference <= 1e-5))
   {
     Logger::Write(LoggingLevel::Default,
                   "You provided a simplified version of the tree-level "
@@ -625,11 +626,12 @@ TestResults CheckVCounterSimplified(const Class_Potential_Origin &point)
         point.MinimizeOrderVEV(VevDummyConfigForMinimiser);
     ValCTSimplified = point.CounterTerm(VevDummyConfigForPotential);
     ValCTTensor     = point.CounterTerm(VevDummyConfigForPotential, 0, true);
-    PotentialCTDifference +=
-        std::abs(ValCTTensor - ValCTSimplified) /
-        (std::abs(ValCTSimplified) + std::abs(ValCTTensor));
+    if (ValCTTensor != 0 or ValCTSimplified != 0)
+      PotentialCTDifference +=
+          std::abs(ValCTTensor - ValCTSimplified) /
+          (std::abs(ValCTSimplified) + std::abs(ValCTTensor));
   }
-  if (PotentialCTDifference > 1)
+  if (not(PotentialCTDifference <= 1))
   {
     Logger::Write(LoggingLevel::Default,
                   "You provided a simplified version of the counterterm "
@@ -659,7 +661,7 @@ TestResults CheckCKMUnitarity(const ISMConstants &SMConstants)
 
   double ZeroMass = std::pow(10, -5);
   auto norm       = (VCKM.adjoint() * VCKM - MatrixXcd::Identity(3, 3)).norm();
-  auto result     = norm > ZeroMass ? TestResults::Fail : TestResults::Pass;
+  auto result     = norm <= ZeroMass ? TestResults::Pass : TestResults::Fail;
   if (result == TestResults::Fail)
   {
 
@@ -692,7 +694,7 @@ CheckCTConditionsFirstDerivative(const Class_Potential_Origin &point)
 
   for (std::size_t i{0}; i < NHiggs; ++i)
   {
-    if (std::abs(WeinbergNabla.at(i) + NablaVCT(i)) > 1e-5)
+    if (not(std::abs(WeinbergNabla.at(i) + NablaVCT(i)) <= 1e-5))
     {
       result = TestResults::Fail;
       break;
@@ -715,7 +717,7 @@ CheckCTConditionsSecondDerivative(const Class_Potential_Origin &point)
   {
     for (std::size_t j{0}; j < NHiggs; ++j)
     {
-      if (std::abs(HesseVCT(i, j) + HesseWeinberg(i, j)) > 1e-5)
+      if (not(std::abs(HesseVCT(i, j) + HesseWeinberg(i, j)) <= 1e-5))
       {
         std::stringstream ss;
         ss << "Failed at << (" << i << "," << j << ")"
@@ -736,7 +738,7 @@ TestResults CheckCTIdentities(const Class_Potential_Origin &point)
   auto identities = point.GetCTIdentities();
   for (const auto &el : identities)
   {
-    if (std::abs(el) > 1e-5)
+    if (not(std::abs(el) <= 1e-5))
     {
       result = TestResults::Fail;
       break;
-- 
2.43.0


From c84e4142260767844cdb600fefeec0ff4ee2760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:20 +0000
Subject: [PATCH 58/58] fix: the high-temperature minimum was placed at the
 mirror image of the stationary point

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 901234e..a4c5287 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1257,7 +1257,7 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
     return 1;
 
   Eigen::VectorXd StationaryPoint =
-      HessianEigen.colPivHouseholderQr().solve(GradientEigen);
+      HessianEigen.colPivHouseholderQr().solve(-GradientEigen);
 
   // Locate global stationary point
   point = std::vector<double>(StationaryPoint.data(),
-- 
2.43.0

