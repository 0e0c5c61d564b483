From ab6d8e61dc77a1be1b69ea66c72954f94fe69588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 01/32] fix: use the Box Cox parameter given as a float in all
 POD classes

---
 otpod/_pod.py                              |  9 +++++++--
 otpod/_univariate_linear_model_analysis.py |  4 +++-
 otpod/_univariate_linear_model_pod.py      | 23 +++++++++++++++++++---
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..740a05b 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -28,12 +28,14 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # value imposed by the user, None if it must be optimized
+        self._lambdaBoxCoxFixed = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -320,10 +322,13 @@ class POD(object):
         if boxCox:
             if signals.getMin()[0] < 0:
                 shift = -signals.getMin()[0] + 100
-            # optimization required, get optimal lambda without graph
+            # get optimal lambda and graph, the optimal lambda is used only if
+            # no value is given
             self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
                 inputSample, signals, shift
             )
+            if self._lambdaBoxCoxFixed is not None:
+                self._lambdaBoxCox = self._lambdaBoxCoxFixed
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..043ac95 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,12 +147,14 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # value imposed by the user, None if it must be optimized
+        self._lambdaBoxCoxFixed = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..385bea4 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -108,7 +108,10 @@ class UnivariateLinearModelPOD(POD):
             outputSample = self._analysis.getOutputSample()
             noiseThres = self._analysis.getNoiseThreshold()
             saturationThres = self._analysis.getSaturationThreshold()
-            boxCox = self._analysis.getBoxCoxParameter()
+            boxCox = self._analysis._boxCox
+            # use the value given to the analysis, if any
+            if self._analysis._lambdaBoxCoxFixed is not None:
+                boxCox = self._analysis._lambdaBoxCoxFixed
             self._resDistFact = self._analysis._resDistFact
         else:
             # residuals distribution factory attributes
@@ -157,6 +160,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._lambdaBoxCoxFixed,
         )
         # get results
         self._defects = results["defects"]
@@ -480,6 +484,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                lambdaBoxCox,
             ):
 
                 results = _computeLinearModel(
@@ -490,6 +495,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    lambdaBoxCox,
                 )
 
                 self.intercept = results["intercept"]
@@ -521,6 +527,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._lambdaBoxCoxFixed,
             )
 
             PODcoll.append(model.PODmodel)
@@ -536,7 +543,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    lambdaBoxCoxFixed=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -563,8 +577,11 @@ def _computeLinearModel(
         else:
             shift = 0.0
 
-        # optimization required, get optimal lambda without graph
+        # get optimal lambda and graph, the optimal lambda is used only if no
+        # value is given
         lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        if lambdaBoxCoxFixed is not None:
+            lambdaBoxCox = lambdaBoxCoxFixed
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From 6b6ea41ebaf5e0b1aa36d2bc23bdbffd96a8bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 02/32] fix: shift signals containing zero before the Box Cox
 transformation

---
 otpod/_pod.py                              | 2 +-
 otpod/_univariate_linear_model_analysis.py | 2 +-
 otpod/_univariate_linear_model_pod.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 740a05b..6c03bcd 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -320,7 +320,7 @@ class POD(object):
         # Compute Box Cox if enabled
         shift = 0.0
         if boxCox:
-            if signals.getMin()[0] < 0:
+            if signals.getMin()[0] <= 0:
                 shift = -signals.getMin()[0] + 100
             # get optimal lambda and graph, the optimal lambda is used only if
             # no value is given
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 043ac95..487a5dd 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -213,7 +213,7 @@ class UnivariateLinearModelAnalysis:
         ###################### Box Cox transformation ##########################
         # Compute Box Cox if enabled
         if self._boxCox:
-            if signals.getMin()[0] < 0:
+            if signals.getMin()[0] <= 0:
                 shift = -signals.getMin()[0] + 100
             else:
                 shift = 0.0
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 385bea4..b554569 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -572,7 +572,7 @@ def _computeLinearModel(
     ###################### Box Cox transformation ##########################
     # Compute Box Cox if enabled
     if boxCox:
-        if signals.getMin()[0] < 0:
+        if signals.getMin()[0] <= 0:
             shift = -signals.getMin()[0] + 100
         else:
             shift = 0.0
-- 
2.43.0


From f6bb281593ead927a8c85c859e9be393f30ef7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 03/32] fix: quantile regression Box Cox parameter overwritten
 by the bootstrap

---
 otpod/_quantile_regression_pod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..c68f475 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -124,6 +124,9 @@ class QuantileRegressionPOD(POD):
         self._defects = result["inputSample"]
         self._signals = result["signals"]
         self._detectionBoxCox = result["detectionBoxCox"]
+        # keep the Box Cox results of the data, overwritten in the bootstrap loop
+        lambdaBoxCox = self._lambdaBoxCox
+        graphBoxCox = self._graphBoxCox if self._boxCox else None
 
         defectsSize = self._defects.getSize()
 
@@ -211,6 +214,10 @@ class QuantileRegressionPOD(POD):
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
 
+        # set back the Box Cox results of the data
+        self._lambdaBoxCox = lambdaBoxCox
+        self._graphBoxCox = graphBoxCox
+
     def getPODModel(self):
         """
         Accessor to the POD model.
-- 
2.43.0


From 8907f765e2d42e9bbc57aa85d147faca6c6d3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 04/32] fix: linear POD confidence level model after changing
 the simulation size

---
 otpod/_univariate_linear_model_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index b554569..7be48bc 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -252,8 +252,10 @@ class UnivariateLinearModelPOD(POD):
         else:
             # Linear regression model + gaussian residuals or + bootstrap
             def PODfunction(x):
-                samplePODDef = ot.Sample(self._simulationSize, 1)
-                for i in range(self._simulationSize):
+                # the size may differ from the current simulation size
+                simulationSize = len(self._PODcollDict)
+                samplePODDef = ot.Sample(simulationSize, 1)
+                for i in range(simulationSize):
                     samplePODDef[i] = [self._PODcollDict[i](x[0])]
                 return samplePODDef.computeQuantilePerComponent(1.0 - confidenceLevel)
 
-- 
2.43.0


From 686c72f61a7386b2576a5658a7e8796b77c31f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 05/32] fix: probability and confidence levels truncated in the
 detection size labels

---
 otpod/_pod.py                     | 12 ++++++------
 otpod/_pod_summary.py             |  6 +++---
 otpod/_quantile_regression_pod.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 6c03bcd..e01dea2 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -124,7 +124,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 8)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -141,9 +141,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 8)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 8)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -232,7 +232,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 8)))
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -244,9 +244,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + str(int(round(probabilityLevel * 100, 8)))
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + str(int(round(confidenceLevel * 100, 8)))
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..0908c58 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -569,11 +569,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + str(int(round(probabilityLevel * 100, 8))),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 8)))
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + str(int(round(confidenceLevel * 100, 8))),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index c68f475..0a42cdd 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -312,7 +312,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 8)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -330,9 +330,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 8)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 8)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From f63e930f7d492a1ca45b037a77d65dc9e6f14970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 06/32] fix: PODSummary.drawGraphs without probability level or
 with a given Box Cox value

---
 otpod/_pod_summary.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 0908c58..c6c4bf7 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -765,7 +765,8 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox:
+        # the likelihood graph exists only when the parameter is optimized
+        if self._boxCox and not isinstance(self._boxCox, float):
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
@@ -866,11 +867,13 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0


From bda5d37599949e038cab519db95e6c746dbf36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 07/32] fix: separate the residuals and validation results in
 PODSummary.saveResults

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index c6c4bf7..beab08f 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -549,7 +549,7 @@ class PODSummary:
             fd.write(regressionResult)
             fd.write("\n\nResiduals analysis results\n\n")
             fd.write(residualsResult)
-            fd.write("Model validation results\n\n")
+            fd.write("\n\nModel validation results\n\n")
             fd.write(validationResult)
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
-- 
2.43.0


From 63d4e9bd1dd950d08b55fbc829bf4e37a9dfab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 08/32] fix: do not change the defect sizes when the given
 values are rejected

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..453c88c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..d8b869c 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From c476e864eaf577e3cf44f1c8580927e3d31bf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 09/32] fix: keep the kriging POD and POD at confidence level
 inside [0, 1]

---
 otpod/_adaptive_signal_pod.py | 6 ++++--
 otpod/_kriging_pod.py         | 3 ++-
 otpod/_kriging_tools.py       | 2 ++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..ad5f096 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -399,7 +399,8 @@ class AdaptiveSignalPOD(POD, KrigingBase):
 
             if self._graph:
                 # create the interpolate function of the POD model
-                meanPOD = self._PODPerDefect.computeMean()
+                # the Gaussian approximation of the POD estimator can exceed [0, 1]
+                meanPOD = np.clip(np.array(self._PODPerDefect.computeMean()), 0.0, 1.0)
                 interpModel = interp1d(
                     self._defectSizes, np.array(meanPOD), kind="linear"
                 )
@@ -440,7 +441,8 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
         # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
+        # the Gaussian approximation of the POD estimator can exceed [0, 1]
+        meanPOD = np.clip(np.array(self._PODPerDefect.computeMean()), 0.0, 1.0)
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..3ea9a31 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -212,7 +212,8 @@ class KrigingPOD(POD, KrigingBase):
                 updateProgress(i, self._defectNumber, "Computing POD per defect")
 
         # compute the mean POD
-        meanPOD = self._PODPerDefect.computeMean()
+        # the Gaussian approximation of the POD estimator can exceed [0, 1]
+        meanPOD = np.clip(np.array(self._PODPerDefect.computeMean()), 0.0, 1.0)
         # create the interpolate function of the POD model
         interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
         self._PODmodel = ot.PythonFunction(1, 1, interpModel)
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 453c88c..40778ca 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -49,6 +49,8 @@ class KrigingBase:
         PODQuantile = self._PODPerDefect.computeQuantilePerComponent(
             1.0 - confidenceLevel
         )
+        # the Gaussian approximation of the POD estimator can exceed [0, 1]
+        PODQuantile = np.clip(np.array(PODQuantile), 0.0, 1.0)
         interpModel = interp1d(self._defectSizes, PODQuantile, kind="linear")
         PODmodelCl = ot.PythonFunction(1, 1, interpModel)
 
-- 
2.43.0


From e7f70bca8a4290e98ac3f0d79579436b59865248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 10/32] fix: update the covariance parameters in
 AdaptiveSignalPOD when Q2 is low

---
 otpod/_adaptive_signal_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index ad5f096..97618c4 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -377,10 +377,12 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter.setOptimizeParameters(True)
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
                 )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From d1845f45e5949eb4ad0290d98d4128331e953e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 11/32] fix: validation graph of AdaptiveSignalPOD

---
 otpod/_adaptive_signal_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 97618c4..344a197 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -422,6 +422,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                         transparent=True,
                     )
 
+        # normalization associated to the last updated kriging model
+        self._transformation = transformation
+
         # Compute the final POD with the last updated kriging model
         if self._verbose:
             print("\nStart computing the POD with the last updated kriging model")
-- 
2.43.0


From 0ad1b0bbf80ff1ae259a70ad13f8a11211857600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 12/32] fix: KrigingPOD with a kriging result given by the user

---
 otpod/_kriging_pod.py   | 30 +++++++++++++++++++++---------
 otpod/_kriging_tools.py | 27 ++++++++++++++++-----------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 3ea9a31..6b35531 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -180,7 +180,7 @@ class KrigingPOD(POD, KrigingBase):
 
         # compute the Q2
         self._Q2 = self._computeQ2(
-            self._input, self._signals, self._krigingResult, transformation
+            self._input, self._signals, self._krigingResult, self._transformation
         )
         if self._verbose:
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
@@ -203,7 +203,7 @@ class KrigingPOD(POD, KrigingBase):
                 defect,
                 self._detectionBoxCox,
                 self._krigingResult,
-                transformation,
+                self._transformation,
                 self._distribution,
                 self._simulationSize,
                 self._samplingSize,
@@ -220,20 +220,32 @@ class KrigingPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-    def setKrigingResult(self, result):
+    def setKrigingResult(self, result, transformation=None):
         """
         Accessor to the kriging result.
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
             The kriging result.
         transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+            The normalization transformation applied on the input parameters
+            before evaluating the kriging result. By default it is the
+            normalization of the input sample if the kriging result has been
+            built on the normalized input sample, the identity otherwise.
         """
-        try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
-            raise Exception("The given parameter is not an KrigingResult.")
+        if not isinstance(result, ot.GaussianProcessRegressionResult):
+            raise TypeError(
+                "The given parameter is not a GaussianProcessRegressionResult."
+            )
+        if transformation is None:
+            transformation = self._buildNormalization(self._input)
+            normalized = np.array(transformation(self._input))
+            trained = np.array(result.getInputSample())
+            if trained.shape != normalized.shape or not np.allclose(
+                trained, normalized
+            ):
+                transformation = ot.IdentityFunction(self._dim)
+        self._transformation = transformation
         self._krigingResult = result
         self._userKriging = True
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 40778ca..73598d0 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -382,6 +382,21 @@ class KrigingBase:
         else:
             self._verbose = verbose
 
+    def _buildNormalization(self, inputSample):
+        """
+        Build the normalization transformation of the input sample.
+        """
+        mean = inputSample.computeMean()
+        try:
+            stddev = inputSample.computeStandardDeviation()
+        except AttributeError:
+            stddev = inputSample.computeStandardDeviationPerComponent()
+        linear = ot.SquareMatrix(self._dim)
+        for j in range(self._dim):
+            linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0
+        zero = [0.0] * self._dim
+        return ot.LinearFunction(mean, zero, linear)
+
     def _buildKrigingAlgo(self, inputSample, outputSample):
         """
         Build the functional chaos algorithm without running it.
@@ -401,17 +416,7 @@ class KrigingBase:
             # anisotropic squared exponential covariance model
             self._covarianceModel = ot.SquaredExponential([1] * self._dim)
 
-        # normalization
-        mean = inputSample.computeMean()
-        try:
-            stddev = inputSample.computeStandardDeviation()
-        except AttributeError:
-            stddev = inputSample.computeStandardDeviationPerComponent()
-        linear = ot.SquareMatrix(self._dim)
-        for j in range(self._dim):
-            linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0
-        zero = [0.0] * self._dim
-        transformation = ot.LinearFunction(mean, zero, linear)
+        transformation = self._buildNormalization(inputSample)
 
         fitter = ot.GaussianProcessFitter(
             transformation(inputSample),
-- 
2.43.0


From b25339bd9f674cd540cf11bb627631bc2643c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 13/32] fix: default distribution of PolynomialChaosPOD with a
 result given by the user

---
 otpod/_polynomial_chaos_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..b971fbd 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -161,6 +161,9 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        elif self._distribution is None:
+            # default distribution is the one of the given result
+            self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
-- 
2.43.0


From 039176b89b308e7908b8483de9668402c8a6a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 14/32] fix: candidate selection in AdaptiveHitMissPOD when the
 probability interval is empty

---
 otpod/_adaptive_hitmiss_pod.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..4e6f919 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -273,13 +273,17 @@ class AdaptiveHitMissPOD(POD):
             ind_p = np.intersect1d(ind_p2, ind_p1)
             ind = ind_p
 
-            # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
+            # s'il n'a pas d indices on elargit p_min = 0.1, p_max = 0.8
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
 
+            # sinon tous les candidats sont admissibles
+            if len(ind) == 0:
+                ind = np.arange(len(probs))
+
             ind_rank = np.argsort(probs[ind])
             quant = [
                 0,
-- 
2.43.0


From e809ce1baa7a1871e803b1b2964b78fab8d7ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 15/32] fix: create the graph directory in AdaptiveHitMissPOD

---
 otpod/_adaptive_hitmiss_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 4e6f919..9030b4b 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -395,6 +395,8 @@ class AdaptiveHitMissPOD(POD):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
+                    if not os.path.exists(self._graphDirectory):
+                        os.makedirs(self._graphDirectory)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveHitMissPOD_")
                         + str(algo_iteration),
-- 
2.43.0


From f1beaf23bd3c9956c8e901fb5bab530944ec628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 16/32] fix: AdaptiveHitMissPOD with a detection value and no
 physical model

---
 otpod/_adaptive_hitmiss_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 9030b4b..05374c4 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -167,9 +167,11 @@ class AdaptiveHitMissPOD(POD):
             # case where the physical model returns a true signal value
             # the physical model is turned into a binary model with respect
             # to the detection value.
-            self._physicalModel = ot.IndicatorFunction(
-                ot.LevelSet(physicalModel, ot.Greater(), self._detection)
-            )
+            self._physicalModel = None
+            if physicalModel is not None:
+                self._physicalModel = ot.IndicatorFunction(
+                    ot.LevelSet(physicalModel, ot.Greater(), self._detection)
+                )
             self._signals = np.array(
                 np.array(self._signals) > self._detection, dtype="int"
             )
-- 
2.43.0


From 858ce12af18144b397251a93c994b0428f3ecdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 17/32] fix: underflow of the censored likelihood

log(1 - cdf) is infinite as soon as a censored observation is about 8 standard
deviations away from the least squares line, the analysis and the POD were then
stopped for lack of a starting point.
---
 otpod/_math_tools.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 009e3b2..0ee6a7e 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -6,6 +6,7 @@ import openturns as ot
 import math as m
 import numpy as np
 from scipy.optimize import fmin
+from scipy.stats import norm
 import sys
 
 
@@ -322,17 +323,13 @@ def MLE(X, defects, defectsNoise, defectsSat, signals, noiseThres, saturationThr
     MLE = len(defects) * np.log(s * np.sqrt(2.0 * np.pi))
     MLE += 1.0 / (2 * s**2) * np.sum((signals - (b0 + b1 * defects)) ** 2)
 
-    # noisy area
+    # noisy area, the log of the tail probabilities must not underflow
     Znoise = (noiseThres - (b0 + b1 * defectsNoise)) / s
-    cdfZnoise = np.array(
-        [ot.DistFunc.pNormal(Znoise[i][0]) for i in range(len(Znoise))]
-    )
-    MLE += -np.sum(np.log(cdfZnoise))
+    MLE += -np.sum(norm.logcdf(Znoise.astype(float)))
 
     # saturation area
     Zsat = (saturationThres - (b0 + b1 * defectsSat)) / s
-    cdfZsat = np.array([ot.DistFunc.pNormal(Zsat[i][0]) for i in range(len(Zsat))])
-    MLE += -np.sum(np.log(1.0 - cdfZsat))
+    MLE += -np.sum(norm.logsf(Zsat.astype(float)))
 
     if np.isnan(MLE):
         MLE = np.inf
-- 
2.43.0


From cdaf8135ae49dece2fc93e22b0d7878a905708b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:36 +0000
Subject: [PATCH 18/32] fix: degenerate initial simplex of the censored
 likelihood maximisation

A least squares intercept or slope close to 0 gave an initial simplex of null
size in that direction, the parameter was then not optimised.
---
 otpod/_math_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 0ee6a7e..48aa311 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -370,7 +370,11 @@ def computeLinearParametersCensored(
                 "Maximum Likelihood optimization for censored "
                 + "data : cannot find initial starting point."
             )
-    res = fmin(func, initialStartMLE, disp=0, full_output=1, maxiter=500)
+    # the initial simplex is proportional to the starting point: move the
+    # components close to 0, for which it would be degenerated
+    start = np.array(initialStartMLE, dtype=float)
+    start[np.abs(start) < 0.1 * np.abs(start[2])] = 0.1 * np.abs(start[2])
+    res = fmin(func, start, disp=0, full_output=1, maxiter=500)
     if res[4] == 2:
         ot.Log.Show(ot.Log.WARN)
         ot.Log.Warn(
-- 
2.43.0


From b49f63f36d2dfa6397012e80380cca0101d46a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:52 +0000
Subject: [PATCH 19/32] fix: use the Box Cox shift of the data in the bootstrap

Each bootstrap resample of signals that are not all positive computed its own
shift, so that the thresholds were transformed differently from one resample to
the other, and the run stopped when a resample had only positive signals.
---
 otpod/_pod.py                         |  9 ++++++---
 otpod/_quantile_regression_pod.py     |  2 ++
 otpod/_univariate_linear_model_pod.py | 16 ++++++++++++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index e01dea2..6dff50d 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -298,6 +298,7 @@ class POD(object):
         saturationThres,
         boxCox,
         censored,
+        shift=None,
     ):
         """
         Run common preliminary analysis to all methods to build POD.
@@ -318,10 +319,12 @@ class POD(object):
 
         ###################### Box Cox transformation ##########################
         # Compute Box Cox if enabled
-        shift = 0.0
-        if boxCox:
-            if signals.getMin()[0] <= 0:
+        # the bootstrap resamples use the shift of the data
+        if shift is None:
+            shift = 0.0
+            if boxCox and signals.getMin()[0] <= 0:
                 shift = -signals.getMin()[0] + 100
+        if boxCox:
             # get optimal lambda and graph, the optimal lambda is used only if
             # no value is given
             self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 0a42cdd..d8a3b26 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -124,6 +124,7 @@ class QuantileRegressionPOD(POD):
         self._defects = result["inputSample"]
         self._signals = result["signals"]
         self._detectionBoxCox = result["detectionBoxCox"]
+        shift = result["shift"]
         # keep the Box Cox results of the data, overwritten in the bootstrap loop
         lambdaBoxCox = self._lambdaBoxCox
         graphBoxCox = self._graphBoxCox if self._boxCox else None
@@ -176,6 +177,7 @@ class QuantileRegressionPOD(POD):
                 self._saturationThres,
                 self._boxCox,
                 self._censored,
+                shift,
             )
 
             # get some results
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 7be48bc..2b9ed2f 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -170,6 +170,7 @@ class UnivariateLinearModelPOD(POD):
         self._stderr = results["stderr"]
         self._residuals = results["residuals"]
         self._lambdaBoxCox = results["lambdaBoxCox"]
+        self._shift = results["shift"]
         self._graphBoxCox = results["graphBoxCox"]
         # return the box cox detection even if box cox was not enabled. In this
         # case detection = detectionBoxCox
@@ -487,6 +488,7 @@ class UnivariateLinearModelPOD(POD):
                 boxCox,
                 censored,
                 lambdaBoxCox,
+                shift,
             ):
 
                 results = _computeLinearModel(
@@ -498,6 +500,7 @@ class UnivariateLinearModelPOD(POD):
                     boxCox,
                     censored,
                     lambdaBoxCox,
+                    shift,
                 )
 
                 self.intercept = results["intercept"]
@@ -530,6 +533,7 @@ class UnivariateLinearModelPOD(POD):
                 self._boxCox,
                 self._censored,
                 self._lambdaBoxCoxFixed,
+                self._shift,
             )
 
             PODcoll.append(model.PODmodel)
@@ -553,6 +557,7 @@ def _computeLinearModel(
     boxCox,
     censored,
     lambdaBoxCoxFixed=None,
+    shift=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -574,10 +579,12 @@ def _computeLinearModel(
     ###################### Box Cox transformation ##########################
     # Compute Box Cox if enabled
     if boxCox:
-        if signals.getMin()[0] <= 0:
-            shift = -signals.getMin()[0] + 100
-        else:
-            shift = 0.0
+        # the bootstrap resamples use the shift of the data
+        if shift is None:
+            if signals.getMin()[0] <= 0:
+                shift = -signals.getMin()[0] + 100
+            else:
+                shift = 0.0
 
         # get optimal lambda and graph, the optimal lambda is used only if no
         # value is given
@@ -640,5 +647,6 @@ def _computeLinearModel(
         "residuals": residuals,
         "detection": detectionBoxCox,
         "lambdaBoxCox": lambdaBoxCox,
+        "shift": shift,
         "graphBoxCox": graphBoxCox,
     }
-- 
2.43.0


From 4a70e21e31e3c3724b46751bd720c10cb67c4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 20/32] fix: degree of PolynomialChaosPOD changed after a run

---
 otpod/_polynomial_chaos_pod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index b971fbd..7a87794 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -100,6 +100,7 @@ class PolynomialChaosPOD(POD):
         self._samplingSize = 5000
         self._distribution = None
         self._adaptiveStrategy = None
+        self._userAdaptiveStrategy = False
         self._projectionStrategy = None
         self._degree = 3
         self._defectSizes = None
@@ -536,6 +537,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._userAdaptiveStrategy = True
 
     def getAdaptiveStrategy(self):
         """
@@ -686,7 +688,7 @@ class PolynomialChaosPOD(POD):
         # put description of the inputSample into decription of the distribution
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if not self._userAdaptiveStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
-- 
2.43.0


From 6dac492b1eea4c28a182153bed9ead7bb764b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 21/32] fix: keep the copula of the parameters in the kriging
 POD

---
 otpod/_kriging_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 73598d0..1426291 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -444,7 +444,13 @@ class KrigingBase:
         # create a distibution with a dirac distribution for the defect size
         diracDist = [ot.Dirac(defect)]
         diracDist += [distribution.getMarginal(i + 1) for i in range(dim - 1)]
-        distribution = ot.JointDistribution(diracDist)
+        if distribution.hasIndependentCopula():
+            distribution = ot.JointDistribution(diracDist)
+        else:
+            # keep the dependence between the other parameters
+            copula = distribution.getCopula().getMarginal(list(range(1, dim)))
+            copula = ot.BlockIndependentCopula([ot.IndependentCopula(1), copula])
+            distribution = ot.JointDistribution(diracDist, copula)
 
         # create a sample for the Monte Carlo simulation and confidence interval
         MC_sample = distribution.getSample(samplingSize)
-- 
2.43.0


From 8a220e08975b1f79681c4fc3d45f31777a0ab039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:56 +0000
Subject: [PATCH 22/32] fix: confusion matrix of AdaptiveHitMissPOD when a
 class is never predicted

---
 otpod/_adaptive_hitmiss_pod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 05374c4..411b361 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -348,7 +348,11 @@ class AdaptiveHitMissPOD(POD):
                 conf_temp = 1.0 * confusion_matrix(
                     self._signals, classifier(self._input)[:, 1] >= 0.5
                 )
-                conf_temp = 1.0 * conf_temp / conf_temp.sum(axis=0)
+                # a class never predicted by the classifier is assumed well predicted
+                conf_sum = conf_temp.sum(axis=0)
+                conf_temp = np.where(
+                    conf_sum > 0, conf_temp / np.maximum(conf_sum, 1.0), np.eye(2)
+                )
                 self._confMat = conf_temp + self._confMat
 
             self._confMat = 1.0 * self._confMat / len(list_classifiers)
-- 
2.43.0


From f4c542fb2ac0886e6604490f4f8704b80203ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 23/32] fix: PLIMean of Uniform marginals far from zero or with
 a mean equal up to rounding (overflow, nan)

---
 otpod/_pli.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..b0b4a17 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -674,20 +674,28 @@ class PLIMeanBase(PLI):
                             + np.exp(lamb * a) * (1 - lamb * a)
                         ) / (lamb * (np.exp(lamb * b) - np.exp(lamb * a))) - delta
 
+                # work on [-1, 1] so that the exponentials do not overflow
                 a, b = marginalDist.getParameter()
+                center = (a + b) / 2
+                scale = (b - a) / 2
                 # compute the optimal lambda solving the M'/M - delta = 0
                 optimalLambda = fsolve(
                     MprimeOverM,
                     0,
-                    args=(a, b, delta),
-                    epsfcn=marginalDist.getStandardDeviation()[0] * 0.01,
+                    args=(-1, 1, (delta - center) / scale),
+                    epsfcn=0.01 / np.sqrt(3),
                 )
 
+                # the new mean is the original one up to rounding errors
+                if optimalLambda[0] == 0:
+                    return np.array(marginalDist.computePDF(X))
+
                 # return the analytical expression of the distribution
                 return (
                     optimalLambda
-                    / (np.exp(optimalLambda * b) - np.exp(optimalLambda * a))
-                    * np.exp(optimalLambda * X)
+                    / (np.exp(optimalLambda) - np.exp(-optimalLambda))
+                    * np.exp(optimalLambda * (X - center) / scale)
+                    / scale
                     * np.logical_and(X <= b, X >= a)
                 )
             else:
-- 
2.43.0


From e9723bf1f94dae6cdd041df37b3eef95270b66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:11 +0000
Subject: [PATCH 24/32] fix: PLIVariance of Uniform marginals depends on their
 location and scale (RuntimeError or wrong density)

---
 otpod/_pli.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index b0b4a17..8c1efdf 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -784,15 +784,15 @@ class PLIVarianceBase(PLI):
             elif marginalDist.getImplementation().getClassName() == "Uniform":
 
                 # set the delta vector which the right hand of the constraints
-                # see eq 10 in Lemaitre paper
-                mean = marginalDist.getMean()[0]
-                deltaRHS = [mean, delta + mean**2]
+                # see eq 10 in Lemaitre paper, for the standardized variable
+                deltaRHS = [0.0, delta / marginalDist.getCovariance()[0, 0]]
 
                 # find the optimal lambda for a given delta values
                 optimalLambda = self.optimizeLambda(marginal, deltaRHS)
                 psi = np.log(self.computeIntegral(marginal, optimalLambda, 0))
+                U = self._standardize(X, marginal)
                 return np.exp(
-                    optimalLambda[0] * X + optimalLambda[1] * X**2 - psi
+                    optimalLambda[0] * U + optimalLambda[1] * U**2 - psi
                 ) * marginalDist.computePDF(X)
             else:
                 raise NotImplementedError(
@@ -810,6 +810,15 @@ class PLIVarianceBase(PLI):
         """
         return self._distribution.getMarginal(marginal).getCovariance()[0, 0]
 
+    def _standardize(self, X, marginal):
+        """
+        Standardized variable, in which the optimization is well conditioned
+        whatever the location and scale of the marginal.
+        """
+        marginalDist = self._distribution.getMarginal(marginal)
+        mean = marginalDist.getMean()[0]
+        return (X - mean) / marginalDist.getStandardDeviation()[0]
+
     def pdfExp(self, X, marginal, lamb, degree):
         """
         Common function used to compute integrals
@@ -823,13 +832,14 @@ class PLIVarianceBase(PLI):
         lamb : sequence of float of dim 2
             The optimization parameters
         degree : int
-            The wanted degree of the X values in the equation.
+            The wanted degree of the standardized X values in the equation.
         """
         X = np.atleast_2d(X)
+        U = self._standardize(X, marginal)
         return (
-            X**degree
+            U**degree
             * np.array(self._distribution.getMarginal(marginal).computePDF(X))
-            * np.exp(lamb[0] * X + lamb[1] * X**2)
+            * np.exp(lamb[0] * U + lamb[1] * U**2)
         )
 
     def computeIntegral(self, marginal, lamb, degree):
@@ -854,7 +864,7 @@ class PLIVarianceBase(PLI):
         lamb : sequence of float of dim 2
             The optimization parameters
         deltaRHS : sequence of float of dim 2
-            The values of the mean and variance + mean^2
+            The values of the mean and variance + mean^2 of the standardized variable
         """
         expPsi = self.computeIntegral(marginal, lamb, 0)
         psi = np.log(expPsi)
@@ -898,7 +908,7 @@ class PLIVarianceBase(PLI):
         marginal : int
             The indice of the perturbed marginal.
         deltaRHS : sequence of float of dim 2
-            The values of the mean and variance + mean^2
+            The values of the mean and variance + mean^2 of the standardized variable
         """
 
         # define the optimization function which the Lagrange function
-- 
2.43.0


From e1f5a33c5ca47d42188275975b4905f222a4ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 25/32] fix: PLI.drawIndices with deltas per parameter or
 integer deltas

---
 otpod/_pli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 8c1efdf..772f064 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -386,7 +386,10 @@ class PLI:
 
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
-            x_support = np.hstack(self._originalDelta.copy())
+            x_support = np.array(
+                self._originalDelta[:, marginal % self._originalDelta.shape[1]],
+                dtype=float,
+            )
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From 9e4d7229861879af6b381dc188c13d2879211951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 26/32] fix: default distribution of PolynomialChaosPOD kept
 from the first run after setDefectSizes

---
 otpod/_polynomial_chaos_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 7a87794..e10a779 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -99,6 +99,7 @@ class PolynomialChaosPOD(POD):
         self._chaosResult = None
         self._samplingSize = 5000
         self._distribution = None
+        self._userDistribution = False
         self._adaptiveStrategy = None
         self._userAdaptiveStrategy = False
         self._projectionStrategy = None
@@ -162,7 +163,7 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
-        elif self._distribution is None:
+        elif not self._userDistribution:
             # default distribution is the one of the given result
             self._distribution = self._chaosResult.getDistribution()
 
@@ -507,6 +508,7 @@ class PolynomialChaosPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
@@ -674,7 +676,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if not self._userDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
-- 
2.43.0


From fc754f10d0356efae19e0a1d0fc42766272b9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 27/32] fix: AdaptiveSignalPOD.getKrigingResult before run
 raises AttributeError

---
 otpod/_adaptive_signal_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 344a197..f59a84f 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -121,6 +121,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         assert self._dim > 1, "Dimension of inputSample must be greater than 1."
 
         self._physicalModel = physicalModel
+        self._krigingResult = None
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
-- 
2.43.0


From f5d08c2d4cca0c6c06d225119dba1a473b082882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 28/32] fix: drawValidationGraph hides the extreme points of
 negative signals

---
 otpod/_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 6dff50d..4d8baa0 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -277,9 +277,11 @@ class POD(object):
         target = np.hstack(target)
         prediction = np.hstack(prediction)
         fig, ax = plt.subplots(figsize=(8, 8))
-        # compute boundaries of the graph assuming target and prediction > 0
-        _min = 0.99 * np.concatenate([target, prediction]).min()
-        _max = 1.01 * np.concatenate([target, prediction]).max()
+        # compute boundaries of the graph
+        _min = np.concatenate([target, prediction]).min()
+        _max = np.concatenate([target, prediction]).max()
+        _min -= 0.01 * abs(_min)
+        _max += 0.01 * abs(_max)
         ax.plot([_min, _max], [_min, _max], "r-", lw=0.5)
         ax.plot(target, prediction, "b.", ms=9)
         ax.grid()
-- 
2.43.0


From 238a9b8fe8900efa65ce925b19af3253f3e9829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 29/32] fix: drawPOD evaluates interpolated POD models beyond
 the last defect size for some nbPt

---
 otpod/_pod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 4d8baa0..c0aa4d0 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -194,10 +194,14 @@ class POD(object):
         if defectMax is None:
             defectMax = self._inputSample.getMax()[0]
 
+        # the abscissas include exactly both bounds: the interpolated models are
+        # not defined beyond them
+        defects = ot.Sample(np.vstack(np.linspace(defectMin, defectMax, nbPt)))
+
         fig, ax = plt.subplots(figsize=(8, 6))
         # POD model graph
         _ = View(
-            PODmodel.draw(defectMin, defectMax, nbPt),
+            ot.Curve(defects, PODmodel(defects)),
             axes=[ax],
             plot_kw={"color": "red", "label": "POD"},
         )
@@ -205,7 +209,7 @@ class POD(object):
         if confidenceLevel is not None:
             # POD at confidence level graph
             _ = View(
-                PODmodelCl.draw(defectMin, defectMax, nbPt),
+                ot.Curve(defects, PODmodelCl(defects)),
                 axes=[ax],
                 plot_kw={
                     "color": "blue",
-- 
2.43.0


From f5e1e43d713baf8287a65a8e439fdf54da56b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 30/32] fix: censored linear regression depends on the units of
 the data

---
 otpod/_math_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 48aa311..0fda3e4 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -373,8 +373,11 @@ def computeLinearParametersCensored(
     # the initial simplex is proportional to the starting point: move the
     # components close to 0, for which it would be degenerated
     start = np.array(initialStartMLE, dtype=float)
-    start[np.abs(start) < 0.1 * np.abs(start[2])] = 0.1 * np.abs(start[2])
-    res = fmin(func, start, disp=0, full_output=1, maxiter=500)
+    step = 0.1 * np.abs(start[2]) * np.array([1.0, 1.0 / np.max(np.abs(defects)), 1.0])
+    start = np.where(np.abs(start) < step, step, start)
+    # the tolerance on the parameters must not exceed their order of magnitude
+    xtol = 1e-4 * min(1.0, np.abs(start[2]))
+    res = fmin(func, start, xtol=xtol, disp=0, full_output=1, maxiter=500)
     if res[4] == 2:
         ot.Log.Show(ot.Log.WARN)
         ot.Log.Warn(
-- 
2.43.0


From 128facf613bba0304edeeb4c7d8929718579f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 31/32] fix: an iteration graph whose probability level is not
 attained does not abort the adaptive run

---
 otpod/_adaptive_hitmiss_pod.py |  4 +++-
 otpod/_adaptive_signal_pod.py  |  4 +++-
 otpod/_pod.py                  | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 411b361..82275f5 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -396,7 +396,9 @@ class AdaptiveHitMissPOD(POD):
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                fig, ax = self._drawCurrentPOD(
+                    self._probabilityLevel, self._confidenceLevel
+                )
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index f59a84f..c6aca68 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -409,7 +409,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                fig, ax = self._drawCurrentPOD(
+                    self._probabilityLevel, self._confidenceLevel
+                )
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
diff --git a/otpod/_pod.py b/otpod/_pod.py
index c0aa4d0..4663306 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -260,6 +260,20 @@ class POD(object):
         ax.set_ylabel("POD")
         return fig, ax
 
+    def _drawCurrentPOD(self, probabilityLevel, confidenceLevel):
+        """
+        Draw the POD curves at an iteration of an adaptive algorithm.
+
+        The current POD may not reach the wanted probability level: this must not
+        stop the algorithm, the curves are then drawn without the detection sizes.
+        """
+        if probabilityLevel is not None:
+            try:
+                self.computeDetectionSize(probabilityLevel, confidenceLevel)
+            except Exception:
+                probabilityLevel = None
+        return self.drawPOD(probabilityLevel, confidenceLevel)
+
     def _drawValidationGraph(self, target, prediction):
         """
         Draw the validation graph of the metamodel.
-- 
2.43.0


From ff2eb2f21e1ad8fc3c79c05d1df0efa3aec82edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 32/32] fix: the progress bar of the adaptive hit miss POD
 always reaches its end

---
 otpod/_adaptive_hitmiss_pod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 82275f5..8137d20 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -385,7 +385,12 @@ class AdaptiveHitMissPOD(POD):
             self._classifierModel = f_iter
 
             if self._verbose:
-                updateProgress(n_added_points - 1, self._nMorePoints, "Adding points")
+                # the last iteration may exceed the number of points to add
+                updateProgress(
+                    min(n_added_points, self._nMorePoints) - 1,
+                    self._nMorePoints,
+                    "Adding points",
+                )
 
             if self._graph:
                 self._PODPerDefect = self._computePOD(self._defectSizes, agg_classifier)
-- 
2.43.0

