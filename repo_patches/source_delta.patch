From 92440bf201320df00981b79a66b711c9c6160d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 01/39] fix: do not modify a user-supplied prior array during a
 fit

_computePrior normalised the array in place and returned it as the running
forward distribution, so each fit overwrote the prior of the observation
model and a repeated fit gave a different model evidence.
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..6ba35ea 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -207,6 +207,7 @@ class Study(object):
         # check whether correctly shaped numpy array is provided
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
+                prior = prior.astype(float)  # copy, as the array supplied by the user must not be altered
                 norm = np.sum(prior)
                 if norm != 1.:
                     prior /= norm
-- 
2.43.0


From f5ea5b079e5dbc7ec9a6bc3ba2627bb1d002074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 02/39] fix: querying a hyper-parameter distribution must not
 rescale it

With a single hyper-parameter (two for the joint distribution) nothing is
marginalised, the result is a view of the stored distribution, and every
query multiplied the stored values by the hyper-grid constant.
---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 6ba35ea..aa27680 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1566,7 +1566,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
@@ -1642,7 +1642,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
@@ -2756,7 +2756,7 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
-- 
2.43.0


From 13a92f6eea6c1522f3196b8c78d9461966d79783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:58 +0000
Subject: [PATCH 03/39] fix: plotting must not set small posterior values to
 zero

For models with one parameter the marginal sequence is a view of the stored
posterior sequence, which the clean-up of image artefacts then modified.
---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index aa27680..999d41a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1043,7 +1043,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 006994f24b1bccaed307d61cae4dc50786a1ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 04/39] fix: return a copy of the current transition model
 distribution

The live array was returned, which the next step overwrites with
unnormalised log-values.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 999d41a..66b073d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2396,9 +2396,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From 0f99c5b36ad41840226e383471352869db923cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:03 +0000
Subject: [PATCH 05/39] fix: OnlineStudy.getParameterMeanValue used a single
 slice of the posterior

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 66b073d..3d3a926 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2541,7 +2541,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 3fd1abfdb03d44fc58ba7a5b58a09b00e2835078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:07 +0000
Subject: [PATCH 06/39] fix: past hyper-parameter distributions of an online
 study are probabilities

OnlineStudy.getHyperParameterDistribution(t, ...) returned the stored density
(a view of it for a single hyper-parameter) instead of the probability values
that it documents and that getCurrentHyperParameterDistribution returns. The
time-averaged variant failed for transition models of different size.
---
 bayesloop/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3d3a926..820ad04 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2683,23 +2683,24 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.sum([hp[tmIndex] for hp in self.hyperParameterSequence], axis=0) / \
+                                         len(self.hyperParameterSequence)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 7cf96d6b3b27bab62f596b2b1b260d940be681a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:09 +0000
Subject: [PATCH 07/39] fix: a failing query must not break an online study

The history of the study was converted to arrays in place while a query was
running. If the query failed (wrong time step or parameter name), the lists
were not restored and the next step raised an AttributeError.
---
 bayesloop/core.py | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 820ad04..a7eab81 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2250,16 +2250,12 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To get past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
-        # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorSequence = np.array(self.posteriorSequence)
-
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        # plotting function of Study class can only handle arrays, not lists; the study itself is left unchanged
+        S = copy(self)
+        S.formattedTimestamps = np.array(self.formattedTimestamps)
+        S.posteriorSequence = np.array(self.posteriorSequence)
 
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
-        return x, p
+        return Study.getParameterDistribution(S, t, name, plot=plot, density=density, **kwargs)
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
         """
@@ -2341,16 +2337,12 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To get past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
-        # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorSequence = np.array(self.posteriorSequence)
-
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        # plotting function of Study class can only handle arrays, not lists; the study itself is left unchanged
+        S = copy(self)
+        S.formattedTimestamps = np.array(self.formattedTimestamps)
+        S.posteriorSequence = np.array(self.posteriorSequence)
 
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
-        return x, p
+        return Study.getParameterDistributions(S, name, plot=plot, density=density, **kwargs)
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
         """
@@ -2373,17 +2365,13 @@ class OnlineStudy(HyperStudy):
             raise PostProcessingError('To plot past parameter distributions, Online Study must be called with flag'
                                       '"storeHistory=True". Use "getCurrentParameterDistribution" instead.')
 
-        # plotting function of Study class can only handle arrays, not lists
-        self.formattedTimestamps = np.array(self.formattedTimestamps)
-        self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
-        self.posteriorSequence = np.array(self.posteriorSequence)
-
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        # plotting function of Study class can only handle arrays, not lists; the study itself is left unchanged
+        S = copy(self)
+        S.formattedTimestamps = np.array(self.formattedTimestamps)
+        S.posteriorMeanValues = np.array(self.posteriorMeanValues).T
+        S.posteriorSequence = np.array(self.posteriorSequence)
 
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        Study.plotParameterEvolution(S, name, color=color, gamma=gamma, **kwargs)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 709aafc09c6750e520811f620d9ad04266e6c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:30 +0000
Subject: [PATCH 08/39] fix: restore the hyper-parameter values of the user
 after a hyper-study fit

An interrupted fit left a single combination of hyper-parameter values in the
transition model, so that the next fit silently analysed only this one. A
completed fit replaced the value 'all' of a change/break-point by the time
stamps of the data at hand, so that a fit of other data used stale ones.
---
 bayesloop/core.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a7eab81..1c8ac6a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1348,24 +1348,30 @@ class HyperStudy(Study):
                 else:
                     enum = enumerate(self.hyperGridValues)
 
-                for i, hyperParamValues in enum:
-                    self._setSelectedHyperParameters(hyperParamValues)
-
-                    # call fit method from parent class
-                    Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
-
-                    self.logEvidenceList.append(self.logEvidence)
-                    self.localEvidenceList.append(self.localEvidence)
-
-                    if (not evidenceOnly) and np.isfinite(self.logEvidence):
-                        # For numerical stability, zeros in posterior distribution are replaced with small constant.
-                        # Note that this is typically only the case for hyper-parameter values with low likelihood. The
-                        # procedure therefore has no (measurable) effect on the average posterior sequence.
-                        self.posteriorSequence[self.posteriorSequence < 10.**-300] = 10.**-300
-                        self.averagePosteriorSequence = np.logaddexp(self.averagePosteriorSequence,
-                                                                     np.log(self.posteriorSequence) +
-                                                                     self.logEvidence +
-                                                                     np.log(self.flatHyperPriorValues[i]))
+                # individual hyper-parameter values are set during fitting; the values set by the user have to be
+                # restored afterwards, even if the fit is interrupted
+                userHyperParameters = self._unpackAllHyperParameters()
+                try:
+                    for i, hyperParamValues in enum:
+                        self._setSelectedHyperParameters(hyperParamValues)
+
+                        # call fit method from parent class
+                        Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+
+                        self.logEvidenceList.append(self.logEvidence)
+                        self.localEvidenceList.append(self.localEvidence)
+
+                        if (not evidenceOnly) and np.isfinite(self.logEvidence):
+                            # For numerical stability, zeros in posterior distribution are replaced with small constant.
+                            # Note that this is typically only the case for hyper-parameter values with low likelihood.
+                            # The procedure therefore has no (measurable) effect on the average posterior sequence.
+                            self.posteriorSequence[self.posteriorSequence < 10.**-300] = 10.**-300
+                            self.averagePosteriorSequence = np.logaddexp(self.averagePosteriorSequence,
+                                                                         np.log(self.posteriorSequence) +
+                                                                         self.logEvidence +
+                                                                         np.log(self.flatHyperPriorValues[i]))
+                finally:
+                    self._setAllHyperParameters(userHyperParameters)
 
                 # remove progressbar correctly
                 if not silent:
@@ -1426,9 +1432,6 @@ class HyperStudy(Study):
             # clear localEvidenceList (to keep file size small for stored studies)
             self.localEvidenceList = []
 
-            # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
-
             if not silent:
                 print('+ Finished fit.')
 
-- 
2.43.0


From 7a28eb3d79ec47c10d385569fdd1c03b61592939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 09/39] fix: an interrupted optimization restores the start
 values

The transition model kept the hyper-parameter values of the last evaluation
and the list of selected hyper-parameters was not reset.
---
 bayesloop/core.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1c8ac6a..aa0b236 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -534,18 +534,23 @@ class Study(object):
             raise ConfigurationError('No parameters to optimize. Check parameter names.')
 
         # perform optimization (maximization of log-evidence)
-        result = minimize(self._optimizationStep, x0, method='COBYLA', **kwargs)
-
-        print('+ Finished optimization.')
+        try:
+            result = minimize(self._optimizationStep, x0, method='COBYLA', **kwargs)
 
-        # set optimal hyperparameters in transition model
-        self._setSelectedHyperParameters(result.x)
+            print('+ Finished optimization.')
 
-        # run analysis with optimal parameter values
-        self.fit(forwardOnly=forwardOnly)
+            # set optimal hyperparameters in transition model
+            self._setSelectedHyperParameters(result.x)
 
-        # reset list of parameters to optimize, so that unpacking and setting hyper-parameters works as expected
-        self.selectedHyperParameters = []
+            # run analysis with optimal parameter values
+            self.fit(forwardOnly=forwardOnly)
+        except BaseException:
+            # restore start values if optimization is interrupted
+            self._setSelectedHyperParameters(x0)
+            raise
+        finally:
+            # reset list of parameters to optimize, so that unpacking and setting hyper-parameters works as expected
+            self.selectedHyperParameters = []
 
     def _optimizationStep(self, x):
         """
-- 
2.43.0


From 6672ced0f8de294ddf5b06ceba3dc96807cc4d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 10/39] fix: pass the current time to the transition models of
 an online study

The time was computed from an attribute that is never filled by an online
study and thus was always -1, so that change-points, break-points and
deterministic models never saw the actual time step.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index aa0b236..1118bcb 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2174,7 +2174,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From e3dc9aa0bbba5584eb833d1d5fd98511b8096996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 11/39] fix: a failing online step leaves the study unchanged

If the likelihood function or a transition model raised an exception (or the
step was interrupted), the data point and its time stamp had already been
stored, and repeating the step counted it twice.
---
 bayesloop/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1118bcb..4d8eb50 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2073,6 +2073,25 @@ class OnlineStudy(HyperStudy):
         """
         Update the current parameter distribution by adding a new data point to the data set.
 
+        Args:
+            dataPoint(float, int, ndarray): Float, int, or 1D-array of those (for multidimensional data).
+        """
+        # keep the current state of the study, so that a step that fails can be repeated
+        backup = {key: value[:] if isinstance(value, list) else value for key, value in self.__dict__.items()}
+        for key in ['logEvidenceList', 'hyperLogEvidenceList', 'parameterPosterior', 'hyperParameterDistribution',
+                    'transitionModelDistribution', 'localTransitionModelDistribution', 'transitionModelPosterior']:
+            backup[key] = deepcopy(backup[key])
+
+        try:
+            self._step(dataPoint)
+        except BaseException:
+            self.__dict__.update(backup)
+            raise
+
+    def _step(self, dataPoint):
+        """
+        Carries out the update for the method "step".
+
         Args:
             dataPoint(float, int, ndarray): Float, int, or 1D-array of those (for multidimensional data).
         """
-- 
2.43.0


From 741de6a2347a67cf5d374fb37738c5bb17116d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 12/39] fix: an online step restores the hyper-parameter values
 of its models

The transition models were left with the last combination of hyper-parameter
values, so that another study which uses the same transition model instance
analysed only this one.
---
 bayesloop/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4d8eb50..3a3fc8e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2083,7 +2083,15 @@ class OnlineStudy(HyperStudy):
             backup[key] = deepcopy(backup[key])
 
         try:
-            self._step(dataPoint)
+            try:
+                self._step(dataPoint)
+            finally:
+                # restore hyper-parameter values (individual values are set during the step)
+                current = self.transitionModel
+                for tm, values in zip(self.transitionModels, self.allFlatHyperParameterValues):
+                    self.transitionModel = tm
+                    self._setAllHyperParameters(values)
+                self.transitionModel = current
         except BaseException:
             self.__dict__.update(backup)
             raise
-- 
2.43.0


From 1f976cdb986f4c783680032b183342d4dd5c0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:47 +0000
Subject: [PATCH 13/39] fix: bind the transition model to the study that is
 being fitted

When two studies share a transition model instance, the first one used the
parameter grid of the other one.
---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3a3fc8e..23141f4 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -344,6 +344,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # the transition model may have been used by another study (or another parameter grid) in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 77df5cc35e3251247d43386715547855a6044948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 14/39] fix: a fit with zero evidence must not leave
 uninitialised or stale values

If the forward pass stops early, the local evidence (which also enters the
average of a hyper-study) and the posterior sequence contained uninitialised
memory, and the posterior mean values were those of a previous fit.
---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 23141f4..c329d8b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -358,11 +358,12 @@ class Study(object):
 
         # initialize array for posterior distributions
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
+            self.posteriorMeanValues = []
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From 7df9105635f99d6c27778a8f1545ab01a7a96e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 15/39] fix: use default time stamps if the supplied ones are
 omitted

The time stamps of a previously loaded data set were kept (or none at all).
---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c329d8b..dcfafda 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From 9014937195db92edc78942680a570ff0a2661c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:56 +0000
Subject: [PATCH 16/39] fix: Bernoulli model must not modify the parameter grid

Slicing an array does not copy it.
---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..11da539 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,7 +427,7 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
+        temp = grid[0].copy()  # make copy of parameter grid
         temp[temp > 1.] = 0.  # p < 1
         temp[temp < 0.] = 0.  # p > 0
 
-- 
2.43.0


From e9fb886e2daf6072bcd83543f35966b78086767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:59 +0000
Subject: [PATCH 17/39] fix: re-setting the prior must not modify the parameter
 grid

A prior function that returns one of its arguments hands out the parameter
grid itself, which was then normalised in place. The factor also covers prior
functions that return a number, as in Study._computePrior.
---
 bayesloop/transitionModels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..f006032 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -300,7 +300,7 @@ class ChangePoint(TransitionModel):
         if t == self.hyperParameterValues[0]:
             # check if custom prior is used by observation model
             if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
+                prior = self.study.observationModel.prior(*self.study.grid)*np.ones(self.study.gridSize)
             elif isinstance(self.study.observationModel.prior, np.ndarray):
                 prior = deepcopy(self.study.observationModel.prior)
             else:
@@ -349,7 +349,7 @@ class Independent(TransitionModel):
         """
         # check if custom prior is used by observation model
         if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
+            prior = self.study.observationModel.prior(*self.study.grid)*np.ones(self.study.gridSize)
         elif isinstance(self.study.observationModel.prior, np.ndarray):
             prior = deepcopy(self.study.observationModel.prior)
         else:
@@ -801,7 +801,7 @@ class SerialTransitionModel(TransitionModel):
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
             # check if custom prior is used by observation model
             if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
+                prior = self.study.observationModel.prior(*self.study.grid)*np.ones(self.study.gridSize)
             elif isinstance(self.study.observationModel.prior, np.ndarray):
                 prior = deepcopy(self.study.observationModel.prior)
             else:
-- 
2.43.0


From a21ec4d09231548874b2a64a7cba06837cf1a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:02 +0000
Subject: [PATCH 18/39] fix: do not modify user-supplied hyper-prior arrays

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index dcfafda..c57c188 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1220,7 +1220,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, the values supplied by the user are not altered
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From f991869970db67824c2d100eb2f1092d7848cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:05 +0000
Subject: [PATCH 19/39] fix: create a new convolution kernel if the parameter
 grid changes

The kernels of the alpha-stable and the bivariate random walk were cached for
given hyper-parameter values only and re-used for another parameter grid.
---
 bayesloop/transitionModels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f006032..eff2ac2 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,10 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, list(self.latticeConstant), list(self.study.gridSize),
+                            list(self.study.observationModel.parameterNames)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +186,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -881,13 +883,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, list(self.latticeConstant)]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 25964fe512407de862dbd6d64291499ec9ad5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 20/39] fix: accept integer transition model priors

The normalisation of an integer array failed, but the array without
normalisation stayed in place and was used by subsequent steps.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c57c188..7f3c2a5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2066,7 +2066,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From 1635a706e459a782b3653b5e3df8c6d15ef36eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 21/39] fix: a rejected observation model leaves the study
 unchanged

If the parameter values could not be estimated, the study kept the rejected
model together with an incomplete parameter grid.
---
 bayesloop/core.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7f3c2a5..eae2575 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -136,17 +136,15 @@ class Study(object):
             L: Observation model class (see observationModels.py)
             silent(bool): If set to True, no output is generated by this method.
         """
-        self.observationModel = L
-
-        # prepare parameter grid
-        self.marginalGrid = []
-        self.gridSize = []
-        self.boundaries = []
-        self.latticeConstant = []
-        for v, n in zip(self.observationModel.parameterValues, self.observationModel.parameterNames):
+        # prepare parameter grid (attributes are only set if the complete grid can be created)
+        marginalGrid = []
+        gridSize = []
+        boundaries = []
+        latticeConstant = []
+        for v, n in zip(L.parameterValues, L.parameterNames):
             if v is None:  # if user has not specified parameter values, we try to estimate them
                 try:
-                    v = self.observationModel.estimateParameterValues(n, self.rawData)
+                    v = L.estimateParameterValues(n, self.rawData)
                     print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
                           .format(n, v[0], v[-1], len(v)))
                 except:
@@ -154,20 +152,27 @@ class Study(object):
 
             v = np.array(v, dtype=float)  # inference algorithm needs floats
 
-            self.marginalGrid.append(v)
-            self.gridSize.append(len(v))
-            self.boundaries.append([v[0], v[-1]])
+            marginalGrid.append(v)
+            gridSize.append(len(v))
+            boundaries.append([v[0], v[-1]])
 
             # check if parameter values are equally spaced
             if np.any(np.abs(np.diff(np.diff(v))) > 10 ** -10):
                 print('! WARNING: Supplied parameter values for "{}" are not equally spaced. Assuming categorical '
                       'parameter.'.format(n))
-                self.latticeConstant.append(1.)
+                latticeConstant.append(1.)
             else:  # equally spaced (regular grid)
-                self.latticeConstant.append(np.abs(v[0] - v[1]))
+                latticeConstant.append(np.abs(v[0] - v[1]))
 
         # create grid
-        self.grid = [m for m in np.meshgrid(*self.marginalGrid, indexing='ij')]
+        grid = [m for m in np.meshgrid(*marginalGrid, indexing='ij')]
+
+        self.observationModel = L
+        self.marginalGrid = marginalGrid
+        self.gridSize = gridSize
+        self.boundaries = boundaries
+        self.latticeConstant = latticeConstant
+        self.grid = grid
 
         # if observation model is updated, transition model must know the new lattice constant
         if self.transitionModel is not None:
-- 
2.43.0


From ee3e45effe26ffadc15367024be09fdcdcb084bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:16 +0000
Subject: [PATCH 22/39] fix: a failing save must not destroy the study saved
 before

The existing file was truncated before the study was pickled, so that a study
that cannot be pickled, a full disk or a crash left an unreadable file.
---
 bayesloop/fileIO.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/bayesloop/fileIO.py b/bayesloop/fileIO.py
index 5fa3a32..e629c4a 100644
--- a/bayesloop/fileIO.py
+++ b/bayesloop/fileIO.py
@@ -4,6 +4,9 @@ The following functions save or load instances of all `Study` types using the Py
 """
 
 from __future__ import division, print_function
+import os
+import shutil
+import uuid
 import cloudpickle
 
 
@@ -15,8 +18,25 @@ def save(filename, study):
         filename(str): Path + filename to store bayesloop study
         study: Instance of study class (Study, HyperStudy, etc.)
     """
-    with open(filename, 'wb') as f:
-        cloudpickle.dump(study, f)
+    target = os.path.realpath(os.fsdecode(filename))
+    if os.path.exists(target) and not os.path.isfile(target):  # devices, pipes etc. cannot be replaced
+        with open(target, 'wb') as f:
+            cloudpickle.dump(study, f)
+    else:
+        # write a temporary file first, so that an existing file is only ever replaced by a complete one
+        temp = os.path.join(os.path.dirname(target), '.bayesloop-' + uuid.uuid4().hex)
+        try:
+            with open(temp, 'wb') as f:
+                cloudpickle.dump(study, f)
+                f.flush()
+                os.fsync(f.fileno())
+            if os.path.exists(target):
+                shutil.copymode(target, temp)
+            os.replace(temp, target)
+        except BaseException:
+            if os.path.exists(temp):
+                os.remove(temp)
+            raise
     print('+ Successfully saved current study.')
 
 
-- 
2.43.0


From 2a8fe395d52daa3b516663231375e5f83457efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:03 +0000
Subject: [PATCH 23/39] fix: a transition model ruled out by the data must not
 invalidate the online study

---
 bayesloop/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index eae2575..28140df 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2203,6 +2203,11 @@ class OnlineStudy(HyperStudy):
 
             # loop over all hyper-parameter values to fit
             for j, x in enumerate(hpv):
+                # skip hyper-parameter values that have been ruled out by previous data points
+                if np.isneginf(self.logEvidenceList[i][j]):
+                    self.hyperParameterDistribution[i][j] = -np.inf
+                    continue
+
                 # set current hyper-parameter values
                 if x is not None:
                     self._setAllHyperParameters(x)
@@ -2219,8 +2224,8 @@ class OnlineStudy(HyperStudy):
                 self.logEvidenceList[i][j] += np.log(ni)
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
+                # store parameter posterior (contains only zeros if data point has zero probability)
+                self.parameterPosterior[i][j] = alphai/ni if ni != 0. else 0.
 
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
@@ -2229,6 +2234,13 @@ class OnlineStudy(HyperStudy):
             self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
                                                        np.log(self.transitionModelPrior[i])
 
+            # transition models that are ruled out by the data do not contribute
+            if np.isneginf(self.hyperLogEvidenceList[i]):
+                self.localTransitionModelDistribution[i] = -np.inf
+                self.hyperParameterDistribution[i] = np.zeros(self.tmCounts[i])
+                self.transitionModelPosterior[i] = 0.
+                continue
+
             # normalize hyper-parameter distribution of current transition model
             self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
             self.hyperParameterDistribution[i] = np.exp(self.hyperParameterDistribution[i])
-- 
2.43.0


From d84df75033822763d6c7fde1dcaf956d79a9e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:35 +0000
Subject: [PATCH 24/39] fix: rejected time stamps leave the loaded data
 unchanged

---
 bayesloop/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 28140df..cbc8526 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -100,24 +100,27 @@ class Study(object):
             silent(bool): If set to True, no output is generated by this method.
         """
         if isinstance(array, np.ndarray):
-            self.rawData = array
+            rawData = array
         elif isinstance(array, list):
             if not silent:
                 print('! WARNING: Data supplied as list, not as Numpy array. Converting list to Numpy array '
                       '(dtype=float).')
-            self.rawData = np.array(array, dtype=float)
+            rawData = np.array(array, dtype=float)
         else:
             raise ConfigurationError('Data type not supported. Please provide data as Numpy array.')
 
         if timestamps is not None:  # load custom timestamps
             if len(timestamps) == len(array):
-                self.rawTimestamps = np.array(timestamps)
+                rawTimestamps = np.array(timestamps)
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
-                self.rawTimestamps = np.arange(len(self.rawData))
+                rawTimestamps = np.arange(len(rawData))
         else:  # set default timestamps (integer range)
-            self.rawTimestamps = np.arange(len(self.rawData))
+            rawTimestamps = np.arange(len(rawData))
+
+        self.rawData = rawData
+        self.rawTimestamps = rawTimestamps
 
         if not silent:
             print('+ Successfully imported array.')
-- 
2.43.0


From 2fad5c89a1334bdcb9a0c441a10f828a19fd47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 25/39] fix: a rejected transition model leaves the study
 unchanged

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index cbc8526..a8631e7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -287,9 +287,9 @@ class Study(object):
             raise ConfigurationError('The "BreakPoint" transition model can only be used with the '
                                      '"SerialTransitionModel" class.')
 
+        T.study = self
+        T.latticeConstant = self.latticeConstant
         self.transitionModel = T
-        self.transitionModel.study = self
-        self.transitionModel.latticeConstant = self.latticeConstant
         if not silent:
             print('+ Transition model: {}. Hyper-Parameter(s): {}'
                   .format(T, self._unpackAllHyperParameters(values=False)))
-- 
2.43.0


From 2c60c07124c504b0b46617b97fc40ae3a2b0d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:43 +0000
Subject: [PATCH 26/39] fix: models are set together or not at all

---
 bayesloop/core.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a8631e7..911e123 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -319,23 +319,30 @@ class Study(object):
 
         om = False
         tm = False
+        backup = self.__dict__.copy()
 
-        for model in args:
-            if ObservationModel in model.__class__.__bases__:
-                if om:
-                    raise ConfigurationError('More than one observation model supplied.')
-                om = True
-                self.setObservationModel(model, silent=silent)
+        try:
+            for model in args:
+                if ObservationModel in model.__class__.__bases__:
+                    if om:
+                        raise ConfigurationError('More than one observation model supplied.')
+                    om = True
+                    self.setObservationModel(model, silent=silent)
 
-            elif TransitionModel in model.__class__.__bases__:
-                if tm:
-                    raise ConfigurationError('More than one transition model supplied.')
+                elif TransitionModel in model.__class__.__bases__:
+                    if tm:
+                        raise ConfigurationError('More than one transition model supplied.')
 
-                tm = True
-                self.setTransitionModel(model, silent=silent)
+                    tm = True
+                    self.setTransitionModel(model, silent=silent)
 
-            else:
-                raise ConfigurationError('Expected observation model or transition model instance as first argument.')
+                else:
+                    raise ConfigurationError('Expected observation model or transition model instance as first '
+                                             'argument.')
+        except Exception:
+            # if one of the models is rejected, none of them is set
+            self.__dict__.update(backup)
+            raise
 
     def fit(self, forwardOnly=False, evidenceOnly=False, silent=False):
         """
-- 
2.43.0


From a941408ad2c6bf92a0f027f96c11c9e985e9df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 27/39] fix: a rejected transition model is not used by the
 online study

---
 bayesloop/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 911e123..02fb7bd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2029,8 +2029,13 @@ class OnlineStudy(HyperStudy):
                 S.addTransitionModel(bl.tm.GaussianRandomWalk('sigma', [0, 0.1, 0.2, 0.3], target='lambda'))
         """
         # extract hyper-parameter values and names
-        self.setTransitionModel(transitionModel, silent=True)
-        self._createHyperGrid(silent=True)
+        previousModel = self.transitionModel
+        try:
+            self.setTransitionModel(transitionModel, silent=True)
+            self._createHyperGrid(silent=True)
+        except Exception:
+            self.transitionModel = previousModel
+            raise
 
         self.transitionModels.append(transitionModel)
         self.transitionModelNames.append(name)
-- 
2.43.0


From 0f8fc082195a3aa1b8e641fc2f0540d12354ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 28/39] fix: an interrupted parallel fit must not leave a
 closed process pool

---
 bayesloop/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 02fb7bd..68e08f9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1354,10 +1354,13 @@ class HyperStudy(Study):
                                       [silent]*nJobs)
 
                 # prevent memory pile-up in main process
-                pool.close()
-                pool.join()
-                pool.terminate()
-                pool.restart()
+                try:
+                    pool.close()
+                    pool.join()
+                finally:
+                    # a pool that remains closed (e.g. after an interrupt) could not be used by the next fit
+                    pool.terminate()
+                    pool.restart()
 
                 # merge all sub-studies
                 for S in subStudies:
-- 
2.43.0


From 3548cc746948a4c9969f80d16448e4d776d66b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 29/39] fix: online hyper-parameter distributions for
 transition models that also have single values

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 68e08f9..8b226ff 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2761,7 +2761,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [np.size(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
@@ -2820,7 +2820,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [np.size(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
-- 
2.43.0


From 53bc2cd4e0bbc8b1a7eb64c3083b4d943a45d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:54 +0000
Subject: [PATCH 30/39] fix: transition models must not produce negative
 probabilities

---
 bayesloop/transitionModels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index eff2ac2..fed10e8 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -189,6 +189,7 @@ class AlphaStableRandomWalk(TransitionModel):
             self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
+        newPrior[newPrior < 0.] = 0.  # the kernel may oscillate on coarse grids
         newPrior /= np.sum(newPrior)
         return newPrior
 
@@ -576,6 +577,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may overshoot
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -601,6 +603,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # spline interpolation may overshoot
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 15f6b0f6d5cc149ab2c1da7911474541631346ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:15 +0000
Subject: [PATCH 31/39] fix: NotEqual must not turn a uniform distribution into
 NaN

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index fed10e8..3694006 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -465,7 +465,9 @@ class NotEqual(TransitionModel):
         limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        norm = np.sum(newPrior)
+        if norm > 0.:  # uniform distributions stay uniform
+            newPrior /= norm
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From ffbe2fbf812951ec1ac8ee0749f5ec9f30df4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:41 +0000
Subject: [PATCH 32/39] fix: parallel fits in different threads must not share
 a process pool

Pools of pathos are shared by all fits with the same number of processes: the
fit that ended first closed the pool of the others ("Pool not running").
---
 bayesloop/core.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8b226ff..82620b3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -9,6 +9,7 @@ data streams.
 
 from __future__ import division, print_function
 import string
+import uuid
 import numpy as np
 import matplotlib.pyplot as plt
 from scipy.optimize import minimize
@@ -1342,25 +1343,25 @@ class HyperStudy(Study):
                 # prepare parallel execution
                 if not silent:
                     print('    + Creating {} processes.'.format(nJobs))
-                pool = ProcessPool(nodes=nJobs)
-
-                # use parallelFit method to create copies of this HyperStudy instance with only partial
-                # hyper-grid values
-                subStudies = pool.map(self._parallelFit,
-                                      range(nJobs),
-                                      [nJobs]*nJobs,
-                                      [forwardOnly]*nJobs,
-                                      [evidenceOnly]*nJobs,
-                                      [silent]*nJobs)
-
-                # prevent memory pile-up in main process
+                # pools without an ID of their own are shared with fits in other threads
+                pool = ProcessPool(nodes=nJobs, id=uuid.uuid4().hex)
+
                 try:
+                    # use parallelFit method to create copies of this HyperStudy instance with only partial
+                    # hyper-grid values
+                    subStudies = pool.map(self._parallelFit,
+                                          range(nJobs),
+                                          [nJobs]*nJobs,
+                                          [forwardOnly]*nJobs,
+                                          [evidenceOnly]*nJobs,
+                                          [silent]*nJobs)
+
+                    # prevent memory pile-up in main process
                     pool.close()
                     pool.join()
                 finally:
-                    # a pool that remains closed (e.g. after an interrupt) could not be used by the next fit
                     pool.terminate()
-                    pool.restart()
+                    pool.clear()
 
                 # merge all sub-studies
                 for S in subStudies:
-- 
2.43.0


From 4b077508c9ec08b729eb1e35727c953016b61ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:42 +0000
Subject: [PATCH 33/39] fix: an unfinished convolution kernel must not be used

If the computation of a new kernel was interrupted, the incomplete kernel was
taken for the one of the previous hyper-parameter values.
---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 3694006..95c8513 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -171,6 +171,7 @@ class AlphaStableRandomWalk(TransitionModel):
         kernelParameters = [self.hyperParameterValues, list(self.latticeConstant), list(self.study.gridSize),
                             list(self.study.observationModel.parameterNames)]
         if not self.kernelParameters == kernelParameters:
+            self.kernelParameters = None  # kernel is not valid until it is complete
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -891,6 +892,7 @@ class BivariateRandomWalk(TransitionModel):
         # if hyper-parameter values or parameter grid have changed, a new convolution kernel needs to be created
         kernelParameters = [self.hyperParameterValues, list(self.latticeConstant)]
         if not self.kernelParameters == kernelParameters:
+            self.kernelParameters = None  # kernel is not valid until it is complete
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
-- 
2.43.0


From 8dceefbf73ff6c7a148c84643cc108506cf17137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:44 +0000
Subject: [PATCH 34/39] fix: a transition model must not keep the time offset
 of a serial model

A transition model that was part of a SerialTransitionModel before still used
the time of its break-point as offset when it was set on its own.
---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 82620b3..c8dfa18 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -290,6 +290,7 @@ class Study(object):
 
         T.study = self
         T.latticeConstant = self.latticeConstant
+        T.tOffset = 0
         self.transitionModel = T
         if not silent:
             print('+ Transition model: {}. Hyper-Parameter(s): {}'
@@ -364,6 +365,7 @@ class Study(object):
         # the transition model may have been used by another study (or another parameter grid) in the meantime
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
+        self.transitionModel.tOffset = 0
 
         if not silent:
             print('+ Started new fit:')
-- 
2.43.0


From 33a0322336ff361d03fc61d4f82d261757f21210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 35/39] fix: OnlineStudy.getPD ignored the argument "density"

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c8dfa18..979dea9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2340,7 +2340,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
-- 
2.43.0


From 618a67212d6cda9d07325b40ff3ea1d7e4e6f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 36/39] fix: getParameterDistributions failed for studies with
 a single time step

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 979dea9..18c8db2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -982,7 +982,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1007,7 +1007,8 @@ class Study(object):
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
         marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize),
+            axis=tuple(axesToMarginalize)).copy()
 
         if density:
             marginalPosteriorSequence /= dx
-- 
2.43.0


From 424bc65a66f5a3cf65d1c6b03e633e4c01539a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:44 +0000
Subject: [PATCH 37/39] fix: a list of correlation values replaced the values
 of sigma2 in BivariateRandomWalk

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 95c8513..17257cc 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -863,7 +863,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 50cc1e906e9490bfb6cb648101d0c84657ef8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:49 +0000
Subject: [PATCH 38/39] fix: hyper-priors of deterministic transition models
 were dropped if passed as a list

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 17257cc..3a72043 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -544,6 +544,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 39d80a7cc45a1a6c0874c502dde5bb440417d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:45 +0000
Subject: [PATCH 39/39] fix: SymPy observation models accept the (deprecated)
 dictionary of parameter values again

The names and values were stored as views of the dictionary: they have no index, so parameters could not be found by
name, and they cannot be pickled, so such studies could neither be saved nor fitted in parallel.
---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 11da539..6d88766 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -322,8 +322,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0

