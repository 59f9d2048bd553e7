From 8d03d6e4c927e8ea908bc4e210a16afeccf68071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 01/30] fix: check value count before reading structural
 parameters of StateSpace

The index was advanced before the count check, so setting exactly one
value always failed and a short array was read past its end.
---
 StateSpace/model.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..e7ebc1c 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,7 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +271,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +278,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +285,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From 82bd8ce0a67a5a7a2e970bdf84a2e0699e12dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 02/30] fix: return StateSpace matrix B with n rows and m
 columns

Get used m x n while set and the model description use n x m.
---
 StateSpace/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index e7ebc1c..ea13e68 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From 0787e6e9b26c46c311f18655a37b270c7b641489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 03/30] fix: multiply StateSpace matrix B with all m inputs

The product ran over the number of outputs instead of inputs.
---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index ea13e68..92fb908 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
-- 
2.43.0


From 806109379347e1544ddcb43177bdea6d7b412664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 04/30] fix: reset StateSpace initial state vector to its start
 values

x0 kept the values set before a reset.
---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 92fb908..19542e1 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,7 +27,7 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
-        M(x)[i] = M(x0)[i];
+        M(x0)[i] = 0;
         M(x)[i] = 0;
     }
 
-- 
2.43.0


From 1b81e28e25e5aafbfe71c7f25d60cde7a13a4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 05/30] fix: calculate Roberts event indicator variables g1 and
 g2

Reading them always returned 0.
---
 Roberts/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..f7431a7 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
-- 
2.43.0


From e0a297dce5da4531c883f2cdeec69b97e331016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 06/30] fix: check value count before inspecting values in
 setters

The range checks of Stair and Feedthrough read past the end of a values
array that was too short.
---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..bb1b504 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -767,11 +767,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -791,11 +791,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..f7667e0 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,12 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From ea6a06fb58ff51c63abf65e09516485e28eb10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:56 +0000
Subject: [PATCH 07/30] fix: refuse to set the output Boolean_output of
 Feedthrough

---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index bb1b504..18d847e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -746,10 +746,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 469144ddd3fdf3ae41375209403b5b40ad2fb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 08/30] fix: reject missing values and sizes arrays in fmi3Set*
 and fmi3GetBinary

A null array was dereferenced by Clocks and by the binary functions.
---
 src/fmi3Functions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..1ae2b8c 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -69,6 +69,7 @@ END_FUNCTION()
 BEGIN_FUNCTION(Set ## T); \
 if (nValueReferences == 0) goto TERMINATE; \
 ASSERT_NOT_NULL(valueReferences); \
+if (nValues > 0) ASSERT_NOT_NULL(values); \
 size_t index = 0; \
 for (size_t i = 0; i < nValueReferences; i++) { \
     CALL(set ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \
@@ -560,6 +561,7 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
     }
 
     if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
         ASSERT_NOT_NULL(values);
     }
 
@@ -701,6 +703,11 @@ fmi3Status fmi3SetBinary(fmi3Instance instance,
 
     ASSERT_NOT_NULL(valueReferences);
 
+    if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
+        ASSERT_NOT_NULL(values);
+    }
+
     size_t index = 0;
 
     for (size_t i = 0; i < nValueReferences; i++) {
-- 
2.43.0


From b78f54d336e20b8d99d29ff13362754249bdbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 09/30] fix: check the number of values in fmi3GetBinary

All other fmi3Get* functions return an error if nValues is too large.
---
 src/fmi3Functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 1ae2b8c..cbc2752 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -576,6 +576,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
-- 
2.43.0


From 972e5e2c198d79ea1c893d7d548b3c09dc32aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 10/30] fix: reject missing arrays in fmi2GetBoolean and
 fmi2SetBoolean

The other fmi2Get* and fmi2Set* functions check them.
---
 src/fmi2Functions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..d47fba8 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,6 +73,9 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
-- 
2.43.0


From 0898d728df016b63d76cefbf309168d4dcdae8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 11/30] fix: report failures of the FMI 2.0 FMU state functions

A missing state and a failed allocation were ignored or crashed.
---
 src/fmi2Functions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index d47fba8..fbc6228 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -373,13 +373,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
@@ -423,6 +423,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory for FMUstate.");
+            return fmi2Error;
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
-- 
2.43.0


From 8def01d0b7a955389b312863e2793b32d2a8331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 12/30] fix: clear event information and communication point on
 reset

A pending termination request of the previous run ended the first step
after a reset.
---
 src/cosimulation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..d894498 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -161,9 +161,18 @@ Status reset(ModelInstance* comp) {
 
     comp->state = Instantiated;
     comp->startTime = 0.0;
+    comp->stopTime = 0.0;
     comp->time = 0.0;
+    comp->nextCommunicationPoint = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0;
+    comp->clocksTicked = false;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From f48ae1b6754d97d000e2cb76b4a2ca25cad72eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:58 +0000
Subject: [PATCH 13/30] fix: release the instance when instantiation runs out
 of memory

---
 src/cosimulation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index d894498..99ae37e 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,9 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
-- 
2.43.0


From bf5ae2732271ab3c588d4c1165ae8ef39a34d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:44 +0000
Subject: [PATCH 14/30] fix: refuse a communication step size that is not a
 number

The step never reached its end.
---
 src/fmi2Functions.c | 2 +-
 src/fmi3Functions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index fbc6228..d36d289 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -520,7 +520,7 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {
         logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
         CALL(Error);
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index cbc2752..8ef6323 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1221,7 +1221,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {
         logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
         CALL(Error);
     }
-- 
2.43.0


From f2156ca6fe079d299bfe16a5b202b6e8501413cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:44 +0000
Subject: [PATCH 15/30] fix: do not treat infinite values as close to finite
 ones

An infinite communication point or step size passed the argument checks.
---
 src/cosimulation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 99ae37e..3b7898d 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -196,6 +196,11 @@ bool isClose(double a, double b) {
         return true;
     }
 
+    // an infinite value is not close to any other value
+    if (fmiAbs(a - b) > DBL_MAX) {
+        return false;
+    }
+
     return fmiAbs(a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));
 }
 
-- 
2.43.0


From e7c0ca44e94543be6fc8b82ccc80cda356d3461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:44 +0000
Subject: [PATCH 16/30] fix: report a failed event update during fmi3DoStep

---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 8ef6323..0eaa96a 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1252,7 +1252,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            eventUpdate(S);
+            CALL(eventUpdate(S));
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From 87a83873ab398466f455de6274ae4c2ce0a5f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:49 +0000
Subject: [PATCH 17/30] fix: refuse co-simulation instances of FMUs that do not
 support co-simulation

fmi3InstantiateCoSimulation returned an instance of Clocks although its
model description only declares scheduled execution.
---
 src/fmi3Functions.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 0eaa96a..680457a 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -303,6 +303,20 @@ fmi3Instance fmi3InstantiateCoSimulation(
     UNUSED(requiredIntermediateVariables);
     UNUSED(nRequiredIntermediateVariables);
 
+#ifndef CO_SIMULATION
+    UNUSED(instanceName);
+    UNUSED(instantiationToken);
+    UNUSED(resourcePath);
+    UNUSED(loggingOn);
+    UNUSED(eventModeUsed);
+    UNUSED(earlyReturnAllowed);
+    UNUSED(instanceEnvironment);
+    UNUSED(logMessage);
+    UNUSED(intermediateUpdate);
+
+    return NULL;
+#else
+
 #ifndef EVENT_UPDATE
     if (eventModeUsed) {
         if (logMessage) {
@@ -329,6 +343,7 @@ fmi3Instance fmi3InstantiateCoSimulation(
     }
 
     return instance;
+#endif
 }
 
 fmi3Instance fmi3InstantiateScheduledExecution(
-- 
2.43.0


From 0690149008393db1b763b0c672e71f53deca2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:49 +0000
Subject: [PATCH 18/30] fix: skip log message if there is no memory for its
 buffer

The message was formatted into a null buffer.
---
 src/cosimulation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 3b7898d..7aaf90c 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -301,6 +301,10 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
 
     va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+    if (!buf) {
+        va_end(args1);
+        return;
+    }
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
-- 
2.43.0


From 47a37ba521c17a190a5c56688a46df362b438feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:49 +0000
Subject: [PATCH 19/30] fix: refuse resource locations that do not fit the path
 buffer

A location of MAX_PATH_LENGTH or more characters left the path without a
terminator, so strlen() and strncat() ran past the buffer. Slightly
shorter ones opened a truncated path.
---
 Resource/model.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..1beb531 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -34,6 +34,11 @@ Status calculateValues(ModelInstance *comp) {
         return Error;
     }
 
+    if (strlen(comp->resourceLocation) + strlen("/y.txt") >= MAX_PATH_LENGTH) {
+        logError(comp, "Resource location is too long.");
+        return Error;
+    }
+
 #ifdef _WIN32
 
 #if FMI_VERSION < 3
-- 
2.43.0


From 43f531e3cf6d95451f5cff69b744cc93edea833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:18 +0000
Subject: [PATCH 20/30] fix: do not call a missing clock update callback in
 Clocks

The other callbacks are checked before they are called.
---
 Clocks/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..2f41d3f 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -39,7 +39,7 @@ static void activateModelPartition1(ModelInstance* comp, double time) {
 
     M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
 
-    if (M(inClock3_qualifier) == 2 || M(outClock)) {
+    if (comp->clockUpdate && (M(inClock3_qualifier) == 2 || M(outClock))) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -72,7 +72,7 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (comp->clockUpdate && M(outClock)) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -111,7 +111,7 @@ static void activateModelPartition3(ModelInstance *comp, double time) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (comp->clockUpdate && M(outClock)) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
-- 
2.43.0


From 4a665f0a92a218b1d304b3226f95a7522c5f69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:35 +0000
Subject: [PATCH 21/30] fix: report an unreadable resource file when reading y

The status of the calculation was ignored, so a stale value was returned
without an error if the file could no longer be read.
---
 Resource/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Resource/model.c b/Resource/model.c
index 1beb531..ec7f33a 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -152,7 +152,11 @@ Status getInt32(ModelInstance* comp, ValueReference vr, int32_t values[], size_t
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
+    const Status status = calculateValues(comp);
+
+    if (status != OK) {
+        return status;
+    }
 
     switch (vr) {
         case vr_y:
-- 
2.43.0


From bdb55578cdf5065ebf2da950f72ec3a0547fa2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:37 +0000
Subject: [PATCH 22/30] fix: do not instantiate an FMI 3.0 model exchange FMU
 with missing functions

FMI3InstantiateModelExchange() called into the library although a required
function could not be loaded.
---
 src/FMI3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..f6fa6d1 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -260,7 +260,9 @@ FMIStatus FMI3InstantiateModelExchange(
     fmi3Boolean  visible,
     fmi3Boolean  loggingOn) {
 
-    const FMIStatus status = loadSymbols3(instance);
+    if (loadSymbols3(instance) != FMIOK) {
+        return FMIFatal;
+    }
 
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
@@ -294,7 +296,7 @@ FMIStatus FMI3InstantiateModelExchange(
     instance->interfaceType = FMIModelExchange;
     instance->state = FMIInstantiatedState;
 
-    return status;
+    return FMIOK;
 }
 
 FMIStatus FMI3InstantiateCoSimulation(
-- 
2.43.0


From 3301b873f154a828d0300c12b4fa2a74f80fbd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:37 +0000
Subject: [PATCH 23/30] fix: report missing library functions without a message
 logger

The logger of an importer instance is optional, but was called
unconditionally when a function was missing in the shared library.
---
 src/FMI2.c | 8 ++++++--
 src/FMI3.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..9da20b9 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +55,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index f6fa6d1..0ccfe42 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +47,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From 7a3327a6e4ca09a074d0009af07e43cfe614975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:37 +0000
Subject: [PATCH 24/30] fix: load fmi3SetShiftDecimal and fmi3SetShiftFraction

FMI3SetShiftDecimal() and FMI3SetShiftFraction() called a null pointer.
---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 0ccfe42..4ffba3e 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -213,6 +213,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 46cc476d005c143451cf6d773afc86b06b139214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:37 +0000
Subject: [PATCH 25/30] fix: track step mode in the importer

FMI3EnterStepMode() left the recorded state in event mode.
---
 src/FMI3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 4ffba3e..607e259 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1150,6 +1150,9 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+
+    instance->state = FMIStepModeState;
+
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From a50ddb68c931a3a1a9f2550c0272f7b11a2ce0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:37 +0000
Subject: [PATCH 26/30] fix: return NULL if an importer instance cannot be
 allocated completely

A failed allocation of the log buffer or the name left an unusable instance.
---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..0aa6825 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -110,6 +110,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->status = FMIOK;
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     return instance;
 }
 
-- 
2.43.0


From 6c14e38e8653a69d2f9de7771d21f6c8366e0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:53 +0000
Subject: [PATCH 27/30] fix: grow the call log buffer far enough and only if
 memory is available

Text that exactly filled the buffer lost its last character, an array
element that exactly filled it was retried forever, and the recorded size
was wrong after a failed reallocation.
---
 src/FMI.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 0aa6825..ff0fd28 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -211,14 +211,18 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t newSize = instance->logMessageBufferSize;
+
+        while (newSize <= instance->logMessageBufferPosition + length) {
+            newSize *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, newSize) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = newSize;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -324,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t newSize = instance->logMessageBufferSize;
+
+            while (newSize <= instance->logMessageBufferPosition + requiredCharacters) {
+                newSize *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, newSize) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = newSize;
+
             continue;
         }
 
-- 
2.43.0


From 91bb4089f098cf2ad33f497e6913d4aa836e24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:53 +0000
Subject: [PATCH 28/30] fix: percent-encode control and non-ASCII characters
 with two digits

Bytes above 0x7F were sign-extended to eight digits and overran the URI,
bytes below 0x10 were padded with a blank.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index ff0fd28..326b5fe 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -396,7 +396,7 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
         }
 
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From 8bfb30d7361bb822aaae44477c5d40fa5e80f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:53 +0000
Subject: [PATCH 29/30] fix: do not read before an empty unzip directory

FMIPlatformBinaryPath() accessed the character before an empty string.
---
 src/FMI.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 326b5fe..8c8db6a 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -413,7 +413,8 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const size_t length = strlen(unzipdir);
+    const char last = length > 0 ? unzipdir[length - 1] : '/';
 
     if (last != '/' && last != '\\') {
         separator = FMI_FILE_SEPARATOR;
-- 
2.43.0


From 353260bfe619d25fe42ebc736a7c5bdd7f96f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:53 +0000
Subject: [PATCH 30/30] fix: pass the logged values of SetDebugLogging calls

The log text had placeholders without values.
---
 src/FMI2.c | 2 +-
 src/FMI3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 9da20b9..e9d5c84 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -127,7 +127,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 607e259..77db9b0 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -114,7 +114,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0

