From 5d444375effb0a07d986ded8af70e0203b2e39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 01/15] fix: counterstrategy extraction takes the specification
 first and the output file second

The output file name was taken from the front of the list in the constructor, i.e. before the
specification was read: 'slugs --counterStrategy spec out' opened 'out' as the specification and
used the specification as the output file, and without any file name an empty list was accessed.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..8d2198c 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,11 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
-- 
2.43.0


From 718f8335da8b773b1142bbcfade08a2b8c5155e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 02/15] fix: reject formula buffers without elements and
 recalls of elements not stored yet

'$ 0' accessed element -1 of the buffer, and '?' could recall an element that is only
stored later, which yields a BF without BDD node and crashes. Both are now reported.
---
 src/extensionNondeterministicMotion.hpp | 8 ++++----
 src/synthesisContextBasics.cpp          | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..c61a52e 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -70,16 +70,16 @@ public:
         if (operation=="$") {
             unsigned nofElements;
             is >> nofElements;
-            if (is.fail()) {
+            if (is.fail() || nofElements==0) {
                 SlugsException e(false);
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs));
             }
-            return memoryNew[nofElements-1];
+            return memoryNew.back();
         }
 
         // Memory Functionality - Recall from Buffer
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..2fc7a4b 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -38,16 +38,16 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
     if (operation=="$") {
         unsigned nofElements;
         is >> nofElements;
-        if (is.fail()) {
+        if (is.fail() || nofElements==0) {
             SlugsException e(false);
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(parseBooleanFormulaRecurse(is,allowedTypes,memoryNew));
         }
-        return memoryNew[nofElements-1];
+        return memoryNew.back();
     }
 
     // Memory Functionality - Recall from Buffer
-- 
2.43.0


From cfe0d5e9e98bbfddcc84fc3d77b388f553f9daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 03/15] fix: report standard exceptions as errors instead of
 aborting

The BDD manager reports problems when reading or writing BDD files by throwing
std::runtime_error, which main did not catch: '--symbolicStrategy spec /nonexistent/out' aborted.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 792b039..c26ca71 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (const std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From 46479b36a14a93ddb00db64640fdf95d02aa354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 04/15] fix: reject variables declared twice when reading
 non-deterministic motion specifications

All other specification readers report this. Here the second declaration was silently ignored in
formulas while its variable took part in all quantifications.
---
 src/extensionNondeterministicMotion.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index c61a52e..c5febb0 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -329,6 +329,10 @@ public:
             }
         }
 
+        // Check if variable names have been used twice
+        std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
+        if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
+
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
         for (int i=variables.size()-1;i>=0;i--) {
-- 
2.43.0


From 5e5d00360756483b434cbe3a4944c15c311b4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 05/15] fix: let the system choose its other outputs in the
 non-deterministic motion game

The next values of the variables in [OTHER OUTPUT] were never quantified, so that the set of winning
positions depended on them: '[SYS_TRANS] o'' ended in an internal error, and '! ^ o' a'' was
reported to be unrealizable although the system can simply copy the input.
---
 src/extensionNondeterministicMotion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index c5febb0..41de1fc 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -35,7 +35,7 @@ protected:
     SlugsVectorOfVarBFs postMotionStateVars{PostMotionState,this};
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
-    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
-- 
2.43.0


From 6a2f123e77a220113361f65b6a9a6320d7c57d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 06/15] fix: report malformed BDD files instead of crashing

Dddmp_cuddBddLoad returns NULL if the file cannot be read, which was dereferenced.
---
 src/BFAbstractionLibrary/BFCuddManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..a961331 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -146,6 +146,11 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
     delete[] idMatcher;
+    if (node == NULL) {
+        std::ostringstream os;
+        os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - The file '" << filename << "' does not contain a valid BDD.";
+        throw std::runtime_error(os.str().c_str());
+    }
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
-- 
2.43.0


From 31dfd39e29ac9906595f0d25bd1d0e140455077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 07/15] fix: report output files that could not be written
 completely

---
 src/BFAbstractionLibrary/BFCuddManager.cpp      | 2 +-
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index a961331..d188453 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -191,7 +191,7 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+    if (fclose(file)!=0) throw "Error: Unable to write BDD to file.";
 
     if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
 
diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 8d2198c..dac6ebf 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
-- 
2.43.0


From 165ac16f8c206ff80997f4e151e30491ea994d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 08/15] fix: initialize the result of the interleaving analysis

---
 src/extensionInterleave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..0d44964 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
-- 
2.43.0


From bcc3e9b9aadc4acfb608c82e67c2db189ade18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 09/15] fix: list only outputs that can be set first in the
 interleaving analysis

---
 src/extensionInterleave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 0d44964..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From 1978c58a95d8f9da3c2af2e8f4273c723cc7e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 10/15] fix: report cost lines without a separating space

---
 src/extensionTwoDimensionalCost.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..21ec6c8 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -188,7 +188,7 @@ public:
                 if (nextLine[0]=='#') {
                     // Pass
                 } else {
-                    unsigned int spaceIndex = nextLine.find(" ");
+                    size_t spaceIndex = nextLine.find(" ");
                     if (spaceIndex==std::string::npos) {
                         std::cerr << "Error: Cannot read line'" << nextLine << "' from the input file - expecting space-separated cost value (floating point number) in front of the line.\n";
                         throw "Terminated.";
-- 
2.43.0


From db7c760216bffa85ecab3a371f3040cd43cb2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 11/15] fix: let environment assumptions about the next motion
 state restrict the outcomes of a motion

With an [ENV_TRANS] line that mentions a primed motion state variable, that
variable was never abstracted from the winning positions, so that the verdict
was an internal error or computed from a renamed variable.
---
 src/extensionNondeterministicMotion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 41de1fc..b549d40 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -410,11 +410,11 @@ public:
                             foundPaths = livetransitions | (nu0.getValue().SwapVariables(varVectorPre,varVectorPost) & !(livenessAssumptions[i]));
                             foundPaths &= safetySys;
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPreRobot.dot");
-                            foundPaths = robotAllowedMoves & robotBDD.Implies(foundPaths).UnivAbstract(varCubePostMotionState);
+                            foundPaths = robotAllowedMoves & (robotBDD & safetyEnv).Implies(foundPaths).UnivAbstract(varCubePostMotionState);
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPostRobot.dot");
 
                             // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
-                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).UnivAbstract(varCubePostInput));
+                            nu0.update(safetyEnv.ExistAbstract(varCubePostMotionState).Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).UnivAbstract(varCubePostInput));
                         }
 
                         // Update the set of positions that are winning for some liveness assumption
-- 
2.43.0


From 12cd0c6c3f33a558c5e39f98db42a1d13f3d71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 12/15] fix: do not assume away the initial motion states that
 [ENV_INIT] excludes

The verdict only required SOME initial motion state for which the environment
initialisation implies a win, so any specification whose [ENV_INIT] part
mentions the motion state was reported as realizable.
---
 src/extensionNondeterministicMotion.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index b549d40..aebb503 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -446,15 +446,13 @@ public:
         BF result;
         if (initSpecialRoboticsSemantics) {
             if (!initSys.isTrue()) std::cerr << "Warning: Initialisation guarantees have been given although these are ignored in semantics-for-robotics mode! \n";
-            result = initEnv.Implies(winningPositions.UnivAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
+            result = initEnv.Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput);
 
         } else {
-            result = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
+            // The initial motion state may be restricted by both initialisation conditions
+            result = initEnv.ExistAbstract(varCubePreOutput).Implies((winningPositions & initEnv & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
         }
 
-        // Get rid of the PreMotionState
-        result = result.ExistAbstract(varCubePreMotionState);
-
         // Check if the result is well-defind. Might fail after an incorrect modification of the above algorithm
         if (!result.isConstant()) {
             BF_newDumpDot(*this,result,NULL,"/tmp/isRealizable.dot");
-- 
2.43.0


From e04fdf6aaed77ebb8fcfed8733322d47595763b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 13/15] fix: prevent the goal for which a position was found to
 be winning first in explicit counterstrategies

---
 ...xtensionExtractExplicitCounterstrategy.hpp | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index dac6ebf..604c7b7 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -119,7 +119,17 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         }
         positionalStrategiesForTheIndividualGoals[i] = strategy;
     }
-    
+
+    // Every position has to be left with the goal for which it was found to be winning first: a later strategy for
+    // another goal may lead back to the position, so that switching between them makes no progress.
+    std::vector<BF> positionsToBePlayedForGoal(livenessGuarantees.size(),mgr.constantFalse());
+    BF positionsWithGoal = mgr.constantFalse();
+    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+        BF newPositions = boost::get<2>(*it).ExistAbstract(varCubePost) & !positionsWithGoal;
+        positionsToBePlayedForGoal[boost::get<1>(*it)] |= newPositions;
+        positionsWithGoal |= newPositions;
+    }
+
     // Prepare initial to-do list from the allowed initial states. Select a single initial input valuation.
 
     // TODO: Support for non-special-robotics semantics
@@ -127,11 +137,11 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     while (!(todoInit.isFalse())) {
         BF concreteState = determinize(todoInit,preVars);
         
-        //find which liveness guarantee is being prevented (finds the first liveness in order specified)
+        // Find which liveness guarantee is being prevented
         // Note by Ruediger here: Removed "!livenessGuarantees[j]" as condition as it is non-positional
         unsigned int found_j_index = 0;
         for (unsigned int j=0;j<livenessGuarantees.size();j++) {
-            if (!(concreteState & positionalStrategiesForTheIndividualGoals[0][j]).isFalse()) {
+            if (!(concreteState & positionsToBePlayedForGoal[j]).isFalse()) {
                 found_j_index = j;
                 break;
             }
@@ -194,11 +204,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     firstTry = false;
                 }
                 unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
+                bool guaranteeSatisfied = !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse());
 
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
@@ -206,6 +212,16 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 // We don't need the pre information from the point onwards anymore.
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // If the guarantee to be prevented has been satisfied, the successor position has been found to be winning earlier
+                if (guaranteeSatisfied) {
+                    for (unsigned int j=0;j<livenessGuarantees.size();j++) {
+                        if (!(newCombination & positionsToBePlayedForGoal[j]).isFalse()) {
+                            nextLivenessGuarantee = j;
+                            break;
+                        }
+                    }
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From eba416b921ceb3b8151e7251bee493ec10f919dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 14/15] fix: keep the partial quotient referenced while the
 next one is computed in ZDD division

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 70 ++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..71fe8ec 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -794,9 +794,9 @@ cuddZddWeakDiv(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -806,17 +806,22 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -833,9 +838,9 @@ cuddZddWeakDiv(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -843,16 +848,20 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1029,9 +1038,9 @@ cuddZddWeakDivF(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -1041,17 +1050,22 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1068,9 +1082,9 @@ cuddZddWeakDivF(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -1078,16 +1092,20 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1170,6 +1188,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1180,6 +1199,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
@@ -1267,6 +1287,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1277,6 +1298,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
-- 
2.43.0


From 5e9eec4dc9732c75c2bfe72f2ba119aa488783e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 15/15] fix: release intermediate diagrams when composition,
 permutation, decomposition, residue and matrix operations give up

---
 lib/cudd-3.0.0/cudd/cuddAddWalsh.c |  1 +
 lib/cudd-3.0.0/cudd/cuddCompose.c  |  8 +++++++-
 lib/cudd-3.0.0/cudd/cuddDecomp.c   | 10 ++++++++--
 lib/cudd-3.0.0/cudd/cuddMatMult.c  |  1 +
 lib/cudd-3.0.0/cudd/cuddSolve.c    |  1 +
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..c51da76 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -219,6 +219,7 @@ Cudd_addResidue(
 		for (j = 0; j < m; j++) {
 		    Cudd_RecursiveDeref(dd,array[previous][j]);
 		}
+		Cudd_RecursiveDeref(dd,var);
 		FREE(array[0]);
 		FREE(array[1]);
 		return(NULL);
diff --git a/lib/cudd-3.0.0/cudd/cuddCompose.c b/lib/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..a095389 100644
--- a/lib/cudd-3.0.0/cudd/cuddCompose.c
+++ b/lib/cudd-3.0.0/cudd/cuddCompose.c
@@ -698,6 +698,7 @@ Cudd_addNonSimCompose(
 	piece = Cudd_addApply(dd,Cudd_addXnor,var,vector[i]);
 	if (piece == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,var);
 	    return(NULL);
 	}
@@ -706,6 +707,7 @@ Cudd_addNonSimCompose(
 	tmp = Cudd_addApply(dd,Cudd_addTimes,key,piece);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,piece);
 	    return(NULL);
 	}
@@ -1074,7 +1076,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
diff --git a/lib/cudd-3.0.0/cudd/cuddDecomp.c b/lib/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..27f288c 100644
--- a/lib/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/lib/cudd-3.0.0/cudd/cuddDecomp.c
@@ -617,9 +617,15 @@ Cudd_bddVarConjDecomp(
         int i, est1, est0, est;
 	i = scan->index;
 	est1 = Cudd_EstimateCofactor(dd,f,i,1);
-        if (est1 == CUDD_OUT_OF_MEM) return(0);
+        if (est1 == CUDD_OUT_OF_MEM) {
+	    Cudd_RecursiveDeref(dd,support);
+	    return(0);
+	}
 	est0 = Cudd_EstimateCofactor(dd,f,i,0);
-        if (est0 == CUDD_OUT_OF_MEM) return(0);
+        if (est0 == CUDD_OUT_OF_MEM) {
+	    Cudd_RecursiveDeref(dd,support);
+	    return(0);
+	}
 	/* Minimize the size of the larger of the two cofactors. */
 	est = (est1 > est0) ? est1 : est0;
 	if (est < min) {
diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..3d0ba4f 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -180,6 +180,7 @@ Cudd_addTimesPlus(
 	 w = Cudd_addIte(dd,z[i],cube,DD_ZERO(dd));
 	 if (w == NULL) {
 	    Cudd_RecursiveDeref(dd,tmp);
+	    Cudd_RecursiveDeref(dd,cube);
 	    return(NULL);
 	 }
 	 Cudd_Ref(w);
diff --git a/lib/cudd-3.0.0/cudd/cuddSolve.c b/lib/cudd-3.0.0/cudd/cuddSolve.c
index c1af278..3f8b930 100644
--- a/lib/cudd-3.0.0/cudd/cuddSolve.c
+++ b/lib/cudd-3.0.0/cudd/cuddSolve.c
@@ -327,6 +327,7 @@ cuddVerifySol(
 	if (w) {
 	    cuddRef(w);
 	} else {
+	    Cudd_RecursiveDeref(bdd,R);
 	    return(NULL); 
 	}
 	Cudd_RecursiveDeref(bdd,R);
-- 
2.43.0

