From 0d7b18c5dfe41397a273314c6e8788c9ef7ffc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 01/74] fix: evaluate the zero order before
 JacobianFor/JacobianRev in the dense Jacobian source

With a forced AD mode the dense Jacobian was generated from whatever zero
order coefficients were stored in the tape (often variables of another, already
deleted, CodeHandler).
---
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index d6f5085..6ad3646 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -43,10 +43,13 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     vector<CGBase> jac(n * m);
     if (_jacMode == JacobianADMode::Automatic) {
         jac = _fun.Jacobian(indVars);
-    } else if (_jacMode == JacobianADMode::Forward) {
-        JacobianFor(_fun, indVars, jac);
     } else {
-        JacobianRev(_fun, indVars, jac);
+        _fun.Forward(0, indVars); // JacobianFor() and JacobianRev() use the stored zero order coefficients
+        if (_jacMode == JacobianADMode::Forward) {
+            JacobianFor(_fun, indVars, jac);
+        } else {
+            JacobianRev(_fun, indVars, jac);
+        }
     }
 
     finishedJob();
-- 
2.43.0


From 106cdc782b1b66721e49709720d7e25772f51451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 02/74] fix: AtomicDependencyLocator must not assume that the
 independents are the first nodes of the handler

The CodeHandler constructor creates two nodes of its own, so that directional
derivative sources could not be generated without the zero order source (failed
assertion; wrong independent indexes without assertions).
---
 include/cppad/cg/atomic_dependency_locator.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/atomic_dependency_locator.hpp b/include/cppad/cg/atomic_dependency_locator.hpp
index 4ae2389..1cb6ff2 100644
--- a/include/cppad/cg/atomic_dependency_locator.hpp
+++ b/include/cppad/cg/atomic_dependency_locator.hpp
@@ -70,8 +70,10 @@ public:
         std::vector<CG<Base> > x(n);
         handler_.makeVariables(x);
 
-        // make sure the position in the code handler is the same as the independent index
-        assert(x.size() == 0 || (x[0].getOperationNode()->getHandlerPosition() == 0 && x[x.size() - 1].getOperationNode()->getHandlerPosition() == x.size() - 1));
+        // the position in the code handler is not the independent index (the handler has nodes of its own)
+        for (size_t j = 0; j < n; j++) {
+            indeps_[x[j].getOperationNode()].insert(j);
+        }
 
         std::vector<CG<Base> > dep = fun_.Forward(0, x);
 
@@ -97,10 +99,7 @@ private:
 
         CGOpCode op = node->getOperationType();
         if (op == CGOpCode::Inv) {
-            std::set<size_t> indeps;
-            // particular case where the position in the code handler is the same as the independent index
-            indeps.insert(node->getHandlerPosition());
-            return indeps;
+            return indeps_.at(node);
         }
 
         if (handler_.isVisited(*node)) {
-- 
2.43.0


From 12d99db0fe6c17cafa78f214115d43d4b16a53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 03/74] fix: names created for operation nodes must not survive
 the source generation

A node which was a temporary variable (or a dependent) in one call to
CodeHandler::generateCode() kept its old name in the next call with the same
handler when it was used only once (for instance with a limited number of
operations per assignment) or when it was a dependent, so that the generated
code could read or write the wrong variable.
---
 include/cppad/cg/code_handler_impl.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index c4b8217..a3ba1cd 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -444,8 +444,26 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
                                                                                           _totalUseCount, _scope, *_auxIterationIndexOp,
                                                                                           _zeroDependents));
 
+    // names created by the language for the nodes are only valid for the current source code
+    // (variable IDs can change the next time source code is generated with this handler)
+    std::map<Node*, std::string> userNames;
+    for (Node* n : _codeBlocks) {
+        if (n->getName() != nullptr)
+            userNames[n] = *n->getName();
+    }
+
     lang.generateSourceCode(out, std::move(_info));
 
+    for (Node* n : _codeBlocks) {
+        if (n->getName() != nullptr) {
+            auto itName = userNames.find(n);
+            if (itName == userNames.end())
+                n->clearName();
+            else
+                n->setName(itName->second);
+        }
+    }
+
     /**
      * clean-up
      */
-- 
2.43.0


From 8fbf7e8aa007ab162a97729e5a68eba4b10663d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 04/74] fix: sparse directional requests must accept directions
 without structural effect

The sparse ForwardOne/ReverseOne/ReverseTwo called the generated function for
directions for which no source exists, which reports an error.
---
 include/cppad/cg/model/functor_generic_model.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..ae7980c 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -489,6 +489,8 @@ public:
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
             (*_forwardOneSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no effect
 
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -555,6 +557,8 @@ public:
         for (size_t ei = 0; ei < pyNnz; ei++) {
             size_t i = idx[ei];
             (*_reverseOneSparsity)(i, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no effect
 
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -627,6 +631,8 @@ public:
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
             (*_reverseTwoSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no effect
 
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
-- 
2.43.0


From ddf4554852854c09a40aa4631fb5248392e7a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 05/74] fix: zero the compressed results before directional
 requests, models with loops add to them

---
 include/cppad/cg/model/functor_generic_model.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index ae7980c..1e2abe3 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -491,6 +491,7 @@ public:
             (*_forwardOneSparsity)(j, &pos, &nnz);
             if (nnz == 0)
                 continue; // no effect
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops add to their results
 
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -559,6 +560,7 @@ public:
             (*_reverseOneSparsity)(i, &pos, &nnz);
             if (nnz == 0)
                 continue; // no effect
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops add to their results
 
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -633,6 +635,7 @@ public:
             (*_reverseTwoSparsity)(j, &pos, &nnz);
             if (nnz == 0)
                 continue; // no effect
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops add to their results
 
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
-- 
2.43.0


From 8fac32e7ce048331511bfabd0af76ca34f5b9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 06/74] fix: loop indexes must not become temporary variables
 when assignments are split

---
 include/cppad/cg/lang/c/language_c.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..979f58f 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1110,7 +1110,9 @@ protected:
                     op == CGOpCode::IndexAssign ||
                     op == CGOpCode::Assign ||
                     opCount >= _maxOperationsPerAssignment) &&
-                    op != CGOpCode::CondResult;
+                    op != CGOpCode::CondResult &&
+                    op != CGOpCode::Index &&
+                    op != CGOpCode::IndexDeclaration;
         }
     }
 
-- 
2.43.0


From 028edb8d812965473db15aa739cb22f5577460da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 07/74] fix: dependents postponed by the iteration sorter of
 loops must still be assigned to an iteration

---
 include/cppad/cg/patterns/loop.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 825894b..1ad59d9 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -428,11 +428,10 @@ public:
 
             DependentIndexSorter depSorter(group, freeDependents, dep2Equation);
 
-            auto itDep = dependents.begin();
             size_t i = 0; // iteration counter
-            while (itDep != dependents.end()) {
-                size_t dep = *itDep;
-                itDep++;
+            while (!dependents.empty()) {
+                // a dependent remains in the set until it is placed (a different dependent might have to go first)
+                size_t dep = *dependents.begin();
 
                 if (iterationDependents_.size() <= i)
                     iterationDependents_.resize(i + 1);
@@ -453,7 +452,6 @@ public:
                 if (pos >= 0) {
                     // assign the dependent to the first iteration with all its relationships
                     for (size_t dep2 : linkedDependents[pos]) {
-                        if (dep2 == *itDep) itDep++; //make sure the iterator is valid
                         itDepi.insert(dep2);
                         ritDepi.insert(dep2);
                         dependents.erase(dep2);
@@ -473,11 +471,12 @@ public:
                     long posN = group.findNonIndexedLinkedRel(eq);
                     if (posN >= 0) {
                         // there are only non-indexed shared relations with other equations (delay processing...)
-                        dependents.erase(dep); // safe because of itDep++
+                        dependents.erase(dep);
                         nIndexedGroupPos2Eq2deps[posN][eq].insert(dep);
                     } else {
                         itDepi.insert(dep);
                         ritDepi.insert(dep);
+                        dependents.erase(dep);
 
                         std::vector<size_t>& eqFreeDep = freeDependents[eq];
                         auto itFreeDep = find(eqFreeDep.begin(), eqFreeDep.end(), dep); // consider using lower_bound instead
-- 
2.43.0


From c829781ca91b412d97e8d787479b481a0a454a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 08/74] fix: constant dependents cannot belong to an equation
 pattern

---
 include/cppad/cg/patterns/equation_pattern.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/patterns/equation_pattern.hpp b/include/cppad/cg/patterns/equation_pattern.hpp
index cc93376..699aef9 100644
--- a/include/cppad/cg/patterns/equation_pattern.hpp
+++ b/include/cppad/cg/patterns/equation_pattern.hpp
@@ -249,7 +249,7 @@ private:
         }
 
         if (dep1.isParameter() && dep2.isParameter()) {
-            return dep1.getValue() == dep2.getValue();
+            return false; // there are no operations to place in a loop
 
         } else if (dep1.isVariable() && dep2.isVariable()) {
             OperationNode<Base>* depRefOp = dep1.getOperationNode();
-- 
2.43.0


From c1ed263a1415b4caf17b7ec80c1c0d4e12e58259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 09/74] fix: declare the index of loops whose body does not use
 it

---
 include/cppad/cg/code_handler_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index a3ba1cd..b229ffe 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -901,6 +901,10 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
             if (inode.isDefinedLocally()) {
                 _loops.indexes.insert(&inode.getIndex());
             }
+        } else if (op == CGOpCode::LoopStart) {
+            // the iteration index must be declared even when nothing inside the loop uses it
+            _loops.indexes.insert(&static_cast<const LoopStartOperationNode<Base>&> (code).getIndex());
+
         } else if (op == CGOpCode::LoopIndexedIndep || op == CGOpCode::LoopIndexedDep ||
                    op == CGOpCode::IndexAssign) {
             IndexPattern* ip;
-- 
2.43.0


From ac2fd9f2361829b11d8b02a464e2535e731fb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 10/74] fix: dependents updated with += must use the already
 evaluated variable

---
 include/cppad/cg/lang/c/language_c.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 979f58f..bb75475 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1896,8 +1896,17 @@ protected:
             }
 
             if (useArg) {
-                pushAssignment(node, arg); // ignore other arguments!
-                return 1;
+                Node* argNode = arg.getOperation();
+                if (argNode != nullptr && getVariableID(*argNode) > 0) {
+                    // already evaluated (its operations cannot be printed again since temporary variables might have new values)
+                    pushAssignmentStart(node);
+                    _streamStack << createVariableName(*argNode);
+                    pushAssignmentEnd(node);
+                    _streamStack.flush();
+                } else {
+                    pushAssignment(node, arg);
+                }
+                return 1; // ignore other arguments!
             }
         }
         return 0;
-- 
2.43.0


From b981b591072816c569aee8e63886de7c5fd3199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 11/74] Revert "fix: constant dependents cannot belong to an
 equation pattern"

This reverts commit c829781ca91b412d97e8d787479b481a0a454a78.
---
 include/cppad/cg/patterns/equation_pattern.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/patterns/equation_pattern.hpp b/include/cppad/cg/patterns/equation_pattern.hpp
index 699aef9..cc93376 100644
--- a/include/cppad/cg/patterns/equation_pattern.hpp
+++ b/include/cppad/cg/patterns/equation_pattern.hpp
@@ -249,7 +249,7 @@ private:
         }
 
         if (dep1.isParameter() && dep2.isParameter()) {
-            return false; // there are no operations to place in a loop
+            return dep1.getValue() == dep2.getValue();
 
         } else if (dep1.isVariable() && dep2.isVariable()) {
             OperationNode<Base>* depRefOp = dep1.getOperationNode();
-- 
2.43.0


From b88f5d66d40acde61f6ecfb339763b150ae61d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 12/74] fix: loop groups without Hessian contributions must not
 be called in reverse two

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index 6ba1b34..1ab96a1 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -340,6 +340,9 @@ void ModelCSourceGen<Base>::prepareSparseReverseTwoWithLoops(const std::map<size
                                                             dzDx,
                                                             jrow2CompressedLoc);
 
+            if (jrow2CompressedLoc.empty())
+                continue; // all the contributions are identically zero
+
             _loopRev2Groups[&lModel][g] = jrow2CompressedLoc;
 
             LoopEndOperationNode<Base>* loopEnd = nullptr;
-- 
2.43.0


From 3dea6e50216e4d23c40b2229f79de871d4a1f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 13/74] fix: loops created from constant equations can contain
 other equations

---
 include/cppad/cg/patterns/loop.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 1ad59d9..c61ac84 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -294,6 +294,17 @@ public:
             }
         }
 
+        if (varIndexed_ == nullptr && !independents.empty()) {
+            // the loop was created from an equation with constant values (other equations might use operations)
+            handlerOrig_ = independents[0].getCodeHandler();
+            if (handlerOrig_ != nullptr) {
+                varId_.reset(new CodeHandlerVector<Base, size_t>(*handlerOrig_));
+                varId_->adjustSize();
+                varId_->fill(0);
+                varIndexed_.reset(new CodeHandlerVector<Base, bool>(*handlerOrig_));
+            }
+        }
+
         if(varIndexed_ != nullptr) {
             varIndexed_->adjustSize();
             varIndexed_->fill(false);
-- 
2.43.0


From e7961b9222f81eb283c8373a592fdad120e3788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 14/74] fix: index conditions must not become temporary
 variables when assignments are split

---
 include/cppad/cg/lang/c/language_c.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index bb75475..f503969 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1112,6 +1112,7 @@ protected:
                     opCount >= _maxOperationsPerAssignment) &&
                     op != CGOpCode::CondResult &&
                     op != CGOpCode::Index &&
+                    op != CGOpCode::IndexCondExpr &&
                     op != CGOpCode::IndexDeclaration;
         }
     }
-- 
2.43.0


From 0c75bd7e26c275c487fde3b04b77f3a0765f1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 15/74] fix: forward one of loops with variables only used in
 comparisons

---
 .../model/patterns/model_c_source_gen_loops_for1.hpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
index 0a676c0..2330374 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
@@ -780,10 +780,13 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateForwardOneGroupOps(Code
                 if (pos != nullptr) {
                     size_t tapeJ = pos->tape;
 
-                    const map<size_t, CG<Base> >& dyiDxJtapeT = dyiDxtapeT.at(tapeJ);
-                    typename map<size_t, CGBase>::const_iterator itVal = dyiDxJtapeT.find(tapeI);
-                    if (itVal != dyiDxJtapeT.end()) {
-                        jacVal += itVal->second;
+                    // the variable might not have a direct influence (e.g. only used in comparisons)
+                    const auto itCol = dyiDxtapeT.find(tapeJ);
+                    if (itCol != dyiDxtapeT.end()) {
+                        typename map<size_t, CGBase>::const_iterator itVal = itCol->second.find(tapeI);
+                        if (itVal != itCol->second.end()) {
+                            jacVal += itVal->second;
+                        }
                     }
                 }
 
-- 
2.43.0


From 7e4dbbed8d5e496d780b87d613d4c75d85febf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 16/74] fix: temporaries used by more than two conditional
 branches of a loop must be evaluated for all of them

---
 include/cppad/cg/code_handler.hpp      |   7 ++
 include/cppad/cg/code_handler_impl.hpp | 119 ++++++++++++-------------
 2 files changed, 66 insertions(+), 60 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 053acb6..1e1109a 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -635,6 +635,13 @@ protected:
 
     inline void updateTemporaryVarInDiffScopes(Node& code);
 
+    /**
+     * Ensures that the conditional temporary variables used by a node are
+     * evaluated for the provided iterations
+     */
+    inline void extendConditionalTempVars(Node* node,
+                                          const std::vector<size_t>& iterationRegions);
+
     inline void restoreTemporaryVar(Node& tmp);
 
     inline void restoreTemporaryVar(Node* tmp,
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index b229ffe..aa9e9ab 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -841,6 +841,9 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
                 if (_scope[code] == _currentScopeColor) {
                     // outside an if (defined for all iterations)
                     restoreTemporaryVar(code);
+                    for (const Arg& a : code.getArguments()) {
+                        extendConditionalTempVars(a.getOperation(), {0, (std::numeric_limits<size_t>::max)()});
+                    }
                 } else {
                     updateTemporaryVarInDiffScopes(code);
                 }
@@ -876,6 +879,7 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
                         const std::vector<Arg>& args = code.getArguments();
                         size_t aSize = args.size();
                         for (size_t a = 0; a < aSize; a++) {
+                            extendConditionalTempVars(args[a].getOperation(), {0, (std::numeric_limits<size_t>::max)()});
                             updateVarScopeUsage(args[a].getOperation(), newScope, oldScope);
                         }
                     }
@@ -1080,6 +1084,7 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
     const std::vector<Arg>& cargs = opClone->getArguments();
     size_t aSize = cargs.size();
     for (size_t a = 0; a < aSize; a++) {
+        extendConditionalTempVars(cargs[a].getOperation(), iterationRegions);
         updateVarScopeUsage(cargs[a].getOperation(), newScopeColor, oldScope);
     }
 
@@ -1088,85 +1093,79 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
 
 template<class Base>
 inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
-    if (_scope[code] != _currentScopeColor) {
-        return; //nothing to change
-    }
-
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    if (_currentScopeColor == 0)
-        restoreTemporaryVar(code);
-
-    /**
-     * Determine if it should be moved into a different scope
-     * so that it is defined before being used in both
-     * scopes
-     */
-    ScopeIDType oldScope = _scope[code];
-
-    size_t depth = findFirstDifferentScope(oldScope, _currentScopeColor);
-
-    // update the scope where it should be defined
-    ScopeIDType newScope = depth == 0 ? 0 : _scopes[_currentScopeColor][depth - 1].color;
+    if (_scopes[_currentScopeColor].empty() || _scopes[_currentScopeColor].back().end == nullptr)
+        return;
 
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    std::vector<size_t> iterationRegions;
     Node* bScopeNewEnd = _scopes[_currentScopeColor].back().end;
-    Node* endif = code.getArguments()[0].getOperation();
-    CPPADCG_ASSERT_UNKNOWN(endif->getOperationType() == CGOpCode::EndIf)
-    Node* bScopeOldEnd = _scopes[_scope[*endif]].back().end;
 
     CGOpCode bNewOp = bScopeNewEnd->getOperationType();
 
     if (bNewOp == CGOpCode::EndIf || bNewOp == CGOpCode::Else || bNewOp == CGOpCode::ElseIf) {
-        // used in 2 different if/else branches
-
         /**
-         * determine the iterations which use this temporary variable
+         * used by yet another if/else branch:
+         * must also be evaluated for the iterations of that branch
          */
         Node* bScopeNew = bScopeNewEnd->getArguments()[0].getOperation();
-        Node* bScopeOld = bScopeOldEnd->getArguments()[0].getOperation();
 
         IndexOperationNode<Base>* newIterIndexOp = nullptr;
-        iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
+        std::vector<size_t> iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
         CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
 
-        IndexOperationNode<Base>* oldIterIndexOp = nullptr;
-        const std::vector<size_t> oldIterRegions = ifBranchIterationRanges(bScopeOld, oldIterIndexOp);
-        combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-        CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
+        extendConditionalTempVars(&code, iterationRegions);
+    }
+}
 
-        if (iterationRegions.size() == 2 &&
-            (iterationRegions[0] == 0 ||
-             iterationRegions[1] == (std::numeric_limits<size_t>::max)())) {
-            // this temporary variable is used by all iterations
-            // there is no need for an 'if'
-            restoreTemporaryVar(code);
-
-        } else if (oldIterRegions != iterationRegions) {
-            Node* cond = bScopeOld->getArguments()[0].getOperation();
-            CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
-            cond->getInfo() = iterationRegions;
-        }
+template<class Base>
+inline void CodeHandler<Base>::extendConditionalTempVars(Node* node,
+                                                         const std::vector<size_t>& iterationRegions) {
+    if (node == nullptr)
+        return;
+
+    const std::vector<Arg>* args = &node->getArguments();
+    std::vector<size_t> newRegions = iterationRegions;
+    const bool conditional = node->getOperationType() == CGOpCode::Tmp && !node->getInfo().empty();
+
+    if (conditional) {
+        // only evaluated for some iterations
+        Node* endIf = (*args)[1].getOperation();
+        CPPADCG_ASSERT_UNKNOWN(endIf->getOperationType() == CGOpCode::EndIf)
+        Node* cond = endIf->getArguments()[0].getOperation()->getArguments()[0].getOperation();
+        CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
 
+        combineOverlapingIterationRanges(newRegions, cond->getInfo());
+        if (newRegions == cond->getInfo())
+            return; // already evaluated for all those iterations
+
+        cond->getInfo() = newRegions;
+
+        // the values used by this variable are also required
+        Node* ifAssign = endIf->getArguments()[1].getOperation();
+        Node* tmpAssign = ifAssign->getArguments()[1].getOperation();
+        args = &tmpAssign->getArguments()[1].getOperation()->getArguments();
+    } else {
+        // nodes which are not inside an if cannot directly use temporary variables from a more restricted scope
+        const ScopePath& scopePath = _scopes[_scope[*node]];
+        if (scopePath.empty() || scopePath.back().end == nullptr)
+            return;
+
+        const Node* scopeEnd = scopePath.back().end;
+        CGOpCode op = scopeEnd->getOperationType();
+        if (op != CGOpCode::EndIf && op != CGOpCode::Else && op != CGOpCode::ElseIf)
+            return;
     }
 
-    if (oldScope != newScope) {
-        _scope[code] = newScope;
-        /**
-         * Must also update the scope of the arguments used by this operation
-         */
-        const std::vector<Arg>& cargs = code.getArguments();
-        size_t aSize = cargs.size();
-        for (size_t a = 0; a < aSize; a++) {
-            updateVarScopeUsage(cargs[a].getOperation(), newScope, oldScope);
-        }
+    for (const Arg& a : *args) {
+        extendConditionalTempVars(a.getOperation(), newRegions);
     }
 
+    if (conditional && newRegions.size() == 2 &&
+        newRegions[0] == 0 && newRegions[1] == (std::numeric_limits<size_t>::max)()) {
+        // used by all iterations: there is no need for an 'if'
+        ScopeIDType currentScope = _currentScopeColor;
+        _currentScopeColor = _scope[*node];
+        restoreTemporaryVar(*node);
+        _currentScopeColor = currentScope;
+    }
 }
 
 template<class Base>
-- 
2.43.0


From ef85df89eb9564fdcab5018f497dcc9eaa270b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 17/74] fix: reverse two contributions of equations missing in
 some iterations must use the direction

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index 1ab96a1..82b0922 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -849,7 +849,7 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateReverseTwoGroupOps(Code
             if (iterations.size() != group.iterations.size()) {
                 CGBase v = createReverseMode2Contribution(handler, group,
                                                           *pattern, iterations,
-                                                          gHessVal,
+                                                          gHessVal * tx1,
                                                           *info.iterationIndexOp,
                                                           group.ifElses);
                 addContribution(indexedLoopResults, hessLE, make_pair(v, (IndexPattern*) nullptr));
-- 
2.43.0


From 7e7f3bff6b71be94a2e3b364b060eeffc10c146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 18/74] fix: locate the non-indexed variables in the Hessian
 pattern of loops by their tape index

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index 09a99b3..eb134ee 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -460,7 +460,7 @@ void ModelCSourceGen<Base>::analyseSparseHessianWithLoops(const std::vector<size
                         if (posJ2 != nullptr) {
                             const set<size_t>& hessRow = group.getHessianSparsity()[posK1->tape];
 
-                            if (hessRow.find(j2) != hessRow.end()) {
+                            if (hessRow.find(posJ2->tape) != hessRow.end()) {
                                 if (!jInNonIndexed) {
                                     jInNonIndexed = true;
                                     CPPADCG_ASSERT_KNOWN(loopInfo.nonIndexedNonIndexedPosition.find(orig) == loopInfo.nonIndexedNonIndexedPosition.end(),
-- 
2.43.0


From 86e97baa6466c69ce8c8a90ec6195de16e61bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 19/74] fix: postponed dependents of loops must not be selected
 again

---
 include/cppad/cg/patterns/loop.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index c61ac84..e46d8b5 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -456,8 +456,10 @@ public:
 
                 EquationPattern<Base>* eq = dep2Equation.at(dep);
                 auto bestDep = depSorter.findBestDependentForIteration(dep, eq);
-                dep = bestDep.first;
-                eq = bestDep.second;
+                if (dependents.find(bestDep.first) != dependents.end()) { // it might have already been postponed
+                    dep = bestDep.first;
+                    eq = bestDep.second;
+                }
 
                 long pos = group.findIndexedLinkedDependent(dep);
                 if (pos >= 0) {
-- 
2.43.0


From aca058c5d6e0aae4a8f35274e01d0b65a62ca6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:15 +0000
Subject: [PATCH 20/74] fix: variables must not be added twice to the
 evaluation order of a conditional scope

---
 include/cppad/cg/code_handler_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index aa9e9ab..eee33e5 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1641,6 +1641,9 @@ inline void CodeHandler<Base>::addToEvaluationQueue(Node& arg) {
         _scopes[scope].back().end->getArguments()[0].getOperation() != &arg) {
         // the first node must be a beginning of a scope
         checkVariableCreation(*_scopes[scope].back().end); // go inside a scope from the end
+
+        if (isVisited(arg))
+            return; // already added while going inside the scope
     }
 
     // must be after checkVariableCreation() because _scopedVariableOrder might be resized
-- 
2.43.0


From c8306ddb3dcd4779ed25aeb2087ca6e4aaaa7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 21/74] fix: index arrays used by the same function must have
 different names

---
 include/cppad/cg/lang/c/language_c_index_patterns.hpp         | 4 ++--
 include/cppad/cg/lang/dot/language_dot_index_patterns.hpp     | 4 ++--
 include/cppad/cg/lang/latex/language_latex_index_patterns.hpp | 4 ++--
 .../cppad/cg/lang/mathml/language_mathml_index_patterns.hpp   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c_index_patterns.hpp b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
index ac94520..fc22f14 100644
--- a/include/cppad/cg/lang/c/language_c_index_patterns.hpp
+++ b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
@@ -28,8 +28,8 @@ inline void LanguageC<Base>::generateNames4RandomIndexPatterns(const std::set<Ra
     // save existing names so that they are not to overridden 
     // (independent variable names might have already used them)
     for (RandomIndexPattern* ip : randomPatterns) {
-        if (!ip->getName().empty()) {
-            usedNames.insert(ip->getName());
+        if (!ip->getName().empty() && !usedNames.insert(ip->getName()).second) {
+            ip->setName(""); // same name given by different functions to different patterns
         }
     }
 
diff --git a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
index e563027..632610c 100644
--- a/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
+++ b/include/cppad/cg/lang/dot/language_dot_index_patterns.hpp
@@ -28,8 +28,8 @@ inline void LanguageDot<Base>::generateNames4RandomIndexPatterns(const std::set<
     // save existing names so that they are not to overridden 
     // (independent variable names might have already used them)
     for (RandomIndexPattern* ip : randomPatterns) {
-        if (!ip->getName().empty()) {
-            usedNames.insert(ip->getName());
+        if (!ip->getName().empty() && !usedNames.insert(ip->getName()).second) {
+            ip->setName(""); // same name given by different functions to different patterns
         }
     }
 
diff --git a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
index a5738e2..12b99f4 100644
--- a/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
+++ b/include/cppad/cg/lang/latex/language_latex_index_patterns.hpp
@@ -28,8 +28,8 @@ inline void LanguageLatex<Base>::generateNames4RandomIndexPatterns(const std::se
     // save existing names so that they are not to overridden 
     // (independent variable names might have already used them)
     for (RandomIndexPattern* ip : randomPatterns) {
-        if (!ip->getName().empty()) {
-            usedNames.insert(ip->getName());
+        if (!ip->getName().empty() && !usedNames.insert(ip->getName()).second) {
+            ip->setName(""); // same name given by different functions to different patterns
         }
     }
 
diff --git a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
index ec1eddf..074c3fa 100644
--- a/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml_index_patterns.hpp
@@ -28,8 +28,8 @@ inline void LanguageMathML<Base>::generateNames4RandomIndexPatterns(const std::s
     // save existing names so that they are not to overridden 
     // (independent variable names might have already used them)
     for (RandomIndexPattern* ip : randomPatterns) {
-        if (!ip->getName().empty()) {
-            usedNames.insert(ip->getName());
+        if (!ip->getName().empty() && !usedNames.insert(ip->getName()).second) {
+            ip->setName(""); // same name given by different functions to different patterns
         }
     }
 
-- 
2.43.0


From e3406d9edbf9cca2dbef653353c884b48d365fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 22/74] fix: iterations of different equation patterns cannot
 be paired by an independent used several times

---
 .../cg/patterns/dependent_pattern_matcher.hpp | 43 +++++++++----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index cb6ef97..71f0ec5 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -1124,36 +1124,33 @@ private:
 
                     // indexed independent variable
 
-                    // invert eq1Dep2Indep into eq1Indep2Dep
-                    using MapIndep2Dep = map<const OperationNode<Base>*, size_t, IndependentNodeSorter<Base> >;
-                    MapIndep2Dep eq1Indep2Dep;
-                    typename MapIndep2Dep::iterator hint = eq1Indep2Dep.begin();
+                    // invert eq1Dep2Indep into eq1Indep2Deps
+                    // (several iterations of equation 1 might use the same independent)
+                    std::map<const OperationNode<Base>*, set<size_t>, IndependentNodeSorter<Base> > eq1Indep2Deps;
                     for (const auto& d2i : eq1Dep2Indep) {
-                        hint = eq1Indep2Dep.insert(hint, std::make_pair(d2i.second, d2i.first));
-                        hint++; // assume that the relation dep<->indep is always ascending
+                        eq1Indep2Deps[d2i.second].insert(d2i.first);
                     }
 
-                    typename map<const OperationNode<Base>*, size_t>::const_iterator itHint = eq1Indep2Dep.begin();
-
                     // check all iterations/dependents
                     for (const auto& d2i : eq2Dep2Indep) {
                         size_t dep2 = d2i.first;
                         const OperationNode<Base>* indep = d2i.second;
-                        typename map<const OperationNode<Base>*, size_t>::const_iterator it;
-                        if (itHint->first == indep) {
-                            /**
-                             * assumes that the both relations
-                             * (indep<->dep1 and dep2<->indep) are in
-                             * ascending order which is commonly true
-                             */
-                            it = itHint;
-                            itHint++;
-                        } else {
-                            it = eq1Indep2Dep.find(indep);
-                        }
-
-                        if (it != eq1Indep2Dep.end()) {
-                            size_t dep1 = it->second;
+                        const auto it = eq1Indep2Deps.find(indep);
+
+                        if (it != eq1Indep2Deps.end()) {
+                            const set<size_t>& deps1 = it->second;
+                            size_t dep1 = *deps1.begin();
+                            if (deps1.size() > 1) {
+                                // ambiguous: only possible when the dependents are already related
+                                if (dep2Relations[dep2] == nullptr)
+                                    return false;
+                                const auto itRel = std::find_if(deps1.begin(), deps1.end(), [&](size_t d1) {
+                                    return dep2Relations[d1] == dep2Relations[dep2];
+                                });
+                                if (itRel == deps1.end())
+                                    return false;
+                                dep1 = *itRel;
+                            }
 
                             // check if this relation was previous excluded
                             std::map<size_t, set<size_t> >::const_iterator itBlackL = dependentBlackListRelations.find(dep1);
-- 
2.43.0


From 7baefd7b37df00600a905363ec1eebb898e4bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 23/74] fix: Jacobian elements of equations outside the loops
 which were simplified to zero cannot be requested

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
index 0ddf79e..4852763 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
@@ -108,6 +108,10 @@ void ModelCSourceGen<Base>::analyseSparseJacobianWithLoops(const std::vector<siz
             CPPADCG_ASSERT_UNKNOWN(_funNoLoops != nullptr);
             size_t il = _funNoLoops->getLocalDependentIndex(i);
 
+            if (_funNoLoops->getJacobianSparsity()[il].count(j) == 0) {
+                continue; // zero (the operations which used j were simplified)
+            }
+
             noLoopEvalSparsity[il].insert(j);
             noLoopEvalLocations[il][j].insert(e);
 
-- 
2.43.0


From 76adc8588e096de4e50becafc51e77cf2e5a9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 24/74] fix: shared temporaries must be related with all the
 equation patterns which use them

---
 include/cppad/cg/patterns/dependent_pattern_matcher.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 71f0ec5..773d078 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -912,10 +912,11 @@ private:
             /**
              * Temporary variable
              */
+            std::set<EquationPattern<Base>*> visitedEquations; // one relation with each of the other equation patterns
             for (size_t otherDep : deps) {
 
                 EquationPattern<Base>* otherEquation = dep2Equation_.at(otherDep);
-                if (otherEquation != eqCurr_) {
+                if (otherEquation != eqCurr_ && visitedEquations.insert(otherEquation).second) {
                     /**
                      * temporary variable shared with a different loop
                      */
@@ -935,8 +936,6 @@ private:
                     } else if (itIndexedType->second.first != expected) {
                         itIndexedType->second.first = INDEXED_OPERATION_TYPE::BOTH;
                     }
-
-                    break;
                 }
             }
         }
-- 
2.43.0


From 7745abcea681b069d5af5501d780067ea9452cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 25/74] fix: dependents of equation patterns cannot be paired
 by independents used in several iterations of any of the patterns

---
 .../cppad/cg/patterns/dependent_pattern_matcher.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 773d078..c19b5f4 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -1123,12 +1123,16 @@ private:
 
                     // indexed independent variable
 
-                    // invert eq1Dep2Indep into eq1Indep2Deps
-                    // (several iterations of equation 1 might use the same independent)
-                    std::map<const OperationNode<Base>*, set<size_t>, IndependentNodeSorter<Base> > eq1Indep2Deps;
+                    // invert eq1Dep2Indep and eq2Dep2Indep
+                    // (several iterations of an equation might use the same independent)
+                    using MapIndep2Deps = map<const OperationNode<Base>*, set<size_t>, IndependentNodeSorter<Base> >;
+                    MapIndep2Deps eq1Indep2Deps, eq2Indep2Deps;
                     for (const auto& d2i : eq1Dep2Indep) {
                         eq1Indep2Deps[d2i.second].insert(d2i.first);
                     }
+                    for (const auto& d2i : eq2Dep2Indep) {
+                        eq2Indep2Deps[d2i.second].insert(d2i.first);
+                    }
 
                     // check all iterations/dependents
                     for (const auto& d2i : eq2Dep2Indep) {
@@ -1139,7 +1143,7 @@ private:
                         if (it != eq1Indep2Deps.end()) {
                             const set<size_t>& deps1 = it->second;
                             size_t dep1 = *deps1.begin();
-                            if (deps1.size() > 1) {
+                            if (deps1.size() > 1 || eq2Indep2Deps[indep].size() > 1) {
                                 // ambiguous: only possible when the dependents are already related
                                 if (dep2Relations[dep2] == nullptr)
                                     return false;
-- 
2.43.0


From ad50966928cdb941cb0e9439cc6d5172709c391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 26/74] fix: reverse one of equations outside loops must have
 space for all the requested elements

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
index d8d8f5f..aba74c6 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
@@ -136,7 +136,8 @@ void ModelCSourceGen<Base>::prepareSparseReverseOneWithLoops(const std::map<size
 
             // prepare space for the jacobian of the original equations
             std::vector<CGBase>& row = jacNl[i];
-            row.resize(dydx[inl].size());
+            const auto itElements = elements.find(i);
+            row.resize(itElements != elements.end() ? itElements->second.size() : 0);
 
             for (const auto& itjv : dydx[inl]) {
                 size_t j = itjv.first;
-- 
2.43.0


From 3ea5cc7396b1a7d31c120d26db1a3ecae9213e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 27/74] fix: dependents of equations with shared indexed
 variables which are not linked must be in different iterations

---
 include/cppad/cg/patterns/loop.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index e46d8b5..8843530 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -535,8 +535,18 @@ public:
                         // must pick one dependent from each equation for each iteration
                         deps.clear();
 
+                        // (dependents which are not linked but belong to equations with shared
+                        //  indexed variables cannot be evaluated in the same iteration)
+                        bool hasIndexedLinks = false;
                         for (auto& itEq2Dep : itPos2Eq2Dep.second) {
                             if (!itEq2Dep.second.empty()) {
+                                const set<size_t>& eqDeps = itEq2Dep.first->dependents;
+                                bool indexedLinks = std::any_of(eqDeps.begin(), eqDeps.end(), [&](size_t d) {
+                                    return group.findIndexedLinkedDependent(d) >= 0;
+                                });
+                                if (indexedLinks && hasIndexedLinks)
+                                    continue;
+                                hasIndexedLinks |= indexedLinks;
                                 deps.push_back(*itEq2Dep.second.begin());
                                 itEq2Dep.second.erase(itEq2Dep.second.begin());
                             }
-- 
2.43.0


From a03ade160c503defea784c8d0c7c7d6a4309d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 28/74] fix: support acosh, asinh, atanh, erf, erfc, expm1 and
 log1p in the evaluators

---
 include/cppad/cg/evaluator/evaluator.hpp    | 77 +++++++++++++++++++++
 include/cppad/cg/evaluator/evaluator_ad.hpp | 70 +++++++++++++++++++
 include/cppad/cg/evaluator/evaluator_cg.hpp | 70 +++++++++++++++++++
 3 files changed, 217 insertions(+)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 8345c94..16c0fdc 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -473,6 +473,27 @@ protected:
             case CGOpCode::UnMinus: // -(a)
                 return thisOps.evalMinus(node);
 
+            case CGOpCode::Acosh: //  acosh(variable)
+                return thisOps.evalAcosh(node);
+
+            case CGOpCode::Asinh: //  asinh(variable)
+                return thisOps.evalAsinh(node);
+
+            case CGOpCode::Atanh: //  atanh(variable)
+                return thisOps.evalAtanh(node);
+
+            case CGOpCode::Erf: //  erf(variable)
+                return thisOps.evalErf(node);
+
+            case CGOpCode::Erfc: //  erfc(variable)
+                return thisOps.evalErfc(node);
+
+            case CGOpCode::Expm1: //  expm1(variable)
+                return thisOps.evalExpm1(node);
+
+            case CGOpCode::Log1p: //  log1p(variable)
+                return thisOps.evalLog1p(node);
+
             default:
                 return thisOps.evalUnsupportedOperation(node);
         }
@@ -673,6 +694,62 @@ protected:
         return -evalArg(args, 0);
     }
 
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalAcosh(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalAsinh(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalAtanh(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalErf(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalErfc(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalExpm1(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
+    /**
+     * @note not supported by every active type
+     */
+    inline ActiveOut evalLog1p(const NodeIn& node) {
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+        return thisOps.evalUnsupportedOperation(node);
+    }
+
     inline ActiveOut evalUnsupportedOperation(const NodeIn& node) {
         throw CGException("Unknown operation code '", node.getOperationType(), "'");
     }
diff --git a/include/cppad/cg/evaluator/evaluator_ad.hpp b/include/cppad/cg/evaluator/evaluator_ad.hpp
index 35d49bc..0b70001 100644
--- a/include/cppad/cg/evaluator/evaluator_ad.hpp
+++ b/include/cppad/cg/evaluator/evaluator_ad.hpp
@@ -174,6 +174,76 @@ protected:
         evalsAtomic_.insert(&node);
     }
 
+    /**
+     * @note overrides the default evalAcosh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAcosh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for acosh()")
+        return CppAD::acosh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalAsinh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAsinh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for asinh()")
+        return CppAD::asinh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalAtanh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAtanh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for atanh()")
+        return CppAD::atanh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalErf() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalErf(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erf()")
+        return CppAD::erf(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalErfc() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalErfc(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erfc()")
+        return CppAD::erfc(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalExpm1() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalExpm1(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for expm1()")
+        return CppAD::expm1(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalLog1p() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalLog1p(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for log1p()")
+        return CppAD::log1p(this->evalArg(args, 0));
+    }
+
     /**
      * @note overrides the default evalPrint() even though this method
      *        is not virtual (hides a method in EvaluatorOperations)
diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index feff2ab..9b1f443 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -120,6 +120,76 @@ protected:
         }
     }
 
+    /**
+     * @note overrides the default evalAcosh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAcosh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for acosh()")
+        return CppAD::acosh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalAsinh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAsinh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for asinh()")
+        return CppAD::asinh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalAtanh() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalAtanh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for atanh()")
+        return CppAD::atanh(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalErf() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalErf(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erf()")
+        return CppAD::erf(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalErfc() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalErfc(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erfc()")
+        return CppAD::erfc(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalExpm1() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalExpm1(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for expm1()")
+        return CppAD::expm1(this->evalArg(args, 0));
+    }
+
+    /**
+     * @note overrides the default evalLog1p() even though this method
+     *        is not virtual (hides a method in EvaluatorOperations)
+     */
+    inline ActiveOut evalLog1p(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for log1p()")
+        return CppAD::log1p(this->evalArg(args, 0));
+    }
+
     /**
      * @note overrides the default evalPrint() even though this method
      *        is not virtual (hides a method in EvaluatorOperations)
-- 
2.43.0


From c849799411b64a0956876b5623b13c137b9ecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 29/74] fix: atomic functions used by evaluated graphs must be
 registered in the new handler

---
 include/cppad/cg/code_handler.hpp           |  2 ++
 include/cppad/cg/evaluator/evaluator_cg.hpp | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 1e1109a..b211cee 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -898,6 +898,8 @@ protected:
      *************************************************************************/
     friend class CG<Base>;
     friend class CGAbstractAtomicFun<Base>;
+    template<class ScalarIn, class ScalarOut, class FinalEvaluatorType>
+    friend class EvaluatorCG;
     friend class BaseAbstractAtomicFun<Base>;
     friend class LoopModel<Base>;
 
diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index 9b1f443..f2cabcb 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -257,6 +257,13 @@ protected:
 
         this->saveEvaluation(node, ActiveOut(*outHandler_->makeNode(op, info, outArgs)));
 
+        // the atomic function must also be known by the new handler
+        const auto& knownAtomics = this->handler_.getAtomicFunctions();
+        auto itKnown = knownAtomics.find(info[0]);
+        if (itKnown != knownAtomics.end()) {
+            registerAtomicFunction(*outHandler_, *itKnown->second);
+        }
+
         if (valuesDefined) {
             const std::map<size_t, CGAbstractAtomicFun<ScalarIn>*>& afun = this->handler_.getAtomicFunctions();
             size_t id = info[0];
@@ -397,6 +404,17 @@ protected:
         return *this->saveEvaluation(node, ActiveOut(*outHandler_->makeNode(CGOpCode::SparseArrayCreation, node.getInfo(), asArguments(array))));
     }
 
+    static inline void registerAtomicFunction(CodeHandler<ScalarIn>& outHandler,
+                                              CGAbstractAtomicFun<ScalarIn>& atomic) {
+        outHandler.registerAtomicFunction(atomic);
+    }
+
+    template<class OtherScalar>
+    static inline void registerAtomicFunction(CodeHandler<OtherScalar>& outHandler,
+                                              CGAbstractAtomicFun<ScalarIn>& atomic) {
+        // it is not possible to use the same atomic function with a different type
+    }
+
     static inline void processArray(const std::vector<ActiveOut>& array,
                                     std::vector<ScalarOut>& values,
                                     bool& valuesDefined,
-- 
2.43.0


From 510f58199d11ab4ab2acc2b05f81680ebf0fb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 30/74] fix: results of a previous failed evaluation must be
 removed before a new evaluation

---
 include/cppad/cg/evaluator/evaluator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 16c0fdc..fd7c43d 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -152,7 +152,9 @@ public:
 
         underEval_ = true;
 
-        clear(); // clean-up from any previous call that might have failed
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+
+        thisOps.clear(); // clean-up from any previous call that might have failed
         evals_.adjustSize();
 
         depth_ = 0;
@@ -162,8 +164,6 @@ public:
             path_.reserve(30);
         }
 
-        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
-
         try {
             thisOps.prepareNewEvaluation();
 
-- 
2.43.0


From dfc6c3e6758fd0ecbfbd58999487e54b4521e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 31/74] fix: variable identification of atomic functions must
 not use values from a previous call

---
 include/cppad/cg/atomic_fun.hpp                  | 4 ++++
 include/cppad/cg/model/functor_generic_model.hpp | 1 +
 include/cppad/cg/util.hpp                        | 1 +
 3 files changed, 6 insertions(+)

diff --git a/include/cppad/cg/atomic_fun.hpp b/include/cppad/cg/atomic_fun.hpp
index b21dc20..bddf133 100644
--- a/include/cppad/cg/atomic_fun.hpp
+++ b/include/cppad/cg/atomic_fun.hpp
@@ -190,6 +190,10 @@ protected:
         if (!ok)
             throw CGException("False returned from rev_sparse_jac() in the atomic function \"", this->atomic_name(), "\".");
 
+        for (size_t i = 0; i < m; i++) {
+            vy[i] = false; // might contain values from a previous call
+        }
+
         for (size_t j = 0; j < n; j++) {
             for (size_t i : st[j]) {
                 if (vx[j]) {
diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 1e2abe3..c9475fe 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -384,6 +384,7 @@ public:
             CPPADCG_ASSERT_KNOWN(vy.size() >= _m, "Invalid vy size")
             const std::vector<std::set<size_t> > jacSparsity = JacobianSparsitySet();
             for (size_t i = 0; i < _m; i++) {
+                vy[i] = false; // might contain values from a previous call
                 for (size_t j : jacSparsity[i]) {
                     if (vx[j]) {
                         vy[i] = true;
diff --git a/include/cppad/cg/util.hpp b/include/cppad/cg/util.hpp
index 9ef17d5..687c4e1 100644
--- a/include/cppad/cg/util.hpp
+++ b/include/cppad/cg/util.hpp
@@ -32,6 +32,7 @@ void zeroOrderDependency(ADFun<Base>& fun,
     const VectorSet jacSparsity = jacobianSparsitySet<VectorSet, Base>(fun);
 
     for (size_t i = 0; i < m; i++) {
+        vy[i] = false; // might contain values from a previous call
         for (size_t j : jacSparsity[i]) {
             if (vx[j]) {
                 vy[i] = true;
-- 
2.43.0


From fae92cc5791703bef37812c39bc8f61615f1f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 32/74] fix: sign of array elements used several times

---
 include/cppad/cg/lang/c/language_c.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index f503969..1ed84ca 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1527,17 +1527,19 @@ protected:
     virtual void pushSignFunction(Node& op) {
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for sign() function")
         CPPADCG_ASSERT_UNKNOWN(op.getArguments()[0].getOperation() != nullptr)
-        CPPADCG_ASSERT_UNKNOWN(getVariableID(*op.getArguments()[0].getOperation()) > 0)
 
-        Node& arg = *op.getArguments()[0].getOperation();
-
-        const std::string& argName = createVariableName(arg);
+        // the argument has a variable ID unless it is an element of an array
+        const Arg& arg = op.getArguments()[0];
 
-        _streamStack << "(" << argName << " " << _C_COMP_OP_GT << " ";
+        _streamStack << "(";
+        push(arg);
+        _streamStack << " " << _C_COMP_OP_GT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(1.0));
-        _streamStack << ":(" << argName << " " << _C_COMP_OP_LT << " ";
+        _streamStack << ":(";
+        push(arg);
+        _streamStack << " " << _C_COMP_OP_LT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(-1.0));
-- 
2.43.0


From 97f6b5ab27d1150c8c61f7b344cb53e86a500f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 33/74] fix: Jacobian sparsity of equations outside the loops
 must have space for all the temporaries in the Hessian

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index eb134ee..c6aef00 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -80,7 +80,7 @@ void ModelCSourceGen<Base>::analyseSparseHessianWithLoops(const std::vector<size
 
     size_t nnz = lowerHessRows.size();
 
-    noLoopEvalJacSparsity.resize(_funNoLoops != nullptr ? m : 0);
+    noLoopEvalJacSparsity.resize(_funNoLoops != nullptr ? _funNoLoops->getTapeDependentCount() : 0);
     noLoopEvalHessSparsity.resize(_funNoLoops != nullptr ? n : 0);
     noLoopEvalHessLocations.resize(noLoopEvalHessSparsity.size());
 
-- 
2.43.0


From 8001045fe938f73ab6376d65cd88d6326a784afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 34/74] fix: related dependents must use the same independents
 in all their shared temporaries

---
 .../cg/patterns/dependent_pattern_matcher.hpp | 100 ++++++++++++++++--
 1 file changed, 94 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index c19b5f4..5a0aee8 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -632,7 +632,69 @@ private:
             if (!compatible) break;
         }
 
-        return compatible;
+        return compatible &&
+                hasSameIndependents(*loop1, *loop2, eq2totalOps2validDeps, dep2Relations);
+    }
+
+    /**
+     * Determines whether or not all the related dependents use the same
+     * independents in the shared temporary variables (they will be evaluated
+     * in the same iteration).
+     * Relations are created one argument at a time and, therefore, a relation
+     * created with an argument might not be valid for another.
+     */
+    bool hasSameIndependents(const Loop<Base>& loop1,
+                             const Loop<Base>& loop2,
+                             const Eq2totalOps2validDepsType& eq2totalOps2validDeps,
+                             const std::vector<std::set<size_t>* >& dep2Relations) {
+        using namespace std;
+
+        set<EquationPattern<Base>*> eqs(loop1.equations.begin(), loop1.equations.end());
+        eqs.insert(loop2.equations.begin(), loop2.equations.end());
+
+        for (const auto& eqShared : eq2totalOps2validDeps) {
+            EquationPattern<Base>* eq1 = eqShared.first.eq1;
+            EquationPattern<Base>* eq2 = eqShared.first.eq2;
+            if (eqs.find(eq1) == eqs.end() || eqs.find(eq2) == eqs.end())
+                continue;
+
+            for (const auto& ops2Deps : *eqShared.second) {
+                for (const auto& deps2Shared : ops2Deps.second) {
+                    size_t refDep1 = deps2Shared.first.first;
+                    size_t refDep2 = deps2Shared.first.second;
+                    if (dep2Relations[refDep1] == nullptr || dep2Relations[refDep1] != dep2Relations[refDep2])
+                        continue; // shared by different iterations
+
+                    for (const auto& shared : *deps2Shared.second) {
+                        for (const OperationNode<Base>* op : eq1->findOperationsUsingIndependents(*shared.first)) {
+                            const auto it1 = eq1->indexedOpIndep.op2Arguments.find(eq1->operationEO2Reference.at(refDep1).at(op));
+                            const auto it2 = eq2->indexedOpIndep.op2Arguments.find(eq2->operationEO2Reference.at(refDep2).at(op));
+                            if (it1 == eq1->indexedOpIndep.op2Arguments.end() || it2 == eq2->indexedOpIndep.op2Arguments.end())
+                                continue; // not indexed
+
+                            const size_t aSize = std::min(it1->second.arg2Independents.size(), it2->second.arg2Independents.size());
+                            for (size_t a = 0; a < aSize; a++) {
+                                map<const set<size_t>*, const OperationNode<Base>*> relation2Indep;
+                                for (const auto& d2i : it1->second.arg2Independents[a]) {
+                                    if (dep2Relations[d2i.first] != nullptr)
+                                        relation2Indep[dep2Relations[d2i.first]] = d2i.second;
+                                }
+                                for (const auto& d2i : it2->second.arg2Independents[a]) {
+                                    const auto itIndep = relation2Indep.find(dep2Relations[d2i.first]);
+                                    if (itIndep != relation2Indep.end() && itIndep->second != d2i.second) {
+                                        incompatible_[eq1].insert(eq2);
+                                        incompatible_[eq2].insert(eq1);
+                                        return false;
+                                    }
+                                }
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        return true;
     }
 
     /**
@@ -1069,6 +1131,9 @@ private:
                              SmartSetPointer<std::set<size_t> >& dependentRelations) {
         using namespace std;
 
+        const size_t sharedDep1 = dep1; // these dependents share the temporary variable
+        const size_t sharedDep2 = dep2;
+
         // must have indexed independents at the same locations in all equations
         const set<const OperationNode<Base>*> opWithIndepArgs = eq1.findOperationsUsingIndependents(sharedTemp);
 
@@ -1143,16 +1208,39 @@ private:
                         if (it != eq1Indep2Deps.end()) {
                             const set<size_t>& deps1 = it->second;
                             size_t dep1 = *deps1.begin();
-                            if (deps1.size() > 1 || eq2Indep2Deps[indep].size() > 1) {
+                            if (deps1.size() > 1) {
                                 // ambiguous: only possible when the dependents are already related
-                                if (dep2Relations[dep2] == nullptr)
-                                    return false;
-                                const auto itRel = std::find_if(deps1.begin(), deps1.end(), [&](size_t d1) {
-                                    return dep2Relations[d1] == dep2Relations[dep2];
+                                //            or when they share the temporary variable
+                                auto itRel = std::find_if(deps1.begin(), deps1.end(), [&](size_t d1) {
+                                    return dep2Relations[d1] != nullptr && dep2Relations[d1] == dep2Relations[dep2];
                                 });
+                                if (itRel == deps1.end() && dep2 == sharedDep2)
+                                    itRel = deps1.find(sharedDep1);
                                 if (itRel == deps1.end())
                                     return false;
                                 dep1 = *itRel;
+                            } else {
+                                // only one of the iterations of equation 2 which use the same
+                                // independent can be in the same iteration as dep1
+                                const set<size_t>& deps2 = eq2Indep2Deps[indep];
+                                auto itRel = std::find_if(deps2.begin(), deps2.end(), [&](size_t d2) {
+                                    return dep2Relations[d2] != nullptr && dep2Relations[d2] == dep2Relations[dep1];
+                                });
+                                if (itRel == deps2.end() && dep1 == sharedDep1)
+                                    itRel = deps2.find(sharedDep2);
+                                if (itRel == deps2.end())
+                                    itRel = deps2.begin();
+
+                                if (*itRel != dep2) {
+                                    if (dep2Relations[dep2] != nullptr &&
+                                        std::any_of(eq1.dependents.begin(), eq1.dependents.end(), [&](size_t d1) {
+                                            return dep2Relations[d1] == dep2Relations[dep2];
+                                        })) {
+                                        return false; // in the same iteration as another dependent of equation 1
+                                    }
+                                    dependentBlackListRelations[dep2].insert(eq1.dependents.begin(), eq1.dependents.end());
+                                    continue;
+                                }
                             }
 
                             // check if this relation was previous excluded
-- 
2.43.0


From 3e73b27c4827e5b165f874e34f9ef6b5d704862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 35/74] fix: second-order reverse of atomic functions with
 zero-order partials

---
 include/cppad/cg/abstract_atomic_fun.hpp      | 70 +++++++++++++++++++
 .../cppad/cg/model/atomic_generic_model.hpp   | 29 +++++++-
 2 files changed, 98 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 4928e99..cca8cb0 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -237,6 +237,74 @@ public:
                  const CppAD::vector<CGB>& py) override {
         using CppAD::vector;
 
+        if (p != 1) {
+            return reverseHighestOrder(p, tx, ty, px, py);
+        }
+
+        /**
+         * second-order derivatives
+         * (the atomic functions only have to support null zero order partials)
+         */
+        const size_t m = ty.size() / 2;
+        const size_t n = tx.size() / 2;
+
+        vector<CGB> py1(py.size());
+        for (size_t i = 0; i < m; i++) {
+            py1[i * 2 + 1] = py[i * 2 + 1];
+        }
+
+        if (!reverseHighestOrder(p, tx, ty, px, py1)) {
+            return false;
+        }
+
+        /**
+         * first-order derivatives
+         */
+        vector<CGB> x(n), y(m), px0(n), py0(m);
+        for (size_t j = 0; j < n; j++) {
+            x[j] = tx[j * 2];
+            px[j * 2 + 1] = Base(0);
+        }
+        for (size_t i = 0; i < m; i++) {
+            y[i] = ty[i * 2];
+        }
+
+        for (size_t k = 0; k < 2; k++) {
+            bool allZero = true;
+            for (size_t i = 0; i < m; i++) {
+                py0[i] = py[i * 2 + k];
+                allZero = allZero && py0[i].isIdenticalZero();
+            }
+
+            if (allZero) {
+                continue;
+            }
+
+            if (!reverseHighestOrder(0, x, y, px0, py0)) {
+                return false;
+            }
+
+            for (size_t j = 0; j < n; j++) {
+                px[j * 2 + k] += px0[j];
+            }
+        }
+
+        return true;
+    }
+
+protected:
+
+    /**
+     * Reverse mode for partials of the highest order only (all the other
+     * elements in py are expected to be zero).
+     */
+    bool reverseHighestOrder(size_t p,
+                             const CppAD::vector<CGB>& tx,
+                             const CppAD::vector<CGB>& ty,
+                             CppAD::vector<CGB>& px,
+                             const CppAD::vector<CGB>& py) {
+        using CppAD::vector;
+
         bool allParameters = BaseAbstractAtomicFun<Base>::isParameters(tx);
         if (allParameters) {
             allParameters = BaseAbstractAtomicFun<Base>::isParameters(ty);
@@ -416,6 +484,8 @@ public:
         return true;
     }
 
+public:
+
     inline virtual CppAD::vector<std::set<size_t>> jacobianForwardSparsitySet(size_t m,
                                                                               const CppAD::vector<CGB>& x) {
         size_t n = x.size();
diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 722ea67..1a8fd0e 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -75,7 +75,34 @@ public:
             model_.ReverseOne(tx, ty, px, py);
             return true;
         } else if (p == 1) {
-            model_.ReverseTwo(tx, ty, px, py);
+            const size_t m = model_.Range();
+            const size_t n = model_.Domain();
+
+            // partials of the first-order Taylor coefficients
+            CppAD::vector<Base> py1(py.size());
+            bool zeroOrder = false;
+            for (size_t i = 0; i < m; i++) {
+                py1[i * 2] = Base(0);
+                py1[i * 2 + 1] = py[i * 2 + 1];
+                zeroOrder = zeroOrder || py[i * 2] != Base(0);
+            }
+            model_.ReverseTwo(tx, ty, px, py1);
+
+            // partials of the zero-order Taylor coefficients
+            if (zeroOrder) {
+                CppAD::vector<Base> x(n), y(m), px0(n), py0(m);
+                for (size_t j = 0; j < n; j++) {
+                    x[j] = tx[j * 2];
+                }
+                for (size_t i = 0; i < m; i++) {
+                    y[i] = ty[i * 2];
+                    py0[i] = py[i * 2];
+                }
+                model_.ReverseOne(x, y, px0, py0);
+                for (size_t j = 0; j < n; j++) {
+                    px[j * 2] += px0[j];
+                }
+            }
             return true;
         }
 
-- 
2.43.0


From 108c0d4288949c5a60fc7de4f143a102d97d8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 36/74] fix: dense ReverseTwo of compiled models leaves
 partials undefined

---
 include/cppad/cg/model/functor_generic_model.hpp | 16 ++++++++++++++++
 include/cppad/cg/model/generic_model.hpp         | 12 ++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c9475fe..38dc51a 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -600,6 +600,22 @@ public:
         CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.")
     }
 
+
+        if (_reverseOne != nullptr) {
+            // partials relative to the first-order Taylor coefficients of the independents
+            std::vector<Base> x(_n), y(_m), px1(_n, Base(0)), py1(_m);
+            for (size_t j = 0; j < _n; ++j)
+                x[j] = tx[j * k1];
+            for (size_t i = 0; i < _m; ++i) {
+                y[i] = ty[i * k1];
+                py1[i] = py[i * k1 + 1];
+            }
+
+            this->ReverseOne(ArrayView<const Base>(x), ArrayView<const Base>(y), ArrayView<Base>(px1), ArrayView<const Base>(py1));
+
+            for (size_t j = 0; j < _n; ++j)
+                px[j * k1 + 1] = px1[j];
+        }
     bool isSparseReverseTwoAvailable() override {
         return _sparseReverseTwo != nullptr;
     }
diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index 91fa9e6..d20f1a2 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -595,8 +595,8 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning the values of px[j * (k+1) + 1] are only defined when it is
+     *          also possible to evaluate the dense first-order reverse mode.
      */
     template<typename VectorBase>
     inline VectorBase ReverseTwo(const VectorBase& tx,
@@ -613,8 +613,8 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning the values of px[j * (k+1) + 1] are only defined when it is
+     *          also possible to evaluate the dense first-order reverse mode.
      */
     template<typename VectorBase>
     inline void ReverseTwo(const VectorBase& tx,
@@ -641,8 +641,8 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning the values of px[j * (k+1) + 1] are only defined when it is
+     *          also possible to evaluate the dense first-order reverse mode.
      */
     virtual void ReverseTwo(ArrayView<const Base> tx,
                             ArrayView<const Base> ty,
-- 
2.43.0


From d3b09e3a656113c11e56c951f74752921f4b8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 37/74] fix: sparse directional derivatives overwritten by
 atomic functions

---
 .../cppad/cg/model/functor_generic_model.hpp   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 38dc51a..c3305ca 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -49,6 +49,8 @@ protected:
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
     CppAD::vector<Base> _tx, _ty, _px, _py;
+    // compressed results of directional derivatives (the vectors above are used during the evaluation by atomic functions)
+    CppAD::vector<Base> _compressed;
     // original model function
     void (*_zero)(Base const*const*, Base * const*, LangCAtomicFun);
     // first order forward mode
@@ -481,8 +483,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _ty.resize(_m);
-        Base* compressed = &_ty[0];
+        _compressed.resize(_m);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -550,8 +552,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -598,8 +600,6 @@ public:
 
         CPPADCG_ASSERT_KNOWN(ret != 1, "Second-order reverse mode failed: py[2*i] (i=0...m) must be zero.")
         CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.")
-    }
-
 
         if (_reverseOne != nullptr) {
             // partials relative to the first-order Taylor coefficients of the independents
@@ -616,6 +616,8 @@ public:
             for (size_t j = 0; j < _n; ++j)
                 px[j * k1 + 1] = px1[j];
         }
+    }
+
     bool isSparseReverseTwoAvailable() override {
         return _sparseReverseTwo != nullptr;
     }
@@ -639,8 +641,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         const Base * in[3];
         in[0] = x.data();
-- 
2.43.0


From 6399b598414e119de36f41cc2c4e461cf5d9f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 38/74] fix: dependent which is also an argument and an element
 of an array not assigned

---
 include/cppad/cg/code_handler_impl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index eee33e5..ab9b096 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1583,8 +1583,14 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                     }
                 }
 
+                // a dependent variable which is an element of an array must always be assigned
+                // (even if it was first found as an argument of another operation)
+                bool isDepArrayElement = aType == CGOpCode::ArrayElement &&
+                                         _varId[arg] != 0 && _varId[arg] < _minTemporaryVarID;
+
                 // determine if this variable should be temporary/dependent variable
-                if (_lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
+                if (isDepArrayElement ||
+                    _lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
                     _lang->requiresVariableArgument(code.getOperationType(), argIndex)) {
 
                     addToEvaluationQueue(arg);
-- 
2.43.0


From 83b3ccc82d8301640c457930bc77f9d034281ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 39/74] fix: arrays defined outside a loop reused inside it

---
 include/cppad/cg/code_handler_impl.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index ab9b096..28efd5b 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1954,11 +1954,16 @@ inline void CodeHandler<Base>::determineLastTempVarUsage(Node& root) {
                         setLastUsageEvaluationOrder(*aa, order);
                     }
 
+                    Node* outer = aa;
+                    if (aa->getOperationType() == CGOpCode::ArrayElement) {
+                        outer = aa->getArguments()[0].getOperation(); // the array is the one which must be kept
+                    }
+
                     if (_loops.depth >= 0 &&
-                        getEvaluationOrder(*aa) < _loops.startEvalOrder[_loops.depth] &&
-                        isTemporary(*aa)) {
+                        getEvaluationOrder(*outer) < _loops.startEvalOrder[_loops.depth] &&
+                        (isTemporary(*outer) || isTemporaryArray(*outer) || isTemporarySparseArray(*outer))) {
                         // outer variable used inside the loop
-                        _loops.outerVars[_loops.depth].insert(aa);
+                        _loops.outerVars[_loops.depth].insert(outer);
                     }
                 }
             }
-- 
2.43.0


From c27b04de91779c0f231f46e0bd34d43078ab0aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 40/74] fix: array elements in nested expressions ignored when
 reusing array storage

---
 include/cppad/cg/array_id_compresser.hpp | 40 +++++++++++++++++++-----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/array_id_compresser.hpp b/include/cppad/cg/array_id_compresser.hpp
index a4ada7c..aa800f2 100644
--- a/include/cppad/cg/array_id_compresser.hpp
+++ b/include/cppad/cg/array_id_compresser.hpp
@@ -104,14 +104,7 @@ public:
         std::set<size_t> blackList;
         const std::vector<Argument<Base> >& args = newArray.getArguments();
         for (size_t i = 0; i < args.size(); i++) {
-            const OperationNode<Base>* argOp = args[i].getOperation();
-            if (argOp != nullptr && argOp->getOperationType() == CGOpCode::ArrayElement) {
-                const OperationNode<Base>& otherArray = *argOp->getArguments()[0].getOperation();
-                CPPADCG_ASSERT_UNKNOWN(_varId[otherArray] > 0); // make sure it had already been assigned space
-                size_t otherArrayStart = _varId[otherArray] - 1;
-                size_t index = argOp->getInfo()[0];
-                blackList.insert(otherArrayStart + index);
-            }
+            findUsedPositions(args[i].getOperation(), blackList);
         }
 
         /**
@@ -232,6 +225,37 @@ public:
 
     virtual ~ArrayIdCompresser() {
     }
+
+private:
+
+    /**
+     * Finds the positions of the elements from other arrays which are directly
+     * used by an expression (the expression is evaluated while the new array
+     * is being filled)
+     */
+    inline void findUsedPositions(const OperationNode<Base>* root,
+                                  std::set<size_t>& positions) const {
+        std::vector<const OperationNode<Base>*> stack(1, root);
+        while (!stack.empty()) {
+            const OperationNode<Base>* op = stack.back();
+            stack.pop_back();
+            if (op == nullptr)
+                continue;
+
+            if (op->getOperationType() == CGOpCode::ArrayElement) {
+                const OperationNode<Base>& otherArray = *op->getArguments()[0].getOperation();
+                CPPADCG_ASSERT_UNKNOWN(_varId[otherArray] > 0); // make sure it had already been assigned space
+                size_t otherArrayStart = _varId[otherArray] - 1;
+                size_t index = op->getInfo()[0];
+                positions.insert(otherArrayStart + index);
+
+            } else if (_varId[*op] == 0) { // part of the expression (not saved in a variable)
+                for (const Argument<Base>& a : op->getArguments()) {
+                    stack.push_back(a.getOperation());
+                }
+            }
+        }
+    }
 };
 
 } // END cg namespace
-- 
2.43.0


From 02612b78622f9921f0deb93f4919330a2ed87c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 41/74] fix: Hessian of loops with atomic functions and no
 independents

---
 .../patterns/model_c_source_gen_loops_hess.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index c6aef00..b43da1a 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -1115,6 +1115,14 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
     jac.resize(m);
     vhess.resize(vw.size());
 
+    std::vector<CG<Base> > xl;
+    if (x.size() == 0) {
+        xl.resize(1); // does not depend on any variable but CppAD requires at least one
+        xl[0] = Base(0);
+    } else {
+        xl = x;
+    }
+
     if (!individualColoring) {
         /**
          * No atomics
@@ -1138,14 +1146,6 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
             vhessFlat[l].resize(hesRow.size());
         }
 
-        std::vector<CG<Base> > xl;
-        if (x.size() == 0) {
-            xl.resize(1); // does not depend on any variable but CppAD requires at least one
-            xl[0] = Base(0);
-        } else {
-            xl = x;
-        }
-
         SparseForjacHessianWork work;
         sparseForJacHessian(fun, xl, vw,
                             y,
@@ -1186,7 +1186,7 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
 
         std::vector<CGB> tx1v(n);
 
-        y = fun.Forward(0, x);
+        y = fun.Forward(0, xl);
 
         for (size_t j1 = 0; j1 < n; j1++) {
             if (jacEvalSparsityT[j1].empty() && hesEvalSparsity[j1].empty()) {
-- 
2.43.0


From f2ffe3bd0cf27e977c19e055d44a0e2708643532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 42/74] fix: null dereference for loop dependents without an
 assigned operation

---
 include/cppad/cg/lang/c/language_c_loops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_loops.hpp b/include/cppad/cg/lang/c/language_c_loops.hpp
index fea15b5..8389bf8 100644
--- a/include/cppad/cg/lang/c/language_c_loops.hpp
+++ b/include/cppad/cg/lang/c/language_c_loops.hpp
@@ -105,7 +105,7 @@ inline size_t LanguageC<Base>::printLoopIndexedDepsUsingLoop(const std::vector<O
             break;
 
         const OperationNode<Base>* nodeLeft = variableOrder[i]->getArguments()[0].getOperation();
-        if (nodeLeft->getOperationType() != CGOpCode::ArrayElement)
+        if (nodeLeft == nullptr || nodeLeft->getOperationType() != CGOpCode::ArrayElement)
             break;
 
         const OperationNode<Base>* arrayi = nodeLeft->getArguments()[0].getOperation();
-- 
2.43.0


From 0a71c88d21c3a6306636d9dab2b7fda2aae81959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 43/74] fix: constants in arrays printed with reduced precision

---
 include/cppad/cg/lang/c/language_c_arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 0147a91..b1bbf9e 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -278,7 +278,7 @@ inline size_t LanguageC<Base>::printArrayCreationUsingLoop(size_t startPos,
         if (i - starti < 3)
             return starti;
 
-        arrayAssign << value;
+        writeParameter(value, arrayAssign);
     }
 
     /**
-- 
2.43.0


From f8ba8e181c2415beb21e833eafe9414fce3079c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 44/74] fix: array structures of atomic functions not
 initialized in split functions

---
 include/cppad/cg/lang/c/language_c.hpp        | 13 ++++++++-----
 include/cppad/cg/lang/c/language_c_arrays.hpp |  3 +++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 1ed84ca..7b08d6b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1086,6 +1086,9 @@ protected:
 
         _code.str("");
         _ss.str("");
+        // the structures for the arrays of atomic functions are local variables
+        _atomicFuncArrays.clear();
+
     }
 
     bool createsNewVariable(const Node& var,
@@ -2204,11 +2207,11 @@ private:
     class AtomicFuncArray {
     public:
         std::string data;
-        unsigned long size;
-        bool sparse;
-        size_t idx_id;
-        unsigned long nnz;
-        unsigned short scope;
+        unsigned long size = (std::numeric_limits<unsigned long>::max)();
+        bool sparse = false;
+        size_t idx_id = (std::numeric_limits<size_t>::max)();
+        unsigned long nnz = (std::numeric_limits<unsigned long>::max)();
+        typename CodeHandler<Base>::ScopeIDType scope = 0;
     };
 };
 template<class Base>
diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index b1bbf9e..487c64c 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -343,6 +343,9 @@ inline void LanguageC<Base>::printArrayStructInit(const std::string& dataArrayNa
 
     bool changed = false;
 
+    if (firstTime) {
+        _atomicFuncArrays[dataArrayName] = AtomicFuncArray(); // nothing is known about the current values
+    }
     // apply the differences
     if (array.getOperationType() == CGOpCode::ArrayCreation) {
         size_t size = array.getArguments().size();
-- 
2.43.0


From 12b6f9434ddb62874898f7b46844a81193aee2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 45/74] fix: values of temporary arrays assumed known across
 scopes

---
 include/cppad/cg/lang/c/language_c.hpp        | 22 +++++++++++++---
 include/cppad/cg/lang/c/language_c_arrays.hpp | 25 ++++++++++++++++---
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 7b08d6b..d14a88e 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -103,6 +103,8 @@ protected:
     std::vector<const Arg*> _tmpArrayValues;
     // the values in the temporary sparse array
     std::vector<const Arg*> _tmpSparseArrayValues;
+    // the scope where the values in the temporary arrays were assigned
+    typename CodeHandler<Base>::ScopeIDType _tmpArrayValuesScope = 0;
     // the current state of Array structures used by atomic functions
     std::map<std::string, AtomicFuncArray> _atomicFuncArrays;
     // indexes defined as function arguments
@@ -690,9 +692,9 @@ protected:
         const std::vector<Node*>& variableOrder = _info->variableOrder;
 
         _tmpArrayValues.resize(_nameGen->getMaxTemporaryArrayVariableID());
-        std::fill(_tmpArrayValues.begin(), _tmpArrayValues.end(), nullptr);
         _tmpSparseArrayValues.resize(_nameGen->getMaxTemporarySparseArrayVariableID());
-        std::fill(_tmpSparseArrayValues.begin(), _tmpSparseArrayValues.end(), nullptr);
+        clearArrayValues();
+        _tmpArrayValuesScope = 0;
 
         /**
          * generate index array names (might be used for variable names)
@@ -1084,11 +1086,11 @@ protected:
         (*_sources)[funcName + ".c"] = _ss.str();
         localFuncNames.push_back(funcName);
 
-        _code.str("");
-        _ss.str("");
         // the structures for the arrays of atomic functions are local variables
         _atomicFuncArrays.clear();
 
+        _code.str("");
+        _ss.str("");
     }
 
     bool createsNewVariable(const Node& var,
@@ -1777,6 +1779,10 @@ protected:
 
     virtual void pushSparseArrayCreationOp(Node& op);
 
+    inline void checkArrayValuesScope(const Node& array);
+
+    inline void clearArrayValues();
+
     inline void printArrayStructInit(const std::string& dataArrayName,
                                      size_t pos,
                                      const std::vector<Node*>& arrays,
@@ -1939,6 +1945,10 @@ protected:
                      << jj << " < " << iterationCount << "; "
                      << jj << "++) {\n";
         _indentation += _spaces;
+
+        // the contents of the arrays can be different in each iteration
+        clearArrayValues();
+        _atomicFuncArrays.clear();
     }
 
     virtual void pushLoopEnd(Node& node) {
@@ -1949,6 +1959,10 @@ protected:
         _streamStack <<_indentation << "}\n";
 
         _currentLoops.pop_back();
+
+        // there might not be any iteration
+        clearArrayValues();
+        _atomicFuncArrays.clear();
     }
 
 
diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 487c64c..bff91eb 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -28,6 +28,8 @@ void LanguageC<Base>::pushArrayCreationOp(OperationNode <Base>& array) {
 
     size_t startPos = id - 1;
 
+    checkArrayValuesScope(array);
+
     bool firstElement = true;
     for (size_t i = 0; i < argSize; i++) {
         bool newValue = !isSameArgument(args[i], _tmpArrayValues[startPos + i]);
@@ -72,6 +74,8 @@ void LanguageC<Base>::pushSparseArrayCreationOp(OperationNode <Base>& array) {
     const size_t id = getVariableID(array);
     size_t startPos = id - 1;
 
+    checkArrayValuesScope(array);
+
     bool firstElement = true;
     for (size_t i = 0; i < argSize; i++) {
         bool newValue = !isSameArgument(args[i], _tmpSparseArrayValues[startPos + i]);
@@ -339,13 +343,13 @@ inline void LanguageC<Base>::printArrayStructInit(const std::string& dataArrayNa
     // lets see what was the previous values in this array
     auto itLast = _atomicFuncArrays.find(dataArrayName);
     bool firstTime = itLast == _atomicFuncArrays.end() || itLast->second.scope != _info->scope[array];
+    if (firstTime) {
+        _atomicFuncArrays[dataArrayName] = AtomicFuncArray(); // nothing is known about the current values
+    }
     AtomicFuncArray& lastArray = firstTime ? _atomicFuncArrays[dataArrayName] : itLast->second;
 
     bool changed = false;
 
-    if (firstTime) {
-        _atomicFuncArrays[dataArrayName] = AtomicFuncArray(); // nothing is known about the current values
-    }
     // apply the differences
     if (array.getOperationType() == CGOpCode::ArrayCreation) {
         size_t size = array.getArguments().size();
@@ -438,6 +442,21 @@ inline void LanguageC<Base>::printArrayStructInit(const std::string& dataArrayNa
         _streamStack << "\n";
 }
 
+template<class Base>
+inline void LanguageC<Base>::checkArrayValuesScope(const OperationNode<Base>& array) {
+    // values assigned in a different scope might not have been assigned (e.g. inside an if)
+    if (_info->scope[array] != _tmpArrayValuesScope) {
+        clearArrayValues();
+        _tmpArrayValuesScope = _info->scope[array];
+    }
+}
+
+template<class Base>
+inline void LanguageC<Base>::clearArrayValues() {
+    std::fill(_tmpArrayValues.begin(), _tmpArrayValues.end(), nullptr);
+    std::fill(_tmpSparseArrayValues.begin(), _tmpSparseArrayValues.end(), nullptr);
+}
+
 template<class Base>
 inline void LanguageC<Base>::markArrayChanged(OperationNode<Base>& ty) {
     size_t id = getVariableID(ty);
-- 
2.43.0


From 7b067b647da80aed85301087d7cb2ce6be7b017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 46/74] fix: addMatrixSparsity rejects matrices with more rows
 than those added

---
 include/cppad/cg/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/util.hpp b/include/cppad/cg/util.hpp
index 687c4e1..9a15554 100644
--- a/include/cppad/cg/util.hpp
+++ b/include/cppad/cg/util.hpp
@@ -119,7 +119,7 @@ inline void addMatrixSparsity(const VectorSet& a,
                               size_t mRows,
                               VectorSet2& result) {
     CPPADCG_ASSERT_UNKNOWN(result.size() >= mRows)
-    CPPADCG_ASSERT_UNKNOWN(a.size() <= mRows)
+    CPPADCG_ASSERT_UNKNOWN(a.size() >= mRows)
 
     for (size_t i = 0; i < mRows; i++) {
         if (result[i].empty()) {
-- 
2.43.0


From 8a7da3032ecbf3cbaf8ba9dc8b5514b43a9221e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 47/74] fix: multMatrixMatrixSparsity used before its
 declaration

---
 include/cppad/cg/util.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cppad/cg/util.hpp b/include/cppad/cg/util.hpp
index 9a15554..bd7270b 100644
--- a/include/cppad/cg/util.hpp
+++ b/include/cppad/cg/util.hpp
@@ -145,6 +145,14 @@ inline void addMatrixSparsity(const VectorSet& a,
     addMatrixSparsity<VectorSet, VectorSet2>(a, a.size(), result);
 }
 
+template<class VectorSet, class VectorSet2>
+inline void multMatrixMatrixSparsity(const VectorSet& a,
+                                     const VectorSet2& b,
+                                     CppAD::vector<std::set<size_t> >& result,
+                                     size_t m,
+                                     size_t n,
+                                     size_t q);
+
 /**
  * Computes the resulting sparsity from the multiplying of two matrices:
  * R += A * B
-- 
2.43.0


From df5a203abe8f1f3decd9c8ccb80307dcaaf63673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 48/74] fix: boolean sparsity vectors rejected by the forward
 Jacobian/Hessian colouring

---
 include/cppad/cg/extra/sparse_forjac_hessian.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/extra/sparse_forjac_hessian.hpp b/include/cppad/cg/extra/sparse_forjac_hessian.hpp
index 133af06..346c40a 100644
--- a/include/cppad/cg/extra/sparse_forjac_hessian.hpp
+++ b/include/cppad/cg/extra/sparse_forjac_hessian.hpp
@@ -257,9 +257,10 @@ inline size_t colorForwardJacobianHessian(const ADFun<Base>& fun,
 
         color.resize(n);
 
-        CPPAD_ASSERT_KNOWN(jac_p.size() == m,
+        const bool isSet = !std::is_same<Set_type, bool>::value;
+        CPPAD_ASSERT_KNOWN(size_t(jac_p.size()) == (isSet ? m : m * n),
                            "sparseForJacHessian: invalid jacobian sparsity pattern dimension.")
-        CPPAD_ASSERT_KNOWN(hes_p.size() == n,
+        CPPAD_ASSERT_KNOWN(size_t(hes_p.size()) == (isSet ? n : n * n),
                            "sparseForJacHessian: invalid hessian sparsity pattern dimension.")
 
         /**
-- 
2.43.0


From 657722795eaba44bdb032441b802fe6f5258b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 49/74] fix: boolean Hessian sparsity misses elements of
 variables shared by dependents

---
 include/cppad/cg/extra/sparsity.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/extra/sparsity.hpp b/include/cppad/cg/extra/sparsity.hpp
index 20d2f44..2906d2e 100644
--- a/include/cppad/cg/extra/sparsity.hpp
+++ b/include/cppad/cg/extra/sparsity.hpp
@@ -197,25 +197,26 @@ template<class VectorBool, class Base>
 inline VectorBool hessianSparsity(ADFun<Base>& fun,
                                   size_t i,
                                   bool transpose = false) {
-    size_t m = fun.Range();
     size_t n = fun.Domain();
 
-    /**
-     * Determine the sparsity pattern p for Hessian of w^T F
-     */
-    VectorBool r(n * n); // identity matrix
+    // the same variable can be used for several dependents
+    // (not supported by the boolean vectors of ADFun::RevSparseHes())
+    std::vector<std::set<size_t>> s(1);
+    s[0].insert(i);
+
+    std::vector<std::set<size_t>> r(n); // identity matrix
+    for (size_t j = 0; j < n; j++)
+        r[j].insert(j);
+    fun.ForSparseJac(n, r);
+
+    const std::vector<std::set<size_t>> h = fun.RevSparseHes(n, s, transpose);
+
+    VectorBool sparsity(n * n);
     for (size_t j = 0; j < n; j++) {
         for (size_t k = 0; k < n; k++)
-            r[j * n + k] = false;
-        r[j * n + j] = true;
+            sparsity[j * n + k] = h[j].find(k) != h[j].end();
     }
-    fun.ForSparseJac(n, r);
-
-    VectorBool s(m);
-    for (size_t ii = 0; ii < m; ii++)
-        s[ii] = false;
-    s[i] = true;
-    return fun.RevSparseHes(n, s, transpose);
+    return sparsity;
 }
 
 template<class VectorSet, class Base>
-- 
2.43.0


From 2c78d64b91812ffc983eb08abef0ef12fa34ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 50/74] fix: overflow in the bounds checks of
 ArrayView::segment

---
 include/cppad/cg/array_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/array_view.hpp b/include/cppad/cg/array_view.hpp
index fc1e7ce..1431085 100644
--- a/include/cppad/cg/array_view.hpp
+++ b/include/cppad/cg/array_view.hpp
@@ -270,7 +270,7 @@ public:
     inline ArrayView<value_type> segment(size_t start,
                                          size_t n) {
         CPPADCG_ASSERT_KNOWN(start < size(), "ArrayView::segment() start index must be lower than the array size");
-        CPPADCG_ASSERT_KNOWN(start + n <= size(), "ArrayView::segment() the new segment will end after the end of this array");
+        CPPADCG_ASSERT_KNOWN(n <= size() - start, "ArrayView::segment() the new segment will end after the end of this array");
         return ArrayView<value_type> (_data + start, n);
     }
 
@@ -280,7 +280,7 @@ public:
     inline ArrayView<const value_type> segment(size_t start,
                                                size_t n) const {
         CPPADCG_ASSERT_KNOWN(start < size(), "ArrayView::segment() start index must be lower than the array size");
-        CPPADCG_ASSERT_KNOWN(start + n <= size(), "ArrayView::segment() the new segment will end after the end of this array");
+        CPPADCG_ASSERT_KNOWN(n <= size() - start, "ArrayView::segment() the new segment will end after the end of this array");
         return ArrayView<const value_type> (_data + start, n);
     }
 
-- 
2.43.0


From 6792688b359ab7d75e22640425be8bdcb795fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 51/74] fix: order of operation path nodes is not a strict weak
 order

---
 include/cppad/cg/operation_path_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/operation_path_node.hpp b/include/cppad/cg/operation_path_node.hpp
index 287c5dd..f63fd35 100644
--- a/include/cppad/cg/operation_path_node.hpp
+++ b/include/cppad/cg/operation_path_node.hpp
@@ -41,7 +41,7 @@ struct OperationPathNode {
     }
 
     inline bool operator<(const OperationPathNode<Base>& right) const {
-        return node < right.node || argIndex < right.argIndex;
+        return node < right.node || (node == right.node && argIndex < right.argIndex);
     }
 
 };
-- 
2.43.0


From 7a78975aa56bb243b6d0f28ef93adfb3adf65977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 52/74] fix: findPaths misses paths or exceeds the maximum
 number of paths

---
 include/cppad/cg/operation_path.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/operation_path.hpp b/include/cppad/cg/operation_path.hpp
index b6b7dab..3f0cc7f 100644
--- a/include/cppad/cg/operation_path.hpp
+++ b/include/cppad/cg/operation_path.hpp
@@ -157,6 +157,9 @@ inline void CodeHandler<Base>::findPaths(SourceCodePath& currPath,
         // any match would have been saved in found
         std::vector<SourceCodePath> pathsFromNode = findPathsFromNode(found, *currNode);
         for (const SourceCodePath& pathFromNode : pathsFromNode) {
+            if (found.size() >= max) {
+                return;
+            }
             SourceCodePath newPath(currPath.size() + pathFromNode.size());
             std::copy(currPath.begin(), currPath.end(), newPath.begin());
             std::copy(pathFromNode.begin(), pathFromNode.end(), newPath.begin() + currPath.size());
@@ -174,7 +177,7 @@ inline void CodeHandler<Base>::findPaths(SourceCodePath& currPath,
                 currPath.push_back(OperationPathNode<Base> (a, i));
                 findPaths(currPath, code, found, max);
                 currPath.pop_back();
-                if (found.size() == max) {
+                if (found.size() >= max) {
                     return;
                 }
             }
@@ -187,17 +190,18 @@ inline std::vector<std::vector<OperationPathNode<Base> > > CodeHandler<Base>::fi
                                                                                                 OperationNode<Base>& node) {
 
     std::vector<SourceCodePath> foundPaths;
-    std::set<size_t> argsFound;
+    std::set<SourceCodePath> pathsFound; // the same path can be part of several paths in nodePaths
 
     for (const SourceCodePath& path : nodePaths) {
         size_t size = path.size();
         for (size_t i = 0; i < size - 1; i++) {
             const OperationPathNode<Base>& pnode = path[i];
             if (pnode.node == &node) {
-                if (argsFound.find(path[i + 1].argIndex) == argsFound.end()) {
-                    foundPaths.push_back(SourceCodePath(path.begin() + i + 1, path.end()));
-                    argsFound.insert(path[i + 1].argIndex);
+                SourceCodePath pathFromNode(path.begin() + i + 1, path.end());
+                if (pathsFound.insert(pathFromNode).second) {
+                    foundPaths.push_back(pathFromNode);
                 }
+                break; // a node cannot be more than once in the same path
             }
         }
     }
-- 
2.43.0


From fe5cb512cb0c3cd3ef6c89db36dbf07dbcbb93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 53/74] fix: solveFor an expression which is the variable

---
 include/cppad/cg/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/solver.hpp b/include/cppad/cg/solver.hpp
index 681e654..e5c74d4 100644
--- a/include/cppad/cg/solver.hpp
+++ b/include/cppad/cg/solver.hpp
@@ -28,7 +28,7 @@ inline CG<Base> CodeHandler<Base>::solveFor(OperationNode<Base>& expression,
 
     // find code in expression
     if (&expression == &var)
-        return CG<Base>(var);
+        return CG<Base>(Base(0.0)); // the equation is: var == 0
 
     size_t bifurcations = (std::numeric_limits<size_t>::max)(); // so that it is possible to enter the loop
 
-- 
2.43.0


From e304a5304774ff2ba3e5a9740a3719c3bd999780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 54/74] fix: wrong sign of a variable collected from a
 subtraction

---
 include/cppad/cg/collect_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/collect_variable.hpp b/include/cppad/cg/collect_variable.hpp
index e4d6953..e4bc462 100644
--- a/include/cppad/cg/collect_variable.hpp
+++ b/include/cppad/cg/collect_variable.hpp
@@ -164,7 +164,7 @@ inline CG<Base> CodeHandler<Base>::collectVariableAddSub(const SourceCodePath& p
                 continue;
 
             } else if (op == CGOpCode::Sub) {
-                if (p[i - 1].argIndex == 1)
+                if (p[i].argIndex == 1)
                     c = -c;
                 else
                     continue;
-- 
2.43.0


From bdf94e0164452456b559aead5a2a40bae170b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 55/74] fix: substituted independent variables printed as
 independents

---
 include/cppad/cg/code_handler_impl.hpp           | 6 ++++--
 include/cppad/cg/lang/c/language_c.hpp           | 2 +-
 include/cppad/cg/lang/latex/language_latex.hpp   | 2 +-
 include/cppad/cg/lang/mathml/language_mathml.hpp | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 28efd5b..6ac2e1d 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -318,8 +318,10 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
      * the first variable IDs are for the independent variables
      */
     size_t n = _independentVariables.size();
-    for (size_t j = 0; j < n; j++) {
-        _varId[*_independentVariables[j]] = _idCount++;
+    for (size_t j = 0; j < n; j++, _idCount++) {
+        // an independent variable which was substituted is now an alias
+        if (_independentVariables[j]->getOperationType() == CGOpCode::Inv)
+            _varId[*_independentVariables[j]] = _idCount;
     }
 
     size_t m = dependent.size();
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index d14a88e..8c03c97 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -707,7 +707,7 @@ protected:
         //generate names for the independent variables
         for (size_t j = 0; j < _independentSize; j++) {
             Node& op = *_info->independent[j];
-            if (op.getName() == nullptr) {
+            if (op.getName() == nullptr && op.getOperationType() == CGOpCode::Inv) {
                 op.setName(_nameGen->generateIndependent(op, getVariableID(op)));
             }
         }
diff --git a/include/cppad/cg/lang/latex/language_latex.hpp b/include/cppad/cg/lang/latex/language_latex.hpp
index e419ffb..68b2d79 100644
--- a/include/cppad/cg/lang/latex/language_latex.hpp
+++ b/include/cppad/cg/lang/latex/language_latex.hpp
@@ -721,7 +721,7 @@ protected:
         //generate names for the independent variables
         for (size_t j = 0; j < _independentSize; j++) {
             Node& op = *info->independent[j];
-            if (op.getName() == nullptr) {
+            if (op.getName() == nullptr && op.getOperationType() == CGOpCode::Inv) {
                 op.setName(_nameGen->generateIndependent(op, getVariableID(op)));
             }
         }
diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index 0a4602d..37a2cc3 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -576,7 +576,7 @@ protected:
         //generate names for the independent variables
         for (size_t j = 0; j < _independentSize; j++) {
             Node& op = *info->independent[j];
-            if (op.getName() == nullptr) {
+            if (op.getName() == nullptr && op.getOperationType() == CGOpCode::Inv) {
                 op.setName(_nameGen->generateIndependent(op, getVariableID(op)));
             }
         }
-- 
2.43.0


From 0f240814b68c74f7d25db46a6401bd33f039d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 56/74] fix: alias of a dependent not evaluated before the
 operations which use it

---
 include/cppad/cg/code_handler_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 6ac2e1d..2836bc8 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1540,7 +1540,11 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                 // ID value not really used but must be non-zero
                 _varId[arg] = (std::numeric_limits<size_t>::max)();
             } else if (aType == CGOpCode::Alias) {
-                return; // should never be added to the evaluation queue
+                if (_varId[arg] == 0)
+                    return; // should never be added to the evaluation queue
+
+                // a dependent variable (must be assigned before it can be used by other operations)
+                addToEvaluationQueue(arg);
             } else if (aType == CGOpCode::Tmp) {
                 _varId[arg] = (std::numeric_limits<size_t>::max)();
             } else if (aType == CGOpCode::LoopStart ||
-- 
2.43.0


From 4da20919600824962a88038f83690ac60180fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 57/74] fix: code handler unusable after reset

---
 include/cppad/cg/code_handler.hpp      |  4 ++++
 include/cppad/cg/code_handler_impl.hpp | 28 +++++++++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index b211cee..cbd91d0 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -785,6 +785,10 @@ protected:
 
     inline void resetManagedNodes();
 
+    inline void deleteAll();
+
+    inline void createAuxiliaryNodes();
+
     /**************************************************************************
      *                       Graph management functions
      *************************************************************************/
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 2836bc8..ab8bb9e 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -49,13 +49,12 @@ CodeHandler<Base>::CodeHandler(size_t varCount) :
     //_variableOrder.reserve(1 + varCount / 3);
     _scopedVariableOrder[0].reserve(1 + varCount / 3);
 
-    _auxIndexI = makeIndexDclrNode("i");
-    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
+    createAuxiliaryNodes();
 }
 
 template<class Base>
 inline CodeHandler<Base>::~CodeHandler() {
-    reset();
+    deleteAll();
 
     for (auto* v : _managedVectors) {
         v->handler_ = nullptr;
@@ -511,10 +510,15 @@ size_t CodeHandler<Base>::getTemporarySparseArraySize() const {
 
 template<class Base>
 void CodeHandler<Base>::reset() {
-    for (Node* n : _codeBlocks) {
-        delete n;
-    }
-    _codeBlocks.clear();
+    deleteAll();
+    createAuxiliaryNodes();
+}
+
+template<class Base>
+inline void CodeHandler<Base>::deleteAll() {
+    // also removes the information kept for each node
+    deleteManagedNodes(0, _codeBlocks.size());
+
     _independentVariables.clear();
     _idCount = 1;
     _idArrayCount = 1;
@@ -532,9 +536,19 @@ inline void CodeHandler<Base>::resetNodes() {
     _evaluationOrder.fill(0);
     _lastUsageOrder.fill(0);
     _totalUseCount.fill(0);
+    _atomicFunctions.clear();
+
+    resetManagedNodes();
+
     _operationCount.fill(0);
     _varId.fill(0);
 }
+template<class Base>
+inline void CodeHandler<Base>::createAuxiliaryNodes() {
+    _auxIndexI = makeIndexDclrNode("i");
+    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
+}
+
 
 /******************************************************************************
 *                            access to managed memory
-- 
2.43.0


From f9eb56d3b95e1a28b9aebb6fb04e00d7370e1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 58/74] fix: nodes remain altered when the code generation
 fails

---
 include/cppad/cg/code_handler_impl.hpp | 67 +++++++++++++++-----------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index ab8bb9e..cdbca5f 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -453,34 +453,43 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
             userNames[n] = *n->getName();
     }
 
-    lang.generateSourceCode(out, std::move(_info));
+    auto restoreNodes = [&]() {
+        for (Node* n : _codeBlocks) {
+            if (n->getName() != nullptr) {
+                auto itName = userNames.find(n);
+                if (itName == userNames.end())
+                    n->clearName();
+                else
+                    n->setName(itName->second);
+            }
+        }
 
-    for (Node* n : _codeBlocks) {
-        if (n->getName() != nullptr) {
-            auto itName = userNames.find(n);
-            if (itName == userNames.end())
-                n->clearName();
-            else
-                n->setName(itName->second);
+        // restore altered nodes
+        for (const auto& itAlt : _alteredNodes) {
+            Node* tmp = itAlt.first;
+            Node* opClone = itAlt.second;
+            if (tmp->getOperationType() == CGOpCode::Tmp && !tmp->getInfo().empty()) { // some might have already been restored
+                tmp->setOperation(opClone->getOperationType(), opClone->getArguments());
+                tmp->getInfo() = opClone->getInfo();
+            }
         }
+        _alteredNodes.clear();
+    };
+
+    try {
+        lang.generateSourceCode(out, std::move(_info));
+    } catch (...) {
+        restoreNodes();
+        throw;
     }
 
+    restoreNodes();
+
     /**
      * clean-up
      */
     _atomicFunctionName2Index.clear();
 
-    // restore altered nodes
-    for (const auto& itAlt : _alteredNodes) {
-        Node* tmp = itAlt.first;
-        Node* opClone = itAlt.second;
-        if (tmp->getOperationType() == CGOpCode::Tmp && !tmp->getInfo().empty()) { // some might have already been restored
-            tmp->setOperation(opClone->getOperationType(), opClone->getArguments());
-            tmp->getInfo() = opClone->getInfo();
-        }
-    }
-    _alteredNodes.clear();
-
     if (_jobTimer != nullptr) {
         _jobTimer->finishedJob();
     } else if (_verbose) {
@@ -527,28 +536,28 @@ inline void CodeHandler<Base>::deleteAll() {
 
     _loops.reset();
 
+    _atomicFunctions.clear();
+
+    resetManagedNodes();
+
     _used = false;
 }
 
+template<class Base>
+inline void CodeHandler<Base>::createAuxiliaryNodes() {
+    _auxIndexI = makeIndexDclrNode("i");
+    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
+}
+
 template<class Base>
 inline void CodeHandler<Base>::resetNodes() {
     _scope.fill(0);
     _evaluationOrder.fill(0);
     _lastUsageOrder.fill(0);
     _totalUseCount.fill(0);
-    _atomicFunctions.clear();
-
-    resetManagedNodes();
-
     _operationCount.fill(0);
     _varId.fill(0);
 }
-template<class Base>
-inline void CodeHandler<Base>::createAuxiliaryNodes() {
-    _auxIndexI = makeIndexDclrNode("i");
-    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
-}
-
 
 /******************************************************************************
 *                            access to managed memory
-- 
2.43.0


From 810214c613f364fb85e387f8edfc956c747fb8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 59/74] fix: custom variable names read out of bounds

---
 include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp    | 8 ++++----
 .../cg/lang/latex/lang_latex_custom_var_name_gen.hpp      | 8 ++++----
 .../cg/lang/mathml/lang_mathml_custom_var_name_gen.hpp    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp b/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
index 625a7ec..bf14591 100644
--- a/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
+++ b/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
@@ -71,8 +71,8 @@ public:
         size_t index1 = idFirst - 1;
         size_t index2 = idSecond - 1;
 
-        if ((index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty())) {
+        if ((index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty())) {
             return index1 + 1 == index2;
         } else {
             return false; // individual names used (not elements of arrays)
@@ -86,8 +86,8 @@ public:
         size_t index1 = id1 - 1;
         size_t index2 = id2 - 1;
 
-        return (index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty());
+        return (index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty());
     }
 
 };
diff --git a/include/cppad/cg/lang/latex/lang_latex_custom_var_name_gen.hpp b/include/cppad/cg/lang/latex/lang_latex_custom_var_name_gen.hpp
index afef796..0221699 100644
--- a/include/cppad/cg/lang/latex/lang_latex_custom_var_name_gen.hpp
+++ b/include/cppad/cg/lang/latex/lang_latex_custom_var_name_gen.hpp
@@ -74,8 +74,8 @@ public:
         size_t index1 = idFirst - 1;
         size_t index2 = idSecond - 1;
 
-        if ((index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty())) {
+        if ((index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty())) {
             return index1 + 1 == index2;
         } else {
             return false; // individual names used (not elements of arrays)
@@ -89,8 +89,8 @@ public:
         size_t index1 = id1 - 1;
         size_t index2 = id2 - 1;
 
-        return (index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty());
+        return (index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty());
     }
 
 };
diff --git a/include/cppad/cg/lang/mathml/lang_mathml_custom_var_name_gen.hpp b/include/cppad/cg/lang/mathml/lang_mathml_custom_var_name_gen.hpp
index 44f35e7..9f225ee 100644
--- a/include/cppad/cg/lang/mathml/lang_mathml_custom_var_name_gen.hpp
+++ b/include/cppad/cg/lang/mathml/lang_mathml_custom_var_name_gen.hpp
@@ -74,8 +74,8 @@ public:
         size_t index1 = idFirst - 1;
         size_t index2 = idSecond - 1;
 
-        if ((index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty())) {
+        if ((index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty())) {
             return index1 + 1 == index2;
         } else {
             return false; // individual names used (not elements of arrays)
@@ -89,8 +89,8 @@ public:
         size_t index1 = id1 - 1;
         size_t index2 = id2 - 1;
 
-        return (index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty());
+        return (index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty());
     }
 
 };
-- 
2.43.0


From 60f127f405076bd5d33af320a69bbe10af39e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 60/74] fix: MathML dependencies printed in the order of memory
 addresses

---
 include/cppad/cg/lang/mathml/language_mathml.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index 37a2cc3..f406b73 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -837,10 +837,15 @@ protected:
                     } else {
                         out << "," << _endline;
                     }
-                    out << "        \"" << getHtmlID(*varOrder[i]) << "\": [";
+                    std::set<size_t> depIds; // in an order which does not depend on the memory location of the nodes
                     for (const auto* n: varDeps[i]) {
-                        if (n != *varDeps[i].begin()) out << ", ";
-                        out << getHtmlID(*n);
+                        depIds.insert(getHtmlID(*n));
+                    }
+
+                    out << "        \"" << getHtmlID(*varOrder[i]) << "\": [";
+                    for (size_t id: depIds) {
+                        if (id != *depIds.begin()) out << ", ";
+                        out << id;
                     }
                     out << "]";
                 }
-- 
2.43.0


From f5ead75178b7c2c29fe4cf3f26883e96bf3214d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 61/74] fix: LaTeX split into several files is not well formed

---
 include/cppad/cg/lang/latex/language_latex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/latex/language_latex.hpp b/include/cppad/cg/lang/latex/language_latex.hpp
index 68b2d79..b43cdac 100644
--- a/include/cppad/cg/lang/latex/language_latex.hpp
+++ b/include/cppad/cg/lang/latex/language_latex.hpp
@@ -861,7 +861,6 @@ protected:
             for (auto & inputLatexFile : inputLatexFiles) {
                 _code << "\\input{" << inputLatexFile << "}" << _endline;
             }
-            printAlgorithmFileEnd(_code);
         }
 
         // dependent duplicates
@@ -934,6 +933,7 @@ protected:
             }
         } else {
             // there are multiple source files (this last one is the master)
+            printAlgorithmFileEnd(_code);
             (*_sources)[_filename + ".tex"] = _code.str();
         }
 
@@ -1041,6 +1041,9 @@ protected:
 
     virtual void saveLocalFunction(std::vector<std::string>& localFuncNames,
                                    bool zeroDependentArray) {
+        // the environments must be closed in the same file
+        checkEquationEnvEnd();
+
         _ss << _filename << "__part_" << (localFuncNames.size() + 1);
         std::string funcName = _ss.str();
         _ss.str("");
-- 
2.43.0


From 46e54835e24536c32b325bf54b90cd099619d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 62/74] fix: MathML split into several files is not well formed

---
 include/cppad/cg/lang/mathml/language_mathml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index f406b73..76c334a 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -715,7 +715,6 @@ protected:
             for (size_t i = 0; i < mathMLFiles.size(); i++) {
                 _code << "<a href='" << mathMLFiles[i] << ".html'>part " << (i + 1) << "</a><br/>" << _endline;
             }
-            printAlgorithmFileEnd(_code);
         }
 
         // dependent duplicates
@@ -793,6 +792,7 @@ protected:
             }
         } else {
             // there are multiple source files (this last one is the master)
+            printAlgorithmFileEnd(_code);
             (*_sources)[_filename + ".html"] = _code.str();
         }
 
-- 
2.43.0


From 35abe757c95327fe9b651ee9334b23cb9f4b4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 63/74] fix: undeclared nodes for constant dependents in dot
 graphs

---
 include/cppad/cg/lang/dot/language_dot.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/dot/language_dot.hpp b/include/cppad/cg/lang/dot/language_dot.hpp
index a7c67c8..809afbe 100644
--- a/include/cppad/cg/lang/dot/language_dot.hpp
+++ b/include/cppad/cg/lang/dot/language_dot.hpp
@@ -426,7 +426,8 @@ protected:
                         commentWritten = true;
                     }
 
-                    _code << makeNodeName(dependent[i].getValue());
+                    const std::string parName = printParameter(dependent[i].getValue());
+                    _code << parName;
                     _code << " -> y" << i;
                     _code << _endline;
                 }
-- 
2.43.0


From 0f265e6dff7829fc01e0bbc825333a7b783b177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 64/74] fix: debug assertion always fails when all variables
 become dummy derivatives

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 63c9344..2c8838e 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -1391,13 +1391,13 @@ protected:
                     log() << *vars[j] << "; ";
                 log() << " \n";
             }
+            return;
+        }
 #ifndef NDEBUG
             for (Vnode<Base>* it : vars) {
                 CPPADCG_ASSERT_UNKNOWN(std::find(dummyD_.begin(), dummyD_.end(), it) == dummyD_.end());
             }
 #endif
-            return;
-        }
 
         /**
          * Determine the columns/variables that must be removed
-- 
2.43.0


From 95fba1db868517ac5e21f1a55e336fc4b8d4b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 65/74] fix: colours not cleared by Soares-Secchi

---
 .../cppad/cg/dae_index_reduction/soares_secchi.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index e52846a..cad6c85 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -165,7 +165,6 @@ protected:
      *
      */
     inline void detectSubset2Dif() {
-        auto& vnodes = graph_.variables();
         auto& enodes = graph_.equations();
 
         std::set<Enode<Base>*> marked;
@@ -193,9 +192,6 @@ protected:
                         // mark colored equations to be differentiated
                         if (ii->isColored() && ii->derivative() == nullptr) {
                             marked.insert(ii);
-
-                            // uncolor equations
-                            ii->uncolor();
                         }
                     }
 
@@ -204,13 +200,9 @@ protected:
                         throw CGException("Singular system detected.");
                     }
 
-                    for (auto* jj: vnodes)
-                        jj->uncolor();
-
-                } else {
-                    for (auto* ii: enodes)
-                        ii->uncolor();
                 }
+                    graph_.uncolorAll();
+
             }
 
             if (marked.empty())
@@ -224,6 +216,8 @@ protected:
             if (this->verbosity_ >= Verbosity::High)
                 graph_.printDot(this->log());
 
+                graph_.uncolorAll();
+
             lastMarked.swap(marked);
             marked.clear();
         }
-- 
2.43.0


From 4dfe7aa9b263a34e0f7029b6a205c0ac2b85b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 66/74] fix: equations differentiated by Soares-Secchi in the
 order of memory addresses

---
 include/cppad/cg/dae_index_reduction/soares_secchi.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index cad6c85..f01d443 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -209,8 +209,11 @@ protected:
                 break;
 
             // diff all MARKED equations
-            for (Enode<Base>* i: marked) {
-                graph_.createDerivate(*i, false);
+            // (in the order of the equations, so that the result is reproducible)
+            const size_t mEq = enodes.size();
+            for (size_t k = 0; k < mEq; k++) {
+                if (marked.find(enodes[k]) != marked.end())
+                    graph_.createDerivate(*enodes[k], false);
             }
 
             if (this->verbosity_ >= Verbosity::High)
-- 
2.43.0


From dc223ba64edf7bb89844b213f5594c7a6a726b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 67/74] fix: structural index of Soares-Secchi ignores
 equations required to get an ODE

---
 .../dae_structural_index_reduction.hpp        |  2 +-
 .../cg/dae_index_reduction/soares_secchi.hpp  | 24 ++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/dae_structural_index_reduction.hpp b/include/cppad/cg/dae_index_reduction/dae_structural_index_reduction.hpp
index 215074c..7e5abcb 100644
--- a/include/cppad/cg/dae_index_reduction/dae_structural_index_reduction.hpp
+++ b/include/cppad/cg/dae_index_reduction/dae_structural_index_reduction.hpp
@@ -87,7 +87,7 @@ public:
      * @return the DAE structural index.
      * @throws CGException
      */
-    inline size_t getStructuralIndex() const {
+    inline virtual size_t getStructuralIndex() const {
         return graph_.getStructuralIndex();
     }
 };
diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index f01d443..a71c7f9 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -43,6 +43,8 @@ protected:
     std::set<Enode<Base>*> lastAddEq_;
     // whether or not reduceIndex() has been called
     bool reduced_;
+    // the number of differentiations required to get an ODE
+    size_t structuralIndex_;
     //
     AugmentPathDepthLookahead<Base> defaultAugmentPath_;
     AugmentPathDepthLookaheadA<Base> defaultAugmentPathA_;
@@ -67,6 +69,7 @@ public:
             DaeStructuralIndexReduction<Base>(fun, varInfo, eqName),
             x_(x),
             reduced_(false),
+            structuralIndex_(0),
             augmentPath_(&defaultAugmentPath_),
             augmentPathA_(&defaultAugmentPathA_){
 
@@ -131,6 +134,15 @@ public:
         // detects which equations have to be differentiated to get an ODE
         detectSubset2Dif();
 
+        // the last equations are required to get an ODE
+        structuralIndex_ = 0;
+        for (const Enode<Base>* i: graph_.equations()) {
+            size_t order = 0;
+            for (; i->derivativeOf() != nullptr; i = i->derivativeOf())
+                order++;
+            structuralIndex_ = std::max(structuralIndex_, order);
+        }
+
         // we want an index 1 DAE (ignore the last equations added to the graph)
         for(const Enode<Base>* i: lastAddEq_) {
             graph_.remove(*i);
@@ -139,7 +151,7 @@ public:
         if (this->verbosity_ >= Verbosity::Low) {
             graph_.printResultInfo("Soares Secchi");
 
-            log() << "Structural index: " << graph_.getStructuralIndex() << std::endl;
+            log() << "Structural index: " << structuralIndex_ << std::endl;
         }
 
         std::unique_ptr<ADFun<CGBase>> reducedFun(graph_.generateNewModel(newVarInfo, equationInfo, x_));
@@ -154,8 +166,8 @@ public:
      * @return the DAE differentiation index.
      * @throws CGException
      */
-    inline size_t getStructuralIndex() const {
-        return graph_.getStructuralIndex();
+    inline size_t getStructuralIndex() const override {
+        return structuralIndex_;
     }
 
 protected:
@@ -195,14 +207,16 @@ protected:
                         }
                     }
 
+                    graph_.uncolorAll();
+
                     pathFound = augmentPath_->augmentPath(*i);
                     if (!pathFound) {
                         throw CGException("Singular system detected.");
                     }
 
                 }
-                    graph_.uncolorAll();
 
+                graph_.uncolorAll();
             }
 
             if (marked.empty())
@@ -219,8 +233,6 @@ protected:
             if (this->verbosity_ >= Verbosity::High)
                 graph_.printDot(this->log());
 
-                graph_.uncolorAll();
-
             lastMarked.swap(marked);
             marked.clear();
         }
-- 
2.43.0


From 6069d76311ef764e9eab7a06e56ed4eabf281251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 68/74] fix: structural index of an ODE

---
 include/cppad/cg/dae_index_reduction/bipartite_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5ccd5ae..5c91e43 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -318,7 +318,7 @@ public:
             bool isDAE = false;
             for (size_t j = 0; j < varInfo_.size(); j++) {
                 const DaeVarInfo& jj = varInfo_[j];
-                if (jj.getDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated()) {
+                if (jj.getDerivative() < 0 && jj.getAntiDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated()) {
                     isDAE = true; // found algebraic variable
                     break;
                 }
-- 
2.43.0


From 121abcdbc3879394d31473ac4dee17dd14141531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 69/74] fix: Pantelides never stops or rejects systems
 depending on their structure

---
 .../dae_index_reduction/bipartite_graph.hpp   | 43 +++++++++++++++++++
 .../cg/dae_index_reduction/pantelides.hpp     | 19 ++------
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5c91e43..b3ac1ef 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -415,6 +415,28 @@ public:
         return iDiff;
     }
 
+    /**
+     * Determines whether or not it is possible to associate each of the
+     * equations in the graph with a different variable, where a variable and
+     * all of its time derivatives are considered to be the same.
+     * Otherwise, there is no number of differentiations which can make the
+     * system non-singular.
+     *
+     * @return true if the system is structurally singular
+     */
+    inline bool isStructurallySingular() const {
+        std::map<Vnode<Base>*, Enode<Base>*> assigned;
+        std::set<Vnode<Base>*> visited;
+
+        for (Enode<Base>* i : enodes_) {
+            visited.clear();
+            if (!assignUndifferentiatedVar(*i, assigned, visited)) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     /**
      * Completely removes an equation and any variable that is only referenced
      * by this equation from the graph.
@@ -1021,6 +1043,27 @@ public:
     }
 
 private:
+    /**
+     * Attempts to assign an equation to a variable, without distinguishing a
+     * variable from its time derivatives
+     */
+    static inline bool assignUndifferentiatedVar(Enode<Base>& i,
+                                                 std::map<Vnode<Base>*, Enode<Base>*>& assigned,
+                                                 std::set<Vnode<Base>*>& visited) {
+        for (Vnode<Base>* jj : i.originalVariables()) {
+            Vnode<Base>* j = jj->originalVariable();
+            if (!visited.insert(j).second)
+                continue;
+
+            auto it = assigned.find(j);
+            if (it == assigned.end() || assignUndifferentiatedVar(*it->second, assigned, visited)) {
+                assigned[j] = &i;
+                return true;
+            }
+        }
+        return false;
+    }
+
     inline void determineVariableOrder(DaeVarInfo& var) {
         if (var.getAntiDerivative() >= 0) {
             DaeVarInfo& antiD = varInfo_[var.getAntiDerivative()];
diff --git a/include/cppad/cg/dae_index_reduction/pantelides.hpp b/include/cppad/cg/dae_index_reduction/pantelides.hpp
index ad65799..7bd8aab 100644
--- a/include/cppad/cg/dae_index_reduction/pantelides.hpp
+++ b/include/cppad/cg/dae_index_reduction/pantelides.hpp
@@ -116,6 +116,10 @@ protected:
         if (this->verbosity_ >= Verbosity::High)
             graph_.printDot(this->log());
 
+        // structural check to avoid infinite recursion
+        if (graph_.isStructurallySingular())
+            throw CGException("Invalid equation structure. The model is structurally singular.");
+
         size_t Ndash = enodes.size();
         for (size_t k = 0; k < Ndash; k++) {
             Enode<Base>* i = enodes[k];
@@ -159,21 +163,6 @@ protected:
                         }
                     }
 
-                    // structural check to avoid infinite recursion
-                    for (size_t l = esize; l < enodes.size(); l++) {
-                        ll = enodes[l];
-                        const std::vector<Vnode<Base>*>& nvars = ll->originalVariables();
-                        bool ok = false;
-                        for (Vnode<Base>* js : nvars) {
-                            if (js->equations().size() > 1) {
-                                ok = true;
-                                break;
-                            }
-                        }
-                        if (!ok)
-                            throw CGException("Invalid equation structure. The model appears to be over-defined.");
-                    }
-
                     for (Vnode<Base>* jj : vnodes) {
                         if (jj->isColored() && !jj->isDeleted()) {
                             Vnode<Base>* jDiff = jj->derivative();
-- 
2.43.0


From 26b96b8a4c300971ea9ab8492b9b9aca63c8f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 70/74] fix: dummy derivatives selected without their higher
 order derivatives

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 2c8838e..ad97b15 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -348,6 +348,7 @@ protected:
             }
 
             // Exploit the current equations for elimination of candidates
+            const size_t firstNewDummy = dummyD_.size();
             selectDummyDerivatives(eqs, vars, workJac);
 
             /**
@@ -379,8 +380,8 @@ protected:
              */
             std::vector<Vnode<Base>*> varsNew;
             varsNew.reserve(vars.size());
-            for (Vnode<Base>* j : vars) {
-                Vnode<Base>* v = j->antiDerivative();
+            for (size_t p = firstNewDummy; p < dummyD_.size(); ++p) {
+                Vnode<Base>* v = dummyD_[p]->antiDerivative();
                 if (v != nullptr && v->antiDerivative() != nullptr) {
                     varsNew.push_back(v);
                 }
-- 
2.43.0


From de1cd50a359063206b4d7763ad800da4b16572dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 71/74] fix: access past the end of the variables when reducing
 equations

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index ad97b15..4a3c204 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -553,7 +553,7 @@ protected:
         for (int p = tapeIndexReduced2Short.size() - 1; p >= 0; p--) {
             if (tapeIndexReduced2Short[p] < 0) { // removed from model
                 newVarInfo.erase(newVarInfo.begin() + p);
-                for (size_t pp = 0; pp < tapeIndexReduced2Short.size(); pp++) {
+                for (size_t pp = 0; pp < newVarInfo.size(); pp++) {
                     DaeVarInfo& v = newVarInfo[pp];
                     if (v.getAntiDerivative() > p) {
                         v.setAntiDerivative(v.getAntiDerivative() - 1);
-- 
2.43.0


From 62d8581454fe5f3f51a5fb46a21d46ac5c84ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 72/74] fix: semi-explicit DAE with equations for integrals
 which were removed

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 4a3c204..2dc151b 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -653,6 +653,10 @@ protected:
             if (ita == assignedVar2Eq.end()) {
                 throw CGException("Failed to generate semi-explicit DAE: unable to create an explicit equation for ", jj.getName());
             }
+            if (varInfo[jj.getAntiDerivative()].getAntiDerivative() >= 0) {
+                // its integral is also removed, no variable would be left for this equation
+                throw CGException("Failed to generate semi-explicit DAE: ", jj.getName(), " is not a first order time derivative");
+            }
 
             int bestEquation = ita->second;
 
-- 
2.43.0


From 3db9160aec2c1568449795f235dba1c85f0d2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 73/74] fix: equations keep variables assigned to other
 equations

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 2dc151b..cfcbdf1 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -923,6 +923,12 @@ protected:
                     int i = j->assignmentEquation()->index();
                     DaeEquationInfo& eq = eqInfo[i];
 
+                    // the variable is no longer determined by another equation
+                    for (DaeEquationInfo& other : eqInfo) {
+                        if (&other != &eq && other.getAssignedVarIndex() == int(j->tapeIndex()))
+                            other.setAssignedVarIndex(-1);
+                    }
+
                     if (eq.getAssignedVarIndex() != int(j->tapeIndex())) {
                         eq.setAssignedVarIndex(j->tapeIndex());
                     }
-- 
2.43.0


From 28b7a7621e5d52ea7533431576236b2c8c45bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 74/74] fix: unsolvable dummy derivative prevents the index
 reduction

---
 .../cppad/cg/dae_index_reduction/dummy_deriv.hpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index cfcbdf1..7ad7e55 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -1006,8 +1006,11 @@ protected:
             // the derivative variable will disappear, associate the equation with the original variable
             //newEqInfo[bestEquation].setAssignedVarIndex(jj.getAntiDerivative());
         } catch (const CGException& ex) {
+            if (varInfo[j.tapeIndex()].getAntiDerivative() >= 0)
+                throw CGException("Failed to solve equation ", i.name(), " for variable ", j.name(), ": ", ex.what());
+
             // unable to solve for a dummy variable: keep the equation and variable
-            throw CGException("Failed to solve equation ", i.name(), " for variable ", j.name(), ": ", ex.what());
+            return false;
         }
 
 
@@ -1395,6 +1398,11 @@ protected:
                                        MatrixB& work) {
 
         if (eqs.size() == vars.size()) {
+#ifndef NDEBUG
+            for (Vnode<Base>* it : vars) {
+                CPPADCG_ASSERT_UNKNOWN(std::find(dummyD_.begin(), dummyD_.end(), it) == dummyD_.end());
+            }
+#endif
             dummyD_.insert(dummyD_.end(), vars.begin(), vars.end());
             if (this->verbosity_ >= Verbosity::High) {
                 log() << "# new dummy derivatives: ";
@@ -1404,11 +1412,6 @@ protected:
             }
             return;
         }
-#ifndef NDEBUG
-            for (Vnode<Base>* it : vars) {
-                CPPADCG_ASSERT_UNKNOWN(std::find(dummyD_.begin(), dummyD_.end(), it) == dummyD_.end());
-            }
-#endif
 
         /**
          * Determine the columns/variables that must be removed
-- 
2.43.0

