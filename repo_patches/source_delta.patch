From 6f1c96e87bdfd541344495435294e6e8436e9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 01/64] fix: Element::assembleM adds to the inertia matrix, not
 to the damping matrix

---
 src/lib/elements/element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..0bb3ceb 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -343,7 +343,7 @@ void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofTy
           if ((i==j) && (dj<di)) {
             continue;
           } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
             Me_p++;
           }
         }
-- 
2.43.0


From e7275a4d2a3e07156df8c8e1c82e6de4ca939a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 02/64] fix: block matrix built on another one's sparsity does
 not count its rows twice

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From f233cee938ddc07e036d8a90249a39b1ba8d3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 03/64] fix: setSparsityInfo drops the values kept for the
 previous sparsity

---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..fec829d 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -343,6 +343,11 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+  // values allocated for the previous sparsity make no sense for the new one
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0


From 581da697493db83b53e9e3f0eb608c24d1ae91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 04/64] fix: SparseSymMatrix::reinit keeps the diagonal as the
 constructor does

---
 src/lib/math/SparseMatrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index fec829d..63e7e69 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -446,6 +446,10 @@ SparseSymMatrix::SparseSymMatrix(std::shared_ptr<SparsityInfo> spar_info) :
 
 void SparseSymMatrix::reinit(uint32 _nrows, uint32 _max_in_row) {
   si = std::shared_ptr<SparsityInfo>(new SparsityInfo(_nrows, _nrows, _max_in_row));
+  // NOTE: need to add diagonal elements because MKL PARDISO need it anyway
+  for (uint32 i = 1; i <= si->nRows; i++) {
+    si->addEntry(i, i);
+  }
   if (values) {
     delete[] values;
     values = nullptr;
-- 
2.43.0


From 176204b7c57e82603dbb8f71ff7ff3b047a6237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 05/64] fix: PARDISO solver redoes the symbolic factorization
 for another sparsity and can be destroyed unused

---
 src/lib/math/EquationSolver.cpp | 10 +++++++++-
 src/lib/math/EquationSolver.h   |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..681fc09 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -135,7 +135,9 @@ bool GaussDenseEquationSolver::_solve(double* X, double* A,
 
 #ifdef NLA3D_USE_MKL
 PARDISO_equationSolver::~PARDISO_equationSolver () {
-  releasePARDISO();
+  if (!firstRun) {
+    releasePARDISO();
+  }
 }
 
 void PARDISO_equationSolver::solveEquations (math::SparseSymMatrix* matrix, double* rhs, double* unknowns) {
@@ -166,8 +168,14 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
+  // symbolic factorization is valid only for the sparsity it was made for
+  if (!firstRun && analyzed != matrix->getSparsityInfo()) {
+    releasePARDISO();
+    firstRun = true;
+  }
   if (firstRun) {
     initializePARDISO(matrix);
+    analyzed = matrix->getSparsityInfo();
   }
   firstRun = false;
 
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..f43eff7 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -70,6 +70,8 @@ protected:
 	int msglvl = 0; 
   
   bool firstRun = true;
+  // sparsity for which the symbolic factorization was performed
+  std::shared_ptr<SparsityInfo> analyzed;
   // real symmetric undifinite defined matrix
 	int mtype = -2; 
 };
-- 
2.43.0


From d99b38f84c150d5f891be5416146cbb705b26b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 06/64] fix: PARDISO pivots indefinite matrices, systems with
 MPC rows lost all accuracy

---
 src/lib/math/EquationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 681fc09..5156203 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -217,10 +217,12 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	iparm[7] = 2; //max numbers of iterative refinement steps
 	iparm[9] = 13; //pertrub the pivor elements with 1e-13
 	iparm[10] = 1; //use nonsymmetric permutation  and scaling MPS
+	iparm[12] = 1; //symmetric weighted matching, zero diagonals (MPC rows) need it
 	iparm[13]=0; //output: number of perturbed pivots
 	iparm[17]=-1; //output: number of nonzeros in the factor LU
 	iparm[18]=-1; //output: MFLOPS for LU factorization
 	iparm[19] = 0; //output: number of CG Iterations
+	iparm[20] = 1; //1x1 and 2x2 Bunch-Kaufman pivoting for indefinite matrices
 
   LOG_IF(!isSymmetric, FATAL) << "For now PARDISO_equationSolver doesn't support non-symmetric matrices";
 	if (isPositive) {
-- 
2.43.0


From 515da3b308f6368e2136d480ab1bdc33ab25c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:27 +0000
Subject: [PATCH 07/64] fix: TimeControl makes exactly the requested number of
 steps and ends at the end time

---
 src/lib/FESolver.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..37d4e3d 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -39,16 +39,20 @@ bool TimeControl::nextStep(double delta) {
   if (currentTime >= endTime) {
     return false;    
   }
+  // round-off errors accumulated in currentTime shouldn't produce additional steps
+  const double eps = 1.0e-6 * delta;
   // if delta bigger than endTime-currentTime
-  if (currentTime + delta >= endTime) {
+  if (currentTime + delta >= endTime - eps) {
     currentTimeDelta = endTime - currentTime;
-  } else if (currentTime + 2*delta >= endTime) {
+    currentTime = endTime;
+  } else if (currentTime + 2*delta >= endTime - eps) {
     currentTimeDelta = (endTime - currentTime)/2.0;
+    currentTime += currentTimeDelta;
   } else {
     currentTimeDelta = delta;
+    currentTime += currentTimeDelta;
   }
   DCHECK (currentTimeDelta > 0.0);
-  currentTime += currentTimeDelta;
   currentEquilibriumStep = 0;
   LOG(INFO) << "***** Loadstep = " << getCurrentStep() << ", Time = "
       << getCurrentTime() << " of " << getEndTime();
-- 
2.43.0


From a6522ec7fc9c81cf0fe78ea26b27ff2b8e9ec811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:27 +0000
Subject: [PATCH 08/64] fix: time stepping begins from the given start time

---
 src/lib/FESolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 37d4e3d..0ec033b 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -107,15 +107,19 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time stepping begins from the start time
+  if (currentTime == startTime) {
+    currentTime = _startTime;
+  }
   startTime = _startTime;
 }
 
-- 
2.43.0


From dff4876e53a499b62b2ffe17b3040049d70d4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 09/64] fix: nonlinear solver does not accept the iteration
 that moves prescribed DoFs, its reactions are only linearized

---
 src/lib/FESolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 0ec033b..1361746 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -485,7 +485,10 @@ void NonlinearFESolver::solve() {
       //          need to compare currentCriteria with 1.0 
       // TODO: 2. Current convergence criteria is not good. We need to introduce equilibrium balance
       //          criteria too along with kinematic one. 
-      if (currentCriteria < convergenceCriteria) {
+      // While prescribed DoFs are still moving the reactions are just linearized with respect to
+      // them, such a state can't be accepted even if unknown DoFs stay at rest.
+      double constrainedCriteria = deltaUc.size() ? calculateCriteria(deltaUc) : 0.0;
+      if (currentCriteria < convergenceCriteria && constrainedCriteria < convergenceCriteria) {
         converged = true;
         break;
       }
-- 
2.43.0


From 37fe1ba96a3dfcdee45ecbbd695cf2e97b3eb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 10/64] fix: Newmark velocity update weights old and new
 accelerations as the scheme says

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 1361746..6a266ee 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -628,7 +628,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From f84877aae53f86f021f2542ba1051958d6c64c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 11/64] fix: transient solver takes prescribed DoF values into
 account

---
 src/lib/FESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 6a266ee..65c286c 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -620,6 +620,8 @@ void LinearTransientFESolver::solve() {
 
       // copy constrained dofs values
       vecUnextc = vecUc;
+      // need to take into account elimination of constrained DoFs (they are constant in time)
+      matBTVprod(*(matK->block(1,2)), vecUc, -1.0, rhs);
       // solve equation system
       eqSolver->substituteEquations(&matKmod, &rhs[0], &vecUnextsl[0]);
 
-- 
2.43.0


From 51c996beb8d94db18de52f2bce4063128b8d2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 12/64] fix: transient solver makes exactly the requested
 number of time steps

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 65c286c..d32a8cb 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -612,7 +612,7 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
-- 
2.43.0


From d0881730daf64c2b0ce149158dbcf35df746a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 13/64] fix: TRIANGLE4 plane stress elastic matrix is
 E/(1-my^2), not E*(1-my^2)

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..3792365 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -111,7 +111,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From ed796a5a7a3a9a816706147e497cb3d5a8fed0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 14/64] fix: TRIANGLE4 strains and stresses don't accumulate
 from one update to another

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 3792365..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From 69faf8ebebe8b758a39f844754a735c25b3a0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 15/64] fix: TETRA1 conductivity matrix is positive and GRADT
 has the sign of the gradient

---
 src/lib/elements/TETRA1.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From aa8086186a6b15042def560e5bd5cad8405b813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 16/64] fix: INTER0 builds its local basis for any normal

---
 src/lib/elements/INTER0.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..02a2cbb 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -23,7 +23,13 @@ void ElementINTER0::buildK() {
   K.setZero();
 
   //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
+  // (take the coordinate axis which is the farthest from the normal)
+  uint16 axis = 0;
+  for (uint16 i = 1; i < 3; i++) {
+    if (fabs(n[i]) < fabs(n[axis])) axis = i;
+  }
+  math::Vec<3> s1(0., 0., 0.);
+  s1[axis] = 1.;
   //ортогонализаця базиса
   math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
   s1 = s1 - proj_s1_n;
-- 
2.43.0


From 7a9d766857f5e09b72b883b7eef217c8e4153a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 17/64] fix: INTER3 strains and stresses are averaged over the
 surface, not integrated

---
 src/lib/elements/INTER3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..16e9856 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -93,8 +93,9 @@ void ElementINTER3::update () {
     }
   }
 
+  // averaged over the surface (area of the triangle is det/2)
   Eigen::VectorXd strainsE(3);
-  strainsE = U2S - U1S;
+  strainsE = (U2S - U1S) / (0.5 * det);
 
   Eigen::MatrixXd D(3,3);
   make_D(D);
-- 
2.43.0


From e53678c76f8d1af684d91a117eb87e7ed04b9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:56 +0000
Subject: [PATCH 18/64] fix: TETRA0 stresses don't include thermal expansion,
 results aren't taken for initial strains

---
 src/lib/elements/TETRA0.cpp | 48 +++++++++++++++++++++----------------
 src/lib/elements/TETRA0.h   | 10 +++++++-
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..cf5c824 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -12,6 +12,11 @@ void ElementTETRA0::pre () {
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY, Dof::UZ});
   }
+  // until the first results are obtained stress and strains hold the initial values
+  if (!hasResults) {
+    initStress = stress;
+    initStrains = strains;
+  }
 }
 
 // here stiffness matrix is built
@@ -43,7 +48,8 @@ void ElementTETRA0::buildK() {
 
   math::matBTDBprod(matB, matC, vol, matKe);
 
-  if ((alpha != 0. && T != 0.) || strains.qlength() != 0. || stress.qlength() != 0.){
+  math::Vec<6> strains0 = makeInitStrains(matC);
+  if (strains0.qlength() != 0.){
     //node forces calculations
     math::Vec<12> Fe;
     Fe.zero();
@@ -51,24 +57,7 @@ void ElementTETRA0::buildK() {
     math::Mat<12,6> matBTC;
     matBTC = matB.transpose()*matC.toMat();
 
-    //mechanical initial stress
-    if (stress.qlength() != 0.){
-      strains.zero();
-      math::Mat<6,6> matP;
-      matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
-    }
-    
-    //termal initial strains
-    if (alpha != 0. && T != 0.){
-      //temp node forces
-      math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
-    }
-
-
-    //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, strains0, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
@@ -103,8 +92,27 @@ void ElementTETRA0::update () {
   strains.zero();
   math::matBVprod(matB, U, -1.0, strains);
   
+  // initial strains don't produce stresses
   stress.zero();
-  math::matBVprod(matC, strains, 1.0, stress);
+  math::Vec<6> elasticStrains = strains - makeInitStrains(matC);
+  math::matBVprod(matC, elasticStrains, 1.0, stress);
+  hasResults = true;
+}
+
+math::Vec<6> ElementTETRA0::makeInitStrains(math::MatSym<6> &matC) {
+  math::Vec<6> strains0 = initStrains;
+  //mechanical initial stress
+  if (initStress.qlength() != 0.){
+    math::Mat<6,6> matP;
+    matP = matC.toMat().inv(matC.toMat().det());
+    strains0 = matP*initStress;
+  }
+  //termal initial strains
+  if (alpha != 0. && T != 0.){
+    math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
+    strains0 = strains0 + tStrains;
+  }
+  return strains0;
 }
 
 void ElementTETRA0::makeB(math::Mat<6,12> &B)
diff --git a/src/lib/elements/TETRA0.h b/src/lib/elements/TETRA0.h
index c37124c..ee04146 100644
--- a/src/lib/elements/TETRA0.h
+++ b/src/lib/elements/TETRA0.h
@@ -36,6 +36,8 @@ public:
 
   void makeB (math::Mat<6,12> &B);
   void makeC (math::MatSym<6> &C);
+  // all initial strains of the element: mechanical and thermal
+  math::Vec<6> makeInitStrains (math::MatSym<6> &C);
 
   // Elastic module
   double E = 0.0;
@@ -55,11 +57,17 @@ public:
   //strains[M_XX], strains[M_YY], strains[M_ZZ], strains[M_XY], strains[M_YZ], strains[M_XZ]
   math::Vec<6> strains;
 
-  double vol;
+  double vol = 0.0;
 
   //postproc procedures
   bool getScalar(double* scalar, scalarQuery code, uint16 gp, const double scale);
   bool getTensor(math::MatSym<3>* tensor, tensorQuery code, uint16 gp, const double scale);
+
+private:
+  // initial stress and strains, i.e. the values which stress and strains have before the solution
+  math::Vec<6> initStress;
+  math::Vec<6> initStrains;
+  bool hasResults = false;
 };
 
 } //namespace nla3d
-- 
2.43.0


From 3a067a5d2fc879e7e0423162ea7897bd831573cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:56 +0000
Subject: [PATCH 19/64] fix: TETRA0, INTER0 and INTER3 scale queried results,
 INTER3 answers unsupported queries with false

---
 src/lib/elements/INTER0.cpp |  6 +++---
 src/lib/elements/INTER3.cpp | 13 +++++++------
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 3 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 02a2cbb..f4ad327 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -77,9 +77,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 16e9856..f9727d0 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -216,23 +216,24 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index cf5c824..8006270 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -208,7 +208,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -216,27 +216,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 16a29410b1f108d5eddd0485c0adbc3c329e33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:26 +0000
Subject: [PATCH 20/64] fix: Mooney-Rivlin material misspells its own name

---
 src/lib/materials/materials_hyperelastic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/materials_hyperelastic.h b/src/lib/materials/materials_hyperelastic.h
index 6b81b28..ee35e4b 100644
--- a/src/lib/materials/materials_hyperelastic.h
+++ b/src/lib/materials/materials_hyperelastic.h
@@ -95,7 +95,7 @@ class Mat_Comp_MooneyRivlin : public Mat_Hyper_Isotrop_General
 	
 	Mat_Comp_MooneyRivlin () {
 		register_mat_const(3,"C10","C01","K");
-    name = "Money-Rivlin";
+    name = "Mooney-Rivlin";
 	}
 	void W_first_derivatives (double I1, double I2, double I3, double *alpha);
 	void W_second_derivatives (double I1, double I2, double I3, double *alpha);
-- 
2.43.0


From c7eec207c071c6dd24d2493ba6bc0728b73ea725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:26 +0000
Subject: [PATCH 21/64] fix: unknown material constant name returns a reference
 to a dead local

---
 src/lib/materials/material.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/materials/material.cpp b/src/lib/materials/material.cpp
index bf31414..8cbdbab 100755
--- a/src/lib/materials/material.cpp
+++ b/src/lib/materials/material.cpp
@@ -34,7 +34,8 @@ double& Material::Ci (const std::string& nameConst) {
     }
   }
 	LOG(ERROR) << "Dan't find a material constant with name " << nameConst;
-  double dummy;
+  static double dummy;
+  dummy = 0.0;
   return dummy;
 }
 
-- 
2.43.0


From ce0d4083ca9aecfac55e5bdf13ecf99b934304b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:21 +0000
Subject: [PATCH 22/64] fix: deleteMesh leaves pointers to the deleted MPCs in
 the storage

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From ddfce3569ecf97b555b84c6c0913674b6c3b76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:21 +0000
Subject: [PATCH 23/64] fix: destructors of classes deleted through a base
 pointer are virtual

---
 src/lib/Mpc.h                | 1 +
 src/lib/PostProcessor.h      | 2 +-
 src/lib/materials/material.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..43918dd 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() = default;
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..0add1cc 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -15,7 +15,7 @@ class FESolver;
 class PostProcessor {
 public:
 	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
+	virtual ~PostProcessor() { };
 	virtual void pre ()=0;
 	virtual void process (uint16 curLoadstep)=0;
 	virtual void post (uint16 curLoadstep)=0;
diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..058fe02 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -17,7 +17,7 @@ public:
 	Material () : MC(NULL), numC(0), code(0) { 
 	}
 	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
+	virtual ~Material()
 	{
 		if (MC) delete[] MC; 
 		MC = NULL;
-- 
2.43.0


From ec641fc74e6c42bc1a46e4b480d020ee73542f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:21 +0000
Subject: [PATCH 24/64] fix: the second solution of a model counts constrained
 DoFs twice and leaks matrices

---
 src/lib/FEStorage.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 4445412..9d07681 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -344,6 +344,8 @@ void FEStorage::initDofs() {
   
   nodeDofs.initDofTable(nNodes());
   elementDofs.initDofTable(nElements());
+  // new DoF tables have no constrained DoFs
+  _nConstrainedDofs = 0;
 
 	for (uint32 el = 0; el < nElements(); el++) {
     elements[el]->pre();
@@ -471,6 +473,13 @@ void FEStorage::initSolutionData () {
   //  | Rc | =-| Fc | + | Kcc | * | Uc | + |KcsMPCc| * |    |
   //  |    |   |    |   |     |   |    |   |       |   | Ul |
 
+  // drop matrices of a previous solution
+  delete matK;
+  delete matC;
+  delete matM;
+  matC = nullptr;
+  matM = nullptr;
+
   matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()});
 
   if (transient) {
-- 
2.43.0


From b92c5e00257b146af0e89b00428bfbb3290196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 25/64] fix: rigid body constraints are registered again in
 every solution of a model

---
 src/lib/FEStorage.cpp | 9 +++++++++
 src/lib/FEStorage.h   | 2 ++
 src/lib/Mpc.cpp       | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 9d07681..0c93388 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -278,6 +278,15 @@ void FEStorage::deleteMpcs() {
 }
 
 
+void FEStorage::deleteMpc(Mpc* mpc) {
+  auto it = std::find(mpcs.begin(), mpcs.end(), mpc);
+  if (it != mpcs.end()) {
+    delete *it;
+    mpcs.erase(it);
+  }
+}
+
+
 void FEStorage::deleteMpcCollections() {
 
   for (size_t i = 0; i < mpcCollections.size(); i++) {
diff --git a/src/lib/FEStorage.h b/src/lib/FEStorage.h
index 7aeea8d..6b8fd1e 100755
--- a/src/lib/FEStorage.h
+++ b/src/lib/FEStorage.h
@@ -240,6 +240,8 @@ public:
   // delete MPC list: delete all dynamically allocated Mpc instances,
   // and clear vector of pointers `mpcs`.
   void deleteMpcs();
+  // delete one Mpc instance and remove it from the list (does nothing if it is not in the list)
+  void deleteMpc(Mpc* mpc);
   void deleteMpcCollections();
   void deleteFeComponents();
   // delete elementDofs and nodeDofs arrays (and free the memory)
diff --git a/src/lib/Mpc.cpp b/src/lib/Mpc.cpp
index bbd54f0..51a5c7e 100644
--- a/src/lib/Mpc.cpp
+++ b/src/lib/Mpc.cpp
@@ -50,6 +50,10 @@ RigidBodyMpc::~RigidBodyMpc () {
 }
 
 void RigidBodyMpc::pre () {
+  // drop equations registered for a previous solution
+  for (auto mpc : collection) {
+    storage->deleteMpc(mpc);
+  }
   // create Mpc for all nodes and all dofs..
   collection.assign(slaveNodes.size() * dofs.size(), NULL);
   for (size_t i = 0; i < slaveNodes.size(); i++) {
-- 
2.43.0


From 909b3bf36794eff1b5f70cd941380c5339d8a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 26/64] fix: PLANE41 writes invariants past the end of the
 queried vector

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From 735efb5fed98e2b04e631a2c700ac86453f92972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 27/64] fix: PLANE41 Cauchy stresses ignore the scale and use
 transposed deformation gradient

---
 src/lib/elements/PLANE41.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..c2cd108 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -246,8 +246,9 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       matF.zero();
       matF.data[0][0] = 1+O[gp][0]; //11
-      matF.data[0][1] = O[gp][1];  //12
-      matF.data[1][0] = O[gp][2];  //21
+      // matF^T
+      matF.data[1][0] = O[gp][1];  //12
+      matF.data[0][1] = O[gp][2];  //21
       matF.data[1][1] = 1+O[gp][3];//22
       matF.data[2][2] = 1; //33
 
@@ -264,7 +265,7 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From 834894c09dcc03789cf7532541c92a46e50b4bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 28/64] fix: SOLID81 queried stresses count hydrostatic
 pressure twice

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..9d8ea46 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains deviatoric and hydrostatic parts
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains deviatoric and hydrostatic parts
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From acc6561dc3e7367f0cd1b35f9b6d5f2bbb94527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 29/64] fix: SOLID81 strain energy isn't a function of
 isochoric invariants

---
 src/lib/elements/SOLID81.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index 9d8ea46..09b5286 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -218,7 +218,9 @@ bool ElementSOLID81::getScalar(double* scalar, scalarQuery query, uint16 gp, con
     case scalarQuery::WU:
       getVector(&tmp, vectorQuery::IC, gp, 1.0);
       mat = CHECK_NOTNULL(dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial()));
-      *scalar += mat->W(tmp[0], tmp[1], tmp[2]) * scale;
+      // the potential is a function of isochoric invariants
+      J = tmp[2];
+      *scalar += mat->W(tmp[0] * pow(J, -2.0/3.0), tmp[1] * pow(J, -4.0/3.0), 1.0) * scale;
       return true;
 
     case scalarQuery::WP:
-- 
2.43.0


From 9a160a4885729c6cf154879f8360878b5479477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 30/64] fix: CE records are read past the end of a row

A row of a CE record holds two terms, the last one of an odd number of terms
is alone in its row. The reader took max() instead of min() of the terms left.
---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..3d8abd5 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -560,8 +560,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
       while (n_terms > 0) {
         getLine(file, line);
         t.tokenize(line);
-        uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        const int terms_in_row = std::min(n_terms, 2);
+        for (int i = 0; i < terms_in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From e0d6ec1129e4ba854570e67e79dd9a7227643915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 31/64] fix: cdb records with missing fields are read past the
 last token

Tokenizer::getTokenString() was declared but not defined, it checks the bounds now.
---
 src/lib/FEReaders.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 3d8abd5..2cbf879 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -3,6 +3,7 @@
 // https://github.com/dmitryikh/nla3d 
 
 #include "FEReaders.h"
+#include <stdexcept>
 #include <unordered_map>
 #include <algorithm>
 
@@ -243,13 +244,21 @@ int Tokenizer::tokenize(const string& line) {
 }
 
 
+string& Tokenizer::getTokenString(size_t ind) {
+  if (ind >= tokens.size()) {
+    throw std::invalid_argument("Tokenizer: the line has no field no. " + std::to_string(ind));
+  }
+  return tokens[ind];
+}
+
+
 int Tokenizer::tokenInt(size_t ind) {
-  return std::stoi(tokens[ind]);
+  return std::stoi(getTokenString(ind));
 }
 
 
 double Tokenizer::tokenDouble(size_t ind) {
-  return std::stod(tokens[ind]);
+  return std::stod(getTokenString(ind));
 }
 
 bool readNeuFile(std::string filename, MeshData& md)
@@ -449,7 +458,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       The final line of the block will be a -1 in field 1. */
 
       //TODO: It seems that getline keeps windows line ending
-      bool isSolid = iequals(t.tokens[2], "SOLID");
+      bool isSolid = t.tokens.size() > 2 && iequals(t.tokens[2], "SOLID");
       // parse format string
       getLine(file, line);
       stolower(strim(line));
@@ -563,7 +572,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         const int terms_in_row = std::min(n_terms, 2);
         for (int i = 0; i < terms_in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
-          Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
+          Dof::dofType dof = Dof::label2dofType(t.getTokenString(3 + 3 * i + 1));
           double coef = t.tokenDouble(3 + 3 * i + 2);
           mpc->eq.push_back(MpcTerm(node,dof,coef));
           n_terms--;
@@ -578,12 +587,12 @@ bool readCdbFile(std::string filename, MeshData& md) {
       //      5037     -5341      6330     -6352      6355      6357      6433     -6456
       //      6459      6470     -6473      6537     -6556      6566     -6569      6633
       //     -6652
-      if (t.tokens[1][0] != '_') {
+      if (t.getTokenString(1)[0] != '_') {
         // we work only with component names started not with underscore '_'
         FEComponent comp;
         comp.name = t.tokens[1];
         // NODE or ELEMENT component?
-        comp.type = FEComponent::typeFromString(stoupper(t.tokens[2]));
+        comp.type = FEComponent::typeFromString(stoupper(t.getTokenString(2)));
 
         size_t numRanges = t.tokenInt(3);
         getLine(file, line);
@@ -661,7 +670,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       try {
         type = t.tokenInt(1);
       } catch (const std::invalid_argument& ia) {
-        type = static_cast<uint32>(apdlParameters[t.tokens[1]]);
+        type = static_cast<uint32>(apdlParameters[t.getTokenString(1)]);
       }
     } // ETYPE
     else if (iequals(t.tokens[0], "TYPE")) {
@@ -713,7 +722,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       // try to read parameter's name and it's value as double
       // if fail - skip this expression
       try {
-        parName = t.tokens[1];
+        parName = t.getTokenString(1);
         value = t.tokenDouble(2);
         isNumeric = true;
       } catch (const std::invalid_argument& ia) {
-- 
2.43.0


From 560280eceb9dffbf5609f036a2d79959e485f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 32/64] fix: blank and short rows of NBLOCK and EBLOCK tables
 are read past their end

---
 src/lib/FEReaders.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 2cbf879..27d5a29 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -139,7 +139,8 @@ string& stoupper(string& str) {
 
 char sfirstNotBlank(const string& str) {
   size_t st = str.find_first_not_of(space_chars, 0);
-  return str[st];
+  // str[str.size()] is a reference to '\0'
+  return str[std::min(st, str.size())];
 }
 
 
@@ -412,6 +413,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         // check for the end of nodal table
         char ch = sfirstNotBlank(line);
         if (ch == '-' || ch == 'N') break;
+        if (ch == '\0') continue;
 
         auto v = ssplit(line, widths, false);
         // column no. 1 - node number
@@ -483,6 +485,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         // check for the end of element table
         char ch = sfirstNotBlank(line);
         if (ch == '-' || ch == 'N') break;
+        if (ch == '\0') continue;
 
         auto v = ssplit(line, widths, false);
 
@@ -495,7 +498,10 @@ bool readCdbFile(std::string filename, MeshData& md) {
         uint32 SHAPE = 0;
         uint32 nNodes = 0;
         uint32 elNumber = 0;
-        size_t st = 0;
+        size_t st = isSolid ? 11 : 5;
+        if (v.size() < st) {
+          LOG(FATAL) << "Not enought fields to read element attributes: \"" << line << "\"";
+        }
         if (isSolid) {
           MAT = static_cast<uint32>(std::stoi(v[0]));
           ETYPE = static_cast<uint32>(std::stoi(v[1]));
@@ -505,7 +511,6 @@ bool readCdbFile(std::string filename, MeshData& md) {
           SHAPE = static_cast<uint32>(std::stoi(v[7]));
           nNodes = static_cast<uint32>(std::stoi(v[8]));
           elNumber = static_cast<uint32>(std::stoi(v[10]));
-          st = 11;
         } else {
           elNumber = static_cast<uint32>(std::stoi(v[0]));
           // based on my experiments on *.apdl files this field is about etype, but not about secnum
@@ -515,8 +520,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
           CS = static_cast<uint32>(std::stoi(v[4]));
 
           // in this case we need to determine number of nodes by ourselfs
-          nNodes = v.size() - 5;
-          st = 5;
+          nNodes = v.size() - st;
         }
         vector<uint32> enodes;
         
-- 
2.43.0


From c044c621cc3d9cf8d328d7691bbb7e594ae8b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 33/64] fix: CMBLOCK with more than 65535 records never ends,
 short rows are read past their end

---
 src/lib/FEReaders.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 27d5a29..174e71f 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -619,8 +619,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
           widths.push_back(int_field);
         }
 
-        uint16 in_row = 0;
-        uint16 all = 0;
+        size_t in_row = 0;
+        size_t all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
@@ -629,19 +629,23 @@ bool readCdbFile(std::string filename, MeshData& md) {
         auto v = ssplit(line, widths, false);
         size_t numEntity = 0;
         while (all < numRanges) {
-           if (in_row == int_num) {
+           if (in_row == static_cast<size_t>(int_num)) {
               getLine(file, line);
               v = ssplit(line, widths, false);
               in_row = 0;
            }
+           if (in_row >= v.size()) {
+              LOG(FATAL) << "Not enought fields to read component " << comp.name;
+           }
            rangesVec.push_back(std::stoi(v[in_row]));
            if (rangesVec[all] > 0) {
               numEntity++;
            } else {
               // if next index is negative that means a range with step 1
               // for example: 4 -9 --> 4 5 6 7 8 9
-              assert(all > 0);
-              assert(rangesVec[all-1] > 0);
+              if (all == 0 || rangesVec[all-1] <= 0 || rangesVec[all] > -rangesVec[all-1]) {
+                LOG(FATAL) << "Wrong range of numbers in component " << comp.name;
+              }
               numEntity += -rangesVec[all] - rangesVec[all-1];
            }
            in_row ++;
-- 
2.43.0


From bf6e2496b96995d8715630eaa5e7b323fc14f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 34/64] fix: getCellsByAttribute reads an empty array for an
 attribute the mesh doesn't have

---
 src/lib/FEReaders.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 174e71f..4bd72a7 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -98,8 +98,13 @@ std::vector<uint32> MeshData::getDegeneratedCells() {
 
 std::vector<uint32> MeshData::getCellsByAttribute(std::string atr_name, uint32 atr_val) {
   std::vector<uint32> res;
+  auto atr = cellIntData.find(atr_name);
+  if (atr == cellIntData.end()) {
+    LOG(WARNING) << "Cells have no attribute " << atr_name;
+    return res;
+  }
   for (size_t i = 0; i < cellNumbers.size(); i++) {
-    if (cellIntData[atr_name][i] == atr_val) {
+    if (atr->second[i] == atr_val) {
       res.push_back(i);
     }
   }
-- 
2.43.0


From d6a78497dc2745bd7d07fae341e3507babed8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 35/64] fix: readNeuFile accepts truncated and damaged files

Failed reads left zeroes in the mesh (and the function returned true), a negative
or a huge number of nodes was passed to resize().
---
 src/lib/FEReaders.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 4bd72a7..4f6c7b5 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -278,24 +278,23 @@ bool readNeuFile(std::string filename, MeshData& md)
   md.clear();
    
   // read nodes section 
-  int nodesCount;
+  int nodesCount = 0;
   file >> nodesCount;    
-  md.nodesPos.resize(nodesCount);
-  md.nodesNumbers.reserve(nodesCount);
   
-  for (int node_num(0); node_num < nodesCount; ++node_num) { 
+  for (int node_num(0); file && node_num < nodesCount; ++node_num) { 
+    Vec<3> pos;
     for (int col(0); col < 3; ++col) {
-      file >> md.nodesPos[node_num][col];
+      file >> pos[col];
     }
+    md.nodesPos.push_back(pos);
     md.nodesNumbers.push_back(node_num+1);
   }
   
   // read volumes section 
-  int volumesCount;
+  int volumesCount = 0;
   file >> volumesCount; 
-  md.cellNumbers.reserve(volumesCount);
   vector<uint32> enodes(4, 0);
-  for (uint32 volume_num(0); volume_num < volumesCount; ++volume_num) {
+  for (int volume_num(0); file && volume_num < volumesCount; ++volume_num) {
     int mat_num;
     file >> mat_num;    
     md.cellIntData["MAT"].push_back(mat_num);
@@ -309,9 +308,9 @@ bool readNeuFile(std::string filename, MeshData& md)
   }
   
   // read surfaces section
-  int surfaceCount;
+  int surfaceCount = 0;
   file >> surfaceCount;  
-  for (int surfNum(0); surfNum < surfaceCount; ++surfNum) {
+  for (int surfNum(0); file && surfNum < surfaceCount; ++surfNum) {
     string compname;
     file >> compname;
     auto it = md.feComps.find(compname);
@@ -327,6 +326,11 @@ bool readNeuFile(std::string filename, MeshData& md)
       it->second.list.push_back(node);
     }
   }
+  if (!file) {
+    LOG(WARNING) << "Neu file " << filename << " is incomplete or damaged";
+    md.clear();
+    return false;
+  }
   file.close();
   return true;
 }
-- 
2.43.0


From f4278fc3aecb524e427fdafe4749c91a9527a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 36/64] fix: compressNumbers leaves nodes which aren't listed
 in ascending order

Users of a compressed mesh take the i-th position for the node number i+1,
but numbers 1..n in another order weren't changed. An empty mesh dereferenced end().
---
 src/lib/FEReaders.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 4f6c7b5..3297c97 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -34,8 +34,12 @@ void MeshData::clear() {
 
 
 void MeshData::compressNumbers() {
-  // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  // numbers should be 1, 2, 3 .. in the order of the nodes
+  bool compressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size() && compressed; i++) {
+    compressed = (nodesNumbers[i] == i + 1);
+  }
+  if (compressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From 679c3167a1419a992575b6577c65b1258ae57340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 37/64] fix: VtkProcessor adds tensor results to uninitialized
 memory

---
 src/lib/VtkProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..6296845 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -263,7 +263,10 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
 
   // write Element tensor results (only if they are requested in cellScalarQueries)
   for(auto query : cellTensorQueries) {
-    dataTensor.assign(en, MatSym<3>());
+    // NOTE: MatSym isn't initialized by default
+    MatSym<3> zeroTensor;
+    zeroTensor.zero();
+    dataTensor.assign(en, zeroTensor);
     for (uint32 i = 1; i <= storage->nElements(); i++) {
       // dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
-- 
2.43.0


From 7f31d358281c4fe4c7c260a7f2cee6d2b37cc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 38/64] fix: ReactionProcessor doesn't notice differently
 constrained nodes

Automatic choice of DoFs is documented to fail for nodes with different
constrained DoFs, but the condition could be true for unused DoFs only.
---
 src/lib/ReactionProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..e99b16f 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -41,7 +41,7 @@ void ReactionProcessor::pre() {
     uint32 n = 0;
     while (sameDofsConstrained && n < nodes.size()) {
       for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
           LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
           sameDofsConstrained = false;
           break;
-- 
2.43.0


From 97942de9c2aac3b5bb841e05be9b5f75f45b8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 39/64] fix: ReactionProcessor without nodes or without access
 to its file writes past its history

pre() returned before the history was allocated and process() used it.
---
 src/lib/ReactionProcessor.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index e99b16f..24909df 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -19,6 +19,7 @@ ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : Pos
 void ReactionProcessor::pre() {
 	if (nodes.size() == 0) {
     LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
+    sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
     return;
   }
 
@@ -64,6 +65,11 @@ void ReactionProcessor::pre() {
       n++;
     }
   }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    //sumOfDofsReactions[d].reserve(qLoadstep+1);
+    sumOfDofsReactions[d].push_back(0.0);
+  }
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::trunc);
     if (!file) {
@@ -81,11 +87,6 @@ void ReactionProcessor::pre() {
     file << std::endl;
     file.close();
   }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
 }
 
 void ReactionProcessor::process (uint16 curLoadstep) {
@@ -98,6 +99,9 @@ void ReactionProcessor::process (uint16 curLoadstep) {
     }
   }
 
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    sumOfDofsReactions[d].push_back(reactions[d]);
+  }
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::app);
     if (!file) {
@@ -111,9 +115,6 @@ void ReactionProcessor::process (uint16 curLoadstep) {
     file << std::endl;
     file.close();
   }
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    sumOfDofsReactions[d].push_back(reactions[d]);
-  }
 }
 
 
-- 
2.43.0


From 23df3dbc8cb2eb973559b4335c4ed71989504a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 40/64] fix: dMat loses its values when assigned to itself

resize() frees and zeroes the data before they are copied.
---
 src/lib/math/Mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..ddb7bd2 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -500,6 +500,7 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from) return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From 324d37e7b7db7d2820ae71b1e5a814a4ea740b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 41/64] fix: dMat::toMat/toVec read past the end of a smaller
 dMat

The target is allowed to be bigger than dMat, only dimM x dimN values are there to copy.
---
 src/lib/math/Mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index ddb7bd2..8c4f763 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -535,8 +535,8 @@ Mat<M,N> dMat::toMat()
 {
 	assert(M >= dimM && N >= dimN); //Mat >= dMat
 	Mat<M,N> tmp;
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
+	for (uint16 i = 0; i < dimM; i++)
+		for (uint16 j = 0; j < dimN; j++)
 			tmp[i][j] = (*this)[i][j];
 	return tmp;
 }
@@ -546,7 +546,7 @@ Vec<M> dMat::toVec(uint16 col)
 {
 	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
 	Vec<M> tmp;
-	for (uint16 i = 0; i < M; i++)
+	for (uint16 i = 0; i < dimM; i++)
 		tmp[i] = (*this)[i][col];
 	return tmp;
 }
-- 
2.43.0


From 735612c3519af749a2d00c70d02231783807f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 42/64] fix: dMat's operator<< writes to std::cout instead of
 the given stream

---
 src/lib/math/Mat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.cpp b/src/lib/math/Mat.cpp
index fdefd4d..031561f 100755
--- a/src/lib/math/Mat.cpp
+++ b/src/lib/math/Mat.cpp
@@ -50,10 +50,10 @@ Mat<3,3> Mat<3,3>::inv(double det) {
 std::ostream &operator<<(std::ostream &stream, dMat &obj) {
 	for (uint16 i = 0; i < obj.dimM; i++)
 	{
-		std::cout << "[";
+		stream << "[";
 		for (uint16 j = 0; j < obj.dimN; j++)
-			std::cout << obj[i][j] << " ";
-		std::cout << "]" << std::endl;
+			stream << obj[i][j] << " ";
+		stream << "]" << std::endl;
 	}
 	return stream;
 }
-- 
2.43.0


From 0228d4f9ea1b8f69adc00a98c91e6f3cdcbf7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 43/64] fix: Mat::eigenvalues returns NaN for multiple
 eigenvalues

For matrices like the identity A is zero, for nearly equal eigenvalues
round-off errors bring the argument of acos out of [-1; 1].
---
 src/lib/math/Mat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 8c4f763..90a982b 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -316,9 +316,12 @@ Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
 	// x*x*x + a * x * x + b * x  + c == 0
 	double p = b - a * a / 3;
 	double q = 2 * a * a * a / 27 - a * b / 3 + c;
-	double A = sqrt(- 4 * p / 3); 
+	// p <= 0 and |c3phi| <= 1 for real roots, but round-off errors can break it (multiple eigenvalues)
+	double A = (p < 0.0) ? sqrt(- 4 * p / 3) : 0.0; 
  
-	double c3phi = - 4 * q / (A * A * A);
+	double c3phi = (A > 0.0) ? - 4 * q / (A * A * A) : 1.0;
+	if (!(c3phi < 1.0)) c3phi = 1.0;
+	if (c3phi < -1.0) c3phi = -1.0;
  
 	double phi = acos(c3phi) / 3;  
  
-- 
2.43.0


From 9736c13d090999ea70c9493dd26b2ebe63dc0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 44/64] fix: dVec assignment from a part of itself reads freed
 memory

A dVec pointing to a part of another one can be assigned to it: the memory was
released before the values were copied. Overlapping parts were copied with memcpy.
---
 src/lib/math/Vec.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..2654662 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -224,9 +224,17 @@ dVec& dVec::operator=(const dVec& op) {
   } else if (!op.isInit()) {
     clear();
   } else {
-      if (_size != op.size())
-        reinit(op.size());
-      memcpy(data, op.data, sizeof(double) * op.size());
+      if (!isInit() || _size != op.size()) {
+        // op can point to the memory of this vector: take a copy before the memory is freed
+        dVec tmp(op);
+        clear();
+        std::swap(data, tmp.data);
+        std::swap(memory_owner, tmp.memory_owner);
+        std::swap(_size, tmp._size);
+      } else {
+        // op and this can overlap when they point to the same memory
+        memmove(data, op.data, sizeof(double) * op.size());
+      }
   }
   return *this;
 }
-- 
2.43.0


From 84dc3a8c6429b875972c705100e651c06c061e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 45/64] fix: compare() of vectors and matrices accepts NaN as
 equal to any value

---
 src/lib/math/Mat.h            | 4 ++--
 src/lib/math/SparseMatrix.cpp | 2 +-
 src/lib/math/Vec.cpp          | 2 +-
 src/lib/math/Vec.h            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 90a982b..166cdf0 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -390,7 +390,7 @@ bool Mat<dimM,dimN>::compare (const Mat<dimM,dimN> &B, double eps) {
     double *Bp = (double*) B.data;
 	for (uint16 i = 0; i < dimM; i++) {
 		for (uint16 j = 0; j < dimN; j++) {
-			if (fabs(*Dp-*Bp) > eps) {
+			if (!(fabs(*Dp-*Bp) <= eps)) {
         LOG(INFO) << "Mat[" << i << "][" << j << "]: " << *Dp << " != " << *Bp;
 				return false;
 			}
@@ -645,7 +645,7 @@ bool MatSym<dimM>::compare (MatSym<dimM> &B, double eps)
 	uint16 l = getLength();
 	for (uint16 i=0;i<l;i++)
 	{
-		if (fabs(*Dp-*Bp) > eps) {
+		if (!(fabs(*Dp-*Bp) <= eps)) {
 			return false;
 		}
 		Dp++;
diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 63e7e69..3be1797 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -251,7 +251,7 @@ bool BaseSparseMatrix::compare(const BaseSparseMatrix& op2, double th) {
 
   // fourth round. compare values with thresholds
   for (uint32 i = 0; i < op1.nValues(); i++) {
-    if (fabs(op1.values[i] - op2.values[i]) > th) {
+    if (!(fabs(op1.values[i] - op2.values[i]) <= th)) {
       return false;
     }
   }
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 2654662..6ab04cf 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -251,7 +251,7 @@ bool dVec::compare(const dVec& op2, double th) {
 
   // second round. compare values
   for (uint32 i = 0; i < op1.size(); i++) {
-    if (fabs(op1.data[i] - op2.data[i]) > th) {
+    if (!(fabs(op1.data[i] - op2.data[i]) <= th)) {
       return false;
     }
   }
diff --git a/src/lib/math/Vec.h b/src/lib/math/Vec.h
index b161513..c323da0 100755
--- a/src/lib/math/Vec.h
+++ b/src/lib/math/Vec.h
@@ -175,7 +175,7 @@ template<uint16 dim> bool Vec<dim>::compare (Vec<dim>& V, double eps)
 	double *Vp = V.ptr();
 	for (uint16 j=0;j<dim;j++)
 	{
-		if (fabs((double)*Dp-*Vp) > eps) {
+		if (!(fabs((double)*Dp-*Vp) <= eps)) {
 			return false;
 		}
 		Dp++;
-- 
2.43.0


From d19d4beeb9b385fb65a59e95b6d258d59138be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:53 +0000
Subject: [PATCH 46/64] fix: text formats of vectors and matrices don't keep
 the values

dVec was written with 6 significant digits (that is worse than the default
threshold of compareMatricesAndVectors), sparse matrices with 16. The flags of
the stream weren't restored.
---
 src/lib/math/SparseMatrix.cpp | 5 +++--
 src/lib/math/Vec.cpp          | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 3be1797..1d8bd33 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -186,7 +186,8 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(values);
   assert(si->compressed);
   // we need to return back old preferences after usage
-  auto old_precision = out.precision(15);
+  // 17 significant digits bring back exactly the same double
+  auto old_precision = out.precision(16);
   auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   // write header: nRows, nColumns, numberOfValues
   out << si->nRows << ' ' << si->nColumns << ' ' << si->numberOfValues << std::endl;
@@ -200,7 +201,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 6ab04cf..4fc4207 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -261,10 +261,16 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // 17 significant digits bring back exactly the same double
+  auto old_precision = out.precision(16);
+  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  // return back old setup
+  out.precision(old_precision);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From c38c65397cdf992c2dc96d47f6b7210e2b751469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:13 +0000
Subject: [PATCH 47/64] fix: reading of missing or truncated text files uses
 uninitialized sizes

Sizes and entries that couldn't be read were left uninitialized. Now it's a fatal
error like other problems with comparing of matrices and vectors.
---
 src/lib/math/SparseMatrix.cpp | 4 +++-
 src/lib/math/Vec.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 1d8bd33..c5b1072 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -207,13 +207,15 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
 
 void BaseSparseMatrix::readCoordinateTextFormat(std::istream& in) {
   std::vector<SparseEntry> entries;
-  uint32 _nrows, _ncols, _nvalues;
+  uint32 _nrows = 0, _ncols = 0, _nvalues = 0;
   // read header: nRows, nColumns, numberOfValues
   in >> _nrows >> _ncols >> _nvalues;
+  CHECK(!in.fail()) << "Can't read the header of a sparse matrix";
   entries.reserve(_nvalues);
   for (uint32 i = 1; i <= _nvalues; i++) {
     SparseEntry entry;
     in >> entry.i >> entry.j >> entry.v;
+    CHECK(!in.fail()) << "Can't read a value of a sparse matrix";
     entries.push_back(entry);
   }
   reinit(_nrows, _ncols, entries);
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 4fc4207..3926d64 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -275,11 +275,13 @@ void dVec::writeTextFormat(std::ostream& out) {
 
 
 void dVec::readTextFormat(std::istream& in) {
-  uint32 _len;
+  uint32 _len = 0;
   in >> _len;
+  CHECK(!in.fail()) << "Can't read the size of a vector";
   reinit(_len);
   for (uint32 i = 0; i < _len; i++) {
     in >> data[i];
+    CHECK(!in.fail()) << "Can't read a value of a vector";
   }
 }
 
-- 
2.43.0


From 1b55f970298591e3129d7ad688423e18a06c673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 48/64] fix: the second solve() of NonlinearFESolver does
 nothing

TimeControl kept the time of the previous solution, so no load step was done
and the results stayed zero.
---
 src/lib/FESolver.cpp | 12 ++++++++++++
 src/lib/FESolver.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index d32a8cb..b992e0a 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -124,6 +124,16 @@ void TimeControl::setStartTime(double _startTime) {
 }
 
 
+void TimeControl::rewind() {
+  convergedTimeInstances.clear();
+  equilibriumSteps.clear();
+  currentEquilibriumStep = 0;
+  totalNumberOfEquilibriumSteps = 0;
+  currentTimeDelta = 0.0;
+  currentTime = startTime;
+}
+
+
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
 // FESolver
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
@@ -444,6 +454,8 @@ void NonlinearFESolver::solve() {
   }
 
   double currentCriteria = 0.0;
+  // the solver could have been used already
+  timeControl.rewind();
   double timeDelta = (timeControl.getEndTime() - timeControl.getStartTime()) / numberOfLoadsteps;
 
   while (timeControl.nextStep(timeDelta)) {
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 2f72603..8ca501e 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -44,6 +44,8 @@ public:
 
   void setEndTime (double _endTime);
   void setStartTime (double _startTime);
+  // forget all the steps that were done and start from the very beginning
+  void rewind ();
 protected:
   std::list<double> convergedTimeInstances;
   std::list<uint16> equilibriumSteps;
-- 
2.43.0


From e8d97b1a738c58f160d03d8e243aa68cbd4abe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 49/64] fix: nla3d reads past the given material constants when
 there are too few of them

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..473ed8d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -171,9 +171,11 @@ int main (int argc, char* argv[]) {
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    exit(1);
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From 64e7c1a0ff75b23de56c8847411a0af3fcd76ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 50/64] fix: nla3d reads past the nodes of an element of
 another shape in release builds

---
 src/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 473ed8d..4fcfa14 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -200,7 +200,11 @@ int main (int argc, char* argv[]) {
   sind = storage.createElements(ind.size(), options::elementType);
   for (uint32 i = 0; i < sind.size(); i++) {
     Element& el = storage.getElement(sind[i]);
-    assert(el.getNNodes() == md.cellNodes[ind[i]].size());
+    if (el.getNNodes() != md.cellNodes[ind[i]].size()) {
+      LOG(ERROR) << "Element " << md.cellNumbers[ind[i]] << " has " << md.cellNodes[ind[i]].size()
+          << " nodes, but " << el.getNNodes() << " nodes are needed";
+      exit(1);
+    }
     for (uint16 j = 0; j < el.getNNodes(); j++) {
       el.getNodeNumber(j) = md.cellNodes[ind[i]][j];
     }
-- 
2.43.0


From 9b2887018466e91fb4191b688981271629301254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 51/64] fix: nla3d takes another node for the master node of
 the rigid body

The number given in the command line was used after the node numbers had been
compressed.
---
 src/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 4fcfa14..42fffb2 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,6 +168,15 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+  if (options::rigidBodyMasterNode > 0) {
+    // the node has another number after the compression
+    auto master = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(), options::rigidBodyMasterNode);
+    if (master == md.nodesNumbers.end()) {
+      LOG(ERROR) << "There is no master node " << options::rigidBodyMasterNode << " for the rigid body MPC";
+      exit(1);
+    }
+    options::rigidBodyMasterNode = (master - md.nodesNumbers.begin()) + 1;
+  }
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-- 
2.43.0


From 2ad31bb6eb0032a5c5564a1ae28ca4fbbf4154b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 52/64] fix: nla3d reports wrong slave DoFs of the rigid body

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 42fffb2..239e9ac 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -296,7 +296,7 @@ int main (int argc, char* argv[]) {
     std::vector<std::string> slaveDofLabels;
     slaveDofLabels.assign(mpc->dofs.size(), "");
     for (uint16 i = 0; i < mpc->dofs.size(); i++) {
-      slaveDofLabels[i] = Dof::dofTypeLabels[i];
+      slaveDofLabels[i] = Dof::dofTypeLabels[mpc->dofs[i]];
     }
 
     LOG(INFO) << "Rigid Body MPC collection: master node = " << mpc->masterNode << ", number of slaves = " <<  
-- 
2.43.0


From 7a4febb47cebadd688152a53def02470af9f183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 53/64] fix: nla3d drops repeated values of the reference curve

---
 src/main.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 239e9ac..dbaa130 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -358,19 +358,14 @@ std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
   double tmp;
-  double pre_tmp = -1.0;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
-    }
+  while (file >> dummy >> dummy >> tmp) {
+    res.push_back(tmp);
   }
   file.close();
   return res;
-- 
2.43.0


From ef476d6f3bad6addb794284b20fb00a470df7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:06 +0000
Subject: [PATCH 54/64] fix: CHECK_NOTNULL doesn't check anything

A missing material, equation solver or storage ended in a null pointer dereference
instead of an error message.
---
 src/lib/sys.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/sys.h b/src/lib/sys.h
index 68373a9..d38250b 100755
--- a/src/lib/sys.h
+++ b/src/lib/sys.h
@@ -40,10 +40,14 @@
   #define sprintf_s snprintf
 #endif
 
-// TODO:
 // for some reasons CHECK_NOTNULL from easylogging++ doesn't work on Apple's clang and g++
+template <typename T>
+T* checkNotNull(T* ptr, const char* name) {
+  CHECK(ptr != nullptr) << name << " must not be null";
+  return ptr;
+}
 #undef CHECK_NOTNULL
-#define CHECK_NOTNULL(x) x
+#define CHECK_NOTNULL(x) checkNotNull(x, #x)
 
 // usefull macros to check floats with threshold
 #define CHECK_EQTH(a, b, th) CHECK(fabs(a-b) < th)
-- 
2.43.0


From 70deb4e4f160ecd232e4e6f74fc13f8c2ca5a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:06 +0000
Subject: [PATCH 55/64] fix: nla3d goes on with unknown DoF labels

---
 src/main.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index dbaa130..93ec580 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -36,6 +36,15 @@ namespace options {
   std::vector<Dof::dofType> rigidBodyDofs;
 };
 
+Dof::dofType parseDof (const char* label) {
+  Dof::dofType dof = Dof::label2dofType(label);
+  if (dof == Dof::UNDEFINED) {
+    LOG(ERROR) << "Unknown degree of freedom " << label;
+    std::exit(1);
+  }
+  return dof;
+}
+
 bool parse_args (int argc, char* argv[]) {
   if (argc < 2) {
     return false;
@@ -95,7 +104,7 @@ bool parse_args (int argc, char* argv[]) {
     } else  {
       options::reactionComponentName = vtmp[0];
       for (size_t i = 1; i < vtmp.size(); i++) {
-        options::reactionDofs.push_back(Dof::label2dofType(vtmp[i])); 
+        options::reactionDofs.push_back(parseDof(vtmp[i])); 
       }
     }
   }
@@ -114,7 +123,7 @@ bool parse_args (int argc, char* argv[]) {
         options::rigidBodyDofs.push_back(Dof::UZ);
       } else {
         for (size_t i = 2; i < vtmp.size(); i++) {
-          options::rigidBodyDofs.push_back(Dof::label2dofType(vtmp[i])); 
+          options::rigidBodyDofs.push_back(parseDof(vtmp[i])); 
         }
       }
     }
-- 
2.43.0


From 791b88b12338360115040da20f36b4247a29d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 56/64] fix: PARDISO solver returns non-finite numbers for some
 singular matrices

---
 src/lib/math/EquationSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 5156203..ec60d75 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -163,6 +163,10 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 			NULL, &nrhs, iparm, &msglvl, rhs, unknowns, &error);
 
 	CHECK(error == 0) << "ERROR during solution. Error code = " << error;
+  // PARDISO doesn't report some of singular matrices by an error code
+  for (uint32 i = 0; i < nEq; i++) {
+    CHECK(std::isfinite(unknowns[i])) << "ERROR during solution. The matrix is singular";
+  }
 }
 
 
-- 
2.43.0


From c2c45168c6fc53dff99725ddca071da296d7c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:38 +0000
Subject: [PATCH 57/64] fix: transient analysis with 65535 time steps never
 ends

---
 src/lib/FESolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index b992e0a..afe7dcd 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -566,7 +566,8 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  // wider than numberOfTimesteps in order to be able to exceed it
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
-- 
2.43.0


From 81933cdfeae127e80b519c6f8fcec72b2a100921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 58/64] fix: total number of equilibrium iterations wraps after
 65535

---
 src/lib/FESolver.cpp | 2 +-
 src/lib/FESolver.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index afe7dcd..c48f0ce 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -26,7 +26,7 @@ uint16 TimeControl::getCurrentEquilibriumStep() {
 }
 
 
-uint16 TimeControl::getTotalNumberOfEquilibriumSteps() {
+uint32 TimeControl::getTotalNumberOfEquilibriumSteps() {
   return totalNumberOfEquilibriumSteps; 
 }
 
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 8ca501e..45dfead 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -30,7 +30,7 @@ public:
   uint16 getNumberOfConvergedSteps ();
 
   uint16 getCurrentEquilibriumStep ();
-  uint16 getTotalNumberOfEquilibriumSteps ();
+  uint32 getTotalNumberOfEquilibriumSteps ();
 
   bool nextStep (double delta);
   void nextEquilibriumStep ();
@@ -50,7 +50,7 @@ protected:
   std::list<double> convergedTimeInstances;
   std::list<uint16> equilibriumSteps;
   uint16 currentEquilibriumStep = 0;
-  uint16 totalNumberOfEquilibriumSteps = 0;
+  uint32 totalNumberOfEquilibriumSteps = 0;
   double currentTimeDelta = 0.0;
   double endTime = 1.0;
   double startTime = 0.0;
-- 
2.43.0


From 3632b50686aa303ddefc94a036d49b6f751fce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:40 +0000
Subject: [PATCH 59/64] fix: a copy of an element shares and frees the node
 list of the original

---
 src/lib/elements/element.cpp | 10 ++++++++++
 src/lib/elements/element.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/lib/elements/element.cpp b/src/lib/elements/element.cpp
index b195a4d..4c14540 100755
--- a/src/lib/elements/element.cpp
+++ b/src/lib/elements/element.cpp
@@ -12,6 +12,16 @@ Element::Element () {
 }
 
 
+Element::Element (const Element& from)
+  : type(from.type), shape(from.shape), intOrder(from.intOrder), elNum(from.elNum),
+    storage(from.storage) {
+  if (from.nodes) {
+    nodes = new uint32[getNNodes()];
+    memcpy(nodes, from.nodes, sizeof(uint32)*getNNodes());
+  }
+}
+
+
 Element::~Element() {
   if (nodes) {
     delete[] nodes;
diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0bb3ceb..77a914c 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -86,6 +86,8 @@ static const uint16 _shape_nnodes[] = {
 class Element {
   public: 
     Element ();
+    // the copy gets a list of node numbers of its own
+    Element (const Element& from);
     virtual ~Element();
 
     // get element number, as it is stored in FEStorage. Numbers start from 1.
-- 
2.43.0


From 7a5bf222cab74b3ef7caf7a470a711dda3279ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 60/64] fix: status of a post-processor shows its activity as
 its failure

---
 src/lib/PostProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PostProcessor.cpp b/src/lib/PostProcessor.cpp
index 43c3477..80189f3 100755
--- a/src/lib/PostProcessor.cpp
+++ b/src/lib/PostProcessor.cpp
@@ -15,7 +15,7 @@ PostProcessor::PostProcessor(FEStorage *st) {
 
 std::string PostProcessor::getStatus () {
 	char buf[300];
-	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",active?"true":"false");
+	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",failed?"true":"false");
 	return std::string(buf);
 }
 
-- 
2.43.0


From 047acbbb52626ef132470d830a0a3bb158f464ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:18 +0000
Subject: [PATCH 61/64] fix: copies of PLANE41 and SOLID81 elements lose their
 type and integration order

---
 src/lib/elements/PLANE41.h | 4 ----
 src/lib/elements/SOLID81.h | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/lib/elements/PLANE41.h b/src/lib/elements/PLANE41.h
index 9639b52..a6263a2 100755
--- a/src/lib/elements/PLANE41.h
+++ b/src/lib/elements/PLANE41.h
@@ -18,10 +18,6 @@ class ElementPLANE41 : public ElementIsoParamQUAD {
       type = ElementType::PLANE41;
     }
 
-    ElementPLANE41 (const ElementPLANE41& from) {
-      operator=(from);
-    }
-
     //solving procedures
     void pre();
     void buildK();
diff --git a/src/lib/elements/SOLID81.h b/src/lib/elements/SOLID81.h
index 5407773..49b60a3 100644
--- a/src/lib/elements/SOLID81.h
+++ b/src/lib/elements/SOLID81.h
@@ -17,10 +17,6 @@ class ElementSOLID81 : public ElementIsoParamHEXAHEDRON {
       intOrder = 2;
       type = ElementType::SOLID81;
     }
-    ElementSOLID81 (const ElementSOLID81& from) {
-      operator=(from);
-    }
-
     //solving procedures
     void pre();
     void buildK();
-- 
2.43.0


From 1386b9c156f9a70b84aaf35a61cd04922e92a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:51 +0000
Subject: [PATCH 62/64] fix: DoF labels of cdb records in lower case were not
 recognised

---
 src/lib/FEReaders.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 3297c97..abc9979 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -568,7 +568,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       }
       if (isNumeric) {
         // node and value field are number, we can deal with in. In other cases these can be 'all',
-        bnd.node_dof = Dof::label2dofType(t.tokens[2]);
+        bnd.node_dof = Dof::label2dofType(stoupper(t.tokens[2]));
         md.fixBcs.push_back(bnd);
       }
     }//D
@@ -589,7 +589,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         const int terms_in_row = std::min(n_terms, 2);
         for (int i = 0; i < terms_in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
-          Dof::dofType dof = Dof::label2dofType(t.getTokenString(3 + 3 * i + 1));
+          Dof::dofType dof = Dof::label2dofType(stoupper(t.getTokenString(3 + 3 * i + 1)));
           double coef = t.tokenDouble(3 + 3 * i + 2);
           mpc->eq.push_back(MpcTerm(node,dof,coef));
           n_terms--;
@@ -728,7 +728,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         } else if (iequals(t.tokens[2], "FZ")) {
           bnd.node_dof = Dof::UZ;
         } else {
-          bnd.node_dof = Dof::label2dofType(t.tokens[2]);
+          bnd.node_dof = Dof::label2dofType(stoupper(t.tokens[2]));
         }
         md.loadBcs.push_back(bnd);
       }
-- 
2.43.0


From 23a9d81d012e5d76db8aa47b2c3f7fd1f61abf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 63/64] fix: recompute Jacobians of elements when they are set
 up again

Elements PLANE41, SOLID81 and QUADTH kept form function derivatives and
determinants of their first solution, so an analysis of a model whose nodes
were moved since then used the old geometry.
---
 src/lib/elements/PLANE41.cpp | 5 ++---
 src/lib/elements/QUADTH.cpp  | 5 ++---
 src/lib/elements/SOLID81.cpp | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index c2cd108..d3cf9ee 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -13,9 +13,8 @@ const uint16 ElementPLANE41::num_components = 3;
 
 //------------------ElementPLANE41--------------------
 void ElementPLANE41::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // positions of the nodes could be changed since the last solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<3>(0.0f, 0.0f, 0.0f));
   C.assign(nOfIntPoints(), Vec<3>(1.0f, 1.0f, 0.0f));
diff --git a/src/lib/elements/QUADTH.cpp b/src/lib/elements/QUADTH.cpp
index a7a8b00..757b398 100644
--- a/src/lib/elements/QUADTH.cpp
+++ b/src/lib/elements/QUADTH.cpp
@@ -9,9 +9,8 @@ using namespace math;
 
 
 void ElementQUADTH::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // positions of the nodes could be changed since the last solution
+  makeJacob();
 
   // register element equations
   for (uint16 i = 0; i < getNNodes(); i++) {
diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index 09b5286..6e4480c 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -10,9 +10,8 @@ using namespace solidmech;
 
 
 void ElementSOLID81::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // positions of the nodes could be changed since the last solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<6>(0.0, 0.0, 0.0, 0.0, 0.0, 0.0));
   C.assign(nOfIntPoints(), Vec<6>(1.0, 0.0, 0.0, 1.0, 0.0, 1.0));
-- 
2.43.0


From f059dc35909eeb8e8e42b1fa4f1f0eff0c68cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:55 +0000
Subject: [PATCH 64/64] fix: in-place operators of the python module do not
 hand over memory

The default rules of SWIG turn the reference returned by operator+= into a
new python object which owns the memory: 'node.pos += v' freed a part of the
node when the object was dropped, 'a += b' on an aliased vector freed memory
which the alias still used. The changed object itself is returned now.
---
 python/nla3d.swg | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index 5cf1689..988adc6 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -41,6 +41,37 @@ using namespace nla3d;
   }
 }
 
+// in-place operators. Default rules of SWIG make a new python object, which owns the memory of the
+// changed object (it is freed while other python or c++ objects still use it). The changed object itself
+// has to be returned.
+%define INPLACE_ADD(TYPE...)
+  %pythoncode {
+    def __iadd__(self, op):
+      self._iadd(op)
+      return self
+  }
+  void _iadd(const TYPE& op) {
+    *$self += op;
+  }
+%enddef
+
+%define INPLACE_SUB(TYPE...)
+  %pythoncode {
+    def __isub__(self, op):
+      self._isub(op)
+      return self
+  }
+  void _isub(const TYPE& op) {
+    *$self -= op;
+  }
+%enddef
+
+%ignore nla3d::math::Vec::operator+=;
+%ignore nla3d::math::dVec::operator+=;
+%ignore nla3d::math::dVec::operator-=;
+%ignore nla3d::math::Mat::operator+=;
+%ignore nla3d::math::MatSym::operator+=;
+
 // Vec.h
 %ignore nla3d::math::dVec::dVec(nla3d::math::dVec &&);
 %ignore nla3d::math::dVec::operator[](uint32 _n);
@@ -56,6 +87,7 @@ using namespace nla3d;
 %define VEC_EXTEND(N)
 %template(Vec ## N) nla3d::math::Vec<N>;
 %extend nla3d::math::Vec<N> {
+  INPLACE_ADD(nla3d::math::Vec<N>)
   %pythoncode { 
     def __str__(self): 
       _list = []
@@ -85,6 +117,8 @@ VEC_EXTEND(7)
 
 //dVec
 %extend nla3d::math::dVec {
+  INPLACE_ADD(nla3d::math::dVec)
+  INPLACE_SUB(nla3d::math::dVec)
   %pythoncode { 
     def __str__(self): 
       _list = []
@@ -112,6 +146,7 @@ VEC_EXTEND(7)
 %define MAT_EXTEND(M, N)
 %template(Mat ## M ## N) nla3d::math::Mat<M, N>;
 %extend nla3d::math::Mat<M, N> {
+  INPLACE_ADD(nla3d::math::Mat<M, N>)
   %pythoncode { 
     def __str__(self):
       return str(self.to_list())
@@ -212,6 +247,7 @@ MAT_EXTEND(3,3)
 %define MATSYM_EXTEND(M)
 %template(MatSym ## M) nla3d::math::MatSym<M>;
 %extend nla3d::math::MatSym<M> {
+  INPLACE_ADD(nla3d::math::MatSym<M>)
   %pythoncode { 
     def __str__(self):
       _list = []
-- 
2.43.0

