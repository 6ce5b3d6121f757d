From a37ba876f16f5eadf78210399c2ea0fecfaaf725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 01/44] fix: limiters read boundary ghost states from the ghost
 array

Barth-Jespersen and Venkatakrishnan indexed the cell state array with the
index of a physical boundary ghost cell, which lies beyond its end.
---
 src/spatial/limitedlinearreconstruction.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..3401a23 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -123,6 +123,8 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 	const GradBlock_t<scalar,NDIM,nvars> *const grads
 		= reinterpret_cast<const GradBlock_t<scalar,NDIM,nvars>*>(gradarray);
 
+	const fint nallcell = m->gnelem()+m->gnConnFace();
+
 #pragma omp parallel for default(shared)
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
@@ -132,7 +134,9 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// cells beyond the subdomain and connectivity ghost cells are physical boundary ghosts
+				const scalar uj = jel < nallcell ? u(jel,ivar) : ug(jel-nallcell,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -216,6 +220,8 @@ void VenkatakrishnanLimiter<scalar,nvars>
 	const GradBlock_t<scalar,NDIM,nvars> *const grads
 		= reinterpret_cast<const GradBlock_t<scalar,NDIM,nvars>*>(gradarray);
 
+	const fint nallcell = m->gnelem()+m->gnConnFace();
+
 #pragma omp parallel for default(shared)
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
@@ -227,7 +233,9 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// cells beyond the subdomain and connectivity ghost cells are physical boundary ghosts
+				const scalar uj = jel < nallcell ? u(jel,ivar) : ug(jel-nallcell,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From e8026d210d38466f101d20c8714f0f54a04a584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 02/44] fix: identify connectivity faces by the global
 neighbour

An interior face of the global mesh can have all its points on the physical
boundary. Such a face was not recognised as a connectivity face when the
partition boundary ran along it: its flux was lost and the two neighbouring
ranks disagreed about the number of faces they share.
---
 src/mesh/meshpartitioning.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..5cf27b5 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -308,18 +308,13 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 		{
 			if(lm.esuel(iel,iface) == -1)
 			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
+				/* The face is a connectivity face if the corresponding global element has a real neighbour
+				 * across it. Note that the ordering of faces within an element is not changed by the
+				 * restriction. Whether the points of the face lie on a physical boundary says nothing,
+				 * as an interior face can have all its points on the boundary.
 				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
+				const fint globneighbor = gm.esuel(lm.globalElemIndex[iel],iface);
+				const bool isconnface = (globneighbor >= 0 && globneighbor < gm.nelem);
 				if(isconnface) {
 					connElemLocalFace[iel].push_back(iface);
 				}
-- 
2.43.0


From 97a0e2825a7bb5084b5da930395e26a855507fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 03/44] fix: atomic updates in the boundary loops of
 Green-Gauss gradients

A cell can have several physical boundary or connectivity faces, handled by
different threads.
---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From 655e27394d811800045ee2bd85867b25c3230f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 04/44] fix: initialise the Scotch graph before building it

SCOTCH_graphAlloc only allocates; SCOTCH_graphBuild then acts on whatever the
memory contained and may free stray pointers.
---
 src/mesh/meshpartitioning.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 5cf27b5..d7a577a 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -434,8 +434,9 @@ void ScotchRGMPartitioner::compute_partition()
 	if(rank == 0) {
 		printf(" Using Scotch to compute a partition..\n");
 		SCOTCH_Graph *sgraph = SCOTCH_graphAlloc();
+		int ierr = SCOTCH_graphInit(sgraph); fvens_throw(ierr, "Scotch could not initialize the graph!");
 		const ListOfArrays<fint> loa = getCellAdjLists(gm);
-		int ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
+		ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
 		                             loa.ptrs.back(), &loa.store[0], NULL);
 		fvens_throw(ierr, "Scotch could not build the global graph!");
 		ierr = SCOTCH_graphCheck(sgraph); fvens_throw(ierr, "Scotch graph is not consistent!");
-- 
2.43.0


From ed0ae6f73f8dfd8901c58ec1fadd1e557969b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 05/44] fix: reduce in place instead of aliasing the buffers of
 MPI_Allreduce

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..ef8e657 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -525,7 +525,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From a09bfeda5d450d4a57ec704979a89a64795160cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 06/44] fix: weight point values by each cell's area once

---
 src/spatial/aoutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 72431b684bc8fecee0c8b01b19eaa926d07beba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 07/44] fix: a solve that converges on its last permitted step
 has converged

---
 src/ode/aodesolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ef8e657..0adf63b 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -260,7 +260,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
-	if(step == config.maxiter) {
+	if(resi/initres > config.tol) {
 		tdata.converged = false;
 		if(mpirank == 0)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
@@ -616,7 +616,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.lin_cputime = linctime;
 
 	tdata.converged = false;
-	if(step < config.maxiter && (resi/initres <= config.tol))
+	if(resi/initres <= config.tol)
 		tdata.converged = true;
 	else if (step >= config.maxiter){
 		if(mpirank == 0) {
-- 
2.43.0


From 7d26a111aeb93fafc211db4ab1461485513db4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 08/44] fix: TVD Runge-Kutta evaluates each stage, steps
 forward and uses one global step

---
 src/ode/aodesolver.cpp | 68 +++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 0adf63b..8b94c12 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -676,28 +676,18 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
-
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
-	
+	// Solution at the beginning of the time step; uvec itself holds the stage solutions
+	MVector<freal> uold(m->gnelem(),nvars);
+
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
 	double initialwtime = (double)time1.tv_sec + (double)time1.tv_usec * 1.0e-6;
@@ -707,12 +697,23 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	{
 		freal dtmin=0;      //< Time step
 
+		{
+			ConstGhostedVecHandler<PetscScalar> uh(uvec);
+			const PetscScalar *const uarr = uh.getArray();
+#pragma omp parallel for simd default(shared)
+			for(fint iel = 0; iel < m->gnelem(); iel++)
+				for(int ivar = 0; ivar < nvars; ivar++)
+					uold(iel,ivar) = uarr[iel*nvars+ivar];
+		}
+
 		for(int istage = 0; istage < order; istage++)
 		{
+			{
+				MutableGhostedVecHandler<PetscScalar> rh(rvec);
+				PetscScalar *const rarr = rh.getArray();
 #pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
+				for(fint i = 0; i < (m->gnelem()+m->gnConnFace())*nvars; i++)
+					rarr[i] = 0;
 			}
 
 			// update residual
@@ -725,28 +726,35 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
 				dtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				// all subdomains must advance by the same time step
+				mpi_all_reduce<freal>(&dtmin, 1, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
-				for(int i = 0; i < nvars; i++)
+				MutableGhostedVecHandler<PetscScalar> uh(uvec);
+				Eigen::Map<MVector<freal>> u(uh.getArray(), locnelem, nvars);
+				ConstGhostedVecHandler<PetscScalar> rh(rvec);
+				Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+
+				// NOTE: compute_residual returns the negative of the flux balance
+#pragma omp parallel for simd default(shared)
+				for(fint iel = 0; iel < m->gnelem(); iel++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					for(int i = 0; i < nvars; i++)
+					{
+						u(iel,i) = tvdcoeffs(istage,0)*uold(iel,i)
+							+ tvdcoeffs(istage,1)*u(iel,i)
+							+ tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					}
 				}
 			}
-		}
-
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
 
+			ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -779,8 +787,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From 1751b852580b4b39dc49a1993d95b81b878050ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 09/44] fix: do not preallocate more blocks per row than the
 subdomain has cells

---
 src/linalg/alinalg.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..8047a40 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -49,12 +49,13 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			// a cell cannot couple to more cells than there are in the subdomain
+			dnnz[iel] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
 		for(fint iface = 0; iface < m->gnConnFace(); iface++)
-			onnz[m->gconnface(iface,0)] = 1;
+			onnz[m->gconnface(iface,0)] += 1;
 
 		ierr = MatSeqBAIJSetPreallocation(A, nvars, 0, &dnnz[0]); CHKERRQ(ierr);
 		ierr = MatMPIBAIJSetPreallocation(A, nvars, 0, &dnnz[0], 0, &onnz[0]); CHKERRQ(ierr);
@@ -66,7 +67,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem())*nvars;
 			}
 		}
 
@@ -74,7 +75,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iface = 0; iface < m->gnConnFace(); iface++)
 		{
 			for(int i = 0; i < nvars; i++)
-				onnz[m->gconnface(iface,0)*nvars+i] = nvars;
+				onnz[m->gconnface(iface,0)*nvars+i] += nvars;
 		}
 
 		ierr = MatSeqAIJSetPreallocation(A, 0, &dnnz[0]); CHKERRQ(ierr);
-- 
2.43.0


From 929b725d6c25dab9b590c2cccebe809ba4b4a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 10/44] fix: reordering the cells moves their region markers
 too

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0


From 377aff78b04799f49a3b70248b79d86372308d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 11/44] fix: update connectivity between subdomains after
 reordering the cells

---
 src/mesh/ameshutils.cpp |  2 ++
 src/mesh/mesh.cpp       | 44 +++++++++++++++++++++++++++++++++++++++++
 src/mesh/mesh.hpp       |  7 ++++++-
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index d8fc58e..27cbabe 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -90,6 +90,8 @@ StatusCode preprocessMesh(UMesh<scalar,NDIM>& m)
 
 			ierr = reorderMeshPetsc(ordstr, sd, m); CHKERRQ(ierr);
 		}
+
+		m.update_connectivityNeighbors();
 	}
 
 	m.compute_topological();
diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 284c760..cf8f816 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -19,6 +19,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <map>
 #include <fstream>
 #include <algorithm>
 #include <boost/algorithm/string.hpp>
@@ -89,9 +90,11 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
 	const amat::Array2d<int> tempregions = vol_regions;
+	std::vector<fint> newindex(nelem);
 
 	for(fint i = 0; i < nelem; i++)
 	{
+		newindex[permvec[i]] = i;
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
 		for(int j = 0; j < vol_regions.cols(); j++)
@@ -99,6 +102,47 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
+
+	// The cells adjoining connectivity faces have moved
+	for(fint iface = 0; iface < nconnface; iface++)
+		connface(iface,0) = newindex[connface(iface,0)];
+}
+
+template <typename scalar, int ndim>
+void UMesh<scalar,ndim>::update_connectivityNeighbors()
+{
+	// Connectivity faces shared with each neighboring subdomain; both sides order them by global face
+	std::map<int,std::map<fint,fint>> shared;
+	for(fint iface = 0; iface < nconnface; iface++)
+		shared[connface(iface,2)][connface(iface,4)] = iface;
+
+	const int tag = 0;
+	std::vector<MPI_Request> requests;
+	std::vector<std::vector<fint>> mycells(shared.size()), nbrcells(shared.size());
+	size_t inbd = 0;
+	for(const auto& nbd : shared)
+	{
+		for(const auto& face : nbd.second)
+			mycells[inbd].push_back(globalElemIndex[connface(face.second,0)]);
+		nbrcells[inbd].resize(nbd.second.size());
+
+		requests.resize(2*(inbd+1));
+		MPI_Isend(&mycells[inbd][0], mycells[inbd].size(), FVENS_MPI_INT, nbd.first, tag,
+		          PETSC_COMM_WORLD, &requests[2*inbd]);
+		MPI_Irecv(&nbrcells[inbd][0], nbrcells[inbd].size(), FVENS_MPI_INT, nbd.first, tag,
+		          PETSC_COMM_WORLD, &requests[2*inbd+1]);
+		inbd++;
+	}
+	MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+
+	inbd = 0;
+	for(const auto& nbd : shared)
+	{
+		size_t i = 0;
+		for(const auto& face : nbd.second)
+			connface(face.second,3) = nbrcells[inbd][i++];
+		inbd++;
+	}
 }
 
 /**	Stores (in array bpointsb) for each boundary point: the associated global point number and
diff --git a/src/mesh/mesh.hpp b/src/mesh/mesh.hpp
index 4cf3893..4dc6287 100644
--- a/src/mesh/mesh.hpp
+++ b/src/mesh/mesh.hpp
@@ -248,10 +248,15 @@ public:
 	/// Re-orders cells according to some permutation vector locally in the subdomain
 	/** \warning If reordering is needed, this function must be called immediately after reading
 	 * and distributing the mesh.
-	 * \todo TODO: Update connectivity data between subdomains after reordering the cells!
+	 * In case of several subdomains, \ref update_connectivityNeighbors must be called after it.
 	 */
 	void reorder_cells(const PetscInt *const permvec);
 
+	/// Gets the new global indices of external neighboring cells from the neighboring subdomains
+	/** Must be called by all processes after the cells have been re-ordered.
+	 */
+	void update_connectivityNeighbors();
+
 	/** Stores (in array bpointsb) for each boundary point: the associated global point number
 	 * and the two bfaces associated with it.
 	 */
-- 
2.43.0


From 2d26ed1943c8aa948a28fcbfc79ad239dbcbcc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 12/44] fix: complete the ghost update before the implicit
 solver gives up

SteadyBackwardEulerSolver threw between VecGhostUpdateBegin and
VecGhostUpdateEnd when the residual was not finite, leaving the scatter of the
state pending while the caller went on to use it.
---
 src/ode/aodesolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 8b94c12..ec1af3a 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -529,7 +529,9 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
-		// test for nan
+		ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+
+		// test for nan, only after the pending ghost update is complete
 		if(!std::isfinite(resi))
 			throw Numerical_error("Steady backward Euler diverged - residual is Nan or inf!");
 
@@ -554,8 +556,6 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 				writeStepToConvergenceHistory(convline, std::cout);
 			}
 		}
-
-		ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
 	}
 
 	const double finalwtime = MPI_Wtime();
-- 
2.43.0


From 242c824de4b6bb28c125528c5c77f90910c09ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 13/44] fix: a steady solve whose last update is NaN or
 infinite has not converged

The residual norm that decides convergence is that of the state before the last
update; when that update produced NaN or infinity the solvers still reported
convergence.
---
 src/ode/aodesolver.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ec1af3a..0db2aa4 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -266,6 +266,13 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
 		throw Tolerance_error("Steady forward Euler did not converge to specified tolerance!");
 	}
+	// the residual was that of the state before the last update
+	PetscReal solnorm;
+	ierr = VecNorm(uvec, NORM_1, &solnorm); CHKERRQ(ierr);
+	if(!std::isfinite(solnorm)) {
+		tdata.converged = false;
+		throw Numerical_error("Steady forward Euler diverged - solution is Nan or inf!");
+	}
 	if(mpirank == 0) {
 		std::cout << " SteadyForwardEulerSolver: solve(): Done. ";
 		std::cout << " CPU time = " << tdata.ode_cputime << std::endl;
@@ -630,6 +637,13 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 		}
 		throw Numerical_error("Steady backward Euler blew up!");
 	}
+	// the residual was that of the state before the last update
+	PetscReal solnorm;
+	ierr = VecNorm(uvec, NORM_1, &solnorm); CHKERRQ(ierr);
+	if(!std::isfinite(solnorm)) {
+		tdata.converged = false;
+		throw Numerical_error("Steady backward Euler diverged - solution is Nan or inf!");
+	}
 
 	ierr = VecDestroy(&rvec); CHKERRQ(ierr);
 	ierr = VecDestroy(&duvec); CHKERRQ(ierr);
-- 
2.43.0


From b6c099d7776994d363bbf50e2dc3795f8d46b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 14/44] fix: an incomplete or unreadable mesh file is an error

The mesh readers did not check the stream: a truncated file or a read error gave
a mesh with leftover or zero values, or an endless loop when the header was cut.
---
 src/mesh/meshreaders.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 83a1484..d13efea 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -71,6 +71,8 @@ MeshData readGmsh2(const std::string mfile)
 
 	std::ifstream infile;
 	open_file_toRead(mfile, infile);
+	// anything missing or unreadable is an error
+	infile.exceptions(std::ios::failbit | std::ios::badbit);
 
 	for(int i = 0; i < 4; i++)		//skip 4 lines
 		do
@@ -207,6 +209,10 @@ MeshData readGmsh2(const std::string mfile)
 				m.nelem++;
 		}
 	}
+	infile >> dums;		// get 'endelements'
+	if(dums != "$EndElements")
+		throw std::runtime_error("readGmsh2(): " + mfile + ": end of the elements not found!");
+
 	/*std::cout << "UMesh2d: readGmsh2(): Done reading elms" << std::endl;
 	for(int i = 0; i < nelm; i++)
 		std::cout << nnodes[i] << " " << nfaels[i] << std::endl;*/
@@ -271,6 +277,8 @@ MeshData readSU2(const std::string mfile)
 	std::string dum;
 	std::ifstream fin;
 	open_file_toRead(mfile, fin);
+	// anything missing or unreadable is an error
+	fin.exceptions(std::ios::failbit | std::ios::badbit);
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	int ndim = std::stoi(dum);
-- 
2.43.0


From db32cb052bcc0ee03e1f0107a174761112f743c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 15/44] fix: mesh files the readers cannot represent are an
 error

Unsupported element types were taken for triangles (Gmsh) or skipped (SU2);
edges listed after cells, node numbers with gaps and meshes of another dimension
were silently misread.
---
 src/mesh/meshreaders.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index d13efea..5dec52e 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -86,6 +86,9 @@ MeshData readGmsh2(const std::string mfile)
 	for(int i = 0; i < m.npoin; i++)
 	{
 		infile >> dum;
+		if(dum != i+1)
+			throw std::runtime_error("readGmsh2(): " + mfile
+			                         + ": nodes are not numbered consecutively from 1");
 		for(int j = 0; j < NDIM; j++)
 			infile >> m.coords(i,j);
 		if(NDIM < 3) infile >> dummy;
@@ -195,18 +198,8 @@ MeshData readGmsh2(const std::string mfile)
 				m.nelem++;
 				break;
 			default:
-				std::cout << "! UMesh2d: readGmsh2(): Element type not recognized.";
-				std::cout << " Setting as linear triangle." << std::endl;
-				nnodes[i] = 3;
-				nfaels[i] = 3;
-				m.nnofa = 2;
-				infile >> ntags;
-				if(ntags > m.ndtag) m.ndtag = ntags;
-				for(int j = 0; j < ntags; j++)
-					infile >> elms(i,j+nnodes[i]);		// get tags
-				for(int j = 0; j < nnodes[i]; j++)
-					infile >> elms(i,j);			// get node numbers
-				m.nelem++;
+				throw std::runtime_error("readGmsh2(): " + mfile + ": unsupported element type "
+				                         + std::to_string(elmtype));
 		}
 	}
 	infile >> dums;		// get 'endelements'
@@ -217,6 +210,11 @@ MeshData readGmsh2(const std::string mfile)
 	for(int i = 0; i < nelm; i++)
 		std::cout << nnodes[i] << " " << nfaels[i] << std::endl;*/
 
+	// the first nbface rows have to be the boundary faces
+	for(int i = 0; i < nelm; i++)
+		if((i < m.nbface) != (nnodes[i] == 0))
+			throw std::runtime_error("readGmsh2(): " + mfile + ": edges must precede cells");
+
 	m.nnode.reserve(m.nelem);
 	m.nfael.reserve(m.nelem);
 
@@ -283,7 +281,8 @@ MeshData readSU2(const std::string mfile)
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	int ndim = std::stoi(dum);
 	if(ndim != NDIM)
-		std::cout << "readSU2: Mesh is not " << NDIM << "-dimensional!\n";
+		throw std::runtime_error("readSU2: " + mfile + " is not "
+		                         + std::to_string(NDIM) + "-dimensional!");
 
 	// read element node connectivity
 
@@ -311,7 +310,8 @@ MeshData readSU2(const std::string mfile)
 				m.nfael[iel] = 4;
 				break;
 			default:
-				std::cout << "readSU2: Unknown element type!!\n";
+				throw std::runtime_error("readSU2: " + mfile + ": unsupported element type "
+				                         + std::to_string(id));
 		}
 
 		for(int i = 0; i < m.nnode[iel]; i++)
-- 
2.43.0


From 92de40ceffdd476692727fc7c97f1defc0424179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 16/44] fix: report output files that could not be written

The VTU, volume, surface, mesh and history writers never looked at the stream
after writing, and some not even after opening: a full disk or an I/O error left
missing or truncated files behind a successful run.
---
 src/mesh/mesh.cpp                |  2 +-
 src/spatial/aoutput.cpp          | 15 ++++++++-------
 src/utilities/aerrorhandling.cpp |  8 ++++++++
 src/utilities/aerrorhandling.hpp |  3 +++
 src/utilities/casesolvers.cpp    | 11 +++++++----
 5 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index cf8f816..7187341 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -330,7 +330,7 @@ void UMesh<scalar,ndim>::writeGmsh2(const std::string mfile) const
 	}
 	outf << "$EndElements\n";
 
-	outf.close();
+	close_file_written(mfile, outf);
 }
 
 // Computes areas of linear triangles and quads
diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..6fd9a97 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -172,7 +172,7 @@ void FlowOutput::exportVolumeData(const MVector<freal>& u, std::string volfile)
 			<< u(iel,2)/u(iel,0) << " " << p << " " << T << " " << vmag/c << '\n';
 	}
 
-	fout.close();
+	close_file_written(volfile+"-vol.out", fout);
 }
 
 /** \todo Generalize for MPI runs.
@@ -233,7 +233,7 @@ void FlowOutput::exportSurfaceData(const Vec u,
 		fout << "# Cl      Cdp      Cdf\n";
 		fout << "# " << Cl << "  " << Cdp << "  " << Cdf << '\n';
 
-		fout.close();
+		close_file_written(fname, fout);
 
 		if(mpirank == 0)
 			std::cout << "FlowOutput: CL = " << Cl << "   CDp = " << Cdp << "    CDf = " << Cdf
@@ -294,7 +294,7 @@ void FlowOutput::exportSurfaceData(const Vec u,
 			fout << '\n';
 		}
 
-		fout.close();
+		close_file_written(fname, fout);
 	}
 }
 
@@ -420,7 +420,7 @@ void writeScalarsVectorToVtu_CellData(std::string fname, const fvens::UMesh<frea
 	out << "\t</Piece>\n";
 	out << "</UnstructuredGrid>\n";
 	out << "</VTKFile>";
-	out.close();
+	close_file_written(fname, out);
 	std::cout << "Vtu file written.\n";
 }
 
@@ -546,7 +546,7 @@ void writeScalarsVectorToVtu_PointData(std::string fname, const fvens::UMesh<fre
 	out << "\t</Piece>\n";
 	out << "</UnstructuredGrid>\n";
 	out << "</VTKFile>";
-	out.close();
+	close_file_written(fname, out);
 	std::cout << "Vtu file written.\n";
 }
 
@@ -557,7 +557,8 @@ void writeScalarsVectorToVtu_PointData(std::string fname, const fvens::UMesh<fre
 void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 {
 	std::cout << "Writing vtu output...\n";
-	std::ofstream out(fname);
+	std::ofstream out;
+	open_file_toWrite(fname, out);
 	
 	out << std::setprecision(10);
 
@@ -610,7 +611,7 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	out << "\t</Piece>\n";
 	out << "</UnstructuredGrid>\n";
 	out << "</VTKFile>";
-	out.close();
+	close_file_written(fname, out);
 	std::cout << "Vtu file written.\n";
 }
 
diff --git a/src/utilities/aerrorhandling.cpp b/src/utilities/aerrorhandling.cpp
index f678ec6..de1e461 100644
--- a/src/utilities/aerrorhandling.cpp
+++ b/src/utilities/aerrorhandling.cpp
@@ -57,4 +57,12 @@ void open_file_toWrite(const std::string file, std::ofstream& fout)
 	}
 }
 
+void close_file_written(const std::string file, std::ofstream& fout)
+{
+	fout.close();
+	if(!fout) {
+		throw std::runtime_error("Could not write file " + file);
+	}
+}
+
 }
diff --git a/src/utilities/aerrorhandling.hpp b/src/utilities/aerrorhandling.hpp
index 0745d73..bce2927 100644
--- a/src/utilities/aerrorhandling.hpp
+++ b/src/utilities/aerrorhandling.hpp
@@ -90,6 +90,9 @@ void open_file_toRead(const std::string file, std::ifstream& fin);
 /// Opens a file for writing but throws in case of an error
 void open_file_toWrite(const std::string file, std::ofstream& fout);
 
+/// Closes a file that was written to but throws if any of the output could not be written
+void close_file_written(const std::string file, std::ofstream& fout);
+
 }
 
 #endif
diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..d8866dd 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -398,13 +398,16 @@ int SteadyFlowCase::execute(const Spatial<freal,NVARS> *const prob, const bool o
 		const int rank = get_mpi_rank(PETSC_COMM_WORLD);
 		//MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
 		if(rank == 0) {
-			std::ofstream convout(opts.logfile+"-residual_history.log");
+			const std::string histfile = opts.logfile+"-residual_history.log";
+			std::ofstream convout;
+			open_file_toWrite(histfile, convout);
 			writeConvergenceHistoryHeader(convout);
 			for(int istp = 0; istp < td.num_timesteps; istp++)
 				writeStepToConvergenceHistory(td.convhis[istp], convout);
-			convout.close();
+			close_file_written(histfile, convout);
 
-			convout.open(opts.logfile+"-prec-timing.log");
+			const std::string timingfile = opts.logfile+"-prec-timing.log";
+			open_file_toWrite(timingfile, convout);
 			convout << std::setw(10) << "# N.threads" << std::setw(18) << "Prec.setup wtime"
 			        << std::setw(18) << "Prec.apply wtime" << std::setw(10) << "Prec.CPU"
 			        << std::setw(15) << "Tot.lin.iters" << std::setw(15) << "Avg.lin.iters"
@@ -414,7 +417,7 @@ int SteadyFlowCase::execute(const Spatial<freal,NVARS> *const prob, const bool o
 			        << std::setw(15) << td.total_lin_iters << std::setw(15) << td.avg_lin_iters
 			        << std::setw(12) << td.num_timesteps << std::setw(12) << (td.converged ? 1:0)
 			        << '\n';
-			convout.close();
+			close_file_written(timingfile, convout);
 		}
 	}
 
-- 
2.43.0


From eb04b2ab7977d9f018ded1b63cd4dfbbf9ca6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 17/44] fix: a run whose surface output failed has failed

run_output printed the error of exportSurfaceData and reported success.
---
 src/utilities/casesolvers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index d8866dd..8b4e4f5 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <iomanip>
 #include <tuple>
+#include <exception>
 
 #include "casesolvers.hpp"
 #include "utilities/afactory.hpp"
@@ -120,12 +121,15 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	// Currently, ouput to files only works in single-process runs
 	if(mpisize == 1) {
+		// if surface output fails, still write the other files before reporting it
+		std::exception_ptr surface_error;
 		if(surface_file_needed) {
 			try {
 				out.exportSurfaceData(u, opts.lwalls, opts.lothers, opts.surfnameprefix);
 			} 
 			catch(std::exception& e) {
 				std::cout << e.what() << std::endl;
+				surface_error = std::current_exception();
 			}
 		}
 	
@@ -141,6 +145,9 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 		if(opts.vol_output_reqd == "YES")
 			out.exportVolumeData(umat, opts.volnameprefix);
+
+		if(surface_error)
+			std::rethrow_exception(surface_error);
 	}
 	else {
 		if(mpirank == 0)
-- 
2.43.0


From 2fa14cbb31000d4d0700e048299844db9d8b6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 18/44] fix: cases without wall output boundaries

run_output read the first entry of the list of wall boundaries even when the
control file gives none: forces of an arbitrary marker, or a crash.
---
 src/utilities/casesolvers.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 8b4e4f5..6ac3588 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -154,15 +154,18 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 			std::cout << "FlowCase: Files will not be written in multi-process runs.\n";
 	}
 	
-	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
-	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
-	grad.resize(m.gnelem());
-	prob->getGradients(u, &grad[0]);
-
-	ConstVecHandler<freal> uh(u);
-	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+	// without wall boundaries to output, there are no forces
+	std::tuple<freal,freal,freal> fnls {0,0,0};
+	if(!opts.lwalls.empty()) {
+		MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
+		std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
+		grad.resize(m.gnelem());
+		prob->getGradients(u, &grad[0]);
+
+		ConstVecHandler<freal> uh(u);
+		const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
+	}
 
 	delete prob;
 
-- 
2.43.0


From 012b4793c6ac4bc3cd9ea2de19b79b0e09ea4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 19/44] fix: room for the surface data of every boundary face

run_output sized the array by the number of cells, which a marker with more
faces than that overruns.
---
 src/utilities/casesolvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 6ac3588..0a551c9 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -157,7 +157,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 	// without wall boundaries to output, there are no forces
 	std::tuple<freal,freal,freal> fnls {0,0,0};
 	if(!opts.lwalls.empty()) {
-		MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
+		MVector<freal> output; output.resize(m.gnbface(),NDIM+2);
 		std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 		grad.resize(m.gnelem());
 		prob->getGradients(u, &grad[0]);
-- 
2.43.0


From 645e3328d502e46bc7e5af5cabc71bccb806089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 20/44] fix: cell offsets in the VTU file of a hybrid mesh

writeMeshToVtu multiplied the node count of each cell by its index, which is the
offset only when all cells have the same number of nodes.
---
 src/spatial/aoutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 6fd9a97..5f18388 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -587,8 +587,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	int totalcells = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		totalcells += m.gnnode(i);
+		out << "\t\t\t\t" << totalcells << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From e6988359ec60267f621819f3d9bf3d62812a0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 21/44] fix: convertformat stops when arguments are missing

It printed the usage and went on to read past the end of the argument list.
---
 src/utilities/convertformat.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/convertformat.cpp b/src/utilities/convertformat.cpp
index 9bedaf5..6cf0330 100644
--- a/src/utilities/convertformat.cpp
+++ b/src/utilities/convertformat.cpp
@@ -10,6 +10,7 @@ int main(int argc, char* argv[])
 {
 	if(argc < 4) {
 		cout << "Need: 1. Input mesh file, 2. Output mesh file 3. Output format.\n" << endl;
+		return -1;
 	}
 	string confilename(argv[1]);
 	string inmesh = argv[1], outmesh = argv[2], outformat = argv[3];
-- 
2.43.0


From 71794e37bf04f7a0e8a7da3b33de4ba388b9118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 22/44] fix: options a control file does not give were left
 uninitialised

Whether the start-up phase ran, and the limiter's parameter, depended on leftover
memory.
---
 src/utilities/controlparser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..88353b8 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -74,6 +74,14 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.order2 = true;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
+	opts.usestarter = 0;
+	opts.firstinitcfl = 0; opts.firstendcfl = 0; opts.firsttolerance = 0;
+	opts.firstmaxiter = 0;
+	opts.rampstart = 0; opts.rampend = 0; opts.firstrampstart = 0; opts.firstrampend = 0;
+	opts.limiter_param = 0;
+	opts.min_nl_update = 0.2;
+	opts.final_time = 0; opts.phy_timestep = 0; opts.phy_cfl = 0; opts.time_order = 0;
+	opts.soln_init_type = 0;
 
 	// Define string constants used as keywords in the control file
 
-- 
2.43.0


From 8c70cb773bdd14bc32c25cc71df8b3720b7d950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 23/44] fix: malformed values in the control file are an error

Optional values that could not be understood were replaced by their defaults, and
lists were cut at the first entry that is not a number.
---
 src/utilities/controlparser.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 88353b8..35772bb 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -24,6 +24,7 @@
 #include <cstdlib>
 #include <sstream>
 #include <boost/algorithm/string.hpp>
+#include <boost/lexical_cast.hpp>
 #include <boost/program_options/cmdline.hpp>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/info_parser.hpp>
@@ -44,15 +45,24 @@ static inline std::string get_upperCaseString(const pt::ptree& tree, const std::
 template <typename T> static inline
 std::vector<T> parseStringToVector(const std::string str)
 {
-	T elem;
+	std::string elem;
 	std::vector<T> vec;
 	std::stringstream ss(str);
 	while(ss >> elem) {
-		vec.push_back(elem);
+		vec.push_back(boost::lexical_cast<T>(elem));
 	}
 	return vec;
 }
 
+/// Extract an optional value; unlike \ref boost::property_tree::basic_ptree::get, the default is
+/// used only if the value is not given, not if it cannot be understood.
+template <typename T> static inline
+T get_optionalValue(const pt::ptree& tree, const std::string path, const T defval)
+{
+	const auto child = tree.get_child_optional(path);
+	return child ? child->get_value<T>() : defval;
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -134,7 +144,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 		opts.Tinf = infopts.get<freal>(c_flowconds+".freestream_temperature");
 		opts.Reinf = infopts.get<freal>(c_flowconds+".freestream_Reynolds_number");
 		opts.Pr = infopts.get<freal>(c_flowconds+".Prandtl_number");
-		opts.useconstvisc = infopts.get(c_flowconds+".use_constant_viscosity",false);
+		opts.useconstvisc = get_optionalValue<bool>(infopts, c_flowconds+".use_constant_viscosity", false);
 		if(opts.flowtype == "RANS")
 			throw UnsupportedOptionError("flowtype RANS");
 	}
@@ -209,8 +219,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 			opts.invfluxjac = opts.invflux;
 
 		opts.nl_update_scheme = get_upperCaseString(infopts, c_pseudotime+"."+"nonlinear_update_scheme");
-		opts.min_nl_update = infopts.get(c_pseudotime+"."+"min_nonlinear_relaxation_factor",
-		                                           0.2);
+		opts.min_nl_update
+			= get_optionalValue<freal>(infopts, c_pseudotime+"."+"min_nonlinear_relaxation_factor", 0.2);
 	}
 	
 	// check for some PETSc options
-- 
2.43.0


From af07079b86e3ec67e434418575e68da63b412295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 24/44] fix: unquoted lists in the control file were cut to
 their first entry

---
 src/utilities/controlparser.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 35772bb..089ffe8 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -63,6 +63,22 @@ T get_optionalValue(const pt::ptree& tree, const std::string path, const T defva
 	return child ? child->get_value<T>() : defval;
 }
 
+/// Get a list of numbers, given with or without quotes around it
+/** In the INFO format, only the first entry of an unquoted list is the value of its key; the others
+ * are taken as further keys and their values.
+ */
+template <typename T> static inline
+std::vector<T> get_list(const pt::ptree& section, const std::string key)
+{
+	std::string str = section.get<std::string>(key);
+	const auto first = section.find(key);
+	pt::ptree::const_iterator it = section.to_iterator(first);
+	freal number;
+	for(++it; it != section.end() && boost::conversion::try_lexical_convert(it->first, number); ++it)
+		str += " " + it->first + " " + it->second.data();
+	return parseStringToVector<T>(str);
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -159,12 +175,12 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	auto optlwalls = infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries");
 	if(optlwalls)
-		opts.lwalls = parseStringToVector<int>(*optlwalls);
+		opts.lwalls = get_list<int>(infopts.get_child(c_bcs), "listof_output_wall_boundaries");
 	opts.num_out_walls = static_cast<int>(opts.lwalls.size());
 
 	auto optlothers= infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries");
 	if(optlothers)
-		opts.lothers = parseStringToVector<int>(*optlothers);
+		opts.lothers = get_list<int>(infopts.get_child(c_bcs), "listof_output_other_boundaries");
 	opts.num_out_others = static_cast<int>(opts.lothers.size());
 
 	if(opts.num_out_others > 0 || opts.num_out_walls > 0) {
@@ -285,16 +301,14 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			if(bconf.bc_type == ADIABATIC_WALL_BC  ||
 			   bconf.bc_type == ISOTHERMAL_WALL_BC ||
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
-				std::string bvals = infopts.get<std::string>(c_bcs+".bc"+std::to_string(ibc)+
-				                                             ".boundary_values");
-				bconf.bc_vals = parseStringToVector<freal>(bvals);
+				bconf.bc_vals = get_list<freal>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                "boundary_values");
 			}
 
 			// array of options
 			if(bconf.bc_type == PERIODIC_BC) {
-				std::string bcopts = infopts.get<std::string>(c_bcs +".bc"+std::to_string(ibc)+
-				                                              ".options");
-				bconf.bc_opts = parseStringToVector<int>(bcopts);
+				bconf.bc_opts = get_list<int>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                              "options");
 			}
 
 			bcvec.push_back(bconf);
-- 
2.43.0


From 218deee31cfdcf57e58a9c9760a200bbcbd301ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 25/44] fix: too few boundary values in the control file were
 read out of bounds

---
 src/utilities/controlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 089ffe8..80feea6 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -311,6 +311,12 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 				                              "options");
 			}
 
+			const size_t nreqvals = bconf.bc_type == ADIABATIC_WALL_BC ? 1
+				: (bconf.bc_type == ISOTHERMAL_WALL_BC || bconf.bc_type == SUBSONIC_INFLOW_BC) ? 2 : 0;
+			const size_t nreqopts = bconf.bc_type == PERIODIC_BC ? 2 : 0;
+			if(bconf.bc_vals.size() < nreqvals || bconf.bc_opts.size() < nreqopts)
+				throw InputNotGivenError("Too few values or options for bc" + std::to_string(ibc));
+
 			bcvec.push_back(bconf);
 			ibc++;
 		}
-- 
2.43.0


From 768b92f9a4a53bb93486cb3b14d108379a9ae12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 26/44] fix: unknown flow types, gradient methods and
 pseudotime stepping types are an error

---
 src/utilities/controlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 80feea6..6ee1dd6 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -164,6 +164,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 		if(opts.flowtype == "RANS")
 			throw UnsupportedOptionError("flowtype RANS");
 	}
+	else if(opts.flowtype != "EULER")
+		throw UnsupportedOptionError("flowtype " + opts.flowtype);
 	else {
 		opts.viscsim = false;
 		opts.Tinf = 298.0;
@@ -213,9 +215,13 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.gradientmethod = get_upperCaseString(infopts, c_spatial+".gradient_method");
 	if(opts.gradientmethod == "NONE")
 		opts.order2 = false;
+	else if(opts.gradientmethod != "LEASTSQUARES" && opts.gradientmethod != "GREENGAUSS")
+		throw UnsupportedOptionError("gradient method " + opts.gradientmethod);
 	opts.limiter = get_upperCaseString(infopts, c_spatial+".limiter");
 
 	opts.pseudotimetype = get_upperCaseString(infopts, c_pseudotime+".pseudotime_stepping_type");
+	if(opts.pseudotimetype != "IMPLICIT" && opts.pseudotimetype != "EXPLICIT")
+		throw UnsupportedOptionError("pseudotime stepping type " + opts.pseudotimetype);
 
 	opts.initcfl = infopts.get<freal>(c_pseudotime+"."+pt_main+".cfl_min");
 	opts.endcfl = infopts.get<freal>(c_pseudotime+"."+pt_main+".cfl_max");
-- 
2.43.0


From 4e654774e003eafef98dc84503e0e1f4759c47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 27/44] fix: a malformed entry of an unquoted list in the
 control file was ignored

---
 src/utilities/controlparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 6ee1dd6..5802466 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -73,8 +73,8 @@ std::vector<T> get_list(const pt::ptree& section, const std::string key)
 	std::string str = section.get<std::string>(key);
 	const auto first = section.find(key);
 	pt::ptree::const_iterator it = section.to_iterator(first);
-	freal number;
-	for(++it; it != section.end() && boost::conversion::try_lexical_convert(it->first, number); ++it)
+	// no key in the control file begins like a number
+	for(++it; it != section.end() && it->first.find_first_of("+-.0123456789") == 0; ++it)
 		str += " " + it->first + " " + it->second.data();
 	return parseStringToVector<T>(str);
 }
-- 
2.43.0


From 8ca7896cfb7cac391c81f17654bed6c33abbff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 28/44] fix: malformed integers in SU2 mesh files are an error

---
 src/mesh/meshreaders.cpp | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 5dec52e..ea45da7 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <sstream>
 #include <boost/algorithm/string.hpp>
 #include "utilities/aerrorhandling.hpp"
 #include "utilities/mpiutils.hpp"
@@ -268,6 +269,27 @@ MeshData readGmsh2(const std::string mfile)
 	return m;
 }
 
+/// Reads an integer which has to be followed by white space or the end of the file
+static int readInteger(std::istream& in)
+{
+	std::string token;
+	in >> token;
+	size_t length = 0;
+	const int number = std::stoi(token, &length);
+	if(length != token.size())
+		throw std::runtime_error("Mesh file: " + token + " is not an integer!");
+	return number;
+}
+
+/// Reads the integer value of a keyword from the rest of a line
+static int readKeywordInteger(std::istream& in)
+{
+	std::string dum;
+	std::getline(in, dum, '='); std::getline(in, dum);
+	std::istringstream value(dum);
+	return readInteger(value);
+}
+
 MeshData readSU2(const std::string mfile)
 {
 	MeshData m;
@@ -278,16 +300,14 @@ MeshData readSU2(const std::string mfile)
 	// anything missing or unreadable is an error
 	fin.exceptions(std::ios::failbit | std::ios::badbit);
 
-	std::getline(fin, dum, '='); std::getline(fin,dum);
-	int ndim = std::stoi(dum);
+	int ndim = readKeywordInteger(fin);
 	if(ndim != NDIM)
 		throw std::runtime_error("readSU2: " + mfile + " is not "
 		                         + std::to_string(NDIM) + "-dimensional!");
 
 	// read element node connectivity
 
-	std::getline(fin, dum, '='); std::getline(fin,dum);
-	m.nelem = std::stoi(dum);
+	m.nelem = readKeywordInteger(fin);
 	std::cout << "readSU2: Number of elements = " << m.nelem << std::endl;
 
 	// Let's just assume a hybrid grid with triangles and quads
@@ -297,8 +317,8 @@ MeshData readSU2(const std::string mfile)
 
 	for(fint iel = 0; iel < m.nelem; iel++)
 	{
-		int id, ddum;
-		fin >> id;
+		int ddum;
+		const int id = readInteger(fin);
 		switch(id)
 		{
 			case 5: // triangle
@@ -315,7 +335,7 @@ MeshData readSU2(const std::string mfile)
 		}
 
 		for(int i = 0; i < m.nnode[iel]; i++)
-			fin >> m.inpoel(iel,i);
+			m.inpoel(iel,i) = readInteger(fin);
 		fin >> ddum;
 	}
 	// clear the newline
@@ -323,8 +343,7 @@ MeshData readSU2(const std::string mfile)
 
 	// read coordinates of nodes
 
-	std::getline(fin, dum, '='); std::getline(fin,dum);
-	m.npoin = std::stoi(dum);
+	m.npoin = readKeywordInteger(fin);
 #ifdef DEBUG
 	std::cout << "readSU2: Number of points = " << m.npoin << std::endl;
 #endif
@@ -344,8 +363,7 @@ MeshData readSU2(const std::string mfile)
 
 	m.nbtag = 1; m.ndtag = 0;
 
-	std::getline(fin, dum, '='); std::getline(fin,dum);
-	int nbmarkers = std::stoi(dum);
+	int nbmarkers = readKeywordInteger(fin);
 #ifdef DEBUG
 	std::cout << "UMesh2dh: readSU2: Number of BC markers = " << nbmarkers << std::endl;
 #endif
@@ -358,10 +376,8 @@ MeshData readSU2(const std::string mfile)
 
 	for(int ib = 0; ib < nbmarkers; ib++)
 	{
-		std::getline(fin, dum, '='); std::getline(fin,dum);
-		tags[ib] = std::stoi(dum);
-		std::getline(fin, dum, '='); std::getline(fin,dum);
-		numfacs[ib] = std::stoi(dum);
+		tags[ib] = readKeywordInteger(fin);
+		numfacs[ib] = readKeywordInteger(fin);
 		m.nbface += numfacs[ib];
 
 		bfacs[ib].resize(numfacs[ib]);
@@ -373,7 +389,7 @@ MeshData readSU2(const std::string mfile)
 			int ddum;
 			fin >> ddum;
 			for(int inofa = 0; inofa < m.nnofa; inofa++)
-				fin >> bfacs[ib][iface][inofa];
+				bfacs[ib][iface][inofa] = readInteger(fin);
 		}
 
 		//clear newline, except the last one because it may not exist
-- 
2.43.0


From fc043222f5fd06dc65866173b27454459efa2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 29/44] fix: unknown inviscid fluxes and limiters crashed
 instead of being an error

---
 src/spatial/flow_spatial.cpp |  3 ++-
 src/utilities/afactory.cpp   | 10 ++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..1b50de3 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -317,7 +317,8 @@ FlowFV<scalar,secondOrderRequested,constVisc>::FlowFV(const UMesh<scalar,NDIM> *
 	  uface(*m),
 	  gradvec{NULL},
 	  jphy(pconfig.gamma, pconfig.Minf, pconfig.Tinf, pconfig.Reinf, pconfig.Pr),
-	  jiflux {create_const_inviscidflux<scalar>(nconfig.conv_numflux_jac, &jphy)}
+	  jiflux {nconfig.conv_numflux_jac.empty() ? nullptr  // no Jacobian required
+	          : create_const_inviscidflux<scalar>(nconfig.conv_numflux_jac, &jphy)}
 {
 #ifdef DEBUG
 	const int mpirank = get_mpi_rank(PETSC_COMM_WORLD);
diff --git a/src/utilities/afactory.cpp b/src/utilities/afactory.cpp
index a6986e7..5b844c8 100644
--- a/src/utilities/afactory.cpp
+++ b/src/utilities/afactory.cpp
@@ -24,6 +24,7 @@
 #include "spatial/limitedlinearreconstruction.hpp"
 #include "spatial/musclreconstruction.hpp"
 #include "mpiutils.hpp"
+#include "aerrorhandling.hpp"
 
 namespace fvens {
 
@@ -77,8 +78,7 @@ InviscidFlux<scalar>* create_mutable_inviscidflux(
 			std::cout << " InviscidFluxFactory: Using AUSM+ fluxes." << std::endl;
 	}
 	else
-		if(mpirank == 0)
-			std::cout << " InviscidFluxFactory: ! Flux scheme not available!" << std::endl;
+		throw UnsupportedOptionError("inviscid flux " + type);
 
 	return inviflux;
 }
@@ -205,10 +205,8 @@ SolutionReconstruction<scalar,nvars>* create_mutable_reconstruction(const std::s
 		if(mpirank == 0)
 			std::cout << " ReconstructionFactory: Venkatakrishnan linear reconstruction selected.\n";
 	}
-	else {
-		if(mpirank == 0)
-			std::cout << " !ReconstructionFactory: Invalid reconstruction!!\n";
-	}
+	else
+		throw UnsupportedOptionError("reconstruction " + type);
 
 	return reconst;
 }
-- 
2.43.0


From 0f77122e03f0a35fd78a31ad689146cb4a66feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 30/44] fix: mesh files which refer to missing vertices were
 read out of bounds

---
 src/mesh/meshreaders.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index ea45da7..3a35311 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -33,6 +33,23 @@ namespace fvens {
 static MeshData readGmsh2(const std::string mfile);
 static MeshData readSU2(const std::string mfile);
 
+/// Throws if cells or boundary faces refer to vertices that are not there
+static void checkConnectivity(const MeshData& m, const std::string mfile)
+{
+	const auto check = [&m,&mfile](const fint vertex) {
+		if(vertex < 0 || vertex >= m.npoin)
+			throw std::runtime_error("readMesh: " + mfile + ": there is no vertex "
+			                         + std::to_string(vertex));
+	};
+
+	for(fint iel = 0; iel < m.nelem; iel++)
+		for(int j = 0; j < m.nnode[iel]; j++)
+			check(m.inpoel(iel,j));
+	for(fint iface = 0; iface < m.nbface; iface++)
+		for(int j = 0; j < m.nnofa; j++)
+			check(m.bface(iface,j));
+}
+
 MeshData readMesh(const std::string mfile)
 {
 	// const int mpirank = get_mpi_rank(MPI_COMM_WORLD);
@@ -46,6 +63,8 @@ MeshData readMesh(const std::string mfile)
 	else
 		mdata = readGmsh2(mfile);
 
+	checkConnectivity(mdata, mfile);
+
 	// broadcast global mesh size data to all ranks
 	// fint numdata[] = {mdata.npoin, mdata.nelem, mdata.nface, mdata.maxnnode, mdata.maxnfael,
 	//                    mdata.nnofa, mdata.nbtag, mdata.ndtag};
@@ -98,6 +117,12 @@ MeshData readGmsh2(const std::string mfile)
 	infile >> dums;		// get 'elements'
 
 	int width_elms = 25;
+	const int maxnodes = 9;
+	const auto checkNumTags = [=](const int num) {
+		if(num < 0 || num > width_elms-maxnodes)
+			throw std::runtime_error("readGmsh2(): " + mfile + ": bad number of tags "
+			                         + std::to_string(num));
+	};
 	int nelm, elmtype, nbtags, ntags;
 	/// elmtype is the standard element type in the Gmsh 2 mesh format - of either faces or elements
 	m.ndtag = 0; m.nbtag = 0;
@@ -121,6 +146,7 @@ MeshData readGmsh2(const std::string mfile)
 			case(1): // linear edge
 				m.nnofa = 2;
 				infile >> nbtags;
+				checkNumTags(nbtags);
 				if(nbtags > m.nbtag) m.nbtag = nbtags;
 				for(int j = 0; j < nbtags; j++)
 					infile >> elms(i,j+m.nnofa);		// get tags
@@ -131,6 +157,7 @@ MeshData readGmsh2(const std::string mfile)
 			case(8): // quadratic edge
 				m.nnofa = 3;
 				infile >> nbtags;
+				checkNumTags(nbtags);
 				if(nbtags > m.nbtag) m.nbtag = nbtags;
 				for(int j = 0; j < nbtags; j++)
 					infile >> elms(i,j+m.nnofa);		// get tags
@@ -143,6 +170,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 3;
 				m.nnofa = 2;
 				infile >> ntags;
+				checkNumTags(ntags);
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -155,6 +183,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 2;
 				infile >> ntags;
+				checkNumTags(ntags);
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -167,6 +196,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 3;
 				m.nnofa = 3;
 				infile >> ntags;
+				checkNumTags(ntags);
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -179,6 +209,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 3;
 				infile >> ntags;
+				checkNumTags(ntags);
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
@@ -191,6 +222,7 @@ MeshData readGmsh2(const std::string mfile)
 				nfaels[i] = 4;
 				m.nnofa = 3;
 				infile >> ntags;
+				checkNumTags(ntags);
 				if(ntags > m.ndtag) m.ndtag = ntags;
 				for(int j = 0; j < ntags; j++)
 					infile >> elms(i,j+nnodes[i]);		// get tags
-- 
2.43.0


From ca434ac54a37f0957fa1c16b3abac0802f047603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 31/44] fix: boundary faces without a cell in the mesh file
 were read out of bounds

---
 src/mesh/mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 7187341..7d569ad 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -692,12 +692,19 @@ std::vector<std::pair<fint,EIndex>> UMesh<scalar,ndim>::compute_phyBFaceNeighbor
 			throw std::logic_error("More than one neighboring element found for bface "
 			                       + std::to_string(iface));
 		}
+		if(intersection.empty()) {
+			throw std::logic_error("No neighboring element found for bface "
+			                       + std::to_string(iface));
+		}
 
 		interiorelem[iface].first = intersection[0];
 
 		// find the EIndex of the face
 		interiorelem[iface].second = getFaceEIndex(true, iface, intersection[0]);
-		assert(interiorelem[iface].second >= 0);
+		if(interiorelem[iface].second < 0) {
+			throw std::logic_error("Bface " + std::to_string(iface)
+			                       + " is not a face of its neighboring element");
+		}
 	}
 
 	return interiorelem;
-- 
2.43.0


From 14ebfe93d5c0987733c62afe4f6efa1bb192a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 32/44] fix: exterior faces without boundary data were used
 uninitialised

---
 src/mesh/mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 7d569ad..0d802a4 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -810,6 +810,12 @@ void UMesh<scalar,ndim>::compute_faceConnectivity()
 			intfac(iface,2+inode) = inpoel(inelem,getNodeEIndex(inelem, connface(icface,1), inode));
 	}
 
+	for(fint ie = 0; ie < nelem; ie++)
+		for(EIndex in = 0; in < nfael[ie]; in++)
+			if(esuel(ie,in) < 0)
+				throw std::logic_error("Face " + std::to_string(in) + " of cell " + std::to_string(ie)
+				                       + " has neither a neighboring cell nor boundary data");
+
 	domFaceStart = nbface;
 	domFaceEnd = nbface + nconnface + ninface;
 	assert(domFaceEnd == naface);
-- 
2.43.0


From 99c1e059cd6be8a88548b742065ac7d26eb86c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 33/44] fix: fvens-steady reported success when the solution
 was NaN or infinity

---
 src/utilities/casesolvers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 0a551c9..d4e3598 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <iomanip>
 #include <tuple>
+#include <cmath>
 #include <exception>
 
 #include "casesolvers.hpp"
@@ -101,6 +102,13 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 	}
 	catch (Tolerance_error& e) {
 		std::cout << e.what() << std::endl;
+
+		// an unconverged solution can still be useful, but not if the solver blew up
+		PetscReal solnorm;
+		ierr = VecNorm(u, NORM_1, &solnorm);
+		petsc_throw(ierr, "Could not compute norm of the solution");
+		if(!std::isfinite(solnorm))
+			throw Numerical_error("Flow solve diverged - solution is Nan or inf!");
 	}
 	fvens_throw(ierr, "Could not solve steady case! Error code " + std::to_string(ierr));
 
-- 
2.43.0


From 348a3d752b9903e7ed0c7a07e3c4bdfae3c1a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 34/44] fix: mesh size returned and printed by a multi-process
 run was that of one subdomain

---
 src/spatial/aoutput.cpp       | 2 +-
 src/utilities/casesolvers.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 5f18388..03fea70 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -50,7 +50,7 @@ freal FlowOutput::compute_entropy_cell(const Vec uvec) const
 	mpi_all_reduce<freal>(&error, 1, MPI_SUM, PETSC_COMM_WORLD);
 	error = sqrt(error);
 
-	const freal h = 1.0/sqrt(m->gnelem());
+	const freal h = 1.0/sqrt(m->gnelemglobal());
 
 	if(mpirank == 0)
 		std::cout << "FlowOutput: log mesh size and log entropy:   " << log10(h) << "  " 
diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index d4e3598..17c9572 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -95,7 +95,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	const FlowFV_base<freal> *const prob = createFlowSpatial(opts, m);
 
-	const freal h = 1.0 / ( std::pow((freal)m.gnelem(), 1.0/NDIM) );
+	const freal h = 1.0 / ( std::pow((freal)m.gnelemglobal(), 1.0/NDIM) );
 
 	try {
 		ierr = execute(prob, opts.lognres, u);
-- 
2.43.0


From 3cf77109dcb614c10ba2c7b5b74beb285dc15960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 35/44] fix: mesh files with more than two boundary tags
 overflowed the partitioner's buffer

---
 src/mesh/meshpartitioning.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index d7a577a..f4727bc 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -228,13 +228,11 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 	const int irank = get_mpi_rank(MPI_COMM_WORLD);
 
 	lm.nbface = 0;
-	std::vector<std::array<fint,6>> tbfaces;         // assuming max 4 points and 2 tags per face
-	assert(gm.nnofa <= 4);
-	assert(gm.nbtag <= 2);
+	std::vector<std::vector<fint>> tbfaces;          // points and tags of each face
 	for(fint iface = 0; iface < gm.nbface; iface++)
 	{
 		bool reqd = true;
-		std::array<fint,6> locbfpoints;
+		std::vector<fint> locbfpoints(gm.nnofa+gm.nbtag);
 		// for(int j = 0; j < gm.nnofa; j++)
 		// {
 		// 	try {
-- 
2.43.0


From 185ad147c1924ec0d13d950289b700f791b5e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 36/44] fix: tags missing from some elements of a native mesh
 were left uninitialised

---
 src/mesh/meshreaders.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 3a35311..d906d9e 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -128,6 +128,8 @@ MeshData readGmsh2(const std::string mfile)
 	m.ndtag = 0; m.nbtag = 0;
 	infile >> nelm;
 	amat::Array2d<fint > elms(nelm,width_elms);
+	// elements may have different numbers of tags; those they do not have are zero
+	elms.zeros();
 	m.nbface = 0; m.nelem = 0;
 	std::vector<int> nnodes(nelm,0);
 	std::vector<int> nfaels(nelm,0);
-- 
2.43.0


From 667a174e0c49d83ab6dab0fcdce62a0b0d367729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 37/44] fix: diffusion residual needed a vector of time steps
 even where none is asked for

---
 src/spatial/diffusion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..7ef38ec 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -226,7 +226,10 @@ StatusCode DiffusionMA<nvars>::compute_residual(const Vec uvec, Vec rvec,
 	ierr = VecDestroy(&gradvec); CHKERRQ(ierr);
 
 	{
-		MutableVecHandler<freal> dtvh(timesteps);
+		// the vector of time steps is optional if they are not required
+		MutableVecHandler<freal> dtvh;
+		if(gettimesteps)
+			dtvh.setVec(timesteps);
 		freal *const dtm = dtvh.getArray();
 		MutableVecHandler<freal> rvh(rvec);
 		freal *const rarr = rvh.getArray();
-- 
2.43.0


From f806d821f25531ded2f9df8ec1809b2fd00bde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 38/44] fix: diffusion Jacobian ignored the boundary state's
 dependence on the cell

---
 src/spatial/diffusion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 7ef38ec..b7d3491 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -317,9 +317,10 @@ void DiffusionMA<nvars>
 	L = Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor>::Zero();
 	for(int ivar = 0; ivar < nvars; ivar++)
 	{
-		// compute nu*(d(-grad u)/du_l . n) * l
+		// compute nu*(d(-grad u)/du_l . n) * l; the ghost state is 2*bval - u_l
 		for(int idim = 0; idim < NDIM; idim++)
-			L(ivar,ivar) += dgradl[idim][ivar][ivar]*m->gfacemetric(iface,idim);
+			L(ivar,ivar) += (dgradl[idim][ivar][ivar] - dgradr[idim][ivar][ivar])
+				* m->gfacemetric(iface,idim);
 		L(ivar,ivar) *= (diffusivity*len);
 	}
 }
-- 
2.43.0


From 42d4c3eed379dae054e23ae53abc8375eb217b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 39/44] fix: diffusion gradients took the address of a boundary
 array that may be empty

---
 src/spatial/diffusion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index b7d3491..88383ce 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -338,7 +338,9 @@ void DiffusionMA<nvars>::getGradients(const Vec uvec,
 		compute_boundary_state(iface, &u(lelem,0), &ug(iface,0));
 	}
 
-	gradcomp->compute_gradients(u, amat::Array2dView<freal>(&ug(0,0),m->gnbface(),nvars),
+	// there may be no physical boundary in this subdomain
+	const freal *const ugptr = m->gnbface() > 0 ? &ug(0,0) : nullptr;
+	gradcomp->compute_gradients(u, amat::Array2dView<freal>(ugptr,m->gnbface(),nvars),
 	                            &grads[0](0,0));
 }
 
-- 
2.43.0


From 29d9ed2bdfbf9206cb040156b7c51b210b9d3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 40/44] fix: point values of a scalar field read the state as
 one of several variables

---
 src/spatial/diffusion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 88383ce..412ba27 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -358,7 +358,7 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
-- 
2.43.0


From 8fe0bf71e6c69a98a0b1e68b6ef0a78268ea5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 41/44] fix: errors on closing the files of the final linear
 system were ignored

---
 src/ode/aodesolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 0db2aa4..5618cb2 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -611,9 +611,9 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 		ierr = VecView(rvec, rhsv); CHKERRQ(ierr);
 		ierr = VecView(duvec, solnv); CHKERRQ(ierr);
 
-		PetscViewerDestroy(&matv);
-		PetscViewerDestroy(&rhsv);
-		PetscViewerDestroy(&solnv);
+		ierr = PetscViewerDestroy(&matv); CHKERRQ(ierr);
+		ierr = PetscViewerDestroy(&rhsv); CHKERRQ(ierr);
+		ierr = PetscViewerDestroy(&solnv); CHKERRQ(ierr);
 	}
 
 #ifdef _OPENMP
-- 
2.43.0


From dfc78c58bd3d0939dab91835aae38b30ce4c6c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 42/44] fix: an empty Jacobian_inviscid_flux in an implicit run
 was accepted and crashed later

---
 src/utilities/controlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index 5802466..97cd27e 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -237,6 +237,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	if(opts.pseudotimetype == "IMPLICIT") {
 		opts.invfluxjac = get_upperCaseString(infopts, "Jacobian_inviscid_flux");
+		if(opts.invfluxjac.empty())
+			throw UnsupportedOptionError("Jacobian_inviscid_flux must name a numerical flux!");
 		if(opts.invfluxjac == "CONSISTENT")
 			opts.invfluxjac = opts.invflux;
 
-- 
2.43.0


From e70de1628bccdf1b6d5afdebd00ac743e4d5fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 43/44] fix: the missing AUSM+ Jacobian left the matrix blocks
 undefined instead of failing

---
 src/spatial/anumericalflux.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..81a7f9b 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -9,6 +9,7 @@
  * #defines work but get substituted
  */
 #include <iostream>
+#include <stdexcept>
 #include "anumericalflux.hpp"
 #include "physics/aphysics_defs.hpp"
 
@@ -556,7 +557,7 @@ template <typename scalar, typename j_real>
 void AUSMPlusFlux<scalar,j_real>::get_jacobian(const j_real *const ul, const j_real *const ur,
 		const j_real* const n, j_real *const dfdl, j_real *const dfdr) const
 {
-	std::cout << " ! AUSMPlusFlux: Not implemented!\n";
+	throw std::runtime_error("The Jacobian of the AUSM+ flux is not implemented!");
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 672b9b807a1acc13e558788a4a308f787dd698a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:10 +0000
Subject: [PATCH 44/44] fix: report a diverged solution at the end of the
 unsteady solve

TVDRKSolver checked only the time step, at the start of each stage; a
solution that became NaN or infinite in the last time step was returned
as a success.
---
 src/ode/aodesolver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 5618cb2..d1bb338 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -778,7 +778,13 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		step++;
 		time += dtmin*cfl;
 	}
-	
+
+	// the time-step checks above do not see the solution of the last time step
+	PetscReal unorm = 0;
+	ierr = VecNorm(uvec, NORM_1, &unorm); CHKERRQ(ierr);
+	if(!std::isfinite(unorm))
+		throw Numerical_error("TVDRK solver diverged - solution contains Nan or inf!");
+
 	gettimeofday(&time2, NULL);
 	double finalwtime = (double)time2.tv_sec + (double)time2.tv_usec * 1.0e-6;
 	double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
-- 
2.43.0

