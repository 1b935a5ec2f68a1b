From 2ba0c7c819ba2fd11fd2c4f3cb8cadcf0c37ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 01/16] fix: AUSM+ flux reports its missing Jacobian instead of
 returning garbage

---
 src/spatial/anumericalflux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..60c2665 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -556,7 +556,7 @@ template <typename scalar, typename j_real>
 void AUSMPlusFlux<scalar,j_real>::get_jacobian(const j_real *const ul, const j_real *const ur,
 		const j_real* const n, j_real *const dfdl, j_real *const dfdr) const
 {
-	std::cout << " ! AUSMPlusFlux: Not implemented!\n";
+	throw " ! AUSMPlusFlux: Not implemented!";
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 47bd14946322bc2dfcaae38ba1c2686e1e980fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 02/16] fix: limiters read the boundary ghost state from the
 ghost array

Barth-Jespersen and Venkatakrishnan limiters indexed the cell array with the
index of a physical-boundary ghost cell, which is out of its range.
---
 src/spatial/limitedlinearreconstruction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..5261f76 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -132,7 +132,9 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells come after the subdomain and connectivity ghost cells
+				const fint ibface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (ibface >= 0 ? ug(ibface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -227,7 +229,9 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells come after the subdomain and connectivity ghost cells
+				const fint ibface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (ibface >= 0 ? ug(ibface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From 670959fdd698aee40ec910db67460ee67e1dfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 03/16] fix: general adiabatic wall read its wall velocity past
 the end of the array

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..f1c0d2b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From 9ba35a06efb8a3c48ba329a4f535a1bbb393303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 04/16] fix: subsonic inflow used a wrong Riemann invariant and
 imposed outward velocity

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index f1c0d2b..794fbb7 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -167,9 +167,9 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
 	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
 
-	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
+	// Get velocity components of ghost state assuming it's anti-parallel to the (outward) face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(-vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
-- 
2.43.0


From 806b7c8e94c76680151d2660fd7cf663a3778e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 05/16] fix: isothermal wall Jacobian and its ghost state did
 not match the boundary condition

---
 src/spatial/abc.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 794fbb7..ff96c79 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -377,8 +377,13 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
+	// temperature in the ghost cell, as in computeGhostState, and its derivative
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperature(ins[0],jphy.getPressureFromConserved(ins));
+	j_real dT[NVARS];
+	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
+
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -392,19 +397,14 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
-	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
-	dvmag2[NDIM+1] = 0;
-
-	// dummy dT for the next function call
-	j_real dT[NVARS];
-	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	for(int j = 0; j < NVARS; j++)
+		dvmag2[j] = 2.0*(gs[1]*dgs[NVARS+j] + gs[2]*dgs[2*NVARS+j])/(ins[0]*ins[0]);
+	dvmag2[0] -= 2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From b3e0787ee9583060e60731dcf561d4a431a54a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/16] fix: TVD Runge-Kutta stages evaluate the residual at
 the stage solution, with the right sign and ghost exchange

The stage residual was always computed at the solution of the time step's
start, and was subtracted although compute_residual returns the negative of
the flux balance. Ghost contributions and ghost states were not exchanged and
each process used its own time step. An unavailable order left the
coefficients uninitialised.
---
 src/ode/aodesolver.cpp | 86 ++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..f0f5291 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <algorithm>
+#include <limits>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -61,7 +62,7 @@ static Eigen::Matrix<freal,Eigen::Dynamic,Eigen::Dynamic> initialize_TVDRK_Coeff
 		tvdrk(2,2) = 0.6666666666666667;
 	}
 	else {
-		std::cout << "! Temporal order " << _order  << " not available!\n";
+		throw std::invalid_argument("Temporal order " + std::to_string(_order) + " not available!");
 	}
 	return tvdrk;
 }
@@ -676,27 +677,17 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
-
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
+	// Solution at the beginning of the current time step
+	MVector<freal> ustart(m->gnelem(),nvars);
 	
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
@@ -707,46 +698,71 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	{
 		freal dtmin=0;      //< Time step
 
+		{
+			ConstGhostedVecHandler<PetscScalar> uh(uvec);
+			Eigen::Map<const MVector<freal>> u(uh.getArray(), locnelem, nvars);
+
+#pragma omp parallel for simd default(shared)
+			for(fint iel = 0; iel < m->gnelem(); iel++)
+				for(int ivar = 0; ivar < nvars; ivar++)
+					ustart(iel,ivar) = u(iel,ivar);
+		}
+
 		for(int istage = 0; istage < order; istage++)
 		{
+			{
+				MutableGhostedVecHandler<PetscScalar> rh(rvec);
+				PetscScalar *const rarr = rh.getArray();
+
 #pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
+				for(fint i = 0; i < (m->gnelem()+m->gnConnFace())*nvars; i++) {
+					rarr[i] = 0;
+				}
 			}
 
-			// update residual
+			// update residual - note that this is the negative of the flux balance
 			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
 
+			ierr = VecGhostUpdateBegin(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+
 			// update time step for the first stage of each time step
 			if(istage == 0)
 			{
-				const PetscScalar *dtm;
-				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
-				dtmin = *std::min_element(dtm, dtm+m->gnelem());
-				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				freal locdtmin = std::numeric_limits<freal>::infinity();
+				{
+					ConstVecHandler<PetscScalar> dth(dtmvec);
+					const PetscScalar *const dtm = dth.getArray();
+					for(fint iel = 0; iel < m->gnelem(); iel++)
+						locdtmin = std::min(locdtmin, dtm[iel]);
+				}
+				MPI_Allreduce(&locdtmin, &dtmin, 1, FVENS_MPI_REAL, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
-				for(int i = 0; i < nvars; i++)
+				MutableGhostedVecHandler<PetscScalar> uh(uvec);
+				Eigen::Map<MVector<freal>> u(uh.getArray(), locnelem, nvars);
+				ConstGhostedVecHandler<PetscScalar> rh(rvec);
+				Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+
+#pragma omp parallel for simd default(shared)
+				for(fint iel = 0; iel < m->gnelem(); iel++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					for(int i = 0; i < nvars; i++)
+					{
+						u(iel,i) = tvdcoeffs(istage,0)*ustart(iel,i)
+							+ tvdcoeffs(istage,1)*u(iel,i)
+							+ tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					}
 				}
 			}
-		}
-
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
 
+			ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -779,8 +795,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From b145945004cf1817cc97c44761d7ff9dbbf7733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 07/16] fix: in-place reductions use MPI_IN_PLACE instead of
 aliased buffers

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index f0f5291..5d437a6 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -526,7 +526,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From 43c184000c67a2149db6149c8d58c8f032a8ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 08/16] fix: no initialization section means no startup solve
 (flag was left uninitialised)

---
 src/utilities/controlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..e3a6023 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -74,6 +74,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.order2 = true;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
+	opts.usestarter = 0;
 
 	// Define string constants used as keywords in the control file
 
-- 
2.43.0


From 894875bb79b60209d9caa51a3e92e3fba3b6d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 09/16] fix: cases without output wall boundaries read past the
 end of an empty marker list

---
 src/utilities/casesolvers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..cfad747 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -154,8 +154,9 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	ConstVecHandler<freal> uh(u);
 	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+	std::tuple<freal,freal,freal> fnls {0, 0, 0};
+	if(!opts.lwalls.empty())
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
 
 	delete prob;
 
-- 
2.43.0


From fd18535648312457914d994e4a98dfeb9899b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 10/16] fix: make the boundary-face updates of Green-Gauss
 gradients atomic

A corner cell has several boundary (or connectivity) faces, which different
threads process; its gradient was accumulated without synchronisation.
---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From 26ccebf8e2dc0dbcaa33807952adfb05927a43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 11/16] fix: point-averaged output states are divided by the
 sum of cell areas, counted once per cell

---
 src/spatial/aoutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 39a18c603a072165ed60cf45f92f59fcef2818a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 12/16] fix: point-averaged scalar output reads the state with
 the number of variables it has

---
 src/spatial/diffusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..8160b0b 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -352,16 +352,16 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 044fa4c15c198426f305a4a42b904ddbd0145fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 13/16] fix: mesh VTU files of hybrid meshes have cumulative
 connectivity offsets

---
 src/spatial/aoutput.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..cf24f49 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -552,8 +552,6 @@ void writeScalarsVectorToVtu_PointData(std::string fname, const fvens::UMesh<fre
 
 
 /// Writes a hybrid mesh in VTU format.
-/** VTK does not have a 9-node quadrilateral, so we ignore the cell-centered note for output.
- */
 void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 {
 	std::cout << "Writing vtu output...\n";
@@ -586,8 +584,12 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
+	int totalnodes = 0;
 	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	{
+		totalnodes += m.gnnode(i);
+		out << "\t\t\t\t" << totalnodes << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
@@ -600,7 +602,7 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 		else if(m.gnnode(i) == 8)
 			elemcode = 23;
 		else if(m.gnnode(i) == 9)
-			elemcode = 23;
+			elemcode = 28;
 		out << "\t\t\t\t" << elemcode << '\n';
 	}
 	out << "\t\t\t</DataArray>\n";
-- 
2.43.0


From 992172c37fcc856380ab268755e94b2857fbf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 14/16] fix: skin friction uses the constant viscosity when
 that is what the flow is solved with

---
 src/spatial/flow_spatial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..f4db9f2 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -223,7 +223,8 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 */
 
 			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			const scalar muhat = pconfig.const_visc ? physics.getConstantViscosityCoeff()
+				: physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From 55d83e5007c524f6241f1394b3532da0f032b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 15/16] fix: a face between processes is recognised also when
 both of its points lie on the physical boundary

---
 src/mesh/meshpartitioning.cpp | 49 ++++++++---------------------------
 src/mesh/meshpartitioning.hpp | 12 +--------
 2 files changed, 12 insertions(+), 49 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..a222ca8 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -73,20 +73,16 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 	 */
 	extractbfaces(pointGlob2Loc, lm);
 
-	/*! 5. Compute local esuel and mark elements that neighbor and points that lie on
-	 *     a physical boundary face
-	 */
+	//! 5. Compute local esuel
 	lm.compute_elementsSurroundingPoints();
 	lm.compute_elementsSurroundingElements();
-	const std::vector<bool> isPhyBounPoint = markLocalPhysicalBoundaryPoints(lm);
-	assert(isPhyBounPoint.size() == static_cast<size_t>(lm.npoin));
 
 	/*! 6. Use local esuel, the global esuel and local-to-global elem map 
 	 *     to build the connectivity face structure. Use the fact that ordering of faces within
 	 *     elements is not changed during restriction to assign global face indices.
 	 */
 	const std::vector<std::vector<EIndex>> connElemLocalFace
-		= getConnectivityFaceEIndices(lm, isPhyBounPoint);
+		= getConnectivityFaceEIndices(lm);
 
 	lm.nconnface = 0;
 	for(fint i = 0; i < lm.nelem; i++)
@@ -275,25 +271,9 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 			lm.bface(iface,j) = tbfaces[iface][j];
 }
 
-std::vector<bool>
-ReplicatedGlobalMeshPartitioner::
-markLocalPhysicalBoundaryPoints(const UMesh<freal,2>& lm) const
-{
-	std::vector<bool> isBounPoin(lm.npoin,false);
-
-	for(fint iface = 0; iface < lm.nbface; iface++)
-	{
-		for(int inode = 0; inode < lm.nnofa; inode++) {
-			isBounPoin[lm.bface(iface,inode)] = true;
-		}
-	}
-	return isBounPoin;
-}
-
 std::vector<std::vector<EIndex>>
 ReplicatedGlobalMeshPartitioner::
-getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
-                            const std::vector<bool>& isPhyBounPoint) const
+getConnectivityFaceEIndices(const UMesh<freal,2>& lm) const
 {
 	const int rank = get_mpi_rank(MPI_COMM_WORLD);
 
@@ -303,26 +283,19 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
-		// Check whether face points are physical boundary points to identify connectivity faces
+		/* A face without a neighboring cell in this subdomain is a connectivity face if there is a
+		 * cell across it in the global mesh, and a physical boundary face otherwise.
+		 * Note that both points of a connectivity face can lie on the physical boundary.
+		 * The ordering of faces within a cell is the same in this subdomain as in the global mesh.
+		 */
+		const fint glind = lm.globalElemIndex[iel];
 		for(EIndex iface = 0; iface < lm.nfael[iel]; iface++)
 		{
 			if(lm.esuel(iel,iface) == -1)
 			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
-				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
-				if(isconnface) {
+				const fint globnbr = gm.esuel(glind,iface);
+				if(globnbr >= 0 && globnbr < gm.nelem)
 					connElemLocalFace[iel].push_back(iface);
-				}
 			}
 		}
 	}
diff --git a/src/mesh/meshpartitioning.hpp b/src/mesh/meshpartitioning.hpp
index 999c42d..d519783 100644
--- a/src/mesh/meshpartitioning.hpp
+++ b/src/mesh/meshpartitioning.hpp
@@ -59,20 +59,10 @@ protected:
 	 */
 	void extractbfaces(const std::map<fint,fint>& pointGlobal2Local, UMesh<freal,NDIM>& lm) const;
 
-	/// Marks points of this subdomain which are adjacent to physical boundary faces
-	/** As a by-product, also computes the number of physical boundary points in the local mesh in
-	 * nbpoin.
-	 * \return The vector of point marks
-	 */
-	std::vector<bool> markLocalPhysicalBoundaryPoints(const UMesh<freal,NDIM>& lm) const;
-
 	/// Returns a list of containing, for each local element, face E-indices that are connectivity
 	///  faces, if any
-	/** \param[in] isPhyBounPoint For each local point, whether or not it lies on a physical boundary
-	 */
 	std::vector<std::vector<EIndex>>
-	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm,
-	                            const std::vector<bool>& isPhyBounPoint) const;
+	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm) const;
 
 	/// The global mesh to partition
 	const UMesh<freal,NDIM>& gm;
-- 
2.43.0


From 102456148638265bf567a4c263e7af8d22eaa4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 16/16] fix: reordering cells also reorders their volume
 regions

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0

