From 058333a132c270b0f6417a6477c5d1ef67712a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 01/41] fix: protect storing of error messages and progress
 state shared between OpenMP threads

---
 src/actions_spherical.cpp   |  6 ++++++
 src/actions_staeckel.cpp    |  6 ++++++
 src/galaxymodel_base.cpp    |  3 +++
 src/galaxymodel_losvd.cpp   |  3 ++-
 src/interface_python.cpp    | 31 +++++++++++++++++++++++++++++++
 src/math_sample.cpp         |  3 +++
 src/potential_cylspline.cpp |  6 ++++++
 src/potential_multipole.cpp |  9 +++++++++
 src/potential_utils.cpp     |  3 +++
 9 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 45ccb13..2461850 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -394,6 +394,9 @@ math::QuinticSpline2d createActionInterpolator(const potential::Interpolator2d&
             // derivative w.r.t. X will be obtained from 1d spline after all W values are computed
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
@@ -507,6 +510,9 @@ math::QuinticSpline2d createEnergyInterpolator(const potential::Interpolator2d&
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index ccaa2f8..1b62a42 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -725,6 +725,9 @@ void createGridFocalDistance(
             grid2dR(iE, iL) = Rsh / Rc;
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -874,6 +877,9 @@ ActionFinderAxisymFudge::ActionFinderAxisymFudge(
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 5439d05..57979bd 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -40,6 +40,9 @@ void computeDensityParallel(const potential::BaseDensity& density,
             values[i] = density.density(pos[i]);
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index a7b1701..8399ee9 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -210,7 +210,8 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
     for(int i = 0; i < (int)numApertures; i++) {
         bool apOutOfBounds = math::computeBsplineIntegralsOverPolygon(
             params.apertures[i], bsplx, bsply, &apertureMatrix(i, 0));
-        outOfBounds |= apOutOfBounds;
+        if(apOutOfBounds)
+            outOfBounds = true;
     }
     if(outOfBounds)
         throw std::invalid_argument("TargetLOSVD: datacube does not cover all apertures");
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 72ee59c..5dab17a 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1256,6 +1256,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -1271,6 +1274,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -6189,6 +6195,9 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -6409,10 +6418,16 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 }
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
             if(cbrk.triggered()) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = cbrk.message();
                 fail = true;
             }
@@ -6462,10 +6477,16 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                         static_cast<galaxymodel::StorageNumT>(dstrow[m]);
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
             if(cbrk.triggered()) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = cbrk.message();
                 fail = true;
             }
@@ -7857,6 +7878,9 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 // performing any necessary procedures before going out of scope
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
@@ -7907,8 +7931,15 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
             ++numComplete;
             if(numOrbits > 1 && verbose) {
                 double deltat = timer.deltaSeconds();
+                bool needUpdate = false;
+#ifdef _OPENMP
+#pragma omp critical(ProgressUpdate)
+#endif
                 if(deltat-tprint >= 1) {
                     tprint = deltat;
+                    needUpdate = true;
+                }
+                if(needUpdate) {
                     PyAcquireGIL lock;
                     PyObject* result = NULL;
                     if(tqdm_instance) {
diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index bd59fdd..e7434cb 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -300,6 +300,9 @@ void Sampler::evalFncLoop(PointEnum firstPointIndex, PointEnum lastPointIndex)
         }
         // guard against possible exceptions, since they must not leave the OpenMP parallel section
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             badValueOccured = true;
         }
diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 4035940..7a4ae77 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -415,6 +415,9 @@ void computePotentialCoefsFromDensity(const BaseDensity &dens,
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -536,6 +539,9 @@ void computePotentialCoefsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 720179e..dbe8d4e 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -305,6 +305,9 @@ void computeSphericalHarmonicsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
@@ -889,6 +892,9 @@ void computeDensityCoefsFromParticles(
                 coefs[nonzeroCoefs[h]][k] = splc(gridLogRadii[k]) * coefs[0][k];
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -2097,6 +2103,9 @@ void computePotentialCoefsBSE(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index efbe0e9..5b75e72 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -1123,6 +1123,9 @@ Interpolator2d::Interpolator2d(const BasePotential& potential) :
             gridW1dY(iE, sizeL-1) = gridW2dY(iE, sizeL-1) = -2*Om2kap2;
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
-- 
2.43.0


From eb52fff136ab90c1de38f0863a8a14435ba2f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 02/41] fix: do not let exceptions escape from OpenMP parallel
 regions

---
 src/galaxymodel_jeans.cpp           | 120 +++++++++++---------
 src/galaxymodel_losvd.cpp           | 130 +++++++++++++--------
 src/galaxymodel_velocitysampler.cpp | 168 +++++++++++++++++-----------
 src/raga_core.cpp                   |  64 ++++++++---
 4 files changed, 304 insertions(+), 178 deletions(-)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index 8e7236d..ad6ef19 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -186,68 +186,82 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // this will represent the integral of r.h.s.
     const math::BsplineInterpolator1d<3> fint(gridfemz);
 
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
-        double R = gridR[iR];
-        std::vector<double> pointrho(femzsize), pointrhs(femzsize);
-        // collect values of two functions at integration points
-        for(int kz=0; kz<femzsize; kz++) {
-            double z     = femzpoints[kz];
-            double rho   = axiDens.density(coord::PosCyl(R, z, 0));
-            coord::GradCyl grad;
-            axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
-            pointrho[kz] = rho;
-            pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
-        }
-        // construct FEM representations of both rho and  rhs = -rho dPhi/dt
-        std::vector<double> projrhs = femz.computeProjVector(pointrhs);
-        std::vector<double> projrho = femz.computeProjVector(pointrho);
-        std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
-        std::vector<double> amplrho = math::solveBand(mat, projrho);
-        // integrate the B-spline representation of r.h.s. to obtain the amplitudes
-        // of B-spline representation of  E = rho sigma_z^2
-        std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
-        // and subtract the last element (the boundary condition is that E(infinity)=0)
-        const double maxamplE = fabs(amplE.back()) * 1e-12;
-        for(int iz=0; iz<(int)amplE.size(); iz++) {
-            amplE[iz] -= amplE.back();
-            // also zero out the elements of negligible magnitude -
-            // this will trigger extrapolation at large radii later on
-            if(fabs(amplE[iz]) < maxamplE)
-                amplE[iz] = 0.;
-        }
+        if(stop) continue;
+        try{
+            double R = gridR[iR];
+            std::vector<double> pointrho(femzsize), pointrhs(femzsize);
+            // collect values of two functions at integration points
+            for(int kz=0; kz<femzsize; kz++) {
+                double z     = femzpoints[kz];
+                double rho   = axiDens.density(coord::PosCyl(R, z, 0));
+                coord::GradCyl grad;
+                axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
+                pointrho[kz] = rho;
+                pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
+            }
+            // construct FEM representations of both rho and  rhs = -rho dPhi/dt
+            std::vector<double> projrhs = femz.computeProjVector(pointrhs);
+            std::vector<double> projrho = femz.computeProjVector(pointrho);
+            std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
+            std::vector<double> amplrho = math::solveBand(mat, projrho);
+            // integrate the B-spline representation of r.h.s. to obtain the amplitudes
+            // of B-spline representation of  E = rho sigma_z^2
+            std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
+            // and subtract the last element (the boundary condition is that E(infinity)=0)
+            const double maxamplE = fabs(amplE.back()) * 1e-12;
+            for(int iz=0; iz<(int)amplE.size(); iz++) {
+                amplE[iz] -= amplE.back();
+                // also zero out the elements of negligible magnitude -
+                // this will trigger extrapolation at large radii later on
+                if(fabs(amplE[iz]) < maxamplE)
+                    amplE[iz] = 0.;
+            }
 
-        // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
-        // potential approximation), then the entire high-z tail of the solution is unreliable;
-        // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
-        // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
-        int iz = 0;
-        for(; iz<gridzsize; iz++) {
-            // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
-            rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
-            rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
-            // check if things get wrong
-            if(iz>2 &&
-                (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
-                // assume that the next-to-last point was still ok (the last one might be already wrong),
-                // and restart in the regime of extrapolation
-                iz -= 1;
-                break;
+            // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
+            // potential approximation), then the entire high-z tail of the solution is unreliable;
+            // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
+            // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
+            int iz = 0;
+            for(; iz<gridzsize; iz++) {
+                // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
+                rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
+                rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
+                // check if things get wrong
+                if(iz>2 &&
+                    (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
+                    // assume that the next-to-last point was still ok (the last one might be already wrong),
+                    // and restart in the regime of extrapolation
+                    iz -= 1;
+                    break;
+                }
+            }
+            // check if we haven't processed all points in the normal interpolation regime
+            // and need to extrapolate points starting from iz
+            // (so that iz-1 is the index of the last reliable point)
+            for(int ez=iz; ez<gridzsize; ez++) {
+                // extrapolate to high z as power laws
+                const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
+                rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
+                // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
+                rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
             }
         }
-        // check if we haven't processed all points in the normal interpolation regime
-        // and need to extrapolate points starting from iz
-        // (so that iz-1 is the index of the last reliable point)
-        for(int ez=iz; ez<gridzsize; ez++) {
-            // extrapolate to high z as power laws
-            const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
-            rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
-            // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
-            rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in JeansAxi: "+errorMsg);
 #endif
 
     for(int iz=0; iz<gridzsize; iz++) {
diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 8399ee9..9f852af 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -463,30 +463,44 @@ void TargetLOSVD<N>::computeDFProjection(const GalaxyModel& model, StorageNumT*
     double* cubedata = datacube.data();
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
-        nx = bsplx.numValues(), nv = bsplv.numValues();
-        // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
-        double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
-        double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
-        std::vector<double> result(fnc.numValues());
-        computeProjection(model, fnc, Xlim, Ylim, orientation,
-            &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
-        // add the computed integrals to the output array
+        if(stop) continue;
+        try{
+            const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
+            nx = bsplx.numValues(), nv = bsplv.numValues();
+            // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
+            double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
+            double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
+            std::vector<double> result(fnc.numValues());
+            computeProjection(model, fnc, Xlim, Ylim, orientation,
+                &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int ky=0; ky<=N; ky++)
-                for(int kx=0; kx<=N; kx++)
-                    for(int iv=0; iv<nv; iv++)
-                        cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
-                            result[ (ky * (N+1) + kx) * nv + iv ];
+            {
+                for(int ky=0; ky<=N; ky++)
+                    for(int kx=0; kx<=N; kx++)
+                        for(int iv=0; iv<nv; iv++)
+                            cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
+                                result[ (ky * (N+1) + kx) * nv + iv ];
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in TargetLOSVD: "+errorMsg);
 
     // 2nd stage: convert the collected datacube into the output array of LOSVDs in each aperture
     finalizeDatacube(datacube, output);
@@ -501,35 +515,49 @@ std::vector<double> TargetLOSVD<N>::computeDensityProjection(const potential::Ba
     std::vector<double> pixelMasses(bsplx.numValues() * bsply.numValues());
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
-        // integration in a 3d slab: X, Y are projected coords in the image plane
-        // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
-        double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
-        double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
-        double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
-        // compute the integrals
-        math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
-        // get the offset of the B-spline values in the output array
-        double dummy[N+1];
-        int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
-            indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
-        assert(indx == ix && indy == iy &&
-            ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
-        const int nx = bsplx.numValues();
-        // add the computed integrals to the output array
+        if(stop) continue;
+        try{
+            int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
+            // integration in a 3d slab: X, Y are projected coords in the image plane
+            // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
+            double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
+            double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
+            double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
+            // compute the integrals
+            math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
+            // get the offset of the B-spline values in the output array
+            double dummy[N+1];
+            int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
+                indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
+            assert(indx == ix && indy == iy &&
+                ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
+            const int nx = bsplx.numValues();
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int kx=0; kx<=N; kx++)
-                for(int ky=0; ky<=N; ky++)
-                    pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            {
+                for(int kx=0; kx<=N; kx++)
+                    for(int ky=0; ky<=N; ky++)
+                        pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in TargetLOSVD: "+errorMsg);
 
     // 2nd stage: convert these projections to the aperture masses (simultaneously convolving with PSF)
     std::vector<double> result(apertureConvolutionMatrix.rows());
@@ -584,24 +612,38 @@ void TargetKinemShell<N>::computeDFProjection(const GalaxyModel& model, StorageN
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
     math::Matrix<double> datacube = newDatacube();
     const int size = (bspl.xvalues().size()-1) * GLORDER;
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int n=0; n<size; n++) {
-        int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
-        double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
-        double dens;
-        coord::Vel2Car vel2;
-        computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
-        double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
+        if(stop) continue;
+        try{
+            int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
+            double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
+            double dens;
+            coord::Vel2Car vel2;
+            computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
+            double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
-            bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            {
+                bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
+                bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in TargetKinemShell: "+errorMsg);
     finalizeDatacube(datacube, output);
 }
 
diff --git a/src/galaxymodel_velocitysampler.cpp b/src/galaxymodel_velocitysampler.cpp
index a72a020..e79c9af 100644
--- a/src/galaxymodel_velocitysampler.cpp
+++ b/src/galaxymodel_velocitysampler.cpp
@@ -22,28 +22,42 @@ particles::ParticleArrayCar assignVelocityEdd(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        double Phi = pot.value(point);
-        double v;
-        int numAttempts = 0;  // prevent a lockup in troubled cases
-        do {
-            v = sphModel.sampleVelocity(Phi, &state);
-        } while(Phi + 0.5*v*v >= 0 && ++numAttempts<100);
-        if(numAttempts>=100)  // something went wrong
-            v = 0;
-        double vec[3], sinphi, cosphi;
-        math::getRandomUnitVector(vec, &state);
-        math::sincos(point.phi, sinphi, cosphi);
-        result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
-            point.R * cosphi, point.R * sinphi, point.z,
-            v * vec[0], v * vec[1], v * vec[2]),
-            pointCoords.mass(i));
+        if(stop) continue;
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            double Phi = pot.value(point);
+            double v;
+            int numAttempts = 0;  // prevent a lockup in troubled cases
+            do {
+                v = sphModel.sampleVelocity(Phi, &state);
+            } while(Phi + 0.5*v*v >= 0 && ++numAttempts<100);
+            if(numAttempts>=100)  // something went wrong
+                v = 0;
+            double vec[3], sinphi, cosphi;
+            math::getRandomUnitVector(vec, &state);
+            math::sincos(point.phi, sinphi, cosphi);
+            result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
+                point.R * cosphi, point.R * sinphi, point.z,
+                v * vec[0], v * vec[1], v * vec[2]),
+                pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assignVelocity: "+errorMsg);
     return result;
 }
 
@@ -55,36 +69,50 @@ particles::ParticleArrayCar assignVelocityJeansSph(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        double r = hypot(point.R, point.z);
-        double sigma_r = jeansSphModel.value(r);
-        double sigma_t = sigma_r * sqrt(2-2*beta);  // vel.disp. in two tangential directions combined
-        double Phi = pot.value(point);
-        double vr, vt;
-        int numAttempts = 0;
-        do {
-            math::getNormalRandomNumbers(vr, vt, &state);
-            vr *= sigma_r;
-            vt *= sigma_t;
-        } while(Phi + 0.5 * (vr*vr + vt*vt) > 0 && ++numAttempts<100);
-        double sinphi, cosphi;
-        math::sincos(point.phi, sinphi, cosphi);
-        double xyz[3] = { point.R * cosphi, point.R * sinphi, point.z };
-        double vper[3];
-        math::getRandomPerpendicularVector(xyz, vper, &state);
-        if(r==0) r=1.;  // avoid indeterminacy
-        result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
-            xyz[0], xyz[1], xyz[2],
-            vr * xyz[0] / r + vt * vper[0],
-            vr * xyz[1] / r + vt * vper[1],
-            vr * xyz[2] / r + vt * vper[2]),
-            pointCoords.mass(i));
+        if(stop) continue;
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            double r = hypot(point.R, point.z);
+            double sigma_r = jeansSphModel.value(r);
+            double sigma_t = sigma_r * sqrt(2-2*beta);  // vel.disp. in two tangential directions combined
+            double Phi = pot.value(point);
+            double vr, vt;
+            int numAttempts = 0;
+            do {
+                math::getNormalRandomNumbers(vr, vt, &state);
+                vr *= sigma_r;
+                vt *= sigma_t;
+            } while(Phi + 0.5 * (vr*vr + vt*vt) > 0 && ++numAttempts<100);
+            double sinphi, cosphi;
+            math::sincos(point.phi, sinphi, cosphi);
+            double xyz[3] = { point.R * cosphi, point.R * sinphi, point.z };
+            double vper[3];
+            math::getRandomPerpendicularVector(xyz, vper, &state);
+            if(r==0) r=1.;  // avoid indeterminacy
+            result[i] = particles::ParticleArrayCar::ElemType(coord::PosVelCar(
+                xyz[0], xyz[1], xyz[2],
+                vr * xyz[0] / r + vt * vper[0],
+                vr * xyz[1] / r + vt * vper[1],
+                vr * xyz[2] / r + vt * vper[2]),
+                pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assignVelocity: "+errorMsg);
     return result;
 }
 
@@ -96,32 +124,46 @@ particles::ParticleArrayCar assignVelocityJeansAxi(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
-        const coord::PosCyl& point = pointCoords.point(i);
-        math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
-        coord::VelCyl  vel;
-        coord::Vel2Cyl vel2;
-        jeansAxiModel.moments(point, vel, vel2);
-        double sigma_z   = sqrt(vel2.vz2);
-        double sigma_R   = sqrt(vel2.vR2);
-        double sigma_phi = sqrt(fmax(0., vel2.vphi2 - pow_2(vel.vphi)));
-        double Phi = pot.value(point);
-        double vR, vz, vphi, sphi, devnull;
-        int numAttempts = 0;
-        do {
-            math::getNormalRandomNumbers(sphi, /*ignored - need only one number here*/ devnull, &state);  
-            vphi = vel.vphi + sphi * sigma_phi;
-            math::getNormalRandomNumbers(vR, vz, &state);
-            vR *= sigma_R;
-            vz *= sigma_z;
-        } while(Phi + 0.5 * (vR*vR + vz*vz + vphi*vphi) > 0 && ++numAttempts<100);
-        result[i] = particles::ParticleArrayCar::ElemType(
-            toPosVelCar(coord::PosVelCyl(point, coord::VelCyl(vR, vz, vphi))),
-            pointCoords.mass(i));
+        if(stop) continue;
+        try{
+            const coord::PosCyl& point = pointCoords.point(i);
+            math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
+            coord::VelCyl  vel;
+            coord::Vel2Cyl vel2;
+            jeansAxiModel.moments(point, vel, vel2);
+            double sigma_z   = sqrt(vel2.vz2);
+            double sigma_R   = sqrt(vel2.vR2);
+            double sigma_phi = sqrt(fmax(0., vel2.vphi2 - pow_2(vel.vphi)));
+            double Phi = pot.value(point);
+            double vR, vz, vphi, sphi, devnull;
+            int numAttempts = 0;
+            do {
+                math::getNormalRandomNumbers(sphi, /*ignored - need only one number here*/ devnull, &state);  
+                vphi = vel.vphi + sphi * sigma_phi;
+                math::getNormalRandomNumbers(vR, vz, &state);
+                vR *= sigma_R;
+                vz *= sigma_z;
+            } while(Phi + 0.5 * (vR*vR + vz*vz + vphi*vphi) > 0 && ++numAttempts<100);
+            result[i] = particles::ParticleArrayCar::ElemType(
+                toPosVelCar(coord::PosVelCyl(point, coord::VelCyl(vR, vz, vphi))),
+                pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assignVelocity: "+errorMsg);
     return result;
 }
 
diff --git a/src/raga_core.cpp b/src/raga_core.cpp
index 565c96d..c793721 100644
--- a/src/raga_core.cpp
+++ b/src/raga_core.cpp
@@ -36,16 +36,30 @@ void computeTotalEnergyModel(
     }
     // add energies of all particles
     ptrdiff_t nbody = particles.size();
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static) reduction(+:Etot,Esum)
 #endif
     for(ptrdiff_t ip=0; ip<nbody; ip++) {
-        const coord::PosVelCar& point = particles.point(ip);
-        double Epot = pot.value(point, time) + bh.potential(point, time);
-        double Ekin = (pow_2(point.vx) + pow_2(point.vy) + pow_2(point.vz)) * 0.5;
-        Etot += particles.mass(ip) * (Ekin+Epot*0.5);
-        Esum += particles.mass(ip) * (Ekin+Epot);
+        if(stop) continue;
+        try{
+            const coord::PosVelCar& point = particles.point(ip);
+            double Epot = pot.value(point, time) + bh.potential(point, time);
+            double Ekin = (pow_2(point.vx) + pow_2(point.vy) + pow_2(point.vz)) * 0.5;
+            Etot += particles.mass(ip) * (Ekin+Epot*0.5);
+            Esum += particles.mass(ip) * (Ekin+Epot);
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in computeTotalEnergyModel: "+errorMsg);
     resultEtot = Etot;
     resultEsum = Esum;
 }
@@ -131,25 +145,39 @@ void RagaCore::doEpisode(double episodeLength)
         potential::PtrPotential(new potential::Composite(potComponents)) :
         ptrPot;
 
+    std::string errorMsg;
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic,1)
 #endif
     for(ptrdiff_t ip=0; ip<nbody; ip++) {
-        ptrdiff_t index = particleOrder[ip].second;
-        if(particles.mass(index) != 0) {   // run only non-zero-mass particles
-            orbit::OrbitIntegrator<coord::Car> orbint(*ptrTotalPot, /*Omega*/0, orbitIntParams);
-            for(int task=0; task<numtasks; task++)
-                tasks[task]->createRuntimeFnc(orbint, index);
-            orbint.init(particles.point(index));
-            coord::PosVelCar endposvel = orbint.run(episodeLength);
-            particles[index].first = particles::ParticleAux(
-                /* replace the initial position/velocity with that at the end of the episode */
-                endposvel,
-                /* keep the original extended particle attributes */
-                particles.point(index).stellarMass,
-                particles.point(index).stellarRadius);
+        if(stop) continue;
+        try{
+            ptrdiff_t index = particleOrder[ip].second;
+            if(particles.mass(index) != 0) {   // run only non-zero-mass particles
+                orbit::OrbitIntegrator<coord::Car> orbint(*ptrTotalPot, /*Omega*/0, orbitIntParams);
+                for(int task=0; task<numtasks; task++)
+                    tasks[task]->createRuntimeFnc(orbint, index);
+                orbint.init(particles.point(index));
+                coord::PosVelCar endposvel = orbint.run(episodeLength);
+                particles[index].first = particles::ParticleAux(
+                    /* replace the initial position/velocity with that at the end of the episode */
+                    endposvel,
+                    /* keep the original extended particle attributes */
+                    particles.point(index).stellarMass,
+                    particles.point(index).stellarRadius);
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
         }
     }   // end parallel for
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in doEpisode: "+errorMsg);
 
     utils::msg(utils::VL_MESSAGE, "Raga",
         utils::toString(nbody) + " particles, " +
-- 
2.43.0


From fb30882a106547ce16a3bef9005b966c3e7d1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 03/41] fix: do not let C++ exceptions escape through C,
 Fortran, NEMO and Python interfaces

agama_evalDensity, agama_evalPotential, agama_R_circ and other C functions, all
Fortran and NEMO entry points, and Potential.Rcirc/Tcirc/Rmax with a large input
array (which constructs an interpolator) terminated the process when the
potential or the interpolator threw an exception.
---
 src/interface_c.cpp       | 63 ++++++++++++++++++++++----
 src/interface_fortran.cpp | 95 ++++++++++++++++++++++++++++++---------
 src/interface_nemo.cpp    | 26 ++++++++---
 src/interface_python.cpp  | 40 ++++++++++++-----
 4 files changed, 177 insertions(+), 47 deletions(-)

diff --git a/src/interface_c.cpp b/src/interface_c.cpp
index a688e3e..9f49de6 100644
--- a/src/interface_c.cpp
+++ b/src/interface_c.cpp
@@ -62,7 +62,13 @@ void agama_deletePotential(agama_Potential* potential)
 
 double agama_evalDensity(const agama_Density* density, const double pos[3], double time)
 {
-    return density->get()->density(coord::PosCar(pos[0], pos[1], pos[2]), time);
+    try{
+        return density->get()->density(coord::PosCar(pos[0], pos[1], pos[2]), time);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        return NAN;
+    }
 }
 
 double agama_evalPotential(const agama_Potential* potential, const double pos[3], double time,
@@ -71,8 +77,15 @@ double agama_evalPotential(const agama_Potential* potential, const double pos[3]
     double Phi;
     coord::GradCar grad;
     coord::HessCar hess;
-    potential->get()->eval(coord::PosCar(pos[0], pos[1], pos[2]), &Phi,
-        deriv? &grad : NULL, deriv2? &hess : NULL, time);
+    try{
+        potential->get()->eval(coord::PosCar(pos[0], pos[1], pos[2]), &Phi,
+            deriv? &grad : NULL, deriv2? &hess : NULL, time);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        Phi = grad.dx = grad.dy = grad.dz = NAN;
+        hess.dx2 = hess.dy2 = hess.dz2 = hess.dxdy = hess.dydz = hess.dxdz = NAN;
+    }
     if(deriv) {
         deriv[0] = grad.dx;
         deriv[1] = grad.dy;
@@ -91,23 +104,47 @@ double agama_evalPotential(const agama_Potential* potential, const double pos[3]
 
 double agama_R_circ(const agama_Potential* potential, double E)
 {
-    return R_circ(*potential->get(), E);
+    try{
+        return R_circ(*potential->get(), E);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        return NAN;
+    }
 }
 
 double agama_R_from_Lz(const agama_Potential* potential, double Lz)
 {
-    return R_from_Lz(*potential->get(), Lz);
+    try{
+        return R_from_Lz(*potential->get(), Lz);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        return NAN;
+    }
 }
 
 double agama_R_max(const agama_Potential* potential, double E)
 {
-    return R_max(*potential->get(), E);
+    try{
+        return R_max(*potential->get(), E);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        return NAN;
+    }
 }
 
 void agama_findPlanarOrbitExtent(const agama_Potential* potential, double E, double L,
     double* R1, double* R2)
 {
-    findPlanarOrbitExtent(*potential->get(), E, L, *R1, *R2);
+    try{
+        findPlanarOrbitExtent(*potential->get(), E, L, *R1, *R2);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        *R1 = *R2 = NAN;
+    }
 }
 
 agama_ActionFinder* agama_createActionFinder(const agama_Potential* potential)
@@ -135,8 +172,16 @@ void agama_evalActionsAnglesFrequencies(
     actions::Actions act;
     actions::Angles ang;
     actions::Frequencies freq;
-    (*actionFinder)->eval(point,
-        actions? &act : NULL, angles? &ang : NULL, frequencies? &freq : NULL);
+    try{
+        (*actionFinder)->eval(point,
+            actions? &act : NULL, angles? &ang : NULL, frequencies? &freq : NULL);
+    }
+    catch(std::exception& e) {
+        error = e.what();
+        act.Jr = act.Jz = act.Jphi = NAN;
+        ang.thetar = ang.thetaz = ang.thetaphi = NAN;
+        freq.Omegar = freq.Omegaz = freq.Omegaphi = NAN;
+    }
     if(actions) {
         actions[0] = act.Jr;
         actions[1] = act.Jz;
diff --git a/src/interface_fortran.cpp b/src/interface_fortran.cpp
index 107d4fb..f8c17e6 100644
--- a/src/interface_fortran.cpp
+++ b/src/interface_fortran.cpp
@@ -22,6 +22,7 @@ as the first argument to all functions in this module.
 See the FORTRAN example for more details.
 */
 #include <cstring>
+#include <cmath>
 #include "potential_factory.h"
 #include "utils_config.h"
 #include "utils.h"
@@ -110,6 +111,15 @@ static std::string stdstr(char* fortranString, long len)
 /// *smart* pointers that should exist until the end of the program
 std::vector<potential::PtrPotential> potentials;
 
+/// report an error to the caller: an exception must not propagate into the FORTRAN program,
+/// so its message is printed out, and the pointer to the C++ object (if it was to be created) is zeroed out
+static void reportError(const std::exception& e, void* c_obj=NULL)
+{
+    FILTERMSG(utils::VL_MESSAGE, "FortranWrapper", std::string("Error: ") + e.what());
+    if(c_obj)
+        memset(c_obj, 0, sizeof(void*));
+}
+
 } // internal namespace
 
 
@@ -122,9 +132,14 @@ std::vector<potential::PtrPotential> potentials;
 ///     call agama_initfromfile(C_OBJ, "file.ini")  ! now C_OBJ contains a valid instance of potential
 extern "C" void agama_initfromfile_(void* c_obj, char* inifilename, long /*len(c_obj)=8*/, long len)
 {
-    potentials.push_back(potential::readPotential(stdstr(inifilename, len)));
-    const potential::BasePotential* ptr = potentials.back().get();
-    memcpy(c_obj, &ptr, sizeof(void*));
+    try{
+        potentials.push_back(potential::readPotential(stdstr(inifilename, len)));
+        const potential::BasePotential* ptr = potentials.back().get();
+        memcpy(c_obj, &ptr, sizeof(void*));
+    }
+    catch(std::exception& e) {
+        reportError(e, c_obj);
+    }
 }
 
 /// Routine that should be called from FORTRAN to construct a potential specified by
@@ -134,9 +149,14 @@ extern "C" void agama_initfromfile_(void* c_obj, char* inifilename, long /*len(c
 /// OUTPUT: c_obj - the placeholder for storing the pointer to the C++ potential object.
 extern "C" void agama_initfromparam_(void* c_obj, char* params, long, long len)
 {
-    potentials.push_back(potential::createPotential(utils::KeyValueMap(stdstr(params, len))));
-    const potential::BasePotential* ptr = potentials.back().get();
-    memcpy(c_obj, &ptr, sizeof(void*));
+    try{
+        potentials.push_back(potential::createPotential(utils::KeyValueMap(stdstr(params, len))));
+        const potential::BasePotential* ptr = potentials.back().get();
+        memcpy(c_obj, &ptr, sizeof(void*));
+    }
+    catch(std::exception& e) {
+        reportError(e, c_obj);
+    }
 }
 
 /// Routine that should be called from FORTRAN to construct a potential approximation
@@ -147,21 +167,31 @@ extern "C" void agama_initfromparam_(void* c_obj, char* params, long, long len)
 /// OUTPUT: c_obj - the placeholder for storing the pointer to the C++ potential object.
 extern "C" void agama_initfrompot_(void* c_obj, char* params, potentialfnc pot, long, long len)
 {
-    utils::KeyValueMap param(stdstr(params, len));
-    potentials.push_back(potential::createPotential(param, potential::PtrPotential(
-        new PotentialWrapper(pot, potential::getSymmetryTypeByName(param.getString("Symmetry"))))));
-    const potential::BasePotential* ptr = potentials.back().get();
-    memcpy(c_obj, &ptr, sizeof(void*));
+    try{
+        utils::KeyValueMap param(stdstr(params, len));
+        potentials.push_back(potential::createPotential(param, potential::PtrPotential(
+            new PotentialWrapper(pot, potential::getSymmetryTypeByName(param.getString("Symmetry"))))));
+        const potential::BasePotential* ptr = potentials.back().get();
+        memcpy(c_obj, &ptr, sizeof(void*));
+    }
+    catch(std::exception& e) {
+        reportError(e, c_obj);
+    }
 }
 
 /// same as above, but for a user-defined density function
 extern "C" void agama_initfromdens_(void* c_obj, char* paramstr, densityfnc pot, long, long len)
 {
-    utils::KeyValueMap param(stdstr(paramstr, len));
-    potentials.push_back(potential::createPotential(param, potential::PtrDensity(
-        new DensityWrapper(pot, potential::getSymmetryTypeByName(param.getString("Symmetry"))))));
-    const potential::BasePotential* ptr = potentials.back().get();
-    memcpy(c_obj, &ptr, sizeof(void*));
+    try{
+        utils::KeyValueMap param(stdstr(paramstr, len));
+        potentials.push_back(potential::createPotential(param, potential::PtrDensity(
+            new DensityWrapper(pot, potential::getSymmetryTypeByName(param.getString("Symmetry"))))));
+        const potential::BasePotential* ptr = potentials.back().get();
+        memcpy(c_obj, &ptr, sizeof(void*));
+    }
+    catch(std::exception& e) {
+        reportError(e, c_obj);
+    }
 }
 
 /// Routine that should be called from FORTRAN to compute the potential at the given point.
@@ -172,7 +202,13 @@ extern "C" double agama_potential_(void* c_obj, double* X, long)
 {
     const potential::BasePotential* pot;
     memcpy(&pot, c_obj, sizeof(void*));
-    return pot->value(coord::PosCar(X[0], X[1], X[2]));
+    try{
+        return pot->value(coord::PosCar(X[0], X[1], X[2]));
+    }
+    catch(std::exception& e) {
+        reportError(e);
+        return NAN;
+    }
 }
 
 /// Routine that should be called from FORTRAN to compute the potential and force at the given point.
@@ -186,7 +222,13 @@ extern "C" double agama_potforce_(void* c_obj, double* X, double* FORCE, long)
     memcpy(&pot, c_obj, sizeof(void*));
     coord::GradCar grad;
     double value;
-    pot->eval(coord::PosCar(X[0], X[1], X[2]), &value, &grad);
+    try{
+        pot->eval(coord::PosCar(X[0], X[1], X[2]), &value, &grad);
+    }
+    catch(std::exception& e) {
+        reportError(e);
+        value = grad.dx = grad.dy = grad.dz = NAN;
+    }
     FORCE[0] = -grad.dx;
     FORCE[1] = -grad.dy;
     FORCE[2] = -grad.dz;
@@ -207,7 +249,14 @@ extern "C" double agama_potforcederiv_(void* c_obj, double* X, double* FORCE, do
     coord::GradCar grad;
     coord::HessCar hess;
     double value;
-    pot->eval(coord::PosCar(X[0], X[1], X[2]), &value, &grad, &hess);
+    try{
+        pot->eval(coord::PosCar(X[0], X[1], X[2]), &value, &grad, &hess);
+    }
+    catch(std::exception& e) {
+        reportError(e);
+        value = grad.dx = grad.dy = grad.dz = NAN;
+        hess.dx2 = hess.dy2 = hess.dz2 = hess.dxdy = hess.dxdz = hess.dydz = NAN;
+    }
     FORCE[0] = -grad.dx;
     FORCE[1] = -grad.dy;
     FORCE[2] = -grad.dz;
@@ -228,5 +277,11 @@ extern "C" double agama_density_(void* c_obj, double* X, long)
 {
     const potential::BasePotential* pot;
     memcpy(&pot, c_obj, sizeof(void*));
-    return pot->density(coord::PosCar(X[0], X[1], X[2]));
+    try{
+        return pot->density(coord::PosCar(X[0], X[1], X[2]));
+    }
+    catch(std::exception& e) {
+        reportError(e);
+        return NAN;
+    }
 }
diff --git a/src/interface_nemo.cpp b/src/interface_nemo.cpp
index bedef3f..21e18cd 100644
--- a/src/interface_nemo.cpp
+++ b/src/interface_nemo.cpp
@@ -88,7 +88,13 @@ inline void getAcc(double time, int nbody, const int* active, const void* _pos,
             NDIM==3 ? pos[i*NDIM + 2] : 0);
         coord::GradCar grad;
         double Phi;
-        mypot->eval(point, &Phi, &grad, NULL, time);
+        try{
+            mypot->eval(point, &Phi, &grad, NULL, time);
+        }
+        catch(std::exception& e) {  // should not propagate into the calling code
+            fprintf(stderr, "Agama plugin for NEMO: %s\n", e.what());
+            Phi = grad.dx = grad.dy = grad.dz = NAN;
+        }
         // potential and acceleration are either added or assigned, depending on the flags
         op<NumT,AddPot>( static_cast<NumT>(Phi), pot[i]);
         op<NumT,AddAcc>(-static_cast<NumT>(grad.dx * cosphi - grad.dy * sinphi), acc[i*NDIM + 0]);
@@ -189,12 +195,18 @@ extern "C" void inipotential(
     }
     Omega = *npar>=1 ? pars[0] : 0;
     double G = *npar>=2 ? pars[1] : 1;
-    if(G==1)
-        mypot = potential::readPotential(file);
-    else {
-        const units::InternalUnits unit(units::Kpc, units::Kpc/units::kms);
-        mypot = potential::readPotential(file,
-            units::ExternalUnits(unit, units::Kpc, units::kms, units::Msun * unit.to_Msun * G));
+    try{
+        if(G==1)
+            mypot = potential::readPotential(file);
+        else {
+            const units::InternalUnits unit(units::Kpc, units::Kpc/units::kms);
+            mypot = potential::readPotential(file,
+                units::ExternalUnits(unit, units::Kpc, units::kms, units::Msun * unit.to_Msun * G));
+        }
+    }
+    catch(std::exception& e) {
+        fprintf(stderr, "Agama plugin for NEMO: %s\n", e.what());
+        std::exit(1);
     }
     fprintf(stderr, "Agama plugin for NEMO: Created an instance of %s potential", mypot->name().c_str());
     if(Omega != 0)
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 5dab17a..d91bdac 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -3132,13 +3132,19 @@ PyObject* Potential_Rcirc(PyObject* self, PyObject* args, PyObject* namedArgs)
         &L_obj, &E_obj) &&
         ((L_obj!=NULL) ^ (E_obj!=NULL) /*exactly one of them should be non-NULL*/) )
     {
-        if(L_obj) {
-            FncPotentialRcirc<true > fnc(L_obj, *((PotentialObject*)self)->pot);
-            return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
-         } else {
-            FncPotentialRcirc<false> fnc(E_obj, *((PotentialObject*)self)->pot);
-            return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
-         }
+        try{  // constructing an interpolator may throw an exception
+            if(L_obj) {
+                FncPotentialRcirc<true > fnc(L_obj, *((PotentialObject*)self)->pot);
+                return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+            } else {
+                FncPotentialRcirc<false> fnc(E_obj, *((PotentialObject*)self)->pot);
+                return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+            }
+        }
+        catch(std::exception& e) {
+            raisePythonException(e, "Error in Rcirc(): ");
+            return NULL;
+        }
     } else {
         PyErr_SetString(PyExc_TypeError, "Rcirc() takes exactly one argument (either L or E)");
         return NULL;
@@ -3185,8 +3191,14 @@ PyObject* Potential_Tcirc(PyObject* self, PyObject* args)
 {
     if(!Potential_isCorrect(self))
         return NULL;
-    FncPotentialTcirc fnc(args, *((PotentialObject*)self)->pot);
-    return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+    try{  // constructing an interpolator may throw an exception
+        FncPotentialTcirc fnc(args, *((PotentialObject*)self)->pot);
+        return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+    }
+    catch(std::exception& e) {
+        raisePythonException(e, "Error in Tcirc(): ");
+        return NULL;
+    }
 
 }
 
@@ -3222,8 +3234,14 @@ public:
 PyObject* Potential_Rmax(PyObject* self, PyObject* args) {
     if(!Potential_isCorrect(self))
         return NULL;
-    FncPotentialRmax fnc(args, *((PotentialObject*)self)->pot);
-    return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+    try{  // constructing an interpolator may throw an exception
+        FncPotentialRmax fnc(args, *((PotentialObject*)self)->pot);
+        return fnc.run(/*chunk*/fnc.interp ? 1024 : 64);
+    }
+    catch(std::exception& e) {
+        raisePythonException(e, "Error in Rmax(): ");
+        return NULL;
+    }
 }
 
 /// compute the peri- and apocenter radii of an orbit in the x,y plane with the given E, Lz or x,v
-- 
2.43.0


From b5cdaf0ed29916ea97caba2ac1236e21ff33a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 04/41] fix: hold the interpreter lock when using the Python C
 API

ActionFinder() evaluated the truth value of a Python argument after releasing the lock,
and the error path of creating an orbit object in a worker thread modified a reference
count and raised a Python exception without acquiring it.
---
 src/interface_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index d91bdac..308d778 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -3477,8 +3477,9 @@ int ActionFinder_init(ActionFinderObject* self, PyObject* args, PyObject* namedA
     try{
         // ActionFinder constructors have OpenMP-parallelized loops, which might call back a Python
         // function if the potential contains one, so we need to release GIL beforehand
+        bool interpolate = toBool(interp_flag, false);  // uses Python C API, so must run under GIL
         PyReleaseGIL unlock;
-        self->af = actions::createActionFinder(pot, toBool(interp_flag, false));
+        self->af = actions::createActionFinder(pot, interpolate);
         FILTERMSG(utils::VL_DEBUG, "Agama", "Created " + self->af->name() + " action finder at " +
             utils::toString(self->af.get()));
         return 0;
@@ -7398,6 +7399,7 @@ bool createOrbit(int dtype, const orbit::Trajectory &traj,
                 ", "  +utils::toString(((SplineObject*)orbit->z)->spl.get()));
         }
         catch(std::exception& ex) {
+            PyAcquireGIL lock;  // this function is called from a parallel section running without GIL
             Py_DECREF(orbit);
             raisePythonException(ex);
             return false;
-- 
2.43.0


From 1f36baff19454a24404bc6a3ca316733c700c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 05/41] fix: check the finiteness of the potential at origin at
 the requested time

---
 src/potential_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index 5b75e72..f9f5535 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -110,7 +110,7 @@ public:
         pot(_pot), X(pos.X), Y(pos.Y), R(sqrt(X*X+Y*Y)), orientation(_orientation),
         needPhi(_needPhi), needGrad(_needGrad), needHess(_needHess), time(_time)
     {
-        if(needPhi && !isFinite(pot.value(coord::PosCar(0, 0, 0))) )
+        if(needPhi && !isFinite(pot.value(coord::PosCar(0, 0, 0), time)) )
             throw std::runtime_error("Potential must be finite at origin");
     }
 
-- 
2.43.0


From c1f1bee5ec9ef776d427f5289c5d2bdaf4ff1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 06/41] fix: BasisSet: allow the Hessian to be requested
 without the gradient in the spherical case

---
 src/potential_multipole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index dbe8d4e..e1f376e 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -2319,7 +2319,7 @@ void BasisSet::evalSph(const coord::PosSph &pos,
     if(ind.lmax == 0) {   // fast track in the spherical case
         if(potential)
             *potential = Phi_lm[0];
-        if(needGrad) {
+        if(grad) {
             grad->dr = dPhi_lm[0];
             grad->dtheta = grad->dphi = 0;
         }
-- 
2.43.0


From 8fbf6096b816ea8a46a2dbef80914819aeaa1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 07/41] fix: PerfectEllipsoid: assign the azimuthal second
 derivatives

---
 src/potential_perfect_ellipsoid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/potential_perfect_ellipsoid.cpp b/src/potential_perfect_ellipsoid.cpp
index 4fa0d86..a74403f 100644
--- a/src/potential_perfect_ellipsoid.cpp
+++ b/src/potential_perfect_ellipsoid.cpp
@@ -134,6 +134,7 @@ void PerfectEllipsoid::evalAxi(const coord::PosAxi& pos,
         deriv2->drho2   = Phi * d2Mdrho2_over_M   + norm * M * (2 * dlnMdrho * dGrho + d2Grho);
         deriv2->dnu2    = Phi * d2Mdnu2_over_M    + norm * M * (2 * dlnMdnu  * dGnu  + d2Gnu);
         deriv2->drhodnu = Phi * d2Mdrhodnu_over_M + norm * M * (dlnMdrho * dGnu + dlnMdnu * dGrho);
+        deriv2->drhodphi = deriv2->dnudphi = deriv2->dphi2 = 0;
     }
 }
 
-- 
2.43.0


From d04eead0f8136d06e04aa245c1eb3cef06002c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 08/41] fix: PhaseVolume: assign the derivative dg/dh in the
 limiting cases h=0 and h=infinity

---
 src/potential_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index f9f5535..882e42d 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -1311,10 +1311,12 @@ double PhaseVolume::E(const double h, double* g, double* dgdh) const
 {
     if(h==0) {
         if(g) *g=0;
+        if(dgdh) *dgdh = invPhi0 == 0 ? 0 : INFINITY;
         return invPhi0 == 0 ? -INFINITY : 1/invPhi0;
     }
     if(h==INFINITY) {
         if(g) *g=INFINITY;
+        if(dgdh) *dgdh=INFINITY;
         return 0;
     }
     double scaledE, dEdscaledE, d2EdscaledE2, realE, dscaledEdlogh, d2scaledEdlogh2;
-- 
2.43.0


From 22806fced6f1f92324fb74a8bb9c18a099cc62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 09/41] fix: integrate, integrateAdaptive: assign the optional
 outputs for an empty interval

---
 src/math_core.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 7fdad13..4a0e0c0 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -1069,8 +1069,13 @@ double findMin(const IFunction& fnc, double xlower, double xupper, double xinit,
 double integrate(const IFunction& fnc, double x1, double x2, double reltoler, 
     double* error, int* numEval)
 {
-    if(x1==x2)
+    if(x1==x2) {
+        if(error!=NULL)
+            *error = 0;
+        if(numEval!=NULL)
+            *numEval = 0;
         return 0;
+    }
     gsl_function F;
     F.function = functionWrapper;
     F.params = const_cast<IFunction*>(&fnc);
@@ -1086,8 +1091,13 @@ double integrate(const IFunction& fnc, double x1, double x2, double reltoler,
 double integrateAdaptive(const IFunction& fnc, double x1, double x2, double reltoler, 
     double* error, int* numEval)
 {
-    if(x1==x2)
+    if(x1==x2) {
+        if(error!=NULL)
+            *error = 0;
+        if(numEval!=NULL)
+            *numEval = 0;
         return 0;
+    }
     // one would think that the integration routine should give the same result (with negative sign)
     // when x1>x2, but apparently it does not work correctly in that case, so we treat it manually
     bool flipSign = swapIfNeeded(x1, x2);
-- 
2.43.0


From ec438a51cced399b8ef2784ad5607ba4a827fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 10/41] fix: sampleNdim: provide the error estimate when the
 integral is not requested

---
 src/math_sample.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index e7434cb..912f657 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -667,9 +667,11 @@ void sampleNdim(const IFunctionNdim& fnc, const double xlower[], const double xu
     // statistics
     if(numTrialPoints!=NULL)
         *numTrialPoints = sampler.numCalls();
-    if(integral!=NULL) {
-        double err;
-        sampler.integral(*integral, err);
+    if(integral!=NULL || interror!=NULL) {
+        double val, err;
+        sampler.integral(val, err);
+        if(integral!=NULL)
+            *integral = val;
         if(interror!=NULL)
             *interror = err;
     }
-- 
2.43.0


From 2462cb0db5942968514a073f942035cb22b9ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 11/41] fix: FORTRAN potential wrapper: second derivatives are
 not available, return NaN instead of leaving them unset

---
 src/interface_fortran.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_fortran.cpp b/src/interface_fortran.cpp
index f8c17e6..c931bee 100644
--- a/src/interface_fortran.cpp
+++ b/src/interface_fortran.cpp
@@ -85,7 +85,7 @@ private:
     virtual std::string name() const { return "PotentialWrapper"; };
     virtual coord::SymmetryType symmetry() const { return sym; }
     virtual void evalCar(const coord::PosCar &pos,
-        double* potential, coord::GradCar* deriv, coord::HessCar*, double /*time*/) const
+        double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double /*time*/) const
     {
         double x[3] = {pos.x, pos.y, pos.z};
         double f[3];
@@ -97,6 +97,8 @@ private:
             deriv->dy = -f[1];
             deriv->dz = -f[2];
         }
+        if(deriv2)  // second derivatives are not provided by the FORTRAN routine
+            deriv2->dx2 = deriv2->dy2 = deriv2->dz2 = deriv2->dxdy = deriv2->dydz = deriv2->dxdz = NAN;
     }
 };
 
-- 
2.43.0


From 59e81e60bbd45320bb9ae86a2793beaff7d90cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 12/41] fix: splineLogDensity: assign all outputs of logG when
 the integral does not exist

---
 src/math_spline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index a7e2ea4..9a54696 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -4091,6 +4091,8 @@ double SplineLogDensityFitter<N>::logG(
                 deriv[0] = INFINITY;
             if(deriv2)
                 deriv2[0] = INFINITY;
+            if(GdG0)
+                GdG0[0] = GdG0[1] = NAN;
             return INFINITY;
         }
         double val = signder[p] * exp(Q-offset) / Qder;
-- 
2.43.0


From ef5d109d50227c4ef19d566cc6004d87a446e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 13/41] fix: keep the pending exception of callbacks of C
 libraries separately for each thread

The flag and the text of the exception raised inside a function called from GSL
were global variables, reset and tested by every routine that uses GSL: when
such routines ran in several threads, exceptions were lost or attributed
to unrelated calls in other threads.
---
 src/math_core.cpp     | 13 ++++++++++---
 src/math_linalg.cpp   |  3 +++
 src/math_specfunc.cpp |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 4a0e0c0..20af113 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -37,6 +37,14 @@ static const int MAX_INTEGR_POINTS = 1000;
 
 // ------ error handling ------ //
 
+// these two variables are used to propagate exceptions through external C code that does not support them;
+// each thread has its own instance, since the functions of this module may be called from parallel regions
+extern bool exceptionFlag;
+extern std::string exceptionText;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionFlag, exceptionText)
+#endif
+
 /// stores the exception text to be propagated through external C code that does not support exceptions
 std::string exceptionText;
 /// when an exception occurs, this flag is set and the text is stored in exceptionText
@@ -48,8 +56,7 @@ bool exceptionFlag = false;
     if(exceptionFlag) throw std::runtime_error(exceptionText); \
 }
 
-/// callback function invoked by GSL in case of error; stores the error text in a global variable
-/// (not thread-safe! assumed that these events don't occur often)
+/// callback function invoked by GSL in case of error; stores the error text in a thread-private variable
 static void GSLerrorHandler(const char *reason, const char* file, int line, int gsl_errno)
 {
     if( // list error codes that are non-critical and don't need to be reported
@@ -87,7 +94,7 @@ std::terminate_handler terminate_handler = std::set_terminate(my_terminate_handl
 
 /// wrapper for a user-defined function to provide to GSL
 /// (any exception arising in the C++ code should not propagate back to the C code in GSL,
-/// and are instead stored in a global variable, which is unfortunately not thread-safe)
+/// and are instead stored in a thread-private variable)
 double functionWrapper(double x, void* param)
 {
     try{
diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 243ce96..395af03 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -908,6 +908,9 @@ inline NumT* xnew(size_t size) {
 // if any GSL function triggers an error, it will be stored in these variables (defined in math_core.cpp)
 extern bool exceptionFlag;
 extern std::string exceptionText;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionFlag, exceptionText)
+#endif
 
 #define CALL_FUNCTION_OR_THROW(x) { \
     exceptionFlag = false; \
diff --git a/src/math_specfunc.cpp b/src/math_specfunc.cpp
index f787da0..39aa965 100644
--- a/src/math_specfunc.cpp
+++ b/src/math_specfunc.cpp
@@ -20,6 +20,9 @@ namespace math {
 
 // if any GSL function triggers an error, it will be stored in this variable (defined in math_core.cpp)
 extern bool exceptionFlag;
+#ifdef _OPENMP
+#pragma omp threadprivate(exceptionFlag)
+#endif
 
 // call a GSL function and return NAN in case of an error;
 // the error message is recorded in math::exceptionText and may be later examined by the caller
-- 
2.43.0


From b81889e8241873bb189a7132df9e246287b53dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 14/41] fix: do not use the content of a Python string that
 cannot be converted to UTF-8

---
 src/interface_python.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 308d778..6ecb5d7 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -79,7 +79,16 @@
 // compatibility with Python 3
 #if PY_MAJOR_VERSION >= 3
 #define PyString_Check PyUnicode_Check
-#define PyString_AsString PyUnicode_AsUTF8
+// content of a string object, or an empty string if it cannot be represented in UTF-8
+static inline const char* PyString_AsString(PyObject* obj)
+{
+    const char* result = PyUnicode_AsUTF8(obj);
+    if(!result) {
+        PyErr_Clear();
+        return "";
+    }
+    return result;
+}
 #define PyString_FromString PyUnicode_FromString
 #define PyInt_Check PyLong_Check
 #define PyInt_AsLong PyLong_AsLong
-- 
2.43.0


From 7bf0d1938004d64e122ae356ec5d20775df8edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 15/41] fix: release the result of evaluating a string given
 instead of an array

---
 src/interface_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 6ecb5d7..bf71aa3 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -477,14 +477,16 @@ std::vector<double> toDoubleArray(PyObject* obj)
 {
     if(!obj)
         return std::vector<double>();
+    PyObject *expr = NULL;
     if(PyString_Check(obj)) {  // replace the string with the result of eval("...")
-        obj = PyRun_String(PyString_AsString(obj), Py_eval_input, PyEval_GetGlobals(), PyEval_GetLocals());
+        obj = expr = PyRun_String(PyString_AsString(obj), Py_eval_input, PyEval_GetGlobals(), PyEval_GetLocals());
         if(!obj) {  // exception occurred when parsing and executing the string
             PyErr_Print();
             return std::vector<double>();
         }
     }
     PyObject *arr = PyArray_FROM_OTF(obj, NPY_DOUBLE, 0/*no special requirements*/);
+    Py_XDECREF(expr);
     if(!arr || PyArray_NDIM((PyArrayObject*)arr) != 1) {
         Py_XDECREF(arr);
         if(PyErr_Occurred())
-- 
2.43.0


From 95797f84ec1d0707e1d09a3ac962a81f31beb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 16/41] fix: Target: release the array of PSF parameters

---
 src/interface_python.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index bf71aa3..b80f437 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6046,6 +6046,7 @@ int Target_init(TargetObject* self, PyObject* args, PyObject* namedArgs)
                         params.spatialPSF.push_back(galaxymodel::GaussianPSF(
                             pyArrayElem<double>(psf_arr, k, 0) * conv->lengthUnit,
                             pyArrayElem<double>(psf_arr, k, 1)));
+                    Py_DECREF(psf_arr);
                 }
             }  // otherwise no PSF is assigned at all
             params.velocityPSF = toDouble(nargs.pop("velpsf"), 0.) * conv->velocityUnit;
-- 
2.43.0


From 8a6e330d214bc61743102777c94a4af5daf21839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 17/41] fix: release the array of derivatives returned by a
 user-defined distribution function

---
 src/interface_python.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index b80f437..98cc422 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -4006,6 +4006,7 @@ public:
                 }
             } else
                 typeerror = true;
+            Py_XDECREF(result_der);
         }
         if(result == NULL)
             throw std::runtime_error("Call to user-defined distribution function failed");
-- 
2.43.0


From 364f57fa4f0df4d3b3e38d7c731dbd36b9427ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 18/41] fix: createCubicSpline: do not lose the Python object
 if the spline cannot be constructed

---
 src/interface_python.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 98cc422..e83628c 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6950,13 +6950,14 @@ static PyTypeObject SplineType = {
 /// Construct a Python cubic spline object from the provided x and y arrays
 PyObject* createCubicSpline(const std::vector<double>& x, const std::vector<double>& y)
 {
+    math::PtrInterpolator1d spl(new math::CubicSpline(x, y));  // may throw an exception
     // allocate a new Python Spline object
     SplineObject* spl_obj = PyObject_New(SplineObject, &SplineType);
     if(!spl_obj)
         return NULL;
     // initialize the smart pointer with zero before (re-)assigning a value to it
     new (&(spl_obj->spl)) math::PtrFunction;
-    spl_obj->spl.reset(new math::CubicSpline(x, y));
+    spl_obj->spl = spl;
     new (&(spl_obj->name)) std::string;  // initialize with an empty string
     spl_obj->name = "Cubic spline";
     FILTERMSG(utils::VL_DEBUG, "Agama", "Constructed a cubic spline of size "+
-- 
2.43.0


From 9dec02e621af05306453204587af7ec9de3bd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 19/41] fix: integrateNdim/sampleNdim: release the array of
 lower boundaries if the upper ones are missing

---
 src/interface_python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index e83628c..9663df4 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -8426,11 +8426,13 @@ bool parseLowerUpperBounds(PyObject* lower_obj, PyObject* upper_obj,
     }
     ndim = PyArray_DIM(lower_arr, 0);
     if(!upper_obj) {
+        Py_DECREF(lower_arr);
         PyErr_SetString(PyExc_TypeError, "Must provide both 'lower' and 'upper' arguments if both are arrays");
         return false;
     }
     PyArrayObject *upper_arr = (PyArrayObject*) PyArray_FROM_OTF(upper_obj, NPY_DOUBLE, 0);
     if(upper_arr == NULL || PyArray_NDIM(upper_arr) != 1 || PyArray_DIM(upper_arr, 0) != ndim) {
+        Py_DECREF(lower_arr);
         Py_XDECREF(upper_arr);
         PyErr_Format(PyExc_TypeError,
             "Argument 'upper' does not contain a valid array of length %i", ndim);
-- 
2.43.0


From 88c56111c0d99513b78356eb3d13c724b50d8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 20/41] fix: SelfConsistentModel.components: release the
 previous list, do not crash when deleting the attribute

---
 src/interface_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 9663df4..4888c39 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -5672,12 +5672,14 @@ PyObject* SelfConsistentModel_getComponents(SelfConsistentModelObject* self, voi
 
 int SelfConsistentModel_setComponents(SelfConsistentModelObject* self, PyObject* comp_obj, void*)
 {
-    if(!PyList_Check(comp_obj)) {
+    if(!comp_obj || !PyList_Check(comp_obj)) {  // the argument is NULL when deleting the attribute
         PyErr_SetString(PyExc_TypeError, "SelfConsistentModel.components must be a list");
         return -1;
     }
+    PyObject* old = self->components;
     self->components = comp_obj;
     Py_INCREF(self->components);
+    Py_XDECREF(old);
     return 0;
 }
 
-- 
2.43.0


From 4e4500fd34fc5101b9c5f1eb3a9234353730a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 21/41] fix: sample(): check that the output arrays have been
 allocated

---
 src/interface_python.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 4888c39..1a165f1 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -2083,6 +2083,11 @@ PyObject* Density_sample(PyObject* self, PyObject* args, PyObject* namedArgs)
         npy_intp dims[] = {numPoints, pot? 6 : 3};  // either position or position+velocity
         PyArrayObject* point_arr = (PyArrayObject*)PyArray_SimpleNew(2, dims, NPY_DOUBLE);
         PyArrayObject* mass_arr  = (PyArrayObject*)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+        if(!point_arr || !mass_arr) {
+            Py_XDECREF(point_arr);
+            Py_XDECREF(mass_arr);
+            return NULL;
+        }
         for(Py_ssize_t i=0; i<numPoints; i++) {
             if(pot)
                 unconvertPosVel(pointsvel.point(i), &pyArrayElem<double>(point_arr, i, 0));
@@ -4731,6 +4736,11 @@ PyObject* GalaxyModel_sample_posvel(GalaxyModelObject* self, PyObject* args)
         npy_intp dims[] = {numPoints, 6};
         PyObject* posvel_arr = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
         PyObject* mass_arr   = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+        if(!posvel_arr || !mass_arr) {
+            Py_XDECREF(posvel_arr);
+            Py_XDECREF(mass_arr);
+            return NULL;
+        }
         for(Py_ssize_t i=0; i<numPoints; i++) {
             unconvertPosVel(points.point(i), &pyArrayElem<double>(posvel_arr, i, 0));
             pyArrayElem<double>(mass_arr, i) = points.mass(i) / conv->massUnit;
-- 
2.43.0


From 56e163ba9fdbe7c109b6e17633c2e67f379b9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 22/41] fix: orbit: release the time array when timestart is
 invalid, reject a non-numeric timestart

---
 src/interface_python.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 1a165f1..dc0ebe8 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -7689,10 +7689,11 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     }
     PyArrayObject *timestart_arr = timestart_obj==NULL ? NULL :
         (PyArrayObject*) PyArray_FROM_OTF(timestart_obj, NPY_DOUBLE, 0);
-    if(timestart_arr != NULL && !( PyArray_NDIM(timestart_arr) == 0 ||
-         (PyArray_NDIM(timestart_arr) == 1 && (int)PyArray_DIM(timestart_arr, 0) == numOrbits) ) )
+    if(timestart_obj != NULL && ( timestart_arr == NULL || !( PyArray_NDIM(timestart_arr) == 0 ||
+         (PyArray_NDIM(timestart_arr) == 1 && (int)PyArray_DIM(timestart_arr, 0) == numOrbits) ) ) )
     {
-        Py_DECREF(timestart_arr);
+        Py_DECREF(time_arr);
+        Py_XDECREF(timestart_arr);
         PyErr_SetString(PyExc_ValueError,
             "Argument 'timestart' must either be a scalar or have the same length "
             "as the number of points in the initial conditions");
-- 
2.43.0


From 34a691ea426d0528091edf496f1a361067630a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 23/41] fix: orbit: release the tqdm module and class even if
 the progress bar could not be created

---
 src/interface_python.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index dc0ebe8..14b402b 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -8009,10 +8009,10 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
         if(tqdm_instance) {  // clean up the progress bar
             PyObject* result = PyObject_CallMethod(tqdm_instance, const_cast<char*>("close"), NULL);
             Py_XDECREF(result);
-            Py_DECREF(tqdm_instance);
-            Py_DECREF(tqdm_class);
-            Py_DECREF(tqdm_module);
         }
+        Py_XDECREF(tqdm_instance);
+        Py_XDECREF(tqdm_class);
+        Py_XDECREF(tqdm_module);
         PySys_WriteStderr("%li orbits complete (%.4g orbits/s)\n",
             (long int)numComplete, numComplete / timer.deltaSeconds());
     }
-- 
2.43.0


From ac67bddf31fb0f14606a67f10e1dbf3e05acbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 24/41] fix: setRandomSeed is called with two arguments

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 14b402b..fbc2719 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -8590,7 +8590,7 @@ static const char* docstringSetRandomSeed =
     "if one needs to produce different random realizations every time the script is run, "
     "setRandomSeed(0) takes the value from the current time.";
  
-PyObject* setRandomSeed(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
+PyObject* setRandomSeed(PyObject* /*self*/, PyObject* args)
 {
     int seed = -1;
     if(args != NULL && PyTuple_Check(args) && PyTuple_Size(args) == 1 &&
-- 
2.43.0


From 2dbf9e90f554a4c90539b4200aafeb697e65df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 25/41] fix: orbit: format of the number of completed orbits
 passed to the progress bar

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index fbc2719..2e0e91a 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -7992,7 +7992,7 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     if(tqdm_instance) {
                         npy_intp currNumComplete = numComplete;  // copy of the volatile value
                         result = PyObject_CallMethod(tqdm_instance, const_cast<char*>("update"),
-                            const_cast<char*>("i"), currNumComplete-prevNumComplete);
+                            const_cast<char*>("n"), (Py_ssize_t)(currNumComplete-prevNumComplete));
                         prevNumComplete = currNumComplete;
                     }
                     if(result)  // successfully shown a progress bar using tqdm
-- 
2.43.0


From 4ea0b62f2d90662788f23b7c85e77f2bf562ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 26/41] fix: orbit: store the argument maxNumSteps into a
 variable of the size expected by the argument parser

---
 src/interface_python.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 2e0e91a..fe4130f 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -7603,15 +7603,17 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     int haveLyap = 0;
     int verbose  = 1;
     int dtype = NPY_FLOAT;
+    Py_ssize_t maxNumSteps = params.maxNumSteps;
     PyObject *ic_obj = NULL, *time_obj = NULL, *timestart_obj = NULL, *pot_obj = NULL,
         *targets_obj = NULL, *trajsize_obj = NULL, *dtype_obj = NULL, *method_obj = NULL;
     static const char* keywords[] =
         {"ic", "time", "timestart", "potential", "targets", "trajsize", "der",
         "lyapunov", "Omega", "accuracy", "maxNumSteps", "dtype", "method", "verbose", NULL};
-    if(!PyArg_ParseTupleAndKeywords(args, namedArgs, "|OOOOOOiiddiOOi", const_cast<char**>(keywords),
+    if(!PyArg_ParseTupleAndKeywords(args, namedArgs, "|OOOOOOiiddnOOi", const_cast<char**>(keywords),
         &ic_obj, &time_obj, &timestart_obj, &pot_obj, &targets_obj, &trajsize_obj, &haveDer, &haveLyap,
-        &Omega, &params.accuracy, &params.maxNumSteps, &dtype_obj, &method_obj, &verbose))
+        &Omega, &params.accuracy, &maxNumSteps, &dtype_obj, &method_obj, &verbose))
         return NULL;
+    params.maxNumSteps = maxNumSteps;
 
     // check if deviation vectors are needed (if yes, the output contains yet another array)
     if(haveDer != 0 && haveDer != 1) {
-- 
2.43.0


From 7be13ed23d69b067f548016c564d757e58560f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 27/41] fix: arrays in non-native byte order returned by
 user-defined functions or passed to solveOpt are rejected instead of being
 read as garbage

---
 src/interface_python.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index fe4130f..b29bfbc 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1604,7 +1604,8 @@ public:
             PyErr_Print();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
-            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
+            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints &&
+            PyArray_ISNOTSWAPPED((PyArrayObject*)result))
         {
             int type = PyArray_TYPE((PyArrayObject*) result);
             for(size_t p=0; p<npoints; p++) {
@@ -2531,7 +2532,8 @@ public:
             if(result == NULL) {
                 PyErr_Print();
             } else if(PyArray_Check(result) && PyArray_NDIM((PyArrayObject*)result)==1 &&
-                PyArray_DIM((PyArrayObject*)result, 0)==dims[0])
+                PyArray_DIM((PyArrayObject*)result, 0)==dims[0] &&
+                PyArray_ISNOTSWAPPED((PyArrayObject*)result))
             {
                 for(int i=0; i<dims[0]; i++) {
                     switch(PyArray_TYPE((PyArrayObject*) result)) {
@@ -3965,7 +3967,8 @@ public:
             PyErr_Print();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
-            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
+            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints &&
+            PyArray_ISNOTSWAPPED((PyArrayObject*)result))
         {
             int type = PyArray_TYPE((PyArrayObject*)result);
             for(size_t p=0; p<npoints; p++) {
@@ -3990,7 +3993,8 @@ public:
             if(result_der && PyArray_Check(result_der) &&
                 PyArray_NDIM((PyArrayObject*)result_der) == 2 &&
                 PyArray_DIM ((PyArrayObject*)result_der, 0) == (npy_intp)npoints &&
-                PyArray_DIM ((PyArrayObject*)result_der, 1) == 3)
+                PyArray_DIM ((PyArrayObject*)result_der, 1) == 3 &&
+                PyArray_ISNOTSWAPPED((PyArrayObject*)result_der))
             {
                 int type = PyArray_TYPE((PyArrayObject*)result_der);
                 for(size_t p=0; p<npoints; p++) {
@@ -4472,7 +4476,8 @@ public:
             PyErr_Print();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
-            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
+            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints &&
+            PyArray_ISNOTSWAPPED((PyArrayObject*)result))
         {
             int type = PyArray_TYPE((PyArrayObject*) result);
             for(size_t p=0; p<npoints; p++) {
@@ -8266,7 +8271,8 @@ PyObject* solveOpt(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
             PyArray_NDIM(mat) != 2 ||  // a 2d array, to be specific,
             // for the first item we memorize the # of columns, and check that other items have the same
             !((s == 0 && (nCol = PyArray_DIM(mat, 1)) > 0) || (s > 0 && PyArray_DIM(mat, 1) == nCol)) ||
-            !(PyArray_TYPE(mat) == NPY_FLOAT || PyArray_TYPE(mat) == NPY_DOUBLE) )  // check data type
+            !(PyArray_TYPE(mat) == NPY_FLOAT || PyArray_TYPE(mat) == NPY_DOUBLE) ||  // check data type
+            !PyArray_ISNOTSWAPPED(mat) )  // and byte order
         {
             PyErr_SetString(PyExc_TypeError, "Argument 'matrix' must be a 2d array "
                 "or a tuple of such arrays with the same number of columns");
@@ -8375,7 +8381,8 @@ public:
             PyErr_Print();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
-            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
+            PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints &&
+            PyArray_ISNOTSWAPPED((PyArrayObject*)result))
         {
             int type = PyArray_TYPE((PyArrayObject*) result);
             for(size_t p=0; p<npoints; p++) {
-- 
2.43.0


From 06b13cb4808320d6f5bec36ec6e6cdd403b1c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 28/41] fix: DFIntegrandNdim: fill the array of DF values after
 an exception in the DF, not the memory between two unrelated arrays

---
 src/galaxymodel_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 57979bd..d558ba0 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -279,7 +279,7 @@ public:
         }
         catch(std::exception& e) {
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
-            std::fill(sf, df + npoints * dflen, 0);  // quietly replace output with zeroes
+            std::fill(df, df + npoints * dflen, 0);  // quietly replace output with zeroes
         }
 
         // 5. perform actual calculation of output values for each [valid and selected] input point
-- 
2.43.0


From 16a3449ce7a36139ac89cf1490c039401a0b2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 29/41] fix: DiskDensityRadialRichExp: the derivative at R=0 of
 an exponential profile lacked the factor 1/scaleRadius

---
 src/potential_disk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_disk.cpp b/src/potential_disk.cpp
index f2435ea..48a3999 100644
--- a/src/potential_disk.cpp
+++ b/src/potential_disk.cpp
@@ -76,7 +76,7 @@ private:
             Rinv = 1 / R,
             Rrel = R * invScaleRadius,
             Rrn  = math::pow(Rrel, invSersicIndex),
-            RrnR = R>0 ? Rrn * Rinv : invSersicIndex==1 ? 1. : invSersicIndex>1 ? 0. : INFINITY,
+            RrnR = R>0 ? Rrn * Rinv : invSersicIndex==1 ? invScaleRadius : invSersicIndex>1 ? 0. : INFINITY,
             Rcut = innerCutoffRadius ? innerCutoffRadius * Rinv : 0,
             cr   = modulationAmplitude ? modulationAmplitude * cos(Rrel) : 0,
             sr   = modulationAmplitude ? modulationAmplitude * sin(Rrel) : 0,
-- 
2.43.0


From 95a39a9628903f4efb8606b40dc254ddb49784cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 30/41] fix: writeSnapshot, writeDensity/writePotential: errors
 in writing the buffered tail of the file went unnoticed (reported success on
 a full disk)

---
 src/particles_io.cpp      | 5 +++--
 src/potential_factory.cpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index b1d4d4a..e38c700 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -88,6 +88,7 @@ void writeSnapshotText(
     strm << formatHeader<ParticleT>();
     for(size_t indx=0; indx<points.size(); indx++)
         strm << formatParticle<ParticleT>(points[indx], conv);
+    strm.flush();  // make sure that the buffered data are actually written before checking for errors
     if(!strm.good())
         throw std::runtime_error("writeSnapshotText: cannot write to file "+fileName);
 }
@@ -210,8 +211,8 @@ public:
     template<typename ParticleT>
     void writeParticles(const ParticleArray<ParticleT>& points, const units::ExternalUnits& conv);
 
-    /// check if any i/o errors occured
-    bool ok() const { return snap.good(); }
+    /// check if any i/o errors occured (including those when writing out the buffered data)
+    bool ok() { return snap.flush().good(); }
 };
 
 template<> char NemoSnapshotWriter::typeLetter<int>()   { return 'i'; }
diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 8fa40da..a3758cf 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1972,6 +1972,7 @@ bool writeDensity(const std::string& fileName, const BaseDensity& dens,
     int counter = 0;
     if(strm.good())
         writeAnyDensityOrPotential(strm, &dens, converter, counter);
+    strm.flush();  // make sure that the buffered data are actually written before checking for errors
     return strm.good();
 }
 
-- 
2.43.0


From f97a933e8f01f4982cc2eb32eb6523524cf00115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 31/41] fix: writeSphericalIsotropicModel: report an error if
 the file could not be written

---
 src/galaxymodel_spherical.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/galaxymodel_spherical.cpp b/src/galaxymodel_spherical.cpp
index bc7a1b5..d9580f6 100644
--- a/src/galaxymodel_spherical.cpp
+++ b/src/galaxymodel_spherical.cpp
@@ -826,6 +826,8 @@ void writeSphericalIsotropicModel(
 
     // print the header and the first line for r=0 (commented out)
     std::ofstream strm(fileName.c_str());
+    if(!strm)
+        throw std::runtime_error("writeSphericalIsotropicModel: cannot write to file "+fileName);
     if(!header.empty())
         strm << "#" << header << "\n";
     std::string auxh = aux.empty() ? "" : "\tAux           ";
@@ -892,6 +894,9 @@ void writeSphericalIsotropicModel(
     // last line provides the totals
     strm << "# Total mass: " << model.totalMass << ", total energy: " << model.totalEnergy <<
         ", kinetic energy: " << model.totalEkin << "\n";
+    strm.flush();
+    if(!strm.good())
+        throw std::runtime_error("writeSphericalIsotropicModel: cannot write to file "+fileName);
 }
 
 }  // namespace galaxymodel
-- 
2.43.0


From 063f69243e17ecb98d02acbe42929576979fd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 32/41] fix: readSnapshot, readTimeDependentArray: the last
 line without a trailing newline was silently dropped; a snapshot file shorter
 than 8 bytes was identified from uninitialised memory

---
 src/particles_io.cpp      | 4 ++--
 src/potential_factory.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index e38c700..224f83f 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -104,7 +104,7 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
     ParticleArrayAux points;
     std::string buffer;
     std::vector<std::string> fields;
-    while(std::getline(strm, buffer) && !strm.eof())
+    while(std::getline(strm, buffer))
     {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
@@ -436,7 +436,7 @@ ParticleArrayAux readSnapshot(
     std::ifstream strm(fileName.c_str(), std::ios::in);
     if(!strm)
         throw std::runtime_error("readSnapshot: cannot read from "+fileName);
-    char buffer[8];
+    char buffer[8] = {0};  // remains zero if the file is too short
     strm.read(buffer, 8);
     strm.close();
     if( (buffer[0]==-110 &&  // NEMO signature: open block of a particular type
diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index a3758cf..1183109 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1138,7 +1138,7 @@ static void readTimeDependentArray(
     if(!strm)
         throw std::runtime_error(errorTimeDependentArray(K, str));
     std::string buffer;
-    while(std::getline(strm, buffer) && !strm.eof()) {
+    while(std::getline(strm, buffer)) {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
         fields = utils::splitString(buffer, ";, \t");
-- 
2.43.0


From 102e351944ec6f6483971acf0bc6fbf96f674e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 33/41] fix: readGalaxyPotential: a truncated or malformed file
 led to reading past the end of an array, or to a potential with missing
 components

---
 src/potential_factory.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 1183109..c261dbb 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1923,11 +1923,12 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
     std::vector<utils::KeyValueMap> kvmap;
     std::string buffer;
     std::vector<std::string> fields;
-    bool ok = std::getline(strm, buffer).good();
+    bool ok = !std::getline(strm, buffer).fail();
     fields  = utils::splitString(buffer, "# \t");
-    int num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    int num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
         if(fields.size() >= 5)
             kvmap.push_back(utils::KeyValueMap(
@@ -1939,13 +1940,14 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 " modulationAmplitude="+fields[4]));
         else ok=false;
     }
-    ok &= std::getline(strm, buffer).good();
+    ok &= !std::getline(strm, buffer).fail();
     fields = utils::splitString(buffer, "# \t");
-    num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
-        if(fields.size() >= 5)
+        if(fields.size() >= 6)
             kvmap.push_back(utils::KeyValueMap(
                 std::string("type=") + SpheroidDensity::myName() +
                 " densityNorm="      + fields[0]+
@@ -1956,6 +1958,8 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 (utils::toDouble(fields[5])!=0 ? " outerCutoffRadius=" + fields[5] : "") ));
         else ok=false;
     }
+    if(!ok)
+        throw std::runtime_error("Incomplete or invalid data in file "+filename);
     return createPotential(kvmap, conv);
 }
 
-- 
2.43.0


From 2791559c4e817d4d9ab931423332b6d8139f0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 34/41] fix: createPotential: mention the failure to store the
 coefficients of an N-body potential, as already done for exceptions

---
 src/potential_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index c261dbb..9aae9b6 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1400,7 +1400,9 @@ PtrPotential createPotentialExpansion(const AllParam& param, const utils::KeyVal
         // store coefficients in a text file,
         // later may load this file instead for faster initialization
         try{
-            writePotential(param.file + ".ini", *pot, param.converter);
+            if(!writePotential(param.file + ".ini", *pot, param.converter))
+                utils::msg(utils::VL_MESSAGE, "createPotential",
+                    "Cannot write coefficients to " + param.file + ".ini");
         }
         catch(std::exception& ex) {  // not a critical error, but worth mentioning
             utils::msg(utils::VL_MESSAGE, "createPotential", ex.what());
-- 
2.43.0


From f4a30ef029baacaa77ea79969db906e80086a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:52 +0000
Subject: [PATCH 35/41] fix: integrateNdim: when the cubature routine failed
 for lack of memory, the result was returned without having been computed

---
 src/math_core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 20af113..b91d855 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -1350,13 +1350,15 @@ void integrateNdim(const IFunctionNdim& F, const double xlower[], const double x
         throw std::runtime_error(param.error);
 #else
     CubatureParams param(F);
-    hcubature_v(numValues, &integrandNdimWrapperCubature, &param,
+    int status = hcubature_v(numValues, &integrandNdimWrapperCubature, &param,
         numVars, xlower, xupper, maxNumEval, absToler, relToler,
         ERROR_INDIVIDUAL, result, error);
     if(numEval!=NULL)
         *numEval = param.numEval;
     if(!param.error.empty())
         throw std::runtime_error(param.error);
+    if(status != 0)   // the result was not computed
+        throw std::runtime_error("integrateNdim: not enough memory");
 #endif
 }
 
-- 
2.43.0


From 3b25cc65de39d4c2b4302c12ee7241f526408f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:13 +0000
Subject: [PATCH 36/41] fix: parseAzimuthalHarmonics: a line consisting only of
 whitespace led to reading past the end of an array

---
 src/potential_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 9aae9b6..cdd7567 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -648,8 +648,10 @@ bool parseAzimuthalHarmonics(std::vector<std::string>& lines, const AllParam& pa
             return false;   // not enough remaining lines
         // 0th line is the index m
         fields = utils::splitString(lines[0], " \t");
+        if(fields.size() != 2 || fields[1] != "#m")
+            return false;
         int m = utils::toInt(fields[0]);  // m (azimuthal harmonic index)
-        if(fields.size() != 2 || fields[1] != "#m" || m < -(int)params.mmax || m > (int)params.mmax)
+        if(m < -(int)params.mmax || m > (int)params.mmax)
             return false;
         // 1st line is the z-grid
         fields = utils::splitString(lines[1], " \t");  // z-values
-- 
2.43.0


From d56eca03ef4c0a3fd64aa2f358f9cd15ba1081b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:31 +0000
Subject: [PATCH 37/41] fix: readTimeDependentArray: an input string with
 unpaired brackets led to reading outside an empty string

---
 src/potential_factory.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index cdd7567..11f6fc1 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1039,7 +1039,14 @@ void writeAnyDensityOrPotential(std::ostream& strm, const BaseDensity* dens,
 //        ------------------------------------------------
 ///@{
 
-inline bool isPairOfBrackets(char c1, char c2) { return (c1=='[' && c2==']') || (c1=='(' && c2==')'); }
+/// check if the first and the last strings in a sequence begin and end with a matching pair of brackets
+inline bool isPairOfBrackets(const std::string& first, const std::string& last)
+{
+    if(first.empty() || last.empty())
+        return false;
+    char c1 = first[0], c2 = last[last.size()-1];
+    return (c1=='[' && c2==']') || (c1=='(' && c2==')');
+}
 
 inline std::string errorTimeDependentArray(int K, const std::string& str)
 {
@@ -1075,7 +1082,7 @@ static void readTimeDependentArray(
     if(fields.size() == K) {
         try {
             // input string might be enclosed in a single pair of round or square brackets - remove them
-            if(isPairOfBrackets(fields.front()[0], fields.back()[fields.back().size()-1])) {
+            if(isPairOfBrackets(fields.front(), fields.back())) {
                 fields.front() = fields.front().substr(1);
                 fields.back () = fields.back ().substr(0, fields.back().size()-1);
             }
@@ -1092,7 +1099,7 @@ static void readTimeDependentArray(
     // otherwise the string might be a serialized 2d array like [[1,2,3],[4,5,6]]
     // enclosed in round or square brackets
     if( (fields.size() % (K+1) == 0 || fields.size() % (2*K+1) == 0) &&
-        isPairOfBrackets(fields.front()[0], fields.back()[fields.back().size()-1]) )
+        isPairOfBrackets(fields.front(), fields.back()) )
     {
         // remove the outermost pair of brackets
         fields.front() = fields.front().substr(1);
@@ -1100,11 +1107,9 @@ static void readTimeDependentArray(
         // check that each group of (K+1) or (K*2+1) items is enclosed in brackets
         bool Kplus1 = true, K2plus1 = true;
         for(size_t l=0; l<fields.size() / (K+1); l++)
-            Kplus1  &= isPairOfBrackets(fields[l * (K+1)][0],
-                fields[(l+1) * (K+1) - 1][fields[(l+1) * (K+1) - 1].size() - 1]);
+            Kplus1  &= isPairOfBrackets(fields[l * (K+1)], fields[(l+1) * (K+1) - 1]);
         for(size_t l=0; l<fields.size() / (K*2+1); l++)
-            K2plus1 &= isPairOfBrackets(fields[l * (K*2+1)][0],
-                fields[(l+1) * (K*2+1) - 1][fields[(l+1) * (K*2+1) - 1].size() - 1]);
+            K2plus1 &= isPairOfBrackets(fields[l * (K*2+1)], fields[(l+1) * (K*2+1) - 1]);
         if(Kplus1) {
             for(size_t l=0; l<fields.size() / (K+1); l++) {
                 // strip the opening bracket in the first column (time)
@@ -1220,7 +1225,7 @@ void applyModifiers(
         // string should contain three Euler angles
         // (space and/or comma-separated, possibly surrounded by square or round brackets)
         std::vector<std::string> fields = utils::splitString(
-            isPairOfBrackets(param.orientation[0], param.orientation[param.orientation.size() - 1]) ?
+            isPairOfBrackets(param.orientation, param.orientation) ?
             param.orientation.substr(1, param.orientation.size()-2) :  // strip brackets
             param.orientation, ",; \t");
         if(fields.size() != 3)
-- 
2.43.0


From 66fbf39e4a028f7ed356d192633e4be5e1fc8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 38/41] fix: createMultipoleFromCoefs: the required number of
 lines overflowed when the given grid size was too large

---
 src/potential_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 11f6fc1..d2be5b4 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -706,7 +706,7 @@ PtrPotential createMultipoleFromCoefs(std::vector<std::string>& lines, const All
 {
     std::vector< std::vector<double> > coefsPhi, coefsdPhi;
     std::vector< double > gridr;
-    bool ok = lines.size() >= 2*params.gridSizeR+5 &&
+    bool ok = lines.size() >= 2*(size_t)params.gridSizeR+5 &&
         lines[0] == "#Phi" && lines[params.gridSizeR+3] == "#dPhi/dr" &&
         lines[1].size()>1 && lines[1][0] == '#' &&
         lines[params.gridSizeR+4].size()>1 && lines[params.gridSizeR+4][0] == '#';
-- 
2.43.0


From 711bbc832de03f1532feb87cbb1411ef7373b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:42 +0000
Subject: [PATCH 39/41] fix: FokkerPlanckSolver::potential(): the returned
 function referred to a potential that the solver may have replaced

---
 src/galaxymodel_fokkerplanck.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/galaxymodel_fokkerplanck.cpp b/src/galaxymodel_fokkerplanck.cpp
index ee8e715..bd12c29 100644
--- a/src/galaxymodel_fokkerplanck.cpp
+++ b/src/galaxymodel_fokkerplanck.cpp
@@ -70,6 +70,18 @@ inline std::vector<double> sumVectors(const std::vector< std::vector<double> > v
 }
 
 
+/// Radial dependence of a potential, which remains valid as long as this function exists,
+/// even after the potential has been replaced by another one (unlike `Sphericalized`)
+class RadialPotential: public math::IFunction {
+    potential::PtrPotential pot;  ///< shared ownership of the potential
+public:
+    RadialPotential(const potential::PtrPotential& p) : pot(p) {}
+    virtual void evalDeriv(const double r, double* val=NULL, double* der=NULL, double* der2=NULL) const {
+        potential::Sphericalized<potential::BasePotential>(*pot).evalDeriv(r, val, der, der2);
+    }
+    virtual unsigned int numDerivs() const { return 2; }
+};
+
 /// Scaling transformation for a function expressed in scaled coordinates and its derivative
 class ScaledFunction: public math::IFunction {
     math::PtrFunction fnc;  ///< function in scaled coordinates
@@ -890,7 +902,7 @@ std::vector<double> FokkerPlanckSolver::drainTime(unsigned int comp) const {
 math::PtrFunction   FokkerPlanckSolver::df(unsigned int comp) const {
     return impl->getInterpolatedFunction(data->gridf.at(comp)); }
 math::PtrFunction FokkerPlanckSolver::potential() const {
-    return math::PtrFunction(new potential::Sphericalized<potential::BasePotential>(*data->currPot)); }
+    return math::PtrFunction(new RadialPotential(data->currPot)); }
 potential::PtrPhaseVolume FokkerPlanckSolver::phaseVolume() const { return data->phasevol; }
 
 void FokkerPlanckSolver::setMbh(double Mbh)
-- 
2.43.0


From a77c35ab274319dcac9c239b7785bcbfd472ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:42 +0000
Subject: [PATCH 40/41] fix: integrateAdaptive: the workspace leaked if the
 evaluation of the function failed

---
 src/math_core.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index b91d855..0275960 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -1095,6 +1095,19 @@ double integrate(const IFunction& fnc, double x1, double x2, double reltoler,
     return result;
 }
 
+namespace {
+/// temporary storage for the adaptive integration routine,
+/// which is released even if the evaluation of the function ends with an exception
+class CquadWorkspace {
+    CquadWorkspace(const CquadWorkspace&);             ///< copying is disabled
+    CquadWorkspace& operator=(const CquadWorkspace&);  ///< assignment is disabled
+public:
+    gsl_integration_cquad_workspace* ws;
+    CquadWorkspace() : ws(gsl_integration_cquad_workspace_alloc(MAX_INTEGR_POINTS)) {}
+    ~CquadWorkspace() { gsl_integration_cquad_workspace_free(ws); }
+};
+}  // namespace
+
 double integrateAdaptive(const IFunction& fnc, double x1, double x2, double reltoler, 
     double* error, int* numEval)
 {
@@ -1113,10 +1126,10 @@ double integrateAdaptive(const IFunction& fnc, double x1, double x2, double relt
     F.params = const_cast<IFunction*>(&fnc);
     double result, dummy;
     size_t neval;
-    gsl_integration_cquad_workspace* ws=gsl_integration_cquad_workspace_alloc(MAX_INTEGR_POINTS);
+    CquadWorkspace workspace;
     CALL_FUNCTION_OR_THROW(
-    gsl_integration_cquad(&F, x1, x2, 0, reltoler, ws, &result, error!=NULL ? error : &dummy, &neval))
-    gsl_integration_cquad_workspace_free(ws);
+    gsl_integration_cquad(&F, x1, x2, 0, reltoler, workspace.ws,
+        &result, error!=NULL ? error : &dummy, &neval))
     if(numEval!=NULL)
         *numEval = neval;
     return flipSign ? -result : result;
-- 
2.43.0


From 8cae2cfc03c9e6a7fd998361dde652b310d7b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:42 +0000
Subject: [PATCH 41/41] fix: CholeskyDecomp: the decomposition leaked if the
 matrix was not positive definite

---
 src/math_linalg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 395af03..6fb4d14 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -794,9 +794,12 @@ CholeskyDecomp::CholeskyDecomp(const Matrix<double>& M) :
 {
     if(M.rows() != M.cols())
         throw std::runtime_error("CholeskyDecomp needs a square matrix");
-    impl = new CholeskyDecompImpl(mat(M));
-    if(static_cast<const CholeskyDecompImpl*>(impl)->info() != Eigen::Success)
+    CholeskyDecompImpl* decomp = new CholeskyDecompImpl(mat(M));
+    if(decomp->info() != Eigen::Success) {
+        delete decomp;  // the destructor is not called if the constructor fails
         throw std::domain_error("CholeskyDecomp failed");
+    }
+    impl = decomp;
 }
 
 CholeskyDecomp::~CholeskyDecomp() { delete static_cast<const CholeskyDecompImpl*>(impl); }
-- 
2.43.0

