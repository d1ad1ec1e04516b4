From fcf5d5087d5de6fe15c12bf63bd89b30cfcfaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 01/26] fix: Shift and Mirror move every stored trajectory
 point, including the last

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..49f4b97 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From 00c765c39aa473d94bc844cef2a4b2fa15a93f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 02/26] fix: Beam watch point records the charge in C (was
 scaled by the elementary charge twice)

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From 18cbd5b0798a27fc238008b9374f790bfab2754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 03/26] fix: FEL_1D default polarisation sets e_y instead of
 overwriting e_x

---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..5671abf 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From 5b5eba4f7f0d1442983f47deab641c6f7aad7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 04/26] fix: extrapolation before the trajectory start is
 relative to its first time stamp

---
 src/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 49f4b97..78b860a 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -649,7 +649,7 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
             // t is always negative
-            double t0 = obs_time;
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From c6dcfb9f86eff9fd97f9a7789dad12e3b5cf4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 05/26] fix: MeshedScreen::get_dt returns the time step without
 truncating it to an integer

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..4c50044 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 0c02f0c1214948c0d474ee587ba55f2083dd5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 06/26] fix: SourceScreen orthogonalises dY against the unit
 vector along dX

---
 src/source_screen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..3869938 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -119,7 +119,7 @@ SourceScreen::SourceScreen(
     dX *= dx;
     dy = dY.norm();
     dY -= normal*dot(dY,normal);
-    dY -= dX*dot(dY,dX);
+    dY -= ex*dot(dY,ex);
     dY.normalize();
     ey = dY;
     dY *= dy;
-- 
2.43.0


From d20446dc7efffc0de1375f35ebed11aece1f254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 07/26] fix: arrays allocated with new[] are released with
 delete[]

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..36ec8e5 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -61,7 +61,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -87,7 +87,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -113,7 +113,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p3 = *bt++;
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -173,7 +173,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -206,7 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -494,7 +494,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -552,7 +552,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -610,7 +610,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -669,7 +669,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -724,7 +724,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..609bb5b 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -483,7 +483,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -548,7 +548,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..df11b9e 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    if (particlesStored>0) delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 3869938..009cadd 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -192,7 +192,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -410,7 +410,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -473,7 +473,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0


From d4169fad1f415b7d9d6c587005adaa0c41f8eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 08/26] fix: SourceScreen keeps its fields in the coordinate
 system of the file

---
 src/source_screen.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 009cadd..d250778 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -181,11 +181,10 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
+    	    // the field data are expressed in the coordinate system of the file
     	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // (cancel the component along the screen normal)
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From 645278eafb1f7ac551086deb4b604766d1a17c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 09/26] fix: MeshedScreen::init sets up valid cell coordinate
 systems for normals along -y

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 36ec8e5..815533d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 03403d790531eb1a55ed78e9d4b5cccb11d9582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 10/26] fix: HDF5 attributes are closed after writing (files
 stayed open until exit)

---
 src/fel1d.cpp         |  4 ++++
 src/logger.cpp        | 10 ++++++++++
 src/screen.cpp        | 24 ++++++++++++++++++++++++
 src/snapshot.cpp      |  8 ++++++++
 src/source_screen.cpp | 20 ++++++++++++++++++++
 5 files changed, 66 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 5671abf..d8a1530 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -413,6 +413,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_INT, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
@@ -424,6 +426,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_DOUBLE, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
diff --git a/src/logger.cpp b/src/logger.cpp
index fd43482..71e6e89 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -299,6 +299,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -308,6 +310,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -419,6 +423,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -428,6 +434,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -437,6 +445,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOD)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOD);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOD)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOD)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOD)"));
     
diff --git a/src/screen.cpp b/src/screen.cpp
index 609bb5b..6db9f3f 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -350,6 +350,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
     // attach scalar attribute Nx
@@ -359,6 +361,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny) - old"));
     // Close and release resources.
@@ -420,6 +424,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -429,6 +435,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -438,6 +446,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -447,6 +457,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -456,6 +468,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -465,6 +479,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -474,6 +490,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -523,6 +541,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -531,6 +551,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -539,6 +561,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // Close and release resources.
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index df11b9e..7be63e2 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -275,6 +275,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr1<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr1)"));
     status = H5Awrite(attr1, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr1)"));
+    status = H5Aclose (attr1);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr1)"));
     status = H5Sclose (atts1);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts1)"));
     hid_t atts2  = H5Screate(H5S_SCALAR);
@@ -283,6 +285,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr2<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr2)"));
     status = H5Awrite(attr2, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr2)"));
+    status = H5Aclose (attr2);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr2)"));
     status = H5Sclose (atts2);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts2)"));
     // Close and release resources.
@@ -329,6 +333,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t_obs);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(t0)"));
     // Close and release resources.
@@ -376,6 +382,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
         if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(N_particles)"));
         status = H5Awrite(attr, H5T_NATIVE_INT, &particlesStored);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(N_particles)"));
+        status = H5Aclose (attr);
+        if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(N_particles)"));
         status = H5Sclose (atts);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(N_particles)"));
         // Close and release resources.
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index d250778..6833581 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -345,6 +345,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -354,6 +356,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -363,6 +367,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -373,6 +379,8 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -382,6 +390,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -391,6 +401,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -400,6 +412,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -447,6 +461,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -455,6 +471,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -463,6 +481,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From 3978d8c03a36861829364febad2803c6e7c5e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 11/26] fix: SourceScreen checks the field dataset before using
 it and releases its dataspace

---
 src/source_screen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 6833581..3761bfd 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -145,6 +145,7 @@ SourceScreen::SourceScreen(
     ElMagField* field_buf = new ElMagField[getBufferSize()];
     if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
+    if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
     
     // sanity check the field sizes
     hid_t dspace = H5Dget_space(dataset);
@@ -156,9 +157,10 @@ SourceScreen::SourceScreen(
     if (dims[1] != Ny) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[1] != Ny"));
     if (dims[2] != NOTS) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[2] != NOTS"));
     if (dims[3] != 6) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[3] != 6"));
+    status = H5Sclose(dspace);
+    if (status<0) throw(IOexception("SourceScreen - error closing dataspace ElMagField"));
     
     // buffer the data
-    if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
     status = H5Dread (dataset,
         H5T_NATIVE_DOUBLE, 		// mem type id
         H5S_ALL, 			    // mem space id
-- 
2.43.0


From 38c71f3eec5ded7ecba56e6fa4f9d6d60985d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 12/26] fix: Bunch from SDDS stays empty when the data page
 cannot be read completely

---
 src/bunch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..987d6a0 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -215,8 +215,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     int page = SDDS_ReadPage(&SDDS_dataset);
     if (page != 1)
     {
-        std::cout << "SDDS ReadPage(1) returns " << page << std::endl;
+        std::cout << "SDDS ReadPage(1) returns " << page;
+        std::cout << " : creating empty bunch." << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        return;
     }
     char parName[] = "Particles";
     int32_t *nopData = SDDS_GetParameterAsLong(&SDDS_dataset, parName, NULL);
-- 
2.43.0


From ed7ea26230b3743f908da64ea77b9478835b6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 13/26] fix: Bunch closes the SDDS file it has read and
 releases the data buffers

---
 src/bunch.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 987d6a0..313e5ea 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -26,6 +26,7 @@
 #include <random>
 #include <iostream>
 #include <iomanip>
+#include <cstdlib>
 #include <cstring>
 #include "SDDS.h"
 #include "hdf5.h"
@@ -348,6 +349,16 @@ Bunch::Bunch(const char *filename, Vector dir)
         P.push_back(p);
     }
     
+    // release the data buffers and close the file
+    free(nopData);
+    free(chData);
+    free(xData);
+    free(xpData);
+    free(yData);
+    free(ypData);
+    free(pData);
+    free(tData);
+    SDDS_Terminate(&SDDS_dataset);
 }
 
 Bunch::~Bunch()
-- 
2.43.0


From f07d6fee84816d8df35d5c1c58bf766225386eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 14/26] fix: FEL_1D writes the propagation direction to the
 attributes prop.* (was the grid vector)

---
 src/fel1d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index d8a1530..63620d8 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -443,9 +443,9 @@ void FEL_1D::write_output()
         set_double_attribute("origin.x", &origin.x);
         set_double_attribute("origin.y", &origin.y);
         set_double_attribute("origin.z", &origin.z);
-        set_double_attribute("prop.x", &dz.x);
-        set_double_attribute("prop.y", &dz.y);
-        set_double_attribute("prop.z", &dz.z);
+        set_double_attribute("prop.x", &prop.x);
+        set_double_attribute("prop.y", &prop.y);
+        set_double_attribute("prop.z", &prop.z);
         
         // Close and release resources.
         status = H5Pclose (pdcpl);
-- 
2.43.0


From 9c445f7974e3f8151dff6158185cd3ecffc08faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 15/26] fix: variable definitions inside <correlations> are
 accepted

All <calc> children of <correlations> are evaluated before its entries are
handled, but the loop over the entries then refused them as unknown type of
correlation.
---
 src/parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..1c4a8c8 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -448,7 +448,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
-                        if (ctype == "linear")
+                        if (ctype == "calc")
+                        {
+                            // already evaluated by parseCalcChildren()
+                            continue;
+                        }
+                        else if (ctype == "linear")
                         {
                             int ind = 0;
                             int dep = 0;
@@ -545,7 +550,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
-                        if (ctype == "linear")
+                        if (ctype == "calc")
+                        {
+                            // already evaluated by parseCalcChildren()
+                            continue;
+                        }
+                        else if (ctype == "linear")
                         {
                             int ind = 0;
                             int dep = 0;
-- 
2.43.0


From 7d635a80a2829521d4c33773a3e04ab7fb77f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 16/26] fix: variable definitions inside undulators and dipoles
 are evaluated once

parseLattice() evaluates the <calc> children of an element before the element
is created. The constructors of undulators and dipoles evaluated them a second
time, so a definition like eq="x+1" was applied twice.
---
 src/dipole.cpp    | 4 ++--
 src/undulator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..2f02289 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -47,7 +47,7 @@ HardEdgeDipole::HardEdgeDipole(Vector B, Vector p1, Vector n1, Vector p2, Vector
 HardEdgeDipole::HardEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // the calculator entries of the node have already been evaluated by the parser
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::HardEdgeDipole - <B> not found."));
@@ -147,7 +147,7 @@ SoftEdgeDipole::SoftEdgeDipole(Vector B, Vector p1, Vector n1, double t1, Vector
 SoftEdgeDipole::SoftEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // the calculator entries of the node have already been evaluated by the parser
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::SoftEdgeDipole - <B> not found."));
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..8479e60 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -39,7 +39,7 @@ PlanarUndulator::PlanarUndulator(Vector pos) :
 PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // the calculator entries of the node have already been evaluated by the parser
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::PlanarUndulator - undulator <position> not found."));
@@ -140,7 +140,7 @@ TransverseGradientUndulator::TransverseGradientUndulator(Vector pos) :
 TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // the calculator entries of the node have already been evaluated by the parser
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::TransverseGradientUndulator - undulator <position> not found."));
-- 
2.43.0


From 3c166d92e660affc577274daaacabb56578b8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 17/26] fix: calculator knows the documented constant _mu0

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 1c4a8c8..102f149 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -48,6 +48,7 @@ InputParser::InputParser(const pugi::xml_node node)
     calc->DefineConst("_h", (double)PlanckH);
     calc->DefineConst("_mec2", (double)mecsquared);
     calc->DefineConst("_eps0", (double)EpsNull);
+    calc->DefineConst("_mu0", (double)MuNull);
     calc->DefineConst("_pi", (double)Pi);
     // evaluate all <calc> nodes present as children of root
     parseCalcChildren(root);
-- 
2.43.0


From 6151ae85d55d5dc811d8d2f27a3a3cab3459784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 18/26] fix: FEL interaction always gets the time step used for
 tracking

The delta_t attribute was evaluated again for every <fel1d>, giving another
value when variables it uses are redefined inside the <tracking> section.
---
 src/parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 102f149..81158d7 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -649,7 +649,8 @@ void InputParser::parseTracking(
         pugi::xml_attribute timestep = track.attribute("delta_t");
         if (!timestep)
             throw(IOexception("InputParser::parseTracking - <tracking> attribute delta_t not found."));
-        beam->setTimeStep(parseDouble(timestep));
+        double dt = parseDouble(timestep);
+        beam->setTimeStep(dt);
         pugi::xml_attribute nst = track.attribute("n");
         if (!nst)
             throw(IOexception("InputParser::parseTracking - <tracking> attribute n not found."));
@@ -665,8 +666,8 @@ void InputParser::parseTracking(
             {
                 parseCalcChildren(child);
                 // the interaction object parses its own input, we provide a reference to the parser
-                // the timestep attribute has already been evaluated - thats necessary
-                FEL_1D* fel_interaction = new FEL_1D(parseDouble(timestep), child, this);
+                // it has to use the same time step as the tracking
+                FEL_1D* fel_interaction = new FEL_1D(dt, child, this);
                 interactions->push_back(fel_interaction);
             }
             else if (type == "watch")
-- 
2.43.0


From 288536ee8569f3ea8cf86291528022f1178121f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 19/26] fix: lattice fields are observed once, not once per
 node

---
 src/teufel_hybrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..11ff8d8 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,9 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // every node knows the complete lattice, only one may contribute
+            // as the fields of all nodes are summed up below
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From 3f3a91f78ed01c642871926a6e6c52b81eb9b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 20/26] fix: propagate and reflection handle cells with more
 than 24 neighbours

---
 src/propagate.cpp  | 6 +++---
 src/reflection.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..efc0264 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -152,8 +152,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +187,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..3709805 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -234,8 +234,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +269,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From 96bdcd432d6e2ea540b28462775d273b2060499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 21/26] fix: propagate requires the name of the output file

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index efc0264..a1d82bc 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From 471ffb5d510d09b63aef27426c4a1139c1c91d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 22/26] fix: copying a particle also copies the fields at its
 current position (bufferProbe of a copy gave zero fields)

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 78b860a..67572cc 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -90,6 +90,8 @@ ChargedParticle::ChargedParticle(const ChargedParticle *origin)
     X_current = origin->X_current;
     P_current = origin->P_current;
     A_current = origin->A_current;
+    E_current = origin->E_current;
+    B_current = origin->B_current;
     if (NP > 0)
     {
         Time = origin->Time;
-- 
2.43.0


From daadae9c785ae60bb91cf27072fbf97ed7dee146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 23/26] fix: ChargedParticle::Mirror() also reflects the
 momentum from which tracking continues

---
 src/particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 67572cc..ee28ab9 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -368,6 +368,9 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
+    // the momentum used for the next tracking step is reversed as well
+    Vector dv = normal*dot(VY_p_i1,normal);
+    VY_p_i1 -= dv*2.0;
     for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
-- 
2.43.0


From 65815dc935c0aebae8c5bd1ca81aac23a92e1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 24/26] fix: a particle received without trajectory points has
 a defined state (access to the last element of empty arrays, Npre never set)

---
 src/particle.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ee28ab9..6acfef2 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -143,6 +143,7 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
@@ -162,10 +163,15 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
         double az = *b++;
         A.push_back(Vector(ax,ay,az));
     }
-    t_current = Time.back();
-    X_current = X.back();
-    P_current = P.back();
-    A_current = A.back();
+    // without trajectory points there is no current position
+    t_current = 0.0;
+    if (NP > 0)
+    {
+        t_current = Time.back();
+        X_current = X.back();
+        P_current = P.back();
+        A_current = A.back();
+    }
 }
 
 ChargedParticle::~ChargedParticle()
-- 
2.43.0


From 2b5bb9407b6dc4bd3135e51a043800a558dfcb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 25/26] fix: FEL interaction without <log> never set the output
 step it divides by

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 63620d8..f23ef6e 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -109,6 +109,7 @@ FEL_1D::FEL_1D(
         if (st) step_Output = st.as_int();
         createOutput = true;
     } else {
+        step_Output = 1;
         createOutput = false;
     }
     // read the optical mode definition
-- 
2.43.0


From af37622b946d0048221b7bf86c9a08541f8cd815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 26/26] fix: radiated fields used d(beta*gamma)/dt/gamma as
 dbeta/dt, wrong whenever the particle changes its energy

---
 src/particle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 6acfef2..ed6906f 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -588,7 +588,8 @@ ElMagField ChargedParticle::RetardedField(int index,
     double gamma2 = betagamma2 + 1.0;
     double gamma = sqrt(gamma2);
     SourceBeta /= gamma;
-    SourceBetaPrime /= gamma;
+    // the stored acceleration is d/dt(beta*gamma) - the change of gamma has to be accounted for
+    SourceBetaPrime = (SourceBetaPrime - SourceBeta*dot(SourceBeta,SourceBetaPrime)) / gamma;
     // now compute the distance and direction to the observer
     Vector RVec = ObservationPoint - SourceX;
     double R = RVec.norm();
@@ -757,7 +758,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             SourceBetaPrime = A[i1]*(1.0-frac) + A[i2]*frac;
-            SourceBetaPrime/=gamma;
+            // the stored acceleration is d/dt(beta*gamma) - the change of gamma has to be accounted for
+            SourceBetaPrime = (SourceBetaPrime - SourceBeta*dot(SourceBeta,SourceBetaPrime)) / gamma;
         }
         // printf("ChargedParticle::RetardedField - SourceX = (%9.6g, %9.6g, %9.6g)\n",SourceX.x,SourceX.y,SourceX.z);
         // compute the distance and direction to the observer
-- 
2.43.0

