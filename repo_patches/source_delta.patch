From 78db6765db16176800cd56c522cefd5428767d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:07 +0000
Subject: [PATCH 01/36] Optional cascade monitor callback (guarded by
 CGMF_MONITOR)

---
 libcgmf/include/cgmf_monitor.h | 38 ++++++++++++++++++++++++++++++++++
 libcgmf/src/specmc.cpp         | 20 ++++++++++++++++++
 2 files changed, 58 insertions(+)
 create mode 100644 libcgmf/include/cgmf_monitor.h

diff --git a/libcgmf/include/cgmf_monitor.h b/libcgmf/include/cgmf_monitor.h
new file mode 100644
index 0000000..65d4355
--- /dev/null
+++ b/libcgmf/include/cgmf_monitor.h
@@ -0,0 +1,38 @@
+/*------------------------------------------------------------------------------
+  CGMF-1.1
+  Copyright TRIAD/LANL/DOE - see file LICENSE
+  For any questions about CGMF, please contact us at cgmf-help@lanl.gov
+-------------------------------------------------------------------------------*/
+
+/*! @file cgmf_monitor.h
+
+  \brief Optional run-time monitor of the Monte Carlo cascade.
+
+  Compiled in only with -DCGMF_MONITOR. A client registers a callback that is
+  called once per simulated transition; nothing in the simulation depends on it.
+
+*/
+
+#ifndef __CGMF_MONITOR_H__
+#define __CGMF_MONITOR_H__
+
+#ifdef CGMF_MONITOR
+struct cgmf_monitor_step {
+  int    Z0, A0;       // decaying nucleus
+  int    J0, P0;       // spin index (integer part of the spin) and parity before
+  double E0;           // excitation energy before
+  int    discrete0;    // 1 if the state before is a discrete level
+  int    K0;           // index of the level (discrete) or of the energy bin
+  int    A1;           // mass of the residual nucleus
+  int    J1, P1;       // spin index and parity after
+  double E1;           // excitation energy after
+  int    discrete1;    // 1 if the state after is a discrete level
+  int    ic;           // 1 if internal conversion replaced the photon
+  double energy;       // centre-of-mass energy of the emission
+  int    K1;           // index of the level or energy bin after
+};
+
+void cgmf_monitor_set (void (*) (const cgmf_monitor_step *));
+#endif
+
+#endif //__CGMF_MONITOR_H__
diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..e3415ce 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -69,6 +69,12 @@ void set_time_coincidence_window(double timew){
 
 double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
 
+#ifdef CGMF_MONITOR
+#include "cgmf_monitor.h"
+static void (*monitor_callback) (const cgmf_monitor_step *) = NULL;
+void cgmf_monitor_set (void (*f) (const cgmf_monitor_step *)) { monitor_callback = f; }
+#endif
+
 /*!
  *
  *  \brief allocate tin, pin
@@ -678,6 +684,20 @@ void mcStoreHistory(bool ic, MCPoint m0, MCPoint m1, double **spc)
     hs[np++].set(neutron, ecms, m0);
   }
   if(np == MAX_CASCADE) cgmTerminateCode("too many particle decays");
+
+#ifdef CGMF_MONITOR
+  if(monitor_callback != NULL){
+    cgmf_monitor_step st;
+    st.Z0 = ncl[m0.getN()].za.getZ();  st.A0 = ncl[m0.getN()].za.getA();
+    st.J0 = m0.getJ();  st.P0 = m0.getP();  st.E0 = m0.getE();
+    st.discrete0 = m0.ifDiscrete() ? 1 : 0;  st.K0 = m0.getK();
+    st.A1 = ncl[m1.getN()].za.getA();
+    st.J1 = m1.getJ();  st.P1 = m1.getP();  st.E1 = m1.getE();
+    st.discrete1 = m1.ifDiscrete() ? 1 : 0;  st.K1 = m1.getK();
+    st.ic = ic ? 1 : 0;  st.energy = ecms;
+    monitor_callback(&st);
+  }
+#endif
   
 #ifdef HAVE_PRIVATE_ENERGY_GRID
   k = specFindCustomGrid(NUMBER_OF_PRIVATE_GRID,ecms,ncl[0].binwidth);
-- 
2.43.0


From 6512a8d1c404fc4635e02b209c106ebcc876b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:35 +0000
Subject: [PATCH 02/36] fix: honour the time-coincidence window of every event

The window passed to the event was stored only when the very first event of
the process was generated (and only if positive), so every later event used
the window of the first one.
---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..b051122 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew); // every event has its own window; <=0 means no window
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From 446e7bf578ed6f2ef988bba509ec08e61d8792c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:36 +0000
Subject: [PATCH 03/36] fix: report the direction cosines of the fission
 fragments

getLight/HeavyFragmentDircos[uvw] (and the C wrappers) always returned 0,0,0:
the direction was never set.
---
 libcgmf/src/cgmfEvents.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index b051122..074b871 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -363,6 +363,20 @@ cgmfEvent::cgmfEvent () {
   return;
 };
 
+/*!
+\brief Direction cosines of a primary fragment in the laboratory, from its momentum before neutron emission.
+*/
+static void setFragmentDirection (fissionEventType *fe) {
+  double p = 0.0;
+  for (int i=0; i<3; i++) p += fe->preFragmentMomentum[i]*fe->preFragmentMomentum[i];
+  p = sqrt(p);
+  if (p > 0.0) {
+    fe->fragmentDircosu = fe->preFragmentMomentum[0]/p;
+    fe->fragmentDircosv = fe->preFragmentMomentum[1]/p;
+    fe->fragmentDircosw = fe->preFragmentMomentum[2]/p;
+  }
+}
+
 /************************************************************************************
              cgmfEvent: derived class constructor, destructor & methods 
  ************************************************************************************/
@@ -416,6 +430,7 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventLF.KE = lf[0].KE;
   for (int i=0; i<3; i++) eventLF.preFragmentMomentum[i] = lf[0].preMomentum[i];
 
+  setFragmentDirection (&eventLF);
   specMCMainFission (&eventLF);
 
   //-- heavy fragment calc. --------------------------------------------------
@@ -428,6 +443,7 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventHF.KE = hf[0].KE;
   for (int i=0; i<3; i++) eventHF.preFragmentMomentum[i] = hf[0].preMomentum[i];
 
+  setFragmentDirection (&eventHF);
   specMCMainFission (&eventHF);
 
   neutronNu = eventLF.nu + eventHF.nu;
-- 
2.43.0


From b91bff26784e454ed846d762cc3f4d76d22e3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:02 +0000
Subject: [PATCH 04/36] fix: keep discrete-level look-ups inside the level
 table

Looking up a nucleus that is not in the level file read one element past the
end of the table (and could then be taken for a match), the look-up of the
residues read before its start when the nucleus is the first entry, and a
level file with more nuclei than the table holds was written past its end.
---
 libcgmf/src/ripl2levels.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..1d9a966 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -117,6 +117,11 @@ void readDiscreteLevelData () {
 			cgmTerminateCode(os.str());
 		}
 
+		if(c >= MAX_NUCLEI){
+			fp.close();
+			cgmTerminateCode("too many nuclei in the CGMF discrete level database");
+		}
+
 		zaidIndex[c] = zaid;
 		numberLevels[c] = nol;
 		allLevels[c] = new Level [nol];
@@ -224,7 +229,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
@@ -276,10 +281,12 @@ void getRiplDiscreteLevels (Nucleus *ncl, int nemit) {
 
 	for (int k=0; k<=nemit; k++) {
 		found = false;
-		if (zaidIndex[id-k]==zaid-k) found = true;
-		ncl[k].ndisc = numberLevels[id-k];
-		for (int i=0; i<ncl[k].ndisc; i++) {
-			ncl[k].lev[i] = allLevels[id-k][i];
+		if (id-k>=0 && zaidIndex[id-k]==zaid-k) found = true;
+		if (found) {
+			ncl[k].ndisc = numberLevels[id-k];
+			for (int i=0; i<ncl[k].ndisc; i++) {
+				ncl[k].lev[i] = allLevels[id-k][i];
+			}
 		}
 		fixLevels (&ncl[k], found, ml);
 	}
-- 
2.43.0


From 7ea9cef684893372f905e11ccf11f0b1265d5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:03 +0000
Subject: [PATCH 05/36] fix: bound particle bookkeeping before writing, not
 after

Photon time stamps are indexed by transition number (up to MAX_CASCADE) but
the array held MAX_NUMBER_GAMMAS entries, and the multiplicity limits were
tested only after the fixed-size particle arrays had already been overrun.
---
 libcgmf/src/specmc.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index e3415ce..c56ff01 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ]; // indexed by transition, photons and neutrons alike
 
 #ifdef CGMF_MONITOR
 #include "cgmf_monitor.h"
@@ -873,17 +873,17 @@ void recordEmittedParticles (void) {
 	int index;
 	MCPoint mc_curr, mc_next;
 	
-  double neutronEnergies [MAX_NUMBER_PARTICLES];
-  double gammaEnergies [MAX_NUMBER_PARTICLES];
-	int gammaTypes [MAX_NUMBER_PARTICLES];
-	double icEnergies [MAX_NUMBER_PARTICLES];
+  double neutronEnergies [MAX_CASCADE];
+  double gammaEnergies [MAX_CASCADE];
+	int gammaTypes [MAX_CASCADE];
+	double icEnergies [MAX_CASCADE];
 	
   int neutronMultiplicity=0;
   int gammaMultiplicity=0;
 	int icMultiplicity=0;
 	
-	std::fill_n (neutronEnergies, MAX_NUMBER_PARTICLES, 0.0);
-	std::fill_n (gammaEnergies, MAX_NUMBER_PARTICLES, 0.0);
+	std::fill_n (neutronEnergies, MAX_CASCADE, 0.0);
+	std::fill_n (gammaEnergies, MAX_CASCADE, 0.0);
 		
   MCPoint mp0 = hs[0].getMCPoint();
   int A = ncl[mp0.getN()].za.getA();
@@ -929,7 +929,7 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
 	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
+	double icEnergies		      [MAX_CASCADE];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
@@ -953,8 +953,10 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
     mc_curr = hs[i].getMCPoint();
     mc_next = hs[i+1].getMCPoint();
     if (index==1) { // neutrons
+      if (neutronMultiplicity==MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
       cmNeutronEnergies[neutronMultiplicity++] = hs[i].getEnergy();
     } else if (index==0) { // gammas (no IC)
+      if (gammaMultiplicity==MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
       if (mc_curr.ifDiscrete()) {
 	timeStamp[gammaMultiplicity] = gammaTimeStamp[i]; // discrete-to-discrete
       }
@@ -967,9 +969,6 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	fe->nu  = neutronMultiplicity;
 	fe->nug = gammaMultiplicity;
 	
-	if (neutronMultiplicity>MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
-	if (gammaMultiplicity>MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
-	
 	double Vn[MAX_NUMBER_NEUTRONS][3];
 	double Vg[MAX_NUMBER_GAMMAS][3];
 	double cmVn[MAX_NUMBER_NEUTRONS][3];
-- 
2.43.0


From 85aef28d0c08c0cff2ec5a7ddc6c09871ad9474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:43 +0000
Subject: [PATCH 06/36] fix: do not leak or double-free the work arrays shared
 by events

The work arrays are global. With two events alive at once the arrays of the
first were leaked when the second was created, and destroying both events
freed the same arrays twice.
---
 libcgmf/src/terminate.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libcgmf/src/terminate.cpp b/libcgmf/src/terminate.cpp
index 1290704..454d754 100644
--- a/libcgmf/src/terminate.cpp
+++ b/libcgmf/src/terminate.cpp
@@ -60,7 +60,11 @@ int cgmTerminateCode(std::string msg, double x)
 void cgmDeleteAllocated()
 {
 	delete [] ncl;
-	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) delete [] spc[i];
+	ncl = NULL;
+	for(int i=0 ; i<SPECTRA_OUTPUT ; i++){
+		delete [] spc[i];
+		spc[i] = NULL;
+	}
 }
 
 
@@ -69,6 +73,9 @@ void cgmDeleteAllocated()
 /**********************************************************/
 void cgmAllocateMemory()
 {
+	/*** storage is shared by all events: release what an event still alive has left */
+	cgmDeleteAllocated();
+
 	try{
 		/*** compound nucleus */
 		ncl = new Nucleus [MAX_COMPOUND];
-- 
2.43.0


From 4467096e3178b55617481ee24e6a2e7ef775403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 07/36] fix: forget the event deleted by cgmf_clean

cgmf_clean left the pointer dangling: a second cgmf_clean, or generating
another event afterwards, deleted the same event again.
---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From c82bd39d6ba677b1928c3c343355270080ef3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:22 +0000
Subject: [PATCH 08/36] fix: make the declared yields and C interface usable

cgmf_genfissyields was declared with other arguments than it was defined with,
cgmf_getpost[lh]fdircos[uvw] and the destructor of cgmfYields were declared
but not defined, so none of them could be linked. The object behind a yields
run left its multiplicities uninitialised (its destructor then freed random
pointers), leaked the sampled fragments and read all data files again.
---
 libcgmf/include/cgmfEvents_capi.h |  2 +-
 libcgmf/src/cgmfEvents.cpp        | 19 ++++++++++++++++++-
 libcgmf/src/cgmfEvents_capi.cpp   | 30 +++++++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/libcgmf/include/cgmfEvents_capi.h b/libcgmf/include/cgmfEvents_capi.h
index 4ec7007..040a03c 100644
--- a/libcgmf/include/cgmfEvents_capi.h
+++ b/libcgmf/include/cgmfEvents_capi.h
@@ -24,7 +24,7 @@ void setdatapath (const char*);
 
 void   cgm(int, double, int*, double [], int*, double []);
 void   cgmf_genfissevent(int, double, double, double);
-void   cgmf_genfissyields(int, double, int);
+void   cgmf_genfissyields(int, double, int, const char*);
 
 int    cgmf_getnnu();
 double cgmf_getnerg(int);
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 074b871..4604c98 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -358,7 +358,16 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
-  initialization();
+  neutronNu = 0;
+  photonNu  = 0;
+  preFissionNeutronNu = 0;
+  ZAIDt = 0;
+  incidentEnergy = 0.0;
+
+  if(firstcalc) {
+    initialization();
+    firstcalc = false;
+  }
   cgmAllocateMemory();
   return;
 };
@@ -585,11 +594,19 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 
         }
 	of.close();
+
+	delete [] lf;
+	delete [] hf;
+	delete ff;
 	
 	return;
 }
 
 
+cgmfYields::~cgmfYields () {
+  return;
+}
+
 /*! 
 
 */
diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index 09ded3c..8fce5b0 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -10,6 +10,7 @@
  
  */
 
+#include <cmath>
 #include <string>
 
 #include "cgmfEvents_capi.h"
@@ -73,9 +74,11 @@ spin and parity.
 \param za: ZAID of target nucleus
 \param erg: energy of the incident particle in the laboratory frame, in MeV
 \param nevents: number of fission events to generate
+\param outfilename: name of the file the yields are written to
 
 */
-void cgmf_genfissyields (int za, double erg, int nevents, string outfilename) {
+void cgmf_genfissyields (int za, double erg, int nevents, const char* outfilename) {
+  if (cgmf_yields != 0) delete cgmf_yields;
   cgmf_yields = new cgmfYields (za, erg, nevents, outfilename);
 }
 
@@ -230,3 +233,28 @@ double cgmf_gethfpostmomentum_y () { return cgmf_fevent->getHeavyFragmentPostMom
 double cgmf_getlfpostmomentum_z () { return cgmf_fevent->getLightFragmentPostMomentumZ (); }
 double cgmf_gethfpostmomentum_z () { return cgmf_fevent->getHeavyFragmentPostMomentumZ (); }
 
+// directional cosines of the fragments after neutron emission
+static double dircos (double a, double b, double c) {
+  double p = sqrt(a*a+b*b+c*c);
+  return (p > 0.0) ? a/p : 0.0;
+}
+
+double cgmf_getpostlfdircosu() {
+  return dircos(cgmf_fevent->getLightFragmentPostMomentumX(), cgmf_fevent->getLightFragmentPostMomentumY(), cgmf_fevent->getLightFragmentPostMomentumZ());
+}
+double cgmf_getpostlfdircosv() {
+  return dircos(cgmf_fevent->getLightFragmentPostMomentumY(), cgmf_fevent->getLightFragmentPostMomentumX(), cgmf_fevent->getLightFragmentPostMomentumZ());
+}
+double cgmf_getpostlfdircosw() {
+  return dircos(cgmf_fevent->getLightFragmentPostMomentumZ(), cgmf_fevent->getLightFragmentPostMomentumX(), cgmf_fevent->getLightFragmentPostMomentumY());
+}
+double cgmf_getposthfdircosu() {
+  return dircos(cgmf_fevent->getHeavyFragmentPostMomentumX(), cgmf_fevent->getHeavyFragmentPostMomentumY(), cgmf_fevent->getHeavyFragmentPostMomentumZ());
+}
+double cgmf_getposthfdircosv() {
+  return dircos(cgmf_fevent->getHeavyFragmentPostMomentumY(), cgmf_fevent->getHeavyFragmentPostMomentumX(), cgmf_fevent->getHeavyFragmentPostMomentumZ());
+}
+double cgmf_getposthfdircosw() {
+  return dircos(cgmf_fevent->getHeavyFragmentPostMomentumZ(), cgmf_fevent->getHeavyFragmentPostMomentumX(), cgmf_fevent->getHeavyFragmentPostMomentumY());
+}
+
-- 
2.43.0


From 4c05f3d988f7c2326fa00dce63ffc410216475ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:03 +0000
Subject: [PATCH 09/36] fix: emit no pre-fission neutron that would leave the
 nucleus below its barrier

Just above the second-chance threshold (around 5 to 6 MeV) a chance could be
sampled whose daughter cannot reach its fission barrier. The energy sampling
then returned early but the neutron still counted as emitted: it was reported
with zero or uninitialised energy, and its binding energy was never taken
from the excitation energy, creating 5 to 7 MeV. Emit fewer neutrons instead.
---
 libcgmf/include/FissionFragments.h |  4 ++--
 libcgmf/src/FissionFragments.cpp   | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libcgmf/include/FissionFragments.h b/libcgmf/include/FissionFragments.h
index 62e7d74..c50ef63 100644
--- a/libcgmf/include/FissionFragments.h
+++ b/libcgmf/include/FissionFragments.h
@@ -324,8 +324,8 @@ class FissionFragments
 	
 	// pre-fission neutron emission << 1.0.6 >>
 	
-	double *sp1;   // total spectrum for the first neutron emitted
-	double *sp;    // evaporation spectrum from the neutrons
+	double *sp1 = NULL;   // total spectrum for the first neutron emitted
+	double *sp  = NULL;   // evaporation spectrum from the neutrons
 	Pdata pdt[MAX_CHANNEL];
 	Transmission *tc;
 	int nemit;
diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..4e9aba5 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -588,10 +588,8 @@ void FissionFragments::readMainInputFile (string inputFilename) {
 FissionFragments::~FissionFragments () {
 
 //  if (fragments != 0) delete [] fragments;
-  if (n_pfn > 0) {
-    if (sp1 != 0) delete [] sp1;
-    if (sp != 0) delete [] sp;
-  }
+  if (sp1 != 0) delete [] sp1;
+  if (sp != 0) delete [] sp;
   if (tc != 0) {
     for(int k=0 ; k<MAX_ENERGY_BIN ; k++) delete [] tc[k].tran;
     delete [] tc;
@@ -5358,14 +5356,18 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 //	n = (int) floor(rng_cgm()*(nemit + 1));
     //} while (emissprob[n] < emissprob_max*rng_cgm());
 
+    // Can't sample negative energies -- i.e. below the barrier of the daughter fewer neutrons are emitted
+    while (n > 0 && ncl[n].excitation[0] < barrier[n]) n--;
+    n_pfn = n;
+
     // If we sampled 0 pre-fission neutrons, move on
-    if (n == 0) return;
+    if (n == 0) {
+	preeq_flag = false;
+	return;
+    }
 
     // Determine the maximum pre-fission neutron energy (in c.o.m. frame)
     double eps_max = ncl[n].excitation[0] - barrier[n];
-    // Can't sample negative energies -- i.e. we're below the barrier of the 2nd-chance daughter
-    if (eps_max < 0.) preeq_flag = false;
-    if (eps_max < 0.) return;
 
     int kfmax = (int) ceil(eps_max/ENERGY_BIN);
 
-- 
2.43.0


From 11fc454a7c5c3654e49d7c48fbeca3cb2ebade3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:28 +0000
Subject: [PATCH 10/36] fix: find the fragment anisotropy at every tabulated
 energy

The energy rounded to 0.1 MeV in single precision was compared for equality
with the tabulated grid in double precision, which fails for most values, so
the tabulated anisotropy was ignored at most incident energies.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 4e9aba5..0d7fbf4 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4786,7 +4786,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (lround(incidentEnergy0*10) == lround(anisotropy[0][j]*10)) { // energy grid in steps of 0.1 MeV
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0


From ce36bcf85127242760732fc38a3c8315bdaba9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:07 +0000
Subject: [PATCH 11/36] fix: refuse unsupported reactions in yields runs as in
 event runs

A yields run did not validate target and energy: an unsupported request either
crashed or ended with exit status 0, and a file that could not be written
was reported as saved.
---
 libcgmf/include/cgmfEvents.h | 2 +-
 libcgmf/src/cgmfEvents.cpp   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 4604c98..70562f8 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -559,6 +559,10 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
+
+	checkInput (isotope, eng);
+	ZAIDt = isotope;
+	incidentEnergy = eng;
 	
 	lf = new fissionFragmentType [nevents];
 	hf = new fissionFragmentType [nevents];
@@ -569,6 +573,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 	// save fission yields
 	ofstream of;
 	of.open (&outfilename[0]);
+	if (!of) { cerr << "ERROR: Cannot open output file " << outfilename << endl; exit(-1); }
 	//for (int i=0; i<nevents; i++) {
 	//	of << lf[i].Z << " " << lf[i].A << " " << lf[i].KE << " " << lf[i].U << " " << lf[i].spin << " " << lf[i].parity << endl;
 	//	of << hf[i].Z << " " << hf[i].A << " " << hf[i].KE << " " << hf[i].U << " " << hf[i].spin << " " << hf[i].parity << endl;
-- 
2.43.0


From 653beb5f46f3054c781b9faad0b5fec79aec3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:09 +0000
Subject: [PATCH 12/36] fix: diagnose bad command lines instead of crashing

An unwritable output file, a missing or zero number of events and unknown
options ended in a segmentation fault.
---
 utils/cgmf/cgmf.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..6470733 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -86,6 +86,13 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if (fp == NULL) {
+      cerr << "ERROR: Cannot open output file " << outfilename << endl;
+#ifdef MPIRUN
+      MPI_Finalize();
+#endif
+      exit(-1);
+    }
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
@@ -399,11 +406,22 @@ void readUserInput (int argc, char *argv[], int ip) {
       case 's':
         startingEvent=atoi(optarg);
         break;
-      default:
-        break;
+      default: // getopt has printed a diagnostic
+#ifdef MPIRUN
+        MPI_Finalize();
+#endif
+        exit(-1);
     }
   }
 
+  if (nevents==0) {
+    cerr << "ERROR: The number of events (option -n) must be given and cannot be zero" << endl;
+#ifdef MPIRUN
+    MPI_Finalize();
+#endif
+    exit(-1);
+  }
+
   stringstream sip;
   sip << ip;
   if (outfilename=="") {
-- 
2.43.0


From f49b57099da4fce8dc72881a3aac90598fc54756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:06 +0000
Subject: [PATCH 13/36] fix: end with a non-zero status when data or reaction
 are not available

Missing anisotropy and pre-equilibrium tables crashed or hung the code, and
a missing yield model or an unsupported reaction ended with exit status 0.
---
 libcgmf/src/FissionFragments.cpp | 20 +++++++++++---------
 libcgmf/src/Yields.cpp           |  6 +++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 0d7fbf4..d346f4a 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -243,7 +243,7 @@ void FissionFragments::setOptions(void) {
 	    energySortingOption = "RTA";
 	    anisotropy_flag = true;
 	    if (incidentEnergy==0.0) {
-		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(0);
+		cerr<<"ERROR: Only neutron-induced fission allowed for U238!"<<endl; exit(-1);
 	    }
 	    break;
 
@@ -259,7 +259,7 @@ void FissionFragments::setOptions(void) {
 	/* PLUTONIUMS */
 	case 94238: // Pu238
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu238!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -280,7 +280,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94240: // Pu240
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu240!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -300,7 +300,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94242: // Pu242
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu242!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -312,7 +312,7 @@ void FissionFragments::setOptions(void) {
 
 	case 94244: // Pu244
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Pu244!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -326,7 +326,7 @@ void FissionFragments::setOptions(void) {
 	/* CALIFORNIUMS */
 	case 98252: // Cf252
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf252!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -338,7 +338,7 @@ void FissionFragments::setOptions(void) {
 
 	case 98254: // Cf254
 	    if (incidentEnergy!=0.0) {
-		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(0);
+		cerr<<"ERROR: Only spontaneous fission allowed for Cf254!"<<endl; exit(-1);
 	    } else {
 		sf_flag = true;
 	    }
@@ -351,7 +351,7 @@ void FissionFragments::setOptions(void) {
 	/* NOT SUPPORTED */
 	default:
 	    cerr << "ERROR: Cannot use CGMF (yet) for this isotope and/or incident energy" << endl;
-	    exit(0);
+	    exit(-1);
     }
     return;
 }
@@ -1733,7 +1733,7 @@ void FissionFragments::computeFragmentExcitationEnergy(double TXE, int Zl, int A
 	*Ul = El;
       
     } else {
-	cerr << "sorting option not implemented yet!" << endl; exit(0);
+	cerr << "sorting option not implemented yet!" << endl; exit(-1);
     }
     return;
 }
@@ -4674,6 +4674,7 @@ void readAnisotropy (void) {
       str = datadir + str;
       fp.open(&str[0]);
    }
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
 
 
    while(getline(fp,line)){
@@ -4722,6 +4723,7 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
+  if (!fp) cgmTerminateCode("pre-equilibrium angular distribution data file not found");
  
   i=0;
   j=0;
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..d5eed05 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -173,7 +173,7 @@ void Yields::setYieldParameters(void) {
             cerr << "(n,f) ";
         }
         cerr << id_cn0 << endl;
-        exit(0);
+        exit(-1);
     }
     gaussfit.close();
     return;
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From 853f8366c34f8edc83c34202ebadf8695c4af52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:27 +0000
Subject: [PATCH 14/36] fix: allow events after cgmf_cleanup and repeated
 clean-up

cgmf_cleanup released the level and R_T(A) tables but the next event went on
using them, and calling it twice released them twice.
---
 libcgmf/src/cgmfEvents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 70562f8..59a5fd8 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -682,6 +682,8 @@ void cgmfEvent::initialization () {
 
  */
 void cgmf_cleanup(void) {
+  if (firstcalc) return; // nothing has been read
+  firstcalc = true;      // read the data again if another event follows
   riplDiscreteLevelsCleanup();
   cleanupRTA();
   specMCcleanup();
-- 
2.43.0


From dd97b52f924db1cef8a28b6c810313844eda159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:58 +0000
Subject: [PATCH 15/36] fix: read history files in which all fragments have
 equal multiplicities

---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..f2a9eb4 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -362,15 +362,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._listArray(cmNeutronEnergies)
+		labNeutronEnergies=self._listArray(labNeutronEnergies)
+		cmGammaEnergies=self._listArray(cmGammaEnergies)
+		labGammaEnergies=self._listArray(labGammaEnergies)
+		photonAges=self._listArray(photonAges)
+		cmNeutronDircos=self._listArray(cmNeutronDircos)
+		labNeutronDircos=self._listArray(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._listArray(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._listArray(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
@@ -379,6 +379,13 @@ class Histories:
 
 		return (data)
 
+	def _listArray (self,lists):
+		""" Returns a one-dimensional array whose elements are the given lists, also when all lists have the same length """
+		array = np.empty(len(lists),dtype=object)
+		for i in range(len(lists)):
+			array[i] = lists[i]
+		return (array)
+
 	# Functions to return all quantities recorded
 	
 	def getFissionHistories(self):
-- 
2.43.0


From 2fc1f84ea61d229d43b5f74f21d3b302224ffdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:59 +0000
Subject: [PATCH 16/36] fix: Pnu with an energy threshold counts neutrons per
 event

---
 tools/CGMFtk/histories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index f2a9eb4..5061b5f 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -833,9 +833,11 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
+			nE = self.nElabLF + self.nElabHF
+			for i in range(len(nE)):
+				x = nE[i]
+				if (self.preFissionNu[i]>0):
+					x = x + self.preFissionNeutronElab[i]
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
 			nutot = np.array(nutot)
-- 
2.43.0


From e8322828de2eb6e6866f601cad7342a78ddbaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:00 +0000
Subject: [PATCH 17/36] fix: UTKE and spinTKE refer to this instance

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 5061b5f..864e6df 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -983,7 +983,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -991,7 +991,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From f0cb5c22b6c13bc5db209bdb1b52363ab67fb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:01 +0000
Subject: [PATCH 18/36] fix: do not drop the heaviest mass and the largest TKE

---
 tools/CGMFtk/histories.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 864e6df..9cbd6e5 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -896,7 +896,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
@@ -997,8 +997,11 @@ class Histories:
 				TKE.append(x)
 				TKE.append(x)
 			TKE = np.array(TKE)
-		for i in range(nTKE-1):
-			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i+1])]
+		for i in range(nTKE):
+			mask = TKE>=xTKE[i]
+			if (i<nTKE-1):
+				mask = np.logical_and(mask,TKE<xTKE[i+1])
+			r=q[mask]
 			if (r.size):
 				yTKE[i]=np.mean(r)
 			else:
-- 
2.43.0


From 745f00a52413df2d1bccd14037c4b2fd5d7108d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:02 +0000
Subject: [PATCH 19/36] fix: nnangles does not pair a neutron with itself

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 9cbd6e5..304630b 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1332,13 +1332,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From a5ebe49e895264f205dcab926b98c05f3e01090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:04 +0000
Subject: [PATCH 20/36] fix: gamma multiplicity versus time for arrays, and per
 fragment

---
 tools/CGMFtk/histories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 304630b..bb0432f 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -635,7 +635,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -660,7 +660,7 @@ class Histories:
 				mask = np.logical_and(photonAges<=i,photonEnergies>=Eth)
 				nug.append(float(len(photonAges[mask])))
 			nug = np.array(nug)
-			nug = nug/float(self.numberEvents)
+			nug = nug/float(self.numberFragments)
 			return (times,nug)
 
 		else:
@@ -689,7 +689,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From 0d6c9a6a4f668826ff81c2d4db23362b0d85fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:05 +0000
Subject: [PATCH 21/36] fix: gammaSpec accepts lists of resolutions

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index bb0432f..3229a07 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1374,7 +1374,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0


From e34d8aafb2eec53cba385c64e1d872d420267e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:09 +0000
Subject: [PATCH 22/36] fix: compound-nucleus decay does not inherit the window
 of a fission event

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 59a5fd8..5b4301e 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -148,6 +148,7 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
     initialization(o);
     firstcalc = false;
   }
+  set_time_coincidence_window(-1.0); // not the window of an earlier fission event
   cgmAllocateMemory();
 
   //---------------------------------------
-- 
2.43.0


From 6a8f26c3b6a9be04786090d9c1107464b317c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:12 +0000
Subject: [PATCH 23/36] fix: compound-nucleus decay checks its range as the
 code intended

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 5b4301e..3636fdd 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -153,6 +153,7 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
 
   //---------------------------------------
   //      Check Z, A, and E Range, spin and parity
+  if (cgmCheckRange(targZ,targA,exciE) < 0) cgmTerminateCode(oserr.str());
   if(c != 0){
     ctl.calc_montecarlo  = c & CALC_MC;
     ctl.calc_entrance    = c & CALC_TRAN;
-- 
2.43.0


From 6433261f4949a520ef442f6e3f00f1a89adaf130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:34 +0000
Subject: [PATCH 24/36] fix: a nucleus excited below the continuum starts in
 the nearest level, not the one above

---
 libcgmf/src/popinit.cpp | 2 +-
 libcgmf/src/specmc.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libcgmf/src/popinit.cpp b/libcgmf/src/popinit.cpp
index 433f5fe..02cec64 100644
--- a/libcgmf/src/popinit.cpp
+++ b/libcgmf/src/popinit.cpp
@@ -217,7 +217,7 @@ int  statStoreLevelExcite(Nucleus *n)
 
   if( (n->ndisc == 1) && (n->ncont == 0) ) return(k);
 
-  for(int i=0 ; i<n->ndisc-1 ; i++){
+  for(int i=0 ; i<n->ndisc ; i++){
     x = fabs(n->max_energy - n->lev[i].energy);
     if(d>x){
       k = i;
diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index c56ff01..818cd1d 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -159,7 +159,8 @@ void specMCMainFission(fissionEventType *fe)
 	if(ncl[0].ncont == 0){
 
 		/*** find nearest discrete level for given Ex */
-		int nstart = statStoreLevelExcite(&ncl[0]);
+		int nstart = statStoreLevelExcite(&ncl[0]); // number of levels up to and including the nearest
+		if(nstart > 0) nstart--;                      // its index
   	np = 0;
 		int final_state = mcGammaCascade(0,nstart,spc);
 		/*** insert final state */
@@ -270,7 +271,8 @@ void specMCMain(double initJ, int initP, double targE, double spinf, unsigned lo
   /*** decay start at a given discrete level */
   if(ncl[0].ncont == 0){
     /*** find nearest discrete level for given Ex */
-    int nstart = statStoreLevelExcite(&ncl[0]);
+    int nstart = statStoreLevelExcite(&ncl[0]); // number of levels up to and including the nearest
+    if(nstart > 0) nstart--;                      // its index
 
     for(unsigned long t=0 ; t<nsim ; t++){
       np = 0;
-- 
2.43.0


From 51ef7d08c587796a5dfa22ffa4e959e5a90823b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:02 +0000
Subject: [PATCH 25/36] fix: count the pre-equilibrium neutron in the mass of
 the fissioning nucleus

---
 libcgmf/src/kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/kinematics.cpp b/libcgmf/src/kinematics.cpp
index 6502a0f..4fd7f73 100644
--- a/libcgmf/src/kinematics.cpp
+++ b/libcgmf/src/kinematics.cpp
@@ -334,6 +334,7 @@ void boost_pfn (int Z_c, int A_c,double En,double TKE,int A_l,int Z_l,int A_h,in
 					      cmNeutronVelocities[0],
 					      true,Pcostheta,Ppreeq);
     n0=1;
+    a_c--; // neutron emission
   }      
     
   for (int n=n0;n<neutronMultiplicity_pre;n++){ 
-- 
2.43.0


From cc57d62090533053029c7f50cb544d21c1ce7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 26/36] fix: give pre-fission neutrons at threshold a positive
 energy

Just above the threshold of a fission chance only the first energy bin is
open; half of the energies sampled around its centre (zero) were negative,
which made the neutron velocity and both fragment momenta NaN.
---
 libcgmf/src/FissionFragments.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index d346f4a..6e89a22 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5385,7 +5385,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 	kf = (int) floor(rng_cgm()*kfmax);
     } while (sp1[kf] < max_prob*rng_cgm());
 
-    cmEnergy_pfn[0] = energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm()); // Continuum-to-continuum energy transfer
+    cmEnergy_pfn[0] = fabs(energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm())); // Continuum-to-continuum energy transfer (the bin around zero is folded to positive energies)
 
     // if the neutron was pre-equilibrium, construct the CDF for the angular sampling
     double Eexc = ncl[1].excitation[kf];
@@ -5463,7 +5463,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 
 	if (kf<0) cout << i << " nemit_now=" << n << " kstart=" << kstart << " kf=" << kf << endl;
 
-	cmEnergy_pfn[i-1] = tc[kf].ecms + 0.5*ENERGY_BIN*(1-2*rng_cgm());
+	cmEnergy_pfn[i-1] = fabs(tc[kf].ecms + 0.5*ENERGY_BIN*(1-2*rng_cgm()));
 	kstart = kf;
 
     }
-- 
2.43.0


From 79ade1d061f27215d0614249c9c292f9e37984d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:06 +0000
Subject: [PATCH 27/36] fix: compare true spins when a transition is forced at
 the end of the continuum

The spin of the continuum state is stored without its half; for odd-mass
nuclei the forced electric-dipole transition could change the spin by 2, and
the closest-spin level was the closest to the truncated value.
---
 libcgmf/src/specmc.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index 818cd1d..4c99587 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -380,9 +380,10 @@ void mcHistoryLoop(MCPoint minit, Pdata *pdt, double **spc)
 				int index0=-1 ;
         int ndisc = ncl[c0].ndisc ;
         double xpr = -1.;
+        double jcurr = mcurr.getJ() + halfint(ncl[c0].lev[0].spin); // J is stored without its half
         for( int kk2 = 0 ; kk2 <  ndisc ; kk2++ ){
           if( ncl[c0].lev[kk2].parity * mcurr.getP() > 0 ) continue ; //E1 selection rules only
-          if( fabs( ncl[c0].lev[kk2].spin - mcurr.getJ() ) < 2. && 1. <= ncl[c0].lev[kk2].spin + mcurr.getJ() ){
+          if( fabs( ncl[c0].lev[kk2].spin - jcurr ) < 2. && 1. <= ncl[c0].lev[kk2].spin + jcurr ){
             double xpr1 = rng_cgm() ;
             if( xpr1 > xpr ){
               xpr = xpr1 ;
@@ -395,8 +396,8 @@ void mcHistoryLoop(MCPoint minit, Pdata *pdt, double **spc)
         if(index0 == -1 ){
           double delJ=100.;
           for( int kk2 = 0 ; kk2 <  ndisc ; kk2++ ){
-            if( fabs( ncl[c0].lev[kk2].spin - mcurr.getJ() ) < delJ ){
-              delJ = fabs( ncl[c0].lev[kk2].spin - mcurr.getJ() );
+            if( fabs( ncl[c0].lev[kk2].spin - jcurr ) < delJ ){
+              delJ = fabs( ncl[c0].lev[kk2].spin - jcurr );
               index0 = kk2 ;
             }
           }
@@ -499,9 +500,10 @@ MCPoint mcFindNext(int c0, int c1, int jspin, int parity)
   int index0=-1 ;
   int ndisc = ncl[c0].ndisc ;
   double xpr = -1.;
+  double jcurr = jspin + halfint(ncl[c0].lev[0].spin); // J is stored without its half
   for( int kk2 = 0 ; kk2 <  ndisc ; kk2++ ){
     if( ncl[c0].lev[kk2].parity * parity > 0 ) continue ; //E1 selection rules only
-    if( fabs( ncl[c0].lev[kk2].spin - jspin ) < 2. && 1. <= ncl[c0].lev[kk2].spin + jspin ){
+    if( fabs( ncl[c0].lev[kk2].spin - jcurr ) < 2. && 1. <= ncl[c0].lev[kk2].spin + jcurr ){
       double xpr1 = rng_cgm() ;
       if( xpr1 > xpr ){
         xpr = xpr1 ;
@@ -513,8 +515,8 @@ MCPoint mcFindNext(int c0, int c1, int jspin, int parity)
   if(index0 == -1 ){
     double delJ=100.;
     for( int kk2 = 0 ; kk2 <  ndisc ; kk2++ ){
-      if( fabs( ncl[c0].lev[kk2].spin - jspin ) < delJ ){
-        delJ = fabs( ncl[c0].lev[kk2].spin - jspin );
+      if( fabs( ncl[c0].lev[kk2].spin - jcurr ) < delJ ){
+        delJ = fabs( ncl[c0].lev[kk2].spin - jcurr );
         index0 = kk2 ;
       }
     }
-- 
2.43.0


From 358ec5d0e203bbfc66f651eac611476d41a2f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:35 +0000
Subject: [PATCH 28/36] fix: refuse an incident energy that is not a number

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 3636fdd..eb28caf 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -629,7 +629,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
-- 
2.43.0


From c1d11a082dbcd1f236de62de899a015dbaff7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:30 +0000
Subject: [PATCH 29/36] fix: read the first nucleus of the
 level-density-parameter table

---
 libcgmf/src/FissionFragments.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 6e89a22..49d52d1 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4562,10 +4562,9 @@ void readLDP (void) {
 
     while(getline(fp,str)){
 		if(str[0] == '#') continue;
-	    while (!fp.eof()) {
-			fp >> zaid;
-			for (int i=0; i<NUM_GRID; i++) fp >> ldp2[zaid][i];
-    	}
+		istringstream iss(str);
+		if (!(iss >> zaid)) continue;
+		for (int i=0; i<NUM_GRID; i++) iss >> ldp2[zaid][i];
 	}
 
     return;
-- 
2.43.0


From 6660ad3fa9936c5d33e7c621c854454c6cd97b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:00 +0000
Subject: [PATCH 30/36] fix: find the levels of a nucleus whose neighbours are
 missing from the level file

---
 libcgmf/src/ripl2levels.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 1d9a966..e299aeb 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -272,20 +272,17 @@ void getRiplDiscreteLevels (Nucleus *ncl, int nemit) {
 
 	int zaid = 1000*ncl[0].za.getZ()+ncl[0].za.getA();
 
-	bool found =false;
-	int id=-1;
-	while (!found && id<MAX_NUCLEI-1) {
-		id++;
-		if (zaidIndex[id]==zaid) found=true;
-	}
-
 	for (int k=0; k<=nemit; k++) {
-		found = false;
-		if (id-k>=0 && zaidIndex[id-k]==zaid-k) found = true;
+		bool found = false;
+		int id = -1;
+		while (!found && id<MAX_NUCLEI-1) {
+			id++;
+			if (zaidIndex[id]==zaid-k) found = true;
+		}
 		if (found) {
-			ncl[k].ndisc = numberLevels[id-k];
+			ncl[k].ndisc = numberLevels[id];
 			for (int i=0; i<ncl[k].ndisc; i++) {
-				ncl[k].lev[i] = allLevels[id-k][i];
+				ncl[k].lev[i] = allLevels[id][i];
 			}
 		}
 		fixLevels (&ncl[k], found, ml);
-- 
2.43.0


From a86dc93a424647efa17c10532f859ccc43670527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 31/36] fix: neutron angles of files in which a fragment emits
 no neutron

---
 tools/CGMFtk/histories.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 3229a07..d91f217 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1191,9 +1191,9 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
 
 		ncosAll = ncosAll[nEAll>=Eth][:,2]
 		ncosLight = ncosLight[nELight>=Eth][:,2]
@@ -1288,12 +1288,12 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
-		FcosLight = np.array(FcosLight)
-		FcosHeavy = np.array(FcosHeavy)
-		FcosAll = np.array(FcosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
+		FcosLight = np.array(FcosLight).reshape(-1,3)
+		FcosHeavy = np.array(FcosHeavy).reshape(-1,3)
+		FcosAll = np.array(FcosAll).reshape(-1,3)
 
 		nFcosAll = ncosAll[nEAll>=Eth]*FcosAll[nEAll>=Eth]
 		nFcosAll = np.sum(nFcosAll,axis=1)
-- 
2.43.0


From f161d66de3d9d7e908c692b61ad53f177bd15659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:05 +0000
Subject: [PATCH 32/36] fix: bessi2 series for x<=1 uses the recurrence of
 I_{n+1/2}

---
 libcgmf/src/etc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/etc.cpp b/libcgmf/src/etc.cpp
index 9a5c134..c1c55e0 100644
--- a/libcgmf/src/etc.cpp
+++ b/libcgmf/src/etc.cpp
@@ -234,7 +234,7 @@ double bessi2(int n, double x)
     x2=0.25*x*x;
     s=g1=1.0/(n+0.5);
     for(k=1;;k++){
-      g1 *= x2/( k * (n+1+k*0.5) );
+      g1 *= x2/( k * (n+0.5+k) );
       s  += g1;
       if(fabs(g1)<EPSBESS) break;
     }
-- 
2.43.0


From 317850646b050b10bc5517a9c752de3ba813af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:05 +0000
Subject: [PATCH 33/36] fix: sign of the x^-9 coefficient in loggamma

---
 libcgmf/src/etc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/etc.cpp b/libcgmf/src/etc.cpp
index c1c55e0..1b42063 100644
--- a/libcgmf/src/etc.cpp
+++ b/libcgmf/src/etc.cpp
@@ -153,7 +153,7 @@ double loggamma(double x)
   w = 1.0 / (x * x);
   return (((((((-0.0295506535947712  * w + 0.0064102564102564) * w
                 -0.0019175269175269) * w + 0.0008417508417508) * w
-                +0.0005952380952381) * w + 0.0007936507936508) * w
+                -0.0005952380952381) * w + 0.0007936507936508) * w
                 -0.0027777777777778) * w + 0.0833333333333333) / x
                 + 0.5 * LOG_2PI - log(v) - x + (x - 0.5) * log(x);
 }
-- 
2.43.0


From 47ef17053c7be9727a2c31c557c52255b2f17646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:05 +0000
Subject: [PATCH 34/36] fix: compsqrt and comppow take the argument of the
 number in all four quadrants

---
 libcgmf/src/etc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/etc.cpp b/libcgmf/src/etc.cpp
index 1b42063..57e7bc5 100644
--- a/libcgmf/src/etc.cpp
+++ b/libcgmf/src/etc.cpp
@@ -31,7 +31,7 @@ Complex compsqrt(Complex *x)
   Complex c;
 
   double r = sqrt(x->real * x->real + x->imag * x->imag);
-  double t = 0.5*acos(x->real/r);
+  double t = 0.5*atan2(x->imag,x->real);
   r=sqrt(r);
 
   c.real = r*cos(t);
@@ -47,7 +47,7 @@ Complex comppow(Complex *x, double p)
   if(p==1.0) c = *x;
   else{
     double r = sqrt(x->real * x->real + x->imag * x->imag);
-    double t = p*acos(x->real/r);
+    double t = p*atan2(x->imag,x->real);
     r=pow(r,p);
 
     c.real = r*cos(t);
-- 
2.43.0


From 9fec2af72765092c094e060b02171ecb464c216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:05 +0000
Subject: [PATCH 35/36] fix: spin cut-off of a constant-temperature nucleus no
 longer left over from the previous nucleus

---
 libcgmf/src/levden.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/levden.cpp b/libcgmf/src/levden.cpp
index 0a5380c..d8e9f47 100644
--- a/libcgmf/src/levden.cpp
+++ b/libcgmf/src/levden.cpp
@@ -43,6 +43,7 @@ double ldLevelDensity(double excitation_energy, double mass, LevelDensity *ldp)
   /*** if Em = 0, use const.temp all */
   if(ldp->match_energy == 0.0){
     dens = ldConstantTemperature(excitation_energy,ldp->E0,ldp->temperature);
+    ldp->spin_cutoff = ldp->sigma0; // no Fermi gas: the cut-off of the levels
   }
   else{
     double u  = excitation_energy - ldp->pairing_energy;
-- 
2.43.0


From 53b7c6df73948b523312b2ab76cffd3ad3b52362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:35 +0000
Subject: [PATCH 36/36] fix: refuse data files that cannot be read

A data file that opens but cannot be read, or is empty, was taken as a
table without entries: the run crashed, never ended, or went on with
other results. Treat it like a missing file.
---
 libcgmf/src/FissionFragments.cpp | 20 ++++++++++----------
 libcgmf/src/Yields.cpp           |  4 ++--
 libcgmf/src/kcksyst.cpp          |  4 ++--
 libcgmf/src/ripl2levels.cpp      |  2 +-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 49d52d1..eaff198 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -1968,7 +1968,7 @@ void readRTA (void) {
     fp.open(&str[0]);
   }
 
-  if (!fp) cgmTerminateCode("R_T(A) data file not found");
+  if (fp.peek()==EOF) cgmTerminateCode("R_T(A) data file not found");
 
   c=0;
   while(getline(fp,str)){
@@ -4387,7 +4387,7 @@ void readDeformations (void) {
 	fp.open(&str[0]);
     }
 
-    if (!fp) cgmTerminateCode("deformtions data file not found");
+    if (fp.peek()==EOF) cgmTerminateCode("deformtions data file not found");
 
     std::fill_n (beta2, MAX_ZAID, -100.0);
 
@@ -4440,7 +4440,7 @@ void readTemperatures (void) {
 	   fp.open(&str[0]);
     }
 
-    if (!fp) cgmTerminateCode("temperatures data file not found");
+    if (fp.peek()==EOF) cgmTerminateCode("temperatures data file not found");
 
     for (int i=0; i<32; i++) {
   		for (int j=0; j<MAX_ZAID; j++) {
@@ -4519,7 +4519,7 @@ void readSpinScaling(void) {
 		str = datadir + str;
 		fp.open(&str[0]);
 	}
-	if (!fp) cgmTerminateCode("spin-scaling model file not found");
+	if (fp.peek()==EOF) cgmTerminateCode("spin-scaling model file not found");
 
   while (getline(fp,line)) {
     if (line[0]=='#' or line=="") continue;
@@ -4552,7 +4552,7 @@ void readLDP (void) {
 	fp.open(&str[0]);
     }
 
-    if (!fp) cgmTerminateCode("level density parameters data file not found");
+    if (fp.peek()==EOF) cgmTerminateCode("level density parameters data file not found");
 
     for (int i=0; i<NUM_GRID; i++) {
 		for (int j=0; j<MAX_ZAID; j++) {
@@ -4673,7 +4673,7 @@ void readAnisotropy (void) {
       str = datadir + str;
       fp.open(&str[0]);
    }
-   if (!fp) cgmTerminateCode("anisotropy data file not found");
+   if (fp.peek()==EOF) cgmTerminateCode("anisotropy data file not found");
 
 
    while(getline(fp,line)){
@@ -4722,7 +4722,7 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
-  if (!fp) cgmTerminateCode("pre-equilibrium angular distribution data file not found");
+  if (fp.peek()==EOF) cgmTerminateCode("pre-equilibrium angular distribution data file not found");
  
   i=0;
   j=0;
@@ -4846,7 +4846,7 @@ void readMasses (void) {
 	fp.open(&str[0]);
     }
 
-    if (!fp) cgmTerminateCode("masses data file not found");
+    if (fp.peek()==EOF) cgmTerminateCode("masses data file not found");
 
     std::fill_n (masses, MAX_ZAID, 0.0); // initialize to zeros
 
@@ -5201,7 +5201,7 @@ void FissionFragments::readMultichanceFissionData(void) {
     fileFissionData += "multichancefission.dat";
     ifstream fissdata(fileFissionData.c_str(),ios::in);
 
-    if (!fissdata.is_open()) {
+    if (fissdata.peek()==EOF) {
 	cerr << "[readMultichanceFissionData] file " << fileFissionData << " was not found" << endl; exit(-1);
     }
 
@@ -5606,7 +5606,7 @@ void readPreeqData(void){
     fp.open(str.c_str());
   }
 
-  if (!fp) cgmTerminateCode("preequilibrium data file not found");
+  if (fp.peek()==EOF) cgmTerminateCode("preequilibrium data file not found");
 
   string line;
 
diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index d5eed05..a866636 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -128,7 +128,7 @@ void Yields::setYieldParameters(void) {
     string GaussData = datadir;
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
-    if (!gaussfit.is_open()) {
+    if (gaussfit.peek()==EOF) {
     	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
@@ -267,7 +267,7 @@ void Yields::setTKEParameters(void) {
     string TKEData = datadir;
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
-    if (!tkefit.is_open()) {
+    if (tkefit.peek()==EOF) {
     	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
diff --git a/libcgmf/src/kcksyst.cpp b/libcgmf/src/kcksyst.cpp
index e1fc5bd..d8a508e 100644
--- a/libcgmf/src/kcksyst.cpp
+++ b/libcgmf/src/kcksyst.cpp
@@ -46,7 +46,7 @@ int kckDataRead(ZAnumber *za, LevelDensity *ldp)
     fp.open(&str[0]);
   }
 
-  if(!fp) cgmTerminateCode("level density parameter file not found");
+  if (fp.peek()==EOF) cgmTerminateCode("level density parameter file not found");
 
   bool found=false;
   while(getline(fp,str)){
@@ -157,7 +157,7 @@ int readkcksystdat() {
 		fp.open(&str[0]);
 	}
 	
-	if(!fp) cgmTerminateCode("level density parameter file not found");
+	if (fp.peek()==EOF) cgmTerminateCode("level density parameter file not found");
 	
 	while(getline(fp,str)){
 		if(str[0] == '#') continue;
diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index e299aeb..eb68362 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -95,7 +95,7 @@ void readDiscreteLevelData () {
 		fp.open(&str[0]);
 	}
 
-	if(!fp){
+	if (fp.peek()==EOF) {
 		cgmTerminateCode("CGMF discrete level database not found");
 		return;
 	}
-- 
2.43.0

