From 9f32c519a13384a5b8c4181c272bc44bde678286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 01/67] fix: sann neighbor search read one entry past the end
 of the candidate list

---
 src/pyscal/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..af4f465 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1163,6 +1163,8 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            //the candidates are exhausted, not converged
+            if (m == maxneighs) break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
-- 
2.43.0


From bdbcfb2afaee428633614dfe6b0d88c92af55c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:52 +0000
Subject: [PATCH 02/67] fix: number of solid bonds counted every neighbor due
 to a dangling else

---
 src/pyscal/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index af4f465..79bf893 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1716,10 +1716,12 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
+            }
             
             atoms[ti].avq6q6 += scalar;
         }
-- 
2.43.0


From 3227b79683b3d82a542dcb260cb7145abfd3ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 03/67] fix: find_solids ignored the keyword right

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..91abf71 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -933,6 +933,9 @@ class System(pc.System):
         else:
              raise TypeError("bonds should be interger/float value")
 
+        #set the direction of comparison
+        self.comparecriteria = 0 if right else 1
+
         #Set the vlaue of q
         self.solidq = q
         #first calculate q
-- 
2.43.0


From 1ea8896d90fe3c0310ab54a7912291054e04fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 04/67] fix: largest cluster id of an earlier call was used
 when there is no cluster

---
 src/pyscal/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 79bf893..62111f2 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1850,6 +1850,8 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        //cluster ids start from 1, so 0 matches no atom
+        maxclusterid = 0;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
-- 
2.43.0


From bf6e73ff21f07bc7fdedfa4ca7b09a64802caaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:51 +0000
Subject: [PATCH 05/67] fix: disorder parameter used the first atoms of the
 system instead of the neighbors

---
 src/pyscal/system.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 62111f2..9801c7e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1618,13 +1618,14 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
                 sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-- 
2.43.0


From 30e726f0d0f061244a4308d33f8d4fb9af707a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:29 +0000
Subject: [PATCH 06/67] fix: local entropy used the local density of the first
 atom for all atoms

---
 src/pyscal/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9801c7e..326487f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2533,9 +2533,11 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
         
         atoms[i].sigma = sigma;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        else{
+            atoms[i].rho = rho;
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 95b695f602d201ab4710c113c0779a219bafd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 07/67] fix: vertex positions accumulated over repeated voronoi
 calculations

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 326487f..d9a3118 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1963,6 +1963,7 @@ void System::get_all_neighbors_voronoi(){
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
+            atoms[ti].vertex_positions.clear();
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
             for(int si=0; si<nverts; si++){
-- 
2.43.0


From 56f4099f00019c8c34e6284bfe0ff13791128813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 08/67] fix: voronoi neighbors with a filter compared the wrong
 atoms and left gaps

---
 src/pyscal/system.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d9a3118..547ae4b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1986,28 +1986,30 @@ void System::get_all_neighbors_voronoi(){
             //}
             for (int tj=0; tj<neigh.size(); tj++){
 
+                int nj = neigh[tj];
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[nj].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[nj].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].neighbors[nn] = nj;
                 atoms[ti].n_neighbors += 1;
-                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                d = get_abs_distance(ti,nj,diffx,diffy,diffz);
+                atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
 
             }
 
-- 
2.43.0


From c7ecc97e7173dcfa4c64f04bbeb49f670e95bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 09/67] fix: adaptive neighbors after voronoi neighbors gave
 unnormalised q values

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 547ae4b..d5ab4d9 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1197,6 +1197,9 @@ int System::get_all_neighbors_sann(double prefactor){
 
 int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
 
+    //reset voronoi flag
+    voronoiused = 0;
+
     double d, dcut;
     double diffx,diffy,diffz;
     double r,theta,phi;
-- 
2.43.0


From 3d68b0c483437b25cc0d3682416ccaefec1d2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 10/67] fix: cna and centrosymmetry read past the neighbor
 candidates of isolated atoms

---
 src/pyscal/system.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d5ab4d9..5249f94 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -939,12 +939,13 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         get_temp_neighbors_brute();
     }
     for (int ti=0; ti<nop; ti++){
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
         if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
+            finished = 0;
+            continue;
         }
 
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
         if(assign == 1){
             //assign the neighbors
             for(int i=0; i<nns; i++){
@@ -952,8 +953,6 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
                 process_neighbor(ti, tj);
             }
         }
-
-        finished = 1;            
     }
 
 
@@ -2097,6 +2096,7 @@ void System::get_cna_neighbors(int style){
 
     for (int ti=0; ti<nop; ti++){
         atoms[ti].cutoff = factor*lattice_constant;
+        if (atoms[ti].temp_neighbors.size() < ncount) continue;
         for(int i=0 ; i<ncount; i++){
             int tj = atoms[ti].temp_neighbors[i].index;
             //dist = atoms[ti].temp_neighbors[i].dist;
@@ -2594,7 +2594,8 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    if (!get_all_neighbors_bynumber(3, nmax, 1))
+        throw runtime_error("Could not find enough neighbors");
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From ec6baf4b1d7de7aba9b83b08c47b6927b21c9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 11/67] fix: cna reused neighbor candidates of earlier
 calculations

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 5249f94..f350e5f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2453,6 +2453,7 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
+    reset_all_neighbors();
     get_all_neighbors_bynumber(3, 14, 0);
 
     //first we start by checking for 12 CN 
-- 
2.43.0


From 62801a04951f1a1b042289ce85a09a945015684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:46 +0000
Subject: [PATCH 12/67] fix: cutoff of atoms was left undefined by neighbor
 method number

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f350e5f..4ebea05 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -951,6 +951,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
             for(int i=0; i<nns; i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
                 process_neighbor(ti, tj);
+                atoms[ti].cutoff = atoms[ti].temp_neighbors[i].dist;
             }
         }
     }
-- 
2.43.0


From 2c0fedb440aa64e405c8fd7d3081880521b6478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 13/67] fix: attributes of new atoms were uninitialised memory

---
 src/pyscal/atom.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..93f9622 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -33,7 +33,37 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     avg_entropy = 0;
     energy = 0;
     avg_energy = 0;
-
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    n3 = 0;
+    n4 = 0;
+    n5 = 0;
+    n6 = 0;
+    volume = 0;
+    avgvolume = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    lcutsmall = 0;
+    lcutlarge = 0;
+    lneigh = 0;
+    sigma = 0;
+    rho = 0;
+    rstart = 0;
+    rstop = 0;
+    h = 0;
+    kb = 0;
+
+    for (int tn = 0; tn<4; tn++){
+        nn1[tn] = -1;
+    }
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
         neighbors[tn] = -1;
@@ -44,6 +74,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
-- 
2.43.0


From d0d23b3033389e751c700cde246768bee0031c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 14/67] fix: analysis methods dropped the data of ghost atoms
 in small systems

---
 src/pyscal/core.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 91abf71..9da8d91 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -151,6 +151,16 @@ class System(pc.System):
 
         self.set_atoms(atoms)
 
+    def _update_atoms(self, atoms):
+        """
+        Store the modified real atoms, the ghost atoms of the system are kept
+        """
+        ghosts = self.get_all_atoms()[len(atoms):]
+        #ghost atoms are ordered as images of the complete list of atoms
+        for count, ghost in enumerate(ghosts):
+            ghost.condition = atoms[count % len(atoms)].condition
+        self.set_atoms(atoms + ghosts)
+
     def add_atoms(self, atoms):
         """
         Add a given list of atoms
@@ -711,7 +721,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -810,13 +820,13 @@ class System(pc.System):
                 for atom in atoms:
                     cval = condition(atom)
                     atom.condition = cval
-            self.atoms = atoms
+            self._update_atoms(atoms)
 
         if clear_condition:
             atoms = self.atoms
             for atom in atoms:
                 atom.condition = 0
-            self.atoms = atoms
+            self._update_atoms(atoms)
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1052,7 +1062,7 @@ class System(pc.System):
                 cval = condition(atom)
                 atom.condition = cval
         
-        self.atoms = atoms
+        self._update_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1145,10 +1155,9 @@ class System(pc.System):
             neighs = atom.neighbors
 
             for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
-                dists.append(dist)
                 distneighs.append(neigh)
-                distvectors.append(vectors)
+            dists = atom.neighbor_distance
+            distvectors = atom.neighbor_vector
 
             args = np.argsort(dists)
             #find top four
@@ -1166,7 +1175,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1233,7 +1242,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1492,7 +1501,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -1515,7 +1524,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1599,7 +1608,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -1631,7 +1640,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
-- 
2.43.0


From f2da20cd20199c86a91392e328c09ddecb7848f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 15/67] fix: pmsro looked up concentrations by type number
 instead of by type

---
 src/pyscal/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9da8d91..b050365 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1601,8 +1601,9 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        counts = dict(zip(types[0], types[1]))
+        mref  = counts[reference_type]/float(np.sum(types[1]))
+        mcomp = counts[compare_type]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
-- 
2.43.0


From 056a1c3ed2e0ae22cd9d506d60aa200d78487942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 16/67] fix: stale simulation box and ghost atoms when box or
 atoms are reassigned

---
 src/pyscal/core.py | 61 ++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b050365..9ca9e67 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,19 +109,30 @@ class System(pc.System):
         """
         Box setter 
         """
+        #ghost atoms belong to the earlier box, they need to be recreated
+        atoms = self.get_atoms() if self.ghosts_created else None
+        self._assign_box(userbox)
+        self.actual_box = None
+        self.ghosts_created = False
+        if atoms is not None:
+            self.atoms = atoms
+
+    def _assign_box(self, userbox):
+        """
+        Assign box vectors
+        """
         #we should automatically check for triclinic cells here
-        summ = 0
-        for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
-
-        #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        vectors = np.array(userbox)
+        offdiagonal = vectors - np.diag(np.diag(vectors))
+
+        #any box vector that is not along its axis needs the triclinic treatment
+        if np.max(np.abs(offdiagonal)) > 1E-6:
             #this is a triclinic box
-            rot = np.array(userbox).T
+            rot = vectors.T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
         self._box = userbox
 
@@ -137,6 +148,12 @@ class System(pc.System):
         """
         Set atoms
         """
+        if self.actual_box is not None:
+            #existing ghost atoms are dropped, go back to the box without them
+            self._assign_box(self.actual_box)
+            self.actual_box = None
+            self.ghosts_created = False
+
         if(len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
@@ -565,19 +582,19 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
+            if self.triclinic and not self.ghosts_created:
+                atoms  = self.get_atoms()
+                atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
+                self.set_atoms(atoms)
+
             #copy the simulation cell
             backupbox = self._box.copy()
             if self.triclinic:
-                if not self.ghosts_created:
-                    atoms  = self.get_atoms()
-                    atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                    self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
+                self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._box = backupbox
 
         self.neighbors_found = True
 
@@ -1935,8 +1952,8 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        box = [np.array(x) for x in self.box]
+        actual_box = [list(x) for x in box]
 
         if atoms is None:
             atoms = self.atoms
@@ -1978,6 +1995,7 @@ class System(pc.System):
             box[2] = zs*np.array(box[2])
             self.box = box
         if ghost:
+            self.actual_box = actual_box
             self.ghosts_created = True
 
         completeatoms = atoms + newatoms
@@ -2034,7 +2052,8 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        #the images are still found with the vectors of the triclinic box
+        self._box = newbox
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
@@ -2054,7 +2073,7 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
-        ratoms = self.repeat(repeat)
+        ratoms = self.repeat(repeat, scale_box=False)
         anchor = ratoms[0]
 
         nb = []
@@ -2066,7 +2085,7 @@ class System(pc.System):
                 if np.abs(atom.pos[ind[0]]-anchor.pos[ind[0]])< 1E-5:
                     if np.abs(atom.pos[ind[1]]-anchor.pos[ind[1]])< 1E-5:
                         if atom.type == anchor.type:
-                            dist = self.get_distance(anchor, atom)
+                            dist = np.abs(atom.pos[count]-anchor.pos[count])
                             if dist < mindist:
                                 mindist = dist
                                 minatom = atom
-- 
2.43.0


From 17f56b5142215703f0e382432cdea6950951e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 17/67] fix: clusters were not connected across the periodic
 boundary in small systems

---
 src/pyscal/system.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4ebea05..517d4a4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1800,7 +1800,8 @@ void System::harvest_cluster(const int ti, const int clusterindex){
     int neigh;
     for(int i=0; i<atoms[ti].n_neighbors; i++){
         neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
+        //a ghost atom stands for the real atom it is an image of
+        if (atoms[neigh].ghost) neigh = neigh % real_nop;
         if(!atoms[neigh].condition) continue;
         if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
         if (atoms[neigh].belongsto==-1){
@@ -1882,8 +1883,9 @@ void System::get_largest_cluster_atoms(){
             if(atoms[ti].issolid == 1){
                 atoms[ti].issurface = 0;
                 for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                    int neigh = atoms[ti].neighbors[tj];
+                    if (atoms[neigh].ghost) neigh = neigh % real_nop;
+                    if(atoms[neigh].issolid == 0){
                         atoms[ti].issurface = 1;
                         break;
                     }
-- 
2.43.0


From 5014214704bdb7cfc248edda2a8e91ad29b3b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:46 +0000
Subject: [PATCH 18/67] fix: rdf of small systems was normalised without the
 ghost atoms

---
 src/pyscal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9ca9e67..76ef0c3 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -328,10 +328,10 @@ class System(pc.System):
         hist = hist.astype(float)
         r = bin_edges[:-1]
 
-        #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #get box density, distances include the ghost atoms
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
-- 
2.43.0


From 7edeb60a482c1ae5342f200fafac416d53e3a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 19/67] fix: left handed simulation boxes gave a negative
 volume

---
 src/pyscal/core.py    | 2 +-
 src/pyscal/system.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 76ef0c3..9a36e3d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1781,7 +1781,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 517d4a4..ceca1c6 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -923,7 +923,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1124,7 +1124,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1228,7 +1228,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
-- 
2.43.0


From 65dd6e66451e3664e272e71ec5b49900abd33aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 20/67] fix: a failed neighbor search was recorded as
 successful

---
 src/pyscal/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9a36e3d..ba46bac 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -517,8 +517,11 @@ class System(pc.System):
         .. [3] Haeberle, J, Sperl, M, Born, P, arxiv 2019
 
         """
+        if method not in ['cutoff', 'number', 'voronoi']:
+            raise ValueError("method should be cutoff, number or voronoi")
+
         #first reset all neighbors
-        self.reset_allneighbors()
+        self.reset_neighbors()
         self.filter = 0
 
         if filter == 'type':
-- 
2.43.0


From 917e00eaf32a6fce8b04a0df9bbc6ac46167e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 21/67] fix: cell lists gave wrong neighbors in thin and
 triclinic boxes

---
 src/pyscal/system.cpp | 48 +++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ceca1c6..52e6e27 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -494,9 +494,18 @@ void System::set_up_cells(){
       int si,sj,sk, maincell, subcell;
       vector<int> cc;
       //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
+      //the relevant length is the distance between the faces of the box
+      double hx = boxx;
+      double hy = boxy;
+      double hz = boxz;
+      if (triclinic == 1){
+          hx = 1.0/sqrt(rotinv[0][0]*rotinv[0][0] + rotinv[0][1]*rotinv[0][1] + rotinv[0][2]*rotinv[0][2]);
+          hy = 1.0/sqrt(rotinv[1][0]*rotinv[1][0] + rotinv[1][1]*rotinv[1][1] + rotinv[1][2]*rotinv[1][2]);
+          hz = 1.0/sqrt(rotinv[2][0]*rotinv[2][0] + rotinv[2][1]*rotinv[2][1] + rotinv[2][2]*rotinv[2][2]);
+      }
+      nx = max(1, int(hx/neighbordistance));
+      ny = max(1, int(hy/neighbordistance));
+      nz = max(1, int(hz/neighbordistance));
       //now use this to find length of cell in each direction
       double lx = boxx/nx;
       double ly = boxy/ny;
@@ -516,8 +525,10 @@ void System::set_up_cells(){
                       for(int sk=k-1; sk<=k+1; sk++){
                          cc = cell_periodic(si, sj, sk);
                          subcell = cell_index(cc[0], cc[1], cc[2]);
-                         //add this to the list of neighbors
-                         cells[maincell].neighbor_cells.emplace_back(subcell);
+                         //add this to the list of neighbors, but only once
+                         vector<int> &nc = cells[maincell].neighbor_cells;
+                         if (find(nc.begin(), nc.end(), subcell) == nc.end())
+                             nc.emplace_back(subcell);
 
                       }
                   }
@@ -537,7 +548,17 @@ void System::set_up_cells(){
           dx = atoms[ti].posx;
           dy = atoms[ti].posy;
           dz = atoms[ti].posz;
-          
+
+          if (triclinic == 1){
+              //convert to the triclinic system
+              ddx = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
+              ddy = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
+              ddz = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
+              dx = ddx*boxx;
+              dy = ddy*boxy;
+              dz = ddz*boxz;
+          }
+
           //now apply boxdims
           if( abs(dx-0) < 1E-6)
               dx = 0;
@@ -546,17 +567,14 @@ void System::set_up_cells(){
           if( abs(dz-0) < 1E-6)
               dz = 0;
 
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
+          dx -= boxx*floor(dx/boxx);
+          dy -= boxy*floor(dy/boxy);
+          dz -= boxz*floor(dz/boxz);
 
           //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
+          cx = min(int(dx/lx), nx-1);
+          cy = min(int(dy/ly), ny-1);
+          cz = min(int(dz/lz), nz-1);
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
-- 
2.43.0


From 28b22b7bc7001dcba88a3628186377708fc3459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 22/67] fix: more than 300 neighbors of an atom overwrote other
 memory

---
 src/pyscal/system.cpp | 15 +++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 52e6e27..3731a2e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -699,6 +699,7 @@ void System::get_all_neighbors_cells(){
                             continue;
                         }
                         //process_neighbor(ti, tj);
+                        check_neighbor_limit(ti);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                         //weight is set to 1.0, unless manually reset
@@ -713,6 +714,7 @@ void System::get_all_neighbors_cells(){
                         atoms[ti].n_neighbors += 1;
                         atoms[ti].cutoff = neighbordistance;
 
+                        check_neighbor_limit(tj);
                         atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
                         atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
                         //weight is set to 1.0, unless manually reset
@@ -763,6 +765,7 @@ void System::get_all_neighbors_normal(){
                     continue;
                 }
                 //process_neighbor(ti, tj);
+                check_neighbor_limit(ti);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                 //weight is set to 1.0, unless manually reset
@@ -777,6 +780,7 @@ void System::get_all_neighbors_normal(){
                 atoms[ti].n_neighbors += 1;
                 atoms[ti].cutoff = neighbordistance;
 
+                check_neighbor_limit(tj);
                 atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
                 atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
                 //weight is set to 1.0, unless manually reset
@@ -798,6 +802,14 @@ void System::get_all_neighbors_normal(){
 
 }
 
+void System::check_neighbor_limit(int ti){
+    /*
+    The neighbors of an atom are stored in arrays of fixed size
+    */
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS)
+        throw runtime_error("too many neighbors, choose a smaller cutoff");
+}
+
 void System::process_neighbor(int ti, int tj){
     /*
     Calculate all info and add it to list
@@ -811,6 +823,7 @@ void System::process_neighbor(int ti, int tj){
 
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
+    check_neighbor_limit(ti);
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
     atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
     //weight is set to 1.0, unless manually reset
@@ -1294,6 +1307,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                     continue;
                 }
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                check_neighbor_limit(ti);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
                 //weight is set to 1.0, unless manually reset
@@ -2017,6 +2031,7 @@ void System::get_all_neighbors_voronoi(){
                 else if ((filter == 2) && (atoms[ti].type == atoms[nj].type)){
                     continue;
                 }
+                check_neighbor_limit(ti);
                 int nn = atoms[ti].n_neighbors;
                 atoms[ti].neighbors[nn] = nj;
                 atoms[ti].n_neighbors += 1;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..3ba5bcd 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -77,6 +77,7 @@ class System{
         double neighbordistance;
         void get_all_neighbors_normal();
         void process_neighbor(int, int);
+        void check_neighbor_limit(int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
         int get_neighbors_from_temp(int);
-- 
2.43.0


From 42191a24bc7d446bb893383e85efda133b0734a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 23/67] fix: distance between atoms of small systems was not
 periodic in the box

---
 src/pyscal/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ba46bac..a1978f4 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -409,6 +409,17 @@ class System(pc.System):
         -----
         Periodic boundary conditions are assumed by default.
         """
+        if self.actual_box is not None:
+            #the box in use includes ghost atoms, fold with the box of the user
+            box = np.array(self.actual_box)
+            diff = np.array(atom1.pos) - np.array(atom2.pos)
+            scaled = np.dot(diff, np.linalg.inv(box))
+            displacement_vector = list(np.dot(scaled - np.round(scaled), box))
+            distance = np.linalg.norm(displacement_vector)
+            if vector:
+                return distance, displacement_vector
+            return distance
+
         if vector:
             displacement_vector = self.get_absdistance_vector(atom1, atom2)
             return self.get_absdistance(atom1, atom2), displacement_vector
-- 
2.43.0


From 793099d1dcd7fd319e89669f40d7389ffb4316ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 24/67] fix: set_atom overwrote another atom, the location of
 an atom was not its index

---
 src/pyscal/formats/lammps.py | 2 +-
 src/pyscal/system.cpp        | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..21f33d5 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -155,7 +155,7 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
             atom.pos = [x, y, z]
             atom.id = idd
             atom.type = typ
-            atom.loc = count-8
+            atom.loc = count-9
 
             customdict = {}
             #if customkeys need to be read, do it
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3731a2e..006e083 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -126,6 +126,8 @@ void System::set_atoms( vector<Atom> atomitos){
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        //the location is the index in the list of atoms
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
@@ -219,6 +221,9 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
-- 
2.43.0


From 9a7a1ec8227e36c5741bfa8c113b1c1a19962a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 25/67] fix: atom access out of range, and ghost atoms not
 following atoms set or added

---
 src/pyscal/core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index a1978f4..aa004f2 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -190,7 +190,11 @@ class System(pc.System):
         -------
         None
         """
-        self.cadd_atoms(atoms)
+        if self.ghosts_created:
+            #ghost atoms have to be created for the new atoms too
+            self.atoms = self.get_atoms() + list(atoms)
+        else:
+            self.cadd_atoms(atoms)
 
     def read_inputfile(self, filename, format="lammps-dump", compressed = False, customkeys=None):
         """
@@ -261,6 +265,8 @@ class System(pc.System):
         atom : Atom object
             atom object at the queried position.
         """
+        if not 0 <= index < self.ntotal:
+            raise IndexError("there is no atom at index %d"%index)
         atom = self.cget_atom(index)
         return atom
 
@@ -292,6 +298,17 @@ class System(pc.System):
         lead to loss of information.
 
         """
+        if not 0 <= atom.loc < self.natoms:
+            raise IndexError("there is no atom at location %d"%atom.loc)
+
+        #ghost atoms are images, they need to follow
+        shift = np.array(atom.pos) - np.array(self.cget_atom(atom.loc).pos)
+        for i in range(atom.loc + self.natoms, self.ntotal, self.natoms):
+            ghost = self.cget_atom(i)
+            ghost.pos = np.array(ghost.pos) + shift
+            ghost.type = atom.type
+            ghost.condition = atom.condition
+            self.cset_atom(ghost)
         self.cset_atom(atom)
 
 
-- 
2.43.0


From d02f4ec0604595c9857316e615965185a003f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 26/67] fix: adding trajectory slices changed the left operand

---
 src/pyscal/trajectory.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..c59d73d 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,11 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        #the slices that are added should not change
+        total = Timeslice(self.trajectory, self.blocklist)
+        total.trajectories = self.trajectories + ntraj.trajectories
+        total.blocklists = self.blocklists + ntraj.blocklists
+        return total
 
 
     def __radd__(self, ntraj):
-- 
2.43.0


From 107fdefcc8da95222be21220ee3c5df964654c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 27/67] fix: descending iteration over a trajectory was off by
 one

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index c59d73d..1775605 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -377,7 +377,7 @@ class Trajectory:
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
-- 
2.43.0


From 8849bbe96b714f38a86f83c80e8e57627b624212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 28/67] fix: converting a slice to dict discarded blocks loaded
 by the user

---
 src/pyscal/trajectory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 1775605..36b7a49 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -155,9 +155,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
-                data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                if traj.loadlist[x]:
+                    #block was loaded by the user, keep it with its modifications
+                    data.append(traj.data[x])
+                else:
+                    traj.load(x)
+                    data.append(traj.data[x])
+                    traj.unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
-- 
2.43.0


From 2d6194bf6054356846c23c7700911244605a52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 29/67] fix: trajectory blocks with a single atom could not be
 loaded

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 36b7a49..7aef4a1 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -443,7 +443,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
-- 
2.43.0


From eb67cd6ca111a02daa8845227f74edd67d4ceb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 30/67] fix: timestep and box type of loaded trajectory blocks
 were lost in output

---
 src/pyscal/trajectory.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 7aef4a1..cfcd36f 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -487,12 +487,8 @@ class Trajectory:
         """
         dd = self.data[blockno]
 
-        data = []
-        data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
-        data.append("ITEM: NUMBER OF ATOMS\n")
-        data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        #timestep, number of atoms and the type of box are not part of the loaded data
+        data = self.get_block(blockno)[:5]
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From 4fceeb6ecf74879a21cd9a7f6da39073b264c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 31/67] fix: trajectory blocks out of range were accepted

---
 src/pyscal/trajectory.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index cfcd36f..f23e93c 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -281,7 +281,7 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            blocklist = [self._get_blockno(blockno)]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
@@ -391,6 +391,24 @@ class Trajectory:
         else:
             raise ValueError("Unknown method")
 
+    def _get_blockno(self, blockno):
+        """
+        Check the number of a block, negative values count from the end
+
+        Parameters
+        ----------
+        blockno : int
+            number of the block
+
+        Returns
+        -------
+        blockno : int
+            number of the block, starts from 0
+        """
+        if not -self.nblocks <= blockno < self.nblocks:
+            raise IndexError("there is no block %d in the trajectory"%blockno)
+        return blockno % self.nblocks
+
     def get_block(self, blockno):
         """
         Get a block from the file as raw data
@@ -405,8 +423,8 @@ class Trajectory:
         data : list
             list of strings containing data
         """
+        blockno = self._get_blockno(blockno)
         start = blockno*self.blocksize
-        stop = (blockno+1)*self.blocksize
 
         fin = open(self.filename, "rb")
         fin.seek(0)
-- 
2.43.0


From 3ebee69202ac870a0e4df2751f0fe0e76c040079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 32/67] fix: triclinic boxes were written as orthogonal boxes
 to dump files

---
 src/pyscal/formats/lammps.py | 47 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 21f33d5..04747e6 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -188,14 +188,13 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
         b = np.array([tilts[0], yhi-ylo, 0])
         c = np.array([tilts[1], tilts[2], zhi-zlo])
 
-        rot = np.array([a, b, c]).T
-        rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
+        ortho_origin = np.array([xlo, ylo, zlo])
 
-        for atom in atoms:
-            #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+        if not scaled:
+            for atom in atoms:
+                #correct zero of the atomic positions (shift box to origin)
+                dist = np.array(atom.pos) - ortho_origin
+                atom.pos = dist
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
@@ -249,10 +248,19 @@ def write_snap(sys, outfile, compressed = False,
     if customkeys == None:
         customkeys = []
 
-    box = sys.box
-    boxx = np.sqrt(np.sum(np.array(box[0])**2))
-    boxy = np.sqrt(np.sum(np.array(box[1])**2))
-    boxz = np.sqrt(np.sum(np.array(box[2])**2))
+    #dump files need box vectors with a along x, and b in the xy plane
+    q, r = np.linalg.qr(np.array(sys.box).T)
+    signs = np.where(np.diag(r) < 0, -1.0, 1.0)
+    rot = q*signs
+    if np.allclose(rot, np.eye(3), atol=1E-6):
+        rot = np.eye(3)
+        box = np.array(sys.box)
+    elif np.linalg.det(rot) < 0:
+        raise ValueError("left handed boxes cannot be written in lammps-dump format")
+    else:
+        box = np.dot(np.array(sys.box), rot)
+    tilts = [box[1][0], box[2][0], box[2][1]]
+    triclinic = np.max(np.abs(tilts)) > 1E-6
 
     atoms = sys.atoms
 
@@ -284,10 +292,17 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    if triclinic:
+        xy, xz, yz = tilts
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), box[0][0]+max(0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0, yz), box[1][1]+max(0, yz), xz))
+        dump.write("%f %f %f\n" % (0, box[2][2], yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, box[0][0]))
+        dump.write("%f %f\n" % (0, box[1][1]))
+        dump.write("%f %f\n" % (0, box[2][2]))
 
     #now write header
     if len(customkeys) > 0:
@@ -299,7 +314,7 @@ def write_snap(sys, outfile, compressed = False,
     dump.write(title_str)
 
     for cc, atom in enumerate(atoms):
-        pos = atom.pos
+        pos = np.dot(atom.pos, rot)
         if len(customkeys) > 0:
             cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
             atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
-- 
2.43.0


From ebc693347a941a61fc3498a0fa408887d08df6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 33/67] fix: species used for a conversion to ase were stored
 in the system

---
 src/pyscal/formats/ase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..3d34b24 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -108,8 +108,8 @@ def convert_snap(sys, species=None):
         #now assign the species to custom
         
         for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+            #custom is shared with the atoms of the system, which should not change
+            atom.custom = dict(atom.custom, species=species[int(atom.type-1)])
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
-- 
2.43.0


From 9b123c8f23ff80e09e482c0eb86b66d4d438e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 34/67] fix: files of other formats supported by ase were
 rejected after being read or written

---
 src/pyscal/traj_process.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..4c3d2f5 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,7 +66,6 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
@@ -129,7 +128,6 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
-- 
2.43.0


From 938a9258f9400113b80c2de50e054123ac09882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 35/67] fix: remapping atoms lost the ghost atoms and was wrong
 for triclinic boxes

---
 src/pyscal/core.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index aa004f2..6a5ec30 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2192,35 +2192,23 @@ class System(pc.System):
             Tolerance for removing atomic positions. Defaullt 0.1
 
         """
-        box = self.box
+        box = np.array(self.box)
+        boxinv = np.linalg.inv(box)
         atoms = self.atoms
-        self.box = box
         newatoms = []
 
         for atom in atoms:
-            pos = atom.pos
-            if pos[0] < 0:
-                pos[0] = pos[0]+box[0][0]
-            elif pos[0] >= box[0][0]:
-                pos[0] = pos[0]-box[0][0]
-            if pos[1] < 0:
-                pos[1] = pos[1]+box[1][1]
-            elif pos[1] >= box[1][1]:
-                pos[1] = pos[1]-box[1][1]
-            if pos[2] < 0:
-                pos[2] = pos[2]+box[2][2]
-            elif pos[2] >= box[2][2]:
-                pos[2] = pos[2]-box[2][2]
-            atom.pos = pos
-            
+            scaled = np.dot(atom.pos, boxinv)
+            shift = np.floor(scaled)
+            if np.any(shift != 0):
+                atom.pos = atom.pos - np.dot(shift, box)
+
         if remove_atoms:
             temp = []
             for atom in atoms:
-                pos = atom.pos
-                if (0 <= pos[0] < box[0][0]):
-                    if (0 <= pos[1] < box[1][1]):
-                        if (0 <= pos[2] < box[2][2]):
-                            temp.append(atom)
+                scaled = np.dot(atom.pos, boxinv)
+                if np.all(scaled >= 0) and np.all(scaled < 1):
+                    temp.append(atom)
             atoms = temp
         
         if remove_images:
@@ -2235,13 +2223,13 @@ class System(pc.System):
                 if count not in pairs:
                     newatoms.append(atom)
             if assign:
-                self.set_atoms(newatoms)
+                self.atoms = newatoms
                 return None
             else:
                 return newatoms
 
         if assign:
-            self.set_atoms(atoms)
+            self.atoms = atoms
             return None
         else:
             return atoms
-- 
2.43.0


From c959e6b0ab2379b03f8e586da1e607fbd5ae366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 36/67] fix: tetrahedral voids failed for small systems and
 used a wrong box

---
 src/pyscal/misc.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..18507a9 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -134,10 +134,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    boxinv = np.linalg.inv(np.array(sys.box))
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
@@ -146,7 +143,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
         if atom.vorovector[1] == 4:
             #first to prevent small cells we need to filter
             neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            dists = np.array([sys.get_distance(atom, sys.get_atom(x)) for x in neighs])
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
@@ -156,8 +153,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
             if mindistcount == 4:
                 volumes.append(atom.volume)
                 if direct_coordinates:
-                    p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(list(np.dot(atom.pos, boxinv)))
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From d12b7fabf3a10093d9674bb726cf63e5d64b986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 37/67] fix: number of solid bonds of an atom was hidden by the
 bonds of cna

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..09cf374 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -417,7 +417,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("cna_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0


From dbe3fb6477ecebeb979239e467ec60722e27cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 38/67] fix: q_lm components of negative m were not the complex
 conjugates

---
 src/pyscal/system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 006e083..f9103fd 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1437,8 +1437,9 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     imgYLM = 0.0;
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
+        //the complex conjugate is needed
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From 83c73f4986da4458c46fa3cc1218a746ddc4253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:21 +0000
Subject: [PATCH 39/67] fix: distances of atoms more than one box apart were
 not folded into the box

---
 src/pyscal/system.cpp | 93 +++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 48 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f9103fd..3285673 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -268,12 +268,12 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -296,12 +296,12 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
     }
     else{
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
         abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
     }
     return abs;
@@ -329,12 +329,12 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -358,12 +358,12 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
         abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
     }
 
@@ -393,12 +393,12 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -419,12 +419,12 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        if (diffx> boxx/2.0) {diffx-=boxx*ceil(diffx/boxx-0.5);};
+        if (diffx<-boxx/2.0) {diffx+=boxx*ceil(-diffx/boxx-0.5);};
+        if (diffy> boxy/2.0) {diffy-=boxy*ceil(diffy/boxy-0.5);};
+        if (diffy<-boxy/2.0) {diffy+=boxy*ceil(-diffy/boxy-0.5);};
+        if (diffz> boxz/2.0) {diffz-=boxz*ceil(diffz/boxz-0.5);};
+        if (diffz<-boxz/2.0) {diffz+=boxz*ceil(-diffz/boxz-0.5);};
 
     }
 
@@ -612,12 +612,12 @@ vector<double> System::remap_atom(vector<double> pos){
 
         //now check pbc
         //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
+        if (dx> boxx/2.0) {dx-=boxx*ceil(dx/boxx-0.5);};
+        if (dx<-boxx/2.0) {dx+=boxx*ceil(-dx/boxx-0.5);};
+        if (dy> boxy/2.0) {dy-=boxy*ceil(dy/boxy-0.5);};
+        if (dy<-boxy/2.0) {dy+=boxy*ceil(-dy/boxy-0.5);};
+        if (dz> boxz/2.0) {dz-=boxz*ceil(dz/boxz-0.5);};
+        if (dz<-boxz/2.0) {dz+=boxz*ceil(-dz/boxz-0.5);};
 
         //now divide by box vals - scale down the size
         dx = dx/boxx;
@@ -635,12 +635,9 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az;
     }
     else{
-        if (dx < 0) dx+=boxx;
-        else if (dx >= boxx) dx-=boxx;
-        if (dy < 0) dy+=boxy;
-        else if (dy >= boxy) dy-=boxy;
-        if (dz < 0) dz+=boxz;
-        else if (dz >= boxz) dz-=boxz;
+        if ((dx < 0) || (dx >= boxx)) dx-=boxx*floor(dx/boxx);
+        if ((dy < 0) || (dy >= boxy)) dy-=boxy*floor(dy/boxy);
+        if ((dz < 0) || (dz >= boxz)) dz-=boxz*floor(dz/boxz);
     }
     vector<double> rpos;
     rpos.emplace_back(dx);
-- 
2.43.0


From 67ef2b09b4e758ec457dec3729f124247d068252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 40/67] fix: adaptive cutoff missed neighbors beyond the
 initial guess distance

---
 src/pyscal/system.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3285673..e65b8cc 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1282,7 +1282,8 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
 
     //end of callstructural competition
     //subatoms would now be populated
-    //now starts the main loop
+    //all candidates within the cutoff are needed, the guess distance has to include it
+    double maxcut = 0;
     for (int ti=0; ti<nop; ti++){
         //check if its zero size
         if (atoms[ti].temp_neighbors.size() < nlimit){
@@ -1291,6 +1292,22 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
 
         sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
 
+        summ = 0;
+        for(int i=0; i<nlimit; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+        }
+        maxcut = max(maxcut, padding*(1.0/float(nlimit))*summ);
+    }
+    if (maxcut > guessdist){
+        for (int ti=0; ti<nop; ti++){
+            atoms[ti].temp_neighbors.clear();
+        }
+        return get_all_neighbors_adaptive(1.01*prefactor*maxcut/guessdist, nlimit, padding);
+    }
+
+    //now starts the main loop
+    for (int ti=0; ti<nop; ti++){
+
         summ = 0;
         for(int i=0; i<nlimit; i++){
             summ += atoms[ti].temp_neighbors[i].dist;
-- 
2.43.0


From 6200dd858184f7d8a9b65c2fda6e4381fa6698d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 41/67] fix: voronoi cells of triclinic boxes were those of a
 cuboid around the box

---
 src/pyscal/core.py    | 12 -------
 src/pyscal/system.cpp | 77 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6a5ec30..20bfc58 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -613,20 +613,8 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            if self.triclinic and not self.ghosts_created:
-                atoms  = self.get_atoms()
-                atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                self.set_atoms(atoms)
-
-            #copy the simulation cell
-            backupbox = self._box.copy()
-            if self.triclinic:
-                self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
-            #replace box
-            self._box = backupbox
-
         self.neighbors_found = True
 
     def find_diamond_neighbors(self):
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index e65b8cc..9df0513 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1979,21 +1979,24 @@ void System::get_all_neighbors_voronoi(){
     double weightsum;
     vector <double> pos;
 
-    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
-    for(int i=0; i<nop; i++){
-        pos = atoms[i].gx();
-        pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
-    }
-    pcon.guess_optimal(tnx,tny,tnz);
-    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
-    pcon.setup(con);
-
-    c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
-            ti=cl.pid();
+    //orthonormal axes: the first along the first box vector, the second in the plane of the first two
+    double axes[3][3];
+    double tilt[3][3];
+    if (triclinic == 1){
+        for(int k=0; k<3; k++){
+            for(int li=0; li<3; li++) axes[k][li] = rot[li][k];
+            for(int m=0; m<k; m++){
+                tilt[k][m] = axes[m][0]*rot[0][k] + axes[m][1]*rot[1][k] + axes[m][2]*rot[2][k];
+                for(int li=0; li<3; li++) axes[k][li] -= tilt[k][m]*axes[m][li];
+            }
+            tilt[k][k] = sqrt(axes[k][0]*axes[k][0] + axes[k][1]*axes[k][1] + axes[k][2]*axes[k][2]);
+            for(int li=0; li<3; li++) axes[k][li] /= tilt[k][k];
+        }
+    }
+
+    //store the information of a voronoi cell
+    auto store_cell = [&](int pid){
+            ti=pid;
             c.face_areas(facearea);
             c.neighbors(neigh);
             c.face_orders(f_vert);
@@ -2001,6 +2004,16 @@ void System::get_all_neighbors_voronoi(){
             c.vertices(x,y,z,v);
             c.face_perimeters(faceperimeters);
 
+            //go back from the axes to the original directions
+            if (triclinic == 1){
+                for(int vi=0; vi<int(v.size()); vi+=3){
+                    x = v[vi];
+                    y = v[vi+1];
+                    z = v[vi+2];
+                    for(int li=0; li<3; li++) v[vi+li] = x*axes[0][li] + y*axes[1][li] + z*axes[2][li];
+                }
+            }
+
             vol = c.volume();
             tsum = 0;
             vector <double> dummyweights;
@@ -2071,7 +2084,39 @@ void System::get_all_neighbors_voronoi(){
 
             }
 
-    } while (cl.inc());
+    };
+
+    if (triclinic == 1){
+        double scale = cbrt(nop/(optimal_particles*tilt[0][0]*tilt[1][1]*tilt[2][2]));
+        container_periodic con(tilt[0][0], tilt[1][0], tilt[1][1], tilt[2][0], tilt[2][1], tilt[2][2],
+            int(tilt[0][0]*scale)+1, int(tilt[1][1]*scale)+1, int(tilt[2][2]*scale)+1, 8);
+        for(int i=0; i<nop; i++){
+            pos = atoms[i].gx();
+            con.put(i, pos[0]*axes[0][0] + pos[1]*axes[0][1] + pos[2]*axes[0][2],
+                       pos[0]*axes[1][0] + pos[1]*axes[1][1] + pos[2]*axes[1][2],
+                       pos[0]*axes[2][0] + pos[1]*axes[2][1] + pos[2]*axes[2][2]);
+        }
+        c_loop_all_periodic cl(con);
+        if (cl.start()) do if(con.compute_cell(c,cl)) store_cell(cl.pid());
+        while (cl.inc());
+    }
+    else{
+        //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
+        pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
+        for(int i=0; i<nop; i++){
+            pos = atoms[i].gx();
+            pos = remap_atom(pos);
+            pcon.put(i, pos[0], pos[1], pos[2]);
+        }
+        pcon.guess_optimal(tnx,tny,tnz);
+        //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
+        container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+        pcon.setup(con);
+
+        c_loop_all cl(con);
+        if (cl.start()) do if(con.compute_cell(c,cl)) store_cell(cl.pid());
+        while (cl.inc());
+    }
 
 
     //now calculate the averged volume
-- 
2.43.0


From d87a96e153b1117ba848118ce5760135b22bf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 42/67] fix: voronoi vertices were shifted by uninitialised
 values

---
 src/pyscal/system.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9df0513..9e86326 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1968,7 +1968,7 @@ void System::get_all_neighbors_voronoi(){
     int i;
     int ti,id,tnx,tny,tnz, nverts;
 
-    double rx,ry,rz,tsum, fa, x, y, z, vol;
+    double rx,ry,rz,tsum, fa, vol;
     vector<int> neigh,f_vert, vert_nos;
     vector<double> facearea, v, faceperimeters;
     voronoicell_neighbor c;
@@ -2001,15 +2001,15 @@ void System::get_all_neighbors_voronoi(){
             c.neighbors(neigh);
             c.face_orders(f_vert);
             c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
+            c.vertices(v);
             c.face_perimeters(faceperimeters);
 
             //go back from the axes to the original directions
             if (triclinic == 1){
                 for(int vi=0; vi<int(v.size()); vi+=3){
-                    x = v[vi];
-                    y = v[vi+1];
-                    z = v[vi+2];
+                    double x = v[vi];
+                    double y = v[vi+1];
+                    double z = v[vi+2];
                     for(int li=0; li<3; li++) v[vi+li] = x*axes[0][li] + y*axes[1][li] + z*axes[2][li];
                 }
             }
-- 
2.43.0


From 019bfd1057a0c3e07d4d05ecbaad1b313bd260fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 43/67] fix: clusters depended on the order of atoms and on the
 cutoff of earlier clusterings

---
 src/pyscal/system.cpp | 37 ++++++++++++++++++++++---------------
 src/pyscal/system.h   |  2 +-
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9e86326..abb80b5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1847,33 +1847,40 @@ void System::find_clusters(double clustercutoff){
 
 //we have to test with a recursive algorithm - to match the values that is presented
 //in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
+void System::harvest_cluster(const int ti, const int clusterindex, const vector<vector<int>> &links){
 
     int neigh;
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = atoms[ti].neighbors[i];
-        //a ghost atom stands for the real atom it is an image of
-        if (atoms[neigh].ghost) neigh = neigh % real_nop;
-        if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
+    for(int i=0; i<links[ti].size(); i++){
+        neigh = links[ti][i];
         if (atoms[neigh].belongsto==-1){
             atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
+            harvest_cluster(neigh, clusterindex, links);
         }
     }
 }
 
 void System::find_clusters_recursive(double clustercutoff){
 
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
-    }
-  }
-
     int clusterindex;
     clusterindex = 0;
 
+    //two atoms are linked if one of them is a neighbor of the other, which does
+    //not need to be mutual for all neighbor methods
+    vector<vector<int>> links(real_nop);
+    for(int ti=0; ti<real_nop;ti++){
+        if(!atoms[ti].condition) continue;
+        double cutoff = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            int neigh = atoms[ti].neighbors[i];
+            //a ghost atom stands for the real atom it is an image of
+            if (atoms[neigh].ghost) neigh = neigh % real_nop;
+            if(!atoms[neigh].condition) continue;
+            if(!(atoms[ti].neighbordist[i] <= cutoff)) continue;
+            links[ti].emplace_back(neigh);
+            links[neigh].emplace_back(ti);
+        }
+    }
+
     //reset belongsto indices
     for(int ti=0; ti<real_nop;ti++){
         atoms[ti].belongsto = -1;
@@ -1885,7 +1892,7 @@ void System::find_clusters_recursive(double clustercutoff){
         if (atoms[ti].belongsto==-1){
             clusterindex += 1;
             atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
+            harvest_cluster(ti, clusterindex, links);
         }
 
     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 3ba5bcd..bf8000a 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -141,7 +141,7 @@ class System{
         int comparecriteria;
         void find_solid_atoms();
         void find_clusters(double);
-        void harvest_cluster(const int, const int);
+        void harvest_cluster(const int, const int, const vector<vector<int>> &);
         void find_clusters_recursive(double);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
-- 
2.43.0


From 63edf38fae74ee98bd62ccb7170ffe892f8e702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 44/67] fix: clustering left a condition that changed later
 order parameters

---
 src/pyscal/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 20bfc58..5029dbc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1089,6 +1089,8 @@ class System(pc.System):
         
         #now loop
         atoms = self.atoms
+        #the condition is shared with calculate_q, it is only borrowed here
+        oldconditions = [atom.condition for atom in atoms]
 
         if isatomattr:
             for atom in atoms:
@@ -1101,6 +1103,11 @@ class System(pc.System):
         self._update_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
+        atoms = self.atoms
+        for atom, oldcondition in zip(atoms, oldconditions):
+            atom.condition = oldcondition
+        self._update_atoms(atoms)
+
         #done!
         lc = self.find_largest_cluster()
         #pcs.System.get_largest_cluster_atoms(self)
-- 
2.43.0


From 0f3eb446ffe1166d262f7d1952d574b62f619c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 45/67] fix: common neighbor analysis of boxes of a few
 interatomic distances

Bonds between the neighbors of an atom were decided by the distance between
their closest images. In a box which is thin in one direction (bcc, three unit
cells wide) these are not the neighbors of the atom, and bonds which do not
exist were counted. Use the distance between the neighbors as seen from the
atom.
---
 src/pyscal/system.cpp | 33 +++++++++++++++++++++++++++------
 src/pyscal/system.h   |  1 +
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index abb80b5..04e295f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2271,12 +2271,24 @@ void System::get_acna_neighbors(int style){
     }
 }
 
+double System::get_neighbor_separation(int ti, int i, int j){
+    /*
+    Distance between the neighbors i and j of atom ti, as they are seen
+    from ti. In a box of a few interatomic distances, the distance between
+    the closest images of the two atoms can be smaller.
+    */
+    double dx = atoms[ti].n_diffx[i] - atoms[ti].n_diffx[j];
+    double dy = atoms[ti].n_diffy[i] - atoms[ti].n_diffy[j];
+    double dz = atoms[ti].n_diffz[i] - atoms[ti].n_diffz[j];
+    return sqrt(dx*dx + dy*dy + dz*dz);
+}
+
 void System::get_common_neighbors(int ti){
     /*
     Get common neighbors between an atom and its neighbors
     */
     int m, n;
-    double d, dx, dy, dz;
+    double d;
 
     //we have to rest a couple of things first
     //cna vector
@@ -2297,7 +2309,7 @@ void System::get_common_neighbors(int ti){
         m = atoms[ti].neighbors[i];
         for(int j=i+1; j<atoms[ti].n_neighbors; j++){
             n = atoms[ti].neighbors[j];
-            d = get_abs_distance(m, n, dx, dy, dz);
+            d = get_neighbor_separation(ti, i, j);
             if (d <= atoms[ti].cutoff){
                 atoms[ti].cna[i][0]++;
                 atoms[ti].common[i].emplace_back(n);
@@ -2314,7 +2326,9 @@ void System::get_common_bonds(int ti){
     Last two steps for CNA analysis
     */
     int c1, c2, maxbonds, minbonds;
-    double d, dx, dy, dz;
+    double d;
+    //positions of the common neighbors in the neighbor list
+    vector<int> slots;
 
     //first we clear the bonds array
     atoms[ti].bonds.clear();
@@ -2322,6 +2336,13 @@ void System::get_common_bonds(int ti){
 
     //start loop
     for(int k=0; k<atoms[ti].n_neighbors; k++){
+        slots.clear();
+        for(int j=0; j<atoms[ti].n_neighbors; j++){
+            if (j == k) continue;
+            if (get_neighbor_separation(ti, k, j) <= atoms[ti].cutoff){
+                slots.emplace_back(j);
+            }
+        }
         //clear bonds first
         for(int l=0; l<atoms[ti].cna[k][0]; l++){
             atoms[ti].bonds[k].emplace_back(0);
@@ -2329,9 +2350,9 @@ void System::get_common_bonds(int ti){
         //now start proper loop
         for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
             for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
-                c1 = atoms[ti].common[k][l];
-                c2 = atoms[ti].common[k][m];
-                d = get_abs_distance(c1, c2, dx, dy, dz);
+                c1 = slots[l];
+                c2 = slots[m];
+                d = get_neighbor_separation(ti, c1, c2);
                 if(d <= atoms[ti].cutoff){
                     atoms[ti].cna[k][1]++;
                     atoms[ti].bonds[k][l]++;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index bf8000a..59289b6 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -165,6 +165,7 @@ class System{
         void identify_cndia();
         void get_cna_neighbors(int);
         void get_acna_neighbors(int);
+        double get_neighbor_separation(int, int, int);
         void get_common_neighbors(int);
         void get_common_bonds(int);
         void identify_cn12();
-- 
2.43.0


From 3108e7f1b795fac61bb1f5ab7fd59cadf6ce43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:50 +0000
Subject: [PATCH 46/67] fix: entropy was not a number where the distribution
 function vanishes

Far from every neighbor (a narrow broadening, distances in other units) the
broadened distribution function underflows to zero, and 0*log(0) made the
entropy of the atom NaN.
---
 src/pyscal/atom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 93f9622..c82d3fc 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -456,7 +456,9 @@ double Atom::gmr(double r)
 double Atom::entropy_integrand(double r)
 {
         double g = gmr(r);
-        return ((g*log(g)-g +1.00)*r*r);
+        //g*log(g) vanishes with g
+        double glogg = (g > 0) ? g*log(g) : 0.00;
+        return ((glogg-g +1.00)*r*r);
 }
 
 
-- 
2.43.0


From 0823961dbb410e423b79b8f8691315cf2d5b4557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:24 +0000
Subject: [PATCH 47/67] fix: boxes whose components add up to zero were taken
 for missing

With box vectors along negative directions, or tilted ones, the sum of the
components can vanish, and atoms of small systems were refused.
---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5029dbc..52a20f6 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -162,7 +162,7 @@ class System(pc.System):
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
 
-            if np.sum(self.box) == 0:
+            if np.sum(np.abs(self.box)) == 0:
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
 
-- 
2.43.0


From 4167946a255307fb1a6c078eec8de54c21846d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 48/67] fix: unknown neighbor filters were ignored

---
 src/pyscal/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 52a20f6..b9157a6 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -547,6 +547,8 @@ class System(pc.System):
         """
         if method not in ['cutoff', 'number', 'voronoi']:
             raise ValueError("method should be cutoff, number or voronoi")
+        if filter not in [None, 'type', 'type_r']:
+            raise ValueError("filter should be type or type_r")
 
         #first reset all neighbors
         self.reset_neighbors()
-- 
2.43.0


From 58730f18f3e05af9a60e2d8692e073f9477caec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 49/67] fix: a refused list of atoms or box left an
 inconsistent system

In small systems the box was reset to the one without ghost atoms before the
new atoms failed, so that the ghost atoms were used with the wrong box. A box
with a vector of zero length was stored before it was refused.
---
 src/pyscal/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b9157a6..b9545a5 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,6 +109,9 @@ class System(pc.System):
         """
         Box setter 
         """
+        if np.any(np.linalg.norm(np.array(userbox, dtype=float), axis=1) == 0):
+            raise ValueError("The length of a box vector cannot be zero")
+
         #ghost atoms belong to the earlier box, they need to be recreated
         atoms = self.get_atoms() if self.ghosts_created else None
         self._assign_box(userbox)
@@ -148,6 +151,12 @@ class System(pc.System):
         """
         Set atoms
         """
+        #nothing should be changed if the atoms cannot be used
+        if len(atoms) == 0:
+            raise ValueError("At least one atom is needed")
+        if not all(isinstance(atom, Atom) for atom in atoms):
+            raise TypeError("atoms should be a list of Atom objects")
+
         if self.actual_box is not None:
             #existing ghost atoms are dropped, go back to the box without them
             self._assign_box(self.actual_box)
-- 
2.43.0


From 20167657b2eb9538f44abde9ef53dd192464ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 50/67] fix: disorder was calculated from the order parameters
 of earlier neighbors

Without a preceding calculate_q of the same l, the disorder was zero, or that
of the neighbors for which q was last calculated.
---
 src/pyscal/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b9545a5..62ce2ab 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1482,6 +1482,8 @@ class System(pc.System):
         else:
             raise ValueError("q values should be between 2-12")
 
+        #the values have to belong to the current neighbors
+        self.ccalculate_q([q])
         self.ccalculate_disorder()
 
         if averaged:
-- 
2.43.0


From 403a59e519ac6c7a3e62ad23ccb8c67af22f9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 51/67] fix: boxes which are not three vectors of three
 components are refused

A two by two box was accepted, and memory beyond it was used as box.
---
 src/pyscal/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 62ce2ab..13c3bcc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,6 +109,8 @@ class System(pc.System):
         """
         Box setter 
         """
+        if np.shape(userbox) != (3, 3):
+            raise ValueError("A box needs three vectors with three components each")
         if np.any(np.linalg.norm(np.array(userbox, dtype=float), axis=1) == 0):
             raise ValueError("The length of a box vector cannot be zero")
 
-- 
2.43.0


From 12ae57dd2b7e5ef803172f8a4286d8f2b209d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 52/67] fix: atoms on the faces of the box are not removed when
 remapping

A remapped position can be on or outside of the face by rounding.
---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 13c3bcc..b967edc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2217,7 +2217,8 @@ class System(pc.System):
             temp = []
             for atom in atoms:
                 scaled = np.dot(atom.pos, boxinv)
-                if np.all(scaled >= 0) and np.all(scaled < 1):
+                #positions on a face can be outside by rounding
+                if np.all(scaled >= -1E-8) and np.all(scaled < 1 + 1E-8):
                     temp.append(atom)
             atoms = temp
         
-- 
2.43.0


From d31ebc5f87000d4bc8c52a195dbbc05007e6e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 53/67] fix: cubic boxes are complete and periodic

Atoms on the faces were lost or doubled by rounding, atoms above each other
were taken for a lattice vector apart, and boxes which the repeated cells do
not fill were returned.
---
 src/pyscal/core.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b967edc..c174325 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2114,36 +2114,56 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
+        box = np.array(self.box)
+        boxinv = np.linalg.inv(box)
+        positions = np.array([atom.pos for atom in self.atoms])
+        types = np.array([atom.type for atom in self.atoms])
+
+        def is_translation(shift):
+            #the crystal should be the same after it is shifted
+            for pos, typ in zip(positions, types):
+                scaled = np.dot(pos + shift - positions[types==typ], boxinv)
+                dists = np.linalg.norm(np.dot(scaled - np.round(scaled), box), axis=1)
+                if np.min(dists) > 1E-4:
+                    return False
+            return True
+
         ratoms = self.repeat(repeat, scale_box=False)
         anchor = ratoms[0]
 
         nb = []
 
         for count, ind in enumerate([[1, 2], [0, 2], [0, 1]]): 
-            mindist = 10000
-            minatom = None
+            candidates = []
             for atom in ratoms[1:]:
                 if np.abs(atom.pos[ind[0]]-anchor.pos[ind[0]])< 1E-5:
                     if np.abs(atom.pos[ind[1]]-anchor.pos[ind[1]])< 1E-5:
                         if atom.type == anchor.type:
-                            dist = np.abs(atom.pos[count]-anchor.pos[count])
-                            if dist < mindist:
-                                mindist = dist
-                                minatom = atom
+                            candidates.append(atom)
+            candidates.sort(key=lambda x: np.abs(x.pos[count]-anchor.pos[count]))
+            minatom = None
+            for atom in candidates:
+                #not all atoms above each other are a lattice vector apart
+                if is_translation(np.array(atom.pos)-np.array(anchor.pos)):
+                    minatom = atom
+                    break
             if minatom is None:
                 raise ValueError("Cubic box cound not be found, try increasing repeat")
             lo = min(anchor.pos[count], minatom.pos[count])
             hi = max(anchor.pos[count], minatom.pos[count])
             nb.append([lo, hi])
 
-        #collect atoms
+        #collect atoms, those on the lower faces should not be lost by rounding
         collectedatoms = []
         for atom in ratoms:
             pos = atom.pos
-            if (nb[0][0] <= pos[0] < nb[0][1]):
-                if (nb[1][0] <= pos[1] < nb[1][1]):
-                    if (nb[2][0] <= pos[2] < nb[2][1]):
-                        collectedatoms.append(atom)
+            if all(nb[i][0] - 1E-5 <= pos[i] < nb[i][1] - 1E-5 for i in range(3)):
+                collectedatoms.append(atom)
+
+        #the repeated cells should fill the box
+        volume = np.prod([hi - lo for lo, hi in nb])
+        if len(collectedatoms) != np.round(len(positions)*volume/np.abs(np.linalg.det(box))):
+            raise ValueError("Cubic box could not be filled, try increasing repeat")
 
         #remap atoms to box
         for atom in collectedatoms:
-- 
2.43.0


From 0aa70806f50d524321c9a460b138d19313c14db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 54/67] fix: the compressed option is respected for all file
 formats

It was ignored when reading and writing formats other than lammps-dump.
---
 src/pyscal/formats/vasp.py |  6 +++++-
 src/pyscal/traj_process.py | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/formats/vasp.py b/src/pyscal/formats/vasp.py
index ff42399..35d2b46 100644
--- a/src/pyscal/formats/vasp.py
+++ b/src/pyscal/formats/vasp.py
@@ -38,7 +38,11 @@ def read_snap(infile, compressed = False):
     >>> atoms, box = read_poscar('POSCAR.dat', compressed=True)
 
     """
-    aseobj = read(infile, format="vasp")
+    if compressed:
+        with gzip.open(infile, 'rt') as fin:
+            aseobj = read(fin, format="vasp")
+    else:
+        aseobj = read(infile, format="vasp")
     atoms, box = ptase.read_snap(aseobj)
     return atoms, box
 
diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index 4c3d2f5..05bbb7d 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -64,7 +64,11 @@ def read_file(filename, format="lammps-dump",
     else:
         try:
             #try to use ASE backend
-            aseobject = read(filename, format=format)
+            if compressed:
+                with gzip.open(filename, 'rt') as fin:
+                    aseobject = read(fin, format=format)
+            else:
+                aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
         except:
             raise TypeError("format recieved an unknown option %s"%format)
@@ -131,6 +135,14 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
+    if compressed and format != 'lammps-dump':
+        with open(outfile, 'rb') as fin:
+            content = fin.read()
+        #files with a `.gz` extension can be compressed already
+        if content[:2] != b'\x1f\x8b':
+            with gzip.open(outfile, 'wb') as fout:
+                fout.write(content)
+
 
 def split_trajectory(infile, format='lammps-dump', compressed=False):
     """
-- 
2.43.0


From 4988f747b49eb98f6d7db5f0208e80ceb51a737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:42 +0000
Subject: [PATCH 55/67] fix: a single custom column can be given as name and
 list of values

As documented; the name was split into letters and the list failed with an
IndexError.
---
 src/pyscal/formats/lammps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 04747e6..26b16cc 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -247,6 +247,8 @@ def write_snap(sys, outfile, compressed = False,
     """
     if customkeys == None:
         customkeys = []
+    elif isinstance(customkeys, str):
+        customkeys = [customkeys]
 
     #dump files need box vectors with a along x, and b in the xy plane
     q, r = np.linalg.qr(np.array(sys.box).T)
@@ -268,12 +270,15 @@ def write_snap(sys, outfile, compressed = False,
         if customvals is None:
             cvals = [sys.get_custom(atom, customkeys) for atom in atoms]
         else:
+            #a single column can also be a list of values
+            if len(customkeys) == 1 and np.ndim(customvals) == 1:
+                customvals = [[val] for val in customvals]
             #first check if dim is equal to keys dim
             shape = np.array(customvals).shape
             rqdshape = (len(atoms), len(customkeys))
             if shape != rqdshape:
-                raise ValueError("Customvals should be of shape natoms x ncustomkeys. Found %d-%d, should be %d-%d"%(shape[0], 
-                    shape[1], rqdshape[0], rqdshape[1]))
+                raise ValueError("Customvals should be of shape natoms x ncustomkeys. Found %s, should be %d-%d"%("-".join(map(str, shape)), 
+                    rqdshape[0], rqdshape[1]))
             cvals = customvals
 
     #open files for writing
-- 
2.43.0


From 387024485bf87eb5a59e8156ddda13c5b2b5d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 56/67] fix: empty slices of a trajectory can be printed

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index f23e93c..0dfbd63 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -80,7 +80,7 @@ class Timeslice:
         """
         String of the class
         """
-        blockstring = ["%d-%d"%(x[0], x[-1]) for x in self.blocklists]
+        blockstring = ["%d-%d"%(x[0], x[-1]) for x in self.blocklists if len(x) > 0]
         blockstring = "/".join(blockstring)
 
         data = "Trajectory slice\n %s\n natoms=%d\n"%(blockstring, self.trajectory.natoms)
-- 
2.43.0


From 0b17c14072c2add4616682fa51834fad47e3ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 57/67] fix: incomplete time slices at the end of a file are
 not taken as complete

---
 src/pyscal/formats/lammps.py | 7 ++++++-
 src/pyscal/trajectory.py     | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 26b16cc..3083583 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -93,6 +93,7 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     if customlength > 0:
         customread = True
 
+    natoms = -1
     nblock = 0
     for count, line in enumerate(f):
         #print(count, line)
@@ -170,6 +171,9 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     if not islist:
         f.close()
 
+    if len(atoms) != natoms:
+        raise ValueError("the file does not contain a complete time slice")
+
     if triclinic:
         #process triclinic box
         amin = min([0.0, tilts[0], tilts[1] ,tilts[0]+tilts[1]])
@@ -389,7 +393,8 @@ def split_snaps(infile, compressed = False):
         elif(count<nblock):
             lines.append(line)
 
-        else:
+        #the last line of a slice that is still being written is not complete
+        elif line.endswith("\n"):
             lines.append(line)
             snaps.append(ff)
             fout = open(ff,'w')
diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 0dfbd63..e067203 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -318,6 +318,9 @@ class Trajectory:
         offset = 0
         nlines = 0
         for line in open(self.filename, 'rb'):
+            #the last line of a file that is still being written is not complete
+            if not line.endswith(b"\n"):
+                break
             line_offset.append(offset)
             offset += len(line)
             nlines += 1
-- 
2.43.0


From fad86ebd2dccc4d072f3b9bdb80499d69633b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 58/67] fix: refuse positions, boxes, q values and neighbors
 that would be read or written outside of the arrays

---
 src/pyscal/atom.cpp   | 43 ++++++++++++++++++++++++++++++++++++++++---
 src/pyscal/core.py    |  2 ++
 src/pyscal/system.cpp | 40 ++++++++++++++++++++++++++++++++++------
 src/pyscal/system.h   |  2 ++
 4 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index c82d3fc..76154ee 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -13,9 +13,7 @@
 //-------------------------------------------------------
 Atom::Atom( vector<double> pos, int idd, int typ){
 
-    posx = pos[0];
-    posy = pos[1];
-    posz = pos[2];
+    sx(pos);
     id = idd;
     type = typ;
     ghost = 0;
@@ -115,6 +113,13 @@ vector<double> Atom::gx(){
 }
 
 void Atom::sx(vector<double> rls){
+
+    if (rls.size() != 3){
+        throw invalid_argument("position needs three components");
+    }
+    if (!(isfinite(rls[0]) && isfinite(rls[1]) && isfinite(rls[2]))){
+        throw invalid_argument("position should be finite");
+    }
     posx = rls[0];
     posy = rls[1];
     posz = rls[2];
@@ -147,6 +152,10 @@ vector<double> Atom::gneighdist(){
 
 void Atom::sneighbors(vector<int> nns){
 
+    if (nns.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbors");
+    }
+
     //first reset all neighbors
     for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
         neighbors[i] = NILVALUE;
@@ -166,6 +175,11 @@ void Atom::sneighbors(vector<int> nns){
 }
 
 void Atom::sneighborweights(vector<double> nss){
+
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbors");
+    }
+
     for(int i=0; i<nss.size(); i++){
         neighborweight[i] = nss[i];
     }
@@ -247,12 +261,22 @@ vector<double> Atom::gallaq(){
 }
 
 void Atom::sallq(vector<double> allq){
+
+    if (allq.size() != 11){
+        throw invalid_argument("11 values of q are needed");
+    }
+
     for(int i=0; i<11; i++){
         q[i] = allq[i];
     }
 }
 
 void Atom::sallaq(vector<double> allaq){
+
+    if (allaq.size() != 11){
+        throw invalid_argument("11 values of q are needed");
+    }
+
     for(int i=0; i<11; i++){
         aq[i] = allaq[i];
     }
@@ -309,6 +333,10 @@ vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
 //overloaded version which takes a vector
 void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
+    if (qval.size() != setvals.size()){
+        throw invalid_argument("one value is needed for each q");
+    }
+
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
@@ -333,6 +361,10 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
 vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 
+  if ((qq < 2) || (qq > 12)){
+    throw invalid_argument("q value should be between 2-12");
+  }
+
   vector<complex<double>> qlms;
   qlms.reserve(2*qq+1);
   if (!averaged){
@@ -362,6 +394,11 @@ vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 // Voronoi related properties
 //-------------------------------------------------------
 void Atom::sfacevertices(vector<int> nss){
+
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbors");
+    }
+
     for(int i=0; i<nss.size(); i++){
         facevertices[i] = nss[i];
     }
diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c174325..1bca7e2 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -111,6 +111,8 @@ class System(pc.System):
         """
         if np.shape(userbox) != (3, 3):
             raise ValueError("A box needs three vectors with three components each")
+        if not np.all(np.isfinite(np.array(userbox, dtype=float))):
+            raise ValueError("Box vectors should be finite")
         if np.any(np.linalg.norm(np.array(userbox, dtype=float), axis=1) == 0):
             raise ValueError("The length of a box vector cannot be zero")
 
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 04e295f..31f5ee4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -141,6 +141,31 @@ void System::set_atoms( vector<Atom> atomitos){
     //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
     //cout<<nop<<endl;
 
+    drop_missing_neighbors();
+}
+
+//neighbors from another list of atoms cannot be used
+void System::drop_missing_neighbors(){
+
+    for(int i=0; i<nop; i++){
+        if (!has_valid_neighbors(atoms[i])){
+            for(int j=0; j<nop; j++){
+                atoms[j].sneighbors(vector<int>());
+                atoms[j].temp_neighbors.clear();
+            }
+            break;
+        }
+    }
+}
+
+bool System::has_valid_neighbors(Atom &atom1){
+
+    for(int i=0; i<atom1.n_neighbors; i++){
+        if ((atom1.neighbors[i] < 0) || (atom1.neighbors[i] >= nop)){
+            return false;
+        }
+    }
+    return true;
 }
 
 
@@ -173,14 +198,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
@@ -224,6 +247,8 @@ void System::add_atoms(vector<Atom> atomitos){
     for(int i=0; i<nop; i++){
         atoms[i].loc = i;
     }
+
+    drop_missing_neighbors();
 }
 
 
@@ -240,6 +265,9 @@ vector<Atom> System::get_all_atoms( ){
 Atom System::gatom(int i) { return atoms[i]; }
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if (!has_valid_neighbors(atom1)){
+        throw out_of_range("the neighbors are not atoms of the system");
+    }
     atoms[idd] = atom1;
 }
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 59289b6..596ff67 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -59,6 +59,8 @@ class System{
         void assign_particles( vector<Atom>);
         void read_particle_file(string);    // TBDep
         void set_atoms( vector<Atom>);
+        void drop_missing_neighbors();
+        bool has_valid_neighbors(Atom &);
         vector<Atom> get_atoms();
         void add_atoms( vector<Atom>);
         vector<Atom> get_all_atoms();
-- 
2.43.0


From 867e1fe585088db9751a7eeb2670470e2493de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 59/67] fix: large clusters do not exhaust the stack

---
 src/pyscal/system.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 31f5ee4..7aaacdc 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1877,12 +1877,17 @@ void System::find_clusters(double clustercutoff){
 //in Grisells code.
 void System::harvest_cluster(const int ti, const int clusterindex, const vector<vector<int>> &links){
 
-    int neigh;
-    for(int i=0; i<links[ti].size(); i++){
-        neigh = links[ti][i];
-        if (atoms[neigh].belongsto==-1){
-            atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex, links);
+    //a recursion would need too much memory for large clusters
+    vector<int> members(1, ti);
+    while(!members.empty()){
+        int current = members.back();
+        members.pop_back();
+        for(int i=0; i<links[current].size(); i++){
+            int neigh = links[current][i];
+            if (atoms[neigh].belongsto==-1){
+                atoms[neigh].belongsto = clusterindex;
+                members.emplace_back(neigh);
+            }
         }
     }
 }
-- 
2.43.0


From 77a464c4181ca17a3cbc65a2cdeb149ab305c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 60/67] fix: a file without atoms does not change the box

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 1bca7e2..5b3df7e 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -258,6 +258,9 @@ class System(pc.System):
         atoms, box = ptp.read_file(filename, format=format, 
                                     compressed=compressed, customkeys=customkeys,
                                         )
+        #the box should not change if there are no atoms for it
+        if len(atoms) == 0:
+            raise ValueError("At least one atom is needed")
         self.box = box
         self.atoms = atoms
 
-- 
2.43.0


From 52c4c9585b7664c5d0adba7c33d23aeca3347d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 61/67] fix: fingerprints of compare_atomic_env belong to the
 volumes they are listed with, voids are found in small boxes

---
 src/pyscal/misc.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 18507a9..95abb42 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -57,11 +57,14 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             vors.append(" ".join(np.array(atom.vorovector).astype(str)))
     vols = np.array(vols)
     vols = np.round(vols, decimals=precision)
-    vvx, vvc = np.unique(vols, return_counts=True)
-    vrx, vrc = np.unique(vors, return_counts=True)
+    vors = np.array(vors)
+    vvx, inds, vvc = np.unique(vols, return_index=True, return_counts=True)
+    #fingerprints in the order of the volumes they belong to
+    vrx = vors[inds]
 
     length_mismatch = False
-    if (len(vvx) != len(vrx)):
+    if any(len(np.unique(vors[vols == x])) > 1 for x in vvx):
+        vrx = np.unique(vors)
         warnings.warn("Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?")
         length_mismatch = True
 
@@ -80,9 +83,9 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             return sys
     else:
         if return_system:
-            return np.array([vvx, vrx, vvc]), sys
+            return np.array([vvx, vrx, vvc], dtype=object), sys
         else:
-            return np.array([vvx, vrx, vvc])
+            return np.array([vvx, vrx, vvc], dtype=object)
 
 
 def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_system=False, 
@@ -141,10 +144,10 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
 
     for atom in atoms:
         if atom.vorovector[1] == 4:
-            #first to prevent small cells we need to filter
-            neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, sys.get_atom(x)) for x in neighs])
-            mindist = dists[np.argsort(dists)][0]
+            #one distance for each face, in small cells several images
+            #of an atom can be neighbors
+            dists = np.array(atom.neighbor_distance)
+            mindist = np.min(dists)
             mindistcount = 0
             for i in range(len(dists)):
                 if mindist*(1.0-precision) <= dists[i] <= mindist*(1.0+precision):
-- 
2.43.0


From ecb2fa02c9c90ad9dd34c41d11fff2c07fb5a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 62/67] fix: energies are assigned to the atoms in the order of
 the file, and averaged over their neighbors

---
 src/pyscal/core.py         | 36 ++++++++++++++++++++++--------------
 src/pyscal/traj_process.py |  8 +++++++-
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5b3df7e..9326050 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1956,30 +1956,38 @@ class System(pc.System):
         are used for averaging. Otherwise neighbors are calculated on the fly
         with an adaptive cutoff method.
         """
-        outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
-        aseobject = self.to_file(outfile, format='lammps-data', species=species)
-
-        indict = routines.get_energy_atom(outfile, species=species,
-            pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
+        if isinstance(species, str):
+            species = [species]
 
-        atoms = self.atoms
-    
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
+        outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
+        try:
+            self.to_file(outfile, format='lammps-data', species=species)
 
-        #clean up
-        os.remove(outfile)
+            indict = routines.get_energy_atom(outfile, species=species,
+                pair_style=pair_style, pair_coeff=pair_coeff,
+                mass=mass)
+        finally:
+            #clean up
+            if os.path.exists(outfile):
+                os.remove(outfile)
 
         if averaged:
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
+        atoms = self.atoms
+        natoms = len(atoms)
+
+        for count, atom in enumerate(atoms):
+            #atoms are numbered in the order in which they are written
+            atom.energy = indict[str(count+1)]
+
         for atom in atoms:
-            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
+            #ghost atoms are images of the list of real atoms
+            neteng = np.sum([atoms[x % natoms].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index 05bbb7d..39a0ab9 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -120,7 +120,13 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
     
     elif format == 'lammps-data':
         aseobject = ptase.convert_snap(sys, species=species)
-        write(outfile, aseobject, format='lammps-data')
+        #types are numbered in the order of the types of the system
+        types = [atom.type for atom in sys.atoms]
+        symbols = aseobject.get_chemical_symbols()
+        specorder = [symbols[types.index(x)] for x in np.unique(types)]
+        if len(set(specorder)) < len(specorder):
+            specorder = None
+        write(outfile, aseobject, format='lammps-data', specorder=specorder)
     
     elif format == 'poscar':
         ptvasp.write_snap(sys, outfile, species=species)
-- 
2.43.0


From efb3629f7db1ce29f5c8c62d564ad636d2992301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:20 +0000
Subject: [PATCH 63/67] fix: plots show the selected atoms with their colors
 inside the plotted box

---
 src/pyscal/visualization.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 915bfc0..8d56c9f 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -35,12 +35,12 @@ def create_box_plot(box, origin=[0,0,0]):
     combos = list(itertools.combinations(range(3), 2))
     faces = []
     for combo in combos:
-        f1 = [origin, box[combo[0]], box[combo[0]]+box[combo[1]], box[combo[1]], origin]
+        f1 = [np.zeros(3), box[combo[0]], box[combo[0]]+box[combo[1]], box[combo[1]], np.zeros(3)]
         s = combo[0] + combo[1]
         t = 3-s
-        f2 = [origin + box[t], box[combo[0]]+ box[t],  box[combo[0]]+box[combo[1]]+ box[t], box[combo[1]]+ box[t], origin + box[t]]
-        faces.append(np.array(f1))
-        faces.append(np.array(f2))
+        f2 = [box[t], box[combo[0]]+ box[t],  box[combo[0]]+box[combo[1]]+ box[t], box[combo[1]]+ box[t], box[t]]
+        faces.append(origin + np.array(f1))
+        faces.append(origin + np.array(f2))
     traces = []
     for face in faces:
         trace = go.Scatter3d(
@@ -101,8 +101,9 @@ def plot_3d(pos, color=None, radius=17,
             line=dict(width=0.5, color='#455A64')
         )
     )
-    traces.append(data)
-    fig = go.Figure(data=traces)
+    #traces of the box are used again if the plot is rendered again
+    traces = [] if traces is None else list(traces)
+    fig = go.Figure(data=traces + [data])
     fig.update_layout(scene = dict(
                         xaxis_title="",
                         yaxis_title="",
@@ -153,12 +154,14 @@ def plot_system(sys, colorby=None, filterby=None):
     positions = []
     colors = []
     filters = []
+    boxinv = np.linalg.inv(np.array(sys.box))
     for count, atom in enumerate(atoms):
         if filterby is not None:
-            if sys.get_custom(atom, [filterby])[0]:
-                positions.append(np.array(sys.remap_atom(atom.pos)))
-        else:
-            positions.append(np.array(sys.remap_atom(atom.pos)))
+            if not sys.get_custom(atom, [filterby])[0]:
+                continue
+        #fold into the box that is plotted
+        shift = np.floor(np.dot(atom.pos, boxinv))
+        positions.append(np.array(atom.pos) - np.dot(shift, np.array(sys.box)))
     
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
@@ -177,6 +180,6 @@ def plot_system(sys, colorby=None, filterby=None):
     radius = widgets.FloatSlider(min=1, max=30, step=1)
     widgets.interact_manual.opts['manual_name'] = 'Render plot'
     im = widgets.interact_manual(plot_3d, radius=radius, 
-        pos=widgets.fixed(np.array(positions)), cmap_title=widgets.fixed(ctitle),
+        pos=widgets.fixed(np.array(positions).reshape(-1, 3)), cmap_title=widgets.fixed(ctitle),
         color=widgets.fixed(colors), opacity=widgets.fixed(1.0), 
         traces=widgets.fixed(boxtraces), description="test")
\ No newline at end of file
-- 
2.43.0


From 1a5db89db115240f6aa0263e6cc833d40a02dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 64/67] fix: face perimeters and Voronoi vectors of the wrong
 length are refused

---
 src/pyscal/atom.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 76154ee..e166f35 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -413,6 +413,11 @@ vector<int> Atom::gfacevertices(){
 }
 
 void Atom::sfaceperimeters(vector<double> nss){
+
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("too many neighbors");
+    }
+
     for(int i=0; i<nss.size(); i++){
         faceperimeters[i] = nss[i];
     }
@@ -455,6 +460,10 @@ vector<int> Atom::gvorovector(){
 
 void Atom::svorovector(vector<int> voro){
 
+    if (voro.size() != 4){
+        throw invalid_argument("vorovector needs four components");
+    }
+
     n3 = voro[0];
     n4 = voro[1];
     n5 = voro[2];
-- 
2.43.0


From b306c44129bedb75eb31852b15574f36438a77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 65/67] fix: atoms just below zero belong to the last cell of
 the cell list

---
 src/pyscal/system.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7aaacdc..e0f263f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -593,13 +593,6 @@ void System::set_up_cells(){
           }
 
           //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
           dx -= boxx*floor(dx/boxx);
           dy -= boxy*floor(dy/boxy);
           dz -= boxz*floor(dz/boxz);
-- 
2.43.0


From df215cd3aaadff233495b2b9ef0051adb7379c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 66/67] fix: the switching function is defined at its cutoff

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index e0f263f..5328f0d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2651,6 +2651,9 @@ vector<int> System::calculate_cna(int method){
 //Methods for entropy
 double System::switching_fn(double rij, double ra, int M, int N){
 
+    //both parts vanish at ra, where the function is N/M
+    if (fabs(rij/ra - 1.0) < 1E-8) return double(N)/double(M);
+
     double num = 1.0 - pow((rij/ra), N);
     double denum = 1.0 - pow((rij/ra), M);
     return num/denum;
-- 
2.43.0


From 9e86bf2dd65737a17854eb0175a7a1d0d3bf0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 67/67] fix: neighbors are not found for atoms that replace
 others

---
 src/pyscal/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9326050..f1fd430 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -181,6 +181,10 @@ class System(pc.System):
 
         self.set_atoms(atoms)
 
+        #new atoms need a neighbor search, unless they bring their neighbors along
+        if not any(atom.coordination > 0 for atom in self.iter_atoms()):
+            self.neighbors_found = False
+
     def _update_atoms(self, atoms):
         """
         Store the modified real atoms, the ghost atoms of the system are kept
-- 
2.43.0

