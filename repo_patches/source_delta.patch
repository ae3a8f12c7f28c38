From 29325c2e2ab489d1407253c0d51076d4118b31e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 01/55] fix: minimum image for atoms more than one cell length
 apart

---
 src/pyscal/system.cpp | 63 +++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..5320e43 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -242,6 +242,15 @@ void System::satom(Atom atom1) {
 // Neighbor methods
 //----------------------------------------------------
 
+//nearest image of a separation along one box vector, however many lengths apart
+static inline double nearest_image(double d, double length){
+    if (length > 0){
+        if (d > length/2.0) return d - length*max(1.0, ceil(d/length - 0.5));
+        if (d < -length/2.0) return d + length*max(1.0, ceil(-d/length - 0.5));
+    }
+    return d;
+}
+
 double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
 
     double abs, ax, ay, az;
@@ -263,12 +272,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -291,12 +297,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
     }
     else{
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
         abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
     }
     return abs;
@@ -324,12 +327,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -353,12 +353,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
         abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
     }
 
@@ -388,12 +385,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
 
         //now divide by box vals - scale down the size
         diffx = diffx/boxx;
@@ -414,12 +408,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        diffx = nearest_image(diffx, boxx);
+        diffy = nearest_image(diffy, boxy);
+        diffz = nearest_image(diffz, boxz);
 
     }
 
-- 
2.43.0


From 2fe8eaee99d0898dbc3bb421c58a575e89a52cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 02/55] fix: initialise every Atom member

---
 src/pyscal/atom.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..dd16558 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -13,6 +13,9 @@
 //-------------------------------------------------------
 Atom::Atom( vector<double> pos, int idd, int typ){
 
+    if (pos.size() != 3){
+        throw invalid_argument("position should have three components");
+    }
     posx = pos[0];
     posy = pos[1];
     posz = pos[2];
@@ -33,7 +36,34 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     avg_entropy = 0;
     energy = 0;
     avg_energy = 0;
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    n3 = n4 = n5 = n6 = 0;
+    volume = 0;
+    avgvolume = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    lcutsmall = 0;
+    lcutlarge = 0;
+    lneigh = 0;
+    sigma = rho = rstart = rstop = h = kb = 0;
+
+    for (int tn = 0; tn<4; tn++){
+        nn1[tn] = -1;
+    }
 
+    for (int tn = 0; tn<13; tn++){
+        realQ6[tn] = -1;
+        imgQ6[tn] = -1;
+    }
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
         neighbors[tn] = -1;
@@ -44,6 +74,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
-- 
2.43.0


From 5febf39bd10e887ac2722a35f57e404832ec278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 03/55] fix: reject values that do not fit the fixed size
 arrays of Atom

---
 src/pyscal/atom.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index dd16558..b4e58c4 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -8,6 +8,13 @@
 #include <pybind11/stl.h>
 #include <complex>
 
+//per neighbor values are stored in arrays of fixed size
+static void check_capacity(size_t count){
+    if (count > MAXNUMBEROFNEIGHBORS){
+        throw length_error("an atom can have at most "+to_string(MAXNUMBEROFNEIGHBORS)+" neighbors");
+    }
+}
+
 //-------------------------------------------------------
 // Constructor, Destructor
 //-------------------------------------------------------
@@ -115,6 +122,9 @@ vector<double> Atom::gx(){
 }
 
 void Atom::sx(vector<double> rls){
+    if (rls.size() != 3){
+        throw invalid_argument("position should have three components");
+    }
     posx = rls[0];
     posy = rls[1];
     posz = rls[2];
@@ -147,6 +157,8 @@ vector<double> Atom::gneighdist(){
 
 void Atom::sneighbors(vector<int> nns){
 
+    check_capacity(nns.size());
+
     //first reset all neighbors
     for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
         neighbors[i] = NILVALUE;
@@ -166,6 +178,7 @@ void Atom::sneighbors(vector<int> nns){
 }
 
 void Atom::sneighborweights(vector<double> nss){
+    check_capacity(nss.size());
     for(int i=0; i<nss.size(); i++){
         neighborweight[i] = nss[i];
     }
@@ -247,12 +260,18 @@ vector<double> Atom::gallaq(){
 }
 
 void Atom::sallq(vector<double> allq){
+    if (allq.size() != 11){
+        throw invalid_argument("q values from 2-12 are needed");
+    }
     for(int i=0; i<11; i++){
         q[i] = allq[i];
     }
 }
 
 void Atom::sallaq(vector<double> allaq){
+    if (allaq.size() != 11){
+        throw invalid_argument("q values from 2-12 are needed");
+    }
     for(int i=0; i<11; i++){
         aq[i] = allaq[i];
     }
@@ -309,6 +328,9 @@ vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
 //overloaded version which takes a vector
 void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
+    if (qval.size() != setvals.size()){
+        throw invalid_argument("one value is needed for each q");
+    }
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
@@ -333,6 +355,9 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
 vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 
+  if ((qq < 2) || (qq > 12)){
+      throw invalid_argument("q value should be between 2-12");
+  }
   vector<complex<double>> qlms;
   qlms.reserve(2*qq+1);
   if (!averaged){
@@ -362,6 +387,7 @@ vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 // Voronoi related properties
 //-------------------------------------------------------
 void Atom::sfacevertices(vector<int> nss){
+    check_capacity(nss.size());
     for(int i=0; i<nss.size(); i++){
         facevertices[i] = nss[i];
     }
@@ -376,6 +402,7 @@ vector<int> Atom::gfacevertices(){
 }
 
 void Atom::sfaceperimeters(vector<double> nss){
+    check_capacity(nss.size());
     for(int i=0; i<nss.size(); i++){
         faceperimeters[i] = nss[i];
     }
@@ -418,6 +445,10 @@ vector<int> Atom::gvorovector(){
 
 void Atom::svorovector(vector<int> voro){
 
+    if (voro.size() != 4){
+        throw invalid_argument("vorovector should be of the form (n3, n4, n5, n6)");
+    }
+
     n3 = voro[0];
     n4 = voro[1];
     n5 = voro[2];
-- 
2.43.0


From f9f43dd7f56d80161e31a769c675358461cd654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:34 +0000
Subject: [PATCH 04/55] fix: keep box, ghost atoms and atom indices of a System
 consistent

Setting the box or the atoms of a system with ghost atoms, repeat() and
extract_cubic_box() left a box that did not belong to the atoms; results
written back to the system dropped the neighbors of the ghost atoms.
Rotated and permuted cells were treated as axis aligned, indices of atoms
were not checked and could go stale.
---
 src/pyscal/atom_binding.cpp   |  5 ++
 src/pyscal/core.py            | 92 ++++++++++++++++++++++-------------
 src/pyscal/system.cpp         | 42 +++++++++++++---
 src/pyscal/system.h           |  1 +
 src/pyscal/system_binding.cpp |  1 +
 5 files changed, 100 insertions(+), 41 deletions(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..a26d818 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -115,6 +115,11 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
         int specifying ghost status of the atom.
     )mydelimiter")
 
+    .def_readwrite("head", &Atom::head, R"mydelimiter(
+          *int*.
+          index of the atom of which a ghost atom is an image, -1 for other atoms.
+    )mydelimiter")
+
     .def_readwrite("custom", &Atom::custom, R"mydelimiter(
         *dict*.
         dictionary specfying custom values for an atom. The module only stores the id, type and
diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..cac9e91 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -100,7 +100,7 @@ class System(pc.System):
         Wrap for inbuilt box
         """
         if self.actual_box is not None:
-            return self.actual_box
+            return [list(vector) for vector in self.actual_box]
         else:
             return self._box
 
@@ -109,21 +109,32 @@ class System(pc.System):
         """
         Box setter 
         """
+        atoms = self.atoms
+        self._set_cell(userbox)
+        self.actual_box = None
+        if self.ghosts_created:
+            #the ghost atoms belong to the old box
+            self.atoms = atoms
+
+    def _set_cell(self, cell):
+        """
+        Set the cell used for calculations, which includes ghost atoms if there are any
+        """
+        cell = np.array(cell, dtype=float)
+        if cell.shape != (3, 3):
+            raise ValueError("the simulation box should consist of three vectors")
+
         #we should automatically check for triclinic cells here
-        summ = 0
-        for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
-
-        #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        offdiagonal = np.abs(cell - np.diag(np.diag(cell)))
+        if np.any(offdiagonal > 1E-6*np.max(np.abs(cell))):
             #this is a triclinic box
-            rot = np.array(userbox).T
+            rot = cell.T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
-        self._box = userbox
+        self._box = cell
 
     @property
     def atoms(self):
@@ -137,6 +148,12 @@ class System(pc.System):
         """
         Set atoms
         """
+        if self.ghosts_created:
+            #remove the ghosts of the previous atoms
+            self._set_cell(self.box)
+            self.actual_box = None
+            self.ghosts_created = False
+
         if(len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
@@ -145,7 +162,7 @@ class System(pc.System):
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
 
-            if np.sum(self.box) == 0:
+            if not np.any(self.box):
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
 
@@ -163,7 +180,11 @@ class System(pc.System):
         -------
         None
         """
-        self.cadd_atoms(atoms)
+        if self.ghosts_created or self.natoms == 0:
+            #ghosts of the new atoms are needed too
+            self.atoms = self.atoms + list(atoms)
+        else:
+            self.cadd_atoms(atoms)
 
     def read_inputfile(self, filename, format="lammps-dump", compressed = False, customkeys=None):
         """
@@ -567,7 +588,7 @@ class System(pc.System):
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._set_cell(backupbox)
 
         self.neighbors_found = True
 
@@ -711,7 +732,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self.update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -810,13 +831,13 @@ class System(pc.System):
                 for atom in atoms:
                     cval = condition(atom)
                     atom.condition = cval
-            self.atoms = atoms
+            self.update_atoms(atoms)
 
         if clear_condition:
             atoms = self.atoms
             for atom in atoms:
                 atom.condition = 0
-            self.atoms = atoms
+            self.update_atoms(atoms)
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1049,7 +1070,7 @@ class System(pc.System):
                 cval = condition(atom)
                 atom.condition = cval
         
-        self.atoms = atoms
+        self.update_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1133,6 +1154,7 @@ class System(pc.System):
         """
 
         atoms = self.atoms
+        allatoms = self.get_all_atoms()
 
         for atom in atoms:
             dists = []
@@ -1142,7 +1164,7 @@ class System(pc.System):
             neighs = atom.neighbors
 
             for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
+                dist, vectors = self.get_distance(atom, allatoms[neigh], vector=True)
                 dists.append(dist)
                 distneighs.append(neigh)
                 distvectors.append(vectors)
@@ -1163,7 +1185,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self.update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1230,7 +1252,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self.update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1512,7 +1534,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1628,7 +1650,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1903,7 +1925,7 @@ class System(pc.System):
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self.update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
@@ -1922,8 +1944,7 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        box = self.box
 
         if atoms is None:
             atoms = self.atoms
@@ -1947,7 +1968,7 @@ class System(pc.System):
                 for k in range(z1, z2):
                     if (i==j==k==0):
                         continue
-                    for atom in atoms:
+                    for count, atom in enumerate(atoms):
                         pos = np.array(atom.pos)
                         pos = (pos + i*np.array(box[0]) + j*np.array(box[1]) + k*np.array(box[2]))
                         a = Atom()
@@ -1957,13 +1978,16 @@ class System(pc.System):
                         a.type = atom.type
                         if ghost:
                             a.ghost = 1
+                            a.head = count
                         newatoms.append(a)
 
         if scale_box:
-            box[0] = xs*np.array(box[0])
-            box[1] = ys*np.array(box[1])
-            box[2] = zs*np.array(box[2])
-            self.box = box
+            newbox = [xs*np.array(box[0]), ys*np.array(box[1]), zs*np.array(box[2])]
+            if ghost:
+                self.actual_box = box
+                self._set_cell(newbox)
+            else:
+                self.box = newbox
         if ghost:
             self.ghosts_created = True
 
@@ -2021,7 +2045,7 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        self._set_cell(newbox)
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
@@ -2041,7 +2065,7 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
-        ratoms = self.repeat(repeat)
+        ratoms = self.repeat(repeat, scale_box=False)
         anchor = ratoms[0]
 
         nb = []
@@ -2053,7 +2077,7 @@ class System(pc.System):
                 if np.abs(atom.pos[ind[0]]-anchor.pos[ind[0]])< 1E-5:
                     if np.abs(atom.pos[ind[1]]-anchor.pos[ind[1]])< 1E-5:
                         if atom.type == anchor.type:
-                            dist = self.get_distance(anchor, atom)
+                            dist = np.linalg.norm(np.array(atom.pos) - np.array(anchor.pos))
                             if dist < mindist:
                                 mindist = dist
                                 minatom = atom
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 5320e43..2b9a961 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -126,6 +126,7 @@ void System::set_atoms( vector<Atom> atomitos){
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
@@ -171,14 +172,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
@@ -219,9 +218,30 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
+//write back modified atoms, the ghost atoms and neighbor lists stay as they are
+void System::update_atoms(vector<Atom> atomitos){
+
+    if (atomitos.size() != real_nop){
+        throw invalid_argument("the number of atoms should not change");
+    }
+    for(int i=0; i<real_nop; i++){
+        atoms[i] = atomitos[i];
+        atoms[i].loc = i;
+    }
+    for(int i=real_nop; i<nop; i++){
+        if ((atoms[i].head >= 0) && (atoms[i].head < real_nop)){
+            atoms[i].condition = atoms[atoms[i].head].condition;
+        }
+    }
+}
+
 vector<Atom> System::get_all_atoms( ){
     //here, we have to filter ghost atoms
     vector<Atom> retatoms;
@@ -232,9 +252,17 @@ vector<Atom> System::get_all_atoms( ){
 
 }
 
-Atom System::gatom(int i) { return atoms[i]; }
+Atom System::gatom(int i) {
+    if ((i < 0) || (i >= nop)){
+        throw out_of_range("there is no atom with index "+to_string(i));
+    }
+    return atoms[i];
+}
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if ((idd < 0) || (idd >= nop)){
+        throw out_of_range("there is no atom with index "+to_string(idd));
+    }
     atoms[idd] = atom1;
 }
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..3cfd47a 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -61,6 +61,7 @@ class System{
         void set_atoms( vector<Atom>);
         vector<Atom> get_atoms();
         void add_atoms( vector<Atom>);
+        void update_atoms( vector<Atom>);
         vector<Atom> get_all_atoms();
         Atom gatom(int);
         void satom(Atom);
diff --git a/src/pyscal/system_binding.cpp b/src/pyscal/system_binding.cpp
index e2095e5..05c0a93 100644
--- a/src/pyscal/system_binding.cpp
+++ b/src/pyscal/system_binding.cpp
@@ -54,6 +54,7 @@ PYBIND11_MODULE(csystem, m) {
         .def("get_all_atoms", &System::get_all_atoms)
         .def("set_atoms", &System::set_atoms)
         .def("cadd_atoms", &System::add_atoms)
+        .def("update_atoms", &System::update_atoms)
         //.def_readwrite("atoms", &System::atoms)
         .def("cget_atom",  &System::gatom)
         .def("cset_atom", &System::satom)
-- 
2.43.0


From c6d0ad7993a81b367b5a683f6dd398a7919395aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 05/55] fix: remap_atoms in triclinic cells, for far atoms and
 small systems

---
 src/pyscal/core.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index cac9e91..674d103 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2153,56 +2153,49 @@ class System(pc.System):
             Tolerance for removing atomic positions. Defaullt 0.1
 
         """
-        box = self.box
+        box = np.array(self.box)
+        invbox = np.linalg.inv(box)
         atoms = self.atoms
-        self.box = box
         newatoms = []
 
         for atom in atoms:
-            pos = atom.pos
-            if pos[0] < 0:
-                pos[0] = pos[0]+box[0][0]
-            elif pos[0] >= box[0][0]:
-                pos[0] = pos[0]-box[0][0]
-            if pos[1] < 0:
-                pos[1] = pos[1]+box[1][1]
-            elif pos[1] >= box[1][1]:
-                pos[1] = pos[1]-box[1][1]
-            if pos[2] < 0:
-                pos[2] = pos[2]+box[2][2]
-            elif pos[2] >= box[2][2]:
-                pos[2] = pos[2]-box[2][2]
+            pos = np.array(atom.pos)
+            #the second time takes care of atoms which were moved to the upper border
+            for i in range(2):
+                pos = pos - np.dot(np.floor(np.dot(pos, invbox)), box)
             atom.pos = pos
-            
+
         if remove_atoms:
             temp = []
             for atom in atoms:
-                pos = atom.pos
-                if (0 <= pos[0] < box[0][0]):
-                    if (0 <= pos[1] < box[1][1]):
-                        if (0 <= pos[2] < box[2][2]):
-                            temp.append(atom)
+                relpos = np.dot(atom.pos, invbox)
+                if np.all(relpos >= 0) and np.all(relpos < 1):
+                    temp.append(atom)
             atoms = temp
         
         if remove_images:
             pairs = []
+            #images are those of the actual box, without ghost atoms
+            cell = self._box
+            self._set_cell(box)
             for i in range(len(atoms)):
                 for j in range(i+1, len(atoms)):
                     #we need explicit treatment of images
                     dist = self.get_distance(atoms[i], atoms[j])
                     if dist <= dtol:
                         pairs.append(i) 
+            self._set_cell(cell)
             for count, atom in enumerate(atoms):
                 if count not in pairs:
                     newatoms.append(atom)
             if assign:
-                self.set_atoms(newatoms)
+                self.atoms = newatoms
                 return None
             else:
                 return newatoms
 
         if assign:
-            self.set_atoms(atoms)
+            self.atoms = atoms
             return None
         else:
             return atoms
-- 
2.43.0


From fd6f9031ac3dd6c04ecfe86f2ced0c561d76e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 06/55] fix: cell lists for triclinic, narrow and far shifted
 systems

Atoms more than one length outside the box indexed memory out of bounds,
triclinic cells and cells narrower than three cutoffs lost or repeated
neighbors, and the cells were never freed.
---
 src/pyscal/system.cpp | 48 +++++++++++++++++++++++++------------------
 src/pyscal/system.h   |  3 ++-
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 2b9a961..e50521b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -508,14 +508,22 @@ int System::cell_index(int cx, int cy, int cz){
 
 //if number of particles are small, use brute force
 //if box is triclinic, use brute force
+//with less than three cells in a direction, neighbor cells are not distinct
+bool System::can_use_cells(){
+    if (triclinic == 1) return false;
+    return ((boxx >= 3*neighbordistance) && (boxy >= 3*neighbordistance) && (boxz >= 3*neighbordistance));
+}
+
 void System::set_up_cells(){
 
       int si,sj,sk, maincell, subcell;
       vector<int> cc;
       //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
+      //more cells than atoms along a direction are of no use
+      double maxcells = max(3.0, 2.0*ceil(cbrt(double(nop))));
+      nx = min(boxx/neighbordistance, maxcells);
+      ny = min(boxy/neighbordistance, maxcells);
+      nz = min(boxz/neighbordistance, maxcells);
       //now use this to find length of cell in each direction
       double lx = boxx/nx;
       double ly = boxy/ny;
@@ -523,7 +531,7 @@ void System::set_up_cells(){
       //find the total number of cells
       total_cells = nx*ny*nz;
       //create a vector of cells
-      cells = new cell[total_cells];
+      cells.assign(total_cells, cell());
       //now run over and for each cell create its neighbor cells
       //all neighbor cells are also added
       for(int i=0; i<nx; i++){
@@ -558,24 +566,14 @@ void System::set_up_cells(){
           dz = atoms[ti].posz;
           
           //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
+          dx -= boxx*floor(dx/boxx);
+          dy -= boxy*floor(dy/boxy);
+          dz -= boxz*floor(dz/boxz);
 
           //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
+          cx = min(int(dx/lx), nx-1);
+          cy = min(int(dy/ly), ny-1);
+          cz = min(int(dz/lz), nz-1);
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
@@ -665,6 +663,11 @@ vector<int> System::cell_periodic(int i, int j, int k){
 //get all neighbor info but using cell lists
 void System::get_all_neighbors_cells(){
 
+    if (!can_use_cells()){
+        get_all_neighbors_normal();
+        return;
+    }
+
     voronoiused = 0;
 
     double d;
@@ -859,6 +862,11 @@ about 2000 atoms.
 */
 void System::get_temp_neighbors_cells(){
 
+    if (!can_use_cells()){
+        get_temp_neighbors_brute();
+        return;
+    }
+
     //first create cells
     set_up_cells();
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 3cfd47a..e1b887f 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -74,7 +74,7 @@ class System{
         int usecells;
         int nx, ny, nz;
         int total_cells;
-        cell *cells;
+        vector<cell> cells;
         double neighbordistance;
         void get_all_neighbors_normal();
         void process_neighbor(int, int);
@@ -94,6 +94,7 @@ class System{
         void susecells(int);
         int gusecells();
         int cell_index(int, int, int);
+        bool can_use_cells();
         void set_up_cells();
         vector<int> cell_periodic(int, int, int);
         void get_all_neighbors_cells();
-- 
2.43.0


From 80b4ee493667229f093cb7fd8ee1fb17f4170543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/55] fix: raise an error instead of writing past the
 neighbor arrays

---
 src/pyscal/core.py    |  2 +-
 src/pyscal/system.cpp | 12 ++++++++++++
 src/pyscal/system.h   |  1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 674d103..0ace832 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -512,7 +512,7 @@ class System(pc.System):
 
         """
         #first reset all neighbors
-        self.reset_allneighbors()
+        self.reset_neighbors()
         self.filter = 0
 
         if filter == 'type':
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index e50521b..9cf5690 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -703,6 +703,8 @@ void System::get_all_neighbors_cells(){
                             continue;
                         }
                         //process_neighbor(ti, tj);
+                        check_neighbor_capacity(ti);
+                        check_neighbor_capacity(tj);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                         //weight is set to 1.0, unless manually reset
@@ -767,6 +769,8 @@ void System::get_all_neighbors_normal(){
                     continue;
                 }
                 //process_neighbor(ti, tj);
+                check_neighbor_capacity(ti);
+                check_neighbor_capacity(tj);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                 //weight is set to 1.0, unless manually reset
@@ -802,6 +806,12 @@ void System::get_all_neighbors_normal(){
 
 }
 
+void System::check_neighbor_capacity(int ti){
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS){
+        throw runtime_error("an atom has more than "+to_string(MAXNUMBEROFNEIGHBORS)+" neighbors, try a lower cutoff");
+    }
+}
+
 void System::process_neighbor(int ti, int tj){
     /*
     Calculate all info and add it to list
@@ -813,6 +823,7 @@ void System::process_neighbor(int ti, int tj){
     double d, diffx, diffy, diffz;
     double r, phi, theta;
 
+    check_neighbor_capacity(ti);
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
@@ -1297,6 +1308,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_capacity(ti);
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index e1b887f..01cb809 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -77,6 +77,7 @@ class System{
         vector<cell> cells;
         double neighbordistance;
         void get_all_neighbors_normal();
+        void check_neighbor_capacity(int);
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
-- 
2.43.0


From ed1bf0ab9a3eb49aac1e9bf4991603f586541da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/55] fix: Voronoi neighbors with filters and uninitialised
 vertex offsets

---
 src/pyscal/system.cpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9cf5690..1e93cba 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1973,7 +1973,7 @@ void System::get_all_neighbors_voronoi(){
             c.neighbors(neigh);
             c.face_orders(f_vert);
             c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
+            c.vertices(v);
             c.face_perimeters(faceperimeters);
 
             vol = c.volume();
@@ -1991,10 +1991,11 @@ void System::get_all_neighbors_voronoi(){
             //assign to nvector
             atoms[ti].volume = vol;
             atoms[ti].vertex_vectors = v;
-            atoms[ti].vertex_numbers = vert_nos;
+            atoms[ti].vertex_numbers.clear();
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
+            atoms[ti].vertex_positions.clear();
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
             for(int si=0; si<nverts; si++){
@@ -2015,30 +2016,39 @@ void System::get_all_neighbors_voronoi(){
             //for (int i=0; i<facearea.size(); i++){
             //    weightsum += facearea[i];
             //}
+            int face = 0;
             for (int tj=0; tj<neigh.size(); tj++){
 
+                //the vertices of this face
+                int firstvert = face;
+                face += f_vert[tj] + 1;
+
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                check_neighbor_capacity(ti);
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].neighbors[nn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].vertex_numbers.insert(atoms[ti].vertex_numbers.end(),
+                    vert_nos.begin()+firstvert, vert_nos.begin()+face);
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
 
             }
 
-- 
2.43.0


From e3439f305702f8762b9eda1a5cc13a9b3f0747ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 09/55] fix: Voronoi tessellation of triclinic cells

The cell was embedded in a box that did not enclose rotated cells, small
systems were not embedded at all, and atoms away from the cell ended up
next to the surface.
---
 src/pyscal/core.py    |  13 ----
 src/pyscal/system.cpp | 143 ++++++++++++++++++++++++++++++++++++------
 src/pyscal/system.h   |   3 +
 3 files changed, 128 insertions(+), 31 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 0ace832..985af2d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -575,21 +575,8 @@ class System(pc.System):
         elif method == 'voronoi':
             
             self.voroexp = int(voroexp)
-
-            #copy the simulation cell
-            backupbox = self._box.copy()
-            if self.triclinic:
-                if not self.ghosts_created:
-                    atoms  = self.get_atoms()
-                    atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                    self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
-            #replace box
-            self._set_cell(backupbox)
-
         self.neighbors_found = True
 
     def find_diamond_neighbors(self):
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1e93cba..301cac5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1937,6 +1937,84 @@ void System::get_all_neighbors_voronoi(){
     //reset voronoi flag
     voronoiused = 1;
 
+    //images of the atoms around a triclinic cell, up to a distance which is
+    //increased until the Voronoi cells do not change anymore
+    double margin = 0;
+    if (triclinic == 1){
+        margin = 3*cbrt(get_box_volume()/nop);
+    }
+    while (!find_voronoi_cells(margin)){
+        margin *= 1.5;
+        reset_all_neighbors();
+    }
+
+    //now calculate the averged volume
+    find_average_volume();
+}
+
+double System::get_box_volume(){
+    return fabs(box[0][0]*(box[1][1]*box[2][2]-box[1][2]*box[2][1])
+              - box[0][1]*(box[1][0]*box[2][2]-box[1][2]*box[2][0])
+              + box[0][2]*(box[1][0]*box[2][1]-box[1][1]*box[2][0]));
+}
+
+/*
+The positions of all atoms within the triclinic cell followed by their images within
+a margin around the cell. Owners are the indices of the corresponding atoms.
+*/
+void System::get_triclinic_images(double margin, vector<vector<double>> &points, vector<int> &owners){
+
+    vector<vector<double>> relative;
+    int images[3];
+    double reach[3];
+
+    for(int k=0; k<3; k++){
+        //rows of rotinv are the inverse of the height of the cell
+        reach[k] = margin*sqrt(rotinv[k][0]*rotinv[k][0] + rotinv[k][1]*rotinv[k][1] + rotinv[k][2]*rotinv[k][2]);
+        images[k] = ceil(reach[k]);
+    }
+
+    for(int ti=0; ti<nop; ti++){
+        vector<double> rel;
+        for(int k=0; k<3; k++){
+            double f = rotinv[k][0]*atoms[ti].posx + rotinv[k][1]*atoms[ti].posy + rotinv[k][2]*atoms[ti].posz;
+            rel.emplace_back(f - floor(f));
+        }
+        relative.emplace_back(rel);
+    }
+
+    //the atoms themselves come first
+    for(int home=1; home>=0; home--){
+        for(int i=-images[0]; i<=images[0]; i++){
+            for(int j=-images[1]; j<=images[1]; j++){
+                for(int k=-images[2]; k<=images[2]; k++){
+                    if (((i==0) && (j==0) && (k==0)) != (home==1)) continue;
+                    for(int ti=0; ti<nop; ti++){
+                        double f[3] = {relative[ti][0]+i, relative[ti][1]+j, relative[ti][2]+k};
+                        bool inside = true;
+                        for(int m=0; m<3; m++){
+                            if ((f[m] < -reach[m]) || (f[m] > 1+reach[m])) inside = false;
+                        }
+                        if (!inside) continue;
+                        vector<double> pos;
+                        for(int m=0; m<3; m++){
+                            pos.emplace_back(rot[m][0]*f[0] + rot[m][1]*f[1] + rot[m][2]*f[2]);
+                        }
+                        points.emplace_back(pos);
+                        owners.emplace_back(ti);
+                    }
+                }
+            }
+        }
+    }
+}
+
+/*
+Find the Voronoi cells of all atoms. Returns false if images within `margin` of
+a triclinic cell are not enough to do so.
+*/
+bool System::find_voronoi_cells(double margin){
+
     double d;
     double diffx,diffy,diffz;
     double r,theta,phi;
@@ -1954,20 +2032,45 @@ void System::get_all_neighbors_voronoi(){
     double weightsum;
     vector <double> pos;
 
-    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
-    for(int i=0; i<nop; i++){
-        pos = atoms[i].gx();
-        pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
+    vector<vector<double>> points;
+    vector<int> owners;
+    double low[3] = {0.0, 0.0, 0.0};
+    double high[3] = {boxx, boxy, boxz};
+    bool periodic = true;
+
+    if (triclinic == 1){
+        get_triclinic_images(margin, points, owners);
+        periodic = false;
+        for(int k=0; k<3; k++){
+            low[k] = high[k] = points[0][k];
+            for(size_t i=0; i<points.size(); i++){
+                low[k] = min(low[k], points[i][k]);
+                high[k] = max(high[k], points[i][k]);
+            }
+            low[k] -= 0.01*margin;
+            high[k] += 0.01*margin;
+        }
+    }
+    else{
+        for(int i=0; i<nop; i++){
+            points.emplace_back(remap_atom(atoms[i].gx()));
+            owners.emplace_back(i);
+        }
+    }
+
+    pre_container pcon(low[0], high[0], low[1], high[1], low[2], high[2], periodic, periodic, periodic);
+    for(size_t i=0; i<points.size(); i++){
+        pcon.put(i, points[i][0], points[i][1], points[i][2]);
     }
     pcon.guess_optimal(tnx,tny,tnz);
-    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+    container con(low[0], high[0], low[1], high[1], low[2], high[2], tnx, tny, tnz, periodic, periodic, periodic, nop);
     pcon.setup(con);
 
     c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
+    if (cl.start()) do if((cl.pid() < nop) && con.compute_cell(c,cl)) {
+            if ((triclinic == 1) && (2*sqrt(c.max_radius_squared()) >= margin)){
+                return false;
+            }
             ti=cl.pid();
             c.face_areas(facearea);
             c.neighbors(neigh);
@@ -2024,17 +2127,25 @@ void System::get_all_neighbors_voronoi(){
                 face += f_vert[tj] + 1;
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[owners[neigh[tj]]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[owners[neigh[tj]]].type)){
                     continue;
                 }
                 check_neighbor_capacity(ti);
                 int nn = atoms[ti].n_neighbors;
-                atoms[ti].neighbors[nn] = neigh[tj];
+                atoms[ti].neighbors[nn] = owners[neigh[tj]];
                 atoms[ti].n_neighbors += 1;
-                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
+                if (triclinic == 1){
+                    diffx = points[neigh[tj]][0] - points[ti][0];
+                    diffy = points[neigh[tj]][1] - points[ti][1];
+                    diffz = points[neigh[tj]][2] - points[ti][2];
+                    d = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+                }
+                else{
+                    d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
+                }
                 atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
                 atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
@@ -2054,11 +2165,7 @@ void System::get_all_neighbors_voronoi(){
 
     } while (cl.inc());
 
-
-    //now calculate the averged volume
-    find_average_volume();
-
-
+    return true;
 }
 
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 01cb809..e68b276 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -84,6 +84,9 @@ class System{
         int get_neighbors_from_temp(int);
         int get_all_neighbors_adaptive(double, int, double);
         void get_all_neighbors_voronoi();
+        double get_box_volume();
+        void get_triclinic_images(double, vector<vector<double>>&, vector<int>&);
+        bool find_voronoi_cells(double);
         void reset_all_neighbors();
         void reset_main_neighbors();        
         double get_abs_distance(int,int,double&,double&,double&);
-- 
2.43.0


From 2a1ec329dd16406a3099c44834de08316067fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 10/55] fix: memory of the Voronoi container grew with the
 square of the number of atoms

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 301cac5..adccd79 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2063,7 +2063,7 @@ bool System::find_voronoi_cells(double margin){
         pcon.put(i, points[i][0], points[i][1], points[i][2]);
     }
     pcon.guess_optimal(tnx,tny,tnz);
-    container con(low[0], high[0], low[1], high[1], low[2], high[2], tnx, tny, tnz, periodic, periodic, periodic, nop);
+    container con(low[0], high[0], low[1], high[1], low[2], high[2], tnx, tny, tnz, periodic, periodic, periodic, 8);
     pcon.setup(con);
 
     c_loop_all cl(con);
-- 
2.43.0


From 39694e9f3a1a6756a6eeb5f61ddcc3206911cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 11/55] fix: adaptive, sann and number neighbors

Read past the list of candidates in sann, filters were ignored by sann and
number, adaptive lists silently missed atoms beyond the guessed distance and
kept normalising weights as for Voronoi, left handed cells had a negative
volume, and the cutoff of an atom could be left from an earlier calculation.
---
 src/pyscal/system.cpp | 95 ++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 60 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index adccd79..41cebbf 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -938,27 +938,9 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
 
         //double prefactor = 1.21;
     double summ;
-    double boxvol;
-
     //some guesswork here
     //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
+    double boxvol = get_box_volume();
 
     //now find the volume per particle
     double guessvol = boxvol/float(nop);
@@ -985,9 +967,19 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
 
         if(assign == 1){
             //assign the neighbors
-            for(int i=0; i<nns; i++){
+            for(int i=0; (i<atoms[ti].temp_neighbors.size()) && (atoms[ti].n_neighbors<nns); i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
                 process_neighbor(ti, tj);
+                atoms[ti].cutoff = atoms[ti].temp_neighbors[i].dist;
+            }
+            if (atoms[ti].n_neighbors < nns){
+                return 0;
             }
         }
 
@@ -1138,27 +1130,9 @@ int System::get_all_neighbors_sann(double prefactor){
 
     //double prefactor = 1.21;
     double summ;
-    double boxvol;
-
     //some guesswork here
     //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
+    double boxvol = get_box_volume();
 
 
     //now find the volume per particle
@@ -1191,6 +1165,12 @@ int System::get_all_neighbors_sann(double prefactor){
         for(int i=0 ; i<m; i++){
             summ += atoms[ti].temp_neighbors[i].dist;
             int tj = atoms[ti].temp_neighbors[i].index;
+            if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                continue;
+            }
+            else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                continue;
+            }
             process_neighbor(ti, tj);
         }
 
@@ -1201,16 +1181,20 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            if (m == maxneighs) break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
-            process_neighbor(ti, tj);
+            if (!(((filter == 1) && (atoms[ti].type != atoms[tj].type)) ||
+                  ((filter == 2) && (atoms[ti].type == atoms[tj].type)))){
+                process_neighbor(ti, tj);
+            }
 
             //find new dcut
             summ = summ + atoms[ti].temp_neighbors[m].dist;
             dcut = summ/float(m-2);
-            atoms[ti].cutoff = dcut;
         }
+        atoms[ti].cutoff = dcut;
 
         //find if there was an error
         if (m==maxneighs){
@@ -1233,32 +1217,18 @@ int System::get_all_neighbors_sann(double prefactor){
 
 int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
 
+    //reset voronoi flag
+    voronoiused = 0;
+
     double d, dcut;
     double diffx,diffy,diffz;
     double r,theta,phi;
     int m, maxneighs, finished;
 
     double summ;
-    double boxvol;
     //some guesswork here
     //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
+    double boxvol = get_box_volume();
 
     //now find the volume per particle
     double guessvol = boxvol/float(nop);
@@ -1296,6 +1266,12 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
             summ += atoms[ti].temp_neighbors[i].dist;
         }
         dcut = padding*(1.0/float(nlimit))*summ;
+        atoms[ti].cutoff = dcut;
+
+        //atoms beyond the guess distance are not in the list
+        if (dcut > neighbordistance){
+            return 0;
+        }
 
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
@@ -1322,7 +1298,6 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
                 atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
                 atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = dcut;
 
             }
         }
-- 
2.43.0


From 18ddf717039c3e8c8b424e0348e644e0bf1365b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 12/55] fix: find_solids counted every bond as solid and
 ignored right=False

---
 src/pyscal/core.py    | 3 +++
 src/pyscal/system.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 985af2d..da4eb21 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -941,6 +941,9 @@ class System(pc.System):
         else:
              raise TypeError("bonds should be interger/float value")
 
+        #set the type of comparison
+        self.comparecriteria = 0 if right else 1
+
         #Set the vlaue of q
         self.solidq = q
         #first calculate q
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 41cebbf..efa2fa5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1728,10 +1728,12 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
+            }
             
             atoms[ti].avq6q6 += scalar;
         }
-- 
2.43.0


From 785f898aa192aea32ea465e64089d29a2359d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 13/55] fix: disorder was calculated from the first atoms of
 the system instead of the neighbors

---
 src/pyscal/system.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index efa2fa5..9518250 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1630,13 +1630,14 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+        for(int ci=0; ci<atoms[ti].n_neighbors; ci++){
+            int tj = atoms[ti].neighbors[ci];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
                 sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-- 
2.43.0


From d870a421abdef6b500601cf538f45262a416ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 14/55] fix: sign of the imaginary part of spherical harmonics
 with negative m

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9518250..1cee9aa 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1410,7 +1410,7 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From ccda8ecefa618a65779686ce760f4fc7ce9834d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 15/55] fix: clusters across the periodic boundary of small
 systems

Bonds to ghost atoms were ignored, the clustering cutoff overwrote the cutoffs
of the atoms, every atom was in the largest cluster when there was none, and
large clusters exhausted the stack.
---
 src/pyscal/system.cpp | 84 +++++++++++++++++--------------------------
 src/pyscal/system.h   |  3 +-
 2 files changed, 35 insertions(+), 52 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1cee9aa..f881492 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1771,62 +1771,44 @@ void System::find_solid_atoms(){
 
 
 void System::find_clusters(double clustercutoff){
-        //Clustering methods should only run over real atoms
-        if (clustercutoff != 0){
-          for(int ti=0; ti<real_nop;ti++){
-              atoms[ti].cutoff = clustercutoff;
-          }
-        }
-        for(int ti=0; ti<real_nop;ti++){
-            atoms[ti].belongsto = -1;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++){
-
-            if (!atoms[ti].condition) continue;
-            if (atoms[ti].ghost) continue;
-
-            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
-            for (int c = 0;c<atoms[ti].n_neighbors;c++){
+    find_clusters_recursive(clustercutoff);
+}
 
-                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
-                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
-                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
-                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
-                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
-                }
-                else{
-                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
-                }
-            }
-        }
+//Clustering methods should only run over real atoms, ghosts stand for the atoms they are images of
+int System::real_index(int ti){
+    if (!atoms[ti].ghost) return ti;
+    if ((atoms[ti].head >= 0) && (atoms[ti].head < real_nop)) return atoms[ti].head;
+    return -1;
 }
 
 //we have to test with a recursive algorithm - to match the values that is presented
 //in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
+void System::harvest_cluster(const int start, const int clusterindex, double clustercutoff){
 
-    int neigh;
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
-        if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
-        if (atoms[neigh].belongsto==-1){
-            atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
+    int ti, neigh;
+    double cutoff;
+    vector<int> pending;
+    pending.emplace_back(start);
+
+    while(!pending.empty()){
+        ti = pending.back();
+        pending.pop_back();
+        cutoff = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            neigh = real_index(atoms[ti].neighbors[i]);
+            if (neigh < 0) continue;
+            if(!atoms[neigh].condition) continue;
+            if(!(atoms[ti].neighbordist[i] <= cutoff)) continue;
+            if (atoms[neigh].belongsto==-1){
+                atoms[neigh].belongsto = clusterindex;
+                pending.emplace_back(neigh);
+            }
         }
     }
 }
 
 void System::find_clusters_recursive(double clustercutoff){
 
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
-    }
-  }
-
     int clusterindex;
     clusterindex = 0;
 
@@ -1841,7 +1823,7 @@ void System::find_clusters_recursive(double clustercutoff){
         if (atoms[ti].belongsto==-1){
             clusterindex += 1;
             atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
+            harvest_cluster(ti, clusterindex, clustercutoff);
         }
 
     }
@@ -1851,10 +1833,7 @@ void System::find_clusters_recursive(double clustercutoff){
 
 int System::largest_cluster(){
 
-        int *freq = new int[nop];
-        for(int ti=0;ti<real_nop;ti++){
-            freq[ti] = 0;
-        }
+        vector<int> freq(real_nop, 0);
 
         for (int ti= 0;ti<real_nop;ti++)
         {
@@ -1863,6 +1842,8 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        //no cluster has this id
+        maxclusterid = 0;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
@@ -1889,8 +1870,9 @@ void System::get_largest_cluster_atoms(){
             if(atoms[ti].issolid == 1){
                 atoms[ti].issurface = 0;
                 for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                    int neigh = real_index(atoms[ti].neighbors[tj]);
+                    if (neigh < 0) continue;
+                    if(atoms[neigh].issolid == 0){
                         atoms[ti].issurface = 1;
                         break;
                     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index e68b276..e5033f5 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -146,7 +146,8 @@ class System{
         int comparecriteria;
         void find_solid_atoms();
         void find_clusters(double);
-        void harvest_cluster(const int, const int);
+        int real_index(int);
+        void harvest_cluster(const int, const int, double);
         void find_clusters_recursive(double);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
-- 
2.43.0


From 0320bdbfaa2d16ac026a241c86f2bf3541fe9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 16/55] fix: entropy with local densities, left handed cells
 and empty shells

---
 src/pyscal/atom.cpp   | 2 ++
 src/pyscal/core.py    | 2 +-
 src/pyscal/system.cpp | 4 ++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index b4e58c4..4c02bef 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -487,6 +487,8 @@ double Atom::gmr(double r)
 double Atom::entropy_integrand(double r)
 {
         double g = gmr(r);
+        //limit of g*log(g)
+        if (g <= 0) return r*r;
         return ((g*log(g)-g +1.00)*r*r);
 }
 
diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index da4eb21..0bff734 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1763,7 +1763,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f881492..409bb2d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2641,10 +2641,10 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
     for(int i=0; i<nop; i++){
         
         atoms[i].sigma = sigma;
+        atoms[i].rho = rho;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 2f304ddee2fb4e0574802d7e19a5bf9f38193cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 17/55] fix: CNA, diamond and centrosymmetry with too few or
 earlier neighbors

Candidates left from an earlier calculation were counted twice by CNA, and
atoms with too few candidates were read past the end of their lists.
---
 src/pyscal/system.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 409bb2d..daa6e6b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -959,12 +959,13 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         get_temp_neighbors_brute();
     }
     for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
-        }
-
         sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
 
+        if (int(atoms[ti].temp_neighbors.size()) < nns){
+            finished = 0;
+            continue;
+        }
+
         if(assign == 1){
             //assign the neighbors
             for(int i=0; (i<atoms[ti].temp_neighbors.size()) && (atoms[ti].n_neighbors<nns); i++){
@@ -979,11 +980,9 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
                 atoms[ti].cutoff = atoms[ti].temp_neighbors[i].dist;
             }
             if (atoms[ti].n_neighbors < nns){
-                return 0;
+                finished = 0;
             }
         }
-
-        finished = 1;            
     }
 
 
@@ -2155,6 +2154,11 @@ void System::get_diamond_neighbors(){
     Also store the first and second nearest neighbors for
     latest identification.
     */
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 4){
+            throw runtime_error("four closest neighbors of each atom should be found first");
+        }
+    }
     reset_main_neighbors();
     for (int ti=0; ti<nop; ti++){
         //cout<<"ti = "<<ti<<endl;
@@ -2200,6 +2204,7 @@ void System::get_cna_neighbors(int style){
 
     for (int ti=0; ti<nop; ti++){
         atoms[ti].cutoff = factor*lattice_constant;
+        if (int(atoms[ti].temp_neighbors.size()) < ncount) continue;
         for(int i=0 ; i<ncount; i++){
             int tj = atoms[ti].temp_neighbors[i].index;
             //dist = atoms[ti].temp_neighbors[i].dist;
@@ -2556,6 +2561,7 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
+    reset_all_neighbors();
     get_all_neighbors_bynumber(3, 14, 0);
 
     //first we start by checking for 12 CN 
@@ -2695,7 +2701,10 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    filter = 0;
+    if (!get_all_neighbors_bynumber(3, nmax, 1)){
+        throw runtime_error("Could not find enough neighbors");
+    }
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From 52058952502e557c4cd495b0f4ed91d89ab15b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 18/55] fix: normalisation of the radial distribution function
 of small systems

---
 src/pyscal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 0bff734..d58c29b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -322,10 +322,10 @@ class System(pc.System):
         hist = hist.astype(float)
         r = bin_edges[:-1]
 
-        #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #get box density, distances include those of ghost atoms
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
-- 
2.43.0


From db94da3c7271842939707bded3a7adc21f98d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 19/55] fix: LAMMPS dumps of triclinic and rotated boxes, and
 the ASE fallback formats

---
 src/pyscal/formats/lammps.py | 48 +++++++++++++++++++++++-------------
 src/pyscal/traj_process.py   | 14 +++++------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..05e2389 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -188,14 +188,13 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
         b = np.array([tilts[0], yhi-ylo, 0])
         c = np.array([tilts[1], tilts[2], zhi-zlo])
 
-        rot = np.array([a, b, c]).T
-        rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
+        origin = np.array([xlo, ylo, zlo])
 
-        for atom in atoms:
-            #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+        if not scaled:
+            for atom in atoms:
+                #correct zero of the atomic positions (shift box to origin)
+                dist = np.array(atom.pos) - origin
+                atom.pos = dist
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
@@ -249,12 +248,21 @@ def write_snap(sys, outfile, compressed = False,
     if customkeys == None:
         customkeys = []
 
-    box = sys.box
-    boxx = np.sqrt(np.sum(np.array(box[0])**2))
-    boxy = np.sqrt(np.sum(np.array(box[1])**2))
-    boxz = np.sqrt(np.sum(np.array(box[2])**2))
-
+    box = np.array(sys.box)
     atoms = sys.atoms
+    positions = np.array([atom.pos for atom in atoms]).reshape(-1, 3)
+
+    #lammps needs the first vector along x, and the second one in the xy plane
+    if (np.triu(box, 1) != 0).any() or (np.diag(box) <= 0).any():
+        q, r = np.linalg.qr(box.T)
+        signs = np.where(np.diag(r) < 0, -1.0, 1.0)
+        rotation = q*signs
+        box = np.tril((r.T)*signs)
+        positions = np.dot(positions, rotation)
+
+    boxx, boxy, boxz = box[0][0], box[1][1], box[2][2]
+    xy, xz, yz = box[1][0], box[2][0], box[2][1]
+    triclinic = (np.abs([xy, xz, yz]) > 1E-6*np.max(np.abs(box))).any()
 
     if len(customkeys) > 0:
         if customvals is None:
@@ -284,10 +292,16 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    if triclinic:
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0.0, xy, xz, xy+xz), boxx + max(0.0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0.0, yz), boxy + max(0.0, yz), xz))
+        dump.write("%f %f %f\n" % (0, boxz, yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, boxx))
+        dump.write("%f %f\n" % (0, boxy))
+        dump.write("%f %f\n" % (0, boxz))
 
     #now write header
     if len(customkeys) > 0:
@@ -299,7 +313,7 @@ def write_snap(sys, outfile, compressed = False,
     dump.write(title_str)
 
     for cc, atom in enumerate(atoms):
-        pos = atom.pos
+        pos = positions[cc]
         if len(customkeys) > 0:
             cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
             atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..a1ba445 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -65,10 +65,9 @@ def read_file(filename, format="lammps-dump",
         try:
             #try to use ASE backend
             aseobject = read(filename, format=format)
-            atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
-        except:
-            raise TypeError("format recieved an unknown option %s"%format)
+        except Exception as e:
+            raise TypeError("format recieved an unknown option %s"%format) from e
+        atoms, box = ptase.read_snap(aseobject)
 
     return atoms, box       
 
@@ -126,12 +125,11 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
 
     else:
         #try a write using ase
+        aseobject = ptase.convert_snap(sys, species=species)
         try:
-            aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
-        except:
-            raise TypeError("format recieved an unknown option %s"%format)
+        except Exception as e:
+            raise TypeError("format recieved an unknown option %s"%format) from e
 
 
 def split_trajectory(infile, format='lammps-dump', compressed=False):
-- 
2.43.0


From e723bf021d01907e0f3ffa5fcf112924bc2b6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 20/55] fix: conversion to ASE changed the atoms of the system,
 and compressed POSCAR files

---
 src/pyscal/formats/ase.py  | 25 ++++++-------------------
 src/pyscal/formats/vasp.py |  6 +++++-
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..364a4a3 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -105,26 +105,13 @@ def convert_snap(sys, species=None):
         unique_types = np.unique(types)
         if not (len(unique_types) == len(species)):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
-        #now assign the species to custom
-        
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
-        #we should also get the unique species key
-        specieskey = "".join(species)
+        #now get the species of each atom
+        typedict = dict(zip(unique_types, species))
+        symbols = [typedict[atom.type] for atom in atoms]
     else:
         #now if species are already there in custom
         #we can safely ignore any input
-        types = [atom.type for atom in atoms]
-        unique_types = np.unique(types)
-        #now we know how many types are there
-        species = []
-        for ut in unique_types:
-            for atom in atoms:
-                if ut == atom.type:
-                    species.append(atom.custom['species'])
-                    break
-        specieskey = "".join(species)
+        symbols = [atom.custom['species'] for atom in atoms]
       
     cell = sys.box
     pbc = [1, 1, 1]
@@ -136,8 +123,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for atom, symbol in zip(atoms, symbols):
+        aseatom = Atom(symbol, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
diff --git a/src/pyscal/formats/vasp.py b/src/pyscal/formats/vasp.py
index ff42399..8e8d100 100644
--- a/src/pyscal/formats/vasp.py
+++ b/src/pyscal/formats/vasp.py
@@ -38,7 +38,11 @@ def read_snap(infile, compressed = False):
     >>> atoms, box = read_poscar('POSCAR.dat', compressed=True)
 
     """
-    aseobj = read(infile, format="vasp")
+    if compressed:
+        with gzip.open(infile, 'rt') as f:
+            aseobj = read(f, format="vasp")
+    else:
+        aseobj = read(infile, format="vasp")
     atoms, box = ptase.read_snap(aseobj)
     return atoms, box
 
-- 
2.43.0


From 4b46c0ed456a514c8779ace35432b9e443d7eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 21/55] fix: iteration, addition, indexing and modified blocks
 of trajectories

---
 src/pyscal/trajectory.py | 76 ++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..9595266 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,10 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        timeslice = Timeslice(self.trajectory, self.blocklist)
+        timeslice.trajectories = self.trajectories + ntraj.trajectories
+        timeslice.blocklists = self.blocklists + ntraj.blocklists
+        return timeslice
 
 
     def __radd__(self, ntraj):
@@ -157,9 +154,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
+                #keep the data if it is already loaded by the user
+                loaded = self.trajectories[count].loadlist[x]
+                if not loaded:
+                    self.trajectories[count].load(x)
                 data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                if not loaded:
+                    self.trajectories[count].unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
@@ -279,10 +280,28 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            blocklist = [self._check_blockno(blockno)]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
+    def _check_blockno(self, blockno):
+        """
+        Check the number of a block, negative numbers count from the end
+
+        Parameters
+        ----------
+        blockno : int
+            number of the block, starts from 0
+
+        Returns
+        -------
+        blockno : int
+            number of the block, between 0 and number of blocks
+        """
+        if not -self.nblocks <= blockno < self.nblocks:
+            raise IndexError("block %d is not in the trajectory of %d blocks"%(blockno, self.nblocks))
+        return blockno % self.nblocks
+
     def _get_natoms(self):
         """
         Get number of atoms in the system
@@ -315,10 +334,11 @@ class Trajectory:
         line_offset = []
         offset = 0
         nlines = 0
-        for line in open(self.filename, 'rb'):
-            line_offset.append(offset)
-            offset += len(line)
-            nlines += 1
+        with open(self.filename, 'rb') as fin:
+            for line in fin:
+                line_offset.append(offset)
+                offset += len(line)
+                nlines += 1
         
         self.nlines = nlines
         self.line_offset = line_offset
@@ -373,13 +393,14 @@ class Trajectory:
         """
         if n_slices is None:
             n_slices = self.nblocks
+        n_slices = min(n_slices, self.nblocks)
 
         if method == "ascending":
             for i in range(n_slices):
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
@@ -403,17 +424,14 @@ class Trajectory:
         data : list
             list of strings containing data
         """
-        start = blockno*self.blocksize
-        stop = (blockno+1)*self.blocksize
-
-        fin = open(self.filename, "rb")
-        fin.seek(0)
-        fin.seek(self.line_offset[start])
+        start = self._check_blockno(blockno)*self.blocksize
 
         data = []
-        for i in range(self.blocksize):
-            line = fin.readline().decode("utf-8")
-            data.append(line)
+        with open(self.filename, "rb") as fin:
+            fin.seek(self.line_offset[start])
+            for i in range(self.blocksize):
+                line = fin.readline().decode("utf-8")
+                data.append(line)
         return data
 
     def load(self, blockno):
@@ -441,7 +459,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
@@ -485,12 +503,8 @@ class Trajectory:
         """
         dd = self.data[blockno]
 
-        data = []
-        data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
-        data.append("ITEM: NUMBER OF ATOMS\n")
-        data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        #timestep, number of atoms and the style of the box stay as they are
+        data = self.get_block(blockno)[:5]
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From 681c33c414587f2c89c8bdfe5fd71fd162ee802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 22/55] fix: short range order of one shell and of types that
 are not contiguous

---
 src/pyscal/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index d58c29b..02e89d8 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1527,7 +1527,7 @@ class System(pc.System):
         self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
@@ -1601,8 +1601,7 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        mcomp = types[1][types[0] == compare_type][0]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
@@ -1643,7 +1642,7 @@ class System(pc.System):
         self.set_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
-- 
2.43.0


From 0104b41ee26147b00c2dc758dd3cac9c588e2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 23/55] fix: energies on the fly averages, ids, mass and
 leftover files

---
 src/pyscal/core.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 02e89d8..b5beb6e 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1891,27 +1891,33 @@ class System(pc.System):
         are used for averaging. Otherwise neighbors are calculated on the fly
         with an adaptive cutoff method.
         """
-        outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
-        aseobject = self.to_file(outfile, format='lammps-data', species=species)
-
-        indict = routines.get_energy_atom(outfile, species=species,
-            pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
-
-        atoms = self.atoms
-    
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
+        if isinstance(species, str):
+            species = [species]
 
-        #clean up
-        os.remove(outfile)
+        outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
+        try:
+            self.to_file(outfile, format='lammps-data', species=species)
+            indict = routines.get_energy_atom(outfile, species=species,
+                pair_style=pair_style, pair_coeff=pair_coeff,
+                mass=mass)
+        finally:
+            #clean up
+            if os.path.exists(outfile):
+                os.remove(outfile)
 
         if averaged:
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
-        for atom in atoms:
-            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
+        atoms = self.atoms
+
+        #atoms are numbered in order in the data file, ghost atoms have the energy of the real ones
+        energies = [indict[str(count+1)] for count in range(len(atoms))]
+        heads = [x if x < len(atoms) else atom.head for x, atom in enumerate(self.get_all_atoms())]
+
+        for count, atom in enumerate(atoms):
+            atom.energy = energies[count]
+            neteng = np.sum([energies[heads[x]] for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
         self.update_atoms(atoms)
-- 
2.43.0


From 4e8c172b0ab35cd1de02ac11026960643b75bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 24/55] fix: void search in small systems and triclinic cells

---
 src/pyscal/misc.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..3412033 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -2,6 +2,16 @@ import pyscal.core as pc
 import numpy as np
 import warnings
 
+def _stack(*arrays):
+    """
+    Stack arrays, which need not have the same length
+    """
+    if len(np.unique([len(x) for x in arrays])) > 1:
+        stacked = np.empty(len(arrays), dtype=object)
+        stacked[:] = arrays
+        return stacked
+    return np.array(arrays)
+
 def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_results=True, return_system=False):
     """
     Compare the atomic environment of given types of atoms
@@ -80,9 +90,9 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             return sys
     else:
         if return_system:
-            return np.array([vvx, vrx, vvc]), sys
+            return _stack(vvx, vrx, vvc), sys
         else:
-            return np.array([vvx, vrx, vvc])
+            return _stack(vvx, vrx, vvc)
 
 
 def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_system=False, 
@@ -129,15 +139,13 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     sys.find_neighbors(method="voronoi")
     sys.calculate_vorovector()
     atoms = sys.atoms
+    allatoms = sys.get_all_atoms()
 
     volumes = []
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    boxinv = np.linalg.inv(np.array(sys.box))
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
@@ -146,7 +154,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
         if atom.vorovector[1] == 4:
             #first to prevent small cells we need to filter
             neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            dists = np.array([sys.get_distance(atom, allatoms[x]) for x in neighs])
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
@@ -156,8 +164,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
             if mindistcount == 4:
                 volumes.append(atom.volume)
                 if direct_coordinates:
-                    p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(np.dot(atom.pos, boxinv).tolist())
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From c39175859c3f5ce76a3f176f97ba97533b60b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 25/55] fix: remap_atom in triclinic cells and for far
 positions

---
 src/pyscal/system.cpp | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index daa6e6b..1b947cb 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -599,42 +599,20 @@ vector<double> System::remap_atom(vector<double> pos){
         ay = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
         az = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
 
-        //scale to match the triclinic box size
-        dx = ax*boxx;
-        dy = ay*boxy;
-        dz = az*boxz;
-
         //now check pbc
-        //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        dx = dx/boxx;
-        dy = dy/boxy;
-        dz = dz/boxz;
+        ax -= floor(ax);
+        ay -= floor(ay);
+        az -= floor(az);
 
         //now transform back to normal system
-        ax = rot[0][0]*dx + rot[0][1]*dy + rot[0][2]*dz;
-        ay = rot[1][0]*dx + rot[1][1]*dy + rot[1][2]*dz;
-        az = rot[2][0]*dx + rot[2][1]*dy + rot[2][2]*dz;
-
-        //now assign to diffs and calculate distnace
-        dx = ax;
-        dy = ay;
-        dz = az;
+        dx = rot[0][0]*ax + rot[0][1]*ay + rot[0][2]*az;
+        dy = rot[1][0]*ax + rot[1][1]*ay + rot[1][2]*az;
+        dz = rot[2][0]*ax + rot[2][1]*ay + rot[2][2]*az;
     }
     else{
-        if (dx < 0) dx+=boxx;
-        else if (dx >= boxx) dx-=boxx;
-        if (dy < 0) dy+=boxy;
-        else if (dy >= boxy) dy-=boxy;
-        if (dz < 0) dz+=boxz;
-        else if (dz >= boxz) dz-=boxz;
+        dx -= boxx*floor(dx/boxx);
+        dy -= boxy*floor(dy/boxy);
+        dz -= boxz*floor(dz/boxz);
     }
     vector<double> rpos;
     rpos.emplace_back(dx);
-- 
2.43.0


From 85706ffa1a8f3fca04baa1596ccdfb98bfb3ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 26/55] fix: set_atom left the ghost atoms of small systems
 behind

---
 src/pyscal/system.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1b947cb..1e9f007 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -263,7 +263,21 @@ void System::satom(Atom atom1) {
     if ((idd < 0) || (idd >= nop)){
         throw out_of_range("there is no atom with index "+to_string(idd));
     }
+    double dx = atom1.posx - atoms[idd].posx;
+    double dy = atom1.posy - atoms[idd].posy;
+    double dz = atom1.posz - atoms[idd].posz;
     atoms[idd] = atom1;
+
+    //ghost atoms follow the atom they are images of
+    for(int i=real_nop; i<nop; i++){
+        if ((i != idd) && (atoms[i].head == idd)){
+            atoms[i].posx += dx;
+            atoms[i].posy += dy;
+            atoms[i].posz += dz;
+            atoms[i].type = atom1.type;
+            atoms[i].condition = atom1.condition;
+        }
+    }
 }
 
 //----------------------------------------------------
-- 
2.43.0


From 8aa8ae1726483c1177f6c02b9f5c7cb2b9b91df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 27/55] fix: Steinhardt parameters with filtered Voronoi
 neighbors were not normalised

---
 src/pyscal/system.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1e9f007..395f26a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1493,10 +1493,9 @@ void System::calculate_q(vector <int> qs){
                 }
 
             //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
+            //even those of Voronoi faces if some neighbors are not considered
+            realti = realti/weightsum;
+            imgti = imgti/weightsum;
 
 
             atoms[ti].realq[q-2][mi+q] = realti;
-- 
2.43.0


From b3000ebea8deb89e86a86af2e9122784112afe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 28/55] fix: Voronoi neighbors of narrow cells which are not
 the nearest images

---
 src/pyscal/system.cpp | 46 ++++++++++++++++++++++++-------------------
 src/pyscal/system.h   |  2 +-
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 395f26a..35081be 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1887,15 +1887,14 @@ void System::get_all_neighbors_voronoi(){
     //reset voronoi flag
     voronoiused = 1;
 
-    //images of the atoms around a triclinic cell, up to a distance which is
+    //images of the atoms around a triclinic or narrow cell, up to a distance which is
     //increased until the Voronoi cells do not change anymore
-    double margin = 0;
-    if (triclinic == 1){
-        margin = 3*cbrt(get_box_volume()/nop);
-    }
-    while (!find_voronoi_cells(margin)){
-        margin *= 1.5;
+    double margin = 3*cbrt(get_box_volume()/nop);
+    bool found = ((triclinic == 0) && find_voronoi_cells(0));
+    while (!found){
         reset_all_neighbors();
+        found = find_voronoi_cells(margin);
+        margin *= 1.5;
     }
 
     //now calculate the averged volume
@@ -1909,25 +1908,31 @@ double System::get_box_volume(){
 }
 
 /*
-The positions of all atoms within the triclinic cell followed by their images within
+The positions of all atoms within the cell followed by their images within
 a margin around the cell. Owners are the indices of the corresponding atoms.
 */
-void System::get_triclinic_images(double margin, vector<vector<double>> &points, vector<int> &owners){
+void System::get_images(double margin, vector<vector<double>> &points, vector<int> &owners){
 
     vector<vector<double>> relative;
     int images[3];
     double reach[3];
+    double vecs[3][3] = {{boxx, 0, 0}, {0, boxy, 0}, {0, 0, boxz}};
+    double inverse[3][3] = {{1/boxx, 0, 0}, {0, 1/boxy, 0}, {0, 0, 1/boxz}};
 
     for(int k=0; k<3; k++){
-        //rows of rotinv are the inverse of the height of the cell
-        reach[k] = margin*sqrt(rotinv[k][0]*rotinv[k][0] + rotinv[k][1]*rotinv[k][1] + rotinv[k][2]*rotinv[k][2]);
+        for(int m=0; (m<3) && (triclinic == 1); m++){
+            vecs[k][m] = rot[k][m];
+            inverse[k][m] = rotinv[k][m];
+        }
+        //rows of the inverse are the inverse of the height of the cell
+        reach[k] = margin*sqrt(inverse[k][0]*inverse[k][0] + inverse[k][1]*inverse[k][1] + inverse[k][2]*inverse[k][2]);
         images[k] = ceil(reach[k]);
     }
 
     for(int ti=0; ti<nop; ti++){
         vector<double> rel;
         for(int k=0; k<3; k++){
-            double f = rotinv[k][0]*atoms[ti].posx + rotinv[k][1]*atoms[ti].posy + rotinv[k][2]*atoms[ti].posz;
+            double f = inverse[k][0]*atoms[ti].posx + inverse[k][1]*atoms[ti].posy + inverse[k][2]*atoms[ti].posz;
             rel.emplace_back(f - floor(f));
         }
         relative.emplace_back(rel);
@@ -1948,7 +1953,7 @@ void System::get_triclinic_images(double margin, vector<vector<double>> &points,
                         if (!inside) continue;
                         vector<double> pos;
                         for(int m=0; m<3; m++){
-                            pos.emplace_back(rot[m][0]*f[0] + rot[m][1]*f[1] + rot[m][2]*f[2]);
+                            pos.emplace_back(vecs[m][0]*f[0] + vecs[m][1]*f[1] + vecs[m][2]*f[2]);
                         }
                         points.emplace_back(pos);
                         owners.emplace_back(ti);
@@ -1961,7 +1966,8 @@ void System::get_triclinic_images(double margin, vector<vector<double>> &points,
 
 /*
 Find the Voronoi cells of all atoms. Returns false if images within `margin` of
-a triclinic cell are not enough to do so.
+the cell are not enough to do so. If `margin` is zero, the periodic boundaries of
+an orthogonal cell are used, which is not enough if neighbors are not the nearest images.
 */
 bool System::find_voronoi_cells(double margin){
 
@@ -1986,11 +1992,10 @@ bool System::find_voronoi_cells(double margin){
     vector<int> owners;
     double low[3] = {0.0, 0.0, 0.0};
     double high[3] = {boxx, boxy, boxz};
-    bool periodic = true;
+    bool periodic = (margin == 0);
 
-    if (triclinic == 1){
-        get_triclinic_images(margin, points, owners);
-        periodic = false;
+    if (!periodic){
+        get_images(margin, points, owners);
         for(int k=0; k<3; k++){
             low[k] = high[k] = points[0][k];
             for(size_t i=0; i<points.size(); i++){
@@ -2018,7 +2023,8 @@ bool System::find_voronoi_cells(double margin){
 
     c_loop_all cl(con);
     if (cl.start()) do if((cl.pid() < nop) && con.compute_cell(c,cl)) {
-            if ((triclinic == 1) && (2*sqrt(c.max_radius_squared()) >= margin)){
+            //neighbors are up to sqrt(max_radius_squared), twice the actual radius, away
+            if (sqrt(c.max_radius_squared()) >= (periodic ? 0.5*min(boxx, min(boxy, boxz)) : 0.5*margin)){
                 return false;
             }
             ti=cl.pid();
@@ -2087,7 +2093,7 @@ bool System::find_voronoi_cells(double margin){
                 int nn = atoms[ti].n_neighbors;
                 atoms[ti].neighbors[nn] = owners[neigh[tj]];
                 atoms[ti].n_neighbors += 1;
-                if (triclinic == 1){
+                if (!periodic){
                     diffx = points[neigh[tj]][0] - points[ti][0];
                     diffy = points[neigh[tj]][1] - points[ti][1];
                     diffz = points[neigh[tj]][2] - points[ti][2];
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index e5033f5..6b9ed40 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -85,7 +85,7 @@ class System{
         int get_all_neighbors_adaptive(double, int, double);
         void get_all_neighbors_voronoi();
         double get_box_volume();
-        void get_triclinic_images(double, vector<vector<double>>&, vector<int>&);
+        void get_images(double, vector<vector<double>>&, vector<int>&);
         bool find_voronoi_cells(double);
         void reset_all_neighbors();
         void reset_main_neighbors();        
-- 
2.43.0


From 1f1c3f5285d6f5a76f5d556909d2912bdbc66bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 29/55] fix: number of solid bonds was not accessible, bonds
 was defined twice

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index a26d818..195501d 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -422,7 +422,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("common_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0


From 02e61e03f663538f0bf538ea5243d29d4ead719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 30/55] fix: condition of clustering was applied to the
 Steinhardt parameters calculated next

---
 src/pyscal/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b5beb6e..249686b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1051,6 +1051,7 @@ class System(pc.System):
         
         #now loop
         atoms = self.atoms
+        backup = [atom.condition for atom in atoms]
 
         if isatomattr:
             for atom in atoms:
@@ -1063,6 +1064,12 @@ class System(pc.System):
         self.update_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
+        #the condition of clustering should not be used for the next q values
+        atoms = self.atoms
+        for atom, value in zip(atoms, backup):
+            atom.condition = value
+        self.update_atoms(atoms)
+
         #done!
         lc = self.find_largest_cluster()
         #pcs.System.get_largest_cluster_atoms(self)
-- 
2.43.0


From fffc2431fc4719cca57b0a5ff7b1b57c113b42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 31/55] fix: common neighbor analysis counted bonds with other
 images in narrow cells

---
 src/pyscal/system.cpp | 30 +++++++++++++++++++++++-------
 src/pyscal/system.h   |  1 +
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 35081be..cd14f59 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2268,12 +2268,23 @@ void System::get_acna_neighbors(int style){
     }
 }
 
+double System::get_neighbor_separation(int ti, int i, int j){
+    /*
+    Distance between two neighbors of an atom, in the surroundings of that atom. In a cell which
+    is only a few interatomic distances wide, other images of the same two atoms can be closer.
+    */
+    double dx = atoms[ti].n_diffx[i] - atoms[ti].n_diffx[j];
+    double dy = atoms[ti].n_diffy[i] - atoms[ti].n_diffy[j];
+    double dz = atoms[ti].n_diffz[i] - atoms[ti].n_diffz[j];
+    return sqrt(dx*dx + dy*dy + dz*dz);
+}
+
 void System::get_common_neighbors(int ti){
     /*
     Get common neighbors between an atom and its neighbors
     */
     int m, n;
-    double d, dx, dy, dz;
+    double d;
 
     //we have to rest a couple of things first
     //cna vector
@@ -2294,7 +2305,7 @@ void System::get_common_neighbors(int ti){
         m = atoms[ti].neighbors[i];
         for(int j=i+1; j<atoms[ti].n_neighbors; j++){
             n = atoms[ti].neighbors[j];
-            d = get_abs_distance(m, n, dx, dy, dz);
+            d = get_neighbor_separation(ti, i, j);
             if (d <= atoms[ti].cutoff){
                 atoms[ti].cna[i][0]++;
                 atoms[ti].common[i].emplace_back(n);
@@ -2310,8 +2321,8 @@ void System::get_common_bonds(int ti){
     /*
     Last two steps for CNA analysis
     */
-    int c1, c2, maxbonds, minbonds;
-    double d, dx, dy, dz;
+    int maxbonds, minbonds;
+    double d;
 
     //first we clear the bonds array
     atoms[ti].bonds.clear();
@@ -2323,12 +2334,17 @@ void System::get_common_bonds(int ti){
         for(int l=0; l<atoms[ti].cna[k][0]; l++){
             atoms[ti].bonds[k].emplace_back(0);
         }
+        //places of the common neighbors in the list of neighbors, in the order of atoms[ti].common[k]
+        vector<int> slots;
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            if ((i != k) && (get_neighbor_separation(ti, i, k) <= atoms[ti].cutoff)){
+                slots.emplace_back(i);
+            }
+        }
         //now start proper loop
         for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
             for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
-                c1 = atoms[ti].common[k][l];
-                c2 = atoms[ti].common[k][m];
-                d = get_abs_distance(c1, c2, dx, dy, dz);
+                d = get_neighbor_separation(ti, slots[l], slots[m]);
                 if(d <= atoms[ti].cutoff){
                     atoms[ti].cna[k][1]++;
                     atoms[ti].bonds[k][l]++;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 6b9ed40..2445ed5 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -171,6 +171,7 @@ class System{
         void identify_cndia();
         void get_cna_neighbors(int);
         void get_acna_neighbors(int);
+        double get_neighbor_separation(int, int, int);
         void get_common_neighbors(int);
         void get_common_bonds(int);
         void identify_cn12();
-- 
2.43.0


From ee84771a51f832ed66c8c2a952dfcbe5a15dbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:07 +0000
Subject: [PATCH 32/55] fix: a single custom column of a LAMMPS dump could not
 be written as documented

---
 src/pyscal/formats/lammps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 05e2389..8d2bda6 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -245,8 +245,13 @@ def write_snap(sys, outfile, compressed = False,
     None
 
     """
-    if customkeys == None:
+    if customkeys is None:
         customkeys = []
+    elif isinstance(customkeys, str):
+        customkeys = [customkeys]
+    #a single column can be given as a plain list
+    if customvals is not None and len(customkeys) == 1 and np.ndim(customvals) == 1:
+        customvals = np.reshape(customvals, (-1, 1))
 
     box = np.array(sys.box)
     atoms = sys.atoms
-- 
2.43.0


From 8cbb2b70c492d554d463452b8e368062fe97b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 33/55] fix: blocks written after an unterminated last line,
 and the text of empty trajectory slices

---
 src/pyscal/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 9595266..2d10ccb 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -80,7 +80,7 @@ class Timeslice:
         """
         String of the class
         """
-        blockstring = ["%d-%d"%(x[0], x[-1]) for x in self.blocklists]
+        blockstring = ["%d-%d"%(x[0], x[-1]) if len(x) > 0 else "empty" for x in self.blocklists]
         blockstring = "/".join(blockstring)
 
         data = "Trajectory slice\n %s\n natoms=%d\n"%(blockstring, self.trajectory.natoms)
@@ -622,3 +622,6 @@ class Trajectory:
                 data = self.get_block(x)
             for line in data:
                 fout.write(line)
+            #the last line of the file might not be terminated
+            if not data[-1].endswith("\n"):
+                fout.write(os.linesep)
-- 
2.43.0


From 302470f2ae91fe52d8c2674ae6a44828746e1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 34/55] fix: assigned neighbor distances, vectors, angles and
 sij of an Atom were ignored

---
 src/pyscal/atom.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 4c02bef..728ad5f 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -145,6 +145,10 @@ vector<int> Atom::gneighbors(){
 }
 
 void Atom::sneighdist(vector<double> dd){
+    check_capacity(dd.size());
+    for(int i=0; i<dd.size(); i++){
+        neighbordist[i] = dd[i];
+    }
 }
 
 vector<double> Atom::gneighdist(){
@@ -193,7 +197,17 @@ vector<double> Atom::gneighborweights(){
 }
 
 void Atom::sdistvecs(vector<vector<double>> nss){
-
+    check_capacity(nss.size());
+    for(int i=0; i<nss.size(); i++){
+        if (nss[i].size() != 3){
+            throw invalid_argument("vector should have three components");
+        }
+    }
+    for(int i=0; i<nss.size(); i++){
+        n_diffx[i] = nss[i][0];
+        n_diffy[i] = nss[i][1];
+        n_diffz[i] = nss[i][2];
+    }
 }
 
 vector<vector<double>> Atom::gdistvecs(){
@@ -212,7 +226,16 @@ vector<vector<double>> Atom::gdistvecs(){
 }
 
 void Atom::slocalangles(vector<vector<double>> nss){
-
+    check_capacity(nss.size());
+    for(int i=0; i<nss.size(); i++){
+        if (nss[i].size() != 2){
+            throw invalid_argument("local angles should be of the form (phi, theta)");
+        }
+    }
+    for(int i=0; i<nss.size(); i++){
+        n_phi[i] = nss[i][0];
+        n_theta[i] = nss[i][1];
+    }
 }
 
 vector<vector<double>> Atom::glocalangles(){
@@ -233,6 +256,10 @@ vector<vector<double>> Atom::glocalangles(){
 // Q parameter properties
 //-------------------------------------------------------
 void Atom::ssij(vector<double> dd){
+    check_capacity(dd.size());
+    for(int i=0; i<dd.size(); i++){
+        sij[i] = dd[i];
+    }
 }
 
 vector<double> Atom::gsij(){
-- 
2.43.0


From 01810a482f46b49c72be0ead60e75740aa14f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:42 +0000
Subject: [PATCH 35/55] fix: extract_cubic_box lost or repeated atoms on the
 borders of the cubic box

---
 src/pyscal/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 249686b..9bb6e24 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2093,9 +2093,10 @@ class System(pc.System):
         collectedatoms = []
         for atom in ratoms:
             pos = atom.pos
-            if (nb[0][0] <= pos[0] < nb[0][1]):
-                if (nb[1][0] <= pos[1] < nb[1][1]):
-                    if (nb[2][0] <= pos[2] < nb[2][1]):
+            #the tolerance keeps one of the atoms on opposite borders
+            if (nb[0][0] - 1E-5 <= pos[0] < nb[0][1] - 1E-5):
+                if (nb[1][0] - 1E-5 <= pos[1] < nb[1][1] - 1E-5):
+                    if (nb[2][0] - 1E-5 <= pos[2] < nb[2][1] - 1E-5):
                         collectedatoms.append(atom)
 
         #remap atoms to box
-- 
2.43.0


From 0f615d4185c03396dc5c2cd1b96b233d5f093f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 36/55] fix: remap_atoms removed atoms on the border of the box
 as being outside

---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9bb6e24..18cc387 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2172,7 +2172,8 @@ class System(pc.System):
             temp = []
             for atom in atoms:
                 relpos = np.dot(atom.pos, invbox)
-                if np.all(relpos >= 0) and np.all(relpos < 1):
+                #rounding can leave atoms on the border
+                if np.all(relpos >= -1E-8) and np.all(relpos < 1 + 1E-8):
                     temp.append(atom)
             atoms = temp
         
-- 
2.43.0


From c7b4baaeded625bd0eb730b7dc90f186e07f2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 37/55] fix: Voronoi cells of atoms that fill only a part of a
 triclinic cell, and of boxes or positions that are not finite

---
 src/pyscal/system.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index cd14f59..76b5655 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1887,6 +1887,15 @@ void System::get_all_neighbors_voronoi(){
     //reset voronoi flag
     voronoiused = 1;
 
+    //there are no Voronoi cells otherwise
+    bool valid = (isfinite(get_box_volume()) && (get_box_volume() > 0));
+    for(int ti=0; ti<nop; ti++){
+        valid = (valid && isfinite(atoms[ti].posx) && isfinite(atoms[ti].posy) && isfinite(atoms[ti].posz));
+    }
+    if (!valid){
+        throw invalid_argument("Voronoi neighbors need a box of finite volume and finite positions");
+    }
+
     //images of the atoms around a triclinic or narrow cell, up to a distance which is
     //increased until the Voronoi cells do not change anymore
     double margin = 3*cbrt(get_box_volume()/nop);
@@ -1996,14 +2005,19 @@ bool System::find_voronoi_cells(double margin){
 
     if (!periodic){
         get_images(margin, points, owners);
+        //the walls are farther than the margin from all atoms of the cell
         for(int k=0; k<3; k++){
-            low[k] = high[k] = points[0][k];
+            low[k] = -1.01*margin;
+            high[k] = 1.01*margin;
+            for(int m=0; m<3; m++){
+                double length = (triclinic == 1) ? box[m][k] : fabs(box[m][k]);
+                low[k] += min(0.0, length);
+                high[k] += max(0.0, length);
+            }
             for(size_t i=0; i<points.size(); i++){
-                low[k] = min(low[k], points[i][k]);
-                high[k] = max(high[k], points[i][k]);
+                low[k] = min(low[k], points[i][k] - 0.01*margin);
+                high[k] = max(high[k], points[i][k] + 0.01*margin);
             }
-            low[k] -= 0.01*margin;
-            high[k] += 0.01*margin;
         }
     }
     else{
-- 
2.43.0


From 6ed342d190db9e307e3c1319fc0abccb19612458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 38/55] fix: neighbor lists of atoms that refer to atoms
 outside the system were read out of bounds

---
 src/pyscal/system.cpp | 31 +++++++++++++++++++++++++++++++
 src/pyscal/system.h   |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 76b5655..1a110b5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -114,6 +114,27 @@ vector<vector<double>> System::gbox(){
 // Atom related methods
 //-----------------------------------------------------
 //this function allows for handling custom formats of atoms and so on
+//neighbors should be atoms of the system
+bool System::has_valid_neighbors(const Atom &atom1){
+    for(int i=0; i<atom1.n_neighbors; i++){
+        if ((atom1.neighbors[i] < 0) || (atom1.neighbors[i] >= nop)) return false;
+    }
+    for(size_t i=0; i<atom1.temp_neighbors.size(); i++){
+        if ((atom1.temp_neighbors[i].index < 0) || (atom1.temp_neighbors[i].index >= nop)) return false;
+    }
+    return true;
+}
+
+//remove neighbors which were found in another system
+void System::remove_invalid_neighbors(){
+    for(int i=0; i<nop; i++){
+        if (!has_valid_neighbors(atoms[i])){
+            atoms[i].n_neighbors = 0;
+            atoms[i].temp_neighbors.clear();
+        }
+    }
+}
+
 void System::set_atoms( vector<Atom> atomitos){
 
     atoms.clear();
@@ -137,6 +158,7 @@ void System::set_atoms( vector<Atom> atomitos){
 
     ghost_nop = tg;
     real_nop = tl;
+    remove_invalid_neighbors();
     //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
     //cout<<nop<<endl;
 
@@ -222,6 +244,7 @@ void System::add_atoms(vector<Atom> atomitos){
     for(int i=0; i<nop; i++){
         atoms[i].loc = i;
     }
+    remove_invalid_neighbors();
 }
 
 
@@ -231,6 +254,11 @@ void System::update_atoms(vector<Atom> atomitos){
     if (atomitos.size() != real_nop){
         throw invalid_argument("the number of atoms should not change");
     }
+    for(int i=0; i<real_nop; i++){
+        if (!has_valid_neighbors(atomitos[i])){
+            throw out_of_range("neighbors of an atom should be atoms of the system");
+        }
+    }
     for(int i=0; i<real_nop; i++){
         atoms[i] = atomitos[i];
         atoms[i].loc = i;
@@ -263,6 +291,9 @@ void System::satom(Atom atom1) {
     if ((idd < 0) || (idd >= nop)){
         throw out_of_range("there is no atom with index "+to_string(idd));
     }
+    if (!has_valid_neighbors(atom1)){
+        throw out_of_range("neighbors of an atom should be atoms of the system");
+    }
     double dx = atom1.posx - atoms[idd].posx;
     double dy = atom1.posy - atoms[idd].posy;
     double dz = atom1.posz - atoms[idd].posz;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 2445ed5..3058268 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -59,6 +59,8 @@ class System{
         void assign_particles( vector<Atom>);
         void read_particle_file(string);    // TBDep
         void set_atoms( vector<Atom>);
+        bool has_valid_neighbors(const Atom &);
+        void remove_invalid_neighbors();
         vector<Atom> get_atoms();
         void add_atoms( vector<Atom>);
         void update_atoms( vector<Atom>);
-- 
2.43.0


From e84d8124218ed91d3619ff636e9099a16b36a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 39/55] fix: cell lists for positions that are not finite and
 cutoffs that are not positive

---
 src/pyscal/system.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1a110b5..144f6cc 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -551,11 +551,19 @@ int System::cell_index(int cx, int cy, int cz){
 }
 
 
+//positions so far away that they cannot be remapped belong to the cells on the border
+static inline int cell_coordinate(double c, int ncells){
+    if (!(c >= 0)) return 0;
+    if (c >= ncells) return ncells-1;
+    return int(c);
+}
+
 //if number of particles are small, use brute force
 //if box is triclinic, use brute force
 //with less than three cells in a direction, neighbor cells are not distinct
 bool System::can_use_cells(){
     if (triclinic == 1) return false;
+    if (!(neighbordistance > 0)) return false;
     return ((boxx >= 3*neighbordistance) && (boxy >= 3*neighbordistance) && (boxz >= 3*neighbordistance));
 }
 
@@ -616,9 +624,9 @@ void System::set_up_cells(){
           dz -= boxz*floor(dz/boxz);
 
           //now find c vals
-          cx = min(int(dx/lx), nx-1);
-          cy = min(int(dy/ly), ny-1);
-          cz = min(int(dz/lz), nz-1);
+          cx = cell_coordinate(dx/lx, nx);
+          cy = cell_coordinate(dy/ly, ny);
+          cz = cell_coordinate(dz/lz, nz);
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
-- 
2.43.0


From b76a9027555880ef6c6a1e59048429798233deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 40/55] fix: remap_atom of short positions and clusters outside
 the range of atoms read out of bounds

---
 src/pyscal/system.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 144f6cc..7b3efc9 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -641,6 +641,9 @@ void System::set_up_cells(){
 vector<double> System::remap_atom(vector<double> pos){
     //remap atom position into the box
     //now apply boxdims
+    if (pos.size() != 3){
+        throw invalid_argument("position should have three components");
+    }
     double dx = pos[0];
     double dy = pos[1];
     double dz = pos[2];
@@ -1866,7 +1869,7 @@ int System::largest_cluster(){
 
         for (int ti= 0;ti<real_nop;ti++)
         {
-            if (atoms[ti].belongsto==-1) continue;
+            if ((atoms[ti].belongsto < 1) || (atoms[ti].belongsto > real_nop)) continue;
             freq[atoms[ti].belongsto-1]++;
         }
 
-- 
2.43.0


From 6f1f9f62511a55d7771d9afcbfca9f7b0e854742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 41/55] fix: entropy with steps that are not positive or not
 finite counted steps out of range

---
 src/pyscal/atom.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 728ad5f..974e76d 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -523,7 +523,11 @@ double Atom::entropy_integrand(double r)
 void Atom::trapezoid_integration()
 {
 
-        int nsteps = (rstop - rstart)/h;
+        double steps = (rstop - rstart)/h;
+        if (!(h > 0) || !(abs(steps) < 2E9)){
+            throw invalid_argument("the width of steps for the integration should be positive, and their number finite");
+        }
+        int nsteps = steps;
         double summ;
         double xstart, xend;
         summ=0.00;
-- 
2.43.0


From fb4fbff93bf22f5cf14a7e66d7f837df7193c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 42/55] fix: Voronoi neighbors of extremely narrow cells ended
 the process or never returned

---
 src/pyscal/system.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7b3efc9..9c1002e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1941,7 +1941,7 @@ void System::get_all_neighbors_voronoi(){
     //images of the atoms around a triclinic or narrow cell, up to a distance which is
     //increased until the Voronoi cells do not change anymore
     double margin = 3*cbrt(get_box_volume()/nop);
-    bool found = ((triclinic == 0) && find_voronoi_cells(0));
+    bool found = ((triclinic == 0) && (min(boxx, min(boxy, boxz)) > 0) && find_voronoi_cells(0));
     while (!found){
         reset_all_neighbors();
         found = find_voronoi_cells(margin);
@@ -1967,6 +1967,7 @@ void System::get_images(double margin, vector<vector<double>> &points, vector<in
     vector<vector<double>> relative;
     int images[3];
     double reach[3];
+    double npoints = nop;
     double vecs[3][3] = {{boxx, 0, 0}, {0, boxy, 0}, {0, 0, boxz}};
     double inverse[3][3] = {{1/boxx, 0, 0}, {0, 1/boxy, 0}, {0, 0, 1/boxz}};
 
@@ -1977,7 +1978,11 @@ void System::get_images(double margin, vector<vector<double>> &points, vector<in
         }
         //rows of the inverse are the inverse of the height of the cell
         reach[k] = margin*sqrt(inverse[k][0]*inverse[k][0] + inverse[k][1]*inverse[k][1] + inverse[k][2]*inverse[k][2]);
-        images[k] = ceil(reach[k]);
+        npoints *= (1 + 2*reach[k]);
+        images[k] = ceil(min(reach[k], 1E6));
+    }
+    if (!(npoints < 2E6 + 64.0*nop)){
+        throw runtime_error("the cell is too narrow for Voronoi neighbors");
     }
 
     for(int ti=0; ti<nop; ti++){
@@ -2069,6 +2074,16 @@ bool System::find_voronoi_cells(double margin){
         }
     }
 
+    //memory grows with the number of blocks of the container, which is large if it is narrow
+    double spacing = cbrt((high[0]-low[0])*(high[1]-low[1])*(high[2]-low[2])/points.size());
+    double blocks = 1;
+    for(int k=0; k<3; k++){
+        blocks *= (1 + (high[k]-low[k])/spacing);
+    }
+    if (!(blocks < 2E6 + 64.0*points.size())){
+        throw runtime_error("the cell is too narrow for Voronoi neighbors");
+    }
+
     pre_container pcon(low[0], high[0], low[1], high[1], low[2], high[2], periodic, periodic, periodic);
     for(size_t i=0; i<points.size(); i++){
         pcon.put(i, points[i][0], points[i][1], points[i][2]);
-- 
2.43.0


From 7301e164a0c9c75156cae020d06777928e3bd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:40 +0000
Subject: [PATCH 43/55] fix: positions very far away from the box were not
 remapped into it

---
 src/pyscal/system.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9c1002e..4aa1544 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -638,6 +638,13 @@ void System::set_up_cells(){
       //end of loop - all cells, the member atoms and neighboring cells are added
 }
 
+//also exact for positions which are very far away
+static inline double remap_coordinate(double c, double length){
+    c = fmod(c, length);
+    if (c*length < 0) c += length;
+    return c;
+}
+
 vector<double> System::remap_atom(vector<double> pos){
     //remap atom position into the box
     //now apply boxdims
@@ -666,9 +673,9 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = rot[2][0]*ax + rot[2][1]*ay + rot[2][2]*az;
     }
     else{
-        dx -= boxx*floor(dx/boxx);
-        dy -= boxy*floor(dy/boxy);
-        dz -= boxz*floor(dz/boxz);
+        dx = remap_coordinate(dx, boxx);
+        dy = remap_coordinate(dy, boxy);
+        dz = remap_coordinate(dz, boxz);
     }
     vector<double> rpos;
     rpos.emplace_back(dx);
-- 
2.43.0


From 50523c4a6d9683d0cf2d958611da0f82e89c84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:17 +0000
Subject: [PATCH 44/55] fix: find_neighbors with an unknown method claimed to
 have found neighbors

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 18cc387..6c789a7 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -577,6 +577,9 @@ class System(pc.System):
             self.voroexp = int(voroexp)
             self.get_all_neighbors_voronoi()
 
+        else:
+            raise ValueError("method should be cutoff, number or voronoi")
+
         self.neighbors_found = True
 
     def find_diamond_neighbors(self):
-- 
2.43.0


From bb9f995a1ca37e8711e38254233badf8c5c7e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:43 +0000
Subject: [PATCH 45/55] fix: assigning wrong or no atoms left a small system
 with an inconsistent box

---
 src/pyscal/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6c789a7..212d47f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -148,13 +148,17 @@ class System(pc.System):
         """
         Set atoms
         """
+        atoms = list(atoms)
+        if not all(isinstance(atom, Atom) for atom in atoms):
+            raise TypeError("atoms should be a list of Atom objects")
+
         if self.ghosts_created:
             #remove the ghosts of the previous atoms
             self._set_cell(self.box)
             self.actual_box = None
             self.ghosts_created = False
 
-        if(len(atoms) < 200):
+        if(0 < len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
             #get a rough cell
-- 
2.43.0


From 7c076103f68621f122319b754e8bcd5667d9cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 46/55] fix: a LAMMPS dump that ends early was read as a
 snapshot with fewer atoms

---
 src/pyscal/formats/lammps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 8d2bda6..a02459c 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -170,6 +170,9 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     if not islist:
         f.close()
 
+    if not paramsread or len(atoms) != natoms:
+        raise ValueError("the snapshot is incomplete")
+
     if triclinic:
         #process triclinic box
         amin = min([0.0, tilts[0], tilts[1] ,tilts[0]+tilts[1]])
-- 
2.43.0


From 41b98a80f52597438402c2c5b6dcbc422f6e8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 47/55] fix: compare_atomic_env attributed Voronoi fingerprints
 to the wrong volumes

---
 src/pyscal/misc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3412033..fb1e63a 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -70,8 +70,15 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
     vvx, vvc = np.unique(vols, return_counts=True)
     vrx, vrc = np.unique(vors, return_counts=True)
 
+    #order the fingerprints such that they correspond to the volumes
+    fingerprints = [np.unique(np.array(vors)[vols == vol]) for vol in vvx]
+    matched = (len(vvx) == len(vrx)) and all(len(x) == 1 for x in fingerprints)
+    if matched:
+        order = [list(vrx).index(x[0]) for x in fingerprints]
+        vrx = vrx[order]
+
     length_mismatch = False
-    if (len(vvx) != len(vrx)):
+    if not matched:
         warnings.warn("Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?")
         length_mismatch = True
 
-- 
2.43.0


From 79ee9ac819ba6840c987e57baf0e1e468041bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:48 +0000
Subject: [PATCH 48/55] fix: atom types were renumbered alphabetically in
 LAMMPS data files

---
 src/pyscal/traj_process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index a1ba445..0e9c0ad 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -116,7 +116,11 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
     
     elif format == 'lammps-data':
         aseobject = ptase.convert_snap(sys, species=species)
-        write(outfile, aseobject, format='lammps-data')
+        #types in the file should be in the order of the types of atoms
+        symbols = aseobject.get_chemical_symbols()
+        order = np.argsort([atom.type for atom in sys.atoms], kind='stable')
+        specorder = list(dict.fromkeys(symbols[x] for x in order))
+        write(outfile, aseobject, format='lammps-data', specorder=specorder)
     
     elif format == 'poscar':
         ptvasp.write_snap(sys, outfile, species=species)
-- 
2.43.0


From 73777d5eba3d0fc2507888248bd0f838497e7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:17 +0000
Subject: [PATCH 49/55] fix: colors of filtered plots were those of other atoms

---
 src/pyscal/visualization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 915bfc0..7cde705 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -155,11 +155,10 @@ def plot_system(sys, colorby=None, filterby=None):
     filters = []
     for count, atom in enumerate(atoms):
         if filterby is not None:
-            if sys.get_custom(atom, [filterby])[0]:
-                positions.append(np.array(sys.remap_atom(atom.pos)))
-        else:
-            positions.append(np.array(sys.remap_atom(atom.pos)))
-    
+            if not sys.get_custom(atom, [filterby])[0]:
+                continue
+        positions.append(np.array(sys.remap_atom(atom.pos)))
+
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
             colors.append(cx)
-- 
2.43.0


From e561c34dd4335948aae66ce264b5c1cfdac09769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 50/55] fix: plots of small systems showed atoms outside the
 box that is drawn

---
 src/pyscal/visualization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 7cde705..4eee9fa 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -153,11 +153,15 @@ def plot_system(sys, colorby=None, filterby=None):
     positions = []
     colors = []
     filters = []
+    box = np.array(sys.box)
+    invbox = np.linalg.inv(box)
     for count, atom in enumerate(atoms):
         if filterby is not None:
             if not sys.get_custom(atom, [filterby])[0]:
                 continue
-        positions.append(np.array(sys.remap_atom(atom.pos)))
+        #the box that is drawn does not include ghost atoms
+        pos = np.array(atom.pos)
+        positions.append(pos - np.dot(np.floor(np.dot(pos, invbox)), box))
 
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
-- 
2.43.0


From 0a43ae75374f90fa9e5849a65a1b2be9d0006ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 51/55] fix: plots rendered again showed the atoms of earlier
 plots too

---
 src/pyscal/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 4eee9fa..f99df01 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -101,8 +101,10 @@ def plot_3d(pos, color=None, radius=17,
             line=dict(width=0.5, color='#455A64')
         )
     )
-    traces.append(data)
-    fig = go.Figure(data=traces)
+    #the list of traces is used again if the plot is rendered again
+    if traces is None:
+        traces = []
+    fig = go.Figure(data=list(traces) + [data])
     fig.update_layout(scene = dict(
                         xaxis_title="",
                         yaxis_title="",
-- 
2.43.0


From 42953ef0be3d279463e101bcb8d54fed17ef3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:47 +0000
Subject: [PATCH 52/55] fix: origin of the plotted box was only used for some
 of its corners

---
 src/pyscal/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index f99df01..780d53b 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -35,10 +35,10 @@ def create_box_plot(box, origin=[0,0,0]):
     combos = list(itertools.combinations(range(3), 2))
     faces = []
     for combo in combos:
-        f1 = [origin, box[combo[0]], box[combo[0]]+box[combo[1]], box[combo[1]], origin]
+        f1 = [origin, origin + box[combo[0]], origin + box[combo[0]]+box[combo[1]], origin + box[combo[1]], origin]
         s = combo[0] + combo[1]
         t = 3-s
-        f2 = [origin + box[t], box[combo[0]]+ box[t],  box[combo[0]]+box[combo[1]]+ box[t], box[combo[1]]+ box[t], origin + box[t]]
+        f2 = [point + box[t] for point in f1]
         faces.append(np.array(f1))
         faces.append(np.array(f2))
     traces = []
-- 
2.43.0


From 8900fc97db60ca5adc0a7a37c47bc736d804b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 53/55] fix: a plot without any atoms that pass the filter
 failed

---
 src/pyscal/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 780d53b..c9ebc05 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -182,6 +182,6 @@ def plot_system(sys, colorby=None, filterby=None):
     radius = widgets.FloatSlider(min=1, max=30, step=1)
     widgets.interact_manual.opts['manual_name'] = 'Render plot'
     im = widgets.interact_manual(plot_3d, radius=radius, 
-        pos=widgets.fixed(np.array(positions)), cmap_title=widgets.fixed(ctitle),
+        pos=widgets.fixed(np.array(positions).reshape(-1, 3)), cmap_title=widgets.fixed(ctitle),
         color=widgets.fixed(colors), opacity=widgets.fixed(1.0), 
         traces=widgets.fixed(boxtraces), description="test")
\ No newline at end of file
-- 
2.43.0


From 8b30f30152bba98e34a4ca5b37f6e3641a47419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:55 +0000
Subject: [PATCH 54/55] fix: the switching function of the average entropy is
 not nan at the cutoff ra

---
 src/pyscal/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4aa1544..ff36dde 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2695,8 +2695,10 @@ vector<int> System::calculate_cna(int method){
 //Methods for entropy
 double System::switching_fn(double rij, double ra, int M, int N){
 
-    double num = 1.0 - pow((rij/ra), N);
-    double denum = 1.0 - pow((rij/ra), M);
+    //the limit, which would be 0/0 and not precise close to ra otherwise
+    if (rij == ra) return N/double(M);
+    double num = -expm1(N*log(rij/ra));
+    double denum = -expm1(M*log(rij/ra));
     return num/denum;
 }
 
-- 
2.43.0


From 26f926b82eab431ac62aec30ca4efc517a26fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:13 +0000
Subject: [PATCH 55/55] fix: area cutoff of the Voronoi vector acted on powers
 of the face areas when voroexp is not 1

---
 src/pyscal/atom.h           | 1 +
 src/pyscal/atom_binding.cpp | 6 ++++++
 src/pyscal/core.py          | 4 ++--
 src/pyscal/system.cpp       | 3 +++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/atom.h b/src/pyscal/atom.h
index 0d497b7..529a969 100644
--- a/src/pyscal/atom.h
+++ b/src/pyscal/atom.h
@@ -187,6 +187,7 @@ class Atom{
         vector<vector<double>> vertex_positions;
         vector<double> vertex_vectors;
         vector<int> vertex_numbers;
+        vector<double> face_fractions;
         double volume;
         double avgvolume;
         vector<int> gfacevertices();
diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index 195501d..334527c 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -356,6 +356,12 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
           using the `method='voronoi'` option is used.
     )mydelimiter")
 
+    .def_readwrite("face_fractions", &Atom::face_fractions, R"mydelimiter(
+          *list of floats*. Areas of the Voronoi faces shared with each neighbor, relative to the
+          surface of the Voronoi cell.  Only calculated when the :func:`~pyscal.core.System.find_neighbors`
+          using the `method='voronoi'` option is used.
+    )mydelimiter")
+
     .def_readwrite("vertex_numbers", &Atom::vertex_numbers, R"mydelimiter(
           *list of floats*. For each Voronoi face of the atom, this values includes a List
           of vertices that constitute the face.  Only calculated when the :func:`~pyscal.core.System.find_neighbors`
diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 212d47f..1890eff 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -702,11 +702,11 @@ class System(pc.System):
                 st += (vno+1)
 
             #now all the edge lengths are saved
-            for c, ed in enumerate(edge_lengths):
+            for ed, fraction in zip(edge_lengths, atom.face_fractions):
                 #normalise the edge lengths
                 norm = (ed/np.sum(ed))
                 #apply face area cutoff
-                if (atom.neighbor_weights[c] > area_cutoff):
+                if (fraction > area_cutoff):
                     #check for edge length cutoff
                     edgecount = len([cc for cc,x in enumerate(norm) if x > edge_cutoff])
                     refined_edges.append(edgecount)
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ff36dde..b364c2e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2129,6 +2129,8 @@ bool System::find_voronoi_cells(double margin){
             atoms[ti].volume = vol;
             atoms[ti].vertex_vectors = v;
             atoms[ti].vertex_numbers.clear();
+            atoms[ti].face_fractions.clear();
+            double surface = c.surface_area();
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
@@ -2185,6 +2187,7 @@ bool System::find_voronoi_cells(double margin){
                 atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
                 atoms[ti].facevertices[nn] = f_vert[tj];
                 atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].face_fractions.emplace_back(facearea[tj]/surface);
                 atoms[ti].vertex_numbers.insert(atoms[ti].vertex_numbers.end(),
                     vert_nos.begin()+firstvert, vert_nos.begin()+face);
                 atoms[ti].n_diffx[nn] = diffx;
-- 
2.43.0

