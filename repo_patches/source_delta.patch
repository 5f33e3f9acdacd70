From 56ddb8a79ffbaede3c1d39a34522bbdc30ef2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 01/18] fix: List_Insert inserts before the given entry, not
 before the first other one

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..67a1615 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From 4cc74172b9b2e8d90206fe8150c627c3e6e87b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 02/18] fix: List_Cat records the first gap when only the
 source list has gaps

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 67a1615..0aadf48 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -969,9 +969,9 @@ extern "C" {
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
     nent_d += nent_s;
-    nrem_d += nrem_s;
     if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
+      rem1_d = ntot_d + rem1_s;
+    nrem_d += nrem_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From 16ed8a0b52a41ec56cde91e5a70f926f5306ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 03/18] fix: List_RemSorted reports an entry that is not in the
 list instead of using an unset flag or looping

---
 src/util/List.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 0aadf48..d84c758 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -711,12 +711,15 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
+    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1, nomid;
     int nent, p, nrem, rem1, ntot, i, id;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
+    if (nent == 0)
+      return 0;
+
     imin = 0; imax = ntot-1;
     if (!(l->entry[imin])) {
 
@@ -744,6 +747,8 @@ extern "C" {
     idmax = (*entry2int)(l->entry[imax]);
 
     done = 0;
+    fnd = 0;
+    nomid = 0;
     i = 0;
     id = (*entry2int)(entry);
     while (!done) { 
@@ -773,6 +778,8 @@ extern "C" {
 	    MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
 	  else
 	    imid = imid1;
+
+	  nomid = (imid == imin); /* no valid entry between imin and imax */
 	}
       }
 
@@ -797,7 +804,7 @@ extern "C" {
 	fnd = 1;
 	done = 1;
       }
-      else if (imax-imin <= 1) {
+      else if (imax-imin <= 1 || nomid) {
 	done = 1;
       }
     }
-- 
2.43.0


From a22d727f6519e5df536a6fa1cc0f378dc23f152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 04/18] fix: MF_RegionID returns 0 for a side without region
 instead of dereferencing NULL

---
 src/base/MF_Region_Funcs_F1F3.c | 3 ++-
 src/base/MF_Region_Funcs_R4.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..903b5e0 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -48,7 +48,8 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
-- 
2.43.0


From a4bcc2ab134431b53ba29a220fa4ad35fd1f04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 05/18] fix: MF_Replace_Edges_i keeps edges and direction bits
 together when the old edges span the start of the list or several are dropped

---
 src/base/MF_Edge_Funcs_F1F3.c | 55 ++++++++++++++++++++++-------------
 src/base/MF_Edge_Funcs_F2F4.c | 55 ++++++++++++++++++++++-------------
 2 files changed, 68 insertions(+), 42 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..6c52e5e 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -268,18 +268,21 @@ extern "C" {
 
 
     if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
+      /* Insert the rest of the nuedges right after the last replaced
+	 edge (which may be before edge i, if the old edges span the
+	 start of the edge list) */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      int pos = (i+ncom-1)%ne + 1;
 
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
+      for (j = ncom; j < nnu; j++, pos++) {
+	List_Inserti(adj->fedges,newedges[j],pos);
 
+      
+	/* Move the direction bits at and after position 'pos' to the
+	   left by one space and insert the direction bit for the
+	   inserted edge */
 	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= pos; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -288,28 +291,37 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+	  adj->edirs = adj->edirs | (((unsigned long) dir)<<(k+1));	
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	/* set bit according to input */
+	adj->edirs = adj->edirs & ~(1UL<<pos); /* Set bit to 0 */
+	adj->edirs = adj->edirs | (((unsigned long) newdirs[j])<<pos); /* set to newdir */
 
 	ne++;
       }
 
     }
     else {
-      /* Delete the remaining old edges */
+      /* Delete the remaining old edges and their direction bits,
+	 last one first, so that the positions of the others are
+	 known - edges that were past the end of the list (i+j >= ne)
+	 are at its beginning */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
+      int nwrap = 0, ne0 = ne;
       
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+      for (j = nold-1; j >= ncom; j--) {
+	int pos;
+	if (i+j >= ne0) {
+	  pos = i+j-ne0;
+	  nwrap++;
+	}
+	else
+	  pos = i+j-nwrap;
+
+	List_Remi(adj->fedges,pos);
+
+	for (k = pos; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -317,13 +329,14 @@ extern "C" {
 	  dir = (adj->edirs>>(k+1)) & 1UL;
 
 	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
+	  adj->edirs = adj->edirs | (((unsigned long) dir)<<k);
 	}
 
 	ne--;
       }
     }
       
+
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..d4a0fbd 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -266,18 +266,21 @@ extern "C" {
 
 
     if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
+      /* Insert the rest of the nuedges right after the last replaced
+	 edge (which may be before edge i, if the old edges span the
+	 start of the edge list) */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      int pos = (i+ncom-1)%ne + 1;
 
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
+      for (j = ncom; j < nnu; j++, pos++) {
+	List_Inserti(adj->fedges,newedges[j],pos);
 
+      
+	/* Move the direction bits at and after position 'pos' to the
+	   left by one space and insert the direction bit for the
+	   inserted edge */
 	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= pos; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -286,28 +289,37 @@ extern "C" {
 	  dir = (adj->edirs>>k) & 1UL;
 
 	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+	  adj->edirs = adj->edirs | (((unsigned long) dir)<<(k+1));	
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	/* set bit according to input */
+	adj->edirs = adj->edirs & ~(1UL<<pos); /* Set bit to 0 */
+	adj->edirs = adj->edirs | (((unsigned long) newdirs[j])<<pos); /* set to newdir */
 
 	ne++;
       }
 
     }
     else {
-      /* Delete the remaining old edges */
+      /* Delete the remaining old edges and their direction bits,
+	 last one first, so that the positions of the others are
+	 known - edges that were past the end of the list (i+j >= ne)
+	 are at its beginning */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
+      int nwrap = 0, ne0 = ne;
       
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+      for (j = nold-1; j >= ncom; j--) {
+	int pos;
+	if (i+j >= ne0) {
+	  pos = i+j-ne0;
+	  nwrap++;
+	}
+	else
+	  pos = i+j-nwrap;
+
+	List_Remi(adj->fedges,pos);
+
+	for (k = pos; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -315,13 +327,14 @@ extern "C" {
 	  dir = (adj->edirs>>(k+1)) & 1UL;
 
 	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
+	  adj->edirs = adj->edirs | (((unsigned long) dir)<<k);
 	}
 
 	ne--;
       }
     }
       
+
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
-- 
2.43.0


From 26c3d2601df6195e6328017205987233d8866294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 06/18] fix: MF_Replace_Edges finds the first of the old edges
 when they are given in the opposite order

---
 src/base/MF_Edge_Funcs_F1F3.c | 40 ++++++++++-------------------------
 src/base/MF_Edge_Funcs_F2F4.c | 40 ++++++++++-------------------------
 2 files changed, 22 insertions(+), 58 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 6c52e5e..59ae37d 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -357,7 +357,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -386,38 +386,20 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The edges are consecutive but they may be given in either order
+       and they may span the start vertex of the face vertex cycle. The
+       first of them is the one whose predecessor is not among them */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      for (j = 0; j < nold; j++)
+	if (eindex[j] == (eindex[i]+ne-1)%ne)
+	  break;
+      if (j == nold) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
 	  
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index d4a0fbd..ae83d1a 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -355,7 +355,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -384,38 +384,20 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The edges are consecutive but they may be given in either order
+       and they may span the start vertex of the face vertex cycle. The
+       first of them is the one whose predecessor is not among them */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      for (j = 0; j < nold; j++)
+	if (eindex[j] == (eindex[i]+ne-1)%ne)
+	  break;
+      if (j == nold) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
 	  
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
-- 
2.43.0


From c4540a5f1845628f1e6952ca3dc8c12dc90f9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 07/18] fix: MF_Rem_Edge shifts the direction bit at the
 removed position in F2/F4 representations

---
 src/base/MF_Edge_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index ae83d1a..1abd928 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -170,7 +170,7 @@ extern "C" {
 
     /* Move the remaining bits to the right */
     int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
-- 
2.43.0


From e8cd660e62874b0a91e6a14b5e9630add828a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 08/18] fix: MR_Replace_Faces shifts the direction bits of the
 faces behind a removed one without reattaching the region to other faces

---
 src/base/MR_Face_Funcs_FNR3R4.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..d22b55a 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -708,10 +708,15 @@ extern "C" {
                it from the list (this shifts all the subsequent faces up)
                Similarly shift all the face dirs up */
 
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
+            for (ii = i; ii < nf-1; ii++) {
+              int dir = MR_FaceDir_i(r,ii+1);
+              j = (int) ii/(8*sizeof(unsigned int));
+              k = ii%(8*sizeof(unsigned int));
+              adj->fdirs[j] = adj->fdirs[j] & ~(1U<<k); /* set bit ii to 0 */
+              adj->fdirs[j] = adj->fdirs[j] | ((unsigned int) dir<<k);
+            }
             List_Remi(adj->rfaces,i);
+            nf--;
           }
           
           MF_Rem_Region(f,r);
-- 
2.43.0


From 16c9c79d9e99768e92f565d6c5d2616844d44e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 09/18] fix: MR_Rem_Face updates the element type of the region
 like the other face editing functions

---
 src/base/MR_Face_Funcs_FNR3R4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index d22b55a..7b38eba 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -651,6 +651,7 @@ extern "C" {
 
     MF_Rem_Region(remface,r);
 
+    MR_Update_ElementType_FNR3R4(r);
   }
 
 
-- 
2.43.0


From 1f39d90524654fc1a0b3981de88e997c9fc22c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 10/18] fix: deleting a restored mesh entity a second time
 finds it although the entity list is no longer sorted by ID

---
 src/base/Mesh.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..a254cb6 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -939,6 +939,12 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  /* A restored entity was put back at the end of the list and the list
+   * is no longer sorted by ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Vertex","Vertex not found in list",MSTK_FATAL);
 
@@ -988,6 +994,12 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  /* A restored entity was put back at the end of the list and the list
+   * is no longer sorted by ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Edge","Edge not found in list",MSTK_FATAL);
 
@@ -1038,6 +1050,12 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  /* A restored entity was put back at the end of the list and the list
+   * is no longer sorted by ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Face","Face not found in list",MSTK_FATAL);
 
@@ -1087,6 +1105,12 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  /* A restored entity was put back at the end of the list and the list
+   * is no longer sorted by ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Region","Region not found in list",MSTK_FATAL);
 
-- 
2.43.0


From f5a42b29fa085160e7ac20a8ff607f0d5b7a75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 11/18] fix: counting the regions of a vertex or the neighbours
 of a face returns 0 instead of dereferencing NULL when there are none

---
 src/base/MFace_F1.c   | 6 ++++--
 src/base/MVertex_F1.c | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..d026ebf 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,8 +169,10 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
-    nf = List_Num_Entries(adjfaces);
-    List_Delete(adjfaces);
+    if (adjfaces) {
+      nf = List_Num_Entries(adjfaces);
+      List_Delete(adjfaces);
+    }
     return nf;
   }
 
diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..36994f4 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,8 +94,12 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    if (vregions) {
+      nr = List_Num_Entries(vregions);
+      List_Delete(vregions);
+    }
+    else
+      nr = 0;
 
     return nr;
   }
-- 
2.43.0


From 94e024c3c1206929a1627e72ac40a5df05262da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 12/18] fix: an entity restored after MESH_Enable_LocalIDSearch
 ends up out of ID order at the end of its list; stop relying on ID order
 then, so that it is still found by ID

---
 src/base/Mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index a254cb6..6b2180d 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -853,6 +853,8 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else /* Restored entity - the list may not be in ID order any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +871,8 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else /* Restored entity - the list may not be in ID order any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +897,8 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else /* Restored entity - the list may not be in ID order any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +912,8 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else /* Restored entity - the list may not be in ID order any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
-- 
2.43.0


From d54d94d42df3e66b1edd734d4340f805c22de01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 13/18] fix: MESH_Enable_LocalIDSearch left the gaps of an
 emptied entity list in place and the list flagged as sorted; a later search
 by ID read a removed entry

---
 src/base/Mesh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 6b2180d..b2edaef 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -664,21 +664,21 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex) {
     List_Compress(mesh->mvertex);  // can't sort list with gaps
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
   }
-  if (mesh->ne) {
+  if (mesh->medge) {
     List_Compress(mesh->medge);  // can't sort list with gaps
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
   }
 
-  if (mesh->nf) {
+  if (mesh->mface) {
     List_Compress(mesh->mface);  // can't sort list with gaps
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
   }
 
-  if (mesh->nr) {
+  if (mesh->mregion) {
     List_Compress(mesh->mregion);  // can't sort list with gaps
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
   }
-- 
2.43.0


From f5b18adb3c60a49ee21e98b4d86c20d3253ab125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 14/18] fix: clearing a vector or tensor attribute value copies
 from a null pointer; it is set to zero like the other attribute types

---
 src/base/MAttrib.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..9c6af6b 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -156,7 +156,10 @@ extern "C" {
         
         int ncomp = MAttrib_Get_NumComps(attrib);
         double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        if (pval)
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        else  /* cleared value */
+          memset(vval_copy, 0, ncomp*sizeof(double));
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -167,7 +170,10 @@ extern "C" {
         
         int ncomp = MAttrib_Get_NumComps(attrib);
         double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        if (pval)
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        else  /* cleared value */
+          memset(tval_copy, 0, ncomp*sizeof(double));
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From 74772e0e769aaf547a40129b59a3dad6951699cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 15/18] fix: adding to or inserting into a mesh set returns the
 set, not the list inside it

---
 src/base/MSet.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..7d10c31 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -77,20 +77,24 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    set->entlist = List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    set->entlist = List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    set->entlist = List_Insert(set->entlist,nuentry,b4entry);
+    return set;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    set->entlist = List_Inserti(set->entlist,nuentry,i);
+    return set;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
-- 
2.43.0


From 4c1fe81162bbab1266a38480ef99d9d4265849e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 16/18] fix: counting interior entities of a mesh without
 ghosts and stepping past the last interior entity dereference NULL

---
 src/base/Mesh.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index b2edaef..c2ad3af 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1675,9 +1675,8 @@ int MESH_Num_OverlapVertices(Mesh_ptr mesh) {
 
 int MESH_Num_InteriorVertices(Mesh_ptr mesh) {
   if(mesh->mvertex)
-    return List_Num_Entries(mesh->mvertex) -\
-      List_Num_Entries(mesh->ovvertex)- \
-      List_Num_Entries(mesh->ghvertex);
+    return List_Num_Entries(mesh->mvertex) -
+      MESH_Num_OverlapVertices(mesh) - MESH_Num_GhostVertices(mesh);
   else
     return 0;
 }
@@ -1726,9 +1725,8 @@ int MESH_Num_InteriorEdges(Mesh_ptr mesh) {
     return 0;
   }
   else 
-    return List_Num_Entries(mesh->medge) -\
-      List_Num_Entries(mesh->ovedge)- \
-      List_Num_Entries(mesh->ghedge);
+    return MESH_Num_Edges(mesh) -
+      MESH_Num_OverlapEdges(mesh) - MESH_Num_GhostEdges(mesh);
 }
 
 List_ptr MESH_GhostEdge_List(Mesh_ptr mesh) {
@@ -1782,9 +1780,8 @@ int MESH_Num_InteriorFaces(Mesh_ptr mesh) {
   rtype = MESH_RepType(mesh);
   if ((rtype >= R1) && (rtype <= R2)) {
     if ((mesh->nr == 0) && (mesh->mface))    /* 2D mesh */
-      return List_Num_Entries(mesh->mface)\
-	-List_Num_Entries(mesh->ovface)\
-	-List_Num_Entries(mesh->ghface);   
+      return List_Num_Entries(mesh->mface) -
+      MESH_Num_OverlapFaces(mesh) - MESH_Num_GhostFaces(mesh);
     else {
       MSTK_Report("MESH_Num_InteriorFaces",
 		  "No interior faces in reduced representation",MSTK_WARN);
@@ -1792,9 +1789,8 @@ int MESH_Num_InteriorFaces(Mesh_ptr mesh) {
     }
   }
   if (mesh->mface)
-    return List_Num_Entries(mesh->mface)\
-      -List_Num_Entries(mesh->ovface)\
-      -List_Num_Entries(mesh->ghface);   
+    return List_Num_Entries(mesh->mface) -
+      MESH_Num_OverlapFaces(mesh) - MESH_Num_GhostFaces(mesh);
   else
     return 0;
 }
@@ -1820,9 +1816,8 @@ int MESH_Num_OverlapRegions(Mesh_ptr mesh) {
 }
 int MESH_Num_InteriorRegions(Mesh_ptr mesh) {
   if(mesh->mregion)
-    return List_Num_Entries(mesh->mregion)\
-      -List_Num_Entries(mesh->ovregion)
-      -List_Num_Entries(mesh->ghregion);
+    return List_Num_Entries(mesh->mregion) -
+      MESH_Num_OverlapRegions(mesh) - MESH_Num_GhostRegions(mesh);
   else
     return 0;
 }
@@ -1916,7 +1911,7 @@ MVertex_ptr MESH_Next_InteriorVertex(Mesh_ptr mesh, int *index) {
   MVertex_ptr mv;
   if (mesh->mvertex) {
     mv = List_Next_Entry(mesh->mvertex,index);
-    while( MV_PType(mv) != PINTERIOR )
+    while( mv && MV_PType(mv) != PINTERIOR )
       mv = List_Next_Entry(mesh->mvertex,index);
     return mv;
   }
@@ -1964,7 +1959,7 @@ MEdge_ptr MESH_Next_InteriorEdge(Mesh_ptr mesh, int *index) {
   }
   if (mesh->medge) {
     me = List_Next_Entry(mesh->medge,index);
-    while( ME_PType(me) != PINTERIOR )
+    while( me && ME_PType(me) != PINTERIOR )
       me = List_Next_Entry(mesh->medge,index);
     return me;
   }
@@ -2018,7 +2013,7 @@ MFace_ptr MESH_Next_InteriorFace(Mesh_ptr mesh, int *index) {
   }
   if (mesh->mface) {
     mf = List_Next_Entry(mesh->mface,index);
-    while( MF_PType(mf) != PINTERIOR )
+    while( mf && MF_PType(mf) != PINTERIOR )
       mf = List_Next_Entry(mesh->mface,index);
     return mf;
   }
@@ -2043,7 +2038,7 @@ MRegion_ptr MESH_Next_InteriorRegion(Mesh_ptr mesh, int *index) {
 
   if (mesh->mregion) {
     mr = List_Next_Entry(mesh->mregion,index);
-    while( MR_PType(mr) != PINTERIOR )
+    while( mr && MR_PType(mr) != PINTERIOR )
       mr = List_Next_Entry(mesh->mregion,index);
     return mr;
   }
-- 
2.43.0


From 460898c92696a4ddfe47b7ff69efbcb1b67e0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 17/18] fix: restoring a deleted ghost or overlap entity puts
 it back into the mesh and into its ghost or overlap list, and deleting it
 again finds it there

---
 src/base/MEdge.c   |  6 ++++--
 src/base/MFace.c   |  6 ++++--
 src/base/MRegion.c |  6 ++++--
 src/base/MVertex.c |  8 +++++---
 src/base/Mesh.c    | 28 ++++++++++++++++++++++++++++
 5 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/base/MEdge.c b/src/base/MEdge.c
index b61f41c..a207e98 100644
--- a/src/base/MEdge.c
+++ b/src/base/MEdge.c
@@ -82,12 +82,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) e);
 
+    MESH_Add_Edge(mesh,e);
+
 #ifdef MSTK_HAVE_MPI
     if (ME_PType(e) == PGHOST)
       MESH_Add_GhostEdge(mesh,e);
-    else
+    else if (ME_PType(e) == POVERLAP)
+      MESH_Add_OverlapEdge(mesh,e);
 #endif
-      MESH_Add_Edge(mesh,e);
 
     (*ME_Restore_jmp[RTYPE])(e);
   }
diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..5f02fca 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -81,12 +81,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) f);
 
+    MESH_Add_Face(mesh,f);
+
 #ifdef MSTK_HAVE_MPI
     if (MF_PType(f) == PGHOST)
       MESH_Add_GhostFace(mesh,f);
-    else
+    else if (MF_PType(f) == POVERLAP)
+      MESH_Add_OverlapFace(mesh,f);
 #endif
-      MESH_Add_Face(mesh,f);
 
     (*MF_Restore_jmp[RTYPE])(f);
   }
diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 69d2871..4a818f3 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -85,12 +85,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) r);
 
+    MESH_Add_Region(mesh,r);
+
 #ifdef MSTK_HAVE_MPI
     if (MR_PType(r) == PGHOST)
       MESH_Add_GhostRegion(mesh,r);
-    else
+    else if (MR_PType(r) == POVERLAP)
+      MESH_Add_OverlapRegion(mesh,r);
 #endif
-      MESH_Add_Region(mesh,r);
 
     (*MR_Restore_jmp[RTYPE])(r);
   }
diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..1bd4125 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -83,12 +83,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) v);
 
+    MESH_Add_Vertex(mesh,v);
+
 #ifdef MSTK_HAVE_MPI
-    if (ME_PType(v) == PGHOST)
+    if (MV_PType(v) == PGHOST)
       MESH_Add_GhostVertex(mesh,v);
-    else
+    else if (MV_PType(v) == POVERLAP)
+      MESH_Add_OverlapVertex(mesh,v);
 #endif
-      MESH_Add_Vertex(mesh,v);
 
     (*MV_Restore_jmp[RTYPE])(v);
   }
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index c2ad3af..c9a2ab5 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -961,6 +961,8 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
 #ifdef MSTK_HAVE_MPI
   if (MV_PType(v) == POVERLAP) {
     fnd = List_RemSorted(mesh->ovvertex,v,&(MV_GlobalID));
+    if (!fnd)
+      fnd = List_Rem(mesh->ovvertex,v);
     if (!fnd)
       MSTK_Report("MESH_Rem_Vertex","Vertex not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1016,6 +1018,8 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
 #ifdef MSTK_HAVE_MPI
   if (ME_PType(e) == POVERLAP) {
     fnd = List_RemSorted(mesh->ovedge,e,&(ME_GlobalID));
+    if (!fnd)
+      fnd = List_Rem(mesh->ovedge,e);
     if (!fnd)
       MSTK_Report("MESH_Rem_Edge","Edge not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1072,6 +1076,8 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
 #ifdef MSTK_HAVE_MPI
   if (MF_PType(f) == POVERLAP) {
     fnd = List_RemSorted(mesh->ovface,f,&(MF_GlobalID));
+    if (!fnd)
+      fnd = List_Rem(mesh->ovface,f);
     if (!fnd)
       MSTK_Report("MESH_Rem_Face","Face not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -1127,6 +1133,8 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
 #ifdef MSTK_HAVE_MPI
   if (MR_PType(r) == POVERLAP) {
     fnd = List_RemSorted(mesh->ovregion,r,&(MR_GlobalID));
+    if (!fnd)
+      fnd = List_Rem(mesh->ovregion,r);
     if (!fnd)
       MSTK_Report("MESH_Rem_Region","Region not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
@@ -2180,12 +2188,17 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  if (!fnd)
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in mesh vertex list",MSTK_FATAL);
 
   mesh->nv = List_Num_Entries(mesh->mvertex);
 
   fnd = List_RemSorted(mesh->ghvertex,v,&(MV_GlobalID));
+  if (!fnd)
+    fnd = List_Rem(mesh->ghvertex,v);
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
@@ -2217,12 +2230,17 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  if (!fnd)
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in mesh edge list",MSTK_FATAL);
 
   mesh->ne = List_Num_Entries(mesh->medge);
 
   fnd = List_RemSorted(mesh->ghedge,e,&(ME_GlobalID));
+  if (!fnd)
+    fnd = List_Rem(mesh->ghedge,e);
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
@@ -2254,12 +2272,17 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  if (!fnd)
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in mesh face list",MSTK_FATAL);
 
   mesh->nf = List_Num_Entries(mesh->mface);
 
   fnd = List_RemSorted(mesh->ghface,f,&(MF_GlobalID));
+  if (!fnd)
+    fnd = List_Rem(mesh->ghface,f);
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
@@ -2290,12 +2313,17 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  if (!fnd)
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in mesh region list",MSTK_FATAL);
 
   mesh->nr = List_Num_Entries(mesh->mregion);
 
   fnd = List_RemSorted(mesh->ghregion,r,&(MR_GlobalID));
+  if (!fnd)
+    fnd = List_Rem(mesh->ghregion,r);
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
-- 
2.43.0


From 00ee394b0d329da65c983ad09c53f752879644e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 18/18] fix: removing a ghost entity left a gap in an entity
 list still flagged as sorted; a later search by ID read a removed entry

---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index c9a2ab5..452c88c 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2202,6 +2202,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2244,6 +2245,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2286,6 +2288,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2327,6 +2330,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
 
-- 
2.43.0

