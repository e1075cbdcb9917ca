From bc93031182a6b55e0a8141eee4851b683026f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:50 +0000
Subject: [PATCH 01/50] fix: CglSimpleRounding must not lose an integral rhs to
 round off

The rhs is scaled by a power of ten and divided by the gcd before it is
rounded down, so 0.14x+0.14y >= 0.14 became x+y >= 2.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 92687db..4979661 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -130,7 +130,9 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     for (k=0; k<irow.getNumElements(); k++){
         cut.insert(irow.getIndices()[k],xInt[k]/gcd);
     }
-    double cutRhs = floor((b*pow(10.0,power))/gcd);
+    // allow for round off in scaling, so that an integral rhs is kept
+    double cutRhs = (b*pow(10.0,power))/gcd;
+    cutRhs = floor(cutRhs+epsilon_*CoinMax(1.0,fabs(cutRhs)));
 
     // un-negate the negated variables in the cut
     {
-- 
2.43.0


From 44a6cfc7694131f5abfe690b2ff7099db55f5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:31 +0000
Subject: [PATCH 02/50] fix: CglSimpleRounding skips rows whose scaled
 coefficients are no positive ints

A stored zero (or a coefficient below the tolerance) on an integer column made
gcd divide by zero, and scaling every coefficient by the common power of ten
could overflow int.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 4979661..e7722d5 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -85,6 +85,7 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 
       xInt = new int[irow.getNumElements()]; 
       double dxInt; // a double version of xInt for error trapping
+      bool usable=true; // false if a coefficient is not a positive int
       
       
 #ifdef CGL_DEBUG      
@@ -93,6 +94,11 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 
       for (k=0; k<irow.getNumElements(); k++){
 	dxInt = irow.getElements()[k]*pow(10.0,power);
+	if (dxInt+0.5 < 1.0 || dxInt+0.5 >= 2147483648.0) {
+	  // explicit zero, or overflow when scaled by the common power
+	  usable=false;
+	  break;
+	}
 	xInt[k]= static_cast<int> (dxInt+0.5); // Need to add the 0.5 
 	// so that a dxInt=9.999 will give a xInt=1
 
@@ -101,6 +107,13 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 #endif
 
       }
+      if (!usable) {
+	// skip the row and reset local data for next iteration
+	for(k=0; k<irow.getNumElements(); k++) negative[irow.getIndices()[k]]=false;
+	irow.setVector(0,NULL,NULL);
+	delete [] xInt;
+	continue;
+      }
 
     } else {
 
-- 
2.43.0


From 1d355aa625ac83aeb076e85a3337c4f2f959f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 03/50] fix: CglOddHole row list of a cycle can be longer than
 the number of rows

A row can be used by several arcs of a cycle, so one covering row with three
fractional columns wrote past the end of mrow.
---
 src/CglOddHole/CglOddHole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..5534e02 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -169,7 +169,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 
   // we need only look at suitable rows and variables with unsatisfied 0-1
   // lookup from true row to compressed matrix
-  int * mrow = new int[nRows];
+  // (also used for rows of a cycle, which can have an arc for each node)
+  int * mrow = new int[std::max(nRows,2*nCols)];
   // lookup from true column to compressed
   int * lookup = new int[nCols];
   // number of columns in compressed matrix
-- 
2.43.0


From ecc0862b137edfc2899e4df9cc14b32f2f57b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 04/50] fix: CglOddHole uses its own violation and length
 limits

Cuts were generated by a default constructed temporary, so
setMinimumViolation, setMinimumViolationPer and setMaximumEntries had no effect.
---
 src/CglOddHole/CglOddHole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 5534e02..8ab3e37 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -110,8 +110,8 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 #else
   const OsiRowCutDebugger * debugger = NULL;
 #endif
-  temp.generateCuts(debugger, *rowCopy,solution,
-		    si.getReducedCost(),cs,suitable,fixed,info,true);
+  generateCuts(debugger, *rowCopy,solution,
+	       si.getReducedCost(),cs,suitable,fixed,info,true);
   // now cover
   //if no >= then skip
   bool doCover=false;
@@ -136,8 +136,8 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     }
   }
   if (doCover&&nsuitable) 
-    temp.generateCuts(debugger, *rowCopy,solution,si.getReducedCost(),
-		      cs,suitable,fixed,info,false);
+    generateCuts(debugger, *rowCopy,solution,si.getReducedCost(),
+		 cs,suitable,fixed,info,false);
   delete [] checkRow;
   delete [] solution;
   delete [] fixed;
-- 
2.43.0


From 8c80636c55770ae80a15196420117a605b094f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 05/50] fix: CglOddHole assignment keeps 'no row list'

Assigning from a generator without a list of rows gave an empty list, so the
copy never looked at any row.
---
 src/CglOddHole/CglOddHole.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 8ab3e37..6b1b450 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -778,8 +778,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (numberRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0


From 0780cdf855936f028e830c244c62ef1aabff6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 06/50] fix: CglOddHole nets columns fixed away from zero out
 of both row and cut

The row list allows for fixed columns in the rhs, but the choice of packing or
covering used the original row bounds and the cut counted the fixed column, so
x1+x2-f <= 0 with f fixed at 1 gave cuts which removed feasible points.
---
 src/CglOddHole/CglOddHole.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 6b1b450..2f4770e 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -60,6 +60,7 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   double * solution = new double[nCols];
   memcpy(solution,si.getColSolution(),nCols*sizeof(double));
   const int * column = rowCopy->getIndices();
+  const double * rowElements = rowCopy->getElements();
   const CoinBigIndex * rowStart = rowCopy->getVectorStarts();
   const int * rowLength = rowCopy->getVectorLengths(); 
   const double * collower = si.getColLower();
@@ -74,7 +75,7 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       fixed[i]=0;
       if (colupper[i]-collower[i]<epsilon_) {
 	solution[i]=0.0;
-	fixed[i]=2;
+	fixed[i]=fabs(collower[i])<epsilon_ ? 2 : 4;
       } else if (solution[i]<epsilon_) {
 	solution[i]=0.0;
 	fixed[i]=-1;
@@ -85,7 +86,7 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     } else {
       //mark as fixed even if not (can not intersect any interesting rows)
       solution[i]=0.0;
-      fixed[i]=3;
+      fixed[i]=fabs(collower[i])<epsilon_ ? 3 : 4;
     }
   }
   // first do packed
@@ -95,11 +96,13 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowupper[i]>1.001) suitable[i]=-1;
+      double upper=rowupper[i]; // net of fixed columns
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
+	if (fixed[icol]>1) upper -= collower[icol]*rowElements[k];
       }
+      if (upper>1.001) suitable[i]=-1;
       if (sum<0.9) suitable[i]=-1; //say no good
     }
   }
@@ -121,13 +124,15 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowlower[i]<0.999) sum=2.0;
+      double lower=rowlower[i]; // net of fixed columns
       if (rowupper[i]>1.001) doCover=true;
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
 	if (fixed[icol]==1) sum=2.0; //don't use if any at 1
+	if (fixed[icol]>1) lower -= collower[icol]*rowElements[k];
       }
+      if (lower<0.999) sum=2.0;
       if (sum>1.1) {
 	suitable[i]=-1; //say no good
       } else {
@@ -443,6 +448,7 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 	    int irow=mrow[k];
 	    for (j=rowStart[irow];j<rowStart[irow]+rowLength[irow];j++) {
 	      int icol=column[j];
+	      if (fixedColumn[icol]==4) continue; // netted out of rhs
 	      if (!countcol[icol]) candidate[nincut++]=icol;
 	      countcol[icol]++;
 	    }
-- 
2.43.0


From c1b444e427e143088be83df564e6abd4515a6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 07/50] fix: CglOddHole frees a previous row or clique list

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 2f4770e..5d25ecf 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -667,6 +667,7 @@ void CglOddHole::createRowList( const OsiSolverInterface & si,
   /// This version passes in a list - 1 marks possible
 void CglOddHole::createRowList(int numberRows, const int * whichRow)
 {
+  delete [] suitableRows_;
   suitableRows_=new int [numberRows];
   numberRows_=numberRows;
   memcpy(suitableRows_,whichRow,numberRows*sizeof(int));
@@ -678,6 +679,8 @@ void CglOddHole::createCliqueList(int numberCliques, const int * cliqueStart,
 		     const int * cliqueMember)
 {
   numberCliques_=numberCliques;
+  delete [] startClique_;
+  delete [] member_;
   startClique_=new int[numberCliques_+1];
   memcpy(startClique_,cliqueStart,(numberCliques_+1)*sizeof(int));
   int length=startClique_[numberCliques_];
-- 
2.43.0


From a259a4d27b5a6e16d199565976cdec2250f9795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 08/50] fix: CglClique resets its tolerance on early return too

With fewer than two fractional columns the tolerance of the solver stayed behind
as the minimum violation of the generator.
---
 src/CglClique/CglClique.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 4772d0c..3242850 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -123,6 +123,8 @@ CglClique::generateCuts(const OsiSolverInterface& si, OsiCuts & cs,
    if (sp_numrows > MAX_CGLCLIQUE_ROWS || sp_numcols < 2 || sp_numcols>MAX_CGLCLIQUE_COLS) {
      //printf("sp_numrows is %d\n",sp_numrows);
      deleteSetPackingSubMatrix();
+     if (! has_petol_set)
+       petol = -1;
      return; // too many rows or too few columns!
    }
 
-- 
2.43.0


From 967c1801393d433976fd552a5bf3cca283d3c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 09/50] fix: CglClique does not read the entries of an empty
 column

---
 src/CglClique/CglCliqueHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 2fadaab..a6d0f31 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -201,7 +201,7 @@ CglClique::createSetPackingSubMatrix(const OsiSolverInterface& si)
       const CoinShallowPackedVector& vec = mcol.getVector(sp_orig_col_ind[j]);
       const int len = vec.getNumElements();
       const int* ind = vec.getIndices();
-      if (ind[0] < ind[len-1]) {
+      if (len > 0 && ind[0] < ind[len-1]) {
 	for (i = 0; i < len; ++i) {
 	   const int sp_row = clique[ind[i]];
 	   if (sp_row >= 0) {
-- 
2.43.0


From 75d78db98311762a81cdab19c749846d69466cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 10/50] fix: CglClique row with a column that can be negative
 is no clique row

x1+x2+z <= 1 does not imply x1+x2 <= 1 when z can be -1, but the row was used
to extend cliques.
---
 src/CglClique/CglCliqueHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index a6d0f31..9701db8 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -115,6 +115,7 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
    // coefficients 
    const CoinPackedMatrix& mrow = *si.getMatrixByRow();
    const double* rub = si.getRowUpper();
+   const double* clb = si.getColLower();
    for (i = 0; i < numrows; ++i) {
       if (rub[i] != 1.0||i>=numOriginalRows) {
 	 clique[i] = 0;
@@ -123,8 +124,9 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
       if (clique[i] == 1) {
 	 const CoinShallowPackedVector& vec = mrow.getVector(i);
 	 const double* elem = vec.getElements();
+	 const int* ind = vec.getIndices();
 	 for (j = vec.getNumElements() - 1; j >= 0; --j) {
-	    if (elem[j] < 0) {
+	    if (elem[j] < 0 || (elem[j] > 0 && clb[ind[j]] < 0)) {
 	       clique[i] = 0;
 	       break;
 	    }
-- 
2.43.0


From bdcf04d57295df96c6ec7062b5351cf4be666eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 11/50] fix: CglAllDifferent maps its variables back to the
 right columns

Variables are numbered in column order but originalWhich_ was a copy of the list
of members, so with overlapping or unsorted sets bounds of the wrong columns were
used and tightened.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..fa4746e 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -464,8 +464,11 @@ originalWhich_(NULL)
     }
     numberDifferent_=0;
     for (i=0;i<maxValue;i++) {
-      if (!translate[i]) 
+      if (!translate[i]) {
+        // which_ uses sequence in order of columns
+        originalWhich_[numberDifferent_]=i;
         translate[i]=numberDifferent_++;
+      }
     }
     // Now translate
     for (i=0;i<n;i++) {
-- 
2.43.0


From 1cf2a703dac15077b749e1b446008b04f86177e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 12/50] fix: CglAllDifferent without sets generates nothing
 instead of crashing

---
 src/CglAllDifferent/CglAllDifferent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index fa4746e..621393f 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -33,6 +33,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 #ifndef NDEBUG
   int nCols=si.getNumCols();
 #endif
+  if (!numberDifferent_)
+    return; // no sets
   int i;
   const double * lower = si.getColLower();
   const double * upper = si.getColUpper();
@@ -436,6 +438,7 @@ CglAllDifferent::CglAllDifferent (int numberSets,
 :
 CglCutGenerator(),
 numberSets_(numberSets),
+numberDifferent_(0),
 maxLook_(2),
 logLevel_(0),
 start_(NULL),
-- 
2.43.0


From a829bf4d720227188e721b66a571d73112c226cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 13/50] fix: CglTreeProbingInfo skips implications on non 0-1
 columns instead of reading past its arrays

---
 src/CglCommon/CglTreeInfo.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 9e6b3cd..8f2091d 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1392,6 +1392,8 @@ int CglTreeProbingInfo::fixColumns(OsiSolverInterface &si) const
       int j;
       for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
         if (fixToOne) {
@@ -1420,6 +1422,8 @@ int CglTreeProbingInfo::fixColumns(OsiSolverInterface &si) const
       int j;
       for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
         if (fixToOne) {
@@ -1469,6 +1473,8 @@ int CglTreeProbingInfo::fixColumns(int iColumn, int value, OsiSolverInterface &s
     int j;
     for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
       int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+      if (kColumn >= numberIntegers_)
+        continue; // not 0-1
       kColumn = integerVariable_[kColumn];
       bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
       if (fixToOne) {
@@ -1497,6 +1503,8 @@ int CglTreeProbingInfo::fixColumns(int iColumn, int value, OsiSolverInterface &s
     int j;
     for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
       int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+      if (kColumn >= numberIntegers_)
+        continue; // not 0-1
       kColumn = integerVariable_[kColumn];
       bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
       if (fixToOne) {
@@ -1573,6 +1581,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
       int j;
       for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         assert(kColumn != iColumn);
@@ -1612,6 +1622,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
       }
       for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         assert(kColumn != iColumn);
@@ -1652,6 +1664,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
     } else if (upper[iColumn] == 0.0) {
       for (int j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn01 = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn01 >= numberIntegers_)
+          continue; // not 0-1
         int kColumn = integerVariable_[kColumn01];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
@@ -1686,6 +1700,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
     } else {
       for (int j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn01 = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn01 >= numberIntegers_)
+          continue; // not 0-1
         int kColumn = integerVariable_[kColumn01];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
-- 
2.43.0


From 8683e4a52ef0f3e32f2d85b38ec067796b22d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 14/50] fix: CglTreeProbingInfo sentinel of duplicate removal
 must not be a valid sequence

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 8f2091d..19c7455 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1340,7 +1340,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_);
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
@@ -1363,7 +1363,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_);
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
-- 
2.43.0


From eb564f4e72ac34a65acfacf30ab23c54a05d573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 15/50] fix: CglTreeProbingInfo without ordered entries has no
 implications to use

---
 src/CglCommon/CglTreeInfo.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 19c7455..73f0df9 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1383,6 +1383,8 @@ void CglTreeProbingInfo::convert()
 int CglTreeProbingInfo::fixColumns(OsiSolverInterface &si) const
 {
   int nFix = 0;
+  if (!toZero_)
+    return 0;
   const double *lower = si.getColLower();
   const double *upper = si.getColUpper();
   bool feasible = true;
@@ -1466,8 +1468,10 @@ int CglTreeProbingInfo::fixColumns(int iColumn, int value, OsiSolverInterface &s
   const double *lower = si.getColLower();
   const double *upper = si.getColUpper();
   bool feasible = true;
+  if (!toZero_)
+    return 0;
   int jColumn = backward_[iColumn];
-  if (jColumn < 0 || !toZero_)
+  if (jColumn < 0)
     return 0;
   if (!value) {
     int j;
@@ -1573,6 +1577,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
   CoinPackedVector ubs(false);
   int numberFixed = 0;
   char *fixed = NULL;
+  if (!toZero_)
+    return;
   for (int jColumn = 0; jColumn < static_cast< int >(numberIntegers_); jColumn++) {
     int iColumn = integerVariable_[jColumn];
     assert(iColumn >= 0 && iColumn < si.getNumCols());
-- 
2.43.0


From 2dd3042a815e887f9c858331ecd0d72f6709015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 16/50] fix: CglTreeProbingInfo frees its mark array when it
 finds infeasibility

---
 src/CglCommon/CglTreeInfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 73f0df9..f334f6a 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1700,6 +1700,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
@@ -1736,6 +1737,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
-- 
2.43.0


From bf7a8c39351605350554c91abc92143a84273d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 17/50] fix: CglTreeProbingInfo takes a column as one only if
 its lower bound is one

---
 src/CglCommon/CglTreeInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index f334f6a..c0e317a 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1704,7 +1704,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           return;
         }
       }
-    } else {
+    } else if (lower[iColumn] == 1.0) {
       for (int j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn01 = sequenceInCliqueEntry(fixEntry_[j]);
         if (kColumn01 >= numberIntegers_)
-- 
2.43.0


From ac478f5000cea7cd8215011efc191bdb938b77da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 18/50] fix: CglTreeProbingInfo assignment copied its start
 arrays twice and leaked one pair

---
 src/CglCommon/CglTreeInfo.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index c0e317a..16b4254 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -200,8 +200,6 @@ CglTreeProbingInfo::operator=(const CglTreeProbingInfo &rhs)
         toZero_ = NULL;
         toOne_ = NULL;
       }
-      toZero_ = CoinCopyOfArray(rhs.toZero_, numberIntegers_ + 1);
-      toOne_ = CoinCopyOfArray(rhs.toOne_, numberIntegers_);
       integerVariable_ = CoinCopyOfArray(rhs.integerVariable_, numberIntegers_);
       backward_ = CoinCopyOfArray(rhs.backward_, numberVariables_);
     } else {
-- 
2.43.0


From 3cb660d433a5695d51ea7816dc2dcc9ec6e67fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 19/50] fix: CglTreeProbingInfo::analyze crashed on extra
 cliques and shifted their starts

---
 src/CglCommon/CglTreeInfo.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 16b4254..e96125f 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -668,12 +668,14 @@ CglTreeProbingInfo::analyze(const OsiSolverInterface &si, int createSolver,
 #endif
     if (numberExtraCliques) {
       CoinBigIndex numberExtraEntries = starts[numberExtraCliques];
-      memcpy(entry + numberEntries, entries, numberExtraEntries * sizeof(CliqueEntry));
-      for (int iClique = 0; iClique < numberExtraCliques; iClique++) {
-        cliqueType[numberCliques] = type[iClique];
-        numberCliques++;
-        cliqueStart[numberCliques] = starts[iClique] + numberEntries;
+      if (iPass) {
+        memcpy(entry + numberEntries, entries, numberExtraEntries * sizeof(CliqueEntry));
+        for (int iClique = 0; iClique < numberExtraCliques; iClique++) {
+          cliqueType[numberCliques + iClique] = type[iClique];
+          cliqueStart[numberCliques + iClique + 1] = starts[iClique + 1] + numberEntries;
+        }
       }
+      numberCliques += numberExtraCliques;
       numberEntries += numberExtraEntries;
     }
     numberMatrixCliques = numberCliques;
-- 
2.43.0


From 2d055ca43a89489272ee78a0931bc0d3af672ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 20/50] fix: CglTreeProbingInfo subset test of cliques read
 past the longer clique

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index e96125f..7055310 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -415,6 +415,10 @@ static int outDupsEtc(int numberIntegers, int &numberCliques, int &numberMatrixC
         bool subset = true;
         // what about different fixes bool odd=false;
         for (j = cliqueStart[kClique] + 1; j < cliqueStart[kClique + 1]; j++) {
+          if (j + offset >= cliqueStart[iClique + 1]) {
+            subset = false;
+            break;
+          }
           int kColumn = sequenceInCliqueEntry(entry[j]);
           int iColumn = sequenceInCliqueEntry(entry[j + offset]);
           if (iColumn > kColumn) {
-- 
2.43.0


From 201d519c7c9485cc20145a44c8c57ff96fbc32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 21/50] fix: CglStored makes no implication cut from an
 infinite bound

---
 src/CglCommon/CglStored.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 432726a..98a9f6a 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -88,6 +88,8 @@ void CglStored::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           double value2 = solution[jColumn];
           double lowerValue = lower[jColumn];
           double upperValue = upper[jColumn];
+          if (upperValue - lowerValue > 1.0e20)
+            continue; // no finite coefficient
           if (oneFixesInCliqueEntry(entry[j])) {
             double violation = upperValue - value1 * (upperValue - lowerValue) - value2;
             if (violation > requiredViolation_) {
@@ -159,6 +161,8 @@ void CglStored::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           double value2 = solution[jColumn];
           double lowerValue = lower[jColumn];
           double upperValue = upper[jColumn];
+          if (upperValue - lowerValue > 1.0e20)
+            continue; // no finite coefficient
           if (oneFixesInCliqueEntry(entry[j])) {
             double violation = lowerValue + (upperValue - lowerValue) * value1 - value2;
             if (violation > requiredViolation_) {
-- 
2.43.0


From f2efec2c4f38438c86572deecf8a9197c2d79a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 22/50] fix: CglStored frees the probing information it owns
 when given another

---
 src/CglCommon/CglStored.cpp | 7 +++++++
 src/CglCommon/CglStored.hpp | 5 +----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 98a9f6a..128e8ac 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -377,6 +377,13 @@ CglStored::operator=(const CglStored &rhs)
   }
   return *this;
 }
+// Takes over ownership of probing info
+void CglStored::setProbingInfo(CglTreeProbingInfo *info)
+{
+  if (probingInfo_ != info)
+    delete probingInfo_;
+  probingInfo_ = info;
+}
 // Save stuff
 void CglStored::saveStuff(double bestObjective, const double *bestSolution,
   const double *lower, const double *upper)
diff --git a/src/CglCommon/CglStored.hpp b/src/CglCommon/CglStored.hpp
index 848af1f..cb58a06 100644
--- a/src/CglCommon/CglStored.hpp
+++ b/src/CglCommon/CglStored.hpp
@@ -44,10 +44,7 @@ public:
     return requiredViolation_;
   }
   /// Takes over ownership of probing info
-  inline void setProbingInfo(CglTreeProbingInfo *info)
-  {
-    probingInfo_ = info;
-  }
+  void setProbingInfo(CglTreeProbingInfo *info);
   //@}
 
   /**@name Cut stuff */
-- 
2.43.0


From 7ebdbeef840fdf222ef1c203954addaaada2d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 23/50] fix: CglStored read a truncated cut file for ever

---
 src/CglCommon/CglStored.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 128e8ac..739e4d2 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -287,22 +287,14 @@ CglStored::CglStored(const char *fileName)
 {
   FILE *fp = fopen(fileName, "rb");
   if (fp) {
-#ifndef NDEBUG
-    size_t numberRead;
-#endif
     int maxInCut = 0;
     int *index = NULL;
     double *coefficient = NULL;
     double rhs[2];
     int n = 0;
     while (n >= 0) {
-#ifndef NDEBUG
-      numberRead = fread(&n, sizeof(int), 1, fp);
-      assert(numberRead == 1);
-#else
-      fread(&n, sizeof(int), 1, fp);
-#endif
-      if (n < 0)
+      // stop at end marker or at a truncated file
+      if (fread(&n, sizeof(int), 1, fp) != 1 || n < 0)
         break;
       if (n > maxInCut) {
         maxInCut = n;
@@ -311,14 +303,9 @@ CglStored::CglStored(const char *fileName)
         index = new int[maxInCut];
         coefficient = new double[maxInCut];
       }
-#ifndef NDEBUG
-      numberRead = fread(rhs, sizeof(double), 2, fp);
-      assert(numberRead == 2);
-#else
-      fread(rhs, sizeof(double), 2, fp);
-#endif
-      fread(index, sizeof(int), n, fp);
-      fread(coefficient, sizeof(double), n, fp);
+      size_t numberInCut = static_cast< size_t >(n);
+      if (fread(rhs, sizeof(double), 2, fp) != 2 || fread(index, sizeof(int), n, fp) != numberInCut || fread(coefficient, sizeof(double), n, fp) != numberInCut)
+        break;
       OsiRowCut rc;
       rc.setRow(n, index, coefficient, false);
       rc.setLb(rhs[0]);
-- 
2.43.0


From d0774625bada71dc42cfa8232f2842ad754ace4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:30 +0000
Subject: [PATCH 24/50] fix: CglMixedIntegerRounding complements integer
 columns at an integral upper bound

---
 .../CglMixedIntegerRounding.cpp                       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 81535da..5a66094 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -12,6 +12,8 @@
 //#include <cmath>
 //#include <cstdlib>
 #include <cassert>
+#include <cmath>
+#include <vector>
 
 #include "CoinPragma.hpp"
 #include "CoinHelperFunctions.hpp"
@@ -55,7 +57,14 @@ CglMixedIntegerRounding::generateCuts(const OsiSolverInterface& si,
   }
 
   const double* xlp        = si.getColSolution();  // LP solution
-  const double* colUpperBound = si.getColUpper();  // vector of upper bounds
+  // vector of upper bounds - integral for integer columns, as those may be
+  // complemented
+  std::vector<double> upper(si.getColUpper(),si.getColUpper()+si.getNumCols());
+  for (int iCol = 0; iCol < si.getNumCols(); ++iCol) {
+    if (!si.isContinuous(iCol) && upper[iCol] < 1.0e15)
+      upper[iCol] = floor(upper[iCol]+1.0e-6);
+  }
+  const double* colUpperBound = upper.empty() ? NULL : &upper[0];
   const double* colLowerBound = si.getColLower();  // vector of lower bounds
 
   // get matrix by row
-- 
2.43.0


From 1a293e9d0069bbf5f2b186c5934f43fd8435295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:49 +0000
Subject: [PATCH 25/50] fix: CglZeroHalf copies separate cuts too, and a
 refreshed generator can be assigned to without abort()

---
 src/CglZeroHalf/CglZeroHalf.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index c22c89f..66c261e 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -193,6 +193,12 @@ CglZeroHalf::CglZeroHalf (
   cutInfo_.setSepGraphSparseThreshold(source.cutInfo_.getSepGraphSparseThreshold());
   cutInfo_.setRowMaxPairCount(source.cutInfo_.getRowMaxPairCount());
   cutInfo_.setRowMaxFractionalCount(source.cutInfo_.getRowMaxFractionalCount());
+  if (mnz_) {
+    cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+	     vlb_,vub_,mrhs_,msense_);
+    cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+    cutInfo_.initialize_log_var();
+  }
 }
 
 
@@ -261,10 +267,19 @@ CglZeroHalf::operator=(
       msense_ = NULL;
     }
     //cutInfo_=Cgl012Cut(rhs.cutInfo_);
+    cutInfo_.free_log_var();
+    cutInfo_.free_parity_ilp();
+    cutInfo_.free_ilp();
     cutInfo_=Cgl012Cut();
     cutInfo_.setSepGraphSparseThreshold(rhs.cutInfo_.getSepGraphSparseThreshold());
     cutInfo_.setRowMaxPairCount(rhs.cutInfo_.getRowMaxPairCount());
     cutInfo_.setRowMaxFractionalCount(rhs.cutInfo_.getRowMaxFractionalCount());
+    if (mnz_) {
+      cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+	       vlb_,vub_,mrhs_,msense_);
+      cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+      cutInfo_.initialize_log_var();
+    }
   }
   return *this;
 }
-- 
2.43.0


From 2762cc211a1b204dafb346424450fac81b36e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:41 +0000
Subject: [PATCH 26/50] fix: cglShortestPath keeps its heap a heap, so the
 distances are the shortest ones

---
 src/CglZeroHalf/CglZeroHalf.cpp | 43 +++++++++++++++------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 66c261e..7c5251f 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -533,10 +533,8 @@ CglZeroHalf::generateCpp( FILE * fp)
 }
 #include <vector>
 #include <algorithm>
-//bool operator() (cgl_node * x, cgl_node * y) {
-bool best(cgl_node * x, cgl_node * y) {
-  return (x->distanceBack>y->distanceBack);
-}
+#include <functional>
+#include <utility>
 #ifndef CGL_NEW_SHORT
 void cglShortestPath(cgl_graph * graph, int source, int maximumLength)
 #else
@@ -559,26 +557,23 @@ void cglShortestPath(auxiliary_graph * graph, int source, int maximumLength)
   }
   nodes[source].distanceBack=0;
 #ifdef HEAP
-  std::vector <cgl_node *> nodes_;
-  for ( i=0;i<numberNodes;i++) 
-    nodes_.push_back(nodes+i);
-  // create heap
-  std::make_heap(nodes_.begin(), nodes_.end(), best);
-#endif
+  // heap of (distance, node) - a node is entered again when it gets closer
+  typedef std::pair<int,int> distanceNode;
+  std::vector <distanceNode> nodes_;
+  nodes_.push_back(distanceNode(0,source));
+  while (!nodes_.empty()) {
+    int iNode = nodes_.front().second;
+    int distance = nodes_.front().first;
+    std::pop_heap(nodes_.begin(), nodes_.end(), std::greater<distanceNode>());
+    nodes_.pop_back();
+    if (distance>nodes[iNode].distanceBack)
+      continue; // out of date
+    // Prune: no useful odd cycle can have weight > maximumLength
+    if (distance >= maximumLength)
+      break;
+#else
   int numberCandidates = numberNodes;
   while (numberCandidates>0) {
-#ifdef HEAP
-  cgl_node * bestNode = nodes_.front();
-  int iNode = bestNode->index;
-  std::pop_heap(nodes_.begin(), nodes_.end(), best);
-  nodes_.pop_back();
-  if (nodes[iNode].distanceBack==COIN_INT_MAX)
-    break;
-  // Prune: no useful odd cycle can have weight > maximumLength
-  if (nodes[iNode].distanceBack >= maximumLength)
-    break;
-  numberCandidates--;
-#else
     int best=-1;
     int bestDistance=COIN_INT_MAX;
     for (i=0;i<numberCandidates;i++) {
@@ -603,8 +598,8 @@ void cglShortestPath(auxiliary_graph * graph, int source, int maximumLength)
 	nodes[toNode].distanceBack=thisDistance+dist;
 	nodes[toNode].parentNode=iNode;
 #ifdef HEAP
-	nodes_.push_back(nodes+toNode);
-	//printf("size %d\n",nodes_.size());
+	nodes_.push_back(distanceNode(thisDistance+dist,toNode));
+	std::push_heap(nodes_.begin(), nodes_.end(), std::greater<distanceNode>());
 #endif
       }
     }
-- 
2.43.0


From 71eec7469686cb0aefb25ffa02a1b9768f81c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:49 +0000
Subject: [PATCH 27/50] fix: CglZeroHalf does not divide by zero on a row whose
 stored entries and right hand side are all zero

---
 src/CglZeroHalf/Cgl012cut.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index 3fedc6f..bf31405 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -939,6 +939,7 @@ printf("sense %c and rhs %d and slack %.5e\n",inp_ilp->msense[i],inp_ilp->mrhs[i
    
     //if ( gcdi != 1 ) 
     //printf("Warning: constraint %d with nonprime coefficients\n",i); 
+    if ( gcdi == 0 ) gcdi = 1; /* empty row with zero rhs */
     p_ilp->gcd[i] = gcdi;
     p_ilp->mrhs[i] = mod2(( inp_ilp->mrhs[i] / gcdi ));
     p_ilp->mtbeg[i] = cnttot;
-- 
2.43.0


From bf120f8781b5cfcf836f4bce9d6e75646f51ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:24 +0000
Subject: [PATCH 28/50] fix: CglRedSplit wraps around at the last row when it
 selects tableau rows

---
 src/CglRedSplit/CglRedSplit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..90fdc62 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1450,7 +1450,7 @@ double *slack_val = new double[nrow];
     }
 
     int ind_row = start + i;
-    if(ind_row > nrow) {
+    if(ind_row >= nrow) {
       ind_row -= nrow;
     }
 
-- 
2.43.0


From 653cae318f6bb949253d3d30e2bb0ab2d500f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:37 +0000
Subject: [PATCH 29/50] fix: CglRedSplitParam::getMAXDYN returns MAXDYN

---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0


From 0114f88f83d08b521a2dd8cf73c005fa41a817a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:37 +0000
Subject: [PATCH 30/50] fix: CglRedSplit::generateCpp writes calls of methods
 that exist

---
 src/CglRedSplit/CglRedSplit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 90fdc62..1dd2a39 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1910,21 +1910,21 @@ CglRedSplit::generateCpp(FILE * fp)
   else
     fprintf(fp,"4  redSplit.setLUB(%g);\n",param.getLUB());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  redSplit.set.EPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  redSplit.setEPS(%g);\n",param.getEPS());
   else
     fprintf(fp,"4  redSplit.setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
     fprintf(fp,"3  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_COEFF_LUB()!=other.param.getEPS_COEFF_LUB())
-    fprintf(fp,"3  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"3  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"4  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   if (param.getNormIsZero()!=other.param.getNormIsZero())
     fprintf(fp,"3  redSplit.setNormIsZero(%g);\n",param.getNormIsZero());
   else
-- 
2.43.0


From 4b652c6851ab96778b7c71d4c3afcf2e050c2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 31/50] fix: CglRedSplit2Param::setMAX_SUPP_REL can be called
 and sets MAX_SUPP_REL, not MINVIOL

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 6 +++---
 src/CglRedSplit2/CglRedSplit2Param.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 82cedad..2ef51cb 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -72,11 +72,11 @@ void CglRedSplit2Param::setMINVIOL(double value)
 /***********************************************************************/
 void CglRedSplit2Param::setMAX_SUPP_REL(double value)
 {
-  if (value > 0.0 && value <= 0.1) {
-    MINVIOL = value;
+  if (value >= 0.0 && value <= 1.0) {
+    MAX_SUPP_REL = value;
   }
   else {
-    printf("### WARNING: CglRedSplit2Param::setMINVIOL(): value: %f ignored\n", 
+    printf("### WARNING: CglRedSplit2Param::setMAX_SUPP_REL(): value: %f ignored\n", 
 	   value);
   }
 } /* setMAX_SUPP_REL */
diff --git a/src/CglRedSplit2/CglRedSplit2Param.hpp b/src/CglRedSplit2/CglRedSplit2Param.hpp
index 6444951..a96af7f 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.hpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.hpp
@@ -213,7 +213,7 @@ public:
 
   /** Maximum relative support of the cutting planes. Default: 0.0.
       The maximum support is MAX_SUPP_ABS + MAX_SUPPREL*ncols. */
-  inline void setMAX_SUPP_REL(double value); 
+  void setMAX_SUPP_REL(double value); 
   inline double getMAX_SUPP_REL() const {return MAX_SUPP_REL;}
 
   /** Set the value of USE_INTSLACKS. Default: 0 */
-- 
2.43.0


From 6dab6958a2072fd86e7d6ded5c118090e4cee4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 32/50] fix: CglRedSplit2Param initializes its column scaling
 strategy without default strategies too

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 2ef51cb..fd140fc 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -380,6 +380,7 @@ CglRedSplit2Param::CglRedSplit2Param(bool use_default_strategies,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
@@ -432,6 +433,7 @@ CglRedSplit2Param::CglRedSplit2Param(const CglParam &source,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
-- 
2.43.0


From 42a1bb64a93c7246c71b8a894bb40b1d42106d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:31 +0000
Subject: [PATCH 33/50] fix: CglLiftAndProject tests the type of the column it
 cuts on

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From 395f15c3db3c7be4216081b6748539ad575c888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:31 +0000
Subject: [PATCH 34/50] fix: CglLiftAndProject frees its cone problem, warm
 starts and row activities

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c0e18a0..7f36c36 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -279,6 +279,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       coneSi->initialSolve();
     }
     if(coneSi->isProvenOptimal()){
+      delete warmStart;
       warmStart = coneSi->getWarmStart();
       haveWarmStart=true;
       const double * wstar = coneSi->getColSolution();
@@ -313,6 +314,9 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   delete [] alpha;
   delete [] ustar;
   delete [] nVectorIndices;
+  delete [] Atildex;
+  delete warmStart;
+  delete coneSi;
   // BMatrix, BColLowers,BColUppers, BObjective, BRowLowers, BRowUppers
   // are all freed by OsiSolverInterface destructor (?)
   delete [] BLengths;
-- 
2.43.0


From 168e5c1da896c5f0f6100e0a2983905c17f31f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:43 +0000
Subject: [PATCH 35/50] fix: CglLiftAndProject without rows generates nothing
 instead of reading before its arrays

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 7f36c36..4687ecf 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -54,6 +54,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   // let Atilde be an m by n matrix
   const int m = si.getNumRows(); 
   const int n = si.getNumCols(); 
+  if (m == 0) return; // nothing to combine
   const double * x = si.getColSolution();
 
   // Remember - Atildes may have gaps..
-- 
2.43.0


From 9f7e79cb1eff0b3c7f64e0f5d9cd74e4930f793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:43 +0000
Subject: [PATCH 36/50] fix: CglLiftAndProject builds its cone problem right
 from a matrix with gaps

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 4687ecf..a1bba1c 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -118,6 +118,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   int nPlus1=n+1;
   CoinBigIndex offset = AtildeStarts[m]+m;
   for (i=0; i<m; i++){
+    BStarts[i]= k;
     for (ij=AtildeStarts[i];ij<AtildeStarts[i]+AtildeLengths[i];ij++){
       BElements[k]=AtildeElements[ij];
       BElements[k+offset]=-AtildeElements[ij];
@@ -130,8 +131,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
     BElements[k+offset]=btilde[i];
     BIndices[k]=n;
     BIndices[k+offset]=nPlus1;
-    BStarts[i]= AtildeStarts[i]+i;
-    BStarts[i+m]=offset+BStarts[i];// = AtildeStarts[m]+m+AtildeStarts[i]+i
+    BStarts[i+m]=offset+BStarts[i];
     BLengths[i]= AtildeLengths[i]+1;
     BLengths[i+m]= AtildeLengths[i]+1;
     k++;
-- 
2.43.0


From 9dd877777674b5b65fa419d5a7478c68a04fdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 37/50] fix: CglKnapsackCover leaves zero entries of a row out
 of its knapsack

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..cb8424b 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -1007,6 +1007,11 @@ CglKnapsackCover::deriveAKnapsack(
     // inequality. 
     // note: the variable is included regardless of its solution value to the
     // lp relaxation. 
+    else if (fabs(elements[i]) <= epsilon_) {
+      // (nearly) zero - leave out, relaxing the row
+      if (elements[i] < 0.0)
+	b -= elements[i];
+    }
     else{
       krow.insert(indices[i], elements[i]);
 
-- 
2.43.0


From 7e80c64f112bb0fb45e0b5cf3327d81c42719fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 38/50] fix: CglKnapsackCover does not take rounding errors in
 a right hand side for infeasibility

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index cb8424b..519b980 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -1094,7 +1094,7 @@ CglKnapsackCover::deriveAKnapsack(
   // If the problem is infeasible, add an infeasible col cut to cut set
   // e.g. one that has lb > ub.
   // TODO: test this scenario in BCP
-  if (b < 0 ){ 
+  if (b < -epsilon_){ 
     OsiColCut cc;
     int index = krow.getIndices()[0]; 
     const double fakeLb = colupper[index] + 1.0;;  // yes, colupper.
-- 
2.43.0


From 2e6f63b5388ec52558f567c9f2725b3f3ed5a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:51 +0000
Subject: [PATCH 39/50] fix: CglKnapsackCover::setTestedRowIndices with no rows
 does not leave a dangling list

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 519b980..c340079 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -803,6 +803,7 @@ CglKnapsackCover::setTestedRowIndices(int num, const int* ind)
 {
    if (rowsToCheck_)
       delete[] rowsToCheck_;
+   rowsToCheck_ = 0;
    numRowsToCheck_ = num;
    if (num > 0) {
       rowsToCheck_ = new int[num];
-- 
2.43.0


From 088c0634183951d12e62827c7365e2704c424536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 40/50] fix: CglKnapsackCover makes no cut from a cover it can
 not lift the columns at one into

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index c340079..5188d6e 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -2243,6 +2243,10 @@ CglKnapsackCover::liftUpDownAndUncomplementAndAdd(
 
   //assert ( unsatRhs > 0 );
 
+  // Columns at one that can not be lifted would have to stay at one
+  if (unsatRhs<=0.0&&atOne.getNumElements()>0)
+    return;
+
   // If there is something to lift, then calculate the lifted coefficients
   if (unsatRhs>0.0&&(remainder.getNumElements()+atOne.getNumElements())> 0){
     
-- 
2.43.0


From 262d15a4bb5eccc94fe6f9c64c6c6b04f759be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 41/50] fix: CglKnapsackCover can be copied after its clique
 search found infeasibility

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 5188d6e..dd41993 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3689,7 +3689,7 @@ CglKnapsackCover::CglKnapsackCover (const CglKnapsackCover & source) :
    }
   numberCliques_=source.numberCliques_;
   numberColumns_=source.numberColumns_;
-  if (numberCliques_) {
+  if (numberCliques_>0) {
     cliqueType_ = new CliqueType [numberCliques_];
     CoinMemcpyN(source.cliqueType_,numberCliques_,cliqueType_);
     cliqueStart_ = new int [numberCliques_+1];
@@ -3768,7 +3768,7 @@ CglKnapsackCover::operator=(const CglKnapsackCover& rhs)
       deleteCliques();
       numberCliques_=rhs.numberCliques_;
       numberColumns_=rhs.numberColumns_;
-      if (numberCliques_) {
+      if (numberCliques_>0) {
 	cliqueType_ = new CliqueType [numberCliques_];
 	CoinMemcpyN(rhs.cliqueType_,numberCliques_,cliqueType_);
 	cliqueStart_ = new int [numberCliques_+1];
-- 
2.43.0


From 09ebe83aa168ac03052cc17f1436f334022e6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 42/50] fix: CglKnapsackCover::createCliques skips rows it can
 not use whatever the minimum size

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index dd41993..55d2663 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3970,7 +3970,7 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
 	}
         totalP1 += numberP1;
         totalM1 += numberM1;
-	if (length >= minimumSize&&length<maximumSize) {
+	if (length && length >= minimumSize&&length<maximumSize) {
 	  whichRow[numberCliques_++]=iRow;
 	  numberEntries += length;
 	} else if (length >= maximumSize) {
-- 
2.43.0


From a1d0093c5cb7d216e7fce9b781ebe51ae3545fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:06 +0000
Subject: [PATCH 43/50] fix: CglClique::generateCpp writes the maximum number
 of cuts

---
 src/CglClique/CglClique.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 3242850..5ace78e 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -797,6 +797,10 @@ CglClique::generateCpp( FILE * fp)
     fprintf(fp,"3  clique.setMinViolation(%g);\n",petol);
   else
     fprintf(fp,"4  clique.setMinViolation(%g);\n",petol);
+  if (maxNumber_!=other.maxNumber_)
+    fprintf(fp,"3  clique.setMaxNumber(%d);\n",maxNumber_);
+  else
+    fprintf(fp,"4  clique.setMaxNumber(%d);\n",maxNumber_);
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  clique.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From ec781b632953bd9b201bbd6f5ee86dd488041c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:06 +0000
Subject: [PATCH 44/50] fix: CglZeroHalf::generateCpp writes the flags

---
 src/CglZeroHalf/CglZeroHalf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 7c5251f..17f8b6f 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -523,6 +523,8 @@ CglZeroHalf::generateCpp( FILE * fp)
     fprintf(fp,"3  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
   else
     fprintf(fp,"4  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
+  if (getFlags()!=other.getFlags())
+    fprintf(fp,"3  zeroHalf.setFlags(%d);\n",getFlags());
   if (getSepGraphSparseThreshold()!=other.getSepGraphSparseThreshold())
     fprintf(fp,"3  zeroHalf.setSepGraphSparseThreshold(%d);\n",getSepGraphSparseThreshold());
   if (getRowMaxPairCount()!=other.getRowMaxPairCount())
-- 
2.43.0


From ee19ae0ecd813875d9995a3b742386a67086203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 45/50] fix: CglDuplicateRow keeps the equality when an
 inequality has the same entries

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c74e8b0..7e75a1d 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2735,7 +2735,8 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	if (iValue<numberIntegers) 
 	  break;
 	if (cliqueType[kClique]=='E') {
-	  iLowest = std::min(iLowest,kClique);
+	  // an equality must not go in favor of an inequality
+	  iLowest = (type=='E') ? std::min(iLowest,kClique) : kClique;
 	  type='E';
 	} else if (type=='S') {
 	  iLowest = std::min(iLowest,kClique);
-- 
2.43.0


From ae513a7c8862f79c68858307682b047cd378780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 46/50] fix: CglDuplicateRow subset test of cliques read past
 the longer clique

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 7e75a1d..2bf1e34 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2832,7 +2832,9 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	// what about different fixes bool odd=false;
 	for (j=cliqueStart[kClique];j<cliqueStart[kClique+1];j++) {
 	  int kColumn = entry[j];
-	  int iColumn = entry[j+offset];
+	  int iColumn = numberIntegers;
+	  if (j+offset<cliqueStart[iClique+1])
+	    iColumn = entry[j+offset];
 	  while (iColumn<kColumn) {
 	    offset++;
 	    if (j+offset<cliqueStart[iClique+1]) {
-- 
2.43.0


From 689d2d0e2b14daec0fee72211df0d41e8604f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 47/50] fix: CglDuplicateRow takes only integer columns as 0-1
 columns

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 2bf1e34..83a452d 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2956,7 +2956,7 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
   int numberColumns=si.getNumCols();
   int * backward = new int [numberColumns];
   for (int i=0;i<numberColumns;i++) {
-    if (lower[i]==0.0&&upper[i]==1.0) 
+    if (lower[i]==0.0&&upper[i]==1.0&&si.isInteger(i)) 
       backward[i]=numberIntegers++;
     else
       backward[i]=-1;
-- 
2.43.0


From efa97d4100a3d1d0032bbc9c6bc77019d331da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:21 +0000
Subject: [PATCH 48/50] fix: CglAllDifferent does not look at sets whose
 domains are too wide for its table

---
 src/CglAllDifferent/CglAllDifferent.cpp | 30 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 621393f..71d2ea3 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -64,6 +64,12 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   for (i=0;i<numberDifferent_;i++) {
     int iColumn = originalWhich_[i];
     assert (iColumn<nCols);
+    if (lower[iColumn]<-1.0e9||upper[iColumn]>1.0e9) {
+      // too wide (or infinite) - sets with this column will not be looked at
+      lo[i] = -1000000000;
+      up[i] = 1000000000;
+      continue;
+    }
     lo[i]  = static_cast<int> (lower[iColumn]);
     assert (floor(lower[iColumn]+0.5)==lower[iColumn]);
     up[i]  = static_cast<int> (upper[iColumn]);
@@ -83,19 +89,29 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   //int * which = new int [numberTotal];
   //int * start = new int [numberSets_+1];
   for (i=0;i<numberSets_;i++) {
+    int setOffset = offset;
+    int setMaxValue = maxValue;
     for (int j=start_[i];j<start_[i+1];j++) {
       int k=which_[j];
-      offset = std::min(offset,lo[k]);
-      maxValue = std::max(maxValue,up[k]);
+      setOffset = std::min(setOffset,lo[k]);
+      setMaxValue = std::max(setMaxValue,up[k]);
     }
-    numberLook++;
-    int gap = maxValue-offset+1;
-    double size = static_cast<double> (gap) * numberDifferent_;
+    double gap = static_cast<double> (setMaxValue)-setOffset+1.0;
+    double size = gap * numberDifferent_;
     if (size>1.0e7) {
       if (logLevel_)
         printf("Only looking at %d sets\n",numberLook);
       break;
     }
+    offset = setOffset;
+    maxValue = setMaxValue;
+    numberLook++;
+  }
+  if (offset>maxValue) {
+    // no set to look at
+    delete [] lo;
+    delete [] up;
+    return;
   }
   // Which sets a variable is in
   int * back = new int [start_[numberSets_]];
@@ -132,6 +148,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   int * alreadyFixed = new int[numberDifferent_];
   for (i=0;i<numberDifferent_;i++) {
     alreadyFixed[i]=-1;
+    if (backStart[i]==backStart[i+1])
+      continue; // only in sets not looked at
     int startV = i*gap + lo[i] - offset;
     int n = up[i]-lo[i]+1;
     memset(possible+startV,1,n);
@@ -372,6 +390,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     CoinPackedVector ubs;
     int nTightened=0;
     for (i=0;i<numberDifferent_;i++) {
+      if (backStart[i]==backStart[i+1])
+        continue; // only in sets not looked at
       int iColumn = originalWhich_[i];
       char * allowed = possible+i*gap;
       int firstLo=-1;
-- 
2.43.0


From e38c9abedc70d8e701a4d4dccd53ae9316394723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 49/50] fix: CglMixedIntegerRounding2 complements integer
 columns at an integral upper bound

---
 .../CglMixedIntegerRounding2.cpp                      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 16561b9..c126d99 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -11,6 +11,8 @@
 //#include <cmath>
 //#include <cstdlib>
 #include <cassert>
+#include <cmath>
+#include <vector>
 #include "CoinPragma.hpp"
 #include "CoinHelperFunctions.hpp"
 #include "CoinPackedMatrix.hpp"
@@ -179,7 +181,14 @@ CglMixedIntegerRounding2::generateCuts(const OsiSolverInterface& si,
     
   int numberRowCutsBefore = cs.sizeRowCuts();
   const double* xlp        = si.getColSolution();  // LP solution
-  const double* colUpperBound = si.getColUpper();  // vector of upper bounds
+  // vector of upper bounds - integral for integer columns, as those may be
+  // complemented
+  std::vector<double> upper(si.getColUpper(),si.getColUpper()+si.getNumCols());
+  for (int iCol = 0; iCol < si.getNumCols(); ++iCol) {
+    if (!si.isContinuous(iCol) && upper[iCol] < 1.0e15)
+      upper[iCol] = floor(upper[iCol]+1.0e-6);
+  }
+  const double* colUpperBound = upper.empty() ? NULL : &upper[0];
   const double* colLowerBound = si.getColLower();  // vector of lower bounds
 
   // get matrix by row
-- 
2.43.0


From 218638b37470aa5a7e49d8f156ee2cda4868bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 50/50] fix: CglFlowCover releases what assignment replaces and
 what an empty cut leaves

---
 src/CglFlowCover/CglFlowCover.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 57ff1e3..14cac16 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -432,6 +432,9 @@ CglFlowCover::operator=(const CglFlowCover& rhs)
     //    numFlowCuts_ = rhs.numFlowCuts_;
     setNumFlowCuts(rhs.numFlowCuts_);
     doneInitPre_ = rhs.doneInitPre_;
+    if (vubs_ != 0) { delete [] vubs_; vubs_ = 0; }
+    if (vlbs_ != 0) { delete [] vlbs_; vlbs_ = 0; }
+    if (rowTypes_ != 0) { delete [] rowTypes_; rowTypes_ = 0; }
     if (numCols_ > 0) {
       vubs_ = new CglFlowVUB [numCols_];
       vlbs_ = new CglFlowVLB [numCols_];
@@ -1219,6 +1222,10 @@ CglFlowCover::generateOneFlowCut( const OsiSolverInterface & si,
             delete[] rho;
         if (order)
             delete[] order;
+        if (ratio)
+            delete[] ratio;
+        if (cutInd)
+            delete[] cutInd;
         return false;
     }
         
-- 
2.43.0

