From 57beaf95369f3d4ac8a3e9636505f62bee0bc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 001/311] fix: apop_data_memcpy lost the vector name, wrote
 "(null)" titles, and leaked the old names

---
 apop_data.m4.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..a2f2894 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -170,6 +170,20 @@ char apop_data_free_base(apop_data *freeme){
     return 0;
 }
 
+//The title and vector name are in the name struct itself, and out may be a view that
+//shares them with another data set, so the old one can't be freed here.
+static void replace_struct_name(char **out, char const *in){
+    if (*out && !strcmp(*out, in)) return;
+    *out = strdup(in);
+}
+
+//The row/col/text lists are shared by a view and its parent, so the slot is good for both.
+static void replace_listed_name(char **out, char const *in){
+    if (*out == in) return; //both are views of the same list
+    free(*out);
+    *out = strdup(in);
+}
+
 /** Copy one \ref apop_data structure to another.
 
 This function does not allocate the output structure or the vector, matrix, text,
@@ -231,16 +245,16 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        if (in->names->title) replace_struct_name(&out->names->title, in->names->title);
+        if (in->names->vector) replace_struct_name(&out->names->vector, in->names->vector);
         for (int i=0; i< in->names->rowct; i++)
-            if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
+            if (i< out->names->rowct) replace_listed_name(out->names->row+i, in->names->row[i]);
             else  apop_name_add(out->names, in->names->row[i], 'r');
         for (int i=0; i< in->names->colct; i++)
-            if (i< out->names->colct) {Asprintf(out->names->col+i, "%s", in->names->col[i]);}
+            if (i< out->names->colct) replace_listed_name(out->names->col+i, in->names->col[i]);
             else  apop_name_add(out->names, in->names->col[i], 'c');
         for (int i=0; i< in->names->textct; i++)
-            if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
+            if (i< out->names->textct) replace_listed_name(out->names->text+i, in->names->text[i]);
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
     out->textsize[0] = in->textsize[0]; 
-- 
2.43.0


From fdc170a6a0fdbfbdc2502e1773dc58e5e1c69722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 002/311] fix: apop_data_memcpy overwrote the destination's
 text size before checking it, then wrote past its grid

---
 apop_data.m4.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a2f2894..ceb997a 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -257,8 +257,6 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             if (i< out->names->textct) replace_listed_name(out->names->text+i, in->names->text[i]);
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
-- 
2.43.0


From b2550bd54197ee8ebd15cc2903fc3f5ba130b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 003/311] fix: apop_name_copy gave an untitled set the title
 "(null)"

---
 apop_name.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..6d2b8be 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -193,7 +193,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in->title) Asprintf(&out->title, "%s", in->title);
     return out;
 }
 
-- 
2.43.0


From 78317029c0b4be8ece32a78b24d6ad6079992a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 004/311] fix: apop_name_free leaked the title

---
 apop_name.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index 6d2b8be..5baf32b 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -131,6 +131,7 @@ void  apop_name_free(apop_name * free_me){
 	for (size_t i=0; i < free_me->textct; i++) free(free_me->text[i]);
 	for (size_t i=0; i < free_me->rowct; i++)  free(free_me->row[i]);
     if (free_me->vector) free(free_me->vector);
+    free(free_me->title);
 	free(free_me->col);  free(free_me->colhash);
 	free(free_me->text); free(free_me->texthash);
 	free(free_me->row);  free(free_me->rowhash);
-- 
2.43.0


From b451a5fdeb2ef5c1c8629b5beaa565294640709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 005/311] fix: apop_data_split of a set without a matrix split
 past its end and aborted; 'R' dropped the text

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index ceb997a..7a7f710 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -483,9 +483,10 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
         namec0 = 0, namec1 = 0,
         namersplit = -1, namecsplit = -1;
      if (r_or_c == 'r' || r_or_c == 'R') {
+        Get_vmsizes(in); //msize1, maxsize
         if (splitpoint <=0)
             out[1]  = apop_data_copy(in);
-        else if (in->matrix && splitpoint >= in->matrix->size1)
+        else if (splitpoint >= (in->matrix ? msize1 : maxsize))
             out[0]  = apop_data_copy(in);
         else {
             namev0  =
@@ -611,7 +612,7 @@ allocation:
         if (namec1 && out[1]) apop_name_stack(out[1]->names, in->names, 'c');
     }
     //finally, the text [split by rows only]
-    if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
+    if ((r_or_c=='r' || r_or_c=='R') && in->textsize[0] && in->textsize[1]){
         apop_name_stack(out[1]->names, in->names, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
-- 
2.43.0


From eae756dd2ea3e9f066751296f8a5174432176bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 006/311] fix: apop_name_stack ignored the target type when
 stacking a vector's name

---
 apop_name.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index 5baf32b..0f2b54e 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -160,7 +160,7 @@ APOP_VAR_ENDHEAD
     int i;
     apop_name counts = (apop_name){.rowct=nadd->rowct, .textct = nadd->textct, .colct = nadd->colct};//Necessary when stacking onto self.;
     if (typeadd == 'v')
-        apop_name_add(n1, nadd->vector, 'v');
+        apop_name_add(n1, nadd->vector, type1);
     else if (typeadd == 'r')
         for (i=0; i< counts.rowct; i++)
             apop_name_add(n1, nadd->row[i], type1);
-- 
2.43.0


From 11bbcab98707845f2c519f302f2f3c0c01b64c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 007/311] fix: apop_data_stack misplaced names, and dropped the
 matrix with no error when sizes do not match

---
 apop_data.m4.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 7a7f710..0a7a7d5 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -384,21 +384,32 @@ APOP_VAR_ENDHEAD
     }
     Get_vmsizes(m1); //original sizes of vsize, msize1, msize2.
     if (m2->names && !out->names) out->names = apop_name_alloc();
-    
+    int adds_vector_col = (posn == 'c' && m2->vector && out->vector);
+    if (m2->names && (posn == 'r' ? m2->names->rowct : (m2->names->colct || (adds_vector_col && m2->names->vector)))){
+        int max = posn =='r' ? maxsize : msize2;
+        for (int k = posn =='r' ? out->names->rowct : out->names->colct; k < max; k++) //pad so the name stacking is aligned (if needed)
+            apop_name_add(out->names, "", posn);
+    }
     if (posn == 'c'){
-        if (m2->vector && out->vector){
-            gsl_matrix_view mview = gsl_matrix_view_vector(m2->vector, m2->vector->size, 1);
-            out->matrix = apop_matrix_stack(out->matrix, &mview.matrix, posn, .inplace='y');
+        if (adds_vector_col){
+            Apop_stopif(out->matrix && out->matrix->size1 != m2->vector->size, out->error='d'; return out, 0,
+                    "The first data set has %zu rows and the second has a vector of size %zu. I can't stack that.",
+                    out->matrix->size1, m2->vector->size);
+            gsl_matrix *vcol = apop_vector_to_matrix(m2->vector);
+            out->matrix = apop_matrix_stack(out->matrix, vcol, posn, .inplace='y');
+            gsl_matrix_free(vcol);
             apop_name_stack(out->names, m2->names, 'c', 'v');
             if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            if (m2->names && m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
         }
     }
 
-    out->matrix = apop_matrix_stack(out->matrix, m2->matrix, posn, .inplace='y');
+    gsl_matrix *stacked = apop_matrix_stack(out->matrix, m2->matrix, posn, .inplace='y');
+    Apop_stopif(!stacked && (out->matrix || m2->matrix), out->error='d'; return out, 0, "I can't stack these matrices.");
+    out->matrix = stacked;
 
 
     if (posn == 'r'){
@@ -433,16 +444,14 @@ APOP_VAR_ENDHEAD
                     if (m2->text[i][j] == apop_nul_string)
                          apop_text_blank(out, i, j+basetextsize);
                     else apop_text_set(out, i, j+basetextsize, "%s", m2->text[i][j]);
+            if (m2->names && m2->names->textct)
+                for (int k = out->names->textct; k < basetextsize; k++)
+                    apop_name_add(out->names, "", 't');
             apop_name_stack(out->names, m2->names, 't');
         }
     }
-    if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
-        int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
-        for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
-            apop_name_add(out->names, "", posn); 
+    if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct))
         apop_name_stack(out->names, m2->names, posn);
-    }
     return out;
 }
 
-- 
2.43.0


From b45dd0436cccff4e0d9f60c4dd94a0039b46b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 008/311] fix: stacking in place onto a view dereferenced the
 NULL that the refused realloc returned

---
 apop_linear_algebra.m4.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index e2f1c26..b588fe0 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -204,9 +204,10 @@ APOP_VAR_ENDHEAD
         return NULL;
     //else:
     size_t v1size = v1->size; //save in case of reallocing.
-    if (inplace == 'y' )
+    if (inplace == 'y' ){
         out = apop_vector_realloc(v1, v1->size+v2->size);
-    else {
+        Apop_stopif(!out, return NULL, 0, "Couldn't resize the first vector. Returning NULL.");
+    } else {
         out = gsl_vector_alloc(v1->size + v2->size);
         t   = gsl_vector_subvector(out, 0, v1size).vector;
         gsl_vector_memcpy(&t, v1);
@@ -263,9 +264,10 @@ APOP_VAR_ENDHEAD
     if (posn == 'r'){
         Apop_stopif(m1->size2 != m2->size2, return NULL, 0, "When stacking matrices on top of each other, they have to have the same number of columns, but  m1->size2==%zu and m2->size2==%zu. Returning NULL.", m1->size2, m2->size2);
         int m1size = m1->size1;
-        if (inplace =='y')
+        if (inplace =='y'){
             out = apop_matrix_realloc(m1, m1->size1 + m2->size1, m1->size2);
-        else {
+            Apop_stopif(!out, return NULL, 0, "Couldn't resize the first matrix. Returning NULL.");
+        } else {
             out     = gsl_matrix_alloc(m1->size1 + m2->size1, m1->size2);
             for (int i=0; i< m1size; i++){
                     tmp_vector  = gsl_matrix_row(m1, i);
@@ -282,9 +284,10 @@ APOP_VAR_ENDHEAD
                 "they have to have the same number of rows, but m1->size1==%zu and m2->size1==%zu. Returning NULL."
                 , m1->size1, m2->size1);
         int m1size = m1->size2;
-        if (inplace =='y')
+        if (inplace =='y'){
             out = apop_matrix_realloc(m1, m1->size1, m1->size2 + m2->size2);
-        else {
+            Apop_stopif(!out, return NULL, 0, "Couldn't resize the first matrix. Returning NULL.");
+        } else {
             out     = gsl_matrix_alloc(m1->size1, m1->size2 + m2->size2);
             for (int i=0; i< m1size; i++)
                 gsl_matrix_set_col(out, i, Apop_mcv(m1, i));
-- 
2.43.0


From 23723b62422d11d5f99b5ee3745d1e23044775ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 009/311] fix: in-place apop_data_transpose left the name
 hashes behind, so a name lookup read past the shorter list

---
 apop_data.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 0a7a7d5..bfb0275 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1156,6 +1156,9 @@ APOP_VAR_ENDHEAD
             char **tmp = out->names->col;
             out->names->col = out->names->row;
             out->names->row = tmp;
+            unsigned long *tmphash = out->names->colhash;
+            out->names->colhash = out->names->rowhash;
+            out->names->rowhash = tmphash;
             int tmpct = out->names->colct;
             out->names->colct = out->names->rowct;
             out->names->rowct = tmpct;
-- 
2.43.0


From 2bbaca2db3ceff02077de66cfe431e6739d2fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 010/311] fix: apop_data_transpose used the text cells as
 printf formats

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index bfb0275..9707e9d 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1212,7 +1212,7 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
     if (in->names && in->names->textct && !in->names->colct)
         apop_name_stack(out->names, in->names, 't', 'r');
-- 
2.43.0


From 39b89d23ebb648027e5dd912ab950fcc6826c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 011/311] fix: in-place apop_data_transpose leaked the rows or
 cells beyond the square part of the text

---
 apop_data.m4.c | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 9707e9d..202c8e4 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1172,38 +1172,20 @@ APOP_VAR_ENDHEAD
     if (inplace=='y'){
         size_t orows = in->textsize[0];
         size_t ocols = in->textsize[1];
-        if (orows > ocols){ //extend the first ocols rows to their now-longer length
-            for (size_t i=0; i< ocols; i++){
-                in->text[i] = realloc(in->text[i], sizeof(char*)*orows);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
-                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
-                for (int j=ocols; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
-            }
-        }
-        if (ocols > orows){ //add rows.
-            in->text = realloc(in->text, sizeof(char**)*ocols);
-            Apop_stopif(!in->text, in->error='a'; return in,
-                            0, "realloc failed setting up %zu rows. Probably out of memory.", ocols);
-            for (size_t i=orows; i < ocols; i++){
-                in->text[i] = malloc(sizeof(char*) * orows);
-                Apop_stopif(!in->text[i], in->error='a'; return in, 
+        char ***newtext = malloc(sizeof(char**)*ocols);
+        Apop_stopif(!newtext, in->error='a'; return in,
+                        0, "malloc failed setting up %zu rows. Probably out of memory.", ocols);
+        for (size_t i=0; i< ocols; i++){
+            newtext[i] = malloc(sizeof(char*)*orows);
+            Apop_stopif(!newtext[i], in->error='a'; return in,
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
-                for (int j=0; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
-            }
+            for (size_t j=0; j< orows; j++)
+                newtext[i][j] = in->text[j][i];
         }
-        size_t squaresize = GSL_MIN(orows, ocols);
-        for (int i=0; i< squaresize; i++) //now do the no-need-to-extend square
-            for (int j=i+1; j< squaresize; j++){
-                char *tmp = in->text[i][j];
-                in->text[i][j] = in->text[j][i];
-                in->text[j][i] = tmp;
-            }
+        for (size_t j=0; j< orows; j++)
+            free(in->text[j]);
+        free(in->text);
+        in->text = newtext;
         in->textsize[0] = ocols;
         in->textsize[1] = orows;
     } else {
-- 
2.43.0


From aee30e2a6f802483e2c8ab558bc73ea34f980fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 012/311] fix: apop_data_prune_columns read past its list when
 there are more columns than names

---
 apop_data.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 202c8e4..af2bc30 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -744,7 +744,9 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     find each element of the list, using that "" as a stopper, and then call apop_data_rm_columns.*/
     Apop_stopif(!d, return NULL, 1, "You're asking me to prune a NULL data set; returning.");
     Apop_stopif(!d->matrix, return d, 1, "You're asking me to prune a data set with NULL matrix; returning.");
-    int rm_list[d->names->colct];
+    int rm_list[GSL_MAX(d->names->colct, (int)d->matrix->size2)];
+    for (int i=d->names->colct; i< (int)d->matrix->size2; i++)
+        rm_list[i] = 1; //no name, so not one of the columns to keep
     int keep_count = 0;
     char **name_step = colnames;
     //to throw errors for typos (and slight efficiency gains), I need an array of whether
-- 
2.43.0


From c96a25385a815fa50da3d6623605f4d8132e994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 013/311] fix: apop_data_rm_columns dereferenced a NULL matrix
 or name structure

---
 apop_data.m4.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index af2bc30..fc0ee77 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -697,10 +697,12 @@ quickly fill an array of ints with nonzero values.
 \ref apop_data_rm_rows
 */
 void apop_data_rm_columns(apop_data *d, int *drop){
-    gsl_matrix *freeme = d->matrix;
-    d->matrix = apop_matrix_rm_columns(d->matrix, drop);
-    gsl_matrix_free(freeme); 
-    apop_name_rm_columns(d->names, drop);
+    if (d->matrix){
+        gsl_matrix *freeme = d->matrix;
+        d->matrix = apop_matrix_rm_columns(d->matrix, drop);
+        gsl_matrix_free(freeme); 
+    }
+    if (d->names) apop_name_rm_columns(d->names, drop);
 }
 
 /** \def apop_data_prune_columns(in, ...)
-- 
2.43.0


From 0053740b6dbf83d92bfaf67fa176716ff4fbfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 014/311] fix: Apop_rs claimed at most one row name for a view
 of several rows

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..e637e70 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -870,7 +870,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                 .colhash = (d)->names->colhash,                                  \
                 .text = (d)->names->text,                                        \
                 .colct = (d)->names->colct,                                      \
-                .rowct = (d)->names->row ? (GSL_MIN(1, GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
+                .rowct = (d)->names->row ? (GSL_MIN((int)(len), GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
                                           : 0,                                   \
                 .textct = (d)->names->textct }),                                 \
         .vector= Apop_subvector((d->vector), (rownum), (len)),                   \
-- 
2.43.0


From 9103408fc5c0b9274ed4f0038f3f72ff8dd147f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 015/311] fix: Apop_cs claimed text names it had set to NULL,
 so copying a column view crashed

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index e637e70..529055a 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -910,7 +910,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                     .rowct = (d)->names->rowct,                                      \
                     .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - colnum, 0)))      \
                                               : 0,                                   \
-                    .textct = (d)->names->textct } : NULL \
+                    .textct = 0 } : NULL \
             })
 
 /** \def Apop_r(d, row)
-- 
2.43.0


From 3ee3fd1b315b42263506dd75ef0309829f692cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 016/311] fix: Apop_rs/Apop_r of a strided vector took an
 unparenthesised start, so an expression picked the wrong element

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 529055a..570f920 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -846,7 +846,7 @@ scope in which it is declared.
 /* Not (yet) for public use. */
 #define Apop_subvector(v, start, len) (                                          \
         ((v) == NULL || (v)->size < ((start)+(len)) || (start) < 0) ? NULL      \
-        : &(gsl_vector){.size=(len), .stride=(v)->stride, .data=(v)->data+(start*(v)->stride)})
+        : &(gsl_vector){.size=(len), .stride=(v)->stride, .data=(v)->data+((start)*(v)->stride)})
 /** \endcond */
 
 /** \def Apop_rs(d, row, len)
-- 
2.43.0


From 8c676a9a94aa85327457413e55a7edb8e7352c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 017/311] fix: apop_data_prune_columns with no names to keep
 declared an array of size zero

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fc0ee77..c5b5599 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -755,7 +755,7 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     //each input colname has been used.
     while (*name_step++)
         keep_count++;
-    int used_field[keep_count];
+    int used_field[keep_count+1]; //+1 so a list of no names is not an array of size zero
     memset(used_field, 0, keep_count*sizeof(int));
 
     for (int i=0; i< d->names->colct; i++){
-- 
2.43.0


From 85f5b806448ba2b86b153f5f6f2e49959d9c8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 018/311] fix: apop_data_get/ptr/set aborted the process, or
 changed the GSL handler, on an index out of range

---
 apop_data.m4.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c5b5599..02ae565 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -813,9 +813,12 @@ APOP_VAR_HEAD double * apop_data_ptr(apop_data *data, int row, int col, const ch
 APOP_VAR_ENDHEAD
     if (col == -1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NULL, 1, "You asked for the vector element (col=-1) but it is NULL. Returning NULL.");
+        Apop_stopif(row < 0 || row >= data->vector->size, return NULL, 1, "You asked for vector element %i, but the vector has %zu elements. Returning NULL.", row, data->vector->size);
         return gsl_vector_ptr(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NULL, 1, "You asked for the matrix element (%i, %i) but the matrix is NULL Returning NULL..", row, col);
+        Apop_stopif(row < 0 || row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NULL, 1,
+                "You asked for the matrix element (%i, %i) but the matrix is %zu by %zu. Returning NULL.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_ptr(data->matrix, row,col);
     }
     return NULL;//the main function is blank.
@@ -861,26 +864,16 @@ APOP_VAR_HEAD double apop_data_get(const apop_data *data, size_t row, int col, c
 APOP_VAR_ENDHEAD
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NAN, 1,  "You asked for the vector element (col=-1) but it is NULL.");
+        Apop_stopif(row >= data->vector->size, return NAN, 1, "You asked for vector element %zu, but the vector has %zu elements. Returning NaN.", row, data->vector->size);
         return gsl_vector_get(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NAN, 1, "You asked for the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NAN, 1,
+                "You asked for the matrix element (%zu, %i) but the matrix is %zu by %zu. Returning NaN.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_get(data->matrix, row, col);
     }
 }
 
-/* The only hint the GSL gives that something failed is that the error-handler is called.
-   The error handling function won't let you set an output to the function. So all we
-   can do is use a global variable.
-*/
-
-static threadlocal int error_for_set; //see apop_internal.h
-
-void apop_gsl_error_for_set(const char *reason, const char *file, int line, int gsl_errno){
-    Apop_notify(1, "%s: %s", file, reason);
-    Apop_maybe_abort(1);
-    error_for_set = -1;
-}
-
 /**  Set a data element.
 See \ref data_set_get "the set/get page" for details and examples. 
  
@@ -904,7 +897,7 @@ extension enabled.
 
 \li This function uses the \ref designated syntax for inputs.
 */
-APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const double val, const char *colname, const char *rowname, const char *page){
+APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const double val, const char *rowname, const char *colname, const char *page){
     apop_data * apop_varad_var(data, NULL);
     Apop_stopif(!data, return -1, 0, "You sent me a NULL data set.");
     size_t apop_varad_var(row, 0);
@@ -927,16 +920,17 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(row >= data->vector->size, return -1, 1, "You're trying to set vector element %zu, but the vector has %zu elements. Making no changes.", row, data->vector->size);
         gsl_vector_set(data->vector, row, val);
     } else {
         Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return -1, 1,
+                "You're trying to set the matrix element (%zu, %i) but the matrix is %zu by %zu. Making no changes.", row, col, data->matrix->size1, data->matrix->size2);
         gsl_matrix_set(data->matrix, row, col, val);
     }
-    Unset_gsl_handler
-    return error_for_set;
+    return 0;
 }
 
 /** A convenience function to add a named element to a data set.  Many of Apophenia's
-- 
2.43.0


From 64a2bb4db1d9acc53bc41549a1547556b75cb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 019/311] fix: apop_data_rm_page leaked the page's contents and
 dereferenced the NULL title of an untitled page

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 02ae565..69b6fbf 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1366,7 +1366,8 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title
+                            || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
@@ -1375,7 +1376,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From a60ad991a54c4e517899ee7c0d35d4211fabe319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 020/311] fix: apop_text_alloc wrote past the new rows when
 adding rows and removing columns at once

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 69b6fbf..50d9a1b 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1078,7 +1078,7 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
             Apop_stopif(!in->text, in->error='a'; return in,
                             0, "realloc failed setting up %zu rows. Probably out of memory.", row);
             for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
+                in->text[i] = malloc(sizeof(char*) * GSL_MAX(col, cols_now)); //width is trimmed below.
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
                 for (int j=0; j < cols_now; j++)
-- 
2.43.0


From 24143e626f9d822a2416b6f105d2ad919435df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 021/311] fix: apop_text_set freed the cell before using it as
 an input to its own new value

---
 apop_data.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 50d9a1b..3de2cff 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1017,15 +1017,17 @@ int apop_text_set(apop_data *in, const size_t row, const size_t col, const char
     Apop_stopif((in->textsize[0] < (int)row+1) || (in->textsize[1] < (int)col+1), return -1, 0, "You asked me to put the text "
                             " '%s' at position (%zu, %zu), but the text array has size (%zu, %zu)\n", 
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
-    if (in->text[row][col] != apop_nul_string) free(in->text[row][col]);
+    char *prior = in->text[row][col]; //may be one of the inputs to the print step, so free it afterward.
     if (!fmt){
         Asprintf(&(in->text[row][col]), "%s", apop_opts.nan_string);
+        if (prior != apop_nul_string) free(prior);
         return 0;
     }
     va_list argp;
 	va_start(argp, fmt);
     Apop_stopif(vasprintf(&(in->text[row][col]), fmt, argp)==-1, , 0, "Trouble writing to a string.");
 	va_end(argp);
+    if (prior != apop_nul_string) free(prior);
     return 0;
 }
 
-- 
2.43.0


From bdec5edb1ec532ce8d0b42283d9869a0b0e5ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 022/311] fix: a failed apop_data_alloc left the GSL error
 handler changed, and apop_data_calloc aborted

---
 apop_data.m4.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3de2cff..c26e8ab 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -52,12 +52,12 @@ APOP_VAR_ENDHEAD
     Set_gsl_handler
     if (msize2 > 0  && msize1 > 0){
         setme->matrix = gsl_matrix_alloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, setme->error='a'; return setme,
+        Apop_stopif(!setme->matrix, Unset_gsl_handler; setme->error='a'; return setme,
                 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_alloc(vsize);
-        Apop_stopif(!setme->vector, setme->error='a'; return setme,
+        Apop_stopif(!setme->vector, Unset_gsl_handler; setme->error='a'; return setme,
                 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
     Unset_gsl_handler
@@ -94,14 +94,16 @@ APOP_VAR_ENDHEAD
     apop_data *setme = malloc(sizeof(apop_data));
     Apop_stopif(!setme, apop_return_data_error('a'), 0, "malloc failed. Probably out of memory.");
     *setme = (apop_data) { }; //init to zero/NULL.
+    Set_gsl_handler
     if (msize2 >0 && msize1 > 0){
         setme->matrix = gsl_matrix_calloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, apop_return_data_error('a'), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
+        Apop_stopif(!setme->matrix, Unset_gsl_handler; apop_return_data_error('a'), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_calloc(vsize);
-        Apop_stopif(!setme->vector, apop_return_data_error('a'), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
+        Apop_stopif(!setme->vector, Unset_gsl_handler; apop_return_data_error('a'), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
+    Unset_gsl_handler
     setme->names = apop_name_alloc();
     return setme;
 }
-- 
2.43.0


From 1e8de01b8d73a1105bfe887da2512104b4616c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 023/311] fix: apop_return_data_error always set the error
 element to 'E', never to the documented code

---
 apop.m4.h        | 2 +-
 apop_data.m4.c   | 4 ++--
 apop_db.m4.c     | 4 ++--
 apop_db_mysql.c  | 2 +-
 apop_db_sqlite.c | 4 ++--
 apop_hist.m4.c   | 2 +-
 apop_tests.m4.c  | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 570f920..387afdb 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,7 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error='E'; return out;}
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=(#E)[0]; return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
diff --git a/apop_data.m4.c b/apop_data.m4.c
index c26e8ab..6286342 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -97,11 +97,11 @@ APOP_VAR_ENDHEAD
     Set_gsl_handler
     if (msize2 >0 && msize1 > 0){
         setme->matrix = gsl_matrix_calloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, Unset_gsl_handler; apop_return_data_error('a'), 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
+        Apop_stopif(!setme->matrix, Unset_gsl_handler; setme->error='a'; return setme, 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_calloc(vsize);
-        Apop_stopif(!setme->vector, Unset_gsl_handler; apop_return_data_error('a'), 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
+        Apop_stopif(!setme->vector, Unset_gsl_handler; setme->error='a'; return setme, 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
     Unset_gsl_handler
     setme->names = apop_name_alloc();
diff --git a/apop_db.m4.c b/apop_db.m4.c
index fe7243f..048e668 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -256,7 +256,7 @@ apop_data * apop_query_to_text(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_core(query, process_result_set_chars);
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, apop_return_data_error(d), 0, "Apophenia was compiled without mysql support.");
 #endif
     } else out = apop_sqlite_query_to_text(query);
     free(query);
@@ -324,7 +324,7 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         return apop_mysql_query_core(query, process_result_set_data);
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, apop_return_data_error(d), 0, "Apophenia was compiled without mysql support.");
 #endif
 
     //else
diff --git a/apop_db_mysql.c b/apop_db_mysql.c
index 81a4ff7..39ac4f8 100644
--- a/apop_db_mysql.c
+++ b/apop_db_mysql.c
@@ -163,7 +163,7 @@ static void * apop_mysql_query_core(char *query, void *(*callback)(MYSQL*, MYSQL
     Apop_mstopif(mysql_query (mysql_db, query), return NULL, "mysql_query() failed");
     MYSQL_RES *res_set = mysql_store_result (mysql_db);
     Apop_mstopif(!res_set, 
-        if (callback == process_result_set_data || callback==process_result_set_data) apop_return_data_error('q') 
+        if (callback == process_result_set_data || callback==process_result_set_data) apop_return_data_error(q) 
             else return NULL, 
             "mysql_store_result() failed");
     if (!res_set->row_count) goto done; //just a blank table.
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..a47f279 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -315,8 +315,8 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
 }
 
 apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
-    Apop_stopif(!intypes, apop_return_data_error('t'), 0, "You gave me NULL for the list of input types. I can't work with that.");
-    Apop_stopif(!query, apop_return_data_error('q'), 0, "You gave me a NULL query. I can't work with that.");
+    Apop_stopif(!intypes, apop_return_data_error(t), 0, "You gave me NULL for the list of input types. I can't work with that.");
+    Apop_stopif(!query, apop_return_data_error(q), 0, "You gave me a NULL query. I can't work with that.");
     char *err = NULL;
     apop_qt info = { };
     count_types(&info, intypes);
diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 74ac092..afb4489 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -239,7 +239,7 @@ sequence of Normal distributions with increasing mean.
 \include ks_tests.c
 */
 apop_data *apop_test_kolmogorov(apop_model *m1, apop_model *m2){
-    Apop_stopif(m1->cdf != apop_pmf->cdf, apop_return_data_error('m'), 
+    Apop_stopif(m1->cdf != apop_pmf->cdf, apop_return_data_error(m), 
             0, "First model has to be a PMF. I check whether m1->cdf == apop_pmf->cdf.");
     bool m2_is_pmf = (m2->cdf == apop_pmf->cdf);
 
diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5f99135..68e01b9 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -268,7 +268,7 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
  
     //total sum of squares:
     apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
+    Apop_stopif(!tss, apop_return_data_error(q), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
     double total_df = apop_data_get(tss, 0, 1);
     apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
-- 
2.43.0


From 3a28ce7c96d143913c90088547e258039d7b13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 024/311] fix: apop_text_fill used the strings as printf
 formats, and read past a list shorter than the grid

---
 apop.m4.h             |  3 ++-
 apop_conversions.m4.c | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 387afdb..daa69ba 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -251,12 +251,13 @@ Apop_var_declare( void apop_data_unpack(const gsl_vector *in, apop_data *d, char
 
 #define apop_vector_fill(avfin, ...) apop_vector_fill_base((avfin), (double []) {__VA_ARGS__})
 #define apop_data_fill(adfin, ...) apop_data_fill_base((adfin), (double []) {__VA_ARGS__})
-#define apop_text_fill(dataset, ...)   apop_text_fill_base((dataset), (char* []) {__VA_ARGS__, NULL})
+#define apop_text_fill(dataset, ...)   apop_text_fill_list((dataset), sizeof((char* []) {__VA_ARGS__})/sizeof(char*), (char* []) {__VA_ARGS__})
 #define apop_data_falloc(sizes, ...) apop_data_fill(apop_data_alloc sizes, __VA_ARGS__)
     
 apop_data *apop_data_fill_base(apop_data *in, double []);
 gsl_vector *apop_vector_fill_base(gsl_vector *in, double []);
 apop_data *apop_text_fill_base(apop_data *data, char* text[]);
+apop_data *apop_text_fill_list(apop_data *data, int textct, char* text[]);
 
             //// Models and model support functions
 
diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..815ca75 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -923,6 +923,11 @@ then use \c apop_text_fill_base.
 apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int textct = 0;
     for (char **textptr = text; *textptr; textptr++) textct++;
+    return apop_text_fill_list(data, textct, text);
+}
+
+//The list may have NULL elements, so it is the count that says where it ends.
+apop_data *apop_text_fill_list(apop_data *data, int textct, char* text[]){
     Apop_stopif(!data && textct, return NULL, 1, "NULL data set input; returning NULL.");
     if (!data) return NULL;
     int gridsize = data ? data->textsize[0]*data->textsize[1] : 0;
@@ -932,7 +937,11 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
         for (int j=0; j< data->textsize[1]; j++)
-            apop_text_set(data, i, j, text[ctr++]);
+            if (ctr < textct){
+                if (text[ctr]) apop_text_set(data, i, j, "%s", text[ctr]);
+                else           apop_text_set(data, i, j, NULL);
+                ctr++;
+            }
     return data;
 }
 
-- 
2.43.0


From 9a04c48e196431775ff7fce146bb194448d0e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 025/311] fix: apop_data_pack counted its output's size without
 a first page titled <...>, then wrote that page

---
 apop_conversions.m4.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 815ca75..037393e 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -727,12 +727,15 @@ APOP_VAR_ENDHEAD
 
 static size_t sizecount(const apop_data *in, bool all_pp, bool use_info_pp){ 
     if (!in) return 0;
-    if (!use_info_pp && in->names && apop_regex(in->names->title, "^<.*>$"))
-        return (all_pp ? sizecount(in->more, all_pp, use_info_pp) : 0);
+    //Info pages are skipped only among the pages after the first; see apop_data_pack.
+    const apop_data *next = all_pp ? in->more : NULL;
+    if (!use_info_pp)
+        while (next && next->names && next->names->title && apop_regex(next->names->title, "^<.*>$"))
+            next = next->more;
     return (in->vector ? in->vector->size : 0)
              + (in->matrix ? in->matrix->size1 * in->matrix->size2 : 0)
              + (in->weights ? in->weights->size : 0)
-             + (all_pp ? sizecount(in->more, all_pp, use_info_pp) : 0);
+             + sizecount(next, all_pp, use_info_pp);
 }
 
 /** This function takes in an \ref apop_data set and writes it as a single column of
@@ -795,7 +798,8 @@ APOP_VAR_ENDHEAD
         offset  += in->weights->size;
     }
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
-        while (use_info_pages=='n' && in->more && apop_regex(in->more->names->title, "^<.*>$"))
+        while (use_info_pages!='y' && use_info_pages!='Y' && in->more && in->more->names
+                        && in->more->names->title && apop_regex(in->more->names->title, "^<.*>$"))
             in = in->more;
         if (in->more){
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
-- 
2.43.0


From a12ec5ef428cc458a5be705d58e2b95853783837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 026/311] fix: apop_data_unpack ignored use_info_pages after
 the first page, and aborted on a short vector

---
 apop_conversions.m4.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 037393e..9302626 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -672,6 +672,19 @@ APOP_VAR_ENDHEAD
 	return set;
 }
 
+static size_t sizecount(const apop_data *in, bool all_pp, bool use_info_pp){ 
+    if (!in) return 0;
+    //Info pages are skipped only among the pages after the first; see apop_data_pack.
+    const apop_data *next = all_pp ? in->more : NULL;
+    if (!use_info_pp)
+        while (next && next->names && next->names->title && apop_regex(next->names->title, "^<.*>$"))
+            next = next->more;
+    return (in->vector ? in->vector->size : 0)
+             + (in->matrix ? in->matrix->size1 * in->matrix->size2 : 0)
+             + (in->weights ? in->weights->size : 0)
+             + sizecount(next, all_pp, use_info_pp);
+}
+
 /** This is the complement to \ref apop_data_pack, qv. It writes the \c gsl_vector
     produced by that function back to the \ref apop_data set you provide. It overwrites
     the data in the vector and matrix elements and, if present, the \c weights (and
@@ -692,8 +705,11 @@ APOP_VAR_HEAD void apop_data_unpack(const gsl_vector *in, apop_data *d, char use
     const gsl_vector * apop_varad_var(in, NULL);
     apop_data* apop_varad_var(d, NULL);
     Apop_stopif(!d, return, 0, "the data set to be filled, d, must not be NULL");
+    Apop_stopif(!in, return, 0, "the vector to be unpacked must not be NULL");
     char apop_varad_var(use_info_pages, 'n');
 APOP_VAR_ENDHEAD
+    Apop_stopif(in->size < sizecount(d, false, true), return, 0, "The vector to unpack has %zu elements left, "
+               "but this page of the data set has %zu. Not filling it.", in->size, sizecount(d, false, true));
     int offset = 0;
     gsl_vector vin, vout;
     if(d->vector){
@@ -716,28 +732,15 @@ APOP_VAR_ENDHEAD
     if (offset != in->size && d->more){
         vin = gsl_vector_subvector((gsl_vector *)in, offset, in->size - offset).vector;
         d = d->more;
-        if (use_info_pages=='n')
-            while (d && apop_regex(d->names->title, "^<.*>$"))
+        if (use_info_pages!='y' && use_info_pages!='Y')
+            while (d && d->names && d->names->title && apop_regex(d->names->title, "^<.*>$"))
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
-        apop_data_unpack(&vin, d);
+        apop_data_unpack(&vin, d, use_info_pages);
     }
 }
 
-static size_t sizecount(const apop_data *in, bool all_pp, bool use_info_pp){ 
-    if (!in) return 0;
-    //Info pages are skipped only among the pages after the first; see apop_data_pack.
-    const apop_data *next = all_pp ? in->more : NULL;
-    if (!use_info_pp)
-        while (next && next->names && next->names->title && apop_regex(next->names->title, "^<.*>$"))
-            next = next->more;
-    return (in->vector ? in->vector->size : 0)
-             + (in->matrix ? in->matrix->size1 * in->matrix->size2 : 0)
-             + (in->weights ? in->weights->size : 0)
-             + sizecount(next, all_pp, use_info_pp);
-}
-
 /** This function takes in an \ref apop_data set and writes it as a single column of
 numbers, outputting a \c gsl_vector.
  It is valid to use the \c out_vector->data element as an array of \c doubles of size
-- 
2.43.0


From 7f4da39c8b9603c0ed6e7f451b50667e64a42475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 027/311] fix: apop_vector_realloc and apop_matrix_realloc
 dereferenced the NULL block of Apop_rv/Apop_cv views

---
 apop_data.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 6286342..7f0b20a 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1222,7 +1222,7 @@ gsl_matrix * apop_matrix_realloc(gsl_matrix *m, size_t newheight, size_t newwidt
     if (!m)
         return (newheight && newwidth) ?  gsl_matrix_alloc(newheight, newwidth) : NULL;
     size_t i, oldoffset=0, newoffset=0, realloced = 0;
-    Apop_stopif(m->block->data!=m->data || !m->owner || m->tda != m->size2,
+    Apop_stopif(!m->owner || m->block->data!=m->data || m->tda != m->size2,
             return NULL, 0, "I can't resize submatrices or other subviews.");
     m->block->size = newheight * newwidth;
     if (m->size2 > newwidth)
@@ -1270,7 +1270,7 @@ return \c NULL and print an error if asked to resize a view.
  */
 gsl_vector * apop_vector_realloc(gsl_vector *v, size_t newheight){
     if (!v) return newheight ? gsl_vector_alloc(newheight) : NULL;
-    Apop_stopif(v->block->data!=v->data || !v->owner || v->stride != 1,
+    Apop_stopif(!v->owner || v->block->data!=v->data || v->stride != 1,
                     return NULL, 0, "I can't resize subvectors or other views.");
     v->block->size = newheight;
     v->size = newheight;
-- 
2.43.0


From ce54c764884b81da72ec80a2bdedd504e1378f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 028/311] fix: apop_data_pack aborted when the last page has
 text only

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 9302626..ce85281 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -804,7 +804,7 @@ APOP_VAR_ENDHEAD
         while (use_info_pages!='y' && use_info_pages!='Y' && in->more && in->more->names
                         && in->more->names->title && apop_regex(in->more->names->title, "^<.*>$"))
             in = in->more;
-        if (in->more){
+        if (in->more && offset < out->size){ //else the remaining pages have nothing to pack.
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
             apop_data_pack(in->more, &vout, more_pages, use_info_pages);
         }
-- 
2.43.0


From ebe2f0b3e5c746e895449fa6f1ed72ac19b5bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 029/311] fix: the text reader read past its buffer's
 end-of-file mark when a file ends in a comment or its header line

---
 apop_conversions.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index ce85281..083a273 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -478,8 +478,10 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
         if (len < bs) buffer[len]=(char)-1;
         *ptr=0;
     }
-    r = buffer[(*ptr)++];
-    return r == (char)-1 ? EOF : r;
+    r = buffer[*ptr];
+    if (r == (char)-1) return EOF; //leave ptr in place: there is nothing past the EOF marker.
+    (*ptr)++;
+    return r;
 }
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
-- 
2.43.0


From 319f81ec6d76af18efcb6d19d9f8015b3cbd5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 030/311] fix: the text reader took a NUL as a delimiter, not
 as white space

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 083a273..d8ac403 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -486,7 +486,7 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
     int c = get_next(buffer, ptr, f);
-    int is_delimiter = !!strchr(delimiters, c);
+    int is_delimiter = c && strchr(delimiters, c); //strchr would find the NUL that ends the list.
     return (apop_char_info){.c=c, 
             .type = (c==' '||c=='\r' ||c=='\t' || c==0)? (is_delimiter ? 'W'  : 'w')
                     :is_delimiter    ? 'd'
-- 
2.43.0


From 7b44841759493e47b7ed3dad7d0505e0afe8ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 031/311] fix: apop_text_to_data looped on a file with no data,
 read past a short header, left short lines' cells uninitialised, and leaked
 on error

---
 apop_conversions.m4.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index d8ac403..8a0f58c 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -567,12 +567,14 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 //On return, fn has copies of the field names, and add_this_line has the first data line.
 static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
+    line_parse_t L = { };
     if (has_col_names && field_names == NULL){
-        while (fn->textsize[0] ==0) parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
-        while (add_this_line->textsize[0] ==0) parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (fn->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
+        while (add_this_line->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
     } else{
-        while (add_this_line->textsize[0] ==0) 
-            parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (add_this_line->textsize[0] ==0 && !L.eof)
+            L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        if (!add_this_line->textsize[0]) return; //nothing but blanks in the file.
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, field_names[i]);
@@ -613,11 +615,11 @@ APOP_VAR_ENDHEAD
     char *str;
     char buffer[bs];
     size_t ptr=bs;
-    apop_data *add_this_line= apop_data_alloc();
     int row = 0,
         hasrows = (has_row_names == 'y');
     Apop_stopif(prep_text_reading(text_file, &infile), apop_return_data_error(t),
             0, "trouble opening %s", text_file);
+    apop_data *add_this_line= apop_data_alloc();
 
     line_parse_t L={ };
     //First, handle the top line, if we're told that it has column names.
@@ -625,16 +627,16 @@ APOP_VAR_ENDHEAD
         apop_data *field_names = apop_data_alloc();
         get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
         L.ct = *add_this_line->textsize;
-        set = apop_data_alloc(0,1, L.ct - hasrows);
+        set = L.ct > hasrows ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
 	    set->names->colct = 0;
 	    set->names->col = malloc(sizeof(char*));
-        for (int j=0; j< L.ct - hasrows; j++)
+        for (int j=0; j< (L.ct ? L.ct - hasrows : *field_names->textsize) && j < *field_names->textsize; j++)
             apop_name_add(set->names, *field_names->text[j], 'c');
         apop_data_free(field_names);
     } 
 
     //Now do the body.
-	while(!set || !L.eof || L.ct){
+	while(!L.eof || L.ct){
         if (!L.ct) { //skip blank lines
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
@@ -643,14 +645,16 @@ APOP_VAR_ENDHEAD
         row++;
         int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
         set->matrix = apop_matrix_realloc(set->matrix, row, cols);
-        Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+        Apop_stopif(!set->matrix, set->error='a'; goto done, 0, "allocation error.");
+        for (int col=0; col < cols; col++) //a line may be too short.
+            gsl_matrix_set(set->matrix, row-1, col, GSL_NAN);
         if (hasrows) {
             apop_name_add(set->names, *add_this_line->text[0], 'r');
-            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; return set, 1,
+            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; goto done, 1,
                  "row %i (not counting rownames) has %i elements (not counting the rowname), "
                  "but I thought this was a data set with %zu elements per row. "
                  "Stopping the file read; returning what I have so far.", row, L.ct-1, set->matrix->size2);
-        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; return set, 1,
+        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; goto done, 1,
                  "row %i has %i elements, "
                  "but I thought this was a data set with %zu elements per row. "
                  "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
@@ -669,8 +673,10 @@ APOP_VAR_ENDHEAD
         if (L.eof) break;//hit when the last line has elements and is terminated by EOF.
         L=parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
+    done:
     apop_data_free(add_this_line);
     if (strcmp(text_file,"-")) fclose(infile);
+    Apop_stopif(!set, apop_return_data_error(t), 0, "No data in %s.", text_file);
 	return set;
 }
 
-- 
2.43.0


From 5f81a87a4c40a85b7bf4a13d4166dea08b32a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 032/311] fix: apop_text_to_db dropped a last line with no
 newline, and miscounted the rows it returns

---
 apop_conversions.m4.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 8a0f58c..45fab1d 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1157,7 +1157,7 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1;
+      	 col_ct, ct = 0, rows = 0;
     FILE *infile;
     char buffer[bs];
     size_t ptr = bs;
@@ -1197,8 +1197,8 @@ APOP_VAR_ENDHEAD
                 return -1, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
-	while(L.ct && !L.eof){
-        line_to_insert(L, add_this_line, tabname, statement, rows);
+	while(L.ct){
+        line_to_insert(L, add_this_line, tabname, statement, rows+1);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
         if (use_sqlite_prepared_statements){
@@ -1210,9 +1210,10 @@ APOP_VAR_ENDHEAD
             Apop_assert_c(!sqlite3_clear_bindings(statement), -1, apop_errorlevel, "SQLite error."); //needed for NULLs
 #endif
         }
+        rows ++;
+        if (L.eof) break; //the last line isn't terminated by a newline.
         do {
             L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
-            rows ++;
         } while (!L.ct && !L.eof); //skip blank lines
 	}
     apop_data_free(add_this_line);
-- 
2.43.0


From c37652374214075864d968615d6158ffab9253f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 033/311] fix: apop_text_to_db failed with row names and no
 header, as it counted the row name as a field

---
 apop_conversions.m4.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 45fab1d..f515512 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -566,7 +566,7 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 
 //On return, fn has copies of the field names, and add_this_line has the first data line.
 static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
-                                apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
+                                apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters, int has_row_names){
     line_parse_t L = { };
     if (has_col_names && field_names == NULL){
         while (fn->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
@@ -575,7 +575,8 @@ static void get_field_names(int has_col_names, char **field_names, FILE *infile,
         while (add_this_line->textsize[0] ==0 && !L.eof)
             L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
         if (!add_this_line->textsize[0]) return; //nothing but blanks in the file.
-        fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
+        if (has_row_names && add_this_line->textsize[0]==1) return; //no columns to name
+        fn	= apop_text_alloc(fn, add_this_line->textsize[0]-has_row_names, 1); //the row name isn't among the fields.
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
@@ -625,7 +626,7 @@ APOP_VAR_ENDHEAD
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters, hasrows);
         L.ct = *add_this_line->textsize;
         set = L.ct > hasrows ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
 	    set->names->colct = 0;
@@ -1180,7 +1181,7 @@ APOP_VAR_ENDHEAD
     if (prep_text_reading(text_file, &infile)) return -1;
     apop_data *fn = apop_data_alloc();
     get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
-                                    add_this_line, fn, field_ends, delimiters);
+                                    add_this_line, fn, field_ends, delimiters, has_row_names=='y');
     col_ct = L.ct = *add_this_line->textsize;
     Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
-- 
2.43.0


From 563c50d89aa3377f830bb9e56b3eee884677b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 034/311] fix: with another nan_string, a NaN in a text file
 went to the database as the text 0.0/0.0

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f515512..0c7c20c 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1035,7 +1035,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         else if (isinf(atof(astring))==-1)
 			out = strdup("-9e9999999");
         else if (gsl_isnan(atof(astring)))
-			out = strdup("0.0/0.0");
+            return NULL; //the database has no NaN, so it is a NULL there.
         else if (astring[0]=='.')
 			Asprintf(&out, "0%s",astring);
 		else out = strdup(astring);
-- 
2.43.0


From ce0769bda7b821116d885a34bddb794b9ef9910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 035/311] fix: writing a data set to the database misplaced
 fields after a blank row name, a short part, or unused row names

---
 apop_db.m4.c | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 048e668..0aa344d 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -493,38 +493,42 @@ static void add_a_number (char **q, char *comma, double v){
     *comma = ',';
 }
 
-static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
+static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, int use_row){
 #if SQLITE_VERSION_NUMBER < 3003009
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
     Get_vmsizes(set) //firstcol, msize1, maxsize
     for (size_t row=0; row < maxsize; row++){
         size_t field =1;
-        if (set->names && set->names->rowct>row){
-            if (!strlen(set->names->row[row])) field++; //leave NULL and cleared
-            Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
+        if (use_row){
+            if (set->names->rowct<=row || !strlen(set->names->row[row])) field++; //leave NULL and cleared
+            else Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
                     return -1, apop_errorlevel, 
                     "Something wrong with the row name for line %zu, [%s].\n" , row, set->names->row[row]);
         }
-        if (set->vector && set->vector->size > row)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, -1)),
+        //If a part of the data set has no such row, leave its fields NULL and cleared
+        if (set->vector){
+            if (set->vector->size > row)
+                Apop_stopif(sqlite3_bind_double(p_stmt, field, apop_data_get(set, row, -1)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the vector element on line %zu, [%g].\n" ,row,  apop_data_get(set, row, -1));
-        if (msize1 > row)
-            for (size_t col=0; col < msize2; col++)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, col)),
+            field++;
+        }
+        for (size_t col=0; col < msize2; col++, field++)
+            if (msize1 > row)
+                Apop_stopif(sqlite3_bind_double(p_stmt, field, apop_data_get(set, row, col)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the matrix element %zu on line %zu, [%g].\n" ,col, row,  apop_data_get(set, row, col));
-        if (*set->textsize > row)
-            for (size_t col=0; col < set->textsize[1]; col++){
-                if (!strlen(set->text[row][col]) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
-                    {field++; continue;} //leave NULL and cleared
-                Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->text[row][col], -1, SQLITE_TRANSIENT),
-                    return -1, apop_errorlevel, 
-                    "Something wrong with a text element at row %zu, col %zu [%s].\n" , row, col, set->text[row][col]);
-            }
+        for (size_t col=0; col < set->textsize[1]; col++, field++){
+            if (*set->textsize <= row || !strlen(set->text[row][col])
+                    || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
+                continue;
+            Apop_stopif(sqlite3_bind_text(p_stmt, field, set->text[row][col], -1, SQLITE_TRANSIENT),
+                return -1, apop_errorlevel, 
+                "Something wrong with a text element at row %zu, col %zu [%s].\n" , row, col, set->text[row][col]);
+        }
         if (set->weights && set->weights->size > row)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, gsl_vector_get(set->weights, row)),
+                Apop_stopif(sqlite3_bind_double(p_stmt, field, gsl_vector_get(set->weights, row)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the weight element on line %zu, [%g].\n" ,row,  gsl_vector_get(set->weights, row));
         int err = sqlite3_step(p_stmt);
@@ -546,7 +550,8 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     char comma = ' ';
     int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names
                 && ((set->matrix && set->names->rowct == set->matrix->size1)
-                    || (set->vector && set->names->rowct == set->vector->size));
+                    || (set->vector && set->names->rowct == set->vector->size)
+                    || (set->textsize[0] && set->textsize[1] && set->names->rowct == set->textsize[0]));
 
     if (!apop_opts.db_engine) get_db_type();
     if (apop_table_exists(tabname))
@@ -625,7 +630,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     }
 
     Get_vmsizes(set) //firstcol, msize2, maxsize
-    int col_ct = (set->names ? !!set->names->rowct : 0) + set->textsize[1] + msize2 - firstcol + !!set->weights;
+    int col_ct = !!use_row + set->textsize[1] + msize2 - firstcol + !!set->weights;
     Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
@@ -633,7 +638,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
             return -1, 0, "Trouble preparing prepared statements.");
         Apop_stopif(
-            run_prepared_statements(set, statement), 
+            run_prepared_statements(set, statement, use_row), 
             return -1, 0, "error in insertions.");
     } else {
         for(i=0; i< maxsize; i++){
-- 
2.43.0


From 386c0a701e5079351e3196ea593abae90f419d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 036/311] fix: writing a data set to the database failed when a
 text column's name is not a plain word, or a name holds a quotation mark

---
 apop_db.m4.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 0aa344d..d3bf5d5 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -481,6 +481,13 @@ void qxprintf(char **q, char *format, ...){
     free(r);
 }
 
+//Add a quoted column name, with quotation marks inside the name doubled.
+static void qxname(char **q, char comma, char const *name, char const *suffix){
+    char *quoted = sqlite3_mprintf("\"%w\"", name);
+    qxprintf(q, "%s%c\n %s%s", *q, comma, quoted, suffix);
+    sqlite3_free(quoted);
+}
+
 static void add_a_number (char **q, char *comma, double v){
     if (gsl_isnan(v))
         qxprintf(q,"%s%c NULL ", *q, *comma);
@@ -606,7 +613,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             }
             if (set->vector){
                 if (!set->names || !set->names->vector) qxprintf(&q, "%s%c\n vector numeric", q, comma);
-                else qxprintf(&q, "%s%c\n \"%s\"", q, comma, set->names->vector);
+                else qxname(&q, comma, set->names->vector, "");
                 comma = ',';
             }
             if (set->matrix)
@@ -614,12 +621,12 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                     if(!set->names || set->names->colct <= i) 	
                         qxprintf(&q, "%s%c\n c%i numeric", q, comma,i);
                     else			
-                        qxprintf(&q, "%s%c\n \"%s\" numeric", q, comma, set->names->col[i]);
+                        qxname(&q, comma, set->names->col[i], " numeric");
                     comma = ',';
                 }
             for(i=0; i< set->textsize[1]; i++){
                 if(!set->names || set->names->textct <= i) qxprintf(&q, "%s%c\n tc%i ", q, comma, i);
-                else qxprintf(&q, "%s%c\n %s ", q, comma, set->names->text[i]);
+                else qxname(&q, comma, set->names->text[i], " ");
                 comma = ',';
             }
             if (set->weights) qxprintf(&q, "%s%c\n \"weights\" numeric", q, comma);
-- 
2.43.0


From 9f0a682394889eaf768ec6b24a9d1d8785d3aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 037/311] fix: a data set with more than 999 columns lost
 digits, quotes and blanks on the way to the database

---
 apop_db.m4.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index d3bf5d5..91e8148 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -488,6 +488,13 @@ static void qxname(char **q, char comma, char const *name, char const *suffix){
     sqlite3_free(quoted);
 }
 
+//A blank string, like a NULL, is written as a NULL.
+static void add_a_string(char **q, char comma, char const *str){
+    char *quoted = sqlite3_mprintf("%Q", str && *str ? str : NULL);
+    qxprintf(q, "%s%c %s ", *q, comma, quoted);
+    sqlite3_free(quoted);
+}
+
 static void add_a_number (char **q, char *comma, double v){
     if (gsl_isnan(v))
         qxprintf(q,"%s%c NULL ", *q, *comma);
@@ -496,7 +503,7 @@ static void add_a_number (char **q, char *comma, double v){
     else if (isinf(v)==-1)
         qxprintf(q,"%s%c  '-inf' ", *q, *comma);
     else
-        qxprintf(q,"%s%c %g ",*q ,*comma, v);
+        qxprintf(q,"%s%c %.17g ",*q ,*comma, v);
     *comma = ',';
 }
 
@@ -652,24 +659,21 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             comma = ' ';
             qxprintf(&q, "%s \n insert into %s values(",q, tabname);
             if (use_row){
-                char *fixed= prep_string_for_sqlite(0, set->names->row[i]);
-                qxprintf(&q, "%s %s ",q, fixed);
-                free(fixed);
+                add_a_string(&q, comma, set->names->row[i]);
                 comma = ',';
             }
             if (set->vector)
-               add_a_number (&q, &comma, gsl_vector_get(set->vector,i));
+               add_a_number (&q, &comma, i < set->vector->size ? gsl_vector_get(set->vector,i) : GSL_NAN);
             if (set->matrix)
                 for(j=0; j< set->matrix->size2; j++)
-                   add_a_number (&q, &comma, gsl_matrix_get(set->matrix,i,j));
+                   add_a_number (&q, &comma, i < set->matrix->size1 ? gsl_matrix_get(set->matrix,i,j) : GSL_NAN);
             for(j=0; j< set->textsize[1]; j++){
-                char *fixed= prep_string_for_sqlite(0, set->text[i][j]);
-                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "''");
-                free(fixed);
+                add_a_string(&q, comma, (i < set->textsize[0] && !(apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[i][j])))
+                                            ? set->text[i][j] : NULL);
                 comma = ',';
             }
             if (set->weights)
-               add_a_number (&q, &comma, gsl_vector_get(set->weights,i));
+               add_a_number (&q, &comma, i < set->weights->size ? gsl_vector_get(set->weights,i) : GSL_NAN);
             qxprintf(&q,"%s);",q);
             apop_query("%s", q); 
             q[0]='\0';
-- 
2.43.0


From 0ff6ebd8f15b4e5320399ad62072d7874acfd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 038/311] fix: apop_text_to_db: quotes in names and text, short
 and long lines, leaks

Column names or (in tables of over 999 columns) text with quotes made malformed
SQL; a line with fewer or more fields than there are columns lost the row, and a
short first line gave a mismatched insert.
---
 apop_conversions.m4.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 0c7c20c..5dc9f84 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -998,7 +998,9 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
             if (has_row_names) xprintf(&q, "%s ('row_names', ", q);
             else               xprintf(&q, "%s (", q);
         } else xprintf(&q, "%s' %s, ", q, get_field_conditions(*fn->text[i-1], field_params));
-        xprintf(&q, "%s '%s", q, *fn->text[i]);
+        char *name = sqlite3_mprintf("%q", *fn->text[i]); //double the quotes, if any
+        xprintf(&q, "%s '%s", q, name);
+        sqlite3_free(name);
     }
     xprintf(&q, "%s' %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
@@ -1023,10 +1025,9 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         /*do nothing.*/;
     if (*tail!='\0'){	//then it's not a number.
         if (!prepped_statements){
-            if (strchr(astring, '\''))
-                Asprintf(&out,"\"%s\"", astring);
-            else
-                Asprintf(&out,"'%s'", astring);
+            char *quoted = sqlite3_mprintf("%Q", astring);
+            out = strdup(quoted);
+            sqlite3_free(quoted);
         } else  out = strdup(astring);
 	} else {	    //number, maybe INF or NAN. Also, sqlite wants 0.1, not .1
 		assert(*astring!='\0');
@@ -1044,14 +1045,15 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
 }
 
 static void line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname, 
-                             sqlite3_stmt *p_stmt, int row){
+                             sqlite3_stmt *p_stmt, int row, int col_ct){
     if (!L.ct) return;
     int field = 1;
     char comma = ' ';
     char *q = NULL;
     if (!p_stmt) Asprintf(&q, "INSERT INTO %s VALUES (", tabname);
-    for (int col=0; col < L.ct; col++){
-        char *prepped = prep_string_for_sqlite(!!p_stmt, *addme->text[col]);
+    if (L.ct > col_ct) Apop_notify(1, "line %i has %i fields, but there are only %i columns.", row, L.ct, col_ct);
+    for (int col=0; col < col_ct; col++){ //If the line is short, then the remaining fields are NULL.
+        char *prepped = col < L.ct ? prep_string_for_sqlite(!!p_stmt, *addme->text[col]) : NULL;
         if (p_stmt){
             if (!prepped || !strlen(prepped))
                 field++; //leave NULL and cleared
@@ -1183,7 +1185,9 @@ APOP_VAR_ENDHEAD
     get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters, has_row_names=='y');
     col_ct = L.ct = *add_this_line->textsize;
-    Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
+    Apop_stopif(!col_ct || !*fn->textsize, apop_data_free(add_this_line); apop_data_free(fn); if (infile != stdin) fclose(infile); return -1,
+            0, "counted zero columns in the input file (%s).", tabname);
+    if (has_row_names!='y' && *fn->textsize > col_ct) col_ct = *fn->textsize; //the first line is short.
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
             return -1, 0, "Creating the table in the database failed.");
@@ -1199,7 +1203,7 @@ APOP_VAR_ENDHEAD
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
 	while(L.ct){
-        line_to_insert(L, add_this_line, tabname, statement, rows+1);
+        line_to_insert(L, add_this_line, tabname, statement, rows+1, col_ct);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
         if (use_sqlite_prepared_statements){
@@ -1218,6 +1222,7 @@ APOP_VAR_ENDHEAD
         } while (!L.ct && !L.eof); //skip blank lines
 	}
     apop_data_free(add_this_line);
+    apop_data_free(fn);
 #if SQLITE_VERSION_NUMBER >= 3003009
 	if (use_sqlite_prepared_statements){
         Apop_assert_c(sqlite3_finalize(statement) ==SQLITE_OK, -1, apop_errorlevel, "SQLite error.");
-- 
2.43.0


From 1da17dec1d6c1de6bc13bc55e5ec1873519e5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 039/311] fix: SQL aggregates and functions treated NULL as
 zero

The variance, skew and kurtosis of a column with missing values counted each as
an observation of zero; sqrt(NULL), log(NULL) and so on gave a value.
---
 apop_db_sqlite.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index a47f279..f2f0a25 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -24,7 +24,7 @@ struct StdDevCtx {
 static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0])!=SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio = p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -38,7 +38,7 @@ static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0])!=SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio =  p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -54,7 +54,7 @@ static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void fourStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if( argc<1 ) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0])!=SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         p->cnt++;
         p->avg = (x + p->avg * (p->cnt-1.))/p->cnt;
@@ -128,6 +128,7 @@ static void kurtFinalize(sqlite3_context *context){
 }
 
 static void powFn(sqlite3_context *context, int argc, sqlite3_value **argv){
+    if (sqlite3_value_type(argv[0])==SQLITE_NULL || sqlite3_value_type(argv[1])==SQLITE_NULL) return; //NULL
     double base = sqlite3_value_double(argv[0]);
     double exp  = sqlite3_value_double(argv[1]);
     sqlite3_result_double(context, pow(base, exp));
@@ -140,7 +141,7 @@ static void rngFn(sqlite3_context *context, int argc, sqlite3_value **argv){
 }
 
 #define sqfn(name) static void name##Fn(sqlite3_context *context, int argc, sqlite3_value **argv){ \
-    sqlite3_result_double(context, name(sqlite3_value_double(argv[0]))); }
+    if (sqlite3_value_type(argv[0])!=SQLITE_NULL) sqlite3_result_double(context, name(sqlite3_value_double(argv[0]))); }
 
 sqfn(sqrt) sqfn(exp) sqfn(log) sqfn(log10) sqfn(sin) 
 sqfn(cos) sqfn(tan) sqfn(asin) sqfn(acos) sqfn(atan)
-- 
2.43.0


From 479b9a32d6f2b45e289e93f7a8754debc27aaef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 040/311] fix: SQL stddev of a constant column could be NULL

Rounding gave a tiny negative variance, whose square root is NaN.
---
 apop_db_sqlite.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index f2f0a25..d879418 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -64,10 +64,13 @@ static void fourStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     }
 }
 
+//Rounding error may push the variance of a constant column below zero.
+static double popvar(StdDevCtx *p){ return fmax(0, p->avg2 - gsl_pow_2(p->avg)); }
+
 static void stdDevFinalizePop(sqlite3_context *context){
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
     if (p && p->cnt>1)
-      sqlite3_result_double(context, sqrt((p->avg2 - gsl_pow_2(p->avg))));
+      sqlite3_result_double(context, sqrt(popvar(p)));
     else if (p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
@@ -75,7 +78,7 @@ static void stdDevFinalizePop(sqlite3_context *context){
 static void varFinalizePop(sqlite3_context *context){
   StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
     if( p && p->cnt>1 )
-        sqlite3_result_double(context, (p->avg2 - gsl_pow_2(p->avg)));
+        sqlite3_result_double(context, popvar(p));
     else if (p->cnt == 1)
     	sqlite3_result_double(context, 0);
 }
@@ -85,7 +88,7 @@ static void stdDevFinalize(sqlite3_context *context){
     if( p && p->cnt>1 ){
       double rCnt = p->cnt;
       sqlite3_result_double(context,
-         sqrt((p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0)));
+         sqrt(popvar(p)*rCnt/(rCnt-1.0)));
     } else if (p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
@@ -95,7 +98,7 @@ static void varFinalize(sqlite3_context *context){
     if( p && p->cnt>1 ){
       double rCnt = p->cnt;
       sqlite3_result_double(context,
-         (p->avg2 - gsl_pow_2(p->avg))*rCnt/(rCnt-1.0));
+         popvar(p)*rCnt/(rCnt-1.0));
     } else if (p->cnt == 1)
       	sqlite3_result_double(context, 0);
 }
-- 
2.43.0


From 4f94f295c63154d97ac4205e727f861ea7b36fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 041/311] fix: sample kurtosis was not the unbiased estimator
 it is documented to be

The C and SQL versions also disagreed with each other (by 12 sigma^4/n). Both
now give the unbiased estimator of the fourth central moment.
---
 apop_db_sqlite.c | 8 ++++----
 apop_stats.m4.c  | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index d879418..2e2d699 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -122,10 +122,10 @@ static void kurtFinalize(sqlite3_context *context){
                         + 6 * p->avg2*gsl_pow_2(p->avg)
                         - 3* gsl_pow_4(p->avg);
       double var = p->avg2 - gsl_pow_2(p->avg);
-      long double coeff0= n*n/(gsl_pow_3(n)*(gsl_pow_2(n)-3*n+3));
-      long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-      long double coeff2= n*(6*n-9);
-      sqlite3_result_double(context, coeff0*(coeff1 * kurtovern + coeff2 * gsl_pow_2(var)));
+      //the unbiased estimator, as in apop_vector_kurtosis; undefined (NULL) for n<4.
+      sqlite3_result_double(context, n>3
+              ? (n*(n*n-2*n+3) * kurtovern - 3*n*(2*n-3) * gsl_pow_2(var)) / ((n-1)*(n-2)*(n-3))
+              : GSL_NAN);
     } else if (p->cnt == 1)
       sqlite3_result_double(context, 0);
 }
diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..4e5bce3 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -50,11 +50,10 @@ with data</em>.
 \see \ref apop_vector_kurtosis_pop
 */
 double apop_vector_kurtosis(const gsl_vector *in){
-    size_t n = in->size;
-    long double coeff0= n*n/(gsl_pow_3(n-1)*(gsl_pow_2(n)-3*n+3));
-    long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-    long double coeff2= n*(6*n-9);
-    return  coeff0 *(coeff1 * apop_vector_kurtosis_pop(in) - coeff2 * gsl_pow_2(apop_vector_var(in)*(n-1.)/n));
+    long double n = in->size;
+    if (n < 4) return GSL_NAN; //there is no unbiased estimator.
+    return (n*(n*n-2*n+3) * apop_vector_kurtosis_pop(in) - 3*n*(2*n-3) * gsl_pow_2(apop_vector_var(in)*(n-1.)/n))
+             / ((n-1)*(n-2)*(n-3));
 }
 
 static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int exponent, const char *fn_name){
-- 
2.43.0


From ea9a3837c97b4834547a69d51fb9ce6c791cc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 042/311] fix: failed queries read freed memory, dereferenced
 NULL or leaked

apop_query_to_data printed its query after freeing it; apop_query_to_vector used
the missing matrix of a failed query; errors and blank tables leaked the query;
vacuuming with no database open used an uninitialized pointer.
---
 apop_db.m4.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 91e8148..625021e 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -180,8 +180,8 @@ APOP_VAR_END_HEAD
         {Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");}
 #endif
     else {
-        char *err, *query = "db close";//for errcheck.
-        if (vacuum==1 || vacuum=='v') {
+        char *err=NULL, *query = "db close";//for errcheck.
+        if (db && (vacuum==1 || vacuum=='v')) {
             sqlite3_exec(db, "VACUUM", NULL, NULL, &err);
             ERRCHECK
         }
@@ -215,7 +215,7 @@ int apop_query(const char *fmt, ...){
     else 
         {if (!db) apop_db_open(NULL);
         sqlite3_exec(db, query, NULL,NULL, &err);
-	    ERRCHECK
+        Apop_stopif(err, sqlite3_free(err); free(query); return 1, 0, "%s: %s",query, err);
         }
 	free(query);
 	return 0;
@@ -332,8 +332,9 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
 	if (db==NULL) apop_db_open(NULL);
     sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
+    Apop_stopif(err, if (!qinfo.outdata) qinfo.outdata=apop_data_alloc(); qinfo.outdata->error='q';
+                sqlite3_free(err); free(query); return qinfo.outdata, 0, "%s: %s",query, err);
     free (query);
-    ERRCHECK_SET_ERROR(qinfo.outdata)
 	return qinfo.outdata;
 }
 
@@ -376,7 +377,8 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
     Store_settings
 	d	= apop_query_to_data("%s", query);
     Restore_settings
-    Apop_stopif(!d, return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(!d, free(query); return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(d->error || !d->matrix, apop_data_free(d); free(query); return NULL, 0, "Query [%s] failed or has no data columns. Returning NULL.", query);
     //else:
     out = gsl_vector_alloc(d->matrix->size1);
 	gsl_matrix_get_col(out, d->matrix, 0);
@@ -419,8 +421,8 @@ double apop_query_to_float(const char * fmt, ...){
         Store_settings
         d = apop_query_to_data("%s", query);
         Restore_settings
-        Apop_stopif(!d, return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
-        Apop_stopif(d->error, return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
+        Apop_stopif(!d, free(query); return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
+        Apop_stopif(d->error || !d->matrix, apop_data_free(d); free(query); return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
         out	= apop_data_get(d);
         apop_data_free(d);
     }
-- 
2.43.0


From e1d6e93353b7478d6506fc9048ea37cee6cf5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 043/311] fix: query_to_text used database text as a printf
 format; NULL row names shifted the rest

---
 apop_db.m4.c     | 2 +-
 apop_db_sqlite.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 625021e..e53cace 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -292,7 +292,7 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
                  ? GSL_NAN : atof(argv[jj]);
             gsl_matrix_set(qi->outdata->matrix,qi->currentrow,jj-ncfound, valor);
         } else {
-            apop_name_add(qi->outdata->names, argv[jj], 'r');
+            apop_name_add(qi->outdata->names, argv[jj] ? argv[jj] : XN(apop_opts.nan_string), 'r');
             ncfound = 1;
         }
     (qi->currentrow)++;
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 2e2d699..60727fc 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -203,10 +203,10 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     apop_text_alloc(d, rows+1, cols);//doesn't move d.
     for (size_t jj=0; jj<argc; jj++)
         if (jj == qi->namecol){
-            apop_name_add(d->names, argv[jj], 'r'); 
+            apop_name_add(d->names, argv[jj] ? argv[jj] : XN(apop_opts.nan_string), 'r'); 
             ncshift ++;
         } else {
-            apop_text_set(d, rows, jj-ncshift, (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
+            apop_text_set(d, rows, jj-ncshift, "%s", argv[jj] ? argv[jj] : XN(apop_opts.nan_string));
             //Asprintf(&(d->text[rows][jj-ncshift]), "%s", (argv[jj]==NULL)? "NaN": argv[jj]);
             if(addnames)
                 apop_name_add(d->names, column[jj], 't'); 
-- 
2.43.0


From cfb61b31a711d6bb785c06fcb6972656fc9a895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 044/311] fix: apop_query_to_mixed_data with the wrong number
 of columns read past its type list

It also returned text cells holding uninitialized pointers, and (unlike
apop_query_to_data and _to_text) ignored apop_opts.nan_string.
---
 apop_data.m4.c   |  2 +-
 apop_db.m4.c     |  2 +-
 apop_db_sqlite.c | 28 ++++++++++++++++------------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 7f0b20a..9f16803 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1021,7 +1021,7 @@ int apop_text_set(apop_data *in, const size_t row, const size_t col, const char
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
     char *prior = in->text[row][col]; //may be one of the inputs to the print step, so free it afterward.
     if (!fmt){
-        Asprintf(&(in->text[row][col]), "%s", apop_opts.nan_string);
+        Asprintf(&(in->text[row][col]), "%s", XN(apop_opts.nan_string));
         if (prior != apop_nul_string) free(prior);
         return 0;
     }
diff --git a/apop_db.m4.c b/apop_db.m4.c
index e53cace..660d74c 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -438,7 +438,7 @@ if your data is a mix of text and numbers, use this.
 
 The first argument is a character string consisting of the letters \c nvmtw, one for each column of the SQL output, indicating whether the column is a name, vector, matrix column, text column, or weight vector. You can have only one \c n, one \c v, and one \c w. 
 
-If the query produces more columns than there are elements in the column specification, then the remainder are dumped into the text section. If there are fewer columns produced than given in the spec, the additional elements will be allocated but not filled (i.e., they are uninitialized and will have garbage).
+If the query produces more or fewer columns than there are elements in the column specification, then the output's <tt>error</tt> element is set to <tt>'d'</tt>, and its one row is only filled with those columns that are in both; additional elements will be allocated but not filled (i.e., they are uninitialized and will have garbage).
 
 
 \param typelist A string consisting of the letters \c nvmtw. For example, if your query columns should go into a text column, the vector, the weights, and two matrix columns, this would be "tvwmm".
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 60727fc..2f284e7 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -253,12 +253,15 @@ static void count_types(apop_qt *in, const char *intypes){
         Apop_notify(1, "You asked apop_query_to_mixed for multiple weighting vectors. I'll ignore all but the last one.");
 }
 
+static double cell_to_double(char const *cell){
+    return !cell || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, cell)) ? GSL_NAN : atof(cell);
+}
+
 static int multiquery_callback(void *instruct, int argc, char **argv, char **column){
     apop_qt *in = instruct;
     char c;
     int thistcol    = 0, 
         thismcol    = 0,
-        colct       = 0,
         i, addnames = 0;
     in->thisrow ++;
     if (!in->d) {
@@ -279,42 +282,43 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
         in->d->textsize[0]         = in->thisrow;
         in->d->text                = realloc(in->d->text, sizeof(char ***)*in->thisrow);
         in->d->text[in->thisrow-1] = malloc(sizeof(char**) * in->d->textsize[1]);
+        for (i=0; i< in->d->textsize[1]; i++) in->d->text[in->thisrow-1][i] = strdup("");
     }
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
-    for (i=in->current=0; i< argc; i++){
+    for (i=in->current=0; i< argc && in->instring[i]; i++){
         c   = in->instring[in->current++];
         if (c=='n'||c=='N'){
-            apop_name_add(in->d->names, (argv[i]? argv[i] : "NaN")  , 'r'); 
+            apop_name_add(in->d->names, (argv[i]? argv[i] : XN(apop_opts.nan_string)), 'r'); 
             if(addnames)
                 apop_name_add(in->d->names, column[i], 'h'); 
         } else if (c=='v'||c=='V'){
             apop_vector_realloc(in->d->vector, in->thisrow);
             apop_data_set(in->d, in->thisrow-1, -1, 
-                                    argv[i] ? atof(argv[i]) : GSL_NAN);
+                                    cell_to_double(argv[i]));
             if(addnames)
                 apop_name_add(in->d->names, column[i], 'v'); 
         } else if (c=='m'||c=='M'){
             apop_data_set(in->d, in->thisrow-1, thismcol++, 
-                                    argv[i] ? atof(argv[i]) : GSL_NAN);
+                                    cell_to_double(argv[i]));
             if(addnames)
                 apop_name_add(in->d->names, column[i], 'c'); 
         } else if (c=='t'||c=='T'){
+            free(in->d->text[in->thisrow-1][thistcol]);
             Asprintf(&(in->d->text[in->thisrow-1][thistcol++]), "%s", 
-			                        argv[i] ? argv[i] : "NaN");
+			                        argv[i] ? argv[i] : XN(apop_opts.nan_string));
             if(addnames)
                 apop_name_add(in->d->names, column[i], 't'); 
         } else if (c=='w'||c=='W'){
             apop_vector_realloc(in->d->weights, in->thisrow);
             gsl_vector_set(in->d->weights, in->thisrow-1, 
-                                    argv[i] ? atof(argv[i]) : GSL_NAN);
+                                    cell_to_double(argv[i]));
         }
-        colct++;
     }
     int requested = in->intypes[0]+in->intypes[1]+in->intypes[2]+in->intypes[3]+in->intypes[4];
-      Apop_stopif(colct != requested, in->error_thrown='d'; return 1, 1, 
-      "you asked for %i columns in your list of types(%s), but your query produced %u columns. "
-      "The remainder will be placed in the text section. Output data set's ->error element set to 'd'." , requested, in->instring, colct);
+      Apop_stopif(argc != requested, in->error_thrown='d'; return 1, 1, 
+      "you asked for %i columns in your list of types(%s), but your query produced %i columns. "
+      "Output data set's ->error element set to 'd'." , requested, in->instring, argc);
     return 0;
 }
 
@@ -326,7 +330,7 @@ apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
     count_types(&info, intypes);
 	if (!db) apop_db_open(NULL);
     sqlite3_exec(db, query, multiquery_callback, &info, &err); 
-    Apop_stopif(info.error_thrown, if (!info.d) apop_data_alloc(); info.d->error='d'; return info.d,
+    Apop_stopif(info.error_thrown, info.d->error='d'; sqlite3_free(err); return info.d,
             0, "dimension error");
     ERRCHECK_SET_ERROR(info.d)
 	return info.d;
-- 
2.43.0


From 1bf9a8027eb61617d13f49e933cf89af3aaf5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 045/311] fix: apop_table_exists missed tables named in another
 case

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 660d74c..a0ac6b0 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -107,7 +107,7 @@ typedef struct {
 
 static int tab_exists_callback(void *in, int argc, char **argv, char **whatever){
     tab_exists_t *te = in;
-	if (!strcmp(argv[argc-1], te->name))
+	if (!strcasecmp(argv[argc-1], te->name)) //SQLite's table names are case-insensitive.
 		te->isthere=1;
 	return 0;
 }
-- 
2.43.0


From 974cdee77e28c03886b3e6ee09d70089478b8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 046/311] fix: export apop_text_fill_list, which apop_text_fill
 now calls

---
 install/apophenia.map | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/apophenia.map b/install/apophenia.map
index 3f35cc9..c0327a1 100644
--- a/install/apophenia.map
+++ b/install/apophenia.map
@@ -68,6 +68,7 @@ variadic_apop_data_unpack;
 apop_data_fill_base;
 apop_vector_fill_base;
 apop_text_fill_base;
+apop_text_fill_list;
 apop_beta;
 apop_bernoulli;
 apop_binomial;
-- 
2.43.0


From ce5af1272846d9daaab675d197a871793c7b1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 047/311] fix: text reader dropped an empty quoted field
 between tabs or spaces

1 "" 2 with white-space delimiters read as two fields, so later data moved over.
---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 5dc9f84..48c7dab 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -533,7 +533,7 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 
         if (!infield){
             if (ci.type=='w') continue; //eat leading spaces.
-            if (ci.type=='r' || ci.type=='d'             //new field; if 'dnE', blank field. 
+            if (ci.type=='r' || ci.type=='d' || ci.type=='"' //new field; if 'dnE', blank field. 
                    || (strchr("nE", ci.type) && ct>0)){  //Blank fields only at end of lines that already have data; else all-blank line to ignore.
                 if (++ct > fn->textsize[0]) apop_text_alloc(fn, ct, 1);//realloc text portion.
                 Textrealloc(*fn->text[ct-1], 5);
-- 
2.43.0


From 90894062c015bab8581777b8d55631c10f8bb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 048/311] fix: apop_text_to_data ignored apop_opts.nan_string

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 48c7dab..776d5df 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -661,7 +661,7 @@ APOP_VAR_ENDHEAD
                  "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
         for (int col=hasrows; col < L.ct; col++){
             char *thisstr = *add_this_line->text[col];
-            if (strlen(thisstr)){
+            if (strlen(thisstr) && !(apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, thisstr))){
                 double val = strtod(thisstr, &str);
                 if (thisstr != str)
                     gsl_matrix_set(set->matrix, row-1, col-hasrows, val);
-- 
2.43.0


From 84cd38164eb44ae36fc4ffbe1c182aede4b26f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 049/311] fix: apop_text_to_db used the given field names as
 printf formats

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 776d5df..1653c21 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -578,7 +578,7 @@ static void get_field_names(int has_col_names, char **field_names, FILE *infile,
         if (has_row_names && add_this_line->textsize[0]==1) return; //no columns to name
         fn	= apop_text_alloc(fn, add_this_line->textsize[0]-has_row_names, 1); //the row name isn't among the fields.
         for (int i=0; i< fn->textsize[0]; i++)
-            if (field_names) apop_text_set(fn, i, 0, field_names[i]);
+            if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
 }
-- 
2.43.0


From efd3fe3e2ae0cbe3217aff156582b3cc0fdbb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 050/311] fix: printing to a file that can not be opened
 crashed

The check was on the address of the FILE pointer.
---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3bbde30..3f6719c 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -59,7 +59,7 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
     else *output_pipe = output_name
                         ? fopen(output_name, *output_append == 'a' ? "a" : "w")
                         : stdout;
-    Apop_stopif(!output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
+    Apop_stopif(!*output_pipe, return -1, 0, "Trouble opening file %s.", output_name);
     return 0;
 }
 
-- 
2.43.0


From 6010000ac4e8de781a77d02e8083b22dbf63cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 051/311] fix: printing a number outside the range of int (or
 NaN) cast it to int

---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3f6719c..104a1b7 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -175,7 +175,7 @@ void apop_data_show(const apop_data *in){
 }
 
 void p_fn(FILE * f, double data){
-    if (data == (int) data) fprintf(f, "% 5i", (int) data); 
+    if (fabs(data) <= 2147483647. && data == (int) data) fprintf(f, "% 5i", (int) data); 
     else                    fprintf(f, "% 5f", data);
 }
 
-- 
2.43.0


From ccf9c94686b57de6929421f47194af67eee77fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 052/311] fix: apop_data_print with row names crashed when
 db_name_column is NULL

---
 apop_output.m4.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 104a1b7..c1909bd 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -248,10 +248,7 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
     if (data->names && data->names->rowct)
         L   = get_max_strlen(data->names->row, data->names->rowct);
     if (data->names && data->names->rowct && (data->names->vector || data->names->colct || data->names->textct)){
-        if ((apop_opts.db_name_column || *apop_opts.db_name_column=='\0') || 
-                !strcmp(apop_opts.db_name_column, "row_names"))
-            fprintf(f, "%*s  ", L+2, " ");
-        else { fprintf(f, "%s", apop_opts.db_name_column); a_pipe(f, displaytype); }
+        fprintf(f, "%*s  ", L+2, " "); //as per the text format, there is no name for the row names
     }
     if (data->vector && data->names && data->names->vector){
         fprintf(f, "%s", data->names->vector);
-- 
2.43.0


From d2afa678be23ffed8b907003210a6784d0e34ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 053/311] fix: printing a many-page data set to a file lost or
 reordered pages

The later pages were written to a second stream on the same file before the
first stream was flushed.
---
 apop_output.m4.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index c1909bd..7b0cbe8 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -328,10 +328,8 @@ APOP_VAR_ENDHEAD
         return;
     }
     apop_data_print_core(data, output_pipe, output_type);
-    if (data && data->more) {
-        output_append='a';
-        apop_data_print(data->more, Output_vars);
-    }
+    if (data && data->more)
+        apop_data_print(data->more, .output_pipe=output_pipe, .output_type=(output_type=='s' ? 's' : 'p'));
     if (output_name)
         fclose(output_pipe);
 }
-- 
2.43.0


From d522f45b13691d5ca3835bc49ae5d25a20ab909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 054/311] fix: apop_data_print dropped rows past the end of the
 matrix, and misread weights

The vector, text or weights may be longer; weights may have a stride.
---
 apop_output.m4.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 7b0cbe8..30ac343 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -242,7 +242,8 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
     int i, j, L = 0, 
         start   = (data->vector)? -1 : 0,
         end     = (data->matrix)? data->matrix->size2 : 0,
-        rowend  = (data->matrix)? data->matrix->size1 : (data->vector) ? data->vector->size : data->text ? data->textsize[0] : -1;
+        rowend  = GSL_MAX(GSL_MAX(data->matrix ? data->matrix->size1 : 0, data->vector ? data->vector->size : 0),
+                          GSL_MAX(data->text ? data->textsize[0] : 0, data->weights ? data->weights->size : 0));
     if (data->names && data->names->title && strlen(data->names->title))
         fprintf(f, "\t%s\n\n", data->names->title);
     if (data->names && data->names->rowct)
@@ -295,15 +296,14 @@ static void apop_data_print_core(const apop_data *data, FILE *f, char displaytyp
         if (data->text){
             if (data->vector || data->matrix)
                 a_pipe(f, displaytype);
-            if (j < data->textsize[0])
                 for(i=0; i< data->textsize[1]; i++){
-                    fprintf(f, "%s", data->text[j][i]);
+                    if (j < data->textsize[0]) fprintf(f, "%s", data->text[j][i]);
                     if (i < data->textsize[1]-1) fprintf(f, "%s", apop_opts.output_delimiter);
                 }
         }
         if (data->weights && j < data->weights->size){
-            a_pipe(f, displaytype);
-            p_fn(f, data->weights->data[j]);
+            if (data->vector || data->matrix || data->text) a_pipe(f, displaytype);
+            p_fn(f, gsl_vector_get(data->weights, j));
         }
         fprintf(f, "\n");
     }
-- 
2.43.0


From 0778a1e7fc80ab43920aca18cbc5eeb01e2df4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 055/311] fix: apop_vector_print to the database wrote to
 stdout and closed it

Also, printing a NULL matrix to a file left the file open.
---
 apop_output.m4.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 30ac343..74a17aa 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -206,6 +206,11 @@ APOP_VAR_HEAD void apop_vector_print(gsl_vector *data, Output_declares){
     gsl_vector *apop_varad_var(data, NULL);
     Dispatch_output
 APOP_VAR_ENDHEAD
+    if (output_type == 'd'){
+        Apop_stopif(!data, return, 1, "You sent me a NULL vector. No database table will be created.");
+        apop_data_print(&(apop_data){.vector=data}, Output_vars);
+        return;
+    }
 	print_core_v(data, apop_opts.output_delimiter, Output_vars);
  }
 
@@ -349,6 +354,7 @@ APOP_VAR_ENDHEAD
         Apop_assert_c(data, , 1, "You sent me a NULL matrix. No database table will be created.");
     } else if (!data){
         fprintf(output_pipe, "NULL\n");
+        if (output_name) fclose(output_pipe);
         return;
     }
     apop_data_print(&(apop_data){.matrix=(gsl_matrix*)data}, Output_vars); //cheating on the const qualifier
-- 
2.43.0


From bdc85cbb439ebc92ed0ca012c787207758faf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 056/311] fix: apop_data_to_db wrote no rows for weights longer
 than the rest of the set

---
 apop_db.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index a0ac6b0..86ffbb4 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -514,7 +514,7 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, i
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
     Get_vmsizes(set) //firstcol, msize1, maxsize
-    for (size_t row=0; row < maxsize; row++){
+    for (size_t row=0; row < GSL_MAX(maxsize, wsize); row++){
         size_t field =1;
         if (use_row){
             if (set->names->rowct<=row || !strlen(set->names->row[row])) field++; //leave NULL and cleared
@@ -657,7 +657,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             run_prepared_statements(set, statement, use_row), 
             return -1, 0, "error in insertions.");
     } else {
-        for(i=0; i< maxsize; i++){
+        for(i=0; i< GSL_MAX(maxsize, wsize); i++){
             comma = ' ';
             qxprintf(&q, "%s \n insert into %s values(",q, tabname);
             if (use_row){
-- 
2.43.0


From f358fa62111c3bd1d81166eaf96c4ff0b22c5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 057/311] fix: apop_crosstab_to_db overran its name buffers,
 dropped digits, and lost names or text with quotes

---
 apop_conversions.m4.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1653c21..076d7fe 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -165,6 +165,13 @@ APOP_VAR_ENDHEAD
 	return outdata;
 }
 
+//One row of the table; quotes in the names or text get escaped. If text is NULL, use the number in val.
+static void crosstab_insert(char const *tabname, char const *row, char const *col, char const *text, char const *val){
+    char *q = sqlite3_mprintf(text ? "%Q, %Q, %Q" : "%Q, %Q, %s", row, col, text ? text : val);
+    apop_query("INSERT INTO %s VALUES (%s)", tabname, q);
+    sqlite3_free(q);
+}
+
 /** See \ref apop_db_to_crosstab for the storyline; this is the complement, which takes a
   crosstab and writes its values to the database.
 
@@ -194,9 +201,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     apop_name *n = in->names;
     char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
-    int maxcol= GSL_MAX(msize2, in->textsize[1]);
-    char sparerow[msize1 > 0 ? (int)log10(msize1)+1 : 0];
-    char sparecol[maxcol > 0 ? (int)log10(maxcol)+1 : 0];
+    char sparerow[30], sparecol[30];
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
@@ -207,18 +212,18 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
         for (int j=0; j< msize2; j++){
             colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
             double x = gsl_matrix_get(in->matrix, i, j); 
-            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %g)", 
-                                                tabname, rowname, colname, x);
-            else apop_query("INSERT INTO %s VALUES ('%s', '%s', 0/0)", 
-                                        tabname, rowname, colname);
+            char val[40];
+            if (isnan(x))      strcpy(val, "0/0");
+            else if (isinf(x)) strcpy(val, x > 0 ? "9e999" : "-9e999");
+            else               sprintf(val, "%.17g", x);
+            crosstab_insert(tabname, rowname, colname, NULL, val);
         }
     }
     for (int i=0; i< in->textsize[0]; i++){
         rowname = (n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
         for (int j=0; j< in->textsize[1]; j++){
             colname = (n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
-            apop_query("INSERT INTO %s VALUES ('%s', '%s', '%s')", tabname, 
-                rowname, colname, in->text[i][j]);
+            crosstab_insert(tabname, rowname, colname, in->text[i][j], NULL);
         }
     }
 	apop_query("commit");
-- 
2.43.0


From b3d1b83e6ec8f1275138b8c11a074824f0620b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 058/311] fix: apop_db_to_crosstab left db_name_column unset
 and leaked after a blank query, reported no error, misread NaNs

---
 apop_conversions.m4.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 076d7fe..8c98a1d 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -80,7 +80,7 @@ static int find_cat_index(char **d, char * r, int start_from, int size){
 		if(!strcmp(d[i], r)) return i;
 		i++;
 		i %= size;	//loop around as necessary.
-	} while (i!=start_from); 
+	} while (i != start_from % size);
     Apop_assert_c(0, -2, 0, "Something went wrong in the crosstabbing; couldn't find %s.", r);
 }
 
@@ -133,8 +133,8 @@ APOP_VAR_ENDHEAD
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
     datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
-    Apop_stopif(datachars->error, free(Q); goto bailout, 0, "error from [%s].", Q);
+    Apop_stopif(!datachars, apop_opts.db_name_column = p; apop_data_free(outdata); free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
+    Apop_stopif(datachars->error, outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
 
     //A bit inefficient, but well-encapsulated.
     //Pull the distinct (sorted) list of headers, copy into outdata->names.
@@ -154,9 +154,11 @@ APOP_VAR_ENDHEAD
 		j = find_cat_index(outdata->names->col, datachars->text[k][1], j, pre_d2->textsize[0]);
         Apop_stopif(i==-2 || j == -2, outdata->error='n'; goto bailout, 0, "Something went wrong in the crosstabbing; "
                                                  "couldn't find %s or %s.", datachars->text[k][0], datachars->text[k][1]);
-		gsl_matrix_set(out, i, j, atof(datachars->text[k][2]));
+        char *cell = datachars->text[k][2];
+		gsl_matrix_set(out, i, j, apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, cell) ? GSL_NAN : atof(cell));
 	}
     bailout:
+    free(Q);
     apop_data_free(pre_d1);
     apop_data_free(pre_d2);
     apop_data_free(datachars);
-- 
2.43.0


From b741095768e39b2a0287c6626e052345364c1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 059/311] fix: rank compression ignored min_bins, rank
 expansion read a NULL matrix and left junk for a vector

---
 apop_conversions.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 8c98a1d..abf478a 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -271,8 +271,8 @@ APOP_VAR_HEAD apop_data * apop_data_rank_compress (apop_data *in, int min_bins){
     int apop_varad_var(min_bins, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(in);
-    int upper_bound = GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
-                              in->vector ? gsl_vector_max(in->vector) : min_bins);
+    int upper_bound = GSL_MAX(min_bins, GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
+                                                in->vector ? gsl_vector_max(in->vector) : min_bins));
     apop_data *out = apop_data_calloc(1, upper_bound+1);
     for (int i=0; i< msize1; i++)
         for (int j=0; j< msize2; j++) 
@@ -291,8 +291,7 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
-    int total_ct = (in->matrix ? apop_matrix_sum(in->matrix) : 0)
-                 + (in->vector ? apop_vector_sum(in->vector) : 0);
+    int total_ct = in->matrix ? apop_matrix_sum(in->matrix) : 0;
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
-- 
2.43.0


From 940364b1d01e9dbf1a2b51e6102422b16e5b6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 060/311] fix: apop_text_unique_elements used its text as a
 printf format, and read a missing column

---
 apop_regression.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index ad892ab..1f0a809 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -88,6 +88,7 @@ gsl_vector * apop_vector_unique_elements(const gsl_vector *v){
 */
 apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
   char   **tval;
+  Apop_stopif(!d || !d->textsize[0] || col >= d->textsize[1], apop_return_data_error(s), 0, "no text column %zu in the input.", col);
 
   //first element for free
   size_t prior_elmt_ctr, elmt_ctr = 1;
@@ -107,7 +108,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
     for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, telmts[j]);
+        apop_text_set(out, j, 0, "%s", telmts[j]);
     free(telmts);
     return out;
 }
-- 
2.43.0


From 9f3acbd0b292d0b31123afb03418cc30d2936feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 061/311] fix: apop_text_paste kept the cells to be pruned,
 misplaced separators around them, and leaked

---
 apop_asst.m4.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..6bf1074 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -104,22 +104,21 @@ APOP_VAR_HEAD char *apop_text_paste(apop_data const *strings, char *between, cha
     apop_fn_riip apop_varad_var(prune, NULL);
     void *apop_varad_var(prune_parameter, NULL);
 APOP_VAR_ENDHEAD
-    char *prior_line=NULL, *oneline=NULL, *out = before ? strdup(before) : NULL;
+    char *out = before ? strdup(before) : NULL;
+    int had_row = 0;
     for (int i=0; i< ((!strings || !*strings->textsize)? 0 : *strings->textsize); i++){
-        free(oneline); oneline = NULL;
+        char *oneline = NULL;
         for (int j=0; j< strings->textsize[1]; j++){
-            if (prune && !prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (prune && prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (oneline) apop_tack_on(&oneline, between_cols);
             apop_tack_on(&oneline, strings->text[i][j]);
-            if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
         }
-        apop_tack_on(&out, prior_line);
-        if (prior_line && oneline) apop_tack_on(&out, between);
-        free(prior_line);
-        prior_line=oneline ? strdup(oneline): NULL;
-        //if (i <strings->textsize[0]-1)  apop_tack_on(&out, between);
-        //if (oneline)  apop_tack_on(&out, oneline);
+        if (!oneline) continue; //every cell on this row was pruned.
+        if (had_row) apop_tack_on(&out, between);
+        apop_tack_on(&out, oneline);
+        free(oneline);
+        had_row = 1;
     }
-    apop_tack_on(&out, oneline); //the final one never got a chance to be prior_line
     apop_tack_on(&out, after);
     Apop_notify(3, "%s", out);
     return out;
-- 
2.43.0


From c3280130de7b089d80426cc3bc2b1bf7682a2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 062/311] fix: apop_regex ran forever on an empty match, and
 counted escaped or bracketed parens

---
 apop_asst.m4.c | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 6bf1074..9612f59 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -195,21 +195,6 @@ int apop_system(const char *fmt, ...){
     return out;
 }
 
-static int count_parens(const char *string){
-    int out = 0;
-    int last_was_backslash = 0;
-    for(const char *step =string; *step !='\0'; step++){
-        if (*step == '\\' && !last_was_backslash){
-            last_was_backslash = 1;
-            continue;
-        }
-        if (*step == ')' && !last_was_backslash)
-            out++;
-        last_was_backslash = 0;
-    }
-    return out;
-}
-
 /** Extract subsets from a string via regular expressions.
 
 This function takes a regular expression and repeatedly applies it to an input string. It returns the count of matches, and optionally returns the matches themselves organized into the \c text grid of an \ref apop_data set.
@@ -255,13 +240,13 @@ APOP_VAR_HEAD int  apop_regex(const char *string, const char* regex, apop_data *
     const char apop_varad_var(use_case, 'n');
 APOP_VAR_ENDHEAD
     regex_t re;
-    int matchcount=count_parens(regex);
     int found, found_ct=0;
-    regmatch_t result[matchcount+1];
     int compiled_ok = !regcomp(&re, regex, REG_EXTENDED 
                                             + (use_case=='y' ? 0 : REG_ICASE)
                                             + (substrings ? 0 : REG_NOSUB) );
     Apop_stopif(!compiled_ok, return -1, 0, "This regular expression didn't compile: \"%s\"", regex);
+    int matchcount = re.re_nsub;
+    regmatch_t result[matchcount+1];
 
     int matchrow = 0;
     if (substrings) *substrings = apop_data_alloc();
@@ -281,6 +266,7 @@ APOP_VAR_ENDHEAD
                 } //else matches nothing; apop_text_alloc already made this cell this NULL.
             }
             string += result[0].rm_eo; //end of whole match;
+            if (result[0].rm_so == result[0].rm_eo && *string) string++; //or else an empty match would repeat forever.
             matchrow++;
         }
     } while (substrings && found && string[0]!='\0');
-- 
2.43.0


From 52770e48f428afca8c4807752f7c9e7234f122a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 063/311] fix: apop_rng_alloc gave seeds zero and one the same
 stream, and raced on first use

---
 apop_bootstrap.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index cf6cff4..3cb7468 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -17,13 +17,13 @@ Copyright (c) 2006--2007 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 */
 gsl_rng *apop_rng_alloc(int seed){
     static int first_use = 1;
+    OMP_critical(rng_env_setup) //GSL makes vague promises about thread-safety
     if (first_use){
        first_use = 0;
-       OMP_critical(rng_env_setup) //GSL makes vague promises about thread-safety
        gsl_rng_env_setup();
     }
     gsl_rng *setme = gsl_rng_alloc(gsl_rng_taus2);
-    gsl_rng_set(setme, seed);
+    gsl_rng_set(setme, seed ? seed : INT_MIN); //the GSL would read a seed of zero as one.
     return setme;
 }
 
-- 
2.43.0


From 87618b9afdb923cdb9ef1dc99165ebbf7509b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 064/311] fix: concurrent apop_rake calls shared their scratch
 tables' names

---
 apop_rake.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 7b0e800..4d70163 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -1,6 +1,9 @@
 //#define __USE_POSIX //for strtok_r
 #include "apop_internal.h"
 #include <stdbool.h>
+#ifdef _OPENMP
+#include <omp.h>
+#endif
 #include <gsl/gsl_sort_vector.h>
 void xprintf(char **q, char *format, ...); //in apop_conversions.c
 
@@ -546,7 +549,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
 APOP_VAR_ENDHEAD
-    #ifdef OpenMP
+    #ifdef _OPENMP
         int run_number = omp_get_thread_num();
     #else
         int run_number = 0;
-- 
2.43.0


From 6126f276a3c2d336b096ab1749abee132cc5d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 065/311] fix: apop_rng_get_thread gave all OpenMP threads one
 generator; RNG and harmonic stores were read while being moved

---
 apop_asst.m4.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 9612f59..21345df 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -146,6 +146,7 @@ When reading the code, remember that the zeroth element holds the value for N=1,
     static int		 count	= 0;
     static long double ** precalced=NULL;
     int	old_len, i;
+    long double out;
     OMP_critical(generalized_harmonic)
     { //Due to memoization, this can't parallelize.
 	for (i=0; i< count; i++)
@@ -171,8 +172,9 @@ When reading the code, remember that the zeroth element holds the value for N=1,
 		for (int j = old_len; j<N; j++)
 			precalced[i][j] = precalced[i][j-1] + 1/pow((j+1),s);
 	}
+    out = precalced[i][N-1]; //another thread may move the list once we leave this section
     }
-	return 	precalced[i][N-1];
+	return out;
 }
 
 /** Call \c system(), but with <tt>printf</tt>-style arguments. E.g.,
@@ -343,22 +345,26 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static int rng_ct = -1;
 
     if (thread==-1){
-        #ifdef OpenMP
+        #ifdef _OPENMP
             thread = omp_get_thread_num();
         #else
             thread = 0;
         #endif
     }
 
+    gsl_rng *out;
     OMP_critical(rng_get_thread)
-    if (thread > rng_ct)
+    {
+        if (thread > rng_ct)
         {
             rngs = realloc(rngs, sizeof(gsl_rng*)*(thread+1));
             for (int i=rng_ct+1; i<= thread; i++)
                 rngs[i] = apop_rng_alloc(++apop_opts.rng_seed);
             rng_ct = thread;
         }
-    return rngs[thread];
+        out = rngs[thread];
+    }
+    return out;
 }
 
 /** Make a set of random draws from a model and write them to an \ref apop_data set.
-- 
2.43.0


From dff34e809ea47b2e7f13f890d9eae2124ba53a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 066/311] fix: apop_map over the elements of a NULL matrix
 returned uninitialised numbers

---
 apop_mapply.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..8a2c251 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -149,6 +149,9 @@ APOP_VAR_ENDHEAD
                         0, "You asked for a vector-oriented operation (.part='r' or .part='c'), but "
                         "gave me a scalar-oriented function. Did you mean part=='a'?");
 
+    Apop_stopif(part=='m' && !by_apop_rows && !in->matrix, if (inplace=='y'){in->error='p'; return in;} apop_return_data_error(p),
+                        0, "You asked for me to operate on the elements of the matrix, but the matrix is NULL.");
+
     //Allocate output
     Get_vmsizes(in); //vsize, msize1, msize2, maxsize
     apop_data *out =   (inplace=='y') ? in
-- 
2.43.0


From 6bc5468eb8ec4deff5e538a58fe1a85009c1502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 067/311] fix: apop_map by rows left uninitialised numbers past
 the end of the matrix

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 8a2c251..34af706 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -160,7 +160,7 @@ APOP_VAR_ENDHEAD
                      : part == 'v' || (in->vector && ! in->matrix) ? apop_data_alloc(vsize)
                      : part == 'm' ? apop_data_alloc(msize1, msize2)
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
-                     : part == 'r' ? apop_data_alloc(maxsize)
+                     : part == 'r' ? apop_data_alloc(msize1)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
     Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(maxsize), 2, 
                             "No vector in your input data set for me to write outputs to; "
-- 
2.43.0


From d564344a1c6761e69e63780cc9a0799c0cc3e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 068/311] fix: apop_map in place kept a vector of the wrong
 size

---
 apop_mapply.m4.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 34af706..d96189e 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -162,9 +162,12 @@ APOP_VAR_ENDHEAD
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
                      : part == 'r' ? apop_data_alloc(msize1)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
-    Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(maxsize), 2, 
-                            "No vector in your input data set for me to write outputs to; "
-                            "allocating one for you of size %i", maxsize);
+    if (inplace=='y' && (part=='r'||part=='c') && !by_apop_rows && in->matrix){
+        int outsize = part=='r' ? msize1 : msize2;
+        Apop_stopif(vsize != outsize, gsl_vector_free(in->vector); in->vector=gsl_vector_alloc(outsize), 2,
+                            "No vector of the right size in your input data set for me to write outputs to; "
+                            "allocating one for you of size %i", outsize);
+    }
     if (in->names && out && !(inplace=='y')){
         if (part == 'v'  || (in->vector && ! in->matrix)) {
              apop_name_stack(out->names, in->names, 'v');
-- 
2.43.0


From 85ddcfeba2430abb3a77c49e53f970859b72b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 069/311] fix: apop_map by columns wrote names into its input

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index d96189e..9dda835 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -183,7 +183,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From 341a0ebc70e5f093f7276f599f2aaa4cf8c3d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 070/311] fix: apop_map with void output over all pages
 dereferenced NULL

---
 apop_mapply.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 9dda835..58d52af 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -216,7 +216,9 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        apop_data *more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (!out) return more; //with inplace=='v', NULL or a set marking an error.
+        out->more = more;
         Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
-- 
2.43.0


From 962c2cc7aff47a2715fa061c7a955e9a32ff5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 071/311] fix: apop_map in place by rows wrote past a short
 vector

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index 58d52af..227bf00 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -250,7 +250,7 @@ static void rowloop(threadpass *tc){
         double val = 
         tc->use_param ? (tc->use_index ? fn_rpi(onerow, tc->param, i) : fn_rp(onerow, tc->param) )
                       : (tc->use_index ? fn_ri(onerow, i) : rtod(onerow) );
-        if (tc->v) gsl_vector_set(tc->v, i, val);
+        if (tc->v && i < tc->v->size) gsl_vector_set(tc->v, i, val);
     }
 }
 
-- 
2.43.0


From cf4b93280c0ed59c2a9bc4e62b00a218bd9a7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 072/311] fix: apop_det_and_inv left the GSL handler set and
 wrote through NULL for a non-square matrix

---
 apop_linear_algebra.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index b588fe0..58fbbed 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -38,9 +38,9 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
-    Set_gsl_handler
-    Apop_stopif(in->size1 != in->size2, *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
+    Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
+    Set_gsl_handler
     int sign;
     double the_determinant = GSL_NAN;
 	gsl_matrix *invert_me = gsl_matrix_alloc(in->size1, in->size1);
-- 
2.43.0


From d2f65b3b027dbacbd07207f1d57dc0b31a9fd377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 073/311] fix: the determinant of a singular matrix was NaN,
 and apop_det_and_inv without a determinant returned NaN, not zero

---
 apop_linear_algebra.m4.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 58fbbed..f734a7d 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -6,6 +6,7 @@ columns, check bounds, et cetera.
 /* Copyright (c) 2006--2007, 2012 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 
 #include "apop_internal.h"
+#include <stdbool.h>
 
 void apop_gsl_error(const char *reason, const char *file, int line, int gsl_errno){
     Apop_notify(1, "%s: %s", file, reason);
@@ -51,8 +52,12 @@ double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, in
 		*out = gsl_matrix_alloc(in->size1, in->size1); //square.
 		Check_gsl_with_outmp(gsl_linalg_LU_invert(invert_me, perm, *out))
     }
-	if (calc_det)
-		the_determinant	= gsl_linalg_LU_det(invert_me, sign);
+	if (calc_det){
+        bool singular = false; //after a zero pivot, the GSL's LU decomposition is filled with NaNs.
+        for (size_t i=0; i< in->size1; i++) singular = singular || gsl_matrix_get(invert_me, i, i)==0;
+		the_determinant	= singular ? 0 : gsl_linalg_LU_det(invert_me, sign);
+    } else
+        the_determinant = 0;
     done:
 	gsl_matrix_free(invert_me);
 	gsl_permutation_free(perm);
-- 
2.43.0


From 8cfbcd643bb9d99b2a738f8522de8ada0037f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 074/311] fix: apop_dot left the GSL handler set for an empty
 operand

---
 apop_linear_algebra.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index f734a7d..ed0d517 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -393,7 +393,6 @@ APOP_VAR_HEAD apop_data * apop_dot(const apop_data *d1, const apop_data *d2, cha
     char apop_varad_var(form1, 0)
     char apop_varad_var(form2, 0)
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     int         uselm, userm;
     gsl_matrix  *lm = d1->matrix, 
                 *rm = d2->matrix;
@@ -418,6 +417,7 @@ APOP_VAR_ENDHEAD
         Apop_stopif(1, return NULL, 0, "The right data set has neither non-NULL "
                                   "matrix nor vector. Returning NULL.");
     }
+    Set_gsl_handler
     apop_data *out = apop_data_alloc();
     #define Dimcheck(lr, lc, rr, rc) Apop_stopif((lc)!=(rr), out->error='d'; goto done,\
         0, "mismatched dimensions: %zuX%zu dot %zuX%zu. %s", (lr), (lc), (rr), (rc),\
-- 
2.43.0


From 501ad97e8bb76177dc6341d4d6c82ff93071b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 075/311] fix: apop_linear_constraint left the feasible region
 when the rows of the constraint are not unit vectors

---
 apop_linear_constraint.m4.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 688242a..fa09434 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -34,7 +34,7 @@ static int binds(gsl_vector const *v, double k, gsl_vector const *b, double marg
 static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
     double theta, costheta, dot, out;
     gsl_blas_ddot(dimv, otherv, &dot);
-    costheta = dot/(magnitude(dimv)*magnitude(otherv));
+    costheta = dot/sqrt(magnitude(dimv)*magnitude(otherv));
     theta = acos(costheta);
     out = off_by/gsl_pow_2(sin(theta)); 
     return out;
@@ -52,7 +52,6 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
     double k, ck, off_by, s;
     gsl_vector *pseudobeta        = NULL;
     gsl_vector *pseudocandidate   = NULL;
-    gsl_vector *pseudocandidate2  = NULL;
     gsl_vector *fix               = NULL;
     gsl_vector *cc = Apop_rv(constraint, current);
     ck = gsl_vector_get(constraint->vector, current);
@@ -66,16 +65,14 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
                     pseudobeta          = gsl_vector_alloc(beta->size);
                     gsl_vector_memcpy(pseudobeta, beta);
                     pseudocandidate     = gsl_vector_alloc(beta->size);
-                    pseudocandidate2    = gsl_vector_alloc(beta->size);
                     fix                 = gsl_vector_alloc(beta->size);
                 }
                 find_nearest_point(pseudobeta, k, other, pseudocandidate);
-                find_nearest_point(pseudocandidate, ck, cc, pseudocandidate2);
-                off_by  = apop_vector_distance(pseudocandidate, pseudocandidate2);
+                gsl_blas_ddot(cc, pseudocandidate, &off_by);
+                off_by  = (ck - off_by)/sqrt(magnitude(cc)); //signed: positive means that it's on the wrong side.
                 s       = trig_bit(cc, other, off_by);
                 gsl_vector_memcpy(fix, cc);
-                gsl_vector_scale(fix, magnitude(cc));
-                gsl_vector_scale(fix, s);
+                gsl_vector_scale(fix, s/sqrt(magnitude(cc)));
                 gsl_vector_add(pseudobeta, fix);
                 find_nearest_point(pseudobeta, k, other, candidate);
                 gsl_vector_memcpy(pseudobeta, candidate);
@@ -84,7 +81,7 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
     }
     if (fix){ 
         gsl_vector_free(fix); gsl_vector_free(pseudobeta);
-        gsl_vector_free(pseudocandidate); gsl_vector_free(pseudocandidate2);
+        gsl_vector_free(pseudocandidate);
     }
 }
 
-- 
2.43.0


From c0a78d5df78dcb8860d5f5edcdfb84c2166c0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 076/311] fix: apop_linear_constraint scaled the margin by the
 cube of the constraint's length

---
 apop_linear_constraint.m4.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index fa09434..4196d38 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -185,8 +185,7 @@ add_margin:
     for (i=0; i< constraint_ct; i++){
         if(bindlist[i]){
             gsl_vector_memcpy(fix, Apop_rv(constraint, i));
-            gsl_vector_scale(fix, magnitude(fix));
-            gsl_vector_scale(fix, margin);
+            gsl_vector_scale(fix, margin/sqrt(magnitude(fix)));
             gsl_vector_add(beta, fix);
         }
     }
-- 
2.43.0


From b0e377a7c5a99e4db9ec90dc88ead43f11e634f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 077/311] fix: apop_linear_constraint returned the nearest
 point from an earlier call

---
 apop_linear_constraint.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 4196d38..2209105 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -145,11 +145,12 @@ APOP_VAR_ENDHEAD
     int i, bound = 0;
     /* For added efficiency, keep a scratch vector or two on hand. */
     if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
+        gsl_vector_free(closest_pt); gsl_vector_free(candidate); gsl_vector_free(fix);
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
         fix         = gsl_vector_alloc(beta->size);
-        closest_pt->data[0] = GSL_NEGINF;
     }
+    gsl_vector_set_all(closest_pt, GSL_NEGINF); //any candidate from an earlier call is no candidate here.
     /* Do any constraints bind?*/
     memset(bindlist, 0, sizeof(int)*constraint_ct);
     for (i=0; i< constraint_ct; i++){
-- 
2.43.0


From 82e4633f9b2b2579f49ac46bbeb9d4381ca00f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 078/311] fix: the margin of apop_linear_constraint pushed the
 point across other constraints

---
 apop_linear_constraint.m4.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 2209105..c13bb0a 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -54,13 +54,14 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
     gsl_vector *pseudocandidate   = NULL;
     gsl_vector *fix               = NULL;
     gsl_vector *cc = Apop_rv(constraint, current);
-    ck = gsl_vector_get(constraint->vector, current);
+    ck = gsl_vector_get(constraint->vector, current) + margin*sqrt(magnitude(cc));
     find_nearest_point(beta, ck, cc, candidate);
     for (size_t i=0; i< constraint->vector->size; i++){
         if (i!=current){
             gsl_vector *other = Apop_rv(constraint, i);
             k   =apop_data_get(constraint, i, -1);
             if (binds(candidate, k, other, margin)){
+                k += margin*sqrt(magnitude(other));
                 if (!pseudobeta){
                     pseudobeta          = gsl_vector_alloc(beta->size);
                     gsl_vector_memcpy(pseudobeta, beta);
@@ -139,16 +140,14 @@ APOP_VAR_HEAD long double  apop_linear_constraint(gsl_vector *beta, apop_data *
 APOP_VAR_ENDHEAD
     static threadlocal gsl_vector *closest_pt = NULL;
     static threadlocal gsl_vector *candidate  = NULL;
-    static threadlocal gsl_vector *fix        = NULL;
     int constraint_ct = constraint->matrix->size1;
     int bindlist[constraint_ct];
     int i, bound = 0;
     /* For added efficiency, keep a scratch vector or two on hand. */
     if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
-        gsl_vector_free(closest_pt); gsl_vector_free(candidate); gsl_vector_free(fix);
+        gsl_vector_free(closest_pt); gsl_vector_free(candidate);
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
-        fix         = gsl_vector_alloc(beta->size);
     }
     gsl_vector_set_all(closest_pt, GSL_NEGINF); //any candidate from an earlier call is no candidate here.
     /* Do any constraints bind?*/
@@ -163,8 +162,8 @@ APOP_VAR_ENDHEAD
     /* With only one constraint, it's easy. */
     if (constraint->vector->size==1){
         gsl_vector *c = Apop_rv(constraint, 0);
-        find_nearest_point(base_beta, constraint->vector->data[0], c, beta);
-        goto add_margin;
+        find_nearest_point(base_beta, constraint->vector->data[0] + margin*sqrt(magnitude(c)), c, beta);
+        goto done;
     }
     /* Finally, multiple constraints, at least one binding.
        For each surface, pick a candidate point.
@@ -182,14 +181,7 @@ APOP_VAR_ENDHEAD
                 gsl_vector_memcpy(closest_pt, candidate);
         }
     gsl_vector_memcpy(beta, closest_pt);
-add_margin:
-    for (i=0; i< constraint_ct; i++){
-        if(bindlist[i]){
-            gsl_vector_memcpy(fix, Apop_rv(constraint, i));
-            gsl_vector_scale(fix, margin/sqrt(magnitude(fix)));
-            gsl_vector_add(beta, fix);
-        }
-    }
+done: ;
     long double out = apop_vector_distance(base_beta, beta);
     gsl_vector_free(base_beta);
     return out;
-- 
2.43.0


From c70f43cfdb13ea4328b2e555487911089e055402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 079/311] fix: moments and covariances with weights that sum to
 one were divided by the number of elements

---
 apop_stats.m4.c | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 4e5bce3..29e9ec1 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -66,8 +66,7 @@ static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int expo
         sumcu+= ww * gsl_pow_int(vv - mu, exponent); 
         wsum += ww; 
     }
-    double len = wsum < 1.1 ? w->size : wsum;
-    return sumcu/len;
+    return sumcu/wsum;
 }
 
 /** Returns the population skew \f$(\sum_i (x_i - \mu)^3/n))\f$ of the data in the given vector. Observations may be weighted.
@@ -510,17 +509,7 @@ APOP_VAR_HEAD double apop_vector_var(gsl_vector const *v, gsl_vector const *weig
     Check_vw
 APOP_VAR_END_HEAD
     if (!weights) return gsl_stats_variance(v->data, v->stride, v->size);
-    //Using the E(x^2) - E^2(x) form.
-    long double sum = 0, wsum = 0, sumsq = 0, vv, ww;
-    for (size_t i=0; i< weights->size; i++){
-        vv = gsl_vector_get(v, i);
-        ww = gsl_vector_get(weights, i);
-        sum   += ww * vv;
-        sumsq += ww * gsl_pow_2(vv); 
-        wsum  += ww; 
-    }
-    double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len - gsl_pow_2(sum/len)) * len/(len -1.);
+    return apop_vector_cov(v, v, weights);
 }
 
 /** Find the sample covariance of a pair of vectors, with an optional weighting. This only
@@ -545,19 +534,17 @@ APOP_VAR_HEAD double apop_vector_cov(const gsl_vector *v1, const gsl_vector *v2,
 
 APOP_VAR_ENDHEAD
     if (!weights) return gsl_stats_covariance(v1->data, v1->stride, v2->data, v2->stride, v2->size);
-    long double sum1 = 0, sum2 = 0, wsum = 0, sumsq = 0, vv1, vv2, ww;
-    //Using the E(x^2) - E^2(x) form.
+    long double sum1 = 0, sum2 = 0, wsum = 0, sumsq = 0, ww;
     for (size_t i=0; i< weights->size; i++){
-        vv1   = gsl_vector_get(v1,i);
-        vv2   = gsl_vector_get(v2,i);
         ww    = gsl_vector_get(weights,i);
-        sum1 += ww * vv1;
-        sum2 += ww * vv2;
-        sumsq+= ww * vv1 * vv2;
+        sum1 += ww * gsl_vector_get(v1,i);
+        sum2 += ww * gsl_vector_get(v2,i);
         wsum += ww; 
     }
+    for (size_t i=0; i< weights->size; i++)
+        sumsq += gsl_vector_get(weights,i) * (gsl_vector_get(v1,i) - sum1/wsum) * (gsl_vector_get(v2,i) - sum2/wsum);
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len  - sum1*sum2/gsl_pow_2(len)) *(len/(len-1));
+    return sumsq/wsum * (len/(len-1));
 }
 
 /** Returns the sample variance/covariance matrix relating each column of the matrix to each other column.
-- 
2.43.0


From ac545895ccea7166c2b19942708048c2b6b4786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 080/311] fix: apop_vector_moving_average with a bandwidth
 wider than the vector asked for a huge allocation

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index afb4489..da643f3 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -368,7 +368,7 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
     int halfspan = bandwidth/2;
-    Apop_stopif((v->size - halfspan*2)<=0, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
+    Apop_stopif(v->size <= bandwidth/2*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
         double *item = gsl_vector_ptr(vout, i);
-- 
2.43.0


From 404fa68c5df565d12f101cc751e91b5c10074d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 081/311] fix: the multivariate gamma functions aborted at a
 pole of the gamma function

---
 apop_stats.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 29e9ec1..0aea320 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -771,7 +771,8 @@ Because \f$\Gamma(x)\f$ is undefined for \f$x\in\{0, -1, -2, ...\}\f$, this func
 See also \ref apop_multivariate_lngamma, which is more numerically stable in most cases.
 */
 long double apop_multivariate_gamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    for (int j=1; j<=p; j++)
+        Apop_stopif(a+(1-j)/2. <=0 && floor(a+(1-j)/2.) == a+(1-j)/2., return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for some j<=p [you sent a=%g, p=%i]", a, p);
     long double out = pow(M_PI, p*(p-1.)/4.);
     long double factor = 1;
     for (int i=1; i<=p; i++)
@@ -783,7 +784,8 @@ long double apop_multivariate_gamma(double a, int p){
  \ref apop_multivariate_gamma.
 */
 long double apop_multivariate_lngamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    for (int j=1; j<=p; j++)
+        Apop_stopif(a+(1-j)/2. <=0 && floor(a+(1-j)/2.) == a+(1-j)/2., return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for some j<=p [you sent a=%g, p=%i]", a, p);
     long double out = M_LNPI * p*(p-1.)/4.;
     for (int i=1; i<=p; i++)
         out += gsl_sf_lngamma(a+(1-i)/2.);
-- 
2.43.0


From e72075c3e174166b6cf866c697d634d1d954c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 082/311] fix: apop_matrix_is_positive_semidefinite rejected
 every singular matrix

---
 apop_stats.m4.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 0aea320..cd42e03 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -838,8 +838,17 @@ APOP_VAR_ENDHEAD
     for (int i=1; i<= m->size1; i++){
         gsl_matrix mv =gsl_matrix_submatrix (m, 0, 0, i, i).matrix;
         double det = apop_matrix_determinant(&mv);
-        if ((semi == 'd' && det <0) || det <=0)
-            return 0;
+        if (det <=0){
+            if (semi != 's' || det < -1e-12*pow(biggest_elmt(&mv), i)) return 0;
+            //A zero minor settles nothing about the rest, so look at the eigenvalues.
+            gsl_matrix *copy = apop_matrix_copy(m);
+            gsl_vector *eigenvals = gsl_vector_alloc(m->size1);
+            gsl_eigen_symm_workspace *w = gsl_eigen_symm_alloc(m->size1);
+            gsl_eigen_symm(copy, eigenvals, w);
+            int out = gsl_vector_min(eigenvals) >= -1e-12*biggest_elmt(m);
+            gsl_eigen_symm_free(w); gsl_vector_free(eigenvals); gsl_matrix_free(copy);
+            return out;
+        }
     }
     return 1;
 }
@@ -858,7 +867,7 @@ Copyright (2007) Jens Oehlschlägel [under the GPL].
 */
 double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     Apop_stopif(!m, return NAN, 0, "Got a NULL matrix. Returning NaN.");
-    if (apop_matrix_is_positive_semidefinite(m)) return 0; 
+    if (apop_matrix_is_positive_semidefinite(m, 'd')) return 0; 
     double diffsize=0, dsize;
     apop_data *qdq; 
     gsl_matrix *d = apop_matrix_copy(m);
-- 
2.43.0


From 9b4efd13cabeee83814ec3d179eebf9dfe29b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 083/311] fix: apop_matrix_to_positive_semidefinite aborted on
 a matrix with a zero trace, and leaked

---
 apop_stats.m4.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index cd42e03..8ae2ec3 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -895,7 +895,10 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
         
         //construct Q = pruned eigenvals
         apop_data_rm_columns(eigenvecs, mask);
-        if (!eigenvecs->matrix) break;
+        if (!eigenvecs->matrix) {
+            apop_data_free(eigenvecs); gsl_vector_free(eigenvals); free(mask);
+            break;
+        }
         
         //construct D = positive eigen diagonal
         apop_data *eigendiag = apop_data_calloc(0, plussize, plussize);
@@ -945,7 +948,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
         apop_data *eigendiag = apop_data_calloc(0, size, size);
         diagonal_copy(eigenvals, eigendiag->matrix, 'i');
         double new_diag_size = diagonal_size(eigendiag->matrix);
-        gsl_matrix_scale(eigendiag->matrix, orig_diag_size/new_diag_size);
+        if (orig_diag_size) gsl_matrix_scale(eigendiag->matrix, orig_diag_size/new_diag_size);
         apop_data *qd = apop_dot(eigenvecs, eigendiag);
         qdq = apop_dot(qd, eigenvecs, .form2='t');
         gsl_matrix_memcpy(m, qdq->matrix);
@@ -956,5 +959,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     apop_data_free(qdq); gsl_vector_free(diag);
     apop_data_free(eigenvecs); gsl_vector_free(eigenvals);
     gsl_matrix_sub(original, m);
-    return biggest_elmt(original)/origsize;
+    double out = origsize ? biggest_elmt(original)/origsize : biggest_elmt(original);
+    gsl_matrix_free(original);
+    return out;
 }
-- 
2.43.0


From a8024e14bade522aa327719fe808524dcfd4f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 084/311] fix: apop_matrix_to_positive_semidefinite never
 returned for a matrix with a zero diagonal

---
 apop_stats.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 8ae2ec3..fcc3750 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -878,6 +878,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     diagonal_copy(diag, d, 'o');
     apop_vector_apply(diag, vfabs);
     double origsize = biggest_elmt(d);
+    int iterations = 0; //if the diagonal is zero, then d shrinks forever.
     do {
         //get eigenvals
         apop_data *eigenvecs = apop_data_alloc(size, size);
@@ -928,7 +929,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
         apop_data_free(eigenvecs); gsl_vector_free(eigenvals);
         d = qdq->matrix;
         qdq->matrix=NULL; apop_data_free(qdq); qdq = NULL;
-    } while (diffsize/dsize > 1e-3);
+    } while (diffsize/dsize > 1e-3 && ++iterations < 1000);
 
     apop_data *eigenvecs = apop_data_alloc(size, size);
     gsl_vector *eigenvals = gsl_vector_calloc(size);
-- 
2.43.0


From b5fac73ac9bab64326eaeaf7b2d6aa4fd714e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 085/311] fix: a descending apop_data_sort put the ties of the
 first column in ascending order

---
 apop_sort.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 4486e23..22fde3a 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -209,7 +209,7 @@ APOP_VAR_ENDHEAD
             double this_val=0;
             if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
             if (last_val != this_val) bottom = i;
             last_val = this_val;
@@ -220,7 +220,7 @@ APOP_VAR_ENDHEAD
             char *this_val = i==height ? NULL : is_name ? out->names->row[i] : out->text[i][(int)(*col_order-0.5)];
             if ((i==height || strcasecmp(this_val, last_val)) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
             if (this_val && strcmp(last_val, this_val)) bottom = i;
             free(last_val);
-- 
2.43.0


From ea4e7dc8a580a0b81b5c5cad93efcc521a0369d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 086/311] fix: apop_data_sort lost ties between text cells that
 differ in case

---
 apop_sort.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 22fde3a..59a1425 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -222,7 +222,7 @@ APOP_VAR_ENDHEAD
                     && bottom != i-1){
                 apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
-            if (this_val && strcmp(last_val, this_val)) bottom = i;
+            if (this_val && strcasecmp(last_val, this_val)) bottom = i;
             free(last_val);
             last_val = this_val ? strdup(this_val) : NULL;
         }
-- 
2.43.0


From 6703fb7346b2ddc0f13744e3bc57f67c24e89333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 087/311] fix: apop_data_sort with no columns to sort
 dereferenced NULL

---
 apop_sort.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 59a1425..77bd2c1 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -160,6 +160,8 @@ APOP_VAR_ENDHEAD
         col_order = so;
     }
 
+    if (*col_order == -100) return out; //no columns to sort.
+
     bool is_text = ((int)*col_order != *col_order);
     bool is_name = (*col_order == 0.2);
 
-- 
2.43.0


From b863b093d21b56ace6638b3976865eee895ed509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 088/311] fix: the sort order of apop_data_sort used blank
 text, dropped tied columns, and ignored text when nan_string is NULL

---
 apop_sort.m4.c | 54 ++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 77bd2c1..a33abf9 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -4,41 +4,38 @@ Copyright (c) 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 #include "apop_internal.h"
 #include <stdbool.h>
 
-static double find_smallest_larger_than(apop_data const *sort_order, double *x){
+static double text_to_rank(char const *in){
+    char *end;
+    double out = strtod(in, &end);
+    return end==in || (apop_opts.nan_string && !strcmp(in, apop_opts.nan_string)) ? NAN : out;
+}
+
+static double find_smallest_larger_than(apop_data const *sort_order, double *x, int *position){
     //the next column in the sort order is the one that is not NAN, greater than x, but smaller than all other candidate values.
-    double candidate_col=-100, candidate_val = INFINITY, v;
-    if (sort_order->vector && !isnan(v=gsl_vector_get(sort_order->vector, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -1;
+    //Given equal values, it is the first one after the last position used.
+    double candidate_col=-100, candidate_val = INFINITY;
+    int here = 0, candidate_position = 0;
+#define Check_candidate(val, col) {                                 \
+        double v = (val);                                           \
+        here++;                                                     \
+        if ((v > *x || (v == *x && here > *position)) && v < candidate_val){   \
+            candidate_val = v;                                      \
+            candidate_col = (col);                                  \
+            candidate_position = here;                              \
+        }                                                           \
     }
+    if (sort_order->vector) Check_candidate(gsl_vector_get(sort_order->vector, 0), -1)
     if (sort_order->matrix)
         for (int i=0; i< sort_order->matrix->size2; i++)
-            if (!isnan(v=gsl_matrix_get(sort_order->matrix, 0, i)) 
-                    && v > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i;
-            }
+            Check_candidate(gsl_matrix_get(sort_order->matrix, 0, i), i)
     if (*sort_order->textsize)
         for (int i=0; i< sort_order->textsize[1]; i++)
-            if (apop_opts.nan_string && strcmp(sort_order->text[0][i], apop_opts.nan_string)
-                    && (v=atof(sort_order->text[0][i])) > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i+0.5;
-            }
-    if (sort_order->weights && !isnan(v=gsl_vector_get(sort_order->weights, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -2;
-    }
-    if (sort_order->names->rowct)
-        if (apop_opts.nan_string && strcmp(*sort_order->names->row, apop_opts.nan_string)
-                && (v=atof(*sort_order->names->row)) > *x && v < candidate_val){
-            candidate_val = v;
-            candidate_col = 0.2;
-        }
+            Check_candidate(text_to_rank(sort_order->text[0][i]), i+0.5)
+    if (sort_order->weights) Check_candidate(gsl_vector_get(sort_order->weights, 0), -2)
+    if (sort_order->names->rowct) Check_candidate(text_to_rank(*sort_order->names->row), 0.2)
 
     *x = candidate_val;
+    *position = candidate_position;
     return candidate_col;
 }
 
@@ -47,8 +44,9 @@ static void generate_sort_order(apop_data const *data, apop_data const *sort_ord
  * 0.2, and the text cols are the column+0.5. How's that for arbitrary. */
     if (sort_order) {
         double x = -INFINITY;
+        int position = 0;
         for (int i=0; i< cols_to_sort_ct-1; i++)
-            so[i] = find_smallest_larger_than(sort_order, &x);
+            so[i] = find_smallest_larger_than(sort_order, &x, &position);
     } else {
         int ctr=0;
         if (data->vector) so[ctr++] = -1;
-- 
2.43.0


From 49ebc06af5175d179be4d3aac21104b295faaa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 089/311] fix: a NaN left the other rows of apop_data_sort
 unsorted

---
 apop_sort.m4.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index a33abf9..88a93bd 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -58,8 +58,6 @@ static void generate_sort_order(apop_data const *data, apop_data const *sort_ord
     so[cols_to_sort_ct-1] = -100;
 }
 
-#include <gsl/gsl_sort_vector.h>
-
 static int find_min_unsorted(size_t *sorted, size_t height, size_t min){
     while (min<height)
         if (!sorted[min]) return min;
@@ -70,6 +68,16 @@ static int find_min_unsorted(size_t *sorted, size_t height, size_t min){
 static threadlocal apop_data *d;  //stdlib qsort doesn't have a hook where we can put these.
 static threadlocal int offset;
 
+static threadlocal gsl_vector *num_col;
+
+static int compare_numbers(const void *a, const void *b) { //NaN is larger than any number; ties go in the original order
+    const size_t ia = *(const size_t *) a, ib = *(const size_t *) b;
+    const double da = gsl_vector_get(num_col, ia), db = gsl_vector_get(num_col, ib);
+    return da < db || (isnan(db) && !isnan(da)) ? -1
+         : da > db || (isnan(da) && !isnan(db)) ? 1
+         : (ia > ib) - (ia < ib);
+}
+
 static int compare_strings(const void *a, const void *b) {
     const size_t *da = (const size_t *) a;
     const size_t *db = (const size_t *) b;
@@ -179,9 +187,11 @@ APOP_VAR_ENDHEAD
                               : *out->textsize;
 
     gsl_permutation *p = gsl_permutation_alloc(height);
-    if (!is_text) gsl_sort_vector_index (p, thiscol);
-    else {
-        gsl_permutation_init(p);
+    gsl_permutation_init(p);
+    if (!is_text) {
+        num_col = thiscol;
+        qsort(p->data, height, sizeof(size_t), compare_numbers);
+    } else {
         d = out;
         offset = is_name ? -1 : *col_order-0.5;        
         qsort(p->data, height, sizeof(size_t), compare_strings);
@@ -207,11 +217,13 @@ APOP_VAR_ENDHEAD
         double last_val = gsl_vector_get(thiscol, 0);
         for (int i=1; i< height+1; i++){
             double this_val=0;
-            if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
+            if (i < height) this_val = gsl_vector_get(thiscol, i);
+            bool differs = last_val != this_val && !(isnan(last_val) && isnan(this_val));
+            if ((i==height || differs)
                     && bottom != i-1){
                 apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
-            if (last_val != this_val) bottom = i;
+            if (differs) bottom = i;
             last_val = this_val;
         }
     } else {
-- 
2.43.0


From 9c32ed3e82bcf7853b2d0e4ea8f0c78c24a5c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 090/311] fix: draws from an unweighted PMF never returned its
 last row

---
 model/apop_pmf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 792a18a..72d06c4 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -139,7 +139,7 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
-        current = gsl_rng_uniform(r)* (maxsize-1);
+        current = gsl_rng_uniform(r)* maxsize;
     else {
         size_t size = m->data->weights->size;
         #pragma omp critical (pmfsetuptwo)
-- 
2.43.0


From d31275b6959005ff915881b8bc9b822825837312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 091/311] fix: the CDF of a weighted PMF summed the cumulative
 sums, and that of an unweighted PMF left out the point itself

---
 model/apop_pmf.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 72d06c4..8a3edb0 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -271,14 +271,13 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
     Get_vmsizes(m->data); //maxsize
     int elmt = find_in_data(m->data, Apop_r(d, 0));
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
-    if (!m->data->weights) return (elmt+0.0)/maxsize;
+    if (!m->data->weights) return (elmt+1.0)/maxsize;
     else {
         apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
         if (!settings) settings = Apop_model_add_group(m, apop_pmf);
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(m->error=='f', return GSL_NAN, 0, "Zero or NaN density in the PMF.");
-        gsl_vector_view v = gsl_vector_subvector(settings->cmf, 0, elmt+1);
-        return apop_sum(&v.vector);
+        return gsl_vector_get(settings->cmf, elmt);
     }
 }
 
-- 
2.43.0


From 80e8e032592d0de97313bed5c9849adb759591fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 092/311] fix: the PMF misread weights held in a strided view

---
 model/apop_pmf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 8a3edb0..03928ee 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -97,9 +97,9 @@ static void setup_cmf(apop_model *m){
     Apop_stopif(!settings->cmf, m->error='a'; return,
             0, "Allocation error setting up the CMF.");
     gsl_vector *cdf = settings->cmf; //alias.
-    cdf->data[0] = m->data->weights->data[0];
+    cdf->data[0] = gsl_vector_get(m->data->weights, 0);
     for (int i=1; i< maxsize; i++)
-        cdf->data[i] = m->data->weights->data[i] + cdf->data[i-1];
+        cdf->data[i] = gsl_vector_get(m->data->weights, i) + cdf->data[i-1];
     //Now make sure the last entry is one.
     Apop_stopif(cdf->data[maxsize-1]==0 || isnan(cdf->data[maxsize-1]), m->error='f'; return,
             0, "Bad density in the PMF.");
@@ -245,7 +245,7 @@ static long double pmf_p(apop_data *d, apop_model *m){
         int elmt = find_in_data(m->data, Apop_r(d, i));
         if (elmt == -1) return 0; //Can't find one observation: prob=0;
         p *= m->data->weights
-                 ? m->data->weights->data[elmt] /settings->total_weight 
+                 ? gsl_vector_get(m->data->weights, elmt) /settings->total_weight 
                  : 1./model_pmf_length; //no weights means any known event is equiprobable
     }
     return p;
-- 
2.43.0


From 3dc97d61776f492e3f0c9db8b90d22cdab6f0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 093/311] fix: draws from a PMF with a vector and a matrix
 skipped the first matrix column

---
 model/apop_pmf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 03928ee..6ace87b 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -181,8 +181,8 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     if (outrow->vector)
         out[i++] = outrow->vector->data[0];
     if (outrow->matrix)
-        for( ; i < outrow->matrix->size2; i ++)
-            out[i] = gsl_matrix_get(outrow->matrix, 0, i);
+        for(int j=0; j < outrow->matrix->size2; j++)
+            out[i++] = gsl_matrix_get(outrow->matrix, 0, j);
     return 0;
 }
 
@@ -289,6 +289,7 @@ static void pmf_prep(apop_data * data, apop_model *model){
     Get_vmsizes(data) //msize2, firstcol
     int width = msize2 ? msize2 : -firstcol;//use the vector only if there's no matrix.
     if (Apop_settings_get_group(model, apop_pmf) && Apop_settings_get(model, apop_pmf, draw_index)=='y' && !width) model->dsize=0;
+    if (model->dsize == -1 && width) model->dsize = msize2 - firstcol; //draws include the vector and the matrix.
     apop_model_clear(data, model);
 }
 
-- 
2.43.0


From 169d390cb953b4b3f1c4d8abf8b2f29017285a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 094/311] fix: re-estimating a PMF with new data kept the old
 CMF, and copies leaked theirs

---
 model/apop_pmf.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 6ace87b..07dd098 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -57,7 +57,11 @@ equally probable.
 #include "apop_internal.h"
 
 Apop_settings_copy(apop_pmf,
-    (*out->cmf_refct)++;
+    if (in->cmf) (*out->cmf_refct)++;
+    else { //nothing to share; the two may each set up their own.
+        out->cmf_refct = calloc(1, sizeof(int));
+        (*out->cmf_refct)++;
+    }
 )
 
 Apop_settings_free(apop_pmf,
@@ -82,6 +86,15 @@ static void estim (apop_data *d, apop_model *out){
 
     apop_pmf_settings *settings = Apop_settings_get_group(out, apop_pmf);
     if (!settings) settings = Apop_model_add_group(out, apop_pmf);
+    if (settings->cmf){ //for some other data
+        if (!--*settings->cmf_refct){
+            gsl_vector_free(settings->cmf);
+            free(settings->cmf_refct);
+        }
+        settings->cmf = NULL;
+        settings->cmf_refct = calloc(1, sizeof(int));
+        (*settings->cmf_refct)++;
+    }
     if (d->weights) {
         settings->total_weight = apop_sum(d->weights);
         Apop_stopif(!isfinite(settings->total_weight),
-- 
2.43.0


From 87a615162deec77b00e62a751cc65e6f761ee771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 095/311] fix: apop_data_to_bins put the maximum in a bin of
 its own for values far from one, and gave NaN for a constant column

---
 apop_hist.m4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index da643f3..c6512ea 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -340,18 +340,22 @@ APOP_VAR_ENDHEAD
         gsl_vector *datacol = Apop_cv(indata, j);
         if (binspec){
            binwidth = apop_data_get(binspec, 0, j);
+           max = gsl_vector_max(datacol);
            offset = ((binspec->vector && binspec->vector->size==2 )
                    ||(binspec->matrix && binspec->matrix->size1==2)) ? apop_data_get(binspec, 1, j) : 0;
         } else {
             gsl_vector *abin = Apop_cv(bs, j);
             max = gsl_vector_max(datacol);
             gsl_vector_set(abin, 1, offset = gsl_vector_min(datacol));
-            gsl_vector_set(abin, 0, binwidth = (max - offset)/(bin_count ? bin_count : sqrt(datacol->size)));
+            binwidth = (max - offset)/(bin_count ? bin_count : sqrt(datacol->size));
+            if (!binwidth) binwidth = 1; //every value is the same
+            gsl_vector_set(abin, 0, binwidth);
         }
         for (int i=0; i< onecol->size; i++){
             double val = gsl_vector_get(datacol, i);
-            double adjust = (close_top_bin=='y' && val == max && val!=offset) ? 2*GSL_DBL_EPSILON : 0;
-            gsl_vector_set(onecol, i, (floor((val-offset-adjust)/binwidth))*binwidth+offset);
+            double bin = (val-offset)/binwidth;
+            if (close_top_bin=='y' && val == max && val!=offset) bin -= fabs(bin)*4*GSL_DBL_EPSILON;
+            gsl_vector_set(onecol, i, floor(bin)*binwidth+offset);
         }
     }
     if (indata->weights) out->weights = apop_vector_copy(indata->weights);
-- 
2.43.0


From 295c772d6a4adc249abe1dec7587a83e9f7f7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 096/311] fix: apop_model_to_pmf produced no weights

---
 apop_hist.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index c6512ea..5a8ac71 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -38,6 +38,7 @@ APOP_VAR_ENDHEAD
     apop_data *outd = apop_model_draws(model, draws);
     apop_data *outbinned = apop_data_to_bins(outd, binspec, .bin_count=bin_count);
     apop_data_free(outd);
+    apop_data_pmf_compress(outbinned); //sets weights
     apop_vector_normalize(outbinned->weights);
     return apop_estimate(outbinned, apop_pmf);
 } 
-- 
2.43.0


From 32fd4fd1e253cd461a261b78292e37f8414eea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 097/311] fix: apop_model_clear leaked the info page's title

---
 apop_model.m4.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index ad03cd3..bdb7b70 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -32,8 +32,7 @@ apop_model * apop_model_clear(apop_data * data, apop_model *model){
     if (!model->parameters && (vsize || msize1*msize2)) 
         model->parameters = apop_data_alloc(vsize, msize1, msize2);
     if (!model->info) model->info = apop_data_alloc();
-    if (model->info->names->title && !strlen(model->info->names->title))
-        free(model->info->names->title);
+    free(model->info->names->title);
     Asprintf(&model->info->names->title, "<Info>");
     if (!model->data) model->data = data;
 	return model;
-- 
2.43.0


From ea635bf1540acfd8942ba44e6a0296b63805d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 098/311] fix: factors and dummies with values not on an
 existing factor list: numeric factors resized the data matrix and read a
 freed list, text was used as a printf format, lists added to were searched as
 if sorted; long names overflowed a buffer

---
 apop_regression.m4.c | 93 ++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 1f0a809..a33364a 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -189,6 +189,29 @@ apop_data * create_factor_list(apop_data *d, int col, char type){
     return factor_list;
 }
 
+/* Is element i of the factor list before (<0), after (>0), or equal to the sought item? */
+static int factor_cmp(apop_data *list, size_t i, char type, double val, char *text){
+    if (type == 't') return strcmp(list->text[i][0], text);
+    double elmt = gsl_vector_get(list->vector, i);
+    return compare_doubles(&elmt, &val);
+}
+
+/* Where in the factor list is this item? The list begins with sorted_ct elements in order,
+   and ends with those added later. Returns elmt_ct if not found. */
+static size_t factor_find(apop_data *list, size_t sorted_ct, size_t elmt_ct, char type, double val, char *text){
+    size_t low = 0, high = sorted_ct;
+    while (low < high){
+        size_t mid = low + (high-low)/2;
+        int c = factor_cmp(list, mid, type, val, text);
+        if (!c) return mid;
+        if (c < 0) low = mid+1;
+        else       high = mid;
+    }
+    for (size_t i=sorted_ct; i< elmt_ct; i++)
+        if (!factor_cmp(list, i, type, val, text)) return i;
+    return elmt_ct;
+}
+
 /* Producing dummies consists of finding the index of element i, for all i, then
  setting (i, index) to one.
  Producing factors consists of finding the index and then setting (i, datacol) to index.
@@ -200,12 +223,14 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
                             apop_data **factor_list){
     if (!(*factor_list=apop_data_get_factor_names(d, col, type)))
         *factor_list = create_factor_list(d, col, type);
-    Get_vmsizes((*factor_list)); //maxsize
-    size_t elmt_ctr = maxsize;
-
-    //copy the strings to a single list-of-strings
-    apop_data *telmts = *(*factor_list)->textsize ? apop_data_transpose(*factor_list, .inplace='n'):NULL;
-    gsl_vector *delmts = (*factor_list)->vector;
+    apop_data *list = *factor_list;
+    size_t elmt_ctr = list->vector->size;
+    //Factors added on an earlier use of the list are not in order.
+    size_t sorted_ct = elmt_ctr ? 1 : 0;
+    while (sorted_ct < elmt_ctr && factor_cmp(list, sorted_ct-1, type,
+                type=='t' ? 0 : gsl_vector_get(list->vector, sorted_ct),
+                type=='t' ? list->text[sorted_ct][0] : NULL) < 0)
+        sorted_ct++;
 
     //Now go through the input vector, and for row i find the posn of the vector's
     //name in the element list created above (j), then change (i,j) in
@@ -216,37 +241,22 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     apop_data *out = (dummyfactor == 'd')
                 ? apop_data_calloc(0, s, (keep_first!='n' ? elmt_ctr : elmt_ctr-1))
                 : d;
-    size_t index;
     for (size_t i=0; i< s; i++){
-        if (type == 'd'){
-            double val = apop_data_get(d, i, col);
-            size_t posn = (size_t)bsearch(&val, delmts->data, elmt_ctr, sizeof(double), compare_doubles);
-            if (posn )
-                index = (posn - (size_t)delmts->data)/sizeof(double);
-            else {
-                index = elmt_ctr++;
-                (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
-                gsl_vector_set((*factor_list)->vector, index, val);
-                out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, elmt_ctr);
-                gsl_vector_set_zero(Apop_cv(out, index));
-            }
-        } else {
-            size_t posn = (size_t)bsearch(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
-            if (posn)
-                index = (posn - (size_t)*telmts->text)/sizeof(char**);
-            else {
-                index = elmt_ctr++;
-                *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
-                apop_text_set(*factor_list, index, 0, d->text[i][col]);
-                (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
-                apop_data_set(*factor_list, index, -1, index);
-
-                telmts = apop_text_alloc(telmts, 1, elmt_ctr);
-                apop_text_set(telmts, 0, index, d->text[i][col]);
-                if (dummyfactor == 'd'){
-                    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
-                    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-                }
+        double val = type == 'd' ? apop_data_get(d, i, col) : 0;
+        char *text = type == 'd' ? NULL : d->text[i][col];
+        size_t index = factor_find(list, sorted_ct, elmt_ctr, type, val, text);
+        if (index == elmt_ctr){ //not on the list yet.
+            elmt_ctr++;
+            list->vector = apop_vector_realloc(list->vector, elmt_ctr);
+            gsl_vector_set(list->vector, index, type == 'd' ? val : index);
+            apop_text_alloc(list, elmt_ctr, 1);
+            if (type == 'd') apop_text_set(list, index, 0, "%g", val);
+            else             apop_text_set(list, index, 0, "%s", text);
+            if (dummyfactor == 'd'){
+                size_t cols = out->matrix ? out->matrix->size2 : 0;
+                if (cols) out->matrix = apop_matrix_realloc(out->matrix, s, cols+1);
+                else      out->matrix = gsl_matrix_alloc(s, 1);
+                gsl_vector_set_zero(Apop_cv(out, cols));
             }
         }
         if (dummyfactor == 'd'){
@@ -261,15 +271,14 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     if (dummyfactor == 'd'){
         char *basename = apop_get_factor_basename(d, col, type);
         for (size_t i = (keep_first!='n') ? 0 : 1; i< elmt_ctr; i++){
-            char n[1000];
-            if (type =='d'){
-                sprintf(n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
-            } else
-                sprintf(n, "%s", telmts->text[0][i]);
+            char *n;
+            if (type =='d') Asprintf(&n, "%s dummy %g", basename, gsl_vector_get(list->vector, i));
+            else            Asprintf(&n, "%s", list->text[i][0]);
             apop_name_add(out->names, n, 'c');
+            free(n);
         }
+        free(basename);
     }
-    apop_data_free(telmts);
     return out;
 }
 
-- 
2.43.0


From 5b9862d06fc7d48273de66ce5c6187c489ee8f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 099/311] fix: dummies: a request for the vector was refused
 when there is one and crashed when there is not

---
 apop_regression.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index a33364a..d76d68a 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -344,12 +344,12 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error(d),
+        Apop_stopif((col == -1) && !d->vector, apop_return_data_error(d),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
-        Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error(d),
+        Apop_stopif((col != -1) && (!d->matrix || col >= d->matrix->size2), apop_return_data_error(d),
                                 0, "You asked for the matrix element %i "
-                                "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
+                                "but the data's matrix element has only %zu columns.", col, d->matrix ? d->matrix->size2 : 0);
     } else Apop_stopif(col >= d->textsize[1], apop_return_data_error(d),
                                 0, "You asked for the text element %i but "
                                     "the data's text element has only %zu elements.", col, d->textsize[1]);
-- 
2.43.0


From a2d04c87fd4dde9129b8369c5d909d10c1552339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 100/311] fix: dummies: in-place insertion used freed column
 names, ignored the request to remove the original and misplaced text dummies;
 removal overran a list sized by the row count

---
 apop_regression.m4.c | 56 ++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index d76d68a..2a5f87a 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -356,31 +356,47 @@ APOP_VAR_ENDHEAD
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    size_t orig_size = d->matrix ? d->matrix->size1 : 0;
-    int rm_list[orig_size+1];
-    memset (rm_list, 0, (orig_size+1)*sizeof(int)); 
-    if (append =='i'){
-        apop_data **split = apop_data_split(d, col+1, 'c');
-        //stack names, then matrices
-        for (int i=0; i < d->names->colct; i++)
-            free(d->names->col[i]);
-        apop_name_stack(d->names, split[0]->names, 'c');
-        for (int k = d->names->colct; k < (split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
-            apop_name_add(d->names, "", 'c'); //pad so the name stacking is aligned (if needed)
-        apop_name_stack(d->names, dummies->names, 'c');
-        apop_name_stack(d->names, split[1]->names, 'c');
+    if (append =='i' && type != 't'){
+        size_t orig_cols = d->matrix ? d->matrix->size2 : 0;
+        size_t dummy_cols = dummies->matrix ? dummies->matrix->size2 : 0;
+        if (d->names->colct || dummies->names->colct)
+            while (d->names->colct < orig_cols) //pad so the names are aligned (if needed)
+                apop_name_add(d->names, "", 'c');
+        apop_name *newnames = apop_name_alloc();
+        for (int k=0; k <= col; k++)
+            apop_name_add(newnames, d->names->col[k], 'c');
+        apop_name_stack(newnames, dummies->names, 'c');
+        for (int k=col+1; k < orig_cols && k < d->names->colct; k++)
+            apop_name_add(newnames, d->names->col[k], 'c');
+        gsl_matrix *m = orig_cols+dummy_cols ? gsl_matrix_alloc(d->matrix ? d->matrix->size1 : dummies->matrix->size1, orig_cols+dummy_cols) : NULL;
+        for (int k=0; k < orig_cols+dummy_cols; k++){
+            apop_data *from = k > col && k <= col+(int)dummy_cols ? dummies : d;
+            int fromcol = from==dummies ? k-(col+1) : k <= col ? k : k-dummy_cols;
+            gsl_matrix_set_col(m, k, Apop_cv(from, fromcol));
+        }
         gsl_matrix_free(d->matrix);
-        d->matrix = apop_matrix_stack(split[0]->matrix, dummies->matrix, 'c');
+        d->matrix = m;
+        int keepct = d->names->colct; //swap in the new column names
+        char **keepcol = d->names->col;
+        d->names->colct = newnames->colct;
+        d->names->col = newnames->col;
+        newnames->colct = keepct;
+        newnames->col = keepcol;
+        apop_name_free(newnames);
         apop_data_free(dummies);
-        apop_data_free(split[0]);
-        apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
-        apop_data_free(split[1]);
-        return d;
     }
     if (remove!='n' && type!='t'){
-        rm_list[col]=1;
-        apop_data_rm_columns(d, rm_list);
+        if (col == -1){
+            gsl_vector_free(d->vector);
+            d->vector = NULL;
+        } else {
+            int rm_list[d->matrix->size2];
+            memset(rm_list, 0, sizeof(rm_list));
+            rm_list[col]=1;
+            apop_data_rm_columns(d, rm_list);
+        }
     }
+    if (append == 'i' && type != 't') return d;
     if (append =='y' || append == 'e' || append ==1 || (append=='i' && type=='t')){
         d = apop_data_stack(d, dummies, 'c', .inplace='y');
         apop_data_free(dummies);
-- 
2.43.0


From 0ca7c937bf0a737a361f57f9ea63509e6e1bdb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 101/311] fix: factors: the allocated output had as many rows
 as the input has columns; numeric input in the vector alone crashed

---
 apop_regression.m4.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 2a5f87a..099d9be 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -363,7 +363,7 @@ APOP_VAR_ENDHEAD
             while (d->names->colct < orig_cols) //pad so the names are aligned (if needed)
                 apop_name_add(d->names, "", 'c');
         apop_name *newnames = apop_name_alloc();
-        for (int k=0; k <= col; k++)
+        for (int k=0; k <= col && k < d->names->colct; k++)
             apop_name_add(newnames, d->names->col[k], 'c');
         apop_name_stack(newnames, dummies->names, 'c');
         for (int k=col+1; k < orig_cols && k < d->names->colct; k++)
@@ -466,10 +466,16 @@ APOP_VAR_ENDHEAD
                 0, "You asked for the matrix column %i but "
                             "the matrix has only %zu elements.", incol, data->matrix->size2);
     }
+    size_t rows = intype=='t' ? data->textsize[0]
+                : incol == -1 ? data->vector->size
+                              : data->matrix->size1;
     if (!data->vector && outcol == -1) //allocate a vector for the user.
-        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size2);
+        data->vector = gsl_vector_alloc(rows);
     if (!data->matrix && outcol >= 0) //allocate a matrxi for the user.
-        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->matrix->size2, outcol+1);
+        data->matrix = gsl_matrix_calloc(rows, outcol+1);
+    Apop_stopif(outcol >= 0 && outcol >= data->matrix->size2, apop_return_data_error(d),
+                0, "You asked me to write to matrix column %i but "
+                   "the matrix has only %zu columns.", outcol, data->matrix->size2);
     apop_data *out;
     dummies_and_factors_core(data, incol, intype, 1, outcol, 'f', &out);
     return out;
-- 
2.43.0


From 9f6cb4a32213d83dc1e5d5b279162998164420ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 102/311] fix: OLS on data with no matrix crashed; a blank name
 for the dependent variable overflowed

---
 model/apop_ols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 1d032b2..4acf023 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -102,6 +102,7 @@ static void ols_shuffle(apop_data *d){
         gsl_vector_set_all(independent, 1);     //affine; first column is ones.
         if (d->names->colct > 0) {		
             apop_name_add(d->names, d->names->col[0], 'v');
+            d->names->col[0] = realloc(d->names->col[0], 2);
             sprintf(d->names->col[0], "1");
         }
     }
@@ -113,7 +114,7 @@ static void ols_prep(apop_data *d, apop_model *m){
     apop_predict_vtable_add(ols_predict, apop_ols);
     apop_model_print_vtable_add(ols_print, apop_ols);
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
-    Apop_stopif(!d || (!d->vector && !d->matrix), m->error='d'; return, 0, "No data for regression.");
+    Apop_stopif(!d || !d->matrix, m->error='d'; return, 0, "No data for regression.");
     ols_shuffle(d);
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
-- 
2.43.0


From 49bf50453f47e679e8ac76722d032153f33f224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 103/311] fix: OLS and IV: parts declined by apop_parts_wanted
 were calculated from uninitialised pages, weighted residuals and sums of
 squares were weighted twice, the residuals and score had the wrong sign, the
 observed column's name, adjusted R^2 off by one, unweighted instruments, and
 leaks

---
 apop_regression.m4.c |  11 ++-
 model/apop_ols.c     | 220 +++++++++++++++++++++----------------------
 2 files changed, 112 insertions(+), 119 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 099d9be..21170b0 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -522,7 +522,7 @@ following entries (in the vector element):
 \li  \f$ SST \equiv \sum (Y_i - \bar Y) ^2 \f$
 \li  \f$ SSE \equiv \sum \epsilon ^2       \f$
 \li  \f$ R^2 \equiv 1 - {SSE\over SST}     \f$
-\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k-1)}(1-R^2)     \f$
+\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k)}(1-R^2)     \f$
 
 Internally allocates (and frees) a vector the size of your data set.
 
@@ -554,10 +554,10 @@ SST, and SSR (and calculate the \f$R^2\f$s using those values).
 apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
   double          sse, sst, rsq, adjustment;
   size_t          indep_ct= m->data->matrix->size2 - 1;
-  apop_data       *out    = apop_data_alloc();
     gsl_vector *weights = m->data->weights; //typically NULL.
     apop_data *expected = apop_data_get_page(m->info, "<Predicted>");
     Apop_stopif(!expected, return NULL, 0, "I couldn't find a \"<Predicted>\" page in your data set. Returning NULL.\n");
+    apop_data *out = apop_data_alloc();
     size_t obs = expected->matrix->size1;
     Apop_col_tv(expected, "residual", v)
     if (!weights)
@@ -569,9 +569,12 @@ apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
         gsl_vector_free(v_times_w);
     }
     gsl_vector *vv = Apop_cv(expected, 0);
-    sst = apop_vector_var(vv, m->data->weights) * (vv->size-1);
+    double mean = apop_vector_mean(vv, weights);
+    sst = 0;
+    for (size_t i=0; i< vv->size; i++)
+        sst += (weights ? gsl_vector_get(weights, i) : 1) * gsl_pow_2(gsl_vector_get(vv, i) - mean);
     rsq = 1. - (sse/sst);
-    adjustment  = ((obs -1.) /(obs - indep_ct)) * (1.-rsq) ;
+    adjustment  = ((obs -1.) /(obs - indep_ct - 1.)) * (1.-rsq) ;
     apop_data_add_named_elmt(out, "R squared", rsq);
     apop_data_add_named_elmt(out, "R squared adj", 1 - adjustment);
     apop_data_add_named_elmt(out, "SSE", sse);
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 4acf023..2ec2c24 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -68,13 +68,27 @@ Apop_settings_init(apop_lm,
        out->input_distribution = apop_model_copy(apop_improper_uniform);
 )
 
+static int wants(char c){ return c=='y' || c=='Y' || c==1; }
+
+static int want_cov(apop_model *m){
+    apop_parts_wanted_settings *pwant = apop_settings_get_group(m, apop_parts_wanted);
+    if (pwant) return wants(pwant->covariance) || wants(pwant->tests); //tests depend on covariance
+    apop_lm_settings *p = apop_settings_get_group(m, apop_lm);
+    return !p || wants(p->want_cov);
+}
+
+static int want_predicted(apop_model *m){
+    apop_parts_wanted_settings *pwant = apop_settings_get_group(m, apop_parts_wanted);
+    if (pwant) return wants(pwant->predicted);
+    apop_lm_settings *p = apop_settings_get_group(m, apop_lm);
+    return !p || wants(p->want_expected_value);
+}
+
 //shift first col to depvar, rename first col "one".
 static void prep_names (apop_model *e){
-    apop_lm_settings *p = apop_settings_get_group(e, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(e, apop_parts_wanted);
     apop_data *predicted = apop_data_get_page(e->info, "<Predicted>");
     if (predicted){
-        apop_name_add(predicted->names, (e->data->names->colct ? e->data->names->col[0] : "Observed"), 'c');
+        apop_name_add(predicted->names, "Observed", 'c');
         apop_name_add(predicted->names, "Predicted", 'c');
         apop_name_add(predicted->names, "Residual", 'c');
     }
@@ -84,12 +98,10 @@ static void prep_names (apop_model *e){
         apop_name_add(e->parameters->names, "parameters", 'v');
         for(int i=0; i< e->data->names->colct; i++)
             apop_name_add(e->parameters->names, e->data->names->col[i], 'r');
-        if ((pwant && pwant->covariance) || (!pwant && p && p->want_cov== 'y')){
-            apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
-            if (cov && e->data->names){
-                apop_name_stack(cov->names, e->data->names, 'c');
-                apop_name_stack(cov->names, e->data->names, 'r', 'c');
-            }
+        apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
+        if (cov && e->data->names){
+            apop_name_stack(cov->names, e->data->names, 'c');
+            apop_name_stack(cov->names, e->data->names, 'r', 'c');
         }
 	}
 }
@@ -157,6 +169,11 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
         }
     }
 
+    //The variance of an observation is sigma^2/weight.
+    if (d->weights)
+        for (size_t i=0; i< errors->size; i++)
+            *gsl_vector_ptr(errors, i) *= sqrt(gsl_vector_get(d->weights, i));
+
     apop_data *err = apop_data_get_page(p->parameters, "<Error variance>");
     sigma = err ? sqrt(apop_data_get(err)) : sqrt(apop_vector_var(errors));
 
@@ -167,8 +184,10 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
                     ? apop_p(justarow, input_distribution) //probably improper uniform, and so just 1 anyway.
                     : 1;
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
-        ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* weight * x_prob);
+        if (!weight) continue;
+        ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* sqrtl(weight) * x_prob);
     }
+    gsl_vector_free(errors);
     return ll;
 }
 
@@ -179,8 +198,6 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
   double expected;
   gsl_matrix *data	= d->matrix;
   gsl_vector *errors = gsl_vector_alloc(data->size1);
-  gsl_vector *normscore = gsl_vector_alloc(2);
-  apop_data  *subdata  = apop_data_alloc(1,1);
 	for(size_t i=0;i< data->size1; i++){
         gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
         if (d->vector){ //then this has been prepped
@@ -189,34 +206,30 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
             actual       = gsl_matrix_get(data,i, 0);
             expected    +=  gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
         }
-        gsl_vector_set(errors, i, expected-actual);
+        weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
+        gsl_vector_set(errors, i, (expected-actual)*sqrtl(weight));
     }
-    sigma   = sqrt(apop_vector_var(errors));
-    apop_model *norm = apop_model_set_parameters(apop_normal, 0.0, sigma);
+    apop_data *err = apop_data_get_page(p->parameters, "<Error variance>"); //as in the log likelihood.
+    sigma = err ? sqrt(apop_data_get(err)) : sqrt(apop_vector_var(errors));
     gsl_vector_set_all(gradient, 0);
 	for(size_t i=0;i< data->size1; i++){
-        apop_data_set(subdata, 0, 0, gsl_vector_get(errors, i));
-        apop_score(subdata, normscore, norm);
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
         for(size_t j=0; j< data->size2; j++)
-            *gsl_vector_ptr(gradient, j) += weight * apop_data_get(d, i, j) * gsl_vector_get(normscore, 0);
+            *gsl_vector_ptr(gradient, j) -= sqrtl(weight) * gsl_vector_get(errors, i)
+                            * ((j==0 && !d->vector) ? 1 : apop_data_get(d, i, j)) / gsl_pow_2(sigma);
 	} 
     gsl_vector_free(errors);
-    apop_model_free(norm);
 }
 
 //xpx may be destroyed by the HH transformation.
-static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
-    apop_lm_settings   *p =  apop_settings_get_group(out, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(out, apop_parts_wanted);
-	if ( (pwant && pwant->covariance!='y' && pwant->predicted != 'y') 
-       ||(!pwant && p && p->want_cov!='y' && p->want_expected_value != 'y')){	
+//The data are weighted as needed; observed is the same data before weighting.
+static void xpxinvxpy(apop_data const*data, apop_data const*observed, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
+	if (!want_cov(out) && !want_predicted(out)){
 		//then don't calculate (X'X)^{-1}
 		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
 		return;
 	} //else:
     double s_sq;
-    gsl_vector const *y_data = data->vector; //just an alias
     apop_data *cov = apop_data_alloc();
     double det = apop_det_and_inv(xpx, &cov->matrix, 1, 1);// not yet cov, just (X'X)^-1.
     if (det < 1e-4) Apop_notify(1, "Determinant of X'X is small (%g), so matrix is near singular. "
@@ -224,22 +237,24 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     apop_data_free(out->parameters);
     out->parameters = apop_dot(cov, xpy);               // \beta=(X'X)^{-1}X'Y
     apop_data *error = apop_dot(data, out->parameters); // X\beta ==predicted (not yet error)
-	gsl_vector_sub(error->vector, y_data);              // X'\beta - Y == error
+	gsl_vector_sub(error->vector, data->vector);        // X'\beta - Y == error
     gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
-	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
+    apop_data_free(error);
+	if (want_predicted(out)){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
-        gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
-        gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
-        gsl_vector *predicted = Apop_cv(predicted_page, 1);
-        gsl_vector_memcpy(predicted, y_data);
-        gsl_vector_add(predicted, error->vector); //pred = y_data + error
+        apop_data *predicted = apop_dot(observed, out->parameters);
+        gsl_matrix_set_col(predicted_page->matrix, 0, observed->vector);
+        gsl_matrix_set_col(predicted_page->matrix, 1, predicted->vector);
+        gsl_matrix_set_col(predicted_page->matrix, 2, observed->vector);
+        gsl_vector_sub(Apop_cv(predicted_page, 2), predicted->vector); //residual = observed - predicted
+        apop_data_free(predicted);
     }
-    apop_data_free(error);
     if (apop_data_get_page(out->parameters, "<Covariance>"))
         apop_data_rm_page(out->parameters, "<Covariance>");
-    apop_data_add_page(out->parameters, cov, "<Covariance>");
+    if (want_cov(out)) apop_data_add_page(out->parameters, cov, "<Covariance>");
+    else               apop_data_free(cov);
     apop_data_add_page(out->parameters, apop_data_falloc((1), s_sq), "<Error variance>");
 }
 
@@ -289,6 +304,18 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     return 0;
 }
 
+/* If there are weights, return a copy of the data with each row multiplied by the root
+of its weight, else the data itself. */
+static apop_data *weighted_copy(apop_data *in){
+    if (!in->weights) return in;
+    apop_data *out = apop_data_copy(in);
+    for (size_t i=0; i< out->weights->size; i++)
+        gsl_vector_set(out->weights, i, sqrt(gsl_vector_get(out->weights, i)));
+    for (int i = -1; i < (int)out->matrix->size2; i++)
+        gsl_vector_mul(Apop_cv(out, i), out->weights);
+    return out;
+}
+
 /* \adoc estimated_data You can specify whether the data is modified with an \ref apop_lm_settings group. Else, left unchanged.
 
 \adoc estimated_info Reports log likelihood, and runs \ref apop_estimate_coefficient_of_determination 
@@ -308,49 +335,36 @@ Given your estimate \c est, the zeroth element is one of <br>
 static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     Apop_stopif(ep->error, return, 0, "Not estimating the model due to a previous error");
-    apop_data *set;
     apop_lm_settings *olp =  apop_settings_get_group(ep, apop_lm);
     apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) 
         olp = Apop_model_add_group(ep, apop_lm);
     ep->data = inset;
-    set = olp->destroy_data ? inset : apop_data_copy(inset); 
-    
-    gsl_vector *weights = olp->destroy_data      //this may be NULL.
-                           ? ep->data->weights 
-                           : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (size_t i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
-
-    if ((pwant &&pwant->predicted) || (!pwant && olp && olp->want_expected_value=='y'))
+    //Weighting is done on a copy, because the residuals are from the data as given.
+    apop_data *set = weighted_copy(inset);
+    int predicted = want_predicted(ep);
+    if (predicted)
         apop_data_add_page(ep->info, apop_data_alloc(0, set->matrix->size1, 3), "<Predicted>");
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
-        apop_data_add_page(ep->parameters, apop_data_alloc(0, set->matrix->size2, set->matrix->size2), "<Covariance>");
-    if (weights)
-        for (int i = -1; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
 
     apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
     apop_data *xpy_d = apop_dot(set, set, .form1='t', .form2='v'); //(X'y)
-    xpxinvxpy(set, xpx_d->matrix, xpy_d, ep);
+    xpxinvxpy(set, inset, xpx_d->matrix, xpy_d, ep);
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
 
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
+    if (pwant ? wants(pwant->tests) : want_cov(ep))
         apop_estimate_parameter_tests(ep);
 
-    add_info_criteria(ep->data, ep, ep, apop_log_likelihood(ep->data, ep), set->matrix->size2); //in apop_mle.c
-
-    apop_data *r_sq = apop_estimate_coefficient_of_determination(ep); //Add R^2-type info to info page.
-    apop_data_stack(ep->info, r_sq, .inplace='y');
-
-    apop_data_free(r_sq);
-    if (!olp->destroy_data){
-        if (weights) gsl_vector_free(weights);
-        apop_data_free(set);
+    if (!pwant || wants(pwant->info)){
+        add_info_criteria(ep->data, ep, ep, apop_log_likelihood(ep->data, ep), set->matrix->size2); //in apop_mle.c
+        if (predicted){
+            apop_data *r_sq = apop_estimate_coefficient_of_determination(ep); //Add R^2-type info to info page.
+            apop_data_stack(ep->info, r_sq, .inplace='y');
+            apop_data_free(r_sq);
+        }
     }
+    if (set != inset) apop_data_free(set);
 }
 
 /* \adoc predict This function is limited to taking in a data set with a matrix, and
@@ -448,74 +462,50 @@ static apop_data *prep_z(apop_data *x, apop_data *instruments){
 static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     apop_lm_settings   *olp =  apop_settings_get_group(ep, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) olp = Apop_model_add_group(ep, apop_lm);
-    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)) 
+    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)){
         apop_ols->estimate(inset, ep);
+        return;
+    }
     ep->data = inset;
     if (ep->parameters) apop_data_free(ep->parameters);
     ep->parameters = apop_data_alloc(inset->matrix->size2);
-    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
-    apop_data *z = prep_z(inset, olp->instruments);
-    
-    gsl_vector *weights = olp->destroy_data      //the weights may be NULL.
-                             ? ep->data->weights 
-                             : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (int i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
-
-    if ((pwant && pwant->predicted) || (!pwant && olp && olp->want_expected_value))
+    apop_data *set = weighted_copy(inset);
+    apop_data *z_in = prep_z(inset, olp->instruments);
+    apop_data *z = weighted_copy(z_in);
+
+    if (want_predicted(ep))
         apop_data_add_page(ep->info, apop_data_alloc(set->matrix->size1, 3), "<Predicted>");
-    prep_names(ep);
-    if (weights){
-        gsl_vector_mul(set->vector, weights);
-        for (int i = 0; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
-    }
 
     apop_data *zpx = apop_dot(z, set, .form1='t');
     apop_data *zpy = apop_dot(z, set, .form1='t', .form2='v'); //z'y
+    apop_data zpxinv = (apop_data) {.matrix= want_cov(ep) ? apop_matrix_inverse(zpx->matrix) : NULL};
 
-    xpxinvxpy(inset, zpx->matrix, zpy, ep);
-
-    //covariance matrix right now is sigma (Z'X)^-1. We need
-    //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
+    xpxinvxpy(set, inset, zpx->matrix, zpy, ep);
 
-    apop_data *zpz = apop_dot(z, z, .form1='t');
-    apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
-    apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
-    apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
-    apop_data *cov = apop_dot(halfcov, zpz_xpzinv);
-    apop_data_rm_page(ep->parameters, "<Covariance>");
-    apop_data_add_page(ep->parameters, cov, "<Covariance>");
-
-    gsl_matrix_free(zpxinv.matrix);
-    apop_data_free(zpx);
-    apop_data_free(zpy);
-    apop_data_free(zpz);
-
-
-/*
-    apop_data *zpxinv = apop_matrix_to_data(apop_matrix_inverse(zpx->matrix));
-    ep->parameters = apop_dot(zpxinv, zpy);
-    //cov = sigma^2 (Z'X)^-1 Z'Z (X'Z)^-1
-    */
-
-    /*
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y')){
+    if (want_cov(ep)){
+        //covariance matrix right now is sigma (Z'X)^-1. We need
+        //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
         apop_data *zpz = apop_dot(z, z, .form1='t');
-        apop_data *zpz_zpxinv = apop_dot(zpz, zpxinv, .form2='t');
-        apop_data_add_page(ep->parameters, apop_dot(zpx, zpz_zpxinv)
-                , "<Covariance>");
-        apop_data_free(zpz); apop_data_free(zpz_zpxinv);
+        apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
+        apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
+        apop_data *cov = apop_data_alloc();
+        apop_data *covdata = apop_dot(halfcov, zpz_xpzinv);
+        cov->matrix = covdata->matrix; //but use none of the names
+        covdata->matrix = NULL;
+        apop_data_free(covdata);
+        apop_data_rm_page(ep->parameters, "<Covariance>");
+        apop_data_add_page(ep->parameters, cov, "<Covariance>");
+        gsl_matrix_free(zpxinv.matrix);
+        apop_data_free(zpz);
+        apop_data_free(zpz_xpzinv);
     }
-    */
-
-    apop_data_free(zpx);// apop_data_free(zpxinv);
+    prep_names(ep);
+    apop_data_free(zpx);
     apop_data_free(zpy);
-
-    if (!olp->destroy_data) apop_data_free(set);
+    if (z != z_in) apop_data_free(z);
+    apop_data_free(z_in);
+    if (set != inset) apop_data_free(set);
 }
 
 apop_model *apop_iv = &(apop_model){.name="instrumental variables", .vsize = -1, .dsize=-1,
-- 
2.43.0


From bfe29307d020a650c3d44d41ef8339c560d74c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 104/311] fix: the logit log likelihood misread outcomes whose
 original values are not zero, one, two, ...

---
 model/apop_probit.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 8cddb54..184f768 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -203,16 +203,12 @@ static void logit_prep(apop_data *d, apop_model *m){
     apop_predict_vtable_add(multilogit_expected, apop_logit);
 }
 
-static size_t find_index(double in, double *m, size_t max){
-    size_t i = 0;
-    while (in !=m[i] && i<max) i++;
-    return i;
-}
-
-double one_logit_row(apop_data *thisobservation, void *factor_list){
+double one_logit_row(apop_data *thisobservation){
     //get the $x\beta_j$ numerator for the appropriate choice:
-    size_t index   = find_index(gsl_vector_get(thisobservation->vector, 0), 
-                                factor_list, thisobservation->matrix->size2);
+    //The outcome has been turned into a factor, so its value is the number of the choice.
+    size_t index   = gsl_vector_get(thisobservation->vector, 0);
+    Apop_stopif(index > thisobservation->matrix->size2, return -INFINITY, 0,
+            "Outcome %zu is not among the %zu options", index, thisobservation->matrix->size2+1);
     Apop_row_v(thisobservation, 0, thisrow);
     double num = (index==0) ? 0 : gsl_vector_get(thisrow, index-1);
 
@@ -233,9 +229,8 @@ static long double multilogit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck(d->matrix, GSL_NAN)
     //Find X\beta_i for each row of X and each column of \beta.
     apop_data  *xbeta = apop_dot(d, p->parameters);
-    double* factor_list = get_category_table(p->data)->vector->data;
     xbeta->vector = d->vector; //we'll need this in one_logit_row
-    long double ll = apop_map_sum(xbeta, .fn_rp = one_logit_row, .param=factor_list);
+    long double ll = apop_map_sum(xbeta, .fn_r = one_logit_row);
     xbeta->vector = NULL;
     apop_data_free(xbeta);
 	return ll;
-- 
2.43.0


From b4e670c77eb1706549b25d2c1f58f98fbe53916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 105/311] fix: the multinomial probit used the second column of
 parameters for every option, and the wrong option for each

---
 model/apop_probit.c | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 184f768..ef51ba1 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -97,40 +97,35 @@ static long double biprobit_log_likelihood(apop_data *d, apop_model *p){
 	return total_prob;
 }
 
-static threadlocal double val;
-static double unordered(double in){ return in == val; }
+static double is_option(double in, void *option){ return in == *(int*)option; }
 
-// This is just a for loop that runs a probit on each column.
+// This is just a for loop that runs a probit on each column. Option zero is the numeraire,
+// so the first column of parameters is for option one.
 static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN)
-    gsl_vector *val_vector = get_category_table(d)->vector;
-    if (val_vector->size==2) return biprobit_log_likelihood(d, p);
+    int options = p->parameters->matrix->size2;
+    if (options==1) return biprobit_log_likelihood(d, p);
     //else, multinomial loop
-    static threadlocal apop_model *spare_probit = NULL;
-    if (!spare_probit){
-        spare_probit = apop_model_copy(apop_probit);
-        spare_probit->parameters = apop_data_alloc();
-    }
-    Staticdef(apop_data *, working_data, apop_data_alloc());
-    working_data->matrix = d->matrix;
-    gsl_vector *original_outcome = d->vector;
-    double ll = 0;
-    double *vals = val_vector->data;
-    for(size_t i=0; i < p->parameters->matrix->size2; i++){
-        val = vals[i];
-        working_data->vector = apop_vector_map(original_outcome, unordered);
-        spare_probit->parameters->matrix = apop_vector_to_matrix(Apop_cv(p->parameters, 1));
-        ll  += apop_log_likelihood(working_data, spare_probit);
-        gsl_vector_free(working_data->vector); //yup. It's inefficient.
-        gsl_matrix_free(spare_probit->parameters->matrix);
+    long double ll = 0;
+    apop_data outcome = {.vector=d->vector};
+    apop_data working_data = {.matrix=d->matrix};
+    apop_data working_params = { };
+    apop_model spare_probit = {.parameters = &working_params};
+    for (int i=0; i < options; i++){
+        int option = i+1;
+        apop_data *is = apop_map(&outcome, .fn_dp=is_option, .param=&option, .part='v');
+        working_data.vector = is->vector;
+        working_params.matrix = apop_vector_to_matrix(Apop_cv(p->parameters, i));
+        ll += biprobit_log_likelihood(&working_data, &spare_probit);
+        gsl_matrix_free(working_params.matrix);
+        apop_data_free(is);
     }
 	return ll;
 }
 
 static void probit_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model *p){
     Nullcheck_mp(p, )
-    gsl_vector *val_vector = get_category_table(p->data)->vector;
-    if (val_vector->size!=2){
+    if (p->parameters->matrix->size2!=1){
         gsl_vector * numeric_default = apop_numerical_gradient(d, p);
         gsl_vector_memcpy(gradient, numeric_default);
         gsl_vector_free(numeric_default);
-- 
2.43.0


From a5b6b181ef1fc4d7e956bcd070d64dead2842246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 106/311] fix: preparing a probit or logit leaked a parameter
 set

---
 model/apop_probit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index ef51ba1..571f0c1 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -46,6 +46,7 @@ static void probit_prep(apop_data *d, apop_model *m){
     //apop_score_vtable_add(logit_dlog_likelihood, apop_logit);
     apop_ols->prep(d, m);//also runs the default apop_model_clear.
     int count = factor_list->textsize[0];
+    apop_data_free(m->parameters);
     m->parameters = apop_data_alloc(d->matrix->size2, count-1);
     apop_name_stack(m->parameters->names, d->names, 'r', 'c');
     for (int i=1; i< count; i++) 
-- 
2.43.0


From eb7fbf8f81520923982c6a93de580719ad910a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:09 +0000
Subject: [PATCH 107/311] fix: maximum likelihood estimation: used freed memory
 for the AIC, reported a positive log likelihood of a point other than the
 estimate, left parameters perturbed after a numerical gradient, Newton's
 methods never reported success, leaks

---
 apop_mle.m4.c | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7377bfb..4078f9c 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -26,7 +26,6 @@ typedef struct {
     grad_params *gp; //Used only by apop_internal_numerical_gradient.
     gsl_vector  *beta, *starting_pt;
     int         use_constraint;
-    double      best_ll;
     char        want_cov, want_predicted, want_tests, want_info;
     jmp_buf     bad_eval_jump;
     apop_data** path;
@@ -104,7 +103,9 @@ static void apop_internal_numerical_gradient(apop_fn_with_params ll,
 		gsl_deriv_central(&F, gsl_vector_get(beta,j), delta, &result, &err);
 		gsl_vector_set(out, j, result);
 	}
+    apop_data_unpack(beta, info->model->parameters);
     gsl_vector_free(beta);
+    gsl_vector_free(i.gp->beta);
 }
 
 /**
@@ -198,7 +199,7 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(model->parameters) //tsize
     size_t betasize  = tsize;
     apop_data *out = apop_data_calloc(0, betasize, betasize);
-    gsl_vector *dscore = gsl_vector_alloc(betasize);
+    gsl_vector *dscore;
     apop_model_for_infomatrix_struct ms = { .base_model = model, .current_index = &k, };
     apop_model *m = apop_model_copy(apop_model_for_infomatrix);
     m->parameters = model->parameters;
@@ -215,6 +216,9 @@ APOP_VAR_ENDHEAD
         }
         gsl_vector_free(dscore);
     }
+    m->parameters = NULL; //it's the input model's.
+    m->more = NULL;
+    apop_model_free(m);
     if (model->parameters->names->row){
         apop_name_stack(out->names, model->parameters->names, 'r');
         apop_name_stack(out->names, model->parameters->names, 'c', 'r');
@@ -251,8 +255,10 @@ APOP_VAR_ENDHEAD
         printf("The estimated Hessian:\n");
         apop_data_show(hessian);
     }
+    gsl_matrix *inverse = apop_matrix_inverse(hessian->matrix);
+    Apop_stopif(!inverse, apop_data_free(hessian); return NULL, 0, "Trouble inverting the Hessian. Returning NULL.");
     apop_data *out = apop_data_alloc();
-    out->matrix = apop_matrix_inverse(hessian->matrix);
+    out->matrix = inverse;
     gsl_matrix_scale(out->matrix, -1);
     if (hessian->names->row){
         apop_name_stack(out->names, hessian->names, 'r');
@@ -312,8 +318,7 @@ static double negshell (const gsl_vector *beta, void * in){
                     !i->model->constraint ? " Maybe add a constraint to your model?" : "");
     if (i->path) tracepath(i->model->parameters->vector, -out, i->path);
     if (i->want_info =='y'){
-        //I report the log likelihood under the assumption that the final param set 
-        //matches the best ll evaluated.
+        //Check that this will be reportable on the log scale.
         long double this_ll = i->model->log_likelihood? -out : log(-out); //negative negative llikelihood.
 
         if(gsl_isnan(this_ll)){
@@ -324,7 +329,6 @@ static double negshell (const gsl_vector *beta, void * in){
             Apop_stopif(1, apop_data_show(i->model->parameters); i->want_info='n',
                         1, "NaN resulted from the following value tried by the maximum likelihood system.");
         }
-        i->best_ll = GSL_MAX(i->best_ll, this_ll);
     }
     return out;
 }
@@ -376,7 +380,7 @@ static int setup_starting_point(apop_mle_settings *mp, gsl_vector *x){
 }
 
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct){
-    //Did the sending function save last value of f()?
+    //Did the sending function save the value of f() at the estimate?
     if (!ll) ll = apop_log_likelihood(d, m);
 
     if (!est->info) est->info = apop_data_alloc();
@@ -394,6 +398,7 @@ void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll,
 
 static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     apop_model *est = i->model; //just an alias.
+    int param_ct = i->beta->size;
     /* This catches too many near-misses
        if(est->constraint)
         apop_assert(!est->constraint(i->data, est), "the maximum likelihood search ended "
@@ -405,7 +410,7 @@ static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     }
     if (!est->info) est->info = apop_data_alloc();
     apop_data_add_named_elmt(est->info, "status", status);
-    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, ll, i->beta->size);
+    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, ll, param_ct);
 }
 
 static void apop_maximum_likelihood_w_d(apop_data * data, infostruct *i){
@@ -467,8 +472,7 @@ Inside the infostruct, you'll find these elements:
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-    gsl_vector_free(i->beta);
-    auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    auxinfo(est->parameters, i, apopstatus, 0);
 }
 
 /* See apop_maximum_likelihood_w_d for notes. */
@@ -523,7 +527,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     if (status == GSL_SUCCESS) apopstatus = 0;
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fminimizer_free(s);
-    auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    gsl_vector_free(ss);
+    auxinfo(est->parameters, i, apopstatus, 0);
 }
 
 /*There is a basically standard location for the log likelihood. Search there, and if you don't
@@ -648,7 +653,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
                        .model          = dist};
     get_desires(dist, &info);
     info.beta = apop_data_pack(dist->parameters);
-    if (setup_starting_point(mp, info.beta)) return;
+    if (setup_starting_point(mp, info.beta)) return; //info.beta is NULL, so no freeing.
     info.model->data = data;
     if (mp->dim_cycle_tolerance)            dim_cycle(data, dist, info);
     else if (!strcasecmp(mp->method, "annealing"))   apop_annealing(&info);  //below.
@@ -657,6 +662,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
             !strcasecmp(mp->method, "Newton hybrid")||
             !strcasecmp(mp->method, "Newton hybrid no scale")) find_roots (info);
     else   /* Conjugate Gradient*/   apop_maximum_likelihood_w_d(data, &info);
+    gsl_vector_free(info.beta);
 }
 
 /** Maximum likelihod searches are not guaranteed to find a global optimum, and it can be
@@ -765,7 +771,10 @@ static double annealing_distance(void *xin, void *yin) {
     gsl_vector *to = apop_vector_copy(((infostruct*)yin)->beta);
     gsl_vector_div(from, ((infostruct*)xin)->starting_pt);
     gsl_vector_div(to, ((infostruct*)xin)->starting_pt);//starting pts are the same.
-    return apop_vector_distance(from, to, .metric='m');
+    double out = apop_vector_distance(from, to, .metric='m');
+    gsl_vector_free(from);
+    gsl_vector_free(to);
+    return out;
 }
 
 static void annealing_check_constraint(infostruct *i){
@@ -808,13 +817,16 @@ static void annealing_print2(void *xp) { return; }
 static void annealing_memcpy(void *xp, void *yp){
     infostruct *yi = yp;
     infostruct *xi = xp;
+    gsl_vector *ybeta = yi->beta; //both sides always have a vector of the same size.
     *yi = *xi;
-    yi->beta = apop_vector_copy(xi->beta);
+    yi->beta = ybeta;
+    gsl_vector_memcpy(yi->beta, xi->beta);
 }
 
 static void *annealing_copy(void *xp){
     infostruct *out = malloc(sizeof(infostruct));
-    annealing_memcpy(xp, out);
+    *out = *(infostruct*)xp;
+    out->beta = apop_vector_copy(((infostruct*)xp)->beta);
     return out;
 }
 
@@ -873,11 +885,11 @@ static void apop_annealing(infostruct *i){
     }
     signal(SIGINT, NULL);
     apop_data_unpack(i->beta, i->model->parameters); 
-    apop_estimate_parameter_tests(i->model);
     apopstatus = 0;
 done:
     if (mp->rng) r = NULL;
-    auxinfo(i->model->parameters, i, apopstatus, i->best_ll);
+    auxinfo(i->model->parameters, i, apopstatus, 0);
+    gsl_vector_free(i->starting_pt);
 }
 
 /* This function calls the various GSL root-finding algorithms to find the zero of the score.
@@ -906,11 +918,10 @@ static apop_model * find_roots (infostruct p) {
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
-    if (GSL_SUCCESS) apopstatus = 0;
+    if (status == GSL_SUCCESS) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-    gsl_vector_free (p.beta);
     auxinfo(dist->parameters, &p, apopstatus, 0); //root-finders don't store best val.
     return dist;
 }
-- 
2.43.0


From 90bf2bd6fe27aae9722cf17c5eaca1763f6a4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 108/311] fix: the t statistics divided the sample variance,
 already over n-1, by n-1 instead of n

---
 apop_tests.m4.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 68e01b9..a7f668e 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -59,8 +59,7 @@ apop_data *	apop_t_test(gsl_vector *a, gsl_vector *b){
            b_avg = apop_vector_mean(b),
     b_var = b_count > 1 ? apop_vector_var(b): 0,
     stat = (a_avg - b_avg)/ sqrt(
-                        (b_count > 1 ? b_var/(b_count-1) : 0) 
-                        + (a_count > 1 ? a_var/(a_count-1) : 0) 
+                        b_var/b_count + a_var/a_count
                         );
     if (apop_opts.verbose >=1){
         printf("1st avg: %g; 1st std dev: %g; 1st count: %i.\n", a_avg, sqrt(a_var), a_count);
@@ -95,7 +94,7 @@ apop_data * apop_paired_t_test(gsl_vector *a, gsl_vector *b){
     int count = a->size; 
     double avg = apop_vector_mean(diff),
     var = apop_vector_var(diff),
-    stat = avg/ sqrt(var/(count-1));
+    stat = avg/ sqrt(var/count);
     gsl_vector_free(diff);
     Apop_notify(2, "avg diff: %g; diff std dev: %g; count: %i; t-statistic: %g.\n", avg, sqrt(var), count, stat);
     return produce_t_test_output(count-1, stat, avg);
-- 
2.43.0


From 08a11406f8540bdcd832a80109b3d32ce42d8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 109/311] fix: apop_f_test was wrong for any hypothesis about
 the constant or with no constant column, left a freed pointer in the contrast
 set, and leaked

---
 apop_tests.m4.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index a7f668e..b687383 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -143,6 +143,7 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
     if (!contrast) contrast = apop_data_alloc(), free_data=1;
     if (!contrast->matrix) {
         int size = est->parameters->vector->size;
+        free_matrix=1;
         contrast->matrix= gsl_matrix_calloc(size - 1, size);
         for (int i=1; i< size; i++)
             apop_data_set(contrast, i-1, i, 1);
@@ -151,8 +152,8 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
 
     apop_data *out = apop_f_test_base(est, contrast);
     if (free_data) {apop_data_free(contrast); return out;}
-    if (free_matrix) gsl_matrix_free(contrast->matrix);
-    if (free_vector) gsl_vector_free(contrast->vector);
+    if (free_matrix) {gsl_matrix_free(contrast->matrix); contrast->matrix = NULL;}
+    if (free_vector) {gsl_vector_free(contrast->vector); contrast->vector = NULL;}
     return out;
 APOP_VAR_ENDHEAD
     apop_data *out = apop_data_alloc();
@@ -167,19 +168,15 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(est->data); //msize1, msize2
     int data_df = msize1 - contrast_ct;
 
-    //Find (\underbar x)'(\underbar x), where (\underbar x) = the data with means removed
-    long double means[msize2];
-    for (int i=1; i< msize2; i++)
-        means[i] = apop_vector_mean(Apop_cv(est->data, i));
-    means[0]=0;// don't screw with the ones column.
+    //Find X'X
     apop_data *xpx = apop_data_alloc(msize2, msize2);
     Apop_stopif(xpx->error, apop_data_free(xpx); out->error='a'; return out, 0, "allocation error");
     for (int i=0; i< msize2; i++)
         for (int j=0; j< msize2; j++){ //at this loop, we calculate one cell in the dot prouct
             long double total = 0;
             for (int c=0; c<msize1; c++)
-                total +=  (gsl_matrix_get(est->data->matrix, c, i) - means[i])
-                         *(gsl_matrix_get(est->data->matrix, c, j) - means[j]);
+                total +=  gsl_matrix_get(est->data->matrix, c, i)
+                         *gsl_matrix_get(est->data->matrix, c, j);
             apop_data_set(xpx, i, j, total);
         }
 
@@ -204,6 +201,9 @@ APOP_VAR_ENDHEAD
 
     apop_data *r_sq_list = apop_estimate_coefficient_of_determination (est);
     double variance = apop_data_get(r_sq_list, .rowname="sse");
+    apop_data_free(r_sq_list);
+    gsl_matrix_free(xpxinv.matrix);
+    gsl_matrix_free(qprimexpxinvqinv.matrix);
     f_stat *=  data_df / (variance * contrast_ct);
     pval    = (contrast_ct > 0 && data_df > 0) ? gsl_cdf_fdist_Q(f_stat, contrast_ct, data_df): GSL_NAN; 
 
-- 
2.43.0


From d2e57ba4f61d5f362f1088accbbba54f5aaa4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 110/311] fix: apop_test_anova_independence truncated the
 table's total to an integer, and for one row or column always gave zero

---
 apop_tests.m4.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index b687383..dfe7452 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -215,11 +215,13 @@ APOP_VAR_ENDHEAD
     return out;
 }
 
-static double one_chi_sq(apop_data *d, int row, int col, int n){
+static double one_chi_sq(apop_data *d, int row, int col, double n){
     double rowexp  = apop_vector_sum(Apop_rv(d, row))/n;
     double colexp  = apop_vector_sum(Apop_cv(d, col))/n;
     double observed = apop_data_get(d, row, col);
     double expected = n * rowexp * colexp;
+    if (d->matrix->size1==1 || d->matrix->size2==1) //one dimension: all cells are equally likely.
+        expected = n/(d->matrix->size1 * d->matrix->size2);
     return gsl_pow_2(observed - expected)/expected; 
 }
 
@@ -235,10 +237,10 @@ apop_data * apop_test_anova_independence(apop_data *d){
     Apop_stopif(!d || !d->matrix, return NULL, 0, "You sent me data with no matrix element. Returning NULL.");
     double total = 0;
     //You can have a one-column or one-row matrix if you want; else df = (rows-1)*(cols-1)
-    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
+    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1-1 
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
-    int n = apop_matrix_sum(d->matrix);
+    double n = apop_matrix_sum(d->matrix);
     for (size_t row=0; row <d->matrix->size1; row++)
         for (size_t col=0; col <d->matrix->size2; col++)
             total += one_chi_sq(d, row, col, n);
-- 
2.43.0


From 553e27184bfd9d8968d0a01bfa298621f90f2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 111/311] fix: apop_anova: the group sum of squares used the
 variance of the first group alone, degrees of freedom were off by one, the
 interaction included the main effects, and the p value was one minus the p
 value

---
 apop_tests.m4.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index dfe7452..24d282a 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -268,32 +268,36 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_name_add(out->names, "total", 'r');
  
     //total sum of squares:
-    apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error(q), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
+    apop_data* tss = apop_query_to_data("select var_pop(%s), count(%s), avg(%s) from %s", data, data, data, table);
+    Apop_stopif(!tss || tss->error, apop_data_free(tss); apop_data_free(out); apop_return_data_error(q), 0, "Query 'select var_pop(%s), count(%s), avg(%s) from %s' returned NULL. Does that look right to you?", data, data, data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
-    double total_df = apop_data_get(tss, 0, 1);
-    apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
-
-    //within group sum of squares:
-    apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
-    double group_df = wss->matrix->size1-1;
-    apop_data_set(out, 0, 0, apop_data_get(wss, 0, 0)*group_df); //within sum of squares
+    double total_df = apop_data_get(tss, 0, 1) - 1;
+    apop_data_set(out, 2, 1, total_df); //total df.
+
+    //sum of squares of the group means around the grand mean:
+    apop_data* gss = apop_query_to_data("select avg(%s), count(%s) from %s group by %s having count(%s)>0", data, data, table, grouping, data);
+    Apop_stopif(!gss || gss->error, apop_data_free(tss); apop_data_free(gss); apop_data_free(out); apop_return_data_error(q), 0, "Trouble grouping %s by %s.", table, grouping);
+    double group_df = gss->matrix->size1-1;
+    long double group_ss = 0;
+    for (int i=0; i< gss->matrix->size1; i++)
+        group_ss += apop_data_get(gss, i, 1) * gsl_pow_2(apop_data_get(gss, i, 0) - apop_data_get(tss, 0, 2));
+    apop_data_set(out, 0, 0, group_ss);
     apop_data_set(out, 0, 1, group_df);
 
-    //residuals are just total-wss
+    //residuals are just total-group
     apop_data_set(out, 1, 0, apop_data_get(out, 2, 0) - apop_data_get(out, 0,0)); //residual sum of squares
     double residual_df = total_df - group_df;
     apop_data_set(out, 1, 1, residual_df); //residual df
 
-    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS within
+    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS for the groups
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), group_df, residual_df));//pval
+    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), group_df, residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_free(tss);
-    apop_data_free(wss);
+    apop_data_free(gss);
     return out;
 }
 
@@ -314,7 +318,7 @@ APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, ch
     char *apop_varad_var(data, NULL)
     Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
     char *apop_varad_var(grouping1, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
+    Apop_stopif(!grouping1, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
     char *apop_varad_var(grouping2, NULL)
 APOP_VAR_ENDHEAD
     apop_data *first = apop_anova_one_way(table, data, grouping1);
@@ -331,6 +335,10 @@ APOP_VAR_ENDHEAD
     gsl_vector *firstrow = Apop_rv(first, 0);
     gsl_vector *secondrow = Apop_rv(second, 0);
     gsl_vector *interrow = Apop_rv(interaction, 0);
+    //the joint grouping also includes the main effects.
+    *gsl_vector_ptr(interrow, 0) -= gsl_vector_get(firstrow, 0) + gsl_vector_get(secondrow, 0);
+    *gsl_vector_ptr(interrow, 1) -= gsl_vector_get(firstrow, 1) + gsl_vector_get(secondrow, 1);
+    gsl_vector_set(interrow, 2, gsl_vector_get(interrow, 0)/gsl_vector_get(interrow, 1));
     gsl_matrix_set_row(out->matrix, 0, firstrow);
     gsl_matrix_set_row(out->matrix, 1, secondrow);
     gsl_matrix_set_row(out->matrix, 2, interrow);
@@ -346,15 +354,15 @@ APOP_VAR_ENDHEAD
     apop_data_set(out, 3, 2, apop_data_get(out, 3, 0)/apop_data_get(out, 3, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
+    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_set(out, 1, 3, apop_data_get(out, 1, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 1, 4, gsl_cdf_fdist_P(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
+    apop_data_set(out, 1, 4, gsl_cdf_fdist_Q(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
     apop_data_set(out, 1, 5, 1- apop_data_get(out, 1, 4));//confidence
 
     apop_data_set(out, 2, 3, apop_data_get(out, 2, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 2, 4, gsl_cdf_fdist_P(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
+    apop_data_set(out, 2, 4, gsl_cdf_fdist_Q(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
     apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
 
     free(joined);
-- 
2.43.0


From 671dc6c8cbb5d7fde8f337fdefb2118525b4ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 112/311] fix: apop_test: crashed with no distribution named,
 had the Normal's tails reversed, and was wrong for the Uniform's two-tailed
 test

---
 apop_tests.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 24d282a..788620a 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -440,7 +440,7 @@ Here are the distributions you can use and their parameters.
 */
 APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1, double p2, char tail){
     double  apop_varad_var(statistic, 0);
-    char*  apop_varad_var(distribution, NULL);
+    char*  apop_varad_var(distribution, "normal");
     double apop_varad_var(p1, 0);
     double apop_varad_var(p2, 0);
     int is_chi = !strcasecmp(distribution, "chi squared")|| !strcasecmp(distribution, "chi")
@@ -460,9 +460,9 @@ APOP_VAR_ENDHEAD
     //clever way to make it shorter.
      if (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ){
          if (tail == 'u')
-             return gsl_cdf_gaussian_Q(p1-statistic, p2);
+             return gsl_cdf_gaussian_Q(statistic-p1, p2);
          else if (tail == 'l')
-             return gsl_cdf_gaussian_P(p1-statistic, p2);
+             return gsl_cdf_gaussian_P(statistic-p1, p2);
          else
              return 2 * gsl_cdf_gaussian_Q(fabs(p1-statistic), p2);
      }
@@ -505,7 +505,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_flat_P(statistic, p1, p2);
          else
-             return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.), p1, p2);
+             return 2 * gsl_cdf_flat_Q((p1+p2)/2. + fabs(statistic - (p1+p2)/2.), p1, p2);
      }
     Apop_assert(0, "Sorry, but I don't recognize %s as a distribution", distribution);
 }
-- 
2.43.0


From 64c6ca59258d99083787dc3a2edaa66707f4f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 113/311] fix: apop_histograms_test_goodness_of_fit compared
 observed counts with expected probabilities, and crashed on a PMF with no
 weights

---
 apop_hist.m4.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 5a8ac71..fef30f2 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -61,19 +61,23 @@ been drawn from the \c expected distribution.
 \li If an observation row has weight zero, I skip it. if <tt>apop_opts.verbose >=1 </tt> I will show a warning.
 */
 apop_data *apop_histograms_test_goodness_of_fit(apop_model *observed, apop_model *expected){
-    int df = observed->data->weights->size;
+    Get_vmsizes(observed->data); //maxsize
+    gsl_vector *weights = observed->data->weights; //if NULL, every row has weight one.
+    double total = weights ? apop_sum(weights) : maxsize;
+    int df = maxsize;
     double diff = 0;
-    for (int i=0; i< observed->data->weights->size; i++){
-        double obs_val = gsl_vector_get(observed->data->weights, i);
-        double exp_val = apop_p(Apop_r(observed->data, i), expected);
-        if (exp_val == 0){
-            diff = GSL_POSINF; 
-            break;
-        }
+    for (int i=0; i< maxsize; i++){
+        double obs_val = weights ? gsl_vector_get(weights, i) : 1;
+        double exp_val = total * apop_p(Apop_r(observed->data, i), expected);
         if (obs_val==0){
             Apop_notify(1, "element %i of the observed data has weight zero. Skipping it.", i);
             df --;
-        } else 
+            continue;
+        }
+        if (exp_val == 0){
+            diff = GSL_POSINF; 
+            break;
+        } else
             diff += gsl_pow_2(obs_val - exp_val)/exp_val;
     }
     //Data gathered. Now output
-- 
2.43.0


From 970fdfc741af8ce3e269d392ff30321a2923d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 114/311] fix: apop_test_kolmogorov: two samples with no values
 in common were always at distance one, ties and weights were mistreated, the
 lower side of each step was not compared, and a second model with no data
 crashed

---
 apop_hist.m4.c | 58 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index fef30f2..211505b 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -217,6 +217,24 @@ static double psmirnov2x(double x, int m, int n) {
     return u[n];
 }
 
+/* Which row comes first in a list sorted via apop_data_sort? */
+static int ks_compare(apop_data *left, int lrow, apop_data *right, int rrow){
+    if (left->vector && right->vector){
+        double l = gsl_vector_get(left->vector, lrow), r = gsl_vector_get(right->vector, rrow);
+        if (l != r) return l < r ? -1 : 1;
+    }
+    if (left->matrix && right->matrix)
+        for (int i=0; i< left->matrix->size2 && i< right->matrix->size2; i++){
+            double l = gsl_matrix_get(left->matrix, lrow, i), r = gsl_matrix_get(right->matrix, rrow, i);
+            if (l != r) return l < r ? -1 : 1;
+        }
+    for (int i=0; i< left->textsize[1] && i< right->textsize[1]; i++){
+        int cmp = strcasecmp(left->text[lrow][i], right->text[rrow][i]);
+        if (cmp) return cmp;
+    }
+    return 0;
+}
+
 /** Run the Kolmogorov-Smirnov test to determine whether two distributions are identical.
 
 \param m1 A sorted PMF model. I.e., a model estimated via something like 
@@ -248,22 +266,32 @@ apop_data *apop_test_kolmogorov(apop_model *m1, apop_model *m2){
             0, "First model has to be a PMF. I check whether m1->cdf == apop_pmf->cdf.");
     bool m2_is_pmf = (m2->cdf == apop_pmf->cdf);
 
-    int maxsize1, maxsize2;
+    int maxsize1, maxsize2=0;
     {Get_vmsizes(m1->data); maxsize1 = maxsize;} //copy one of the macro's variables 
-    {Get_vmsizes(m2->data); maxsize2 = maxsize;} //to the full function's scope.
-    double largest_diff = GSL_NEGINF;
-    double sum = 0;
-    for (size_t i=0; i< maxsize1; i++){
-        apop_data *arow = Apop_r(m1->data, i);
-        sum += m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1./maxsize1;
-        largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m2)));
-    }
-    if (m2_is_pmf){
-        double sum = 0;
-        for (size_t i=0; i< maxsize2; i++){     //There could be matched data rows to m1, so there is redundancy.
-            apop_data *arow = Apop_r(m2->data, i);   // Feel free to submit a smarter version.
-            sum += m2->data->weights ? gsl_vector_get(m2->data->weights, i) : 1./maxsize2;
-            largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m2)));
+    if (m2_is_pmf) {Get_vmsizes(m2->data); maxsize2 = maxsize;} //to the full function's scope.
+    double largest_diff = 0;
+    long double sum1 = 0, total1 = m1->data->weights ? apop_sum(m1->data->weights) : maxsize1;
+    if (!m2_is_pmf)
+        for (int i=0; i< maxsize1; ){
+            double cdf = apop_cdf(Apop_r(m1->data, i), m2);
+            largest_diff = GSL_MAX(largest_diff, fabs(sum1/total1 - cdf)); //just before the step
+            int start = i;
+            for ( ; i< maxsize1 && !ks_compare(m1->data, start, m1->data, i); i++)
+                sum1 += m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1;
+            largest_diff = GSL_MAX(largest_diff, fabs(sum1/total1 - cdf)); //and after
+        }
+    else {
+        long double sum2 = 0, total2 = m2->data->weights ? apop_sum(m2->data->weights) : maxsize2;
+        for (int i=0, j=0; i< maxsize1 && j< maxsize2; ){//after one list ends, the gap only shrinks.
+            int cmp = ks_compare(m1->data, i, m2->data, j),
+                start1 = i, start2 = j;
+            if (cmp <= 0)
+                for ( ; i< maxsize1 && !ks_compare(m1->data, start1, m1->data, i); i++)
+                    sum1 += m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1;
+            if (cmp >= 0)
+                for ( ; j< maxsize2 && !ks_compare(m2->data, start2, m2->data, j); j++)
+                    sum2 += m2->data->weights ? gsl_vector_get(m2->data->weights, j) : 1;
+            largest_diff = GSL_MAX(largest_diff, fabs(sum1/total1 - sum2/total2));
         }
     }
     apop_data *out = apop_data_alloc();
-- 
2.43.0


From 5ae8e94d5886c2a7890ffe4e6d134fa23ac5d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 115/311] fix: apop_test: the documented default of sigma=1 for
 the Lognormal was not set

---
 apop_tests.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 788620a..9588b33 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -448,7 +448,8 @@ APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1,
      Apop_stopif(!strcasecmp(distribution, "f") && (!p1 || !p2), return NAN, 0, "I need both a p1 and p2 parameter specifying the degrees of freedom.");
      Apop_stopif((!strcasecmp(distribution, "t") || !strcasecmp(distribution, "f") || is_chi)
              && !p1, return NAN, 0, "I need a p1 parameter specifying the degrees of freedom.");
-     if (!p2 && (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ))
+     if (!p2 && (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian")
+                                  || !strcasecmp(distribution, "lognormal") ))
          p2 = 1;
      if (!p2 && p1 >= 0 && !strcasecmp(distribution, "uniform"))
          p2 = 1;
-- 
2.43.0


From 5755437ebeace6c8553721c3de29679548cfbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 116/311] fix: the Beta's likelihood ignored data outside [0,1]
 and was NaN at the edges when a parameter is one

---
 model/apop_beta.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index a8b55bd..b8b32cf 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -45,8 +45,8 @@ typedef struct{
 
 static double betamap(double x, void *abin) {
     ab_type *ab = abin; 
-    return (x < 0 || x > 1) ? 0
-                : (ab->alpha-1) * log(x) + (ab->beta-1) *log(1-x); 
+    return (x < 0 || x > 1) ? GSL_NEGINF
+                : (ab->alpha==1 ? 0 : (ab->alpha-1) * log(x)) + (ab->beta==1 ? 0 : (ab->beta-1) *log(1-x)); 
 }
 
 #define Get_ab(p) \
@@ -83,7 +83,7 @@ static long double beta_cdf(apop_data *d, apop_model *params){
     Nullcheck_mpd(d, params, GSL_NAN)
     Get_vmsizes(d)  //vsize
     Get_ab(params)
-    double val = apop_data_get(d);
+    double val = apop_data_get(d, 0, vsize ? -1 : 0);
     return gsl_cdf_beta_P(val, ab.alpha, ab.beta);
 }
 
-- 
2.43.0


From 803a6b314a4c9e76bbfba15424d93c75e883915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 117/311] fix: the Exponential gave negative data a positive
 likelihood

---
 model/apop_exponential.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 2bc414b..99c2465 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -30,6 +30,7 @@ static long double beta_greater_than_x_constraint(apop_data *data, apop_model *v
 static long double exponential_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN);
     Get_vmsizes(d) //tsize
+    if ((msize1 && gsl_matrix_min(d->matrix) < 0) || (vsize && gsl_vector_min(d->vector) < 0)) return GSL_NEGINF;
     double mu = gsl_vector_get(p->parameters->vector, 0);
     double llikelihood = -((d->matrix ? apop_matrix_sum(d->matrix):0) + (d->vector ? apop_sum(d->vector) : 0))/ mu;
 	llikelihood	-= tsize * log(mu);
-- 
2.43.0


From cf9d98d972647f054947a7f5319e6469431b9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 118/311] fix: the Gamma's log likelihood was zero at x=0 and
 NaN for negative data

---
 model/apop_gamma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 82c5e43..7edba2f 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -31,7 +31,8 @@ typedef struct {double a, b, ln_ga_plus_a_ln_b;} abstruct;
 
 static double apply_for_gamma(double x, void *abin) { 
     abstruct *ab = abin;
-    return x ? ((ab->a-1)*log(x) - x/ab->b - ab->ln_ga_plus_a_ln_b) : 0; 
+    return x < 0 ? GSL_NEGINF
+                 : (ab->a==1 ? 0 : (ab->a-1)*log(x)) - x/ab->b - ab->ln_ga_plus_a_ln_b; 
 }
 
 static long double gamma_log_likelihood(apop_data *d, apop_model *p){
-- 
2.43.0


From 97aee329f748dc962534f5701c5c58485988abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 119/311] fix: the Lognormal's likelihood and CDF were NaN for
 data at or below zero

---
 model/apop_normal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 54e4297..31ce6d2 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -164,6 +164,8 @@ The log likelihood function for lognormal distributions:
 \adoc    settings   None.    
 */
 
+static double not_positive(double x){ return x <= 0; }
+
 static double lnx_minus_mu_squared(double x, void *mu_in){
 	return gsl_pow_2(log(x) - *(double *)mu_in);
 }
@@ -171,6 +173,7 @@ static double lnx_minus_mu_squared(double x, void *mu_in){
 static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
     Nullcheck_mpd(d, params, GSL_NAN)
     Get_vmsizes(d) //tsize
+    if (apop_map_sum(d, not_positive)) return GSL_NEGINF;
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
     long double ll = -apop_map_sum(d, .fn_dp=lnx_minus_mu_squared, .param=&mu);
@@ -211,7 +214,7 @@ static long double lognormal_cdf(apop_data *d, apop_model *params){
     double val = apop_data_get(d, 0, vsize ? -1 : 0);
     double mu = gsl_vector_get(params->parameters->vector, 0);
     double sd = gsl_vector_get(params->parameters->vector, 1);
-    return gsl_cdf_lognormal_P(val, mu, sd);
+    return val <= 0 ? 0 : gsl_cdf_lognormal_P(val, mu, sd);
 }
 
 /* \adoc predict Returns the expeced value, \f$E(x) = e^(mu + sigma^2/2)\f$
-- 
2.43.0


From f694cd8bb1851964c8d01a947b3ecb940e63dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 120/311] fix: the Yule distribution gave a likelihood to
 values below one

---
 model/apop_yule.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/apop_yule.c b/model/apop_yule.c
index f3470b5..213912d 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -28,9 +28,8 @@ static long double yule_constraint(apop_data *returned_beta, apop_model *m){
 }
 
 static double apply_me(double pt, void *bb){
-    double ln_k = (pt>=1) 
-                   ? gsl_sf_lngamma(pt)
-                   : 0;
+    if (pt < 1) return GSL_NEGINF;
+    double ln_k = gsl_sf_lngamma(pt);
     double ln_bb_k = gsl_sf_lngamma(pt+*(double*)bb);
     return ln_k - ln_bb_k;
 }
-- 
2.43.0


From 8897b6987587eac71312e5ffd46b203c9d27ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 121/311] fix: the Zipf distribution gave infinite or NaN log
 likelihood to values below one

---
 model/apop_zipf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index 40d615a..aea0b1c 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -28,12 +28,15 @@ static long double zipf_constraint(apop_data *returned_beta, apop_model *m){
     return apop_linear_constraint(m->parameters->vector, constraint, 1e-4);
 }
 
+static double below_one(double x){ return x < 1; }
+
 static long double zipf_log_likelihood(apop_data *d, apop_model *m){
     Nullcheck_mpd(d, m, GSL_NAN);
     Get_vmsizes(d) //tsize
     long double bb = apop_data_get(m->parameters, 0, -1);
     Apop_stopif(isnan(bb) || bb < 1, return GSL_NAN, 0, "Zipf needs a parameter >=1; "
                                               "got %Lg. Returning NaN.", bb); 
+    if (apop_map_sum(d, below_one)) return GSL_NEGINF;
     double like = -apop_map_sum(d, log) * bb;
     like -= log(gsl_sf_zeta(bb)) * tsize;
     return like;
-- 
2.43.0


From f39d30ead959b103bfc936562b40df84c9e01df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 122/311] fix: the Poisson's check for integers overflowed an
 int

---
 model/apop_poisson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index f2d50f8..ea35611 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -13,7 +13,7 @@
 
 static double apply_me(double x, void *in){
     if (x < 0) return -INFINITY;
-    if ((x - (int)x) > 1e-4) return -INFINITY;
+    if ((x - floor(x)) > 1e-4) return -INFINITY;
     double *ln_l = in;
     return x==0 ? 0 : *ln_l *x - gsl_sf_lngamma(x+1);
 }
-- 
2.43.0


From 504e6c2fb650dca2727034209f64f7c11371bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 123/311] fix: the Multinomial used the Binomial likelihood of
 p_1 alone when n==2

---
 model/apop_multinomial.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 36990f7..b2e9b33 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -84,10 +84,6 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
     return apop_linear_constraint(b->parameters->vector, constr);
 }
 
-static double binomial_ll(gsl_vector *hits, void *paramv){
-    return log(gsl_ran_binomial_pdf(hits->data[1], ((gsl_vector*)paramv)->data[1], ((gsl_vector*)paramv)->data[0]));
-}
-
 static double multinomial_ll(gsl_vector *v, void *params){
     double *pv = ((apop_model*)params)->parameters->vector->data;
     size_t size = ((apop_model*)params)->parameters->vector->size;
@@ -105,7 +101,6 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
                     "representing [n, p_1, (...)].");
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
-    if (n==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
 
     pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
     double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
-- 
2.43.0


From 5ff1f53e8938b1342a02e0902334ee161f73090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 124/311] fix: copies of a model with apop_arms settings shared
 its envelope, which was freed twice

---
 apop_arms.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 0aad8e5..f348725 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -25,8 +25,19 @@ void display(FILE *f, arms_state *env, apop_arms_settings *);
 int initial (apop_arms_settings* params, arms_state *state);
 
 Apop_settings_copy(apop_arms,
-    out->state = malloc(sizeof(arms_state));
-    *out->state = *in->state;
+    if (in->state){
+        //The envelope is a list of pointers into the p array, so the copy's list has to point into its own.
+        out->state = malloc(sizeof(arms_state));
+        *out->state = *in->state;
+        out->state->convex = &out->convex;
+        out->state->p = malloc(in->state->npoint * sizeof(POINT));
+        memcpy(out->state->p, in->state->p, in->state->npoint * sizeof(POINT));
+        for (int i=0; i< in->state->cpoint; i++){
+            POINT *pt = in->state->p + i;
+            out->state->p[i].pl = pt->pl ? out->state->p + (pt->pl - in->state->p) : NULL;
+            out->state->p[i].pr = pt->pr ? out->state->p + (pt->pr - in->state->p) : NULL;
+        }
+    }
 )
 
 Apop_settings_free(apop_arms,
@@ -89,6 +100,7 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
+    params->model = m; //m may be a copy of the model for which the settings were set up.
   POINT pwork;        /* a working point, not yet incorporated in envelope */
   int msamp=0;        /* the number of x-values currently sampled */
   arms_state *state = params->state; 
-- 
2.43.0


From 62f8ae4a45cf6f1e4c111c73ad320721920d1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 125/311] fix: the size of a draw from a regression did not
 count both the outcome and the constant column

---
 model/apop_ols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 2ec2c24..51bba38 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -130,6 +130,7 @@ static void ols_prep(apop_data *d, apop_model *m){
     ols_shuffle(d);
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
+    if (m->dsize == -1) m->dsize = d->matrix->size2 + 1; //draws have the dependent variable and every X column.
     apop_prep(d, m);
     m->prep = mpt;
 }
@@ -292,7 +293,7 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     Apop_stopif(!olp, return 1, 0, "no apop_lm settings group attached. Has this model been estimated yet?");
 
     gsl_vector *tempdata = gsl_vector_alloc(m->parameters->vector->size);
-    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), return 2,
+    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), gsl_vector_free(tempdata); return 2,
             0, "Couldn't draw from the distribution of the input data.");
     gsl_blas_ddot(tempdata, m->parameters->vector, out);
 
-- 
2.43.0


From 4fb4721756baf892e306896178d718318a8b0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 126/311] fix: every logit draw used the option probabilities
 of the first

---
 model/apop_probit.c | 46 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 571f0c1..f7fca2e 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -297,27 +297,33 @@ static int logit_rng(double *out, gsl_rng *r, apop_model *m){
     if (!olp) olp=Apop_model_add_group(m, apop_lm
                                 , .input_distribution= apop_estimate(m->data, apop_pmf));
 
+    //The default input distribution is rows of the prepped data, whose first element is the outcome.
     size_t datasize = get_draw_size(olp->input_distribution);
-    apop_data *x = apop_data_alloc(datasize);
-    apop_draw(x->vector->data, r, olp->input_distribution);
-
-    apop_data *xbeta = apop_dot(x, m->parameters);
-    apop_data *zero = apop_data_calloc(1);
-    apop_data *xbeta_w_numeraire = apop_data_stack(zero, xbeta, 'r');
-    apop_data_free(xbeta);
-    apop_data_free(zero);
-    apop_vector_exp(xbeta_w_numeraire->vector);
-    apop_vector_normalize(xbeta_w_numeraire->vector);
-    xbeta_w_numeraire->weights = xbeta_w_numeraire->vector;
-    xbeta_w_numeraire->vector = NULL;
-
-    Staticdef(apop_model*, a_pmf, apop_model_copy(apop_pmf))
-    a_pmf->dsize = 0; //so draws produce a row number
-    a_pmf->data = xbeta_w_numeraire;
-    Apop_stopif(apop_draw(out, r, a_pmf), return 1, 
-                        0, "Couldn't draw from a PMF populated using X'β.");
-    if (m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
-    apop_data_free(x);
+    gsl_matrix *params = m->parameters->matrix;
+    Apop_stopif(datasize != params->size1 && datasize != params->size1+1, return 1, 0, "Draws from the "
+            "input distribution have %zu elements, but there are parameters for %zu.", datasize, params->size1);
+    double x[datasize];
+    Apop_stopif(apop_draw(x, r, olp->input_distribution), return 2,
+            0, "Couldn't draw from the distribution of the input data.");
+    gsl_vector_view xv = gsl_vector_view_array(x + (datasize - params->size1), params->size1);
+
+    //Odds of each option, relative to the likeliest so exp won't overflow. The odds of the numeraire are exp(0).
+    size_t options = params->size2+1;
+    double odds[options], max = 0, total = 0;
+    odds[0] = 0;
+    for (size_t i=1; i< options; i++){
+        gsl_vector_view beta = gsl_matrix_column(params, i-1);
+        gsl_blas_ddot(&xv.vector, &beta.vector, odds+i);
+        max = GSL_MAX(max, odds[i]);
+    }
+    for (size_t i=0; i< options; i++) total += odds[i] = exp(odds[i] - max);
+    Apop_stopif(!isfinite(total), return 1, 0, "Couldn't draw an option given the odds X'β.");
+
+    double pick = gsl_rng_uniform(r) * total;
+    size_t option = 0;
+    while (option < options-1 && pick >= odds[option]) pick -= odds[option++];
+    *out = option;
+    if (m->dsize>1) memcpy(out+1, xv.vector.data, params->size1 *sizeof(double));
     return 0;
 }
 
-- 
2.43.0


From b2388318dc1431c491b73d2e618eb115e7b4bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 127/311] fix: large draws from the Zipf and Yule distributions
 overflowed an int

---
 model/apop_yule.c | 2 +-
 model/apop_zipf.c | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/model/apop_yule.c b/model/apop_yule.c
index 213912d..5ffc7bf 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -62,7 +62,7 @@ static void yule_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
 static int yule_rng( double *out, gsl_rng * r, apop_model *a){
 	double e1 = gsl_ran_exponential(r, 1);
 	double e2 = gsl_ran_exponential(r, 1);
-	int x = GSL_MAX((int) (- e1  / log(1 - exp(-e2 / (*a->parameters->vector->data -1)))), 0);
+	double x = floor(- e1  / log1p(-exp(-e2 / (*a->parameters->vector->data -1))));
 	*out =  x + 1;	//we rounded down to floor, but want ceil.
     return 0;
 }
diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index aea0b1c..9ff4089 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -50,14 +50,13 @@ static int zipf_rng(double *out, gsl_rng* r, apop_model *param){
     double a = apop_data_get(param->parameters, 0, -1);
     Apop_stopif(isnan(a) || a < 1, *out=GSL_NAN; return 1, 
             0, "Zipf needs a parameter >=1; got %g. Setting *out to NAN.", a); 
-    int x;
-    long double u, v, t, 
+    long double u, v, t, x,
             b    = powl(2, a-1), 
             ainv = -(1.0/(a-1));
     do {
-        u = gsl_rng_uniform(r);
+        u = gsl_rng_uniform_pos(r);
         v = gsl_rng_uniform(r);
-        x = powl(u, ainv);
+        x = floorl(powl(u, ainv));
         t = powl((1.0 + 1.0/x), (a-1));
     } while (v * x * (t-1.0)/(b-1) > t/b);
     *out = x;
-- 
2.43.0


From ced200bad373289bd16799d6066013b5fedee406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 128/311] fix: apop_arms replaced a bound of zero with its
 default, so draws fell outside the bounds given

---
 apop_arms.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index f348725..781881b 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -55,8 +55,11 @@ Apop_settings_init(apop_arms,
         Apop_varad_set(xinit, ((double []) {-1, 0, 1}));
     }
     Apop_varad_set(ninit, 3);
-    Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
-    Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
+    //A zero is a bound if the other bound is given and the initial points are on the right side of it.
+    if (!(in.xr && out->xinit[0] >= 0))
+        Apop_varad_set(xl, GSL_MIN(out->xinit[0]/10., out->xinit[0]*10)-.1);
+    if (!(in.xl && out->xinit[out->ninit-1] <= 0))
+        Apop_varad_set(xr, GSL_MAX(out->xinit[out->ninit-1]/10., out->xinit[out->ninit-1]*10)+.1);
     Apop_varad_set(convex, 0);
     Apop_varad_set(npoint, 100);
     Apop_varad_set(do_metro, 'y');
-- 
2.43.0


From cea9b61f4eae52ed271029cd2d2f5b53a1ee027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 129/311] fix: freeing or drawing from a model whose apop_arms
 envelope could not be set up crashed

---
 apop_arms.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 781881b..bd66b0b 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -41,7 +41,7 @@ Apop_settings_copy(apop_arms,
 )
 
 Apop_settings_free(apop_arms,
-    if (in->state){
+    if (in && in->state){
         free(in->state->p);
         free(in->state);
 	}
@@ -72,7 +72,8 @@ Apop_settings_init(apop_arms,
     Apop_assert(out->state, "Malloc failed. Out of memory?");
     *out->state = (arms_state) { };
     int err = initial(out, out->state);
-    Apop_assert_c(!err, NULL, 0, "init failed, error %i. Returning NULL", err);
+    Apop_stopif(err, free(out->state->p); free(out->state); free(out); return NULL,
+            0, "init failed, error %i. Returning NULL", err);
 
   /* finish setting up metropolis struct (can only do this after setting up env) */
     if(out->do_metro=='y'){
@@ -103,6 +104,7 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
+    Apop_stopif(!params, return 1, 0, "Couldn't set up the envelope.");
     params->model = m; //m may be a copy of the model for which the settings were set up.
   POINT pwork;        /* a working point, not yet incorporated in envelope */
   int msamp=0;        /* the number of x-values currently sampled */
-- 
2.43.0


From cb022a17d29e26d586299a9ab291d250dc3a3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 130/311] fix: apop_arms_draw reported success when it had not
 made a draw

---
 apop_arms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_arms.c b/apop_arms.c
index bd66b0b..6631d61 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -131,7 +131,7 @@ int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     Apop_notify(3, " point rejected.");
   } while (msamp < 1e3);
   Apop_notify(1, "I just rejected 1,000 samples. Something is wrong.");
-  return 0;
+  return 1;
 }
 
 int initial (apop_arms_settings* params,  arms_state *env){
-- 
2.43.0


From 492c9680732f925980f179ea42b7b1e41e01d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 131/311] fix: the Poisson's score ignored data in the vector

---
 model/apop_poisson.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index ea35611..731d116 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -67,8 +67,8 @@ static void poisson_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_mod
     Get_vmsizes(d) //tsize
     Nullcheck_mpd(d, p, )
     double     lambda = apop_data_get(p->parameters);
-    gsl_matrix *data = d->matrix;
-    double     d_a = apop_matrix_sum(data)/lambda - tsize;
+    double     total = (d->matrix ? apop_matrix_sum(d->matrix) : 0) + (d->vector ? apop_sum(d->vector) : 0);
+    double     d_a = total/lambda - tsize;
     gsl_vector_set(gradient,0, d_a);
 }
 
-- 
2.43.0


From d256717d4af2b4fbfdcead6d590d6b56fea8977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 132/311] fix: numeric derivatives rewarded the violation of
 constraints

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 4078f9c..b957725 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -81,7 +81,7 @@ static double one_d(double b, void *in){
     apop_data_unpack(i->gp->beta, i->model->parameters);
 	if (i->model->constraint)
 		penalty	= i->model->constraint(i->data, i->model);
-	return (*(i->f))(i->data, i->model) + penalty;
+	return (*(i->f))(i->data, i->model) - penalty;
 }
 
 //Numeric first and second derivatives.
-- 
2.43.0


From 82108bae2b5b70a3b5747328c27bb8a96ebe7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 133/311] fix: the multivariate Normal leaked when the
 covariance matrix was singular or not positive

---
 model/apop_multivariate_normal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index dcbb656..76e1697 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -34,9 +34,9 @@ static long double apop_multinormal_ll(apop_data *data, apop_model * m){
     double ll = 0;
     determinant = apop_det_and_inv(m->parameters->matrix, &inverse, 1,1);
     Apop_stopif(isnan(determinant) || determinant == 0,
-        gsl_vector_free(x_minus_mu); return GSL_NEGINF, //tell maximizers to look elsewhere.
+        gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return GSL_NEGINF, //tell maximizers to look elsewhere.
          1, "the determinant of the given covariance is zero or NaN. Returning GSL_NEGINF."); 
-    Apop_stopif(determinant <= 0, return NAN, 0, "The determinant of the covariance matrix you gave me "
+    Apop_stopif(determinant <= 0, gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return NAN, 0, "The determinant of the covariance matrix you gave me "
             "is negative, but a covariance matrix must always be positive semidefinite "
             "(and so have nonnegative determinant). Maybe run apop_matrix_to_positive_semidefinite?");
     for (i=0; i< data->matrix->size1; i++){
-- 
2.43.0


From a3560f4e18310e21278d04e214e2d17e5b7428b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 134/311] fix: Normal and Lognormal estimates for a vector and
 matrix together used one row for the variance

---
 model/apop_normal.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 31ce6d2..3026377 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -67,9 +67,12 @@ void get_mu_var(apop_data *data, double *mu_out, double *var_out){
     else if (!vsize && msize1)  *var_out = mvar;
     else {
         long double vv=0;
-        for (int i=-1; i< msize2; i++)
-            vv += gsl_pow_2(apop_data_get(data, i) - *mu_out);
-        *var_out = vv/tsize;
+        for (int j=0; j< vsize; j++)
+            vv += gsl_pow_2(apop_data_get(data, j, -1) - *mu_out);
+        for (int j=0; j< msize1; j++)
+            for (int i=0; i< msize2; i++)
+                vv += gsl_pow_2(apop_data_get(data, j, i) - *mu_out);
+        *var_out = vv/(tsize-1);
     }
 }
 
-- 
2.43.0


From 807532202f66b3e4d548e3f70808b9cbfc938a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 135/311] fix: the Normal's covariance page had the mean over n
 as the variance of the mean

---
 model/apop_normal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 3026377..38a3514 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -92,8 +92,8 @@ static void normal_estimate(apop_data * data, apop_model *est){
 	if (!p || p->want_cov=='y'){
         apop_data *cov = apop_data_get_page(est->parameters, "<Covariance>");
         if (!cov) cov = apop_data_add_page(est->parameters, apop_data_calloc(2, 2), "<Covariance>");
-        apop_data_set(cov, 0, 0, mean/tsize);
-        apop_data_set(cov, 1, 1, 2*gsl_pow_2(var)/(tsize-1));
+        apop_data_set(cov, 0, 0, var/tsize);
+        apop_data_set(cov, 1, 1, var/(2*(tsize-1))); //the second parameter is σ, not σ^2.
     }
     est->data = data;
     apop_data_add_named_elmt(est->info, "log likelihood", normal_log_likelihood(data, est));
-- 
2.43.0


From 509e37f85bc839bde6cd570ccf480c3e5d15bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 136/311] fix: Beta and Gamma estimates from a vector and
 matrix together used the wrong mean or variance

---
 model/apop_beta.c  | 14 ++++----------
 model/apop_gamma.c | 13 ++++---------
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index b8b32cf..c4c5b7d 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -13,21 +13,15 @@ may also find \ref apop_beta_from_mean_var to be useful.
 
 #include "apop_internal.h"
 
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //in apop_normal.c
+
 static long double beta_log_likelihood(apop_data *d, apop_model *p);
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void beta_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
-    Get_vmsizes(data) //vsize, msize1,...
-    double		mmean=0, mvar=0, vmean=0, vvar=0, alpha, beta;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1)
-        apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);	
-    double mean = mmean *(msize1*msize2/tsize) + vmean *(vsize/tsize);
-    double var = mvar *(msize1*msize2/tsize) + vvar *(vsize/tsize);
+    double		mean, var, alpha, beta;
+    get_mu_var(data, &mean, &var);
     apop_data_add_names(est->parameters, 'r', "α", "β");
     alpha   = gsl_pow_2(mean) * ((1-mean)/var - 1/mean);
     beta    = alpha * (1-mean)/mean;
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 7edba2f..64b84c0 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -20,6 +20,8 @@ See also \ref apop_data_rank_compress for means of dealing with one more input d
 
 #include "apop_internal.h"
 
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //in apop_normal.c
+
 static long double gamma_constraint(apop_data *data, apop_model *v){
     //constraint is 0 < beta_1 and 0 < beta_2
     return apop_linear_constraint(v->parameters->vector, .margin= 1e-5);
@@ -95,15 +97,8 @@ static void gamma_prep(apop_data *data, apop_model *params){
       b = var/E
 */
 static void gamma_est(apop_data *data, apop_model *m){
-    Get_vmsizes(data)
-    double mmean=0, mvar=0, vmean=0, vvar=0;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1) apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);
-    double mean = mmean *(msize1*msize2/(tsize+0.0)) + vmean *(vsize/(tsize+0.0));
-    double var = mvar *(msize1*msize2/(tsize+0.0)) + vvar *(vsize/(tsize+0.0));
+    double mean, var;
+    get_mu_var(data, &mean, &var);
     apop_data_set(m->parameters, 0, .val=gsl_pow_2(mean)/var);
     apop_data_set(m->parameters, 1, .val=var/mean);
 }
-- 
2.43.0


From ca4b6aa410d8ce5b161e2a776cdab72b39dbb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 137/311] fix: Exponential estimates from a vector and matrix
 together counted only one of them

---
 model/apop_exponential.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 99c2465..6e0eb26 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -51,8 +51,8 @@ static void exponential_estimate(apop_data * data,  apop_model *est){
     apop_score_vtable_add(exponential_dlog_likelihood, apop_exponential);
     apop_name_add(est->parameters->names, "μ", 'r');
     Get_vmsizes(data); //msize1, msize2, vsize, tsize
-    double mu =  (vsize ? vsize * apop_vector_mean(data->vector):0
-                + msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0)/tsize;
+    double mu =  ((vsize ? vsize * apop_vector_mean(data->vector):0)
+                + (msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0))/tsize;
 	gsl_vector_set(est->parameters->vector, 0, mu);
     apop_data_add_named_elmt(est->info, "log likelihood", exponential_log_likelihood(data, est));
 }
-- 
2.43.0


From 5b24e82b7a57f1fabd2868935ba5cfe6127ea395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 138/311] fix: the Multinomial's constraint used a freed set
 when the number of options changed

---
 model/apop_multinomial.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index b2e9b33..0dc248c 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -67,8 +67,10 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
   //constraint is that 0 < all elmts, and  1>all ps.
     int size = b->parameters->vector->size;
     static threadlocal apop_data *constr;
-    if (constr && constr->matrix->size2 != size)
+    if (constr && constr->matrix->size2 != size){
         apop_data_free(constr);
+        constr = NULL;
+    }
     if (!constr){
         constr = apop_data_calloc(size*2-1, size*2-1, size);
 
-- 
2.43.0


From 55ed227c534deec32a0225f9fa794463e906f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 139/311] fix: Multinomial estimates leaked, and gave the
 number of balls as the size of a draw

---
 model/apop_multinomial.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 0dc248c..549e64d 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -170,6 +170,7 @@ double avs(gsl_vector *v){return (double) apop_vector_sum(v);}
 static void multinomial_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     Get_vmsizes(data); //vsize, msize1
+    apop_data_free(est->parameters);
     est->parameters= apop_map(data, .fn_v=avs, .part='c');
     gsl_vector *v = est->parameters->vector;
     int n = apop_sum(v)/data->matrix->size1; //size of one row
@@ -181,7 +182,7 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
         sprintf(name, "p%i", i);
         apop_name_add(est->parameters->names, name, 'r');
     }
-    est->dsize = n;
+    est->dsize = v->size;
     make_covar(est);
     apop_data_add_named_elmt(est->info, "log likelihood", multinomial_log_likelihood(data, est));
 }
-- 
2.43.0


From 5f5261cc1ff677084e5b9d75bf7dd2704ee235f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 140/311] fix: multivariate Normal estimates leaked the
 parameter set made at prep

---
 model/apop_multivariate_normal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index 76e1697..7d5313c 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -54,6 +54,7 @@ static double a_mean(gsl_vector * in){ return apop_vector_mean(in); }
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>.  */ 
 static void multivariate_normal_estimate(apop_data * data, apop_model *p){
+    apop_data_free(p->parameters);
     p->parameters = apop_map(data, .fn_v=a_mean, .part='c'); 
     apop_data *cov =  apop_data_covariance(data);
     p->parameters->matrix =  cov->matrix;
-- 
2.43.0


From d171d7ef48dcc71269243f9e20ce5e8772e8ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 141/311] fix: t distribution estimates from a vector and
 matrix together ignored the difference of their means

---
 model/apop_t.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/model/apop_t.c b/model/apop_t.c
index 2da62c7..e207f2c 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -16,8 +16,10 @@ static void apop_t_estimate(apop_data *d, apop_model *m){
        apop_matrix_mean_and_var(d->matrix, &mmu, &m_sum_sq);
        m_sum_sq *= msize1*msize2-1;
    }
-    apop_data_add_named_elmt(m->parameters, "μ", (vmu *vsize + mmu * msize1*msize2)/tsize);
-    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * (v_sum_sq + m_sum_sq)/(tsize-1))); 
+    double mu = (vmu *vsize + mmu * msize1*msize2)/tsize;
+    double sum_sq = v_sum_sq + vsize*gsl_pow_2(vmu-mu) + m_sum_sq + msize1*msize2*gsl_pow_2(mmu-mu);
+    apop_data_add_named_elmt(m->parameters, "μ", mu);
+    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * sum_sq/(tsize-1))); 
     apop_data_add_named_elmt(m->parameters, "df", tsize-1);
     apop_data_add_named_elmt(m->info, "log likelihood", m->log_likelihood(d, m));
 }
-- 
2.43.0


From 8965c4a3a918578c204a01e8236341cc9b632c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 142/311] fix: the Lognormal's prediction was not registered

---
 model/apop_normal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 38a3514..58f4bc7 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -249,6 +249,7 @@ static int lognormal_rng(double *out, gsl_rng *r, apop_model *p){
 
 static void lognormal_prep(apop_data *data, apop_model *params){
     apop_score_vtable_add(lognormal_dlog_likelihood, apop_lognormal);
+    apop_predict_vtable_add(lognormal_predict, apop_lognormal);
     apop_model_clear(data, params);
 }
 
-- 
2.43.0


From 697284e1205aea8d86b74b624622b0aa85d2cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 143/311] fix: t distribution estimates from a matrix used too
 small a variance

---
 model/apop_t.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_t.c b/model/apop_t.c
index e207f2c..464eaea 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -14,7 +14,7 @@ static void apop_t_estimate(apop_data *d, apop_model *m){
     double mmu = 0;
    if (msize1) {
        apop_matrix_mean_and_var(d->matrix, &mmu, &m_sum_sq);
-       m_sum_sq *= msize1*msize2-1;
+       m_sum_sq *= msize1*msize2;
    }
     double mu = (vmu *vsize + mmu * msize1*msize2)/tsize;
     double sum_sq = v_sum_sq + vsize*gsl_pow_2(vmu-mu) + m_sum_sq + msize1*msize2*gsl_pow_2(mmu-mu);
-- 
2.43.0


From b3c08a0b75cd5ff4cda7ac9792ac970f34c0cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 144/311] fix: simplex searches that ran out of iterations
 reported success

---
 apop_mle.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index b957725..551e284 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -488,8 +488,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     double size;
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
-    ctrl_c      =
-    apopstatus = 0; //assume failure until we score a success.
+    ctrl_c      = 0;
+    apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
-- 
2.43.0


From f4742360d2b63f8abffdc8caa4a27419bc0f97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 145/311] fix: the path of a search over a matrix of parameters
 was wrong or crashed

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 551e284..2017694 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -316,7 +316,7 @@ static double negshell (const gsl_vector *beta, void * in){
     Apop_stopif(gsl_isnan(out), longjmp(i->bad_eval_jump, -1),
                 0, "I got a NaN in evaluating the objective function.%s", 
                     !i->model->constraint ? " Maybe add a constraint to your model?" : "");
-    if (i->path) tracepath(i->model->parameters->vector, -out, i->path);
+    if (i->path) tracepath(beta, -out, i->path);
     if (i->want_info =='y'){
         //Check that this will be reportable on the log scale.
         long double this_ll = i->model->log_likelihood? -out : log(-out); //negative negative llikelihood.
-- 
2.43.0


From 4670dc1c795260f930fcf57e1cc67aec76b1d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 146/311] fix: searches cycling over dimensions gave no status
 or information, and left a freed starting point

---
 apop_mle.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 2017694..a6464af 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -545,6 +545,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
     int iteration = 0;
     apop_mle_settings *mp = Apop_settings_get_group(est, apop_mle);
     double tol = mp->dim_cycle_tolerance;
+    double *start = mp->starting_pt;
     int betasize = info.beta->size;
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, 0);//so sub-estimations won't use this function.
     gsl_vector *paramv = apop_data_pack(est->parameters);
@@ -573,7 +574,9 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
         Apop_settings_add(est, apop_mle, starting_pt, paramv->data);
     } while (fabs(this_ll - last_ll) > tol);
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, tol);
+    Apop_settings_set(est, apop_mle, starting_pt, start);
     gsl_vector_free(paramv);
+    auxinfo(est->parameters, &info, gsl_finite(this_ll) ? 0 : -1, 0);
 }
 
 void get_desires(apop_model *m, infostruct *info){
-- 
2.43.0


From 32e03f30e2aa73b00ca704cfcc4ca4303b51463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 147/311] fix: root-finding searches left the region the
 constraint allows

---
 apop_mle.m4.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index a6464af..9e2197a 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -895,6 +895,15 @@ done:
     gsl_vector_free(i->starting_pt);
 }
 
+//The root-finders don't call negshell, so check the constraint here.
+static int rootshell(const gsl_vector *beta, void *in, gsl_vector *g){
+    infostruct *i = in;
+    apop_data_unpack(beta, i->model->parameters);
+    if (i->model->constraint && i->model->constraint(i->data, i->model))
+        apop_data_pack(i->model->parameters, (gsl_vector *) beta);
+    return dnegshell(beta, in, g);
+}
+
 /* This function calls the various GSL root-finding algorithms to find the zero of the score.
    Cut/pasted/modified from the GSL documentation.  */
 static apop_model * find_roots (infostruct p) {
@@ -905,7 +914,7 @@ static apop_model * find_roots (infostruct p) {
     int status=0, betasize = p.beta->size,
               apopstatus = -1;   //assume failure until we score a success.
     size_t iter = 0;
-    gsl_multiroot_function f = {dnegshell, betasize, &p};
+    gsl_multiroot_function f = {rootshell, betasize, &p};
     T =   !strcasecmp(mlep->method, "Newton")         ? gsl_multiroot_fsolver_dnewton
         : !strcasecmp(mlep->method, "Newton hybrid no scale") ? gsl_multiroot_fsolver_hybrids
                                                    : gsl_multiroot_fsolver_hybrid;
-- 
2.43.0


From f3c46a2b0249b83ba7e6e3d01e5838c31e40b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 148/311] fix: simplex searches collapsed onto the edge of a
 constraint

---
 apop_mle.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 9e2197a..41e1d96 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -26,6 +26,7 @@ typedef struct {
     grad_params *gp; //Used only by apop_internal_numerical_gradient.
     gsl_vector  *beta, *starting_pt;
     int         use_constraint;
+    int         keep_beta; //if the constraint moves the parameters, don't move the optimizer's vector too.
     char        want_cov, want_predicted, want_tests, want_info;
     jmp_buf     bad_eval_jump;
     apop_data** path;
@@ -310,7 +311,7 @@ static double negshell (const gsl_vector *beta, void * in){
     apop_data_unpack(beta, i->model->parameters);
 	if (i->use_constraint && i->model->constraint)
 		penalty	= i->model->constraint(i->data, i->model);
-    if (penalty) apop_data_pack(i->model->parameters, (gsl_vector*) beta);
+    if (penalty && !i->keep_beta) apop_data_pack(i->model->parameters, (gsl_vector*) beta);
     double f_val = f(i->data, i->model);
     out = penalty - f_val; //negative llikelihood
     Apop_stopif(gsl_isnan(out), longjmp(i->bad_eval_jump, -1),
@@ -489,6 +490,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
     ctrl_c      = 0;
+    i->keep_beta = 1; //moving several corners of the simplex to the edge of the constraint would collapse it.
     apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
@@ -526,6 +528,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
                 1, "Optimization reached maximum number of iterations.");
     if (status == GSL_SUCCESS) apopstatus = 0;
     apop_data_unpack(s->x, est->parameters);
+    if (est->constraint) est->constraint(data, est);
 	gsl_multimin_fminimizer_free(s);
     gsl_vector_free(ss);
     auxinfo(est->parameters, i, apopstatus, 0);
-- 
2.43.0


From 797aaeed8e7d01bc280b8729180e3ea150027961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 149/311] fix: conjugate gradient searches that got stuck
 reported success

---
 apop_mle.m4.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 41e1d96..b9e5319 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -414,6 +414,16 @@ static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     if (i->want_info=='y') add_info_criteria(i->data, i->model, est, ll, param_ct);
 }
 
+/*The minimizer may report no progress because it is at an optimum to within the precision of
+  the gradient, or because it got stuck. Is the gradient small relative to the values of x and f(x)? */
+static int is_flat(gsl_multimin_fdfminimizer *s){
+    for (size_t j=0; j< s->x->size; j++)
+        if (!(fabs(gsl_vector_get(s->gradient, j)) * GSL_MAX(fabs(gsl_vector_get(s->x, j)), 1)
+                    <= 1e-2 * GSL_MAX(fabs(s->f), 1)))
+            return 0;
+    return 1;
+}
+
 static void apop_maximum_likelihood_w_d(apop_data * data, infostruct *i){
 /* The maximum likelihood calculations, given a derivative of the log likelihood.
 
@@ -459,8 +469,10 @@ Inside the infostruct, you'll find these elements:
             break;
         }
         status 	= gsl_multimin_fdfminimizer_iterate(s);
-        if(status && status!=GSL_CONTINUE) break; //commented out error msg because too many GSL_ENOPROG false positives.
-        //Apop_stopif(status && status!=GSL_CONTINUE, break, 0, "GSL error: %s", gsl_strerror(status));
+        if(status && status!=GSL_CONTINUE) { //no error msg because too many GSL_ENOPROG false positives.
+            apopstatus = is_flat(s) ? 0 : -1;
+            break;
+        }
         status = gsl_multimin_test_gradient(s->gradient,  mp->tolerance);
         if(status && status!=GSL_CONTINUE) break; //commented out error msg because too many GSL_ENOPROG false positives.
         //Apop_stopif(status && status!=GSL_CONTINUE, break, 0, "GSL error: %s", gsl_strerror(status));
-- 
2.43.0


From 4ecd4c7808bf080c48514c959d9562b42e6579e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 150/311] fix: t distribution estimates from a one-element
 vector and a matrix were NaN

---
 model/apop_t.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_t.c b/model/apop_t.c
index 464eaea..c932c58 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -9,7 +9,7 @@ static void apop_t_estimate(apop_data *d, apop_model *m){
     Apop_stopif(!d, m->error='d'; return, 0, "No data with which to count df. (the default estimation method)");
     Get_vmsizes(d); //vsize, msize1, msize2, tsize
     double vmu = vsize ? apop_mean(d->vector) : 0;
-    double v_sum_sq = vsize ? apop_var(d->vector)*(vsize-1) : 0;
+    double v_sum_sq = vsize > 1 ? apop_var(d->vector)*(vsize-1) : 0;
     double m_sum_sq = 0;
     double mmu = 0;
    if (msize1) {
-- 
2.43.0


From ec3b859d2b123f2a027ec379838445cebd090293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 151/311] fix: root-finding searches aborted on a singular
 Jacobian

---
 apop_mle.m4.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index b9e5319..09d1243 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -934,10 +934,14 @@ static apop_model * find_roots (infostruct p) {
         : !strcasecmp(mlep->method, "Newton hybrid no scale") ? gsl_multiroot_fsolver_hybrids
                                                    : gsl_multiroot_fsolver_hybrid;
     s = gsl_multiroot_fsolver_alloc (T, betasize);
+    gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error); //singular Jacobians
+    if (setjmp(p.bad_eval_jump)) {
+        status = GSL_EBADFUNC;
+        goto done;
+    }
     gsl_multiroot_fsolver_set (s, &f, p.beta);
     do {
         iter++;
-        if (setjmp(p.bad_eval_jump)) break;
         status = gsl_multiroot_fsolver_iterate (s);
         if (!mlep || mlep->verbose)
             printf ("iter = %3zu x = % .3f f(x) = % .3e\n", iter, gsl_vector_get (s->x, 0), gsl_vector_get (s->f, 0));
@@ -945,6 +949,8 @@ static apop_model * find_roots (infostruct p) {
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
+done:
+    gsl_set_error_handler(prior_handler);
     if (status == GSL_SUCCESS) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
-- 
2.43.0


From 3743166cca68c8eb60ad8d6c8f8717d275298174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 152/311] fix: searches that could not evaluate their starting
 point leaked and gave no status

---
 apop_mle.m4.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 09d1243..83b961b 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -424,6 +424,11 @@ static int is_flat(gsl_multimin_fdfminimizer *s){
     return 1;
 }
 
+static void failed_start(apop_model *est){
+    if (!est->info) est->info = apop_data_alloc();
+    apop_data_add_named_elmt(est->info, "status", -1);
+}
+
 static void apop_maximum_likelihood_w_d(apop_data * data, infostruct *i){
 /* The maximum likelihood calculations, given a derivative of the log likelihood.
 
@@ -459,7 +464,8 @@ Inside the infostruct, you'll find these elements:
         .params	= i};
     ctrl_c = 0;
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fdfminimizer_free(s); failed_start(est); return,
+                0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
     signal(SIGINT, mle_sigint);
     do { 	
@@ -507,7 +513,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); failed_start(est); return,
+                0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
     signal(SIGINT, mle_sigint);
-- 
2.43.0


From c58b8f1f31814389556cafde186a3d5c2991c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 153/311] fix: searches discarded the user's handler for
 interrupts

---
 apop_mle.m4.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 83b961b..0b249f9 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -467,7 +467,7 @@ Inside the infostruct, you'll find these elements:
         Apop_stopif(1, gsl_multimin_fdfminimizer_free(s); failed_start(est); return,
                 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
-    signal(SIGINT, mle_sigint);
+    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
     do { 	
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -486,7 +486,7 @@ Inside the infostruct, you'll find these elements:
             printf ("%5i %.5f  f()=%10.5f gradient=%.3f\n", iter, gsl_vector_get (s->x, 0),  s->f, gsl_vector_get(s->gradient,0));
         Apop_stopif(status == GSL_SUCCESS, apopstatus=0, 2, "Optimum found.");
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, NULL);
+    signal(SIGINT, prior_sigint);
 	Apop_stopif(iter==mp->max_iterations, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
@@ -517,7 +517,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
                 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
-    signal(SIGINT, mle_sigint);
+    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -542,7 +542,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
             }
         }
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, NULL);
+    signal(SIGINT, prior_sigint);
 	Apop_stopif(iter == mp->max_iterations && mp->verbose, /*continue*/, 
                 1, "Optimization reached maximum number of iterations.");
     if (status == GSL_SUCCESS) apopstatus = 0;
@@ -890,12 +890,14 @@ static void apop_annealing(infostruct *i){
     if (mp && mp->verbose>1)    printing_fn = annealing_print;
     else if (mp && mp->verbose) printing_fn = annealing_print2;
     annealing_check_constraint(i); //shift starting point if needed.
+    void (*volatile prior_sigint)(int) = SIG_DFL;
     if (setjmp(i->bad_eval_jump)) {
+        signal(SIGINT, prior_sigint);
         apopstatus = -1;
         goto done;
     }
     if (!setjmp(anneal_jump)){
-        signal(SIGINT, anneal_sigint);
+        prior_sigint = signal(SIGINT, anneal_sigint);
         gsl_siman_solve(r,    // const gsl_rng * r
           i,                  // void * x0_p
           annealing_energy,   // gsl_siman_Efunc_t Ef
@@ -908,7 +910,7 @@ static void apop_annealing(infostruct *i){
           betasize,           // size_t element_size
           simparams);         // gsl_siman_params_t params
     }
-    signal(SIGINT, NULL);
+    signal(SIGINT, prior_sigint);
     apop_data_unpack(i->beta, i->model->parameters); 
     apopstatus = 0;
 done:
-- 
2.43.0


From 0f3b7c0354354875f2723d5f50b46cd8f7be9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 154/311] fix: restarted estimates used the wrong starting
 point, and could crash or keep diverged parameters

---
 apop_mle.m4.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 0b249f9..f9cc305 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -744,38 +744,36 @@ APOP_VAR_HEAD apop_model * apop_estimate_restart (apop_model *e, apop_model *cop
     double apop_varad_var(boundary, 1e8);
 APOP_VAR_ENDHEAD
     gsl_vector *v = NULL;
+    int mine = !copy;
     if (!copy) copy = apop_model_copy(e);
     apop_mle_settings* prm0 = apop_settings_get_group(e, apop_mle);
     apop_mle_settings* prm = apop_settings_get_group(copy, apop_mle);
+    if (!prm) prm = Apop_model_add_group(copy, apop_mle);
             //copy off the old params; modify the starting pt, method, and scale
     if (!strcmp(starting_pt, "es"))
-        v = apop_array_to_vector(prm0->starting_pt);
-    else if (!strcmp(starting_pt, "ns")){
-        int size =sizeof(prm->starting_pt)/sizeof(double);
-        v = apop_array_to_vector(prm->starting_pt, size);
-        prm0->starting_pt	= malloc(sizeof(double)*size);
-        memcpy(prm0->starting_pt, prm->starting_pt, sizeof(double)*size);
-    }
-    else if (!strcmp(starting_pt, "np")){
+        prm->starting_pt = prm0 ? prm0->starting_pt : NULL;
+    else if (!strcmp(starting_pt, "ns"))
+        ; //use the starting point already in the settings.
+    else if (!strcmp(starting_pt, "np"))
         v = apop_data_pack(copy->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
-    }
-    else if (e->parameters){//"ep" or default.
+    else if (e->parameters)//"ep" or default.
         v = apop_data_pack(e->parameters); 
+    Apop_stopif(!apop_vector_bounded(v, boundary), gsl_vector_free(v); if (mine) apop_model_free(copy); return e, 
+                0, "Your model has diverged (element(s) > %g);"
+                   " returning your original model without restarting.", boundary);
+    if (v) {
         prm->starting_pt = malloc(sizeof(double)*v->size);
         memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
+        gsl_vector_free(v);
     }
-    Apop_stopif(!apop_vector_bounded(v, boundary), return e, 
-                0, "Your model has diverged (element(s) > %g);"
-                   " returning your original model without restarting.", boundary);
-    gsl_vector_free(v);
         
     apop_model *newcopy = apop_estimate(e->data, copy);
     apop_model_free(copy);
+    gsl_vector *newparams = apop_data_pack(newcopy->parameters);
+    int bounded = newparams && apop_vector_bounded(newparams, boundary);
+    gsl_vector_free(newparams);
     //Now check whether the new output is better than the old
-    if (apop_vector_bounded(newcopy->parameters->vector, boundary) 
-            && get_ll(e->data, newcopy) > get_ll(e->data, e)){
+    if (bounded && get_ll(e->data, newcopy) > get_ll(e->data, e)){
         apop_model_free(e);
         return newcopy;
     } //else:
-- 
2.43.0


From 4ac40d31d5d746f1daa0344179e83ff3e000772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 155/311] fix: remove settings groups that have no free
 function

---
 apop_settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_settings.c b/apop_settings.c
index a671d89..62b7a05 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -31,7 +31,8 @@ void apop_settings_remove_group(apop_model *m, char *delme){
  
     while (m->settings[i].name[0] !='\0'){
         if (m->settings[i].name_hash == delme_hash){
-            ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
+            if (m->settings[i].free)
+                ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
             for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
                 m->settings[j-1] = m->settings[j];
             i--;
-- 
2.43.0


From 658c143dc0aa2b46b21a67cdc82ac0b64ce49d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 156/311] fix: setting an element of a missing settings group
 reports an error instead of crashing

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index daa69ba..114083c 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1120,7 +1120,7 @@ apop_model *optimal_mix = apop_estimate(input_data, mix); //Everything is set up
         type ## _settings *apop_tmp_settings = apop_settings_get_grp(model, #type, 'c');  \
         Apop_stopif(!apop_tmp_settings, (model)->error='s', 0, "You're trying to modify a setting in " \
                         #model "'s setting group of type " #type " but that model doesn't have such a group."); \
-    apop_tmp_settings->setting = (data);                \
+        if (apop_tmp_settings) apop_tmp_settings->setting = (data); \
     } while (0);
 
 /** \cond doxy_ignore */
-- 
2.43.0


From e23b49f965d7ad53cf595dec85bdee3d8b9b7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 157/311] fix: apop_vtable_drop read past the end of the table

---
 apop_vtables.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index da4a4b1..455d9d1 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -56,7 +56,7 @@ int apop_vtable_drop(char const *tabname, unsigned long hash){
     lock
     for (int i=0; i< v->elmt_ct; i++)
         if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i));
+            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
             v->elmt_ct--;
             unlock
             return 0;
-- 
2.43.0


From c4284ce84b38c285e9031e5f3c05b331b184d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 158/311] fix: the hashes for predictions and parameter models
 ignored the likelihood

---
 apop.m4.h       | 4 ++--
 apop_model.m4.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 114083c..66f6cd2 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -534,11 +534,11 @@ typedef void (*apop_score_type)(apop_data *d, gsl_vector *gradient, apop_model *
 make_vtab_fns(apop_score)
 
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_parameter_model)
 
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_predict)
 
 typedef void (*apop_model_print_type)(apop_model *params, FILE *out);
diff --git a/apop_model.m4.c b/apop_model.m4.c
index bdb7b70..6753d75 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -349,7 +349,7 @@ The default is via resampling as above, but special-case calculations for certai
 
 \code
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + (m1).estimate ? (size_t)(m1).estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + ((m1).estimate ? (size_t)(m1).estimate: 27))
 \endcode
 */ 
 apop_model *apop_parameter_model(apop_data *d, apop_model *m){
@@ -475,7 +475,7 @@ There may be a second page (i.e., a \ref apop_data set attached to the <tt>->mor
 
 \code
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + (m1).estimate ? (size_t)(m1).estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1).log_likelihood ? (m1).log_likelihood : (m1).p)*33 + ((m1).estimate ? (size_t)(m1).estimate: 27))
 \endcode
 */
 apop_data *apop_predict(apop_data *d, apop_model *m){
-- 
2.43.0


From a9b3a91aa682fa770696c7362e90326ba1de1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 159/311] fix: count references to the draws of apop_cdf
 correctly

---
 apop_model.m4.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 6753d75..3d3183e 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -532,7 +532,7 @@ double apop_cdf(apop_data *d, apop_model *m){
     gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
     if (!cs->draws_made){
         if (m->dsize == -1) apop_prep(d, m);
-        Apop_stopif(m->dsize==0, return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
+        Apop_stopif(m->dsize==0, gsl_vector_free(ref); return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
         cs->draws_made = gsl_matrix_alloc(cs->draws, m->dsize);
         for (int i=0; i< cs->draws; i++)
             apop_draw((Apop_mrv(cs->draws_made, i))->data, cs->rng, m);
@@ -551,10 +551,16 @@ Apop_settings_init(apop_cdf,
 )
 
 Apop_settings_free(apop_cdf,
-    if (in->draws_made && !--*in->draws_refcount)
+    if (!--*in->draws_refcount){
         gsl_matrix_free(in->draws_made);
+        free(in->draws_refcount);
+    }
 )
 
 Apop_settings_copy(apop_cdf,
-    ++*out->draws_refcount;
+    if (out->draws_made) ++*out->draws_refcount;
+    else { //each copy will make and own its own draws.
+        out->draws_refcount = malloc(sizeof(int));
+        *out->draws_refcount = 1;
+    }
 )
-- 
2.43.0


From e5c0e2bb8014a0bf4235b12d2870d62fa395f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 160/311] fix: apop_parameter_model miscounted the elements of
 parameter matrices

---
 apop_model.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 3d3183e..d1641cf 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -361,7 +361,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
     else if (d){
         Get_vmsizes(m->parameters);//vsize, msize1, msize2
         apop_model *out = apop_model_copy(apop_multivariate_normal);
-        out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1+msize2;
+        out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1*msize2;
         out->parameters = apop_bootstrap_cov(d, m, settings->rng, settings->draws);
         out->parameters->vector = apop_data_pack(m->parameters);
         if (settings->index == -1)
@@ -376,7 +376,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
         }
     } //else
     Get_vmsizes(m->parameters);//vsize, msize1, msize2
-    apop_data *param_draws = apop_data_alloc(0, settings->draws, vsize+msize1+msize2);
+    apop_data *param_draws = apop_data_alloc(0, settings->draws, vsize+msize1*msize2);
     for (int i=0; i < settings->draws; i++){
         apop_model *mm = apop_estimate (NULL, m);//If you're here, d==NULL.
         apop_data_pack(mm->parameters, Apop_rv(param_draws, i));
-- 
2.43.0


From 1af91a17c146b61afdcc723bf763ec3a880d235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 161/311] fix: apop_parameter_model gave the Normal a variance
 where it takes a standard deviation

---
 apop_model.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index d1641cf..96d649c 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -369,7 +369,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
         else {
             apop_model *out2 = apop_model_set_parameters(apop_normal, 
                     apop_data_get(out->parameters, settings->index, -1), //mean
-                    apop_data_get(out->parameters, settings->index, settings->index)//var
+                    sqrt(apop_data_get(out->parameters, settings->index, settings->index))//sigma
                     );
             apop_model_free(out);
             return out2;
-- 
2.43.0


From 76bbbff00e3d87ad0596001d724f076739f33410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 162/311] fix: estimating from an estimated model kept the
 earlier results

---
 apop_model.m4.c     |  8 ++++++++
 model/apop_probit.c |  2 ++
 model/apop_t.c      | 11 ++++++++---
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 96d649c..cd47f0e 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -227,6 +227,14 @@ MLE settings.
 */
 apop_model *apop_estimate(apop_data *d, apop_model *m){
     apop_model *out = apop_model_copy(m);
+    //If m is itself an estimate, then its results and data are not those of this estimation.
+    if (out->info){
+        apop_data_free(out->info);
+        out->info = apop_data_alloc();
+    }
+    if (out->parameters && apop_data_get_page(out->parameters, "<Covariance>"))
+        apop_data_rm_page(out->parameters, "<Covariance>");
+    if (d) out->data = NULL;
     apop_prep(d, out);
     if (out->estimate) out->estimate(d, out); 
     else               apop_maximum_likelihood(d, out);
diff --git a/model/apop_probit.c b/model/apop_probit.c
index f7fca2e..12bccde 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -53,6 +53,8 @@ static void probit_prep(apop_data *d, apop_model *m){
         apop_name_add(m->parameters->names, factor_list->text[i][0], 'c');
     gsl_matrix_set_all(m->parameters->matrix, 1);
     char *tmp = strdup(m->name);
+    char *prior_numeraire = strstr(tmp, " with ");
+    if (prior_numeraire) *prior_numeraire = '\0'; //m was estimated before.
     snprintf(m->name, 100, "%s with %s as numeraire", tmp, factor_list->text[0][0]);
     free(tmp);
 
diff --git a/model/apop_t.c b/model/apop_t.c
index c932c58..c0d1958 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -18,9 +18,14 @@ static void apop_t_estimate(apop_data *d, apop_model *m){
    }
     double mu = (vmu *vsize + mmu * msize1*msize2)/tsize;
     double sum_sq = v_sum_sq + vsize*gsl_pow_2(vmu-mu) + m_sum_sq + msize1*msize2*gsl_pow_2(mmu-mu);
-    apop_data_add_named_elmt(m->parameters, "μ", mu);
-    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * sum_sq/(tsize-1))); 
-    apop_data_add_named_elmt(m->parameters, "df", tsize-1);
+    apop_data_set(m->parameters, 0, -1, mu);
+    apop_data_set(m->parameters, 1, -1, sqrt(((tsize-3.)/(tsize-1)) * sum_sq/(tsize-1)));
+    apop_data_set(m->parameters, 2, -1, tsize-1);
+    if (!m->parameters->names->rowct){
+        apop_name_add(m->parameters->names, "μ", 'r');
+        apop_name_add(m->parameters->names, "σ", 'r');
+        apop_name_add(m->parameters->names, "df", 'r');
+    }
     apop_data_add_named_elmt(m->info, "log likelihood", m->log_likelihood(d, m));
 }
 
-- 
2.43.0


From f910337446d93d035b38252e85576c143f82b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 163/311] fix: copies of a kernel density used a kernel and PMF
 freed with the original

---
 model/apop_kerneld.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index f3c8d1b..b23bc58 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -65,8 +65,9 @@ Apop_settings_init(apop_kernel_density,
 )
 
 Apop_settings_copy(apop_kernel_density,
-    out->own_pmf    =
-    out->own_kernel = 0;
+    //the original frees what it owns, so the copy needs its own.
+    if (in->own_pmf)    out->base_pmf = apop_model_copy(in->base_pmf);
+    if (in->own_kernel) out->kernel = apop_model_copy(in->kernel);
 )
 
 Apop_settings_free(apop_kernel_density,
-- 
2.43.0


From 574f8f39798ddb06419e26772899167d2af109b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 164/311] fix: mixtures: copies shared the component models and
 weights, and freed one another's parts

---
 apop.m4.h                |  5 ++--
 transform/apop_mixture.c | 54 +++++++++++++++++++++++-----------------
 2 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 66f6cd2..be6042c 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1657,12 +1657,13 @@ typedef struct {
     apop_model **model_list; /**< A \c NULL-terminated list of component models. */
     int model_count;
     int *param_sizes;  /**< The number of parameters for each model. Useful for unpacking the params. */
-    apop_model *cmf;   /**< For internal use by the draw method. */
-    int *cmf_refct;    /**< For internal use, so I can garbage-collect the CMF when needed. */
     char find_weights; /**< By default, weights are fixed. Set this b \c 'y' to allow \ref apop_estimate to
                             use an EM algorithm to find the optimal weights.
                             See the documentation for \ref apop_mixture for details. */
     gsl_vector *next_weights; /**< For internal use.*/
+    gsl_vector *own_weights;  /**< For internal use: weights that this group allocated. */
+    apop_model **own_list;    /**< For internal use: a model list that this group allocated. */
+    int own_models;           /**< For internal use: are the models on that list to be freed with this group? */
 } apop_mixture_settings;
 
     //Models built via call to apop_model_copy_set.
diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 663ed6b..c160574 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -96,25 +96,30 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 
 #include "apop_internal.h"
 
+//A copy has weights and component models of its own, because an estimation modifies them.
 Apop_settings_copy(apop_mixture,
-    (*out->cmf_refct)++;
-    out->next_weights = apop_vector_copy(in->next_weights);
+    if (in->next_weights) out->next_weights = apop_vector_copy(in->next_weights);
+    out->own_weights = NULL;
+    if (in->weights) out->weights = out->own_weights = apop_vector_copy(in->weights);
+    out->param_sizes = malloc(sizeof(int)*in->model_count);
+    memcpy(out->param_sizes, in->param_sizes, sizeof(int)*in->model_count);
+    out->own_list = malloc(sizeof(apop_model*)*(in->model_count+1));
+    for (int i=0; i< in->model_count; i++) out->own_list[i] = apop_model_copy(in->model_list[i]);
+    out->own_list[in->model_count] = NULL;
+    out->model_list = out->own_list;
+    out->own_models = 1;
 )
 
 Apop_settings_free(apop_mixture,
-    if (!(--in->cmf_refct)) {
-        apop_model_free(in->cmf);
-        free(in->cmf_refct);
-        free(in->model_list);
-    }
+    if (in->own_models)
+        for (apop_model **m = in->own_list; *m; m++) apop_model_free(*m);
+    free(in->own_list);
     free(in->param_sizes);
+    gsl_vector_free(in->own_weights);
     gsl_vector_free(in->next_weights);
 ) 
 
-Apop_settings_init(apop_mixture, 
-    out->cmf_refct = calloc(1, sizeof(int));
-    (*out->cmf_refct)++;
-)
+Apop_settings_init(apop_mixture, )
 
 //see apop_model_mixture in types.h
 apop_model *apop_model_mixture_base(apop_model **inlist){
@@ -128,12 +133,13 @@ apop_model *apop_model_mixture_base(apop_model **inlist){
     inlist_copy[ctr] = NULL;
 
     apop_mixture_settings *ms =Apop_settings_add_group(out, apop_mixture, .model_list=inlist_copy,
-            .model_count=count, .param_sizes=malloc(sizeof(int)*count));
+            .model_count=count, .param_sizes=calloc(count, sizeof(int)));
     int dsize = inlist[0]->dsize;
     for (int i=1; i< count && dsize > -99; i++) if (inlist[i]->dsize != dsize) dsize = -100;
     if (dsize > -99) out->dsize = dsize;
 
-    ms->weights = gsl_vector_alloc(ms->model_count);
+    ms->own_list = inlist_copy;
+    ms->weights = ms->own_weights = gsl_vector_alloc(ms->model_count);
     gsl_vector_set_all(ms->weights, 1./count);
     return out;
 }
@@ -277,17 +283,19 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
 
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
-    OMP_critical (mixdraw)
-    if (!ms->cmf){
-        ms->cmf = apop_model_copy(apop_pmf);
-        ms->cmf->data = apop_data_alloc();
-        ms->cmf->data->weights = apop_vector_copy(ms->weights);
-        Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y');
+    long double total = apop_sum(ms->weights);
+    Apop_stopif(!(total > 0) || !isfinite(total), *out=GSL_NAN; return 1,
+            0, "Couldn't select a mixture element, because the weights sum to %Lg.", total);
+    double draw = gsl_rng_uniform(r)*total;
+    int index = -1; //the last component with any weight, if rounding keeps us from stopping before then.
+    long double cumulative = 0;
+    for (int i=0; i< ms->model_count && (index < 0 || draw >= cumulative); i++){
+        double wt = gsl_vector_get(ms->weights, i);
+        if (!wt) continue;
+        cumulative += wt;
+        index = i;
     }
-    double index; 
-    Apop_stopif(apop_draw(&index, r, ms->cmf), return 1, 
-            0, "Couldn't select a mixture element using the internal PMF over mixture elements.");
-    return apop_draw(out, r, ms->model_list[(int)index]);
+    return apop_draw(out, r, ms->model_list[index]);
 }
 
 static long double mixture_cdf(apop_data *d, apop_model *model_in){
-- 
2.43.0


From b835018caf85d3a31fe21842a7f9452873e9dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 165/311] fix: mixtures: the log likelihood added the weights
 to the components' log likelihoods, not the log of the weights

---
 transform/apop_mixture.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index c160574..1d90531 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -241,9 +241,10 @@ static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_data *lls = get_lls(d, model_in);
 
     //reweight by last round's lambda 
+    long double total_weight = apop_sum(ms->weights);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
-        gsl_vector_add_constant(onecol, gsl_vector_get(ms->weights, i));
+        gsl_vector_add_constant(onecol, logl(gsl_vector_get(ms->weights, i)/total_weight));
     }
 
 //OK, now we need the λs, and then the max ll for each observation
-- 
2.43.0


From 0b8e79fd79c20b104180f782ec65d2e516d4571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 166/311] fix: mixtures: the weights for the next step were NaN
 if a component gives some point no probability

---
 transform/apop_mixture.c | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 1d90531..916293b 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -216,23 +216,6 @@ apop_data* get_lls(apop_data *d, apop_model *m){
     return out;
 }
 
-/* The trick to summing exponents: subtract the max:
-
-let ll_M be the max LL. then
-Σexp(ll) = exp(llM)*(exp(ll₁-llM)+exp(ll₂-llM)+exp(ll₃-llM))
-
-One of the terms in the sum is exp(0)=1. The others are all less than one, and so we
-are guaranteed no overflow. If any of them underflow, then that term must not have
-been very important for the sum.
-*/
-static long double sum_exp_vector(gsl_vector const *onerow){
-    long double rowtotal = 0;
-    double best = gsl_vector_max(onerow);
-    for (int j=0; j<onerow->size; j++) rowtotal += exp(gsl_vector_get(onerow, j)-best);
-    rowtotal *= exp(best);
-    return rowtotal;
-}
-
 static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_mixture_settings *ms = Apop_settings_get_group(model_in, apop_mixture);
     Apop_stopif(!ms, model_in->error='p'; return GSL_NAN, 0, "No apop_mixture_settings group. "
@@ -254,31 +237,26 @@ Draw probabilities are p₁/Σp p₂/Σp p₃/Σp (see equation (2) of the above
 But I have logs, and want to stay in log-format for as long as possible, to prevent undeflows and loss of precision.
 */
     long double total_ll=0;
-    gsl_vector *ps = gsl_vector_alloc(lls->matrix->size2);
-    gsl_vector *cp = gsl_vector_alloc(lls->matrix->size2);
     for (int i=0; i< lls->matrix->size1; i++){
         Apop_row_v(lls, i, onerow);
-        total_ll += gsl_vector_max(onerow);
+        double best = gsl_vector_max(onerow);
+        total_ll += best;
+        //Subtract the max, so there is no overflow, and what underflows is not important for the sum.
+        long double rowtotal = 0;
         for (int j=0; j < onerow->size; j++){
-            gsl_vector_memcpy(cp, onerow);
-            gsl_vector_add_constant(cp, -gsl_vector_get(onerow, j));
-            gsl_vector_set(ps, j, 1./sum_exp_vector(cp));
+            double ll = gsl_vector_get(onerow, j);
+            gsl_vector_set(onerow, j, best == -INFINITY ? 1 : exp(ll-best));
+            rowtotal += gsl_vector_get(onerow, j);
         }
-        gsl_vector_memcpy(onerow, ps);
-
-        Apop_stopif(fabs(apop_sum(onerow) - 1) > 1e-3, /*Warn user, but continue.*/, 0,
-                "One of the probability calculations is off: the total for the odds of drawing "
-                "from the %i mixtures is %g but should be 1.", 
-                ms->model_count, fabs(apop_sum(onerow) - 1));
+        gsl_vector_scale(onerow, 1/rowtotal);
     }
-    gsl_vector_free(cp);
-    gsl_vector_free(ps);
 
     if (!ms->next_weights) ms->next_weights = gsl_vector_alloc(ms->weights->size);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
         gsl_vector_set(ms->next_weights, i, apop_sum(onecol)/lls->matrix->size1);
     }
+    apop_data_free(lls);
     return total_ll;
 }
 
-- 
2.43.0


From a6cf4a9c353b94e55a412869ecfd5b4f3af9ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 167/311] fix: mixtures: a component with no parameters or
 constraint broke the others, and constraints wrote over the weights

---
 transform/apop_mixture.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 916293b..20ddf64 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -185,11 +185,11 @@ void unpack(apop_model *min){
     //here, pre-calced weights are overwritten.
     if (posn && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N') && ms->next_weights)
         gsl_vector_memcpy(ms->weights, Apop_rs(min->parameters, 0, posn)->vector);
-    for (apop_model **m = ms->model_list; *m; m++){
+    for (apop_model **m = ms->model_list; *m; m++, i++){
         if (!ms->param_sizes[i]) continue; //NULL params
         gsl_vector v = gsl_vector_subvector(min->parameters->vector, posn, ms->param_sizes[i]).vector;
         apop_data_unpack(&v, (*m)->parameters);
-        posn+=ms->param_sizes[i++];
+        posn+=ms->param_sizes[i];
     }
 }
 
@@ -292,14 +292,14 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     unpack(model_in);
     //check all component models.
     for (apop_model **m = ms->model_list; *m; m++)
-        penalty += (*m)->constraint(data, *m);
+        if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
-        int posn=0, i=0;
-        for (apop_model **m = ms->model_list; *m; m++){
+        int posn=(ms->weights ? ms->weights->size : 0), i=0;
+        for (apop_model **m = ms->model_list; *m; m++, i++){
             if (!ms->param_sizes[i]) continue; //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
             apop_data_pack((*m)->parameters, &v);
-            posn+=ms->param_sizes[i++];
+            posn+=ms->param_sizes[i];
         }
     }
     if (ms->next_weights && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N')){
-- 
2.43.0


From 475ba847aeefd2db1cbe7ec9f93ad7a0f5c549fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 168/311] fix: mixtures: draws ignored the model's parameters
 until a likelihood was calculated

---
 transform/apop_mixture.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 20ddf64..8dda282 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -188,7 +188,14 @@ void unpack(apop_model *min){
     for (apop_model **m = ms->model_list; *m; m++, i++){
         if (!ms->param_sizes[i]) continue; //NULL params
         gsl_vector v = gsl_vector_subvector(min->parameters->vector, posn, ms->param_sizes[i]).vector;
-        apop_data_unpack(&v, (*m)->parameters);
+        //Other threads may be using the component, so don't write to it if there is nothing to change.
+        gsl_vector *now = apop_data_pack((*m)->parameters);
+        for (size_t j=0; j< v.size; j++)
+            if (gsl_vector_get(now, j) != gsl_vector_get(&v, j)){
+                apop_data_unpack(&v, (*m)->parameters);
+                break;
+            }
+        gsl_vector_free(now);
         posn+=ms->param_sizes[i];
     }
 }
@@ -262,6 +269,8 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
 
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
+    OMP_critical (mixdraw)
+    unpack(m);
     long double total = apop_sum(ms->weights);
     Apop_stopif(!(total > 0) || !isfinite(total), *out=GSL_NAN; return 1,
             0, "Couldn't select a mixture element, because the weights sum to %Lg.", total);
-- 
2.43.0


From 38fb25a08925baf634342de6981fcb53e0cb3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 169/311] fix: cross products leaked estimated models, or
 shared them with copies

---
 apop.m4.h              |  2 ++
 transform/apop_cross.c | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index be6042c..2054931 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1615,6 +1615,8 @@ typedef struct {
     char *splitpage;    /**< The name of the page at which to split the data. If \c NULL, I send the entire data set to both models as needed. */
     apop_model *model1; /**< The first model in the stack.*/
     apop_model *model2; /**< The second model.*/
+    apop_model *own1;   /**< For internal use: a first model that is to be freed with this group. */
+    apop_model *own2;   /**< For internal use: a second model that is to be freed with this group. */
 } apop_cross_settings;
 
 typedef struct {
diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index 9bcaeed..b1ca89b 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -21,8 +21,21 @@ currently \c NULL; check the sub-models for their parameters.
 #include "apop_internal.h"
 
 Apop_settings_init(apop_cross, )
-Apop_settings_copy(apop_cross, )
-Apop_settings_free(apop_cross, )
+Apop_settings_copy(apop_cross,
+    //The original frees what it owns, so the copy needs its own.
+    if (in->own1){
+        out->own1 = apop_model_copy(in->own1);
+        if (in->model1 == in->own1) out->model1 = out->own1;
+    }
+    if (in->own2){
+        out->own2 = apop_model_copy(in->own2);
+        if (in->model2 == in->own2) out->model2 = out->own2;
+    }
+)
+Apop_settings_free(apop_cross,
+    apop_model_free(in->own1);
+    apop_model_free(in->own2);
+)
 
 
 /* For (almost) all methods, the workings are:
@@ -103,8 +116,12 @@ void cross_print(apop_model *m, FILE *out){
 static void cross_est(apop_data *d, apop_model *m){
     Preliminaries();
 
-    s->model1 = apop_estimate(datas.d1, s->model1);
-    s->model2 = apop_estimate(datas.d2, s->model2);
+    apop_model *est1 = apop_estimate(datas.d1, s->model1);
+    apop_model *est2 = apop_estimate(datas.d2, s->model2);
+    apop_model_free(s->own1);
+    apop_model_free(s->own2);
+    s->model1 = s->own1 = est1;
+    s->model2 = s->own2 = est2;
 
     repaste(datas);
 }
@@ -146,7 +163,7 @@ apop_model *apop_model_cross_base(apop_model *mlist[]){
     Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
-    Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2);
+    Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2, .own2= mlist[2] ? m2 : NULL);
     if (mlist[0]->dsize >=0 && m2->dsize >=0) out->dsize = mlist[0]->dsize + m2->dsize;
     return out;
 }
-- 
2.43.0


From 58ec322e112b3bc156e34a696f16b1d911ef88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 170/311] fix: apop_model_cross of no models or one model
 crashed

---
 transform/apop_cross.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index b1ca89b..c0139c8 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -158,9 +158,9 @@ apop_model *apop_cross = &(apop_model){"Cross product of models", .p=cross_p, .l
 
 apop_model *apop_model_cross_base(apop_model *mlist[]){
     apop_model_print_vtable_add(cross_print, apop_cross);
-    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='i', 
+    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='n'; return oute,
                             0, "No inputs. Returning blank model with outmodel->error=='n'.");
-    Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
+    Apop_stopif(!mlist[1], return apop_model_copy(mlist[0]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
     Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2, .own2= mlist[2] ? m2 : NULL);
-- 
2.43.0


From 129050a0f30ff68a9a3a3ac6821105c7d737b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 171/311] fix: cross products of data with a split page misread
 matrices on the first page and rows of draws

---
 transform/apop_cross.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index c0139c8..4343434 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -53,28 +53,30 @@ typedef struct {
 
 
 /* A model must accept data in the form of each observation being a single row of
-   data---i.e., each row is what you'd get from apop_draw.
-    If the length of the data matrix is longer than the first model's stated msize2,
-    then we have to unpack the draw into two new apop_data sets.
+   data---i.e., each row is what you'd get from apop_draw. Those of the first model
+   come first.
 */
 twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
+    int len1 = s->model1->dsize;
+    int len2 = d->matrix->size2 - len1;
     twop_s out = (twop_s){
-        .d1 = (s->model1 ? apop_data_alloc(s->model1->vsize, s->model1->msize1, s->model1->msize2) : NULL),
-        .d2 = (s->model2 ? apop_data_alloc(s->model2->vsize, s->model2->msize1, s->model2->msize2) : NULL),
+        .d1 = apop_data_alloc(d->matrix->size1, len1),
+        .d2 = apop_data_alloc(d->matrix->size1, len2),
         .need_to_free=1};
-    int len1 = s->model1->vsize + s->model1->msize1 * s->model1->msize2;
-    for (int i=0; i< d->matrix->size1; i++){
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), 0, len1), Apop_r(out.d1, i));
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), len1, d->matrix->size1), Apop_r(out.d2, i));
-      }
+    gsl_matrix_view first = gsl_matrix_submatrix(d->matrix, 0, 0, d->matrix->size1, len1);
+    gsl_matrix_view second = gsl_matrix_submatrix(d->matrix, 0, len1, d->matrix->size1, len2);
+    gsl_matrix_memcpy(out.d1->matrix, &first.matrix);
+    gsl_matrix_memcpy(out.d2->matrix, &second.matrix);
+    if (d->weights){
+        out.d1->weights = apop_vector_copy(d->weights);
+        out.d2->weights = apop_vector_copy(d->weights);
+    }
     return out;
 }
 
 static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
     twop_s out = {.d1=d, .d2=d};
     if (splitpage) {
-        if (d->matrix && (d->matrix->size2 > s->model1->msize2))
-            return unpack_a_draw(d, s);
         apop_data *ctr = d;
         if (!ctr ||(ctr->names && ctr->names->title && !strcasecmp(ctr->names->title, splitpage))){
             out.d1 = NULL;
@@ -83,6 +85,8 @@ static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
         }
         for ( ; ctr->more && (!ctr->more->names || !ctr->more->names->title || strcasecmp(ctr->more->names->title, splitpage)); ) 
             ctr = ctr->more; 
+        if (!ctr->more && d->matrix && s->model1->dsize > 0 && d->matrix->size2 > s->model1->dsize)
+            return unpack_a_draw(d, s);
         out.d2 = ctr->more;
         out.dangly_bit = ctr;
         ctr->more = NULL; //the only change to the original data set.
-- 
2.43.0


From e7ea74de9ad323b5f2f42b1b619bb83d398c16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 172/311] fix: data-constrained models modified the base model
 they were given (even a built-in one), and shared parameters that both freed

---
 apop.m4.h                   |  2 +-
 transform/apop_dconstrain.c | 39 ++++++++++++++++++++++++++++++-------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 2054931..3e12325 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1639,7 +1639,7 @@ typedef struct {
                        set this to zero to have the scaling recalculated. */
     gsl_vector *last_params; /**< The parameters used to calculate \c scale. If these change, recalculate. */
     int draw_ct; /**< How many draws to make for calculating the in-constraint model density via random draws. Current default: 1e4. */
-    int refct; /**< For internal use. */
+    int own_params; /**< For internal use: does \c base_model have parameters of its own? */
 } apop_dconstrain_settings;
 
 typedef struct {
diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index ff3b9e5..33e84bf 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -33,10 +33,13 @@ models. Note the use of \ref apop_model_set_settings to prepare the constrained
 \adoc Settings   \ref apop_dconstrain_settings
 */
 
+static void share_params(apop_model *m, apop_dconstrain_settings *cs);
+
 #define Get_set(inmodel, outval) \
     apop_dconstrain_settings *cs = Apop_settings_get_group(inmodel, apop_dconstrain); \
     Apop_stopif(!cs, return outval, 0, "At this point, I expect your model to" \
-            "have an apop_dconstrain_settings group.");
+            "have an apop_dconstrain_settings group."); \
+    share_params(inmodel, cs);
 
 //what percent of the model density is inside the constraint?
 static double get_scaling(apop_model *m){
@@ -55,21 +58,43 @@ Apop_settings_init(apop_dconstrain,
     Apop_stopif(!in.base_model, , 0, "I need a .base_model.");
     Apop_stopif(!in.constraint, , 0, "I need a .constraint.");
     if (!in.draw_ct) out->draw_ct = 1e4;
-    if (!in.rng && !in.scaling) out->rng = apop_rng_alloc(apop_opts.rng_seed++);
     if (!in.scaling) out->scaling = get_scaling;
+    //Estimation modifies the base model's parameters, so use a copy of what was sent in.
+    out->base_model = in.base_model ? apop_model_copy(in.base_model) : NULL;
+    out->own_params = 1;
 )
 
-Apop_settings_copy(apop_dconstrain, in->refct++;)
-Apop_settings_free(apop_dconstrain, in->refct--;
-        if(!in->refct) gsl_vector_free(in->last_params);
+Apop_settings_copy(apop_dconstrain,
+    if (in->base_model) out->base_model = apop_model_copy(in->base_model);
+    out->own_params = 1;
+    out->last_params = in->last_params ? apop_vector_copy(in->last_params) : NULL;
+)
+Apop_settings_free(apop_dconstrain,
+    if (in->base_model && !in->own_params) in->base_model->parameters = NULL; //they are the constrained model's.
+    apop_model_free(in->base_model);
+    gsl_vector_free(in->last_params);
 )
 
+//The base model's parameters are the constrained model's parameters.
+static void share_params(apop_model *m, apop_dconstrain_settings *cs){
+    OMP_critical (dconstrain_share)
+    if (m->parameters && cs->base_model && cs->base_model->parameters != m->parameters){
+        if (cs->own_params) apop_data_free(cs->base_model->parameters);
+        cs->base_model->parameters = m->parameters;
+        cs->own_params = 0;
+    }
+}
+
 static void dc_prep(apop_data *d, apop_model *m){
     apop_dconstrain_settings *cs = Apop_settings_get_group(m, apop_dconstrain); 
-    Apop_stopif(!cs, m->error='s', 0, "missing apop_dconstrainct_settings group. "
+    Apop_stopif(!cs || !cs->base_model, m->error='s'; return, 0, "missing apop_dconstrainct_settings group or its base model. "
             "Maybe initialize this with apop_model_dconstrain?");
     apop_prep(d, cs->base_model);
-    m->parameters=cs->base_model->parameters;
+    if (m->parameters) share_params(m, cs);
+    else {
+        m->parameters=cs->base_model->parameters;
+        cs->own_params = 0;
+    }
     m->constraint=cs->base_model->constraint;
     m->vsize = cs->base_model->vsize;
     m->msize1 = cs->base_model->msize1;
-- 
2.43.0


From cb5ee6a13b717f1bc47d943287d9d879a37ad027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 173/311] fix: transformed models modified the base model they
 were given (even a built-in one), and shared parameters that both freed

---
 apop.m4.h                             |  1 +
 transform/apop_coordinate_transform.c | 34 +++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 3e12325..d56256d 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1624,6 +1624,7 @@ typedef struct {
     apop_data *(*transformed_to_base)(apop_data*); /**< The function to transform from post-transform space back to pre-transform space. If this function does not exist, using a Jacobian-based transformation is probably not mathematically correct. */
     double (*jacobian_to_base)(apop_data*); /**< The derivative of the \c transformed_to_base function. */
     apop_model *base_model;  /**< The pre-transformation model. */
+    int own_params; /**< For internal use: does \c base_model have parameters of its own? */
 } apop_coordinate_transform_settings;/**< Settings for an \ref apop_coordinate_transform model; see its documentation for notes and an example.
 */
 
diff --git a/transform/apop_coordinate_transform.c b/transform/apop_coordinate_transform.c
index cc682b5..14bae97 100644
--- a/transform/apop_coordinate_transform.c
+++ b/transform/apop_coordinate_transform.c
@@ -14,21 +14,45 @@ apop_model_copy_set to set up a model with the given settings.
 
 Apop_settings_init(apop_coordinate_transform,
     Apop_stopif(!in.base_model, , 0, "I need a .base_model.");
+    //Estimation modifies the base model's parameters, so use a copy of what was sent in.
+    out->base_model = in.base_model ? apop_model_copy(in.base_model) : NULL;
+    out->own_params = 1;
 )
-Apop_settings_copy(apop_coordinate_transform,)
-Apop_settings_free(apop_coordinate_transform,)
+Apop_settings_copy(apop_coordinate_transform,
+    if (in->base_model) out->base_model = apop_model_copy(in->base_model);
+    out->own_params = 1;
+)
+Apop_settings_free(apop_coordinate_transform,
+    if (in->base_model && !in->own_params) in->base_model->parameters = NULL; //they are the transformed model's.
+    apop_model_free(in->base_model);
+)
+
+//The base model's parameters are the transformed model's parameters.
+static void share_params(apop_model *m, apop_coordinate_transform_settings *cs){
+    OMP_critical (transform_share)
+    if (m->parameters && cs->base_model && cs->base_model->parameters != m->parameters){
+        if (cs->own_params) apop_data_free(cs->base_model->parameters);
+        cs->base_model->parameters = m->parameters;
+        cs->own_params = 0;
+    }
+}
 
 #define Get_cs(inmodel, outval) \
     apop_coordinate_transform_settings *cs = Apop_settings_get_group(inmodel, apop_coordinate_transform); \
     Apop_stopif(!cs, return outval, 0, "At this point, I expect your model to" \
-            "have an apop_coordinate_transform_settings group.");
+            "have an apop_coordinate_transform_settings group."); \
+    share_params(inmodel, cs);
 
 static void jacobian_prep(apop_data *d, apop_model *m){
     apop_coordinate_transform_settings *cs = Apop_settings_get_group(m, apop_coordinate_transform); 
-    Apop_stopif(!cs, m->error='s', 0, "missing apop_coordinate_transform_settings group. "
+    Apop_stopif(!cs || !cs->base_model, m->error='s'; return, 0, "missing apop_coordinate_transform_settings group or its base model. "
             "Maybe initialize this with apop_model_coordinate_transform?");
     apop_prep(d, cs->base_model);
-    m->parameters=cs->base_model->parameters;
+    if (m->parameters) share_params(m, cs);
+    else {
+        m->parameters=cs->base_model->parameters;
+        cs->own_params = 0;
+    }
     m->dsize=cs->base_model->dsize;
 }
 
-- 
2.43.0


From af3cd10b2f2acdd9e5b47356b0409361d7100bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 174/311] fix: models with fixed parameters leaked their
 fill-in table, or shared it with copies

---
 transform/apop_fix_params.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 53bbccb..7114030 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -119,8 +119,12 @@ static void pack(apop_data *in, apop_model *m){
 Apop_settings_init(apop_fix_params, 
     Apop_assert(in.base_model, "I can't fix a NULL model's parameters.");
 )
-Apop_settings_copy(apop_fix_params, )
-Apop_settings_free(apop_fix_params, )
+Apop_settings_copy(apop_fix_params,
+    out->predict = apop_data_copy(in->predict);
+)
+Apop_settings_free(apop_fix_params,
+    apop_data_free(in->predict);
+)
 
 static long double fix_params_ll(apop_data *d, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
-- 
2.43.0


From 251f9b1588cd0c5cb5e5b0064f546aacf780d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 175/311] fix: regenerate a changed apop.h before building the
 subdirectories that include it

---
 install/Makefile.am | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/Makefile.am b/install/Makefile.am
index 6bd7fc5..8e35482 100644
--- a/install/Makefile.am
+++ b/install/Makefile.am
@@ -21,6 +21,7 @@ SUBDIRS = transform model . cmd eg tests docs
 
 
 include_HEADERS = apop.h
+BUILT_SOURCES = apop.h
 
 pkgconfigdir = $(libdir)/pkgconfig
 pkgconfig_DATA= apophenia.pc
-- 
2.43.0


From d9449b58382f0b4dd00ccc24d4bc580f1c2dbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 176/311] fix: models with fixed parameters read free
 parameters on later pages from the first page

---
 transform/apop_fix_params.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 7114030..114b872 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -86,7 +86,6 @@ static void apop_data_predict_fill(apop_data *data, apop_data *predict){
 typedef struct {
     apop_model *base_model;
     apop_data *predict;
-    int ct;
 } apop_fix_params_settings;
 /** \endcond */ //End of Doxygen ignore.
 
@@ -101,14 +100,14 @@ static void unpack(apop_data *out, apop_model *m){
 static void pack(apop_data *in, apop_model *m){
     //real param set --> predict table 
    apop_fix_params_settings *mset = Apop_settings_get_group(m, apop_fix_params);
-   apop_data *predict = mset->predict;
+    apop_data *predict = mset->predict;
+    int this_page_ct = 0;
     for(int i =0; i< predict->matrix->size1; i++){
+        int p = apop_data_get(predict, .row=i, .colname="page");
+        for ( ; this_page_ct < p; this_page_ct++) in = in->more; //pages are in order, but may be skipped.
         apop_data_set(predict, .row =i, .colname="value", .val=apop_data_get(in, 
                                                         apop_data_get(predict, .row=i, .colname="row"),
                                                         apop_data_get(predict, .row=i, .colname="col")));
-        if (i< mset->ct-1 && apop_data_get(predict, .row= i+1, .colname="page") 
-                                != apop_data_get(predict, .row= i, .colname="page"))
-            in = in->more;
     }
    Apop_col_tv(mset->predict, "value", p_in_tab);
    if (m->parameters) //empty only during set_starting_point
-- 
2.43.0


From caed45ea4c28737e955de0fa2efa6b4f64580e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 177/311] fix: drawing from a model with fixed parameters in
 several threads raced on the base model

---
 transform/apop_fix_params.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 114b872..f650e38 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -89,12 +89,30 @@ typedef struct {
 } apop_fix_params_settings;
 /** \endcond */ //End of Doxygen ignore.
 
+static int is_unpacked(apop_data *page, gsl_vector *params, apop_data *predict){
+    int this_page_ct = 0;
+    for (int i=0; i < predict->matrix->size1; i++){
+        int p = apop_data_get(predict, .row=i, .colname="page");
+        for ( ; this_page_ct < p; this_page_ct++) page = page->more;
+        double val = gsl_vector_get(params, i);
+        if (val != apop_data_get(predict, .row=i, .colname="value")
+            || val != apop_data_get(page, .row= apop_data_get(predict, .row=i, .colname="row"),
+                                          .col= apop_data_get(predict, .row=i, .colname="col")))
+            return 0;
+    }
+    return 1;
+}
+
 static void unpack(apop_data *out, apop_model *m){
     //predict table --> real param set 
    apop_fix_params_settings *mset = Apop_settings_get_group(m, apop_fix_params);
    Apop_col_tv(mset->predict, "value", p_in_tab);
-   gsl_vector_memcpy(p_in_tab, m->parameters->vector);
-   apop_data_predict_fill(out, mset->predict);
+   //Other threads may be using the base model, so don't write to it if there is nothing to change.
+   OMP_critical (fix_params_unpack)
+   if (!is_unpacked(out, m->parameters->vector, mset->predict)){
+       gsl_vector_memcpy(p_in_tab, m->parameters->vector);
+       apop_data_predict_fill(out, mset->predict);
+   }
 }
 
 static void pack(apop_data *in, apop_model *m){
-- 
2.43.0


From 0ccf9f91b8e6849d2bd76f808780e2ddc635de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 178/311] fix: the GSL ended the program if a t distribution
 was estimated from one observation

---
 model/apop_t.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_t.c b/model/apop_t.c
index c0d1958..09df2e1 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -40,6 +40,7 @@ static long double apop_tdist_llike(apop_data *d, apop_model *m){
     Nullcheck_mpd(d, m, GSL_NAN);
     double *params = m->parameters->vector->data;
     double sigma = params[1];
+    Apop_stopif(!(params[2] > 0), return GSL_NAN, 1, "The degrees of freedom have to be positive, but df=%g. Returning NaN.", params[2]);
     Get_vmsizes(d); //tsize
     return apop_map_sum(d, .fn_dp=one_t, .param=params) - tsize * log(sigma);
 }
-- 
2.43.0


From 2c158b12d82dda7dae96be937b6fdad65da10bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 179/311] fix: the GSL ended the program at the likelihood of
 Beta and Gamma estimates that are out of bounds

---
 model/apop_beta.c  | 1 +
 model/apop_gamma.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index c4c5b7d..70c0cc7 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -52,6 +52,7 @@ static long double beta_log_likelihood(apop_data *d, apop_model *p){
     Get_vmsizes(d) //tsize
     Get_ab(p) //ab
     Apop_stopif(isnan(ab.alpha+ab.beta), return GSL_NAN, 0, "NaN α or β input.");
+    Apop_stopif(!(ab.alpha > 0 && ab.beta > 0), return GSL_NAN, 1, "α and β have to be positive, but α=%g and β=%g. Returning NaN.", ab.alpha, ab.beta);
 	return apop_map_sum(d, .fn_dp = betamap, .param=&ab) - gsl_sf_lnbeta(ab.alpha, ab.beta) * tsize;
 }
 
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 64b84c0..b109f26 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -42,6 +42,7 @@ static long double gamma_log_likelihood(apop_data *d, apop_model *p){
     Get_vmsizes(d)
     abstruct ab = {.a = gsl_vector_get(p->parameters->vector, 0),
                    .b = gsl_vector_get(p->parameters->vector, 1) };
+    Apop_stopif(!(ab.a > 0), return GSL_NAN, 1, "The shape parameter has to be positive, but is %g. Returning NaN.", ab.a);
     double llikelihood  = 0,
         ln_ga  = gsl_sf_lngamma(ab.a),
         ln_b   = log(ab.b),
-- 
2.43.0


From 20b81703724de0c8b00981cf77b23bd0059391bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 180/311] fix: a starting point for a model with fixed
 parameters was read from the wrong cells of a table

---
 transform/apop_fix_params.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index f650e38..c37cb4e 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -203,15 +203,16 @@ static apop_model *fixed_param_model = &(apop_model){"Fill me", .estimate=fixed_
 void set_starting_point(apop_data * in_params, apop_model * model_out, double *start, apop_data *predict_tab){
     //reshape the starting_pt to the shape of typical params
     apop_data *param_cp = apop_data_copy(in_params);
-    Get_vmsizes(in_params);//tsize
-    gsl_vector_view v = gsl_vector_view_array(start, tsize);
+    gsl_vector *all_params = apop_data_pack(param_cp); //on all pages
+    gsl_vector_view v = gsl_vector_view_array(start, all_params->size);
+    gsl_vector_free(all_params);
     apop_data_unpack(&(v.vector), param_cp);
 
     pack(param_cp, model_out); //write to the fill tab.
     apop_data_free(param_cp);
     Apop_col_tv(predict_tab, "value", ptv);
     double *new_start = malloc(ptv->size * sizeof(double)); //leak!!
-    memcpy(new_start, ptv->data, ptv->size* sizeof(double));
+    for (size_t i=0; i< ptv->size; i++) new_start[i] = gsl_vector_get(ptv, i); //ptv is a column, with a stride.
     Apop_settings_add(model_out, apop_mle, starting_pt, new_start);
 }
 
-- 
2.43.0


From 4ce65ce077511c68598457f035eac7364e635257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 181/311] fix: a search for the parameters of a model in other
 coordinates ignored the base model's constraint

---
 transform/apop_coordinate_transform.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform/apop_coordinate_transform.c b/transform/apop_coordinate_transform.c
index 14bae97..d84a90f 100644
--- a/transform/apop_coordinate_transform.c
+++ b/transform/apop_coordinate_transform.c
@@ -53,6 +53,7 @@ static void jacobian_prep(apop_data *d, apop_model *m){
         m->parameters=cs->base_model->parameters;
         cs->own_params = 0;
     }
+    m->constraint=cs->base_model->constraint;
     m->dsize=cs->base_model->dsize;
 }
 
-- 
2.43.0


From 8ba7dfe69bc60c3d9ec73a93c335d5cd66a44ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 182/311] fix: updating a gamma prior counted the rows of the
 data, not its observations

---
 apop_update.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index edf0617..04e7212 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -71,25 +71,25 @@ static apop_model *betabernie(apop_data *data, apop_model *prior, apop_model *li
 
 static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *likelihood){
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //maxsize
-    *gsl_vector_ptr(outp->parameters->vector, 0) += maxsize;
+    Get_vmsizes(data); //tsize
+    *gsl_vector_ptr(outp->parameters->vector, 0) += tsize;
     apop_data_set(outp->parameters, 1, .val=1./
                           (1./apop_data_get(outp->parameters, 1) 
-                        + (data->matrix ? apop_matrix_sum(data->matrix) : 0)
-                        + (data->vector ? apop_sum(data->vector) : 0)));
+                        + (msize1*msize2 ? apop_matrix_sum(data->matrix) : 0)
+                        + (vsize ? apop_sum(data->vector) : 0)));
     return outp;
 }
 
 static apop_model *gammapoisson(apop_data *data, apop_model *prior, apop_model *likelihood){
     /* Posterior alpha = alpha_0 + sum x; posterior beta = beta_0/(beta_0*n + 1) */
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //vsize, msize1,maxsize
+    Get_vmsizes(data); //vsize, msize1, tsize
     *gsl_vector_ptr(outp->parameters->vector, 0) +=
                          (vsize  ? apop_sum(data->vector): 0) +
                          (msize1 ? apop_matrix_sum(data->matrix): 0);
 
     double *beta = gsl_vector_ptr(outp->parameters->vector, 1);
-    *beta = *beta/(*beta * maxsize + 1);
+    *beta = *beta/(*beta * tsize + 1);
     return outp;
 }
 
-- 
2.43.0


From 9c4a2fd2c9572f5e67f0f33f36e7145000f901da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 183/311] fix: updating a normal prior using data in a vector
 crashed

---
 apop_update.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 04e7212..dc9e1cd 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -111,8 +111,12 @@ likelihood. If you give me a parametrized normal, with no data, then I'll take t
         var_like = gsl_pow_2(likelihood->parameters->vector->data[1]);
         n        = 1;
     } else {
-        n = data->matrix->size1 * data->matrix->size2;
-        apop_matrix_mean_and_var(data->matrix, &mu_like, &var_like);
+        apop_data observations = {.vector=data->vector, .matrix=data->matrix};
+        gsl_vector *v = apop_data_pack(&observations);
+        n = v->size;
+        gsl_matrix_view m = gsl_matrix_view_vector(v, n, 1);
+        apop_matrix_mean_and_var(&(m.matrix), &mu_like, &var_like);
+        gsl_vector_free(v);
     }
     gsl_vector_set(outp->parameters->vector, 0, (mu_pri/var_pri + n*mu_like/var_like)/(1/var_pri + n/var_like));
     gsl_vector_set(outp->parameters->vector, 1, pow((1/var_pri + n/var_like), -.5));
-- 
2.43.0


From b05516e8cb21fc56fe8fa9994148a7d94fedf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 184/311] fix: updating with a likelihood that has no
 constraint crashed

---
 apop_update.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index dc9e1cd..0bc3124 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -224,6 +224,7 @@ APOP_VAR_END_HEAD
         p->more_size = sizeof(apop_model*) * 2;
         p->parameters = apop_data_alloc(prior->dsize);
         p->data = data;
+        if (!likelihood->constraint) p->constraint = NULL;
         if (s) apop_settings_copy_group(p, prior, "apop_mcmc");
         apop_model *out = apop_model_metropolis(data, rng, p); 
         return out;
-- 
2.43.0


From 605cee38c998696907439ed1c586a10198c17d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 185/311] fix: updating a multivariate normal prior crashed

---
 apop_update.m4.c                 | 6 +++++-
 model/apop_multivariate_normal.c | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 0bc3124..0fb1e8b 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -24,8 +24,12 @@ static long double product_ll(apop_data *d, apop_model *m){
     apop_model **pl = m->more;
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
+    //To the prior, the parameters are a draw: one row of data.
+    gsl_matrix_view row = gsl_matrix_view_vector(v, 1, v->size);
+    apop_data a_draw = {.matrix=&(row.matrix), .names=m->parameters->names};
+    long double out = apop_log_likelihood(v->size > 1 ? &a_draw : m->parameters, pl[0]);
     gsl_vector_free(v);
-    return apop_log_likelihood(m->parameters, pl[0]) + apop_log_likelihood(d, pl[1]);
+    return out + apop_log_likelihood(d, pl[1]);
 }
 
 static long double product_constraint(apop_data *data, apop_model *m){
diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index 7d5313c..bdae440 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -84,6 +84,13 @@ static int mvnrng(double *out, gsl_rng *r, apop_model *eps){
 }
 
 static void mvn_prep(apop_data *d, apop_model *m){
+    if (m->parameters && m->parameters->vector){ //sizes already set; re-prep must be a no-op
+        if (m->dsize < 0) m->dsize = m->parameters->vector->size;
+        if (!d || (!d->vector && !d->matrix)) {
+            if (!m->info) m->info = apop_data_alloc();
+            return;
+        }
+    }
     if (d && d->matrix)    m->dsize = d->matrix->size2; 
     else if (m->vsize > 0) m->dsize = m->vsize;
     apop_model_clear(d, m);
-- 
2.43.0


From 4cb455095700ca5ec4c3915fa650c3e9f8cd5ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 186/311] fix: updating never ended if the prior was the output
 of an earlier update

---
 apop_update.m4.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 0fb1e8b..56f3875 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -127,6 +127,36 @@ likelihood. If you give me a parametrized normal, with no data, then I'll take t
     return outp;
 }
 
+/* If the prior is a PMF, such as the output from an earlier update, then the only
+   feasible parameters are those on its list; reweight each by its likelihood. */
+static apop_model *update_pmf(apop_data *data, apop_model *prior, apop_model *likelihood, int paramsize){
+    apop_data *out = apop_data_copy(prior->data);
+    Get_vmsizes(out); //vsize, msize2, maxsize
+    gsl_vector *draw = gsl_vector_alloc(paramsize);
+    gsl_vector *lls = gsl_vector_alloc(maxsize);
+    for (int i=0; i< maxsize; i++){
+        if (vsize) gsl_vector_set(draw, 0, gsl_vector_get(out->vector, i));
+        for (int j=0; j< msize2; j++) gsl_vector_set(draw, j-firstcol, gsl_matrix_get(out->matrix, i, j));
+        apop_data_unpack(draw, likelihood->parameters);
+        double ll = GSL_NEGINF;
+        if (!likelihood->constraint || !likelihood->constraint(data, likelihood)){
+            ll = apop_log_likelihood(data, likelihood);
+            if (gsl_isnan(ll)) ll = GSL_NEGINF;
+        }
+        gsl_vector_set(lls, i, ll);
+    }
+    double max = gsl_vector_max(lls);
+    if (!out->weights){
+        out->weights = gsl_vector_alloc(maxsize);
+        gsl_vector_set_all(out->weights, 1);
+    }
+    for (int i=0; i< maxsize; i++)
+        *gsl_vector_ptr(out->weights, i) *= isfinite(max) ? exp(gsl_vector_get(lls, i) - max) : 0;
+    gsl_vector_free(draw);
+    gsl_vector_free(lls);
+    return apop_estimate(out, apop_pmf);
+}
+
 /** Take in a prior and likelihood distribution, and output a posterior distribution.
 
 \li This function first checks a table of conjugate distributions for the pair you sent
@@ -139,6 +169,10 @@ the posterior.  If you expect MCMC to run, you may add an \ref apop_mcmc_setting
 group to your prior to control the details of the search. See also the \ref
 apop_model_metropolis documentation.
 
+\li If the prior is an \ref apop_pmf, including the output of this function when there
+is no closed form, then the posterior is a PMF with the same rows, where the weight of
+each row has been multiplied by the likelihood of the data given the parameters on that row.
+
 \li If the prior does not have a \c p or \c log_likelihood but does have a \c draw
 element, then make draws from the prior and weight them by the \c p given by the
 likelihood distribution. This is not a rejection sampling method, so the burnin
@@ -219,6 +253,8 @@ APOP_VAR_END_HEAD
                    (tsize > prior->dsize) ?  
                         " Perhaps use apop_model_fix_params to reduce the "
                         "likelihood's parameter count?" : "");
+    if (prior->data && prior->p && prior->p == apop_pmf->p)
+        return update_pmf(data, prior, likelihood, tsize);
     if (prior->p || prior->log_likelihood){
         apop_model *p = apop_model_copy(product);
         //pending revision, a memory leak:
-- 
2.43.0


From 6824a5228d848c7f94cb47789800e3acc6958389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 187/311] fix: updating modified the prior and the likelihood
 it was given

---
 apop_update.m4.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 56f3875..3f4d94d 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -238,6 +238,9 @@ APOP_VAR_END_HEAD
     apop_update_type conj = apop_update_vtable_get(prior, likelihood);
     if (conj) return conj(data, prior, likelihood);
 
+    //Others may be using the inputs, so modify only copies.
+    prior = apop_model_copy(prior);
+    likelihood = apop_model_copy(likelihood);
     apop_mcmc_settings *s = apop_settings_get_group(prior, apop_mcmc);
 
     apop_prep(NULL, prior); //probably a no-op
@@ -246,6 +249,7 @@ APOP_VAR_END_HEAD
     int tsize = pack->size;
     gsl_vector_free(pack);
     Apop_stopif(prior->dsize != tsize, 
+                apop_model_free(prior); apop_model_free(likelihood);
                 return apop_model_copy(&(apop_model){.error='d'}),
                 0, "Size of a draw from the prior does not match "
                    "the size of the likelihood's parameters (%i != %i).%s",
@@ -253,14 +257,18 @@ APOP_VAR_END_HEAD
                    (tsize > prior->dsize) ?  
                         " Perhaps use apop_model_fix_params to reduce the "
                         "likelihood's parameter count?" : "");
-    if (prior->data && prior->p && prior->p == apop_pmf->p)
-        return update_pmf(data, prior, likelihood, tsize);
+    if (prior->data && prior->p && prior->p == apop_pmf->p){
+        apop_model *out = update_pmf(data, prior, likelihood, tsize);
+        apop_model_free(prior);
+        apop_model_free(likelihood);
+        return out;
+    }
     if (prior->p || prior->log_likelihood){
         apop_model *p = apop_model_copy(product);
         //pending revision, a memory leak:
         p->more = malloc(sizeof(apop_model*)*2);
-        ((apop_model**)p->more)[0] = apop_model_copy(prior);
-        ((apop_model**)p->more)[1] = apop_model_copy(likelihood);
+        ((apop_model**)p->more)[0] = prior;
+        ((apop_model**)p->more)[1] = likelihood;
         p->more_size = sizeof(apop_model*) * 2;
         p->parameters = apop_data_alloc(prior->dsize);
         p->data = data;
@@ -270,7 +278,7 @@ APOP_VAR_END_HEAD
         return out;
     }
 
-    Apop_stopif(!prior->draw, return NULL, 0, "prior does not have a .p, .log_likelihood, or .draw element. I am stumped. Returning NULL.");
+    Apop_stopif(!prior->draw, apop_model_free(prior); apop_model_free(likelihood); return NULL, 0, "prior does not have a .p, .log_likelihood, or .draw element. I am stumped. Returning NULL.");
 
     if (!s) s = Apop_model_add_group(prior, apop_mcmc);
 
@@ -300,5 +308,7 @@ APOP_VAR_END_HEAD
     }
     apop_model *outp = apop_estimate(out, apop_pmf);
     gsl_vector_free(draw);
+    apop_model_free(prior);
+    apop_model_free(likelihood);
     return outp;
 }
-- 
2.43.0


From 3f736efab9c1a7da8a62130e5d6983971aaf7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 188/311] fix: a NaN estimate crashed the bootstrap, or left
 its row of the list uninitialized

---
 apop_bootstrap.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index 3cb7468..c38c238 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -148,15 +148,15 @@ APOP_VAR_ENDHEAD
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        if (!gsl_isnan(apop_sum(estp))){
-            if (i==0){
+        if (ignore_nans!='y' || !gsl_isnan(apop_sum(estp))){
+            if (!array_of_boots){
                 array_of_boots	      = apop_data_alloc(iterations, estp->size);
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'v');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'c');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'r');
             }
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
-        } else if (ignore_nans=='y'){
+        } else {
             i--; 
             nan_draws++;
         }
-- 
2.43.0


From f6a4abf382f328260217b459453fc048ffdc9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 189/311] fix: the jackknifed covariance was divided by n-1
 twice

---
 apop_bootstrap.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index c38c238..dd9386b 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -78,7 +78,7 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     }
     in->names = tmpnames;
     apop_data *out = apop_data_covariance(array_of_boots);
-    gsl_matrix_scale(out->matrix, 1./(n-1.));
+    gsl_matrix_scale(out->matrix, 1./n);
     apop_data_free(subset);
     gsl_vector_free(pseudoval);
     apop_data_free(array_of_boots);
-- 
2.43.0


From 8228af88c0ca6c25f11481e528d769e0943fefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 190/311] fix: MCMC wrote past the end of its output if the
 burn-in was not a whole number of steps

---
 apop_mcmc.m4.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 54b461a..ef46ac9 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -298,8 +298,8 @@ APOP_VAR_END_HEAD
                 1, "Burn-in should be a fraction of the number of periods, "
                    "not a whole number of periods. Rescaling to burnin=%g."
                    , s->burnin/double_periods);
-		double integerpart_periods_cburnin = GSL_NAN; modf(double_periods*(1.0-s->burnin),&integerpart_periods_cburnin);
-		const size_t data_size1 = llround(integerpart_periods_cburnin);
+		double integerpart_periods_burnin = GSL_NAN; modf(double_periods*s->burnin,&integerpart_periods_burnin);
+		const size_t data_size1 = s->periods - llround(integerpart_periods_burnin);
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
     if (!s->proposals){
@@ -326,8 +326,10 @@ APOP_VAR_END_HEAD
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
     Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
 
-    out->weights = gsl_vector_alloc(s->periods*(1-s->burnin));
-    gsl_vector_set_all(out->weights, 1);
+    if (data_size1){
+        out->weights = gsl_vector_alloc(data_size1);
+        gsl_vector_set_all(out->weights, 1);
+    }
     outp = apop_estimate(out, apop_pmf);
     s->pmf = outp;
     s->base_model = m;
-- 
2.43.0


From d7d5523c39da23e65483dd5ecccebc8604e5eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 191/311] fix: drawing from the output of MCMC left its data
 with fewer weights than rows

---
 apop_mcmc.m4.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index ef46ac9..bd21aac 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -182,6 +182,10 @@ OMP_critical (metro_draw)
     while (!done){
         s->proposal_count++;
         earlier_draws->matrix = apop_matrix_realloc(earlier_draws->matrix, earlier_draws->matrix->size1+1, earlier_draws->matrix->size2);
+        if (earlier_draws->weights){
+            earlier_draws->weights = apop_vector_realloc(earlier_draws->weights, earlier_draws->matrix->size1);
+            gsl_vector_set(earlier_draws->weights, earlier_draws->matrix->size1-1, 1);
+        }
         one_step(s->base_model->data, &(vv.vector), m, s, rng, &constraint_fails, 
                             earlier_draws, block, earlier_draws->matrix->size1-1);
         block = (block+1) % s->block_count;
-- 
2.43.0


From a50ef7c0851dac9f2f0b03e37727d0769f945ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 192/311] fix: proposals outside the constraint were not
 reported in the error element of the model from MCMC

---
 apop_mcmc.m4.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index bd21aac..f8590de 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -328,13 +328,12 @@ APOP_VAR_END_HEAD
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
 
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
-    Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
-
     if (data_size1){
         out->weights = gsl_vector_alloc(data_size1);
         gsl_vector_set_all(out->weights, 1);
     }
     outp = apop_estimate(out, apop_pmf);
+    Apop_stopif(constraint_fails, outp->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
     s->pmf = outp;
     s->base_model = m;
     outp->draw = apop_model_metropolis_draw;
-- 
2.43.0


From 1cdba2792619de03dcd2fc4a788945c33de6dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 193/311] fix: running MCMC again counted the rejections of the
 earlier run

---
 apop_mcmc.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index f8590de..0c458b0 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -202,7 +202,7 @@ OMP_critical (metro_draw)
 void main_mcmc_loop(apop_data *d, apop_model *m, apop_data *out, gsl_vector *draw,
                         apop_mcmc_settings *s, gsl_rng *rng, int *constraint_fails){
 		double integerpart_periods_burnin = GSL_NAN; modf((double)(s->periods)*s->burnin,&integerpart_periods_burnin);
-    s->accept_count = 0;
+    s->accept_count = s->reject_count = 0;
     int out_row = -lround(integerpart_periods_burnin);
     int block = 0;
     for (s->proposal_count=1; s->proposal_count< s->periods+1; s->proposal_count++, out_row++){
-- 
2.43.0


From 41cfcc7a36f9ffb7ffb56559af0f32976e1eefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 194/311] fix: every step of MCMC leaked a copy of the
 parameters

---
 apop_mcmc.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 0c458b0..0521ff3 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -135,6 +135,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
         apop_data_unpack(draw, m->parameters); //keep the last success in m->parameters.
     }
     if (out_row>=0) gsl_vector_memcpy(Apop_rv(out, out_row), draw);
+    gsl_vector_free(clean_copy);
 }
 
 
-- 
2.43.0


From 14b49a747f8938fa384a65a8d2e5127ee3f855bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 195/311] fix: MCMC started at 1 even if asked to start at the
 parameters of the model

---
 apop_mcmc.m4.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 0521ff3..9c43863 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -307,7 +307,8 @@ APOP_VAR_END_HEAD
 		const size_t data_size1 = s->periods - llround(integerpart_periods_burnin);
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
-    if (!s->proposals){
+    int default_proposals = !s->proposals;
+    if (default_proposals){
         set_block_count_and_block_starts(m->parameters, s, drawv->size);
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
@@ -324,6 +325,10 @@ APOP_VAR_END_HEAD
 
     //if s->start_at =='p', we already have m->parameters in drawv.
     if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
+    else if (default_proposals) //which are centered at 1
+        for (int i=0; i< s->block_count; i++)
+            memcpy(s->proposals[i].proposal->parameters->vector->data, drawv->data + s->block_starts[i],
+                        sizeof(double)*(s->block_starts[i+1]-s->block_starts[i]));
     int constraint_fails = 0;
 
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
-- 
2.43.0


From e0076769fa212cacc47945e50ee0a15c1c3124b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 196/311] fix: MCMC crashed if given a list of proposals

---
 apop_mcmc.m4.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 9c43863..ec28455 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -69,8 +69,8 @@ static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc
     gsl_vector_set_all(mvn->parameters->vector, 1);
     gsl_matrix_set_identity(mvn->parameters->matrix);
     s->proposal = mvn;
-    s->step_fn = settings->base_step_fn;
-    s->adapt_fn = settings->base_adapt_fn;
+    if (!s->step_fn) s->step_fn = settings->base_step_fn;
+    if (!s->adapt_fn) s->adapt_fn = settings->base_adapt_fn;
 }
 
 static void set_block_count_and_block_starts(apop_data *in, 
@@ -308,8 +308,8 @@ APOP_VAR_END_HEAD
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
     int default_proposals = !s->proposals;
+    if (!s->block_starts) set_block_count_and_block_starts(m->parameters, s, drawv->size);
     if (default_proposals){
-        set_block_count_and_block_starts(m->parameters, s, drawv->size);
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
         for (int i=0; i< s->block_count; i++){
@@ -323,6 +323,13 @@ APOP_VAR_END_HEAD
         }
     }
 
+    for (int i=0; i< s->block_count; i++){
+        apop_mcmc_proposal_s *p = s->proposals+i;
+        if (!p->proposal) setup_normal_proposals(p, s->block_starts[i+1]-s->block_starts[i], s);
+        if (!p->step_fn)  p->step_fn  = s->base_step_fn;
+        if (!p->adapt_fn) p->adapt_fn = s->base_adapt_fn;
+    }
+
     //if s->start_at =='p', we already have m->parameters in drawv.
     if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
     else if (default_proposals) //which are centered at 1
-- 
2.43.0


From 48a32ab2d265f530812a83498eccb85c93dea8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 197/311] fix: the list of MCMC blocks leaked with its settings
 group

---
 apop_mcmc.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index ec28455..21da850 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -53,6 +53,10 @@ Apop_settings_copy(apop_mcmc,
         }
         out->proposal_is_cp=1;
     }
+    if (in->block_starts){
+        out->block_starts = malloc(sizeof(size_t)*(in->block_count+1));
+        memcpy(out->block_starts, in->block_starts, sizeof(size_t)*(in->block_count+1));
+    }
 )
 
 Apop_settings_free(apop_mcmc, 
@@ -61,6 +65,7 @@ Apop_settings_free(apop_mcmc,
                 apop_model_free(in->proposals[i].proposal);
         free(in->proposals);
         }
+        free(in->block_starts);
 )
 
 static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc_settings *settings){
-- 
2.43.0


From 3e14db3cfa680913b50a67d76b9a936fc57006b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 198/311] fix: MCMC over a bounded space widened its proposals
 until almost none was within bounds

---
 apop_mcmc.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 21da850..407ba7c 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -113,6 +113,9 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
     apop_data_unpack(draw, m->parameters);
     if (m->constraint && m->constraint(d, m)){
         (*constraint_fails)++;
+        //a rejection as far as the adaptation is concerned; else the proposals would widen without end.
+        s->proposals[block].reject_count++;
+        s->reject_count++;
         goto newdraw;
     }
     double ll = apop_log_likelihood(d, m);
@@ -120,7 +123,8 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
     Apop_notify(3, "ll=%g for parameters:\t", ll);
     if (apop_opts.verbose >=3) apop_data_print(m->parameters, .output_pipe=apop_opts.log_file);
 
-    Apop_stopif(gsl_isnan(ll) || !isfinite(ll), goto newdraw, 
+    Apop_stopif(gsl_isnan(ll) || !isfinite(ll), 
+            s->proposals[block].reject_count++; s->reject_count++; goto newdraw, 
             1, "Trouble evaluating the m function at vector beginning with %g. "
             "Throwing it out and trying again.\n"
             , m->parameters->vector->data[0]);
-- 
2.43.0


From ad0a746cb6195778755bfe455f0935f81ccbec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 199/311] fix: the registry of special-case functions is locked
 wherever it is used, as it moves when it grows

---
 apop_vtables.c | 82 +++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index 455d9d1..2a29b35 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -2,14 +2,7 @@
 #include <string.h>
 #include "apop_internal.h" //just for OMP_critical
 
-#ifdef _OPENMP
-#include <omp.h>
-#define lock omp_set_lock(&v->mutex);
-#define unlock omp_unset_lock(&v->mutex);
-#else
-#define lock 
-#define unlock 
-#endif
+//The list of tables and the tables themselves move as they grow, so one lock covers it all.
 
 /** \cond doxy_ignore */
 typedef struct {
@@ -22,13 +15,9 @@ typedef struct {
     unsigned long int hashed_name;
     int elmt_ct;
     apop_vtable_elmt_s *elmts;
-#ifdef _OPENMP
-    omp_lock_t mutex;
-#endif
 } apop_vtable_s;
 
 apop_vtable_s *vtable_list;
-int ignore_me;
 /** \endcond */ //End of Doxygen ignore.
 
 //The Dan J Bernstein string hashing algorithm.
@@ -49,70 +38,67 @@ static apop_vtable_s *find_tab(unsigned long h, int *ctr){
 //return 0 = found; removed
 //return 1 = not found; no-op
 int apop_vtable_drop(char const *tabname, unsigned long hash){
-    if (!vtable_list) return 1;
+    int ctr, out = 1;
     unsigned long h = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(h, &ignore_me);
-
-    lock
-    for (int i=0; i< v->elmt_ct; i++)
-        if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
-            v->elmt_ct--;
-            unlock
-            return 0;
-        }
-    unlock
-    return 1;
+
+    OMP_critical (vtable)
+    if (vtable_list){
+        apop_vtable_s *v = find_tab(h, &ctr);
+        for (int i=0; i< v->elmt_ct; i++)
+            if (hash == v->elmts[i].hash) {
+                memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
+                v->elmt_ct--;
+                out = 0;
+                break;
+            }
+    }
+    return out;
 }
 
 int apop_vtable_add(char const *tabname, void *fn_in, unsigned long hash){
-    if (!vtable_list){vtable_list = calloc(1, sizeof(apop_vtable_s));}
-
     unsigned long h = apop_settings_hash(tabname);
     int ctr;
     apop_vtable_s *v;
 
 
     //add a table if need be.
-    OMP_critical (new_vtable)
+    OMP_critical (vtable)
     {
+    if (!vtable_list){vtable_list = calloc(1, sizeof(apop_vtable_s));}
     v = find_tab(h, &ctr);
 
     if (!v->hashed_name){
         vtable_list = realloc(vtable_list, (ctr+2)* sizeof(apop_vtable_s));
         vtable_list[ctr] = (apop_vtable_s){.elmts=calloc(1, sizeof(apop_vtable_elmt_s))};
         vtable_list[ctr+1] = (apop_vtable_s){ };
-        #ifdef _OPENMP
-            omp_init_lock(&vtable_list[ctr].mutex);
-            omp_set_lock(&vtable_list[ctr].mutex);
-        #endif
         vtable_list[ctr].name = tabname;
         vtable_list[ctr].hashed_name = h;
         v = vtable_list+ctr;
-        unlock
-    }
     }
 
-    lock
     //If this hash is already present, don't re-add. 
-    for (int i=0; i< v->elmt_ct; i++) if (hash == v->elmts[i].hash) {unlock; return 0;}
+    int found = 0;
+    for (int i=0; i< v->elmt_ct; i++) if (hash == v->elmts[i].hash) found = 1;
 
     //insert
-    v->elmts = realloc(v->elmts, (++(v->elmt_ct))* sizeof(apop_vtable_elmt_s));
-    v->elmts[v->elmt_ct-1] = (apop_vtable_elmt_s){.hash=hash, .fn=fn_in};
-    unlock
+    if (!found){
+        v->elmts = realloc(v->elmts, (++(v->elmt_ct))* sizeof(apop_vtable_elmt_s));
+        v->elmts[v->elmt_ct-1] = (apop_vtable_elmt_s){.hash=hash, .fn=fn_in};
+    }
+    }
     return 0;
 }
 
 void *apop_vtable_get(char const *tabname, unsigned long hash){
-    if (!vtable_list) return NULL;
+    int ctr;
+    void *out = NULL;
     unsigned long thash = apop_settings_hash(tabname);
-    apop_vtable_s *v = find_tab(thash, &ignore_me);
-    if (!v->hashed_name) return NULL;
-
-    lock
-    for (int i=0; i< v->elmt_ct; i++)
-        if (hash == v->elmts[i].hash) {unlock; return v->elmts[i].fn;}
-    unlock
-    return NULL;
+
+    OMP_critical (vtable)
+    if (vtable_list){
+        apop_vtable_s *v = find_tab(thash, &ctr);
+        for (int i=0; i< v->elmt_ct; i++)
+            if (hash == v->elmts[i].hash) {out = v->elmts[i].fn; break;}
+    }
+    return out;
 }
-- 
2.43.0


From 90144d8a305a9476eb12a3510b7a17d8495ae945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 200/311] fix: threads overwrote each others' state in
 constraints and adaptive rejection, kept in shared static variables

---
 apop_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_internal.h b/apop_internal.h
index 9993889..1908bdc 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -16,7 +16,7 @@
     (void)(tsize||wsize||firstcol||maxsize) /*prevent unused variable complaints */;
 
 // Define a static variable, and initialize on first use.
-#define Staticdef(type, name, def) static type (name) = NULL; if (!(name)) (name) = (def);
+#define Staticdef(type, name, def) static threadlocal type (name) = NULL; if (!(name)) (name) = (def);
 
 // Check for NULL and complain if so.
 #define Nullcheck(in, errval) Apop_assert_c(in, errval, apop_errorlevel, "%s is NULL.", #in);
-- 
2.43.0


From e46c6f97095d8b4da5e2cfab32b3345631a82364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 201/311] fix: threads that began with entropy or updating
 together could miss the closed forms, being registered by the first

---
 apop_stats.m4.c  | 3 +++
 apop_update.m4.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index fcc3750..b7ec866 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -671,9 +671,12 @@ APOP_VAR_HEAD long double apop_model_entropy(apop_model *in, int draws){
     Apop_stopif(!in, return NAN, 0, "NULL input model. Returning NaN.");
     int apop_varad_var(draws, 1000);
 APOP_VAR_ENDHEAD
+    OMP_critical (entropy_setup)
+    {
     static int setup=0; if (!(setup++)){
         apop_entropy_vtable_add(norment, apop_normal);
     }
+    }
     apop_entropy_type e_fn = apop_entropy_vtable_get(in);
     if (e_fn) return e_fn(in);
 
diff --git a/apop_update.m4.c b/apop_update.m4.c
index 3f4d94d..978b41f 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -228,6 +228,8 @@ APOP_VAR_HEAD apop_model * apop_update(apop_data *data, apop_model *prior, apop_
     apop_model *apop_varad_var(likelihood, NULL);
     gsl_rng *apop_varad_var(rng, apop_rng_get_thread(-1));
 APOP_VAR_END_HEAD
+    OMP_critical (update_setup)
+    {
     static int setup=0; if (!(setup++)){
         apop_update_vtable_add(betabinom, apop_beta, apop_binomial);
         apop_update_vtable_add(betabernie, apop_beta, apop_bernoulli);
@@ -235,6 +237,7 @@ APOP_VAR_END_HEAD
         apop_update_vtable_add(gammapoisson, apop_gamma, apop_poisson);
         apop_update_vtable_add(normnorm, apop_normal, apop_normal);
     }
+    }
     apop_update_type conj = apop_update_vtable_get(prior, likelihood);
     if (conj) return conj(data, prior, likelihood);
 
-- 
2.43.0


From 1091160275043094cfc7699d18d19baf8b75cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 202/311] fix: threads that replaced the GSL error handler
 together aborted, or left it replaced

---
 apop_data.m4.c           |  4 ++--
 apop_internal.h          |  2 ++
 apop_linear_algebra.m4.c | 18 ++++++++++++++++--
 apop_mle.m4.c            |  4 ++--
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 9f16803..d9de48f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -4,8 +4,8 @@ The apop_data structure joins together a gsl_matrix, apop_name, and a table of s
 
 #include "apop_internal.h"
 //apop_gsl_error is in apop_linear_algebra.c
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+#define Set_gsl_handler apop_gsl_handler_set();
+#define Unset_gsl_handler apop_gsl_handler_unset();
 
 /** Allocate an \ref apop_data structure.
  
diff --git a/apop_internal.h b/apop_internal.h
index 1908bdc..54a5251 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -41,6 +41,8 @@ int apop_use_sqlite_prepared_statements(size_t col_ct);
 int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3_stmt **statement);
 char *prep_string_for_sqlite(int prepped_statements, char const *astring);//apop_conversions.c
 void apop_gsl_error(char const *reason, char const *file, int line, int gsl_errno); //apop_linear_algebra.c
+void apop_gsl_handler_set(void); //apop_linear_algebra.c
+void apop_gsl_handler_unset(void);
 
 //For when we're forced to use a global variable.
 #undef threadlocal
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index ed0d517..8bbd896 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -15,8 +15,22 @@ void apop_gsl_error(const char *reason, const char *file, int line, int gsl_errn
 #define Checkgsl(...) if (__VA_ARGS__) {goto done;}
 #define Check_gsl_with_out(...) if (__VA_ARGS__) {out->error='m'; goto done;}
 #define Check_gsl_with_outmp(...) if (__VA_ARGS__) {gsl_matrix_free(*out); *out=NULL; goto done;}
-#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
-#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+#define Set_gsl_handler apop_gsl_handler_set();
+#define Unset_gsl_handler apop_gsl_handler_unset();
+
+//The GSL has one handler for all threads: the first user replaces it and the last one puts it back.
+static int gsl_handler_users;
+static gsl_error_handler_t *prior_handler;
+
+void apop_gsl_handler_set(void){
+    OMP_critical (gsl_handler)
+    if (!gsl_handler_users++) prior_handler = gsl_set_error_handler(apop_gsl_error);
+}
+
+void apop_gsl_handler_unset(void){
+    OMP_critical (gsl_handler)
+    if (!--gsl_handler_users) gsl_set_error_handler(prior_handler);
+}
 
 /**
 Calculate the determinant of a matrix, its inverse, or both, via LU decomposition. The \c in matrix is not destroyed in the process.
diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index f9cc305..f7cb381 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -941,7 +941,7 @@ static apop_model * find_roots (infostruct p) {
         : !strcasecmp(mlep->method, "Newton hybrid no scale") ? gsl_multiroot_fsolver_hybrids
                                                    : gsl_multiroot_fsolver_hybrid;
     s = gsl_multiroot_fsolver_alloc (T, betasize);
-    gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error); //singular Jacobians
+    apop_gsl_handler_set(); //singular Jacobians
     if (setjmp(p.bad_eval_jump)) {
         status = GSL_EBADFUNC;
         goto done;
@@ -957,7 +957,7 @@ static apop_model * find_roots (infostruct p) {
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
 done:
-    gsl_set_error_handler(prior_handler);
+    apop_gsl_handler_unset();
     if (status == GSL_SUCCESS) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
-- 
2.43.0


From 6437aa60b7ee0d26219faa589f6e1a07fd5ba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 203/311] fix: threads that searched for an MLE together lost
 the SIGINT handler, or jumped into each other's stack frames

---
 apop_mle.m4.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index f7cb381..951b672 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -28,7 +28,7 @@ typedef struct {
     int         use_constraint;
     int         keep_beta; //if the constraint moves the parameters, don't move the optimizer's vector too.
     char        want_cov, want_predicted, want_tests, want_info;
-    jmp_buf     bad_eval_jump;
+    jmp_buf     bad_eval_jump, sigint_jump;
     apop_data** path;
 }   infostruct;
 /** \endcond */ //End of Doxygen ignore.
@@ -369,9 +369,25 @@ static void fdf_shell(const gsl_vector *beta, void *i, double *f, gsl_vector *df
     dnegshell(beta, i, df);
 }
 
-static int ctrl_c;
+//The process has one handler for all threads and nested searches: the first search sets it and the last one puts it back.
+static volatile int ctrl_c;
+static int sigint_users;
+static void (*prior_sigint)(int);
 static void mle_sigint(int){ ctrl_c ++; }
 
+static void catch_sigint(void){
+    OMP_critical (mle_sigint)
+    if (!sigint_users++) {
+        ctrl_c = 0;
+        prior_sigint = signal(SIGINT, mle_sigint);
+    }
+}
+
+static void release_sigint(void){
+    OMP_critical (mle_sigint)
+    if (!--sigint_users) signal(SIGINT, prior_sigint);
+}
+
 static int setup_starting_point(apop_mle_settings *mp, gsl_vector *x){
     Apop_stopif(!x, return -1, 0, "The vector I'm trying to optimize over is NULL.");
 	if (!mp->starting_pt) gsl_vector_set_all (x, 1);
@@ -462,12 +478,11 @@ Inside the infostruct, you'll find these elements:
         .fdf	= (apop_fdf_with_void) fdf_shell,
         .n		= betasize,
         .params	= i};
-    ctrl_c = 0;
     if (setjmp(i->bad_eval_jump))
         Apop_stopif(1, gsl_multimin_fdfminimizer_free(s); failed_start(est); return,
                 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
-    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
+    catch_sigint();
     do { 	
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -486,7 +501,7 @@ Inside the infostruct, you'll find these elements:
             printf ("%5i %.5f  f()=%10.5f gradient=%.3f\n", iter, gsl_vector_get (s->x, 0),  s->f, gsl_vector_get(s->gradient,0));
         Apop_stopif(status == GSL_SUCCESS, apopstatus=0, 2, "Optimum found.");
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, prior_sigint);
+    release_sigint();
 	Apop_stopif(iter==mp->max_iterations, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
@@ -507,7 +522,6 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     double size;
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
-    ctrl_c      = 0;
     i->keep_beta = 1; //moving several corners of the simplex to the edge of the constraint would collapse it.
     apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
@@ -517,7 +531,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
                 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
-    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
+    catch_sigint();
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -542,7 +556,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
             }
         }
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, prior_sigint);
+    release_sigint();
 	Apop_stopif(iter == mp->max_iterations && mp->verbose, /*continue*/, 
                 1, "Optimization reached maximum number of iterations.");
     if (status == GSL_SUCCESS) apopstatus = 0;
@@ -785,6 +799,7 @@ APOP_VAR_ENDHEAD
 
 static double annealing_energy(void *in) {
     infostruct *i = in;
+    if (ctrl_c) longjmp(i->sigint_jump, 1);
     return negshell(i->beta, i);
 }
 
@@ -861,9 +876,6 @@ static void annealing_free(void *xp){
 //I abuse the starting point element to hold the list of scaling factors. They can't be zero.
 static double set_start(double in){ return in ? in : 1; }
 
-jmp_buf anneal_jump;
-static void anneal_sigint(int){ longjmp(anneal_jump,1); }
-
 static void apop_annealing(infostruct *i){
     apop_model *ep = i->model;
     apop_mle_settings *mp = apop_settings_get_group(ep, apop_mle);
@@ -888,14 +900,13 @@ static void apop_annealing(infostruct *i){
     if (mp && mp->verbose>1)    printing_fn = annealing_print;
     else if (mp && mp->verbose) printing_fn = annealing_print2;
     annealing_check_constraint(i); //shift starting point if needed.
-    void (*volatile prior_sigint)(int) = SIG_DFL;
+    catch_sigint();
     if (setjmp(i->bad_eval_jump)) {
-        signal(SIGINT, prior_sigint);
+        release_sigint();
         apopstatus = -1;
         goto done;
     }
-    if (!setjmp(anneal_jump)){
-        prior_sigint = signal(SIGINT, anneal_sigint);
+    if (!setjmp(i->sigint_jump)){
         gsl_siman_solve(r,    // const gsl_rng * r
           i,                  // void * x0_p
           annealing_energy,   // gsl_siman_Efunc_t Ef
@@ -908,7 +919,7 @@ static void apop_annealing(infostruct *i){
           betasize,           // size_t element_size
           simparams);         // gsl_siman_params_t params
     }
-    signal(SIGINT, prior_sigint);
+    release_sigint();
     apop_data_unpack(i->beta, i->model->parameters); 
     apopstatus = 0;
 done:
-- 
2.43.0


From 244a8637d1a59ea5196a7a88e5bf217de1f35e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 204/311] fix: threads drawing from one model via adaptive
 rejection corrupted its envelope

---
 apop_arms.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/apop_arms.c b/apop_arms.c
index 6631d61..7901b47 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -101,7 +101,23 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 
 \li There are a great number of parameters, in the \c apop_arms_settings structure.  The structure also holds a history of the points tested to date. That means that the system will be more accurate as more draws are made. It also means that if the parameters change, or you use \ref apop_model_copy, you should call <tt>Apop_settings_rm_group(your_model, apop_arms)</tt> to clear the model of points that are not valid for a different situation.
   */
+static int arms_draw(double *out, gsl_rng *r, apop_model *m);
+
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
+    //The settings hold an envelope that every draw refines. A likelihood may itself make draws.
+    static threadlocal int depth;
+    if (depth) return arms_draw(out, r, m);
+    int status;
+    OMP_critical (arms_draw)
+    {
+        depth++;
+        status = arms_draw(out, r, m);
+        depth--;
+    }
+    return status;
+}
+
+static int arms_draw(double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
     Apop_stopif(!params, return 1, 0, "Couldn't set up the envelope.");
-- 
2.43.0


From 2ea705aab1d9eed5d1e36dcb01eaf2769c45637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 205/311] fix: the first ran() in a query raced for a seed from
 apop_opts, and allocated a generator that was never used

---
 apop_db_sqlite.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 2f284e7..035a6b2 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -138,8 +138,12 @@ static void powFn(sqlite3_context *context, int argc, sqlite3_value **argv){
 }
 
 static void rngFn(sqlite3_context *context, int argc, sqlite3_value **argv){
-    Staticdef(gsl_rng *, rng, apop_rng_alloc(apop_opts.rng_seed++));
-    //sqlite3_result_double(context, gsl_rng_uniform(rng));
+    static int first = 1;
+    OMP_critical(rng_get_thread)  //the first use takes a seed, so sequences remain as they always were.
+    if (first) {
+        apop_opts.rng_seed++;
+        first = 0;
+    }
     sqlite3_result_double(context, gsl_rng_uniform(apop_rng_get_thread(-1)));
 }
 
-- 
2.43.0


From 612fe55d7f0a63636d4f2f139268cd19b9f5d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 206/311] fix: draws from a multivariate model without a draw
 method crashed in threads or recursed forever if given MCMC settings

---
 apop_mcmc.m4.c  |  6 +++---
 apop_model.m4.c | 11 +++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 407ba7c..074c2c4 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -175,14 +175,14 @@ returns after stepping through all chunks.
 \ingroup all_public
 */
 int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *model){
+    int constraint_fails = 0;
+OMP_critical (metro_draw)
+{
     apop_mcmc_settings *s = apop_settings_get_group(model, apop_mcmc);
     if (!s || !s->pmf) {
         apop_model_metropolis(model->data, rng, model);
         s = apop_settings_get_group(model, apop_mcmc);
     }
-    int constraint_fails = 0;
-OMP_critical (metro_draw)
-{
     apop_model *m = s->base_model;
     gsl_vector_view vv = gsl_vector_view_array(out, s->block_starts[s->block_count]);
     apop_data_pack(m->parameters, &(vv.vector));
diff --git a/apop_model.m4.c b/apop_model.m4.c
index cd47f0e..2e17d61 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -427,18 +427,21 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
     //generate a model with data/params reversed
     //estimate mcmc. Swapped model will be stored as settings->base_model.
     OMP_critical (apop_draw)
-    if (!Apop_settings_get_group(m, apop_mcmc)){
+    {
+    apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
+    if (!s || !s->pmf || s->base_model->log_likelihood != apop_swap_model->log_likelihood){
         apop_model *swapped = apop_model_copy(apop_swap_model);
         swapped->more = m;
         swapped->msize1 = 1;
         swapped->msize2 = m->dsize;
         swapped->data = m->parameters;
-        Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
+        if (s) apop_settings_copy_group(swapped, m, "apop_mcmc");
+        else   Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
         apop_model *est = apop_model_metropolis(m->parameters, r, swapped); //leak.
-        m->draw = apop_model_metropolis_draw;
         apop_settings_copy_group(m, est, "apop_mcmc");
     }
-    return apop_draw(out, r, m);
+    }
+    return apop_model_metropolis_draw(out, r, m);
 }
 
 /** Allocate and initialize the \c parameters, \c info, and other requisite parts of a \ref apop_model.
-- 
2.43.0


From 0e0324b74d58dbc41f4b6319e0c14bd606b65184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 207/311] fix: evaluating or drawing from a multinomial rewrote
 its parameters for a while, so threads using the model got wrong values

---
 model/apop_multinomial.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 549e64d..4f43ae5 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -86,9 +86,9 @@ static long double multinomial_constraint(apop_data *data, apop_model *b){
     return apop_linear_constraint(b->parameters->vector, constr);
 }
 
-static double multinomial_ll(gsl_vector *v, void *params){
-    double *pv = ((apop_model*)params)->parameters->vector->data;
-    size_t size = ((apop_model*)params)->parameters->vector->size;
+static double multinomial_ll(gsl_vector *v, void *pvec){
+    double *pv = ((gsl_vector*)pvec)->data;
+    size_t size = ((gsl_vector*)pvec)->size;
     unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
     for (size_t i=0; i < v->size; i ++)
         hv[i] = gsl_vector_get(v, i);
@@ -104,9 +104,10 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
 
-    pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
-    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
-    pv[0]=n;
+    gsl_vector *pvec = apop_vector_copy(params->parameters->vector); //others may be using the parameters.
+    gsl_vector_set(pvec, 0, 1 - (apop_sum(params->parameters->vector)-n));//making the params a p-vector.
+    double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=pvec);
+    gsl_vector_free(pvec);
     return out;
 }
 
@@ -127,29 +128,26 @@ static apop_model *multinomial_paramdist(apop_data *d, apop_model *m){
 static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
     Nullcheck_mp(est, 1);
     double * p = est->parameters->vector->data;
-    //the trick where we turn the params into a p-vector
     int N = p[0];
 
     if (est->parameters->vector->size == 2) {
         *out = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
         out[1] = N-*out;
-        goto done;
+        return 0;
     }
     //else, multinomial
     //cut/pasted/modded from the GSL. Copyright them.
-    p[0] = 1 - (apop_sum(est->parameters->vector)-N);
     double sum_p = 0.0;
     int sum_n = 0;
 
     for (int i = 0; i < est->parameters->vector->size; i++) {
-        out[i] = (p[i] > 0)
-                ? gsl_ran_binomial (r, p[i] / (1 - sum_p), N - sum_n)
+        double p_i = i ? p[i] : 1 - (apop_sum(est->parameters->vector)-N); //others may be using the parameters.
+        out[i] = (p_i > 0)
+                ? gsl_ran_binomial (r, p_i / (1 - sum_p), N - sum_n)
                 : 0;
-        sum_p += p[i];
+        sum_p += p_i;
         sum_n += out[i];
     }
-    done:
-    p[0] = N;
     return 0;
 }
 
-- 
2.43.0


From 1296ba7ebb744ff244aee87c3d8b94c7df6ec884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 208/311] fix: threads using a PMF and its copies could
 miscount the users of the CMF, or set it up twice

---
 model/apop_pmf.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 07dd098..400eb4a 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -56,8 +56,10 @@ equally probable.
 
 #include "apop_internal.h"
 
+//Copies share the count of users, so threads using different models may change it together.
 Apop_settings_copy(apop_pmf,
-    if (in->cmf) (*out->cmf_refct)++;
+    OMP_critical (pmfsetuptwo)
+    if ((out->cmf = in->cmf)) (*out->cmf_refct)++;
     else { //nothing to share; the two may each set up their own.
         out->cmf_refct = calloc(1, sizeof(int));
         (*out->cmf_refct)++;
@@ -65,7 +67,10 @@ Apop_settings_copy(apop_pmf,
 )
 
 Apop_settings_free(apop_pmf,
-    if (!--*in->cmf_refct) {
+    int users;
+    OMP_critical (pmfsetuptwo)
+    users = --*in->cmf_refct;
+    if (!users) {
         gsl_vector_free(in->cmf);
         free(in->cmf_refct);
     }
@@ -87,7 +92,10 @@ static void estim (apop_data *d, apop_model *out){
     apop_pmf_settings *settings = Apop_settings_get_group(out, apop_pmf);
     if (!settings) settings = Apop_model_add_group(out, apop_pmf);
     if (settings->cmf){ //for some other data
-        if (!--*settings->cmf_refct){
+        int users;
+        OMP_critical (pmfsetuptwo)
+        users = --*settings->cmf_refct;
+        if (!users){
             gsl_vector_free(settings->cmf);
             free(settings->cmf_refct);
         }
@@ -146,9 +154,12 @@ do it before the first draw or CDF calculation.
 */
 static int draw (double *out, gsl_rng *r, apop_model *m){
     Nullcheck_m(m, 1) Nullcheck_d(m->data, 1)
-    apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
+    apop_pmf_settings *settings;
     #pragma omp critical (pmfsetup)
+    {
+    settings = Apop_settings_get_group(m, apop_pmf);
     if (!settings) settings = Apop_model_add_group(m, apop_pmf);
+    }
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
@@ -286,8 +297,13 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
     if (!m->data->weights) return (elmt+1.0)/maxsize;
     else {
-        apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
+        apop_pmf_settings *settings;
+        #pragma omp critical (pmfsetup)
+        {
+        settings = Apop_settings_get_group(m, apop_pmf);
         if (!settings) settings = Apop_model_add_group(m, apop_pmf);
+        }
+        #pragma omp critical (pmfsetuptwo)
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(m->error=='f', return GSL_NAN, 0, "Zero or NaN density in the PMF.");
         return gsl_vector_get(settings->cmf, elmt);
-- 
2.43.0


From c543495eca49147254d06a0a1cdd6688c6e03136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 209/311] fix: threads evaluating one mixture overwrote each
 other's weights, or allocated them twice

---
 transform/apop_mixture.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 8dda282..599a33c 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -227,7 +227,10 @@ static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_mixture_settings *ms = Apop_settings_get_group(model_in, apop_mixture);
     Apop_stopif(!ms, model_in->error='p'; return GSL_NAN, 0, "No apop_mixture_settings group. "
                                               "Did you set this up with apop_model_mixture()?");
-    if (model_in->parameters) unpack(model_in);
+    if (model_in->parameters) {
+        OMP_critical (mixdraw)
+        unpack(model_in);
+    }
     apop_data *lls = get_lls(d, model_in);
 
     //reweight by last round's lambda 
@@ -258,11 +261,14 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
         gsl_vector_scale(onerow, 1/rowtotal);
     }
 
+    OMP_critical (mixdraw)
+    {
     if (!ms->next_weights) ms->next_weights = gsl_vector_alloc(ms->weights->size);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
         gsl_vector_set(ms->next_weights, i, apop_sum(onecol)/lls->matrix->size1);
     }
+    }
     apop_data_free(lls);
     return total_ll;
 }
@@ -290,6 +296,7 @@ static long double mixture_cdf(apop_data *d, apop_model *model_in){
     Nullcheck_m(model_in, GSL_NAN)
     Nullcheck_d(d, GSL_NAN)
     apop_mixture_settings *ms = Apop_settings_get_group(model_in, apop_mixture);
+    OMP_critical (mixdraw)
     unpack(model_in);
     weighted_sum(apop_cdf);
     return total;
-- 
2.43.0


From 111da1bb4b5486465d16bc3039caaea1aad39f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 210/311] fix: threads smoothing via loess at once overwrote
 each other's static variables

---
 model/apop_loess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8f06449..2da0eaa 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3574,6 +3574,7 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     int want_cov = Apop_settings_get(m, apop_loess, want_predict_ci)=='y';
     struct pred_struct pred = (struct pred_struct){ };
 
+    OMP_critical (loess) //the translated FORTRAN keeps its state in static variables.
     predict(eval_here, in->matrix->size1, &(Apop_settings_get(m, apop_loess, lo_s)), &pred, want_cov);
 
     //Massage FORTRAN's output to Apophenia's formats
@@ -3618,6 +3619,7 @@ static void apop_loess_est(apop_data *d, apop_model *out){
     if (!Apop_settings_get_group(out, apop_loess))
         Apop_model_add_group(out, apop_loess, .data=d);
     out->data = d;
+    OMP_critical (loess)
     loess(&Apop_settings_get(out, apop_loess, lo_s));
 
     //setup the expected matrix. In a perfect world, this wouldn't all be cut/pasted from apop_OLS.
-- 
2.43.0


From 9078d9102ec7e2967562b9630c4f90609b84f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 211/311] fix: the divergence of PMFs that are not synced was
 NaN, not GSL_NEGINF

---
 apop_stats.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index b7ec866..e49265b 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -739,8 +739,12 @@ APOP_VAR_ENDHEAD
             } //else:
             double qi = apop_p(Apop_r(p, i), to);
             Apop_notify(3,"%g\t%g\t%g", pi, qi, pi ? pi * log(pi/qi):0);
-            Apop_stopif(!qi, div+=GSL_NEGINF; break, 1, "The PMFs aren't synced: from-distribution has a value where "
+            if (!qi){
+                Apop_notify(1, "The PMFs aren't synced: from-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
+                div += GSL_NEGINF;
+                continue;
+            }
             div += pi * log(pi/qi);
         }
     } else { //the version with the RNG.
-- 
2.43.0


From 76ee1447f39cec35bb46d232507b42955fa5b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 212/311] fix: the threads of the divergence all drew from the
 caller's one RNG

---
 apop_stats.m4.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index e49265b..a9d7515 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -2,6 +2,9 @@
 /* Copyright (c) 2006--2007, 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 
 #include "apop_internal.h"
+#ifdef _OPENMP
+#include <omp.h>
+#endif
 #include <gsl/gsl_rng.h>
 #include <gsl/gsl_eigen.h>
 
@@ -750,6 +753,9 @@ APOP_VAR_ENDHEAD
     } else { //the version with the RNG.
         Apop_stopif(!from->dsize, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
                                                      "but its dsize (draw size)==0. Returning NaN.");
+        #ifdef _OPENMP
+        if (omp_get_max_threads() > 1) rng = NULL; //each thread draws from its own.
+        #endif
         OMP_for_reduce(+:div,    int i=0; i < draw_ct; i++){
             double draw[from->dsize];
             apop_draw(draw, rng, from);
-- 
2.43.0


From 2a1b3fd45257d13e76a28ae97be1cc328203c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 213/311] fix: threads whose first query came at the same time
 opened a database each, and all but one got lost

---
 apop_db.m4.c     | 42 ++++++++++++++++++++++++------------------
 apop_db_sqlite.c | 19 ++++++++++++++++---
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 86ffbb4..fa78ec3 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -36,9 +36,12 @@ apop_opts_type apop_opts	=
 #include "apop_db_mysql.c"
 #endif
 
-//if !apop_opts.db_engine, run this to assign a value.
+//if !apop_opts.db_engine, assign a value. Other threads may be doing so as well.
 static void get_db_type(){
-    if (getenv("APOP_DB_ENGINE") && (!strcasecmp(getenv("APOP_DB_ENGINE"), "mysql") || !strcasecmp(getenv("APOP_DB_ENGINE"), "mariadb")))
+    OMP_critical (db_type)
+    if (apop_opts.db_engine)
+        ;
+    else if (getenv("APOP_DB_ENGINE") && (!strcasecmp(getenv("APOP_DB_ENGINE"), "mysql") || !strcasecmp(getenv("APOP_DB_ENGINE"), "mariadb")))
         apop_opts.db_engine = 'm';
     else
         apop_opts.db_engine = 's';
@@ -83,7 +86,7 @@ don't need to bother).
         1: database did not open.
 */
 int apop_db_open(char const *filename){
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (!db) //check the environment.
 #ifdef HAVE_MYSQL
        if(!mysql_db)  
@@ -95,7 +98,10 @@ int apop_db_open(char const *filename){
 #else
         {Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");}
 #endif
-        return apop_sqlite_db_open(filename);
+    int status;
+    OMP_critical (db_open)
+    status = apop_sqlite_db_open(filename);
+    return status;
 }
 
 /** \cond doxy_ignore */
@@ -132,7 +138,7 @@ APOP_VAR_HEAD int apop_table_exists(char const *name, char remove){
     Apop_stopif(!name, return -1, 0, "You gave me a NULL table name.");
     char apop_varad_var(remove, 'n')
 APOP_VAR_END_HEAD
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         return apop_mysql_table_exists(name, remove);
@@ -142,7 +148,7 @@ APOP_VAR_END_HEAD
     char *err=NULL, *q2;
     tab_exists_t te = { .name = name };
     tab_exists_t tev = { .name = name };
-	if (db==NULL) return 0;
+	if (!sqlite_db_is_open()) return 0;
 	sqlite3_exec(db, "select name from sqlite_master where type='table'", tab_exists_callback, &te, &err); 
 	sqlite3_exec(db, "select name from sqlite_master where type='view'", tab_exists_callback, &tev, &err); 
     char query[]="Selecting names from sqlite_master";//for ERRCHECK.
@@ -204,7 +210,7 @@ age);", tablename)</tt>.
 int apop_query(const char *fmt, ...){
     char *err=NULL;
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         {Apop_stopif(!mysql_db, return 1, 0, "No mySQL database is open.");
@@ -213,7 +219,7 @@ int apop_query(const char *fmt, ...){
         Apop_stopif(1, return 1, 0, "Apophenia was compiled without mysql support.");
 #endif
     else 
-        {if (!db) apop_db_open(NULL);
+        {sqlite_db_ready();
         sqlite3_exec(db, query, NULL,NULL, &err);
         Apop_stopif(err, sqlite3_free(err); free(query); return 1, 0, "%s: %s",query, err);
         }
@@ -251,7 +257,7 @@ could do from the command line using <tt>sqlite3 dbname.db ".table"</tt>).
 apop_data * apop_query_to_text(const char * fmt, ...){
     apop_data *out = NULL;
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm'){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_core(query, process_result_set_chars);
@@ -319,7 +325,7 @@ be used for row names (and therefore will not appear in the \c matrix).
 */ 
 apop_data * apop_query_to_data(const char * fmt, ...){
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         return apop_mysql_query_core(query, process_result_set_data);
@@ -330,7 +336,7 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     //else
     char *err=NULL;
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
-	if (db==NULL) apop_db_open(NULL);
+	sqlite_db_ready();
     sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
     Apop_stopif(err, if (!qinfo.outdata) qinfo.outdata=apop_data_alloc(); qinfo.outdata->error='q';
                 sqlite3_free(err); free(query); return qinfo.outdata, 0, "%s: %s",query, err);
@@ -364,7 +370,7 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 */
 gsl_vector * apop_query_to_vector(const char * fmt, ...){
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         return apop_mysql_query_core(query, process_result_set_vector);
@@ -373,7 +379,7 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
 #endif
     apop_data *d=NULL;
     gsl_vector *out;
-	if (db==NULL) apop_db_open(NULL);
+	sqlite_db_ready();
     Store_settings
 	d	= apop_query_to_data("%s", query);
     Restore_settings
@@ -408,7 +414,7 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
 double apop_query_to_float(const char * fmt, ...){
     double out;
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm'){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_to_float(query);
@@ -417,7 +423,7 @@ double apop_query_to_float(const char * fmt, ...){
 #endif
     } else {
         apop_data *d=NULL;
-        if (db==NULL) apop_db_open(NULL);
+        sqlite_db_ready();
         Store_settings
         d = apop_query_to_data("%s", query);
         Restore_settings
@@ -454,7 +460,7 @@ If the query produces more or fewer columns than there are elements in the colum
 */
 apop_data * apop_query_to_mixed_data(const char *typelist, const char * fmt, ...){
     Fillin(query, fmt)
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
         {apop_data* out = apop_mysql_mixed_query(typelist, query);
@@ -569,7 +575,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                     || (set->vector && set->names->rowct == set->vector->size)
                     || (set->textsize[0] && set->textsize[1] && set->names->rowct == set->textsize[0]));
 
-    if (!apop_opts.db_engine) get_db_type();
+    get_db_type();
     if (apop_table_exists(tabname))
         Asprintf(&q, " ");
     else if (apop_opts.db_engine == 'm')
@@ -611,7 +617,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
         Apop_stopif(1, return -1, apop_errorlevel, "Apophenia was compiled without mysql support.");
 #endif
     else {
-        if (db==NULL) apop_db_open(NULL);
+        sqlite_db_ready();
         if (((output_append =='a' || output_append =='A') && apop_table_exists(tabname)) )
             Asprintf(&q, " ");
         else {
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 035a6b2..ab69fa3 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -176,10 +176,23 @@ static int apop_sqlite_db_open(char const *filename){
 #define sqlink(name) sqlite3_create_function(db, #name , 1, SQLITE_ANY, NULL, &name##Fn, NULL, NULL);
     sqlink(sqrt) sqlink(exp) sqlink(sin) sqlink(cos)
     sqlink(tan) sqlink(asin) sqlink(acos) sqlink(atan) sqlink(log) sqlink(log10)
-	apop_query("pragma short_column_names");
+	sqlite3_exec(db, "pragma short_column_names", NULL, NULL, NULL);
     return 0;
 }
 
+//Many threads may find that there is no database yet.
+static void sqlite_db_ready(){
+    OMP_critical (db_open)
+    if (!db) apop_sqlite_db_open(NULL);
+}
+
+static int sqlite_db_is_open(){
+    int out;
+    OMP_critical (db_open)
+    out = db != NULL;
+    return out;
+}
+
 /** \cond doxy_ignore */
 typedef struct {    //for the apop_query_to_... functions.
     int       firstcall, namecol;
@@ -221,7 +234,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
 apop_data * apop_sqlite_query_to_text(char *query){
     char *err = NULL;
     callback_t qinfo = {.outdata=apop_data_alloc(), .namecol=-1, .firstcall=1};
-    if (db==NULL) apop_db_open(NULL);
+    sqlite_db_ready();
     sqlite3_exec(db, query, db_to_chars, &qinfo, &err); ERRCHECK_SET_ERROR(qinfo.outdata)
     if (qinfo.outdata->textsize[0]==0){
         apop_data_free(qinfo.outdata);
@@ -332,7 +345,7 @@ apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
     char *err = NULL;
     apop_qt info = { };
     count_types(&info, intypes);
-	if (!db) apop_db_open(NULL);
+	sqlite_db_ready();
     sqlite3_exec(db, query, multiquery_callback, &info, &err); 
     Apop_stopif(info.error_thrown, info.d->error='d'; sqlite3_free(err); return info.d,
             0, "dimension error");
-- 
2.43.0


From 1c3a33b6971b491d96e6c241edcc180948003bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 214/311] fix: queries for a vector or number set
 apop_opts.verbose to zero for a while, hiding or showing other threads'
 messages, maybe for good

---
 apop_db.m4.c | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index fa78ec3..068d507 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -305,6 +305,17 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
 	return 0;
 }
 
+//The query has already been filled in and reported.
+static apop_data *apop_query_to_data_sqlite(char *query){
+    char *err=NULL;
+    callback_t qinfo = {.firstcall = 1, .namecol=-1};
+	sqlite_db_ready();
+    sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
+    Apop_stopif(err, if (!qinfo.outdata) qinfo.outdata=apop_data_alloc(); qinfo.outdata->error='q';
+                sqlite3_free(err); return qinfo.outdata, 0, "%s: %s",query, err);
+	return qinfo.outdata;
+}
+
 /** Queries the database and dumps the result into an \ref apop_data set.
 
 \param fmt A <tt>printf</tt>-style SQL query.
@@ -334,26 +345,11 @@ apop_data * apop_query_to_data(const char * fmt, ...){
 #endif
 
     //else
-    char *err=NULL;
-    callback_t qinfo = {.firstcall = 1, .namecol=-1};
-	sqlite_db_ready();
-    sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
-    Apop_stopif(err, if (!qinfo.outdata) qinfo.outdata=apop_data_alloc(); qinfo.outdata->error='q';
-                sqlite3_free(err); free(query); return qinfo.outdata, 0, "%s: %s",query, err);
+    apop_data *out = apop_query_to_data_sqlite(query);
     free (query);
-	return qinfo.outdata;
+	return out;
 }
 
-
-    /** \cond doxy_ignore */
-//These used to do more, but I'll leave them as a macro anyway in case of future expansion.
-#define Store_settings  \
-    int v = apop_opts.verbose; apop_opts.verbose=0;/*hack to prevent double-printing.*/ \
-
-#define Restore_settings  \
-    apop_opts.verbose=v;
-    /** \endcond */
-
 /** Queries the database and dumps the first column of the result into a \c gsl_vector.
 
 \param fmt A <tt>printf</tt>-style SQL query.
@@ -379,10 +375,7 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
 #endif
     apop_data *d=NULL;
     gsl_vector *out;
-	sqlite_db_ready();
-    Store_settings
-	d	= apop_query_to_data("%s", query);
-    Restore_settings
+	d	= apop_query_to_data_sqlite(query);
     Apop_stopif(!d, free(query); return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
     Apop_stopif(d->error || !d->matrix, apop_data_free(d); free(query); return NULL, 0, "Query [%s] failed or has no data columns. Returning NULL.", query);
     //else:
@@ -423,10 +416,7 @@ double apop_query_to_float(const char * fmt, ...){
 #endif
     } else {
         apop_data *d=NULL;
-        sqlite_db_ready();
-        Store_settings
-        d = apop_query_to_data("%s", query);
-        Restore_settings
+        d = apop_query_to_data_sqlite(query);
         Apop_stopif(!d, free(query); return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
         Apop_stopif(d->error || !d->matrix, apop_data_free(d); free(query); return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
         out	= apop_data_get(d);
-- 
2.43.0


From c23902bd544913d8d98ff472112df44fe5e06bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 215/311] fix: making a crosstab unset apop_opts.db_name_column
 for a while, so other threads' queries lost their row names

---
 apop_conversions.m4.c | 7 +++----
 apop_db_mysql.c       | 2 +-
 apop_db_sqlite.c      | 3 ++-
 apop_internal.h       | 2 ++
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index abf478a..1a34058 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -123,8 +123,7 @@ APOP_VAR_ENDHEAD
     apop_data *pre_d1=NULL, *pre_d2=NULL, *datachars=NULL;
     apop_data *outdata = apop_data_alloc();
 
-    char* p = apop_opts.db_name_column;
-    apop_opts.db_name_column = NULL;//we put this back at the end.
+    apop_ignore_name_column = 1; //we put this back at the end.
     char *Q;
 
     Asprintf(&Q, "select %s, %s, %s from %s %s %s %s %s", row, col, data, tabname,
@@ -133,7 +132,7 @@ APOP_VAR_ENDHEAD
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
     datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, apop_opts.db_name_column = p; apop_data_free(outdata); free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
+    Apop_stopif(!datachars, apop_ignore_name_column = 0; apop_data_free(outdata); free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
     Apop_stopif(datachars->error, outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
 
     //A bit inefficient, but well-encapsulated.
@@ -163,7 +162,7 @@ APOP_VAR_ENDHEAD
     apop_data_free(pre_d2);
     apop_data_free(datachars);
     outdata->matrix = out;
-    apop_opts.db_name_column = p;
+    apop_ignore_name_column = 0;
 	return outdata;
 }
 
diff --git a/apop_db_mysql.c b/apop_db_mysql.c
index 39ac4f8..cc95012 100644
--- a/apop_db_mysql.c
+++ b/apop_db_mysql.c
@@ -77,7 +77,7 @@ static double apop_mysql_table_exists(char const *table, int delme){
 
 static int get_name_row(unsigned int *num_fields, MYSQL_FIELD *fields){
     for(size_t i = 0; i < *num_fields; i++)
-        if (apop_opts.db_name_column && !strcasecmp(fields[i].name, apop_opts.db_name_column)){
+        if (!apop_ignore_name_column && apop_opts.db_name_column && !strcasecmp(fields[i].name, apop_opts.db_name_column)){
             (*num_fields)--;
             return i;
         }
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ab69fa3..333b660 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -7,6 +7,7 @@ Copyright (c) 2006--2007 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 #include <string.h>
 
 sqlite3	*db=NULL;	                //There's only one SQLite database handle. Here it is.
+threadlocal int apop_ignore_name_column; //set while making a crosstab, where all columns are to be text.
 
 
 
@@ -210,7 +211,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     if (qi->firstcall){
         qi->firstcall = 0;
         for(int i=0; i<argc; i++)
-            if (apop_opts.db_name_column && !strcasecmp(column[i], apop_opts.db_name_column)){
+            if (!apop_ignore_name_column && apop_opts.db_name_column && !strcasecmp(column[i], apop_opts.db_name_column)){
                 qi->namecol = i;
                 break;
             }
diff --git a/apop_internal.h b/apop_internal.h
index 54a5251..fb71f6a 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -56,6 +56,8 @@ void apop_gsl_handler_unset(void);
     #define threadlocal
 #endif
 
+extern threadlocal int apop_ignore_name_column; //apop_db_sqlite.c
+
 #ifdef _OPENMP
 #define PRAGMA(x) _Pragma(#x)
 #define OMP_critical(tag) PRAGMA(omp critical ( tag ))
-- 
2.43.0


From f6aeb2f0c983a7b52e5a7495bdf990aa7e0b2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 216/311] fix: the confidence page of a loess prediction was
 filled with garbage by default, else had its bounds swapped

---
 model/apop_loess.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 2da0eaa..8681162 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2914,7 +2914,7 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
     pre->fit = malloc(M * sizeof(double));
 	pre->residual_scale = lo->out.s;
 	pre->df = (lo->out.one_delta * lo->out.one_delta) / lo->out.two_delta;
-    double L[N * M];
+    double *L = want_cov ? malloc(N * M * sizeof(double)) : NULL; //too big for the stack
 	if(!strcmp(lo->control.surface, "direct")) {
         if(want_cov)
             loess_dfitse(lo->in.y, x, x_evaluate, lo->in.weights, lo->out.robust, !strcmp(lo->model.family, "gaussian"), 
@@ -2949,6 +2949,7 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
 			pre->se_fit[i] = lo->out.s * sqrt(tmp);
 		}
 	}
+    free(L);
 }
 
 void pred_free_mem(struct	pred_struct	*pre){
@@ -3545,6 +3546,7 @@ Apop_settings_init(apop_loess,
         .kd_tree.vval =  malloc((p + 1) * max_kd * sizeof(double)),
     };
     Apop_varad_set(ci_level, 0.95);
+    Apop_varad_set(want_predict_ci, 'y');
     struct loess_struct *lo = &(out->lo_s);
     if (in.data->weights)
         lo->in.weights = in.data->weights->data;
@@ -3581,20 +3583,19 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     gsl_vector* firstcol = Apop_cv(in, 0);
     gsl_vector_view v = gsl_vector_view_array(pred.fit, firstcol->size);
     gsl_vector_memcpy(firstcol, &(v.vector));
-    apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
-    apop_name_add(ci->names, "standard error", 'c');
-    apop_name_add(ci->names, "lower CI", 'c');
-    apop_name_add(ci->names, "upper CI", 'c');
-
     if (want_cov){
+        apop_data *ci =  apop_data_add_page(in, apop_data_alloc(in->matrix->size1, 3), "<Confidence>");
+        apop_name_add(ci->names, "standard error", 'c');
+        apop_name_add(ci->names, "lower CI", 'c');
+        apop_name_add(ci->names, "upper CI", 'c');
         //Find confidence intervals. Used to be in loess's pointwise().
         double coverage = Apop_settings_get(m, apop_loess, ci_level);
         double t_dist = qt(1 - (1 - coverage)/2, pred.df);
         for(int i = 0; i < in->matrix->size1; i++) {
             double limit = pred.se_fit[i] * t_dist;
-            apop_data_set(ci, i, 0, limit);
-            apop_data_set(ci, i, 1, pred.fit[i] + limit);
-            apop_data_set(ci, i, 2, pred.fit[i] - limit);
+            apop_data_set(ci, i, 0, pred.se_fit[i]);
+            apop_data_set(ci, i, 1, pred.fit[i] - limit);
+            apop_data_set(ci, i, 2, pred.fit[i] + limit);
         }	
     }
 
-- 
2.43.0


From c190e3bd48d1c83ebdbd0ba9534a6dc8f83e5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 217/311] fix: loess predictions read past the predictors if
 the dependent variable is in the vector

---
 model/apop_loess.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8681162..52e6462 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3571,8 +3571,9 @@ Apop_settings_init(apop_loess,
 
 apop_data * loess_predict (apop_data *in, apop_model *m){
     //Massage inputs to FORTRAN's format
-    double *eval_here = malloc(sizeof(double)*in->matrix->size1*(in->matrix->size2-1));
-    matrix_to_FORTRAN(in->matrix, eval_here, 1);
+    int startat = in->vector ? 0 : 1; //as with the data for estimation, the dependent variable may be in the vector.
+    double *eval_here = malloc(sizeof(double)*in->matrix->size1*(in->matrix->size2-startat));
+    matrix_to_FORTRAN(in->matrix, eval_here, startat);
     int want_cov = Apop_settings_get(m, apop_loess, want_predict_ci)=='y';
     struct pred_struct pred = (struct pred_struct){ };
 
@@ -3580,7 +3581,7 @@ apop_data * loess_predict (apop_data *in, apop_model *m){
     predict(eval_here, in->matrix->size1, &(Apop_settings_get(m, apop_loess, lo_s)), &pred, want_cov);
 
     //Massage FORTRAN's output to Apophenia's formats
-    gsl_vector* firstcol = Apop_cv(in, 0);
+    gsl_vector* firstcol = in->vector ? in->vector : Apop_cv(in, 0);
     gsl_vector_view v = gsl_vector_view_array(pred.fit, firstcol->size);
     gsl_vector_memcpy(firstcol, &(v.vector));
     if (want_cov){
-- 
2.43.0


From 769c968182f4685985c1f105662b573469d100fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 218/311] fix: the log likelihood of a loess model crashed,
 looking for the residuals in the data

---
 model/apop_loess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 52e6462..5ae0ae9 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3611,7 +3611,8 @@ static double onerow(gsl_vector *v, void *sd){
 
 //Assumes one gaussian, unweighted.
 static long double loess_ll(apop_data *d, apop_model *m){
-    apop_data *exp = apop_data_get_page(d, "<Predicted>");
+    apop_data *exp = apop_data_get_page(m->info, "<Predicted>");
+    Apop_stopif(!exp, return GSL_NAN, 0, "No <Predicted> page in the model's info. Did you estimate the model?");
     Apop_col_tv(exp, "residual", residuals);
     double sd = sqrt(apop_vector_var(residuals));
     return apop_map_sum(exp, .param=&sd, .part='r', .fn_vp= onerow);
-- 
2.43.0


From baa29aa9564731f5df74d3b6e3035c7409208d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 219/311] fix: freeing a loess model freed the weights of the
 data, and a copy of one freed all of the original's arrays

---
 model/apop_loess.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 5ae0ae9..c1e53dc 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3489,7 +3489,29 @@ void loess(struct loess_struct *lo) ;
 void loess_setup( double  *x, double *y, long n, long p, struct  loess_struct *lo) ;
 
 
-Apop_settings_copy(apop_loess, )
+#define loess_dup(elmt, ct) if (in->lo_s.elmt) { \
+        out->lo_s.elmt = malloc((ct) * sizeof(*out->lo_s.elmt)); \
+        memcpy(out->lo_s.elmt, in->lo_s.elmt, (ct) * sizeof(*out->lo_s.elmt)); }
+
+Apop_settings_copy(apop_loess,
+    long n = in->lo_s.in.n;
+    long p = in->lo_s.in.p;
+    long max_kd = n > 200 ? n : 200;
+    loess_dup(in.y, n)
+    loess_dup(in.x, n*p)
+    loess_dup(in.weights, n)
+    loess_dup(out.fitted_values, n)
+    loess_dup(out.fitted_residuals, n)
+    loess_dup(out.pseudovalues, n)
+    loess_dup(out.diagonal, n)
+    loess_dup(out.robust, n)
+    loess_dup(out.divisor, p)
+    loess_dup(kd_tree.parameter, 7)
+    loess_dup(kd_tree.a, max_kd)
+    loess_dup(kd_tree.xi, max_kd)
+    loess_dup(kd_tree.vert, 2*p)
+    loess_dup(kd_tree.vval, (p+1)*max_kd)
+)
 Apop_settings_free(apop_loess, loess_free_mem(&(in->lo_s));)
 
 void matrix_to_FORTRAN(gsl_matrix *inmatrix, double *outFORTRAN, int start_col){
@@ -3548,16 +3570,17 @@ Apop_settings_init(apop_loess,
     Apop_varad_set(ci_level, 0.95);
     Apop_varad_set(want_predict_ci, 'y');
     struct loess_struct *lo = &(out->lo_s);
+    lo->in.weights = malloc(n * sizeof(double));
     if (in.data->weights)
-        lo->in.weights = in.data->weights->data;
-    else {
-        lo->in.weights = malloc(n * sizeof(double));
+        for (int i = 0; i < n; i++)
+            lo->in.weights[i] = gsl_vector_get(in.data->weights, i);
+    else
         for (int i = 0; i < n; i++) 
             lo->in.weights[i] = 1;
-    }
     int startat = 0;
     if (in.data->vector) //OK, then that's the dependent var.
-        memcpy(lo->in.y, in.data->vector->data, n*sizeof(double));
+        for (int j=0; j< n; j++)
+            lo->in.y[j] = gsl_vector_get(in.data->vector, j);
     else {  //use the first col as the dep. var.
         startat =1;
         gsl_vector *col = Apop_cv(in.data, 0);
-- 
2.43.0


From 2fb3d5e82fb2baef375bef8c485c194ecdf31f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 220/311] fix: loess ignored the settings for normalization,
 parametric predictors, and dropped squares

---
 model/apop_loess.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index c1e53dc..f1947fd 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3081,7 +3081,7 @@ static void loess_(double *y, double *x_, long *size_info, double *weights,
 
 	double x[D * N], x_tmp[D*N], temp[N], xi_tmp[max_kd], vert_tmp[D * 2], 
                 vval_tmp[(D + 1) * max_kd], diag_tmp[N];
-	long a_tmp[max_kd], param_tmp[N], order_parametric[D], order_drop_sqr[D];
+	long a_tmp[max_kd], param_tmp[7], order_parametric[D], order_drop_sqr[D];
     integer int_temp[N];//original code sent double, but lowesw & lowesp want an int
 
     if((*iterations) > 0)
@@ -3092,7 +3092,7 @@ static void loess_(double *y, double *x_, long *size_info, double *weights,
 		robust[i] = 1;
         for(i = 0; i < (N * D); i++)
                 x_tmp[i] = x_[i];
-	if((*normalize) && (D > 1)) {
+	if(*normalize != 'n' && D > 1) {
 		int cut = ceil(0.100000000000000000001 * N);
 		for(i = 0; i < D; i++) {
 			k = i * N;
@@ -3589,7 +3589,10 @@ Apop_settings_init(apop_loess,
     }
     matrix_to_FORTRAN(in.data->matrix, lo->in.x, startat);
 	for(int i = 0; i < 8; i++)
-        lo->model.parametric[i] = lo->model.drop_square[i] = 0;
+    {
+        lo->model.parametric[i] = in.lo_s.model.parametric[i];
+        lo->model.drop_square[i] = in.lo_s.model.drop_square[i];
+    }
 )
 
 apop_data * loess_predict (apop_data *in, apop_model *m){
-- 
2.43.0


From 0e18230de18c6f3e6607225fdb04f26b39e7b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 221/311] fix: apop_loess: the comparison for sorting compared
 each value with itself, so the trimmed scale was of arbitrary rows

---
 model/apop_loess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index f1947fd..c17a55a 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2962,7 +2962,7 @@ static  char    *surf_stat;
 
 int comp(const void *d1_in, const void *d2_in) {
     const double *d1 = d1_in;
-    const double *d2 = d1_in;
+    const double *d2 = d2_in;
         if(*d1 < *d2)
                 return(-1);
         else if(*d1 == *d2)
-- 
2.43.0


From dfe2d0988c15b19c1fd2c5a7d5c9076dd1311d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 222/311] fix: apop_loess: the lower of the two middle
 residuals was not found, so robustness weights were off for even N

---
 model/apop_loess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index c17a55a..b196d43 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2645,7 +2645,7 @@ static void lowesw_(double *res, integer *n, double *rw, integer *pi) {
 /*     partial sort to find 6*mad */
     find_kth_smallest(1, *n, nh, 1, &rw[1], &pi[1]);
     if (*n - nh + 1 < nh) {
-        find_kth_smallest(1, 1, 2, 1, &rw[1], &pi[1]);
+        find_kth_smallest(1, nh-1, nh-1, 1, &rw[1], &pi[1]);
         cmad = (rw[pi[nh]] + rw[pi[nh - 1]]) * 3;
     } else
         cmad = rw[pi[nh]] * 6;
-- 
2.43.0


From ae98bd1abf774ee404f23e0199dce36eac526bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 223/311] fix: apop_loess: the incomplete beta function used
 gammas for log gammas, so confidence intervals had zero width

---
 model/apop_loess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index b196d43..601804c 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3302,7 +3302,7 @@ double ibeta(double x, double a, double b) {
                     pn[i] /= IBETA_SMALL;
     } while (fabs(next-prev) > DOUBLE_EPS*prev);
     factor = a*log(x) + (b-1)*log(1-x);
-    factor -= tgammal(a+1) + tgammal(b) - tgammal(a+b);
+    factor -= gsl_sf_lngamma(a+1) + gsl_sf_lngamma(b) - gsl_sf_lngamma(a+b);
     I = exp(factor) * next;
     return(flipped ? 1-I : I);
 }
@@ -3388,7 +3388,7 @@ static double invibeta_quick(double p, double a, double b) {
     x = a + b;
     m = a / x;
     s = sqrt((a*b) / (x*x*(x+1)));
-    return(GSL_MAX(0.0, GSL_MAX(1.0, invigauss_quick(p)*s + m)));
+    return(GSL_MAX(0.0, GSL_MIN(1.0, invigauss_quick(p)*s + m)));
 }
 
 /*
-- 
2.43.0


From 654f56d26dd0a08c642eb35c7875d2e8dee769d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 224/311] fix: apop_loess: predictions multiplied the
 observation weights into the stored weights again at every call

---
 model/apop_loess.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 601804c..04b3eac 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2908,8 +2908,6 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
         for(j = 0; j < N; j++)
             x[k + j] = x_tmp[p + j];
     }
-	for(i = 0; i < N; i++)
-		lo->out.robust[i] *= lo->in.weights[i];
 
     pre->fit = malloc(M * sizeof(double));
 	pre->residual_scale = lo->out.s;
-- 
2.43.0


From f7f22044f6ef42c7b3e192b9a75762ec3b567ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 225/311] fix: apop_loess: the prediction's standard error
 divided by the weights squared

---
 model/apop_loess.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 04b3eac..8e98a52 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -2936,8 +2936,7 @@ void predict(double  *new_x, long M, struct loess_struct *lo, struct pred_struct
             k = i * M;
             for(j = 0; j < M; j++) {
                 p = k + j;
-                L[p] /= lo->in.weights[i];
-                L[p] *= L[p]; //i.e., square
+                L[p] *= L[p] / lo->in.weights[i]; //i.e., square, over the weight
             }
 		}
 		for(i = 0; i < M; i++) {
-- 
2.43.0


From 15ea6d205666bf749e28af1cfb1da31dc60ac60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 226/311] fix: apop_ml_impute: the search stopped at a gradient
 of 0.2, which left any cell of large variance at its starting point

---
 apop_missing_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 4a77ecc..1f6795c 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -143,6 +143,7 @@ apop_model * apop_ml_impute(apop_data *d,  apop_model* mvn){
     impute_me->more = mvn;
     apop_model *fixed = apop_model_fix_params(impute_me);
     Apop_model_add_group(fixed, apop_parts_wanted);
+    Apop_settings_add(fixed, apop_mle, tolerance, 1e-5); //fix_params' own is too broad to move a cell with a large variance.
     apop_model *m = apop_estimate(mvn->parameters, fixed);
     apop_model_free(fixed);
     return m;
-- 
2.43.0


From 12fb02ff6d9b7be747d8a3e12685090780ef8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 227/311] fix: apop_rake: not converging was reported only when
 the last round did converge

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 4d70163..8cc0005 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -325,7 +325,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     }
     cleanup(index, rakeinfos,contrast_ct);
     gsl_vector_free(previous);
-    Apop_stopif(k == maxit, fit->error='c', 0, "Maximum number of iterations reached.");
+    Apop_stopif(k > maxit, fit->error='c', 0, "Maximum number of iterations reached.");
 }
 
 char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
-- 
2.43.0


From 15a127a512ed5e6559e03e9eec986d1504d0a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 228/311] fix: apop_rake: nudging left out the cells of the
 margin table, not those of the initial table

---
 apop_rake.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 8cc0005..6c1348a 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -397,7 +397,7 @@ int find_in_allvars(char const *in, apop_data const *allvars){
 static int setup_nonzero_contrast(char const *margin_table, 
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
-              double nudge, char const * structural_zeros, bool have_init_table){
+              double nudge, char const * structural_zeros, char const *init_table){
     char *q;
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
@@ -419,9 +419,9 @@ static int setup_nonzero_contrast(char const *margin_table,
                   q, (!contrast_ct && i==0) ? "" : "natural join",
                   allvars->text[0][i],  margin_table);
     if (structural_zeros) xprintf(&q, "%s where not (%s)\n", q, structural_zeros);
-    if (have_init_table){
+    if (init_table){
         //Keep out margins with values for now; join them in below.
-        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
+        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, init_table);
     }
 	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
     free(q);
-- 
2.43.0


From 31800cf17a8e54f24722b2ae8c79f9886f1b5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 229/311] fix: apop_text_to_db: a line going past the last
 field end given was checked against memory past the list

---
 cmd/apop_text_to_db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/apop_text_to_db.c b/cmd/apop_text_to_db.c
index eff4c53..8a3fab4 100644
--- a/cmd/apop_text_to_db.c
+++ b/cmd/apop_text_to_db.c
@@ -11,8 +11,9 @@ int *break_down(char *in){
     int ctr = 0;
     char *cp = strtok (in, ",");
     while (cp != NULL) {
-      out = realloc(out, sizeof(int)*(ctr+1));
+      out = realloc(out, sizeof(int)*(ctr+2));
       out[ctr++] = atoi(cp);
+      out[ctr] = 0; //no field ends here, so the last one runs to the end of the line.
       cp = strtok (NULL, ",");
     }
     return out;
-- 
2.43.0


From 2d04dbaafef4d0b5e1177fa6b198fc9151d1eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 230/311] fix: apop_text_to_db: with arguments missing after
 the options, the database opened was named by the environment

---
 cmd/apop_text_to_db.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/apop_text_to_db.c b/cmd/apop_text_to_db.c
index 8a3fab4..6c12e21 100644
--- a/cmd/apop_text_to_db.c
+++ b/cmd/apop_text_to_db.c
@@ -89,6 +89,7 @@ int main(int argc, char **argv){
                                      }
 
         }
+    Apop_stopif(optind+3 > argc, return 1, 0, "I need three arguments past the options: text_file table_name dbname");
 	apop_db_open(argv[optind + 2]);
     if (tab_exists_check) apop_table_exists(argv[optind+1],1);
     apop_query("begin");
-- 
2.43.0


From b153f490126082f700e8a6f60f6ca44db17b73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 231/311] fix: command-line tools: a long option argument was
 written past the end of its setting

---
 cmd/apop_db_to_crosstab.c | 2 +-
 cmd/apop_text_to_db.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/apop_db_to_crosstab.c b/cmd/apop_db_to_crosstab.c
index 2b4ff75..fbf46af 100644
--- a/cmd/apop_db_to_crosstab.c
+++ b/cmd/apop_db_to_crosstab.c
@@ -26,7 +26,7 @@ int main(int argc, char **argv){
 	apop_opts.verbose=0;  //so don't print queries until -v -v.
 
 	while ((c = getopt (argc, argv, "d:f:hv-")) != -1)
-		if      (c=='d') strcpy(apop_opts.output_delimiter,optarg);
+		if      (c=='d') snprintf(apop_opts.output_delimiter, sizeof(apop_opts.output_delimiter), "%s", optarg);
         else if (c=='h'||c=='-') {printf(msg, argv[0]); exit(0);}
         else if (c=='v') {
             verbose++;
diff --git a/cmd/apop_text_to_db.c b/cmd/apop_text_to_db.c
index 6c12e21..bc893f8 100644
--- a/cmd/apop_text_to_db.c
+++ b/cmd/apop_text_to_db.c
@@ -71,12 +71,12 @@ int main(int argc, char **argv){
             apop_data_transpose(field_name_data);
             field_names = field_name_data->text[0];
         }
-        else if (c=='d') strcpy(apop_opts.input_delimiters, optarg);
+        else if (c=='d') snprintf(apop_opts.input_delimiters, sizeof(apop_opts.input_delimiters), "%s", optarg);
 		else if (c=='f') field_list = break_down(optarg);
 		else if (c=='h') {printf("%s", msg); return 0;}
 		else if (c=='m') apop_opts.db_engine = 'm';
-		else if (c=='u') strcpy(apop_opts.db_user, optarg);
-		else if (c=='p') strcpy(apop_opts.db_pass, optarg);
+		else if (c=='u') snprintf(apop_opts.db_user, sizeof(apop_opts.db_user), "%s", optarg);
+		else if (c=='p') snprintf(apop_opts.db_pass, sizeof(apop_opts.db_pass), "%s", optarg);
 		else if (c=='r') rownames++;
 		else if (c=='v') apop_opts.verbose=2;
 		else if (c=='O') tab_exists_check++; //deprecated as of December 2013.
-- 
2.43.0


From 1267651e102ea44df4949e97c9d67d12d0a6aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:39 +0000
Subject: [PATCH 232/311] fix: apop_text_to_db: the documented -d "\\t" split
 on backslashes and the letter t

---
 cmd/apop_text_to_db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/apop_text_to_db.c b/cmd/apop_text_to_db.c
index bc893f8..f2af466 100644
--- a/cmd/apop_text_to_db.c
+++ b/cmd/apop_text_to_db.c
@@ -71,7 +71,8 @@ int main(int argc, char **argv){
             apop_data_transpose(field_name_data);
             field_names = field_name_data->text[0];
         }
-        else if (c=='d') snprintf(apop_opts.input_delimiters, sizeof(apop_opts.input_delimiters), "%s", optarg);
+        else if (c=='d') snprintf(apop_opts.input_delimiters, sizeof(apop_opts.input_delimiters), "%s",
+                            strcmp(optarg, "\\t") ? optarg : "\t");
 		else if (c=='f') field_list = break_down(optarg);
 		else if (c=='h') {printf("%s", msg); return 0;}
 		else if (c=='m') apop_opts.db_engine = 'm';
-- 
2.43.0


From 7775272a561328e64fff6b4804c8fc4fe737a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 233/311] fix: starting points allocated by probit's prep,
 fix_params and restarting were never freed

---
 apop.m4.h                   |  2 ++
 apop_internal.h             |  1 +
 apop_mle.m4.c               | 26 +++++++++++++++++++++-----
 model/apop_probit.c         |  5 +++--
 transform/apop_fix_params.c |  6 +++---
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index d56256d..a0527cc 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1238,6 +1238,8 @@ delta;
                               Each row of the \c matrix element holds the vector tried; the corresponding element in the \c vector is the evaluated value at that vector (after out-of-constraints penalties have been subtracted).
                               A new \ref apop_data set is allocated at the pointer you send in. This data set has no names; add them as desired. For a sample use, see \ref maxipage.
 */
+    double      *own_start; /**< For internal use: a starting point the settings group has to free. */
+    int         own_start_ct; /**< For internal use. */
 } apop_mle_settings;
 
 /** Settings for least-squares type models such as \ref apop_ols or \ref apop_iv */
diff --git a/apop_internal.h b/apop_internal.h
index fb71f6a..b99165b 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -85,6 +85,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #endif
 
 #include "apop.h"
+void apop_mle_own_start(apop_mle_settings *s, double const *start, int ct); //In apop_mle.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
 
 apop_model *maybe_prep(apop_data *d, apop_model *m, _Bool *is_a_copy); //in apop_mcmc, for apop_update.
diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 951b672..f946deb 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -47,8 +47,23 @@ Apop_settings_init(apop_parts_wanted,
     Apop_varad_set(info, 'n');
 )
 
-Apop_settings_copy(apop_mle, )
-Apop_settings_free(apop_mle, )
+/* Set the starting point to a copy of the input, which is to be freed with the settings group. */
+void apop_mle_own_start(apop_mle_settings *s, double const *start, int ct){
+    double *cp = malloc(ct * sizeof(double));
+    memcpy(cp, start, ct * sizeof(double));
+    free(s->own_start);
+    s->starting_pt = s->own_start = cp;
+    s->own_start_ct = ct;
+}
+
+Apop_settings_copy(apop_mle,
+    if (in->own_start) {
+        out->own_start = NULL;
+        if (in->starting_pt == in->own_start)
+            apop_mle_own_start(out, in->own_start, in->own_start_ct);
+    }
+)
+Apop_settings_free(apop_mle, free(in->own_start);)
 Apop_settings_init(apop_mle,
     Apop_varad_set(starting_pt, NULL);
     Apop_varad_set(tolerance, 1e-5);
@@ -765,7 +780,9 @@ APOP_VAR_ENDHEAD
     if (!prm) prm = Apop_model_add_group(copy, apop_mle);
             //copy off the old params; modify the starting pt, method, and scale
     if (!strcmp(starting_pt, "es"))
-        prm->starting_pt = prm0 ? prm0->starting_pt : NULL;
+        if (prm0 && prm0->own_start && prm0->starting_pt == prm0->own_start)
+             apop_mle_own_start(prm, prm0->own_start, prm0->own_start_ct);
+        else prm->starting_pt = prm0 ? prm0->starting_pt : NULL;
     else if (!strcmp(starting_pt, "ns"))
         ; //use the starting point already in the settings.
     else if (!strcmp(starting_pt, "np"))
@@ -776,8 +793,7 @@ APOP_VAR_ENDHEAD
                 0, "Your model has diverged (element(s) > %g);"
                    " returning your original model without restarting.", boundary);
     if (v) {
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
+        apop_mle_own_start(prm, v->data, v->size);
         gsl_vector_free(v);
     }
         
diff --git a/model/apop_probit.c b/model/apop_probit.c
index 12bccde..9282223 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -79,8 +79,9 @@ static void probit_prep(apop_data *d, apop_model *m){
         gsl_vector_set_all(betas_i, expl(logtotal));
     }
     if (!sets) sets = Apop_model_add_group(m, apop_mle);
-    gsl_vector *params_as_vector=apop_data_pack(m->parameters); //li'l leak.
-    sets->starting_pt= params_as_vector->data;
+    gsl_vector *params_as_vector=apop_data_pack(m->parameters);
+    apop_mle_own_start(sets, params_as_vector->data, params_as_vector->size);
+    gsl_vector_free(params_as_vector);
 }
 
 static double biprobit_ll_row(apop_data *r){
diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index c37cb4e..51ecdbd 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -211,9 +211,9 @@ void set_starting_point(apop_data * in_params, apop_model * model_out, double *s
     pack(param_cp, model_out); //write to the fill tab.
     apop_data_free(param_cp);
     Apop_col_tv(predict_tab, "value", ptv);
-    double *new_start = malloc(ptv->size * sizeof(double)); //leak!!
-    for (size_t i=0; i< ptv->size; i++) new_start[i] = gsl_vector_get(ptv, i); //ptv is a column, with a stride.
-    Apop_settings_add(model_out, apop_mle, starting_pt, new_start);
+    gsl_vector *new_start = apop_vector_copy(ptv); //ptv is a column, with a stride.
+    apop_mle_own_start(Apop_settings_get_group(model_out, apop_mle), new_start->data, new_start->size);
+    gsl_vector_free(new_start);
 }
 
 /** Produce a model based on another model, but with some of the parameters fixed at a given value. 
-- 
2.43.0


From c484608c51d20c9044c3304ac5a24ee6909d611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 234/311] fix: copies of an apop_lm settings group never freed
 their copy of the instruments

---
 apop.m4.h        | 1 +
 model/apop_ols.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index a0527cc..6e066e4 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1249,6 +1249,7 @@ typedef struct {
     char want_cov; /**< Deprecated. Please use \ref apop_parts_wanted_settings. */
     char want_expected_value; /**< Deprecated. Please use \ref apop_parts_wanted_settings. */
     apop_model *input_distribution; /**< The distribution of \f$P(Y|X)\f$ is specified by the model holding this struct, but the distribution of \f$X\f$ needs to be specified as well for any calculation of \f$P(Y)\f$. See the notes in the RNG section of the \ref apop_ols documentation. */
+    apop_data *own_instruments; /**< For internal use: instruments the settings group has to free. */
 } apop_lm_settings;
 
 /** The default is for the estimation routine to give some auxiliary information,
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 51bba38..7ca55ee 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -52,13 +52,14 @@ apop_data *ols_predict(apop_data *in, apop_model *m);
 void ols_print(apop_model *m, FILE *ap);
 
 Apop_settings_copy(apop_lm,
-    out->instruments = apop_data_copy(in->instruments);
+    out->instruments = out->own_instruments = apop_data_copy(in->instruments);
     if (in->input_distribution)
         out->input_distribution = apop_model_copy(in->input_distribution);
 )
 
 Apop_settings_free(apop_lm,
     apop_model_free(in->input_distribution);
+    apop_data_free(in->own_instruments);
 ) 
 
 Apop_settings_init(apop_lm,
-- 
2.43.0


From c179a4d441c8866834536afe21138de25e699808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 235/311] fix: apop_rake never freed its queries, field lists
 and contrasts

---
 apop_rake.m4.c | 71 +++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 6c1348a..402075d 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -398,18 +398,21 @@ static int setup_nonzero_contrast(char const *margin_table,
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
               double nudge, char const * structural_zeros, char const *init_table){
-    char *q;
+    char *q, *fields;
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
+    fields = apop_text_paste(allvars, .between=",");
 	Asprintf(&q, "create table apop_zerocontrasts_%i as select %s, %g from\n", 
-            run_number, apop_text_paste(allvars, .between=","), nudge);
+            run_number, fields, nudge);
+    free(fields);
     for (int i=0; i < contrast_ct; i++){
+        fields = apop_text_paste(contras[i], .between=",");
         xprintf(&q, "%s%s (select distinct %s  from %s) \n", 
-                  q, i>0 ? "natural join" : "", 
-                  apop_text_paste(contras[i], .between=","),  margin_table);
+                  q, i>0 ? "natural join" : "", fields,  margin_table);
+        free(fields);
         for (int j=0; j<*contras[i]->textsize; j++){
             int val=find_in_allvars(*contras[i]->text[j], allvars);
-            Apop_stopif(val==-1, return -1, 0, "Error setting up contrasts");
+            Apop_stopif(val==-1, free(q); return -1, 0, "Error setting up contrasts");
             used[val]=true; 
         }
     } 
@@ -423,7 +426,7 @@ static int setup_nonzero_contrast(char const *margin_table,
         //Keep out margins with values for now; join them in below.
         xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, init_table);
     }
-	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
+	Apop_stopif(apop_query("%s", q), free(q); return 1, 0, "query failed.");
     free(q);
     return 0;
 }
@@ -555,21 +558,31 @@ APOP_VAR_ENDHEAD
         int run_number = 0;
     #endif
 
+    char *list_of_fields=NULL, *init_q=NULL, *marginq=NULL, *format=NULL;
+    apop_data *d=NULL, *fit=NULL;
+    //Free everything but the output.
+    #define free_setup                                                            \
+        for (int c=0; c< contrast_ct; c++) apop_data_free(contras[c]);            \
+        free(contras); free(list_of_fields); free(init_q); free(marginq);         \
+        free(format); apop_data_free(d); apop_data_free(all_vars_d);              \
+        if (!init_table || nudge)                                                 \
+            apop_query("drop table if exists apop_zerocontrasts_%i", run_number);
+    #define rake_stopif(test, E, ...)                                             \
+        Apop_stopif(test, free_setup; apop_data_free(fit); apop_return_data_error(E), 0, __VA_ARGS__)
+
 	apop_data **contras = generate_list_of_contrasts(contrasts, contrast_ct);
     apop_data *all_vars_d = get_var_list(margin_table, count_col, init_count_col, var_list, &var_ct);
-    Apop_stopif(all_vars_d->error, return all_vars_d, 0, "Trouble setting up the list of variables.");
-    int tt = all_vars_d->textsize[0]; all_vars_d->textsize[0] = 1; //mask all but the first row
-    char *list_of_fields = apop_text_paste(all_vars_d, .between=", ");
+    Apop_stopif(all_vars_d->error, fit=all_vars_d; all_vars_d=NULL; free_setup; return fit, 0, "Trouble setting up the list of variables.");
+    list_of_fields = apop_text_paste(all_vars_d, .between=", ");
 
     if (nudge || !init_table){
         char *tab;
         Asprintf(&tab, "apop_zerocontrasts_%i", run_number);
         apop_table_exists(tab, 'd');
         free(tab);
-        Apop_stopif(setup_nonzero_contrast(margin_table, all_vars_d,  
-                        run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table),
-                 apop_return_data_error(q),
-                 0, "Couldn't calculate the set of nonzero cells.");
+        rake_stopif(setup_nonzero_contrast(margin_table, all_vars_d,  
+                        run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table), q,
+                 "Couldn't calculate the set of nonzero cells.");
     }
 
     char *initt=NULL; //handle structural zeros via subquery
@@ -579,7 +592,6 @@ APOP_VAR_ENDHEAD
              Asprintf(&initt, "(select * from %s where not (%s))", init_table, structural_zeros);
         else Asprintf(&initt, "%s", init_table);
     }
-    char *init_q, *pre_init_q = NULL;
     if (init_table){
         char *countstr;
         if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
@@ -589,54 +601,41 @@ APOP_VAR_ENDHEAD
         free(countstr);
     }
 
-    char *marginq, *cc; 
+    char *cc; 
     if (count_col) Asprintf(&cc, "sum(%s)", count_col);
     else           cc = strdup("count(*)");
     Asprintf(&marginq, "select %s, %s  from %s\ngroup by %s", 
                        list_of_fields, cc, margin_table, list_of_fields);
     free(cc); free(initt);
 
-    char *format=strdup("w");
+    format=strdup("w");
     for (int i =0 ; i< var_ct; i++)
         xprintf(&format, "m%s", format);
-    apop_data *d, *contrast_grid;
+    apop_data *contrast_grid;
     d = apop_query_to_mixed_data(format, "%s", marginq);
-    Apop_stopif(!d || d->error, apop_return_data_error(q),
-            0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
-    free(marginq);
-
-    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error(q),
-            0, "This query:\n%s\ngenerated a blank or broken table.", pre_init_q);
+    rake_stopif(!d || d->error, q,
+            "This query:\n%s\ngenerated a blank or broken table.", marginq);
 
-    apop_data *fit;
     if (init_table) {
         fit = (nudge) 
                ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
                : apop_query_to_mixed_data(format, "%s", init_q);
-        Apop_stopif(!fit, apop_return_data_error(q), 0, "Query returned a blank table.");
-        Apop_stopif(fit->error, apop_return_data_error(q), 0, "Query error.");
+        rake_stopif(!fit, q, "Query returned a blank table.");
+        rake_stopif(fit->error, q, "Query error.");
     } else {
         fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
     }
-    free(format);
     apop_vector_apply(fit->weights, nan_to_zero);
-    if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge);
+    if (nudge) apop_map_sum(fit, .fn_rp=nudge_zeros, .param=&nudge);
 
     contrast_grid = apop_data_calloc(var_ct, contrast_ct);
 	for (int i=0; i< contrast_ct; i++)
 		for (int j=0; j< contras[i]->textsize[0]; j++)
 			apop_data_set(contrast_grid, get_var_index(*all_vars_d->text, all_vars_d->textsize[1], contras[i]->text[j][0]), i, 1);
 	
-    if (!init_table || nudge)
-        for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
-
     c_loglin(contrast_grid, d, fit, tolerance, max_iterations);
-    apop_data_free(d);
-    
-    all_vars_d->textsize[0] = tt;
-    apop_data_free(all_vars_d);
-    if (!init_table || nudge) apop_query("drop table apop_zerocontrasts_%i", run_number);
+    free_setup;
 	apop_data_free(contrast_grid);
 	return fit;
 }
-- 
2.43.0


From 63bdaa6550cdff77e69549691ee8e3d8ec8bd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 236/311] fix: apop_rake: contrasts naming no or unknown
 variables and sets with no possible cells crashed

---
 apop_rake.m4.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 402075d..961ba1d 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -300,7 +300,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     gsl_vector_scale(fit->weights, x/y);
 
 	int contrast_ct =config && config->matrix ? config->matrix->size2 : 0;
-    rake_t rakeinfos[contrast_ct];
+    rake_t rakeinfos[contrast_ct+1];
     double maxdev=0;
     for(size_t i=0; i < contrast_ct; i ++){
         gsl_vector *iconv = Apop_cv(config, i);
@@ -333,8 +333,10 @@ char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
 apop_data **generate_list_of_contrasts(char *const *contras_in, int contrast_ct){
   apop_data** out = malloc(sizeof(apop_data*)* contrast_ct);
 	for (int i=0; i< contrast_ct; i++) {
+        out[i] = NULL;
         apop_regex(contras_in[i], pipe_parse, out+i);
-        apop_text_alloc(out[i], *out[i]->textsize, 1);
+        if (!out[i]) out[i] = apop_data_alloc();
+        else apop_text_alloc(out[i], *out[i]->textsize, 1);
     }
 	return out;
 }
@@ -575,6 +577,12 @@ APOP_VAR_ENDHEAD
     Apop_stopif(all_vars_d->error, fit=all_vars_d; all_vars_d=NULL; free_setup; return fit, 0, "Trouble setting up the list of variables.");
     list_of_fields = apop_text_paste(all_vars_d, .between=", ");
 
+    for (int i=0; i< contrast_ct; i++){
+        rake_stopif(!*contras[i]->textsize, i, "Contrast %i [%s] lists no variables.", i, contrasts[i]);
+        for (int j=0; j< *contras[i]->textsize; j++)
+            rake_stopif(find_in_allvars(*contras[i]->text[j], all_vars_d)==-1, i, "Error setting up contrasts.");
+    }
+
     if (nudge || !init_table){
         char *tab;
         Asprintf(&tab, "apop_zerocontrasts_%i", run_number);
@@ -624,6 +632,7 @@ APOP_VAR_ENDHEAD
         rake_stopif(fit->error, q, "Query error.");
     } else {
         fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
+        rake_stopif(!fit || fit->error, q, "No cells could be nonzero.");
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
     }
     apop_vector_apply(fit->weights, nan_to_zero);
-- 
2.43.0


From 272f88bc50c7653e28627a56198d4d36e478fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 237/311] fix: estimating from an estimate listed the
 parameters' row names twice

---
 apop_internal.h          |  1 +
 apop_name.m4.c           | 10 ++++++++++
 model/apop_bernoulli.c   |  1 +
 model/apop_exponential.c |  1 +
 model/apop_multinomial.c |  1 +
 model/apop_normal.c      |  2 ++
 model/apop_ols.c         |  1 +
 model/apop_uniform.c     |  1 +
 8 files changed, 18 insertions(+)

diff --git a/apop_internal.h b/apop_internal.h
index b99165b..95dea4e 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -85,6 +85,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #endif
 
 #include "apop.h"
+void apop_name_rm_rows(apop_name *n); //In apop_name.c
 void apop_mle_own_start(apop_mle_settings *s, double const *start, int ct); //In apop_mle.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
 
diff --git a/apop_name.m4.c b/apop_name.m4.c
index 0f2b54e..6c36c98 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -124,6 +124,16 @@ void apop_name_print(apop_name * n){
 	}
 }
 	
+/* Drop the row names, for when an estimation is about to write its own. */
+void apop_name_rm_rows(apop_name *n){
+    for (size_t i=0; i < n->rowct; i++) free(n->row[i]);
+    free(n->row);
+    free(n->rowhash);
+    n->row = NULL;
+    n->rowhash = NULL;
+    n->rowct = 0;
+}
+
 /** Free the memory used by an \ref apop_name structure. */
 void  apop_name_free(apop_name * free_me){
     if (!free_me) return; //only needed if users are doing tricky things like newdata = (apop_data){.matrix=...};
diff --git a/model/apop_bernoulli.c b/model/apop_bernoulli.c
index d759be8..8b48090 100644
--- a/model/apop_bernoulli.c
+++ b/model/apop_bernoulli.c
@@ -32,6 +32,7 @@ static void bernoulli_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, ); Get_vmsizes(data); //tsize;
     double n = tsize;
     double p = apop_map_sum(data, nonzero)/n;
+    apop_name_rm_rows(est->parameters->names);
     apop_name_add(est->parameters->names, "p", 'r');
 	gsl_vector_set(est->parameters->vector, 0, p);
     apop_data_add_named_elmt(est->info, "log likelihood", bernoulli_log_likelihood(data, est));
diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 6e0eb26..47c68de 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -49,6 +49,7 @@ static void exponential_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop
 
 static void exponential_estimate(apop_data * data,  apop_model *est){
     apop_score_vtable_add(exponential_dlog_likelihood, apop_exponential);
+    apop_name_rm_rows(est->parameters->names);
     apop_name_add(est->parameters->names, "μ", 'r');
     Get_vmsizes(data); //msize1, msize2, vsize, tsize
     double mu =  ((vsize ? vsize * apop_vector_mean(data->vector):0)
diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 4f43ae5..67e29ad 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -173,6 +173,7 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
     gsl_vector *v = est->parameters->vector;
     int n = apop_sum(v)/data->matrix->size1; //size of one row
     apop_vector_normalize(v);
+    apop_name_rm_rows(est->parameters->names);
     apop_name_add(est->parameters->names, "n", 'r');
     apop_data_set(est->parameters, .val=n); //zeroth item is now n, not p_0
     char name[100];
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 58f4bc7..39af681 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -84,6 +84,7 @@ static void normal_estimate(apop_data * data, apop_model *est){
     get_mu_var(data, &mean, &var);
     est->parameters->vector->data[0] = mean;
     est->parameters->vector->data[1] = sqrt(var);
+	apop_name_rm_rows(est->parameters->names);
 	apop_name_add(est->parameters->names, "μ", 'r');
 	apop_name_add(est->parameters->names, "σ",'r');
 
@@ -206,6 +207,7 @@ static void lognormal_estimate(apop_data * data, apop_model *est){
     est->parameters->vector->data[0] = mean;
     est->parameters->vector->data[1] = var < 0 ? 0 : sqrt(var); // -ε sometimes happens
 
+    apop_name_rm_rows(est->parameters->names);
     apop_name_add(est->parameters->names, "μ", 'r');
     apop_name_add(est->parameters->names, "σ", 'r');
     apop_data_add_named_elmt(est->info, "log likelihood", lognormal_log_likelihood(data, est));
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 7ca55ee..af9d177 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -97,6 +97,7 @@ static void prep_names (apop_model *e){
         if (e->parameters)
             Asprintf(&e->parameters->names->title, "Regression of %s", e->data->names->vector);
         apop_name_add(e->parameters->names, "parameters", 'v');
+        apop_name_rm_rows(e->parameters->names);
         for(int i=0; i< e->data->names->colct; i++)
             apop_name_add(e->parameters->names, e->data->names->col[i], 'r');
         apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
diff --git a/model/apop_uniform.c b/model/apop_uniform.c
index 3f57863..06c348c 100644
--- a/model/apop_uniform.c
+++ b/model/apop_uniform.c
@@ -46,6 +46,7 @@ static long double unif_p(apop_data *d, apop_model *m){
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void uniform_estimate(apop_data * data,  apop_model *est){
     Nullcheck_d(data, );
+    apop_name_rm_rows(est->parameters->names);
     apop_name_add(est->parameters->names, "min", 'r');
     apop_name_add(est->parameters->names, "max", 'r');
     getminmax(data, est->parameters->vector->data+0, est->parameters->vector->data+1);
-- 
2.43.0


From 6c5e9423e5728bdb1a1f9f234c0a3572df816082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 238/311] fix: estimating an OLS from an estimate leaked the
 parameters' title

---
 model/apop_ols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index af9d177..73b6dfb 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -94,8 +94,10 @@ static void prep_names (apop_model *e){
         apop_name_add(predicted->names, "Residual", 'c');
     }
 	if (e->data->names->vector) { //this is post ols shuffle.
-        if (e->parameters)
+        if (e->parameters){
+            free(e->parameters->names->title);
             Asprintf(&e->parameters->names->title, "Regression of %s", e->data->names->vector);
+        }
         apop_name_add(e->parameters->names, "parameters", 'v');
         apop_name_rm_rows(e->parameters->names);
         for(int i=0; i< e->data->names->colct; i++)
-- 
2.43.0


From bfcdf89ff0bff11d48166ad5d66eda3bf57cabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 239/311] fix: apop_text_to_db leaked its line buffer when
 refusing to write or read

---
 apop_conversions.m4.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1a34058..e60d60b 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1175,7 +1175,7 @@ APOP_VAR_ENDHEAD
         
     bool tab_exists = apop_table_exists(tabname);
     if (tab_exists){
-        Apop_stopif(if_table_exists=='n', return -1, 0, "table %s exists; not recreating it.", tabname);
+        Apop_stopif(if_table_exists=='n', apop_data_free(add_this_line); return -1, 0, "table %s exists; not recreating it.", tabname);
         if (if_table_exists=='d')      
             apop_query("delete from %s", tabname);
         else if (if_table_exists=='o') {
@@ -1185,7 +1185,10 @@ APOP_VAR_ENDHEAD
     }
 
     //get names and the first row.
-    if (prep_text_reading(text_file, &infile)) return -1;
+    if (prep_text_reading(text_file, &infile)) {
+        apop_data_free(add_this_line);
+        return -1;
+    }
     apop_data *fn = apop_data_alloc();
     get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters, has_row_names=='y');
-- 
2.43.0


From bbc6156f61c906490bc01fc2fc0fe7cf9e7ec5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 240/311] fix: the likelihood of a not yet estimated
 apop_model_fix_params model crashed

---
 transform/apop_fix_params.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 51ecdbd..66ca5ff 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -145,18 +145,21 @@ Apop_settings_free(apop_fix_params,
 
 static long double fix_params_ll(apop_data *d, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
+    Nullcheck_mp(fixed_model, GSL_NAN);
     unpack(base_model->parameters, fixed_model);
     return apop_log_likelihood(d, base_model);
 }
 
 static long double fix_params_p(apop_data *d, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
+    Nullcheck_mp(fixed_model, GSL_NAN);
     unpack(base_model->parameters, fixed_model);
     return apop_p(d, base_model);
 }
 
 static long double fix_params_constraint(apop_data *data, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
+    Nullcheck_mp(fixed_model, GSL_NAN);
     unpack(base_model->parameters, fixed_model);
     long double out = base_model->constraint(data, base_model);
     if (out) pack(base_model->parameters, fixed_model);
@@ -165,6 +168,7 @@ static long double fix_params_constraint(apop_data *data, apop_model *fixed_mode
 
 static int fix_params_draw(double *out, gsl_rng* r, apop_model *eps){
     apop_model *base_model = Apop_settings_get(eps, apop_fix_params, base_model);
+    Nullcheck_mp(eps, 1);
     unpack(base_model->parameters, eps);
     return base_model->draw(out, r, base_model);
 }
-- 
2.43.0


From bb856ec9a7a21dcc8f494cdb392b1bf9e43c2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 241/311] fix: apop_ml_impute never freed its models

---
 apop_internal.h             |  1 +
 apop_missing_data.m4.c      | 20 ++++++++++++++++++--
 transform/apop_fix_params.c | 19 +++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index 95dea4e..7c45310 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -85,6 +85,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 #endif
 
 #include "apop.h"
+void apop_fix_params_own_base(apop_model *fixed, void (*free_base)(apop_model*)); //In apop_fix_params.c
 void apop_name_rm_rows(apop_name *n); //In apop_name.c
 void apop_mle_own_start(apop_mle_settings *s, double const *start, int ct); //In apop_mle.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 1f6795c..434daf3 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -89,7 +89,7 @@ APOP_VAR_ENDHEAD
 
 static void i_est(apop_data *d, apop_model *ml_model){
     Switch_back
-    actual_base = apop_estimate(real_data, actual_base);
+    apop_model_free(apop_estimate(real_data, actual_base));
 }
 
 static long double i_ll(apop_data *d, apop_model *ml_model){
@@ -115,6 +115,17 @@ static long double i_constraint(apop_data *d, apop_model *ml_model){
 
 apop_model *apop_swap_model = &(apop_model){"Model with data and params swapped", .estimate=i_est, .p = i_p, .log_likelihood=i_ll, .constraint = i_constraint};
 
+//The parameters are the user's data set.
+static void swap_free(apop_model *swapped){
+    swapped->parameters = NULL;
+    apop_model_free(swapped);
+}
+
+static void swap_and_base_free(apop_model *swapped){
+    apop_model_free(swapped->more);
+    swap_free(swapped);
+}
+
 /** Impute the most likely data points to replace NaNs in the data, and insert them into 
 the given data. That is, the data set is modified in place.
 
@@ -130,7 +141,8 @@ if \c NULL, then I'll use the Multivariate Normal that best fits the data after
 \return An estimated \ref apop_model. Also, the data input will be filled in and ready to use.
 */
 apop_model * apop_ml_impute(apop_data *d,  apop_model* mvn){
-    if (!mvn){
+    int own_mvn = !mvn;
+    if (own_mvn){
         apop_data *list_d = apop_data_listwise_delete(d);
         Apop_stopif(!list_d, return NULL, 0, "Listwise deletion returned no whole rows, "
                             "so I couldn't fit a Multivariate Normal to your data. "
@@ -142,9 +154,13 @@ apop_model * apop_ml_impute(apop_data *d,  apop_model* mvn){
     impute_me->parameters = d;
     impute_me->more = mvn;
     apop_model *fixed = apop_model_fix_params(impute_me);
+    int any_missing = !!apop_settings_get_grp(fixed, "apop_fix_params", 0);
+    if (!any_missing) swap_free(impute_me); //fixed is a copy.
+    else apop_fix_params_own_base(fixed, own_mvn ? swap_and_base_free : swap_free);
     Apop_model_add_group(fixed, apop_parts_wanted);
     Apop_settings_add(fixed, apop_mle, tolerance, 1e-5); //fix_params' own is too broad to move a cell with a large variance.
     apop_model *m = apop_estimate(mvn->parameters, fixed);
     apop_model_free(fixed);
+    if (own_mvn && !any_missing) apop_model_free(mvn);
     return m;
 }
diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 66ca5ff..137c133 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -86,6 +86,8 @@ static void apop_data_predict_fill(apop_data *data, apop_data *predict){
 typedef struct {
     apop_model *base_model;
     apop_data *predict;
+    void (*free_base)(apop_model*); //If not NULL, the last copy of these settings frees the base model,
+    int *base_refct;                //and the copies share this count of the users of the base model.
 } apop_fix_params_settings;
 /** \endcond */ //End of Doxygen ignore.
 
@@ -138,11 +140,28 @@ Apop_settings_init(apop_fix_params,
 )
 Apop_settings_copy(apop_fix_params,
     out->predict = apop_data_copy(in->predict);
+    OMP_critical (fix_params_base)
+    if (in->base_refct) ++*in->base_refct;
 )
 Apop_settings_free(apop_fix_params,
     apop_data_free(in->predict);
+    int users = 1;
+    OMP_critical (fix_params_base)
+    if (in->base_refct) users = --*in->base_refct;
+    if (!users) {
+        in->free_base(in->base_model);
+        free(in->base_refct);
+    }
 )
 
+/* The base model is to be freed along with the last copy of the model with fixed params. */
+void apop_fix_params_own_base(apop_model *fixed, void (*free_base)(apop_model*)){
+    apop_fix_params_settings *mset = Apop_settings_get_group(fixed, apop_fix_params);
+    mset->free_base = free_base;
+    mset->base_refct = malloc(sizeof(int));
+    *mset->base_refct = 1;
+}
+
 static long double fix_params_ll(apop_data *d, apop_model *fixed_model){
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
     Nullcheck_mp(fixed_model, GSL_NAN);
-- 
2.43.0


From a3f74a4ad8312e98b1b030e38390e143e4a7520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 242/311] fix: the determinant and inverse of a NULL matrix
 crashed

---
 apop_linear_algebra.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 8bbd896..2d419c5 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -53,6 +53,7 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
+    Apop_stopif(!in, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert or take the determinant of a NULL matrix.");
     Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
     Set_gsl_handler
-- 
2.43.0


From 8f87f5eeabad59ae19c181ddba4de05377e064d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 243/311] fix: apop_anova halted or crashed on groupings
 leaving no degrees of freedom or failing to query

---
 apop_tests.m4.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 9588b33..280975b 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -253,6 +253,11 @@ apop_data * apop_test_anova_independence(apop_data *d){
 }
 
 
+//The GSL halts the program given an F distribution without degrees of freedom.
+static double f_pval(double f, double df1, double df2){
+    return (df1 > 0 && df2 > 0) ? gsl_cdf_fdist_Q(f, df1, df2) : GSL_NAN;
+}
+
 static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     //ANOVA has always just been a process of filling in a form, and
     //that's what this function does.
@@ -293,7 +298,7 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), group_df, residual_df));//pval
+    apop_data_set(out, 0, 4, f_pval(apop_data_get(out, 0, 3), group_df, residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_free(tss);
@@ -325,9 +330,12 @@ APOP_VAR_ENDHEAD
     Apop_stopif(first->error, return first, 0, "Error (%c) running one-way ANOVA.", first->error);
     if (!grouping2) return first;
     apop_data *second = apop_anova_one_way(table, data, grouping2);
+    Apop_stopif(second->error, apop_data_free(first); return second, 0, "Error (%c) running one-way ANOVA.", second->error);
     char *joined = NULL;
     Asprintf(&joined, "%s, %s", grouping1, grouping2);
     apop_data *interaction = apop_anova_one_way(table, data, joined);
+    Apop_stopif(interaction->error, apop_data_free(first); apop_data_free(second); free(joined); return interaction,
+            0, "Error (%c) running ANOVA by both groupings.", interaction->error);
     apop_data *out = apop_data_calloc(5, 6);
     apop_name_stack(out->names, first->names, 'c');
     apop_data_add_names(out, 'r', first->names->row[0], second->names->row[0],
@@ -354,15 +362,15 @@ APOP_VAR_ENDHEAD
     apop_data_set(out, 3, 2, apop_data_get(out, 3, 0)/apop_data_get(out, 3, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
+    apop_data_set(out, 0, 4, f_pval(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_set(out, 1, 3, apop_data_get(out, 1, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 1, 4, gsl_cdf_fdist_Q(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
+    apop_data_set(out, 1, 4, f_pval(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
     apop_data_set(out, 1, 5, 1- apop_data_get(out, 1, 4));//confidence
 
     apop_data_set(out, 2, 3, apop_data_get(out, 2, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 2, 4, gsl_cdf_fdist_Q(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
+    apop_data_set(out, 2, 4, f_pval(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
     apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
 
     free(joined);
-- 
2.43.0


From f8d8d5a30f219df746167c3b1134573c527ea41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 244/311] fix: apop_iv crashed on instruments matching no
 column or not one per observation

---
 model/apop_ols.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 73b6dfb..a6e5cc7 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -445,9 +445,14 @@ copying the entire data set.
 */
 
 static apop_data *prep_z(apop_data *x, apop_data *instruments){
+    Apop_assert(instruments->matrix && instruments->matrix->size1 == x->matrix->size1,
+                        "Your instruments need a matrix, with one row per observation.");
     apop_data *out = apop_data_copy(x);
     if (instruments->vector)
         for (int i=0; i< instruments->vector->size; i++){
+            double col = instruments->vector->data[i];
+            Apop_stopif(i >= instruments->matrix->size2 || !(col >= (x->vector ? -1 : 0) && col < x->matrix->size2), apop_data_free(out); return NULL,
+                    0, "Your instruments have no column %i, or the data has no column %g to substitute.", i, col);
             gsl_vector *inv  = Apop_cv(instruments, i);
             gsl_vector *outv = Apop_cv(out, instruments->vector->data[i]);
             gsl_vector_memcpy(outv, inv);
@@ -455,11 +460,11 @@ static apop_data *prep_z(apop_data *x, apop_data *instruments){
     else if (instruments->names->colct)
         for (int i=0; i< instruments->names->colct; i++){
             int colnumber = apop_name_find(x->names, instruments->names->col[i], 'c');
-            Apop_assert(colnumber != -2, "You asked me to substitute instrument column %i "
+            Apop_stopif(colnumber == -2, apop_data_free(out); return NULL, 0, "You asked me to substitute instrument column %i "
                     "for the data column named %s, but I could find no such name.",  i, instruments->names->col[i]);
             gsl_vector_memcpy(Apop_cv(out, colnumber), Apop_cv(instruments, i));
         }
-    else Apop_assert(0, "Your instrument matrix has data, but neither a vector element "
+    else Apop_stopif(1, apop_data_free(out); return NULL, 0, "Your instrument matrix has data, but neither a vector element "
                        "nor column names indicating what columns in the original data should be replaced.");
     return out;
 }
@@ -477,6 +482,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     ep->parameters = apop_data_alloc(inset->matrix->size2);
     apop_data *set = weighted_copy(inset);
     apop_data *z_in = prep_z(inset, olp->instruments);
+    Apop_stopif(!z_in, if (set != inset) apop_data_free(set); ep->error='i'; return, 0, "Trouble with your instruments.");
     apop_data *z = weighted_copy(z_in);
 
     if (want_predicted(ep))
-- 
2.43.0


From ef398cc4e42078e50344e27e81306fd50c77effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 245/311] fix: draws via MCMC from models without parameters or
 with no draw size crashed

---
 apop_mcmc.m4.c  | 9 ++++++++-
 apop_model.m4.c | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 074c2c4..c722d4a 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -246,6 +246,7 @@ draws are one more step from the Markov chain, via \ref apop_model_metropolis_dr
 a specialized \c draw method that returns another step from the Markov chain with each draw.
 
 \exception out->error='c'  Proposal was outside of a constraint; see below.
+\exception out->error='p'  The model has no parameters to draw.
 
 \li If a proposal fails to meet the \c constraint element of the model you input, then
 the proposal is thrown out and a new one selected. By the default proposal
@@ -299,12 +300,18 @@ APOP_VAR_HEAD apop_model *apop_model_metropolis(apop_data *d, gsl_rng *rng, apop
     gsl_rng *apop_varad_var(rng, apop_rng_get_thread(-1));
 APOP_VAR_END_HEAD
     apop_model *outp;
+    apop_mcmc_settings *s;
     OMP_critical(metropolis)
     {
-    apop_mcmc_settings *s = apop_settings_get_group(m, apop_mcmc);
+    s = apop_settings_get_group(m, apop_mcmc);
     if (!s)
         s = Apop_model_add_group(m, apop_mcmc);
     apop_prep(d, m); //typically a no-op
+    }
+    Apop_stopif(!m->parameters, return apop_model_copy(&(apop_model){.error='p'}),
+                0, "The model has no parameters, and apop_prep found no sizes for them.");
+    OMP_critical(metropolis)
+    {
     s->last_ll = GSL_NEGINF;
     gsl_vector * drawv = apop_data_pack(m->parameters);
     const double double_periods = (double)(s->periods);
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 2e17d61..c9a43d2 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -423,6 +423,7 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
         return m->draw(out, r, m); 
     else if (m->dsize == 1)
         return apop_arms_draw(out, r, m);
+    Apop_stopif(m->dsize < 1, *out = GSL_NAN; return 1, 0, "The model doesn't give the size of a draw (its dsize is %i).", m->dsize);
     //Else, MCMC, possibly setting it up first.
     //generate a model with data/params reversed
     //estimate mcmc. Swapped model will be stored as settings->base_model.
-- 
2.43.0


From d70b435de831b60254496beab787b70d7c3bf0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:32 +0000
Subject: [PATCH 246/311] fix: apop_matrix_print opened its output file twice
 and closed it once

---
 apop_output.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 74a17aa..f4beb0a 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -352,8 +352,9 @@ APOP_VAR_HEAD void apop_matrix_print(const gsl_matrix *data, Output_declares){
 APOP_VAR_ENDHEAD
     if (output_type == 'd'){
         Apop_assert_c(data, , 1, "You sent me a NULL matrix. No database table will be created.");
-    } else if (!data){
-        fprintf(output_pipe, "NULL\n");
+    } else { //The file, if any, is already open.
+        if (!data) fprintf(output_pipe, "NULL\n");
+        else apop_data_print_core(&(apop_data){.matrix=(gsl_matrix*)data}, output_pipe, output_type);
         if (output_name) fclose(output_pipe);
         return;
     }
-- 
2.43.0


From 9c01a5057ed4c5b575482b9fe71bb4596824e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 247/311] fix: draws via MCMC from a copy of a model came from
 the original, even when freed

---
 apop_model.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index c9a43d2..9b14bc8 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -430,7 +430,8 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
     OMP_critical (apop_draw)
     {
     apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
-    if (!s || !s->pmf || s->base_model->log_likelihood != apop_swap_model->log_likelihood){
+    if (!s || !s->pmf || s->base_model->log_likelihood != apop_swap_model->log_likelihood
+            || s->base_model->more != m || s->base_model->data != m->parameters){ //E.g., a copy of a model already drawn from
         apop_model *swapped = apop_model_copy(apop_swap_model);
         swapped->more = m;
         swapped->msize1 = 1;
-- 
2.43.0


From 6f46a97c68c3bfbb5034312678fe5b414d18e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 248/311] fix: models used for MCMC by apop_update and
 apop_draw were never freed

---
 apop.m4.h        |  2 +-
 apop_internal.h  |  1 +
 apop_mcmc.m4.c   | 24 ++++++++++++++++++++++++
 apop_model.m4.c  |  9 ++++++++-
 apop_update.m4.c | 12 +++++++++++-
 5 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index 6e066e4..3781501 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1411,7 +1411,7 @@ typedef struct apop_mcmc_settings {
     apop_model_metropolis.*/
     void (*base_step_fn)(double const *, struct apop_mcmc_proposal_s*, struct apop_mcmc_settings *); /**< If an \ref apop_mcmc_proposal_s struct has \c NULL \c step_fn, use this. If you don't want a step function, set this to a do-nothing function. */
     int (*base_adapt_fn)(struct apop_mcmc_proposal_s *ps, struct apop_mcmc_settings *ms); /**< If a \ref apop_mcmc_proposal_s has \c NULL \c adapt_fn, use this.  If you don't want an adapt function, set this to a do-nothing function.*/
-
+    int *base_refct; void (*free_base)(struct apop_mcmc_settings *); /**< For internal use. */
 } apop_mcmc_settings;
 
 /** \cond doxy_ignore */
diff --git a/apop_internal.h b/apop_internal.h
index 7c45310..c30bced 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -86,6 +86,7 @@ extern int vasprintf (char **res, const char *format, va_list args)
 
 #include "apop.h"
 void apop_fix_params_own_base(apop_model *fixed, void (*free_base)(apop_model*)); //In apop_fix_params.c
+void apop_mcmc_own_base(apop_model *m, void (*free_base)(apop_mcmc_settings*)); //In apop_mcmc.c
 void apop_name_rm_rows(apop_name *n); //In apop_name.c
 void apop_mle_own_start(apop_mle_settings *s, double const *start, int ct); //In apop_mle.c
 void add_info_criteria(apop_data *d, apop_model *m, apop_model *est, double ll, int param_ct); //In apop_mle.c
diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index c722d4a..7db3fcf 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -44,7 +44,29 @@ Apop_settings_init(apop_mcmc,
    //all else defaults to zero/NULL
 )
 
+//Some base models are known only to the settings groups using them.
+static void release_base(apop_mcmc_settings *s){
+    int users = 1;
+    OMP_critical (mcmc_base)
+    if (s->base_refct) users = --*s->base_refct;
+    if (!users) {
+        s->free_base(s);
+        free(s->base_refct);
+    }
+    s->base_refct = NULL;
+}
+
+/* The base model is to be freed along with the last copy of this model's settings group. */
+void apop_mcmc_own_base(apop_model *m, void (*free_base)(apop_mcmc_settings*)){
+    apop_mcmc_settings *s = Apop_settings_get_group(m, apop_mcmc);
+    s->free_base = free_base;
+    s->base_refct = malloc(sizeof(int));
+    *s->base_refct = 1;
+}
+
 Apop_settings_copy(apop_mcmc, 
+    OMP_critical (mcmc_base)
+    if (in->base_refct) ++*in->base_refct;
     if (in->block_count){
         out->proposals = calloc(in->block_count, sizeof(apop_mcmc_proposal_s));
         for (int i=0; i< in->block_count; i++){
@@ -60,6 +82,7 @@ Apop_settings_copy(apop_mcmc,
 )
 
 Apop_settings_free(apop_mcmc, 
+        release_base(in);
         if (in->proposal_is_cp) {
             for (int i=0; i< in->block_count; i++)
                 apop_model_free(in->proposals[i].proposal);
@@ -363,6 +386,7 @@ APOP_VAR_END_HEAD
     }
     outp = apop_estimate(out, apop_pmf);
     Apop_stopif(constraint_fails, outp->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
+    release_base(s);
     s->pmf = outp;
     s->base_model = m;
     outp->draw = apop_model_metropolis_draw;
diff --git a/apop_model.m4.c b/apop_model.m4.c
index 9b14bc8..dff08d5 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -404,6 +404,12 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
 extern apop_model *apop_swap_model; //apop_missing_data.c
 int apop_model_metropolis_draw(double *out, gsl_rng* rng, apop_model *params);//apop_update.c
 
+static void mcmc_swap_free(apop_mcmc_settings *s){
+    apop_data_free(s->pmf->data);
+    apop_model_free(s->pmf);
+    apop_model_free(s->base_model);
+}
+
 /** Draw from a model. 
 
 \param out An already-allocated array of <tt>double</tt>s to be filled by the draw method. It must have size <tt>m->dsize</tt>.
@@ -439,8 +445,9 @@ int apop_draw(double *out, gsl_rng *r, apop_model *m){
         swapped->data = m->parameters;
         if (s) apop_settings_copy_group(swapped, m, "apop_mcmc");
         else   Apop_settings_add_group(swapped, apop_mcmc, .burnin=0.999, .periods=1000);
-        apop_model *est = apop_model_metropolis(m->parameters, r, swapped); //leak.
+        apop_model *est = apop_model_metropolis(m->parameters, r, swapped);
         apop_settings_copy_group(m, est, "apop_mcmc");
+        apop_mcmc_own_base(m, mcmc_swap_free);
     }
     }
     return apop_model_metropolis_draw(out, r, m);
diff --git a/apop_update.m4.c b/apop_update.m4.c
index 978b41f..da7c463 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -40,6 +40,15 @@ static long double product_constraint(apop_data *data, apop_model *m){
     return pl[1]->constraint(data, pl[1]);
 }
 
+static void product_free(apop_model *p){
+    apop_model **pl = p->more;
+    apop_model_free(pl[0]);
+    apop_model_free(pl[1]);
+    apop_model_free(p);
+}
+
+static void mcmc_product_free(apop_mcmc_settings *s){ product_free(s->base_model); }
+
 apop_model *product = &(apop_model){"product of two models", 
     .log_likelihood=product_ll, .constraint=product_constraint};
 
@@ -268,7 +277,6 @@ APOP_VAR_END_HEAD
     }
     if (prior->p || prior->log_likelihood){
         apop_model *p = apop_model_copy(product);
-        //pending revision, a memory leak:
         p->more = malloc(sizeof(apop_model*)*2);
         ((apop_model**)p->more)[0] = prior;
         ((apop_model**)p->more)[1] = likelihood;
@@ -278,6 +286,8 @@ APOP_VAR_END_HEAD
         if (!likelihood->constraint) p->constraint = NULL;
         if (s) apop_settings_copy_group(p, prior, "apop_mcmc");
         apop_model *out = apop_model_metropolis(data, rng, p); 
+        if (out->error == 'p') product_free(p); //there was nothing to draw.
+        else                   apop_mcmc_own_base(out, mcmc_product_free);
         return out;
     }
 
-- 
2.43.0


From acad0d08180b6c5e929b99471e0f1ccb8a4549cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 249/311] fix: loess: confidence intervals of a fit with no
 degrees of freedom left might never return

---
 model/apop_loess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8e98a52..a26c30b 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3474,6 +3474,7 @@ static double invibeta(double p,double  a,double  b) {
 }
 
 static double qt(double p, double df) {
+  if (!(df > 0)) return GSL_NAN; //a fit with no degrees of freedom left; invibeta may not return.
   double t = invibeta(fabs(2*p-1), 0.5, df/2);
     return((p>0.5?1:-1) * sqrt(t*df/(1-t)));
 }
-- 
2.43.0


From e7651734ae4940e6ef6798427fb1e60eee186c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 250/311] fix: apop_text_to_db leaked its statement, file and
 line when failing to create or fill the table

---
 apop_conversions.m4.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index e60d60b..9660eb2 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -990,7 +990,7 @@ static int tab_create_mysql(char *tabname, int has_row_names, apop_data *field_p
     xprintf(&q, "%s %s%s%s)", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
     apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -1010,7 +1010,7 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
     xprintf(&q, "%s' %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
     apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -1096,9 +1096,9 @@ int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3
         Asprintf(&q, "INSERT INTO %s VALUES (", tabname);
         for (size_t i = 0; i < col_ct; i++)
             xprintf(&q, "%s?%c", q, i==col_ct-1 ? ')' : ',');
-        Apop_stopif(!db, return -1, 0, "The database should be open by now but isn't.");
+        Apop_stopif(!db, free(q); return -1, 0, "The database should be open by now but isn't.");
         Apop_stopif(sqlite3_prepare_v2(db, q, -1, statement, NULL) != SQLITE_OK, 
-                    return -1, apop_errorlevel, "Failure preparing prepared statement: %s", sqlite3_errmsg(db));
+                    free(q); return -1, apop_errorlevel, "Failure preparing prepared statement: %s", sqlite3_errmsg(db));
         free(q);
         return 0;
     #endif
@@ -1196,9 +1196,11 @@ APOP_VAR_ENDHEAD
     Apop_stopif(!col_ct || !*fn->textsize, apop_data_free(add_this_line); apop_data_free(fn); if (infile != stdin) fclose(infile); return -1,
             0, "counted zero columns in the input file (%s).", tabname);
     if (has_row_names!='y' && *fn->textsize > col_ct) col_ct = *fn->textsize; //the first line is short.
+    #define end_reading  apop_data_free(add_this_line); apop_data_free(fn); \
+                         sqlite3_finalize(statement); if (infile != stdin) fclose(infile);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
-            return -1, 0, "Creating the table in the database failed.");
+            end_reading return -1, 0, "Creating the table in the database failed.");
 #if SQLITE_VERSION_NUMBER < 3003009
     Apop_notify(1, "Apophenia was compiled using a version of SQLite from mid-2007 or earlier. "
                     "The code for reading in text files using such an old version is no longer supported, "
@@ -1207,7 +1209,7 @@ APOP_VAR_ENDHEAD
     int use_sqlite_prepared_statements = apop_use_sqlite_prepared_statements(col_ct);
     if (use_sqlite_prepared_statements)
         Apop_stopif(apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-                return -1, 0, "Trouble preparing the prepared statement for SQLite.");
+                end_reading return -1, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
 	while(L.ct){
@@ -1218,7 +1220,7 @@ APOP_VAR_ENDHEAD
             int err = sqlite3_step(statement);
             if (err!=0 && err != 101) //0=ok, 101=done
                 Apop_notify(0, "sqlite insert query gave error code %i.\n", err);
-            Apop_assert_c(!sqlite3_reset(statement), -1, apop_errorlevel, "SQLite error.");
+            Apop_stopif(sqlite3_reset(statement), end_reading return -1, apop_errorlevel, "SQLite error.");
 #if SQLITE_VERSION_NUMBER >= 3003009
             Apop_assert_c(!sqlite3_clear_bindings(statement), -1, apop_errorlevel, "SQLite error."); //needed for NULLs
 #endif
-- 
2.43.0


From f930566aee04acb64d33fef16ea2d90d0c23b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 251/311] fix: writing a data set to the database leaked its
 query and statement on failure

---
 apop_db.m4.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 068d507..c4f3f75 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -549,7 +549,6 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, i
         Apop_stopif(sqlite3_reset(p_stmt), return -1, apop_errorlevel, "SQLite error.");
         Apop_stopif(sqlite3_clear_bindings(p_stmt), return -1, apop_errorlevel, "SQLite error."); //needed for NULLs
     }
-    Apop_stopif(sqlite3_finalize(p_stmt)!=SQLITE_OK, return -1, apop_errorlevel, "SQLite error.");
     return 0;
 #endif
 }
@@ -643,15 +642,15 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
 
     Get_vmsizes(set) //firstcol, msize2, maxsize
     int col_ct = !!use_row + set->textsize[1] + msize2 - firstcol + !!set->weights;
-    Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
+    Apop_stopif(!col_ct, free(q); return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
         Apop_stopif(
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-            return -1, 0, "Trouble preparing prepared statements.");
-        Apop_stopif(
-            run_prepared_statements(set, statement, use_row), 
-            return -1, 0, "error in insertions.");
+            free(q); return -1, 0, "Trouble preparing prepared statements.");
+        int err = run_prepared_statements(set, statement, use_row);
+        sqlite3_finalize(statement);
+        Apop_stopif(err, free(q); return -1, 0, "error in insertions.");
     } else {
         for(i=0; i< GSL_MAX(maxsize, wsize); i++){
             comma = ' ';
-- 
2.43.0


From 005af915b00939b982f9dc45ec8bbed83f5efb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 252/311] fix: writing a very wide data set with fewer row
 names than rows read past the names

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index c4f3f75..e99730e 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -656,7 +656,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             comma = ' ';
             qxprintf(&q, "%s \n insert into %s values(",q, tabname);
             if (use_row){
-                add_a_string(&q, comma, set->names->row[i]);
+                add_a_string(&q, comma, i < set->names->rowct ? set->names->row[i] : NULL);
                 comma = ',';
             }
             if (set->vector)
-- 
2.43.0


From 937bf44e662535b768d2f215cdc193c36b49d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 253/311] fix: apop_model_draws set error codes other than the
 documented 'm' and 's'

---
 apop_asst.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 21345df..1f51afc 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -395,17 +395,17 @@ Here is a two-line program to draw a different set of ten Standard Normals on ev
 */
 APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_data *draws){
     apop_model * apop_varad_var(model, NULL);
-    Apop_stopif(!model, apop_return_data_error(n), 0, "Input model is NULL.");
-    Apop_stopif(!model->dsize, apop_return_data_error(n), 0, "Input model has dsize==0.");
+    Apop_stopif(!model, apop_return_data_error(m), 0, "Input model is NULL.");
+    Apop_stopif(!model->dsize, apop_return_data_error(m), 0, "Input model has dsize==0.");
     apop_data * apop_varad_var(draws, NULL);
     int apop_varad_var(count, 1000);
     if (draws) {
         Apop_stopif(!draws->matrix, draws->error='m'; return draws, 1, "Input data set's matrix is NULL.");
-        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; draws->error='m'; return draws,
+        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; return draws,
                 1, "Input data set's matrix column count is less than model->dsize.");
         count = draws->matrix->size1;
     } else
-        Apop_stopif(model->dsize<=0, apop_return_data_error(n), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
+        Apop_stopif(model->dsize<=0, apop_return_data_error(m), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
 APOP_VAR_ENDHEAD
     apop_data *out = draws ? draws : apop_data_alloc(count, model->dsize);
 
-- 
2.43.0


From 009e5ce2108bc9f8a3cd39e5ecc76cca14ad8f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 254/311] fix: functions that use a model crashed when given
 NULL

---
 apop_model.m4.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index dff08d5..0edd39a 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -18,6 +18,7 @@ call \ref apop_model_clear at the end. Also, \ref apop_estimate calls this funct
 \exception outmodel->error=='d' dimension error.
 */
 apop_model * apop_model_clear(apop_data * data, apop_model *model){
+    Nullcheck_m(model, NULL);
     Get_vmsizes(data)
     int width = msize2 ? msize2 : -firstcol;//use the vector only if there's no matrix.
     Apop_stopif(model->dsize==-1 && !width, model->error='d', 0, "The model's dsize==-1, meaning size=data width, but the input data has NULL vector and matrix.");
@@ -226,6 +227,7 @@ MLE settings.
 \return     A pointer to an output model, which typically matches the input model but has its \c parameters element filled in.
 */
 apop_model *apop_estimate(apop_data *d, apop_model *m){
+    Nullcheck_m(m, NULL);
     apop_model *out = apop_model_copy(m);
     //If m is itself an estimate, then its results and data are not those of this estimation.
     if (out->info){
@@ -361,6 +363,7 @@ typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
 \endcode
 */ 
 apop_model *apop_parameter_model(apop_data *d, apop_model *m){
+    Nullcheck_m(m, NULL);
     apop_pm_settings *settings = apop_settings_get_group(m, apop_pm);
     if (!settings)
         settings = Apop_settings_add_group(m, apop_pm, .base= m);
@@ -424,6 +427,7 @@ static void mcmc_swap_free(apop_mcmc_settings *s){
 \return Zero on success; nozero on failure. <tt>out[0]</tt> is probably \c NAN on failure.
 */
 int apop_draw(double *out, gsl_rng *r, apop_model *m){
+    Apop_stopif(!m, *out = GSL_NAN; return 1, 0, "I can't draw from a NULL model.");
     if (!r) r = apop_rng_get_thread(-1);
     if (m->draw)
         return m->draw(out, r, m); 
@@ -464,6 +468,7 @@ Some models have associated prep routines that also attach settings groups to th
     input \ref apop_model has a prep method, then that gets called instead.
 */
 void apop_prep(apop_data *d, apop_model *m){
+    Nullcheck_m(m, );
     if (m->prep) m->prep(d, m);
     else         apop_model_clear(d, m);
 }
@@ -499,6 +504,7 @@ typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
 \endcode
 */
 apop_data *apop_predict(apop_data *d, apop_model *m){
+    Nullcheck_m(m, NULL);
     apop_data *prediction = NULL;
     apop_data *out = d ? d : apop_data_alloc(0, 1, m->dsize);
     if (!d) gsl_matrix_set_all(out->matrix, GSL_NAN);
@@ -544,6 +550,8 @@ Here are many examples using common, mostly symmetric distributions.
 \include some_cdfs.c
 */
 double apop_cdf(apop_data *d, apop_model *m){
+    Nullcheck_m(m, GSL_NAN);
+    Nullcheck_d(d, GSL_NAN);
     if (m->cdf) return m->cdf(d, m);
     apop_cdf_settings *cs = Apop_settings_get_group(m, apop_cdf);
     if (!cs) cs = Apop_model_add_group(m, apop_cdf);
-- 
2.43.0


From 4f5b6dc08aa482c56324e930275ccbd7b6bc1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 255/311] fix: asking for the likelihood of a model without one
 was never reported

---
 apop_model.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 0edd39a..2e0d652 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -254,7 +254,7 @@ double apop_p(apop_data *d, apop_model *m){
         return m->p(d, m);
     else if (m->log_likelihood)
         return exp(m->log_likelihood(d, m));
-    Apop_stopif(0, , 0, "You asked for the probability of a model that has neither p nor log_likelihood methods.");
+    Apop_stopif(1, , 0, "You asked for the probability of a model that has neither p nor log_likelihood methods.");
     return GSL_NAN;
 }
 
@@ -269,7 +269,7 @@ double apop_log_likelihood(apop_data *d, apop_model *m){
         return m->log_likelihood(d, m);
     else if (m->p)
         return log(m->p(d, m));
-    Apop_stopif(0, , 0, "You asked for the log likelihood of a model that has neither p nor log_likelihood methods.");
+    Apop_stopif(1, , 0, "You asked for the log likelihood of a model that has neither p nor log_likelihood methods.");
     return GSL_NAN;
 }
 
-- 
2.43.0


From c8a8fd016394dab151d9c47c6dfbb193cfb43b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 256/311] fix: apop_score crashed for a model with no
 likelihood

---
 apop_model.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 2e0d652..03479a4 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -305,6 +305,7 @@ void apop_score(apop_data *d, gsl_vector *out, apop_model *m){
         return;
     }
     gsl_vector * numeric_default = apop_numerical_gradient(d, m);
+    Apop_stopif(!numeric_default, gsl_vector_set_all(out, GSL_NAN); return, 0, "Trouble calculating the gradient.");
     gsl_vector_memcpy(out, numeric_default);
     gsl_vector_free(numeric_default);
 }
-- 
2.43.0


From 8ca07c1208d6673c6a3eed35e864c2397698036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 257/311] fix: adding a settings group to, or removing one
 from, a NULL model crashed

---
 apop_settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_settings.c b/apop_settings.c
index 62b7a05..02051b4 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -24,7 +24,7 @@ static unsigned long apop_settings_hash(char *str){
 Use \ref Apop_settings_rm_group. That macro uses this function internally.
 */
 void apop_settings_remove_group(apop_model *m, char *delme){
-    if (!m->settings) return;
+    if (!m || !m->settings) return;
     int i = 0;
     int ct = get_settings_ct(m);
     unsigned long delme_hash = apop_settings_hash(delme);
@@ -44,6 +44,7 @@ void apop_settings_remove_group(apop_model *m, char *delme){
 
 /* Don't use this function. It's what the \c Apop_model_add_group macro uses internally. Use that.  */
 void *apop_settings_group_alloc(apop_model *model, char *type, void *free_fn, void *copy_fn, void *the_group){
+    Apop_stopif(!model, return NULL, 0, "you asked me to add a settings group to a NULL model.");
     if(apop_settings_get_grp(model, type, 'c'))  
         apop_settings_remove_group(model, type); 
     int ct = get_settings_ct(model);
-- 
2.43.0


From 3234386a6654fb78128d2c99b478b35222f3ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 258/311] fix: apop_name_copy and apop_name_find crashed on
 NULL names

---
 apop_name.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index 6c36c98..4941a07 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -199,6 +199,7 @@ apop_name_free(wrapped->names); //wrapped itself is auto-allocated; do not free.
 \return   A \ref apop_name struct with copies of all input names.
 */
 apop_name * apop_name_copy(apop_name *in){
+    if (!in) return NULL;
     apop_name *out = apop_name_alloc();
     apop_name_stack(out, in, 'v');
     apop_name_stack(out, in, 'c');
@@ -219,6 +220,7 @@ The function uses POSIX's \c strcasecmp, and so does case-insensitive search the
 */
 int apop_name_find(const apop_name *n, const char *name, const char type){
     Apop_stopif(!name, return -2, 0, "You asked me to search for NULL.");
+    if (!n) return -2;
     char **list;
     unsigned long *listh;
     int listct;
-- 
2.43.0


From b6d042d0bc8228dcfb0a63851bd138aab4f9290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:36 +0000
Subject: [PATCH 259/311] fix: apop_data_rm_columns crashed on NULL

---
 apop_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index d9de48f..fff46af 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -699,6 +699,7 @@ quickly fill an array of ints with nonzero values.
 \ref apop_data_rm_rows
 */
 void apop_data_rm_columns(apop_data *d, int *drop){
+    Apop_stopif(!d, return, 1, "You asked me to remove columns from a NULL data set; returning.");
     if (d->matrix){
         gsl_matrix *freeme = d->matrix;
         d->matrix = apop_matrix_rm_columns(d->matrix, drop);
-- 
2.43.0


From acb6dab73a2476fd576cee2ecdacb06eb4d706dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 260/311] fix: the semidefiniteness functions aborted on a
 matrix that is not square

---
 apop_stats.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index a9d7515..ddaeb70 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -846,6 +846,7 @@ See also \ref apop_matrix_to_positive_semidefinite, which will change the input
 APOP_VAR_HEAD int apop_matrix_is_positive_semidefinite(gsl_matrix *m, char semi){
     gsl_matrix * apop_varad_var(m, NULL);
     Apop_stopif(!m, return 0, 1, "You gave me a NULL matrix. I will take this as not positive semidefinite; returning zero.");
+    Apop_stopif(m->size1 != m->size2, return 0, 1, "You gave me a %zu X %zu matrix, which can't be positive semidefinite; returning zero.", m->size1, m->size2);
     char apop_varad_var(semi, 's');
 APOP_VAR_ENDHEAD
     for (int i=1; i<= m->size1; i++){
@@ -880,6 +881,7 @@ Copyright (2007) Jens Oehlschlägel [under the GPL].
 */
 double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     Apop_stopif(!m, return NAN, 0, "Got a NULL matrix. Returning NaN.");
+    Apop_stopif(m->size1 != m->size2, return NAN, 0, "Got a %zu X %zu matrix, not a square one. Returning NaN.", m->size1, m->size2);
     if (apop_matrix_is_positive_semidefinite(m, 'd')) return 0; 
     double diffsize=0, dsize;
     apop_data *qdq; 
-- 
2.43.0


From e433dc3fba8565b4955bef9d4dddc889213d4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 261/311] fix: apop_data_rank_expand crashed on NULL

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 9660eb2..59b802f 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -290,7 +290,7 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
-    int total_ct = in->matrix ? apop_matrix_sum(in->matrix) : 0;
+    int total_ct = in && in->matrix ? apop_matrix_sum(in->matrix) : 0;
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
-- 
2.43.0


From 2bfc29f2d1080f474c7c2ed844a4f3183f370ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 262/311] fix: apop_test_fisher_exact crashed when given no
 table

---
 apop_fexact.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_fexact.c b/apop_fexact.c
index 3e218c8..95dba20 100644
--- a/apop_fexact.c
+++ b/apop_fexact.c
@@ -1892,6 +1892,7 @@ For example:
 \include test_fisher.c
 */
 apop_data *apop_test_fisher_exact(apop_data *intab){
+    Apop_stopif(!intab || !intab->matrix, apop_return_data_error(p), 0, "The input table is NULL or has no matrix.");
     double  prt, pre,
             expect  = -1,
             percent = 80,
-- 
2.43.0


From de719a41780b9b03d102f4b6db8e4551ab4d44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 263/311] fix: apop_estimate_coefficient_of_determination and
 apop_vector_unique_elements crashed on NULL

---
 apop_regression.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 21170b0..f64672d 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -60,6 +60,7 @@ static int strcmpwrap(const void *a, const void *b){
   \see apop_text_unique_elements 
 */
 gsl_vector * apop_vector_unique_elements(const gsl_vector *v){
+    Apop_stopif(!v, return NULL, 1, "You sent me a NULL vector. Returning NULL.");
     size_t prior_elmt_ctr = 107;
     size_t elmt_ctr = 0;
     double *elmts = NULL;
@@ -552,6 +553,8 @@ parameters if this is the \c parameters output from a model estimation).
 SST, and SSR (and calculate the \f$R^2\f$s using those values).
   */
 apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
+    Nullcheck_m(m, NULL);
+    Apop_stopif(!m->data || !m->data->matrix, return NULL, 0, "The model has no data matrix. Returning NULL.");
   double          sse, sst, rsq, adjustment;
   size_t          indep_ct= m->data->matrix->size2 - 1;
     gsl_vector *weights = m->data->weights; //typically NULL.
-- 
2.43.0


From 6dfc5df45ff933f760b88a78f58fe0a23af56e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 264/311] fix: tests of histograms crashed on NULL models

---
 apop_hist.m4.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 211505b..0506b1a 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -61,6 +61,9 @@ been drawn from the \c expected distribution.
 \li If an observation row has weight zero, I skip it. if <tt>apop_opts.verbose >=1 </tt> I will show a warning.
 */
 apop_data *apop_histograms_test_goodness_of_fit(apop_model *observed, apop_model *expected){
+    Nullcheck_m(observed, NULL);
+    Nullcheck_m(expected, NULL);
+    Nullcheck_d(observed->data, NULL);
     Get_vmsizes(observed->data); //maxsize
     gsl_vector *weights = observed->data->weights; //if NULL, every row has weight one.
     double total = weights ? apop_sum(weights) : maxsize;
@@ -262,6 +265,7 @@ sequence of Normal distributions with increasing mean.
 \include ks_tests.c
 */
 apop_data *apop_test_kolmogorov(apop_model *m1, apop_model *m2){
+    Apop_stopif(!m1 || !m2, apop_return_data_error(m), 0, "NULL model.");
     Apop_stopif(m1->cdf != apop_pmf->cdf, apop_return_data_error(m), 
             0, "First model has to be a PMF. I check whether m1->cdf == apop_pmf->cdf.");
     bool m2_is_pmf = (m2->cdf == apop_pmf->cdf);
-- 
2.43.0


From b2cf1163332c740ae1e27ebd471141f7c53c6fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 265/311] fix: apop_kl_divergence with a model of indeterminate
 draw size allocated a negative-length array

---
 apop_stats.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index ddaeb70..4838673 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -751,8 +751,8 @@ APOP_VAR_ENDHEAD
             div += pi * log(pi/qi);
         }
     } else { //the version with the RNG.
-        Apop_stopif(!from->dsize, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
-                                                     "but its dsize (draw size)==0. Returning NaN.");
+        Apop_stopif(from->dsize < 1, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
+                                                     "but its dsize (draw size)==%i. Returning NaN.", from->dsize);
         #ifdef _OPENMP
         if (omp_get_max_threads() > 1) rng = NULL; //each thread draws from its own.
         #endif
-- 
2.43.0


From 9623c385305abdb0c2277f2edfc904416b36e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 266/311] fix: apop_vector_skew and apop_vector_kurtosis
 crashed on NULL

---
 apop_stats.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 4838673..a205278 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -41,6 +41,7 @@ Returns the variance of the data in the given vector.
 /** Returns an unbiased estimate of the sample skew of the data in the given vector.
 */
 double apop_vector_skew(const gsl_vector *in){
+    Nullcheck(in, GSL_NAN);
 	return apop_vector_skew_pop(in) * gsl_pow_2(in->size)/((in->size -1.)*(in->size -2.)); }
 
 /** Returns the sample fourth central moment of the data in the given
@@ -53,6 +54,7 @@ with data</em>.
 \see \ref apop_vector_kurtosis_pop
 */
 double apop_vector_kurtosis(const gsl_vector *in){
+    Nullcheck(in, GSL_NAN);
     long double n = in->size;
     if (n < 4) return GSL_NAN; //there is no unbiased estimator.
     return (n*(n*n-2*n+3) * apop_vector_kurtosis_pop(in) - 3*n*(2*n-3) * gsl_pow_2(apop_vector_var(in)*(n-1.)/n))
-- 
2.43.0


From 79336af9ba0021257a2fc381ed3a40ff0c6d6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 267/311] fix: apop_update crashed on NULL models

---
 apop_update.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index da7c463..39f03b5 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -236,6 +236,8 @@ APOP_VAR_HEAD apop_model * apop_update(apop_data *data, apop_model *prior, apop_
     apop_model *apop_varad_var(prior, NULL);
     apop_model *apop_varad_var(likelihood, NULL);
     gsl_rng *apop_varad_var(rng, apop_rng_get_thread(-1));
+    Nullcheck_m(prior, NULL);
+    Nullcheck_m(likelihood, NULL);
 APOP_VAR_END_HEAD
     OMP_critical (update_setup)
     {
-- 
2.43.0


From 69ff33929f3d57164e32bcd57bd2747b8a615271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 268/311] fix: t tests crashed on NULL vectors, and the paired
 test aborted on vectors of different sizes

---
 apop_tests.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 280975b..2d6431c 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -52,6 +52,8 @@ printf("Reject the null hypothesis of no difference between M and F with %g%% co
 say that the mean difference between the two columns is zero?
 */
 apop_data *	apop_t_test(gsl_vector *a, gsl_vector *b){
+    Nullcheck(a, NULL);
+    Nullcheck(b, NULL);
     int a_count = a->size,
         b_count = b->size;
     double a_avg = apop_vector_mean(a);
@@ -88,6 +90,9 @@ If <tt>apop_opts.verbose >=2</tt>, then display some information, like the mean/
 \see \ref apop_t_test for an example, and for when the element-by-element difference between the vectors has no sensible interpretation.
 */
 apop_data * apop_paired_t_test(gsl_vector *a, gsl_vector *b){
+    Nullcheck(a, NULL);
+    Nullcheck(b, NULL);
+    Apop_stopif(a->size != b->size, return NULL, 0, "The vectors have sizes %zu and %zu, so they can't be pairs. Returning NULL.", a->size, b->size);
     gsl_vector *diff = gsl_vector_alloc(a->size);
     gsl_vector_memcpy(diff, a);
     gsl_vector_sub(diff, b);
-- 
2.43.0


From b348ff60f49a654ad7f7448c73e760f8b4729022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 269/311] fix: estimating a probit or logit without data
 crashed

---
 model/apop_probit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 9282223..88974ea 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -41,6 +41,7 @@ static apop_data *get_category_table(apop_data *d){
 
 static void probit_prep(apop_data *d, apop_model *m){
     if (m->data && m->parameters) return; //already prepped; re-prep is a no-op.
+    Apop_stopif(!d || !d->matrix, m->error='d'; return, 0, "No data for regression.");
     apop_data *factor_list = get_category_table(d);
     apop_score_vtable_add(probit_dlog_likelihood, apop_probit);
     //apop_score_vtable_add(logit_dlog_likelihood, apop_logit);
-- 
2.43.0


From a6dc278c22f4808fe0b9936df252f5966d01ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 270/311] fix: the likelihood of a kernel density without its
 settings crashed

---
 model/apop_kerneld.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index b23bc58..728893d 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -107,6 +107,7 @@ static long double kernel_ll(apop_data *d, apop_model *m){
     size_t datasize;
     {Get_vmsizes(d); datasize=maxsize;}
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
+    Apop_stopif(!ks || !ks->base_pmf, return GSL_NAN, 0, "No apop_kernel_density settings group. Has this model been estimated?");
     apop_data *pmf_data = apop_settings_get(m, apop_kernel_density, base_pmf)->data;
     Get_vmsizes(pmf_data); //maxsize
     long double ll = 0;
-- 
2.43.0


From ce9a0cc4054bc80ba164724834ff658df358a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 271/311] fix: apop_model_fix_params_get_base crashed when
 given NULL or a model with nothing fixed

---
 transform/apop_fix_params.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 137c133..297f648 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -318,6 +318,7 @@ apop_model * apop_model_fix_params(apop_model *model_in){
   base model.
 */
 apop_model * apop_model_fix_params_get_base(apop_model *fixed_model){
+    Apop_stopif(!fixed_model || !Apop_settings_get_group(fixed_model, apop_fix_params), return NULL, 0, "This is not a model made by apop_model_fix_params.");
     apop_model *base_model = Apop_settings_get(fixed_model, apop_fix_params, base_model);
     unpack(base_model->parameters, fixed_model);
     return base_model;
-- 
2.43.0


From 9bb20c03faa8324e0aea04366e188fc4839c4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 272/311] fix: the CDF of and draws from a kernel density
 without its settings crashed

---
 model/apop_kerneld.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index 728893d..963d542 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -86,6 +86,7 @@ static long double kernel_cdf(apop_data *d, apop_model *m){
     Nullcheck_m(m, GSL_NAN);
     long double total = 0;
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
+    Apop_stopif(!ks || !ks->base_pmf, return GSL_NAN, 0, "No apop_kernel_density settings group. Has this model been estimated?");
     apop_data *pmf_data = apop_settings_get(m, apop_kernel_density, base_pmf)->data;
     Get_vmsizes(pmf_data); //maxsize
     for (size_t k = 0; k < maxsize; k++){
@@ -146,6 +147,7 @@ static long double kernel_ll(apop_data *d, apop_model *m){
 static int kernel_draw(double *d, gsl_rng *r, apop_model *m){
     //randomly select a point, using the weights.
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
+    Apop_stopif(!ks || !ks->base_pmf, *d = GSL_NAN; return 1, 0, "No apop_kernel_density settings group. Has this model been estimated?");
     apop_model *pmf = apop_settings_get(m, apop_kernel_density, base_pmf);
     apop_data *point = apop_data_alloc(1, pmf->dsize);
     Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
-- 
2.43.0


From a3948449186bfecd291b12489916a9c25429b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 273/311] fix: stop_on_warning='v' halted on messages that
 verbosity -1 keeps from printing

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 3781501..051860f 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -593,7 +593,7 @@ e.g., <tt>apop_notify(0, "Beta is currently %g", beta)</tt>.
 
 /** \cond doxy_ignore */
 #define Apop_maybe_abort(level) \
-            {if ((apop_opts.verbose >= level && apop_opts.stop_on_warning == 'v') \
+            {if ((apop_opts.verbose >= level && apop_opts.verbose != -1 && apop_opts.stop_on_warning == 'v') \
                  || (apop_opts.stop_on_warning=='w') ) \
                 raise(SIGTRAP);}
 /** \endcond */
-- 
2.43.0


From eff25c5d374d7bc6a469c4d42a56afe82cb2897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 274/311] fix: apop_matrix_pca read past its eigenvectors when
 asked for more dimensions than columns

---
 apop_linear_algebra.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 2d419c5..b044eea 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -126,11 +126,14 @@ will be ordered by the eigenvalues.
 The data set's vector will be the largest eigenvalues, scaled by the total of all eigenvalues (including those that were thrown out). The sum of these returned values will give you the percentage of variance explained by the factor analysis.
 
 \exception out->error=='a'  Allocation error.
+\exception out->error=='d'  You asked for fewer than one dimension or for more than the matrix has columns.
 */
 APOP_VAR_HEAD apop_data * apop_matrix_pca(gsl_matrix *data, int const dimensions_we_want) {
     gsl_matrix * apop_varad_var(data, NULL);
     Apop_stopif(!data, return NULL, 1, "NULL data input");
     int const apop_varad_var(dimensions_we_want, data->size2);
+    Apop_stopif(dimensions_we_want < 1 || dimensions_we_want > data->size2, apop_return_data_error(d), 0, "You asked for %i dimensions, but "
+            "your matrix has %zu columns.", dimensions_we_want, data->size2);
 APOP_VAR_ENDHEAD
     Set_gsl_handler
     apop_data *pc_space	= apop_data_alloc(0, data->size2, dimensions_we_want);
-- 
2.43.0


From 8677903ae59a468a297c313e04150c8be069c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 275/311] fix: the Hessian of a model without a likelihood
 crashed

---
 apop_mle.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index f946deb..78dde8d 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -181,6 +181,7 @@ static long double apop_fn_for_infomatrix(apop_data *d, apop_model *m){
         return gsl_vector_get(v, *settings->current_index);
     } //else:
         gsl_vector *vv = apop_numerical_gradient(d, mm);
+        if (!vv) return GSL_NAN;
         double out = gsl_vector_get(vv, *settings->current_index);
         gsl_vector_free(vv);
         return out;
-- 
2.43.0


From 2f388a8857bce1345f06bd5b650b4c78f2255833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 276/311] fix: apop_maximum_likelihood crashed on a NULL model

---
 apop_mle.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 78dde8d..ab06887 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -693,6 +693,7 @@ else
 \li During the search for an optimum, ctrl-C (SIGINT) will halt the search, and the function will return whatever parameters the search was on at the time.
 */
 void apop_maximum_likelihood(apop_data * data, apop_model *dist){
+    Nullcheck_m(dist, );
     apop_mle_settings *mp = apop_settings_get_group(dist, apop_mle);
     if (!mp) mp = Apop_model_add_group(dist, apop_mle);
     apop_score_type ms = apop_score_vtable_get(dist);
-- 
2.43.0


From f656c757093cae59d01245f4733f14f766273a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 277/311] fix: apop_vector_var_m crashed on a NULL vector

---
 apop_stats.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index a205278..26e8fb6 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -145,6 +145,7 @@ APOP_VAR_ENDHEAD
 \see apop_vector_var
 */
 double apop_vector_var_m(const gsl_vector *in, const double mean){
+    Apop_stopif(!in, return GSL_NAN, 1, "NULL vector. Returning NaN.");
 	return gsl_stats_variance_m(in->data,in->stride, in->size, mean); }
 
 /** Returns the correlation coefficient of two vectors:
-- 
2.43.0


From d039674a2a56917c056d86ccdcad9e3844403748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 278/311] fix: the bootstrap and jackknife crashed on a NULL
 model, and the jackknife on a single observation

---
 apop_bootstrap.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index dd9386b..4e6b952 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -41,6 +41,8 @@ using that slightly shortened data set. Then, find the covariance matrix of the
 \param model    An \ref apop_model, that will be used internally by \ref apop_estimate.
             
 \exception out->error=='n'   \c NULL input data.
+\exception out->error=='m'   \c NULL input model.
+\exception out->error=='d'   Fewer than two observations.
 \return         An \c apop_data set whose matrix element is the estimated covariance matrix of the parameters.
 \see apop_bootstrap_cov
 
@@ -49,7 +51,9 @@ For example:
 */
 apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     Apop_stopif(!in, apop_return_data_error(n), 0, "The data input can't be NULL.");
+    Apop_stopif(!model, apop_return_data_error(m), 0, "The model input can't be NULL.");
     Get_vmsizes(in); //msize1, msize2, vsize
+    Apop_stopif(GSL_MAX(msize1, GSL_MAX(vsize, *in->textsize)) < 2, apop_return_data_error(d), 0, "The jackknife needs at least two observations.");
     apop_model *e = apop_model_copy(model);
     int i, n = GSL_MAX(msize1, GSL_MAX(vsize, in->textsize[0]));
     apop_model *overall_est = e->parameters ? e : apop_estimate(in, e);//if not estimated, do so
@@ -122,6 +126,7 @@ mean/std dev pairs, and reports the covariance of that generated data set.
 APOP_VAR_HEAD apop_data * apop_bootstrap_cov(apop_data * data, apop_model *model, gsl_rng *rng, int iterations, char keep_boots, char ignore_nans, apop_data **boot_store) {
     apop_data * apop_varad_var(data, NULL);
     apop_model *model = varad_in.model;
+    Apop_stopif(!model, apop_return_data_error(m), 0, "The model input can't be NULL.");
     int apop_varad_var(iterations, 1000);
     gsl_rng * apop_varad_var(rng, apop_rng_get_thread());
     char apop_varad_var(keep_boots, 'n');
-- 
2.43.0


From 872f96c34a838b00a32fd7fa9404e774631355bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 279/311] fix: apop_f_test crashed on contrasts with the wrong
 number of columns

---
 apop_tests.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 2d6431c..e298ce7 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -171,6 +171,8 @@ APOP_VAR_ENDHEAD
     double f_stat, pval;
 
     Get_vmsizes(est->data); //msize1, msize2
+    Apop_stopif(contrast->matrix->size2 != msize2,  out->error='d'; return out,
+            0, "Your contrast matrix has %zu columns, but there are %i columns of data.", contrast->matrix->size2, msize2);
     int data_df = msize1 - contrast_ct;
 
     //Find X'X
-- 
2.43.0


From e58c6c4982f260f879741f68818687cb2b65ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 280/311] fix: apop_model_mixture crashed when given no models

---
 transform/apop_mixture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 599a33c..afcc6cb 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -126,6 +126,7 @@ apop_model *apop_model_mixture_base(apop_model **inlist){
     apop_model *out = apop_model_copy(apop_mixture);
     int count=0, ctr=0;
     for (apop_model **m = inlist; *m; m++) count++;
+    Apop_stopif(!count, out->error='n'; return out, 0, "No models to mix.");
 
     //inlist is stack-allocated; may disappear at any moment.
     apop_model **inlist_copy = malloc((count+1) *sizeof(inlist));
-- 
2.43.0


From 8fe48c0e3fb5e27358bb51ca54bfbe173f0a06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 281/311] fix: the likelihood of NaN data under the Poisson or
 Yule models aborted the program

---
 model/apop_poisson.c | 3 ++-
 model/apop_yule.c    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index 731d116..c3410d6 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -12,7 +12,8 @@
 #include "apop_internal.h"
 
 static double apply_me(double x, void *in){
-    if (x < 0) return -INFINITY;
+    if (isnan(x)) return x;
+    if (x < 0 || isinf(x)) return -INFINITY;
     if ((x - floor(x)) > 1e-4) return -INFINITY;
     double *ln_l = in;
     return x==0 ? 0 : *ln_l *x - gsl_sf_lngamma(x+1);
diff --git a/model/apop_yule.c b/model/apop_yule.c
index 5ffc7bf..dea1375 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -28,7 +28,8 @@ static long double yule_constraint(apop_data *returned_beta, apop_model *m){
 }
 
 static double apply_me(double pt, void *bb){
-    if (pt < 1) return GSL_NEGINF;
+    if (isnan(pt)) return pt;
+    if (pt < 1 || isinf(pt)) return GSL_NEGINF;
     double ln_k = gsl_sf_lngamma(pt);
     double ln_bb_k = gsl_sf_lngamma(pt+*(double*)bb);
     return ln_k - ln_bb_k;
-- 
2.43.0


From bba9caf32ee615d1f482f491c28abd0899d64c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 282/311] fix: estimating a model with no likelihood ran a
 search and reported no error

---
 apop_mle.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index ab06887..07bf960 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -702,6 +702,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
             "documentation for the list of options", mp->method);
     if (!mp->method || !strlen(mp->method)) mp->method = ms ? "FR cg" : "NM simplex";
 
+    Apop_stopif(!ms && !dist->log_likelihood && !dist->p, dist->error='l'; return, 0, "The model you sent to the MLE function has neither log_likelihood element nor p element.");
     Apop_stopif(!dist->parameters, dist->error='p'; return, 0, "Not enough information to allocate parameters over which to optimize. If this was not called from apop_estimate, did you call apop_prep first?");
     infostruct info = {.data           = data,
                        .use_constraint = 1,
-- 
2.43.0


From 9e61248ebeda9381fbdf7ecf19bf8c70689cf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 283/311] fix: loess on data without independent variables
 crashed

---
 model/apop_loess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_loess.c b/model/apop_loess.c
index a26c30b..4bcb76a 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3643,6 +3643,7 @@ static long double loess_ll(apop_data *d, apop_model *m){
 }
 
 static void apop_loess_est(apop_data *d, apop_model *out){
+    Apop_stopif(!d || !d->matrix || (int)d->matrix->size2 < (d->vector ? 1 : 2), out->error='d'; return, 0, "loess needs a dependent and at least one independent variable.");
     if (!Apop_settings_get_group(out, apop_loess))
         Apop_model_add_group(out, apop_loess, .data=d);
     out->data = d;
-- 
2.43.0


From a0ad8be79acbaf49997388f97add5219be5e3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 284/311] fix: reading a directory as a text file reported no
 error

---
 apop_conversions.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 59b802f..2f67a51 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1,6 +1,7 @@
 /** \file apop_conversions.c	The various functions to convert from one format to another. */
 /* Copyright (c) 2006--2010, 2012 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 #include "apop_internal.h"
+#include <sys/stat.h>
 #include <gsl/gsl_math.h> //GSL_NAN
 #include <assert.h>
 #include <stdbool.h>
@@ -421,6 +422,8 @@ static int prep_text_reading(char const *text_file, FILE **infile){
                     ? stdin
 	                : fopen(text_file, "r");
     Apop_assert_c(*infile, 1,  0, "Trouble opening %s. Returning NULL.", text_file);
+    struct stat st;
+    Apop_stopif(!fstat(fileno(*infile), &st) && S_ISDIR(st.st_mode), fclose(*infile); return 1, 0, "%s is a directory.", text_file);
     return 0;
 }
 
-- 
2.43.0


From 4292b8cf77711d4669a7352a0e92d19cdcf19a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 285/311] fix: an infinite likelihood at the start of a
 Nelder-Mead search aborted the program

---
 apop_mle.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 07bf960..45c6b27 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -543,9 +543,13 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); failed_start(est); return,
+        Apop_stopif(1, apop_gsl_handler_unset(); gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); failed_start(est); return,
                 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
-    gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
+    apop_gsl_handler_set(); //The GSL would halt the program on infinite likelihoods.
+    status = gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
+    apop_gsl_handler_unset();
+    Apop_stopif(status, gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); failed_start(est); return,
+                0, "Infinite likelihood at or next to the starting point. Add a starting point?");
     //i->beta = s->x;
     catch_sigint();
     do {  
-- 
2.43.0


From d88f9082bd1b1aa53b86244e35f849e5ebbcfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 286/311] fix: the Yule likelihood aborted the program given a
 parameter it is not defined for

---
 model/apop_yule.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/apop_yule.c b/model/apop_yule.c
index dea1375..f712500 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -41,6 +41,7 @@ static long double yule_log_likelihood(apop_data *d, apop_model *m){
   Nullcheck_mpd(d, m, GSL_NAN);
   Get_vmsizes(d) //tsize
     double bb = gsl_vector_get(m->parameters->vector, 0);
+    if (!(bb >= 1) || isinf(bb)) return GSL_NAN;
     long double ln_bb        = gsl_sf_lngamma(bb),
                 ln_bb_less_1 = log(bb-1);
     double      likelihood   = apop_map_sum(d, .fn_dp = apply_me,.param= &bb);
@@ -52,6 +53,10 @@ static void yule_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
   Get_vmsizes(d) //tsize
 	//Psi is the derivative of the log gamma function.
     double bb  = gsl_vector_get(m->parameters->vector, 0);
+    if (!(bb > 1) || isinf(bb)) {
+        gsl_vector_set_all(gradient, GSL_NAN);
+        return;
+    }
     long double bb_minus_one_inv= 1/(bb-1),
 		        psi_bb	        = gsl_sf_psi(bb);
     double d_bb  = apop_map_sum(d, .fn_dp=dapply_me, .param=&bb);
-- 
2.43.0


From 8692a92663f15bdf8d62365f38644e10c2aac379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 287/311] fix: binomial and multinomial likelihoods and
 estimates of NaNs, infinities, negatives, or no data converted them to counts

---
 model/apop_multinomial.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 67e29ad..5ab3172 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -90,8 +90,11 @@ static double multinomial_ll(gsl_vector *v, void *pvec){
     double *pv = ((gsl_vector*)pvec)->data;
     size_t size = ((gsl_vector*)pvec)->size;
     unsigned int hv[v->size]; //The GSL wants our hit count in an int*.
-    for (size_t i=0; i < v->size; i ++)
-        hv[i] = gsl_vector_get(v, i);
+    for (size_t i=0; i < v->size; i ++){
+        double x = gsl_vector_get(v, i);
+        if (!(x >= 0 && x <= UINT_MAX)) return isnan(x) ? x : -INFINITY;
+        hv[i] = x;
+    }
     return gsl_ran_multinomial_lnpdf(size, pv, hv);
 }
 
@@ -168,6 +171,7 @@ double avs(gsl_vector *v){return (double) apop_vector_sum(v);}
 static void multinomial_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     Get_vmsizes(data); //vsize, msize1
+    Apop_stopif(!msize1 || !isfinite(apop_matrix_sum(data->matrix)), est->error='d'; return, 0, "I need a matrix of counts, without NaNs or infinities.");
     apop_data_free(est->parameters);
     est->parameters= apop_map(data, .fn_v=avs, .part='c');
     gsl_vector *v = est->parameters->vector;
-- 
2.43.0


From aa3294d739f0f967b144e382f9f6d443f746f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 288/311] fix: probits and logits with only one outcome
 category crashed

---
 model/apop_probit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 88974ea..0a3167b 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -48,6 +48,7 @@ static void probit_prep(apop_data *d, apop_model *m){
     apop_ols->prep(d, m);//also runs the default apop_model_clear.
     int count = factor_list->textsize[0];
     apop_data_free(m->parameters);
+    Apop_stopif(count < 2, m->error='d'; return, 0, "The outcome variable has %i categories; I need at least two.", count);
     m->parameters = apop_data_alloc(d->matrix->size2, count-1);
     apop_name_stack(m->parameters->names, d->names, 'r', 'c');
     for (int i=1; i< count; i++) 
-- 
2.43.0


From b8a14d8ae5f0096c0d87c349a8df37557834e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 289/311] fix: conjugate updating without prior parameters, or
 without both data and likelihood parameters, crashed

---
 apop_update.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index 39f03b5..a7aed6f 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -250,6 +250,8 @@ APOP_VAR_END_HEAD
     }
     }
     apop_update_type conj = apop_update_vtable_get(prior, likelihood);
+    Apop_stopif(conj && !prior->parameters, apop_model *err=apop_model_copy(prior); err->error='p'; return err, 0, "The prior has no parameters.");
+    Apop_stopif(conj && !data && !likelihood->parameters, apop_model *err=apop_model_copy(prior); err->error='d'; return err, 0, "Neither data nor likelihood parameters to update with.");
     if (conj) return conj(data, prior, likelihood);
 
     //Others may be using the inputs, so modify only copies.
-- 
2.43.0


From 45848e8872e66733bcc2c9f2e23983f23a62720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 290/311] fix: draws from and the CDF of a mixture without
 settings crashed

---
 transform/apop_mixture.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index afcc6cb..817cad3 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -276,6 +276,7 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
 
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
+    Apop_stopif(!ms, m->error='p'; *out=GSL_NAN; return 1, 0, "No apop_mixture_settings group.");
     OMP_critical (mixdraw)
     unpack(m);
     long double total = apop_sum(ms->weights);
@@ -297,6 +298,7 @@ static long double mixture_cdf(apop_data *d, apop_model *model_in){
     Nullcheck_m(model_in, GSL_NAN)
     Nullcheck_d(d, GSL_NAN)
     apop_mixture_settings *ms = Apop_settings_get_group(model_in, apop_mixture);
+    Apop_stopif(!ms, model_in->error='p'; return GSL_NAN, 0, "No apop_mixture_settings group.");
     OMP_critical (mixdraw)
     unpack(model_in);
     weighted_sum(apop_cdf);
-- 
2.43.0


From 3675390b0f9be61c646ab78ebac543a8afeb26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 291/311] fix: preparing or printing a mixture without settings
 crashed

---
 transform/apop_mixture.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 817cad3..40b2927 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -147,6 +147,7 @@ apop_model *apop_model_mixture_base(apop_model **inlist){
 
 void mixture_show(apop_model *m, FILE *out){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
+    Apop_stopif(!ms, return, 0, "No apop_mixture_settings group.");
     if (m->parameters){
         fprintf(out, "Mixture of %i models, with weights:\n", ms->model_count);
         apop_vector_print(ms->weights, .output_pipe=out);
@@ -163,6 +164,7 @@ static void mixture_prep(apop_data * data, apop_model *model){
     apop_model_print_vtable_add(mixture_show, apop_mixture);
     if (model->parameters) return;
     apop_mixture_settings *ms = Apop_settings_get_group(model, apop_mixture);
+    Apop_stopif(!ms, model->error='p'; return, 0, "No apop_mixture_settings group. Did you set this up with apop_model_mixture()?");
     model->parameters = apop_data_alloc();
     model->parameters->vector = apop_vector_stack(model->parameters->vector, ms->weights, .inplace='y');
 
-- 
2.43.0


From 5bd0e5f272622c8940b45b022f80f08f864e3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:53 +0000
Subject: [PATCH 292/311] fix: regressions with a singular X'X crashed

---
 model/apop_ols.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index a6e5cc7..34c5366 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -231,7 +231,10 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
 static void xpxinvxpy(apop_data const*data, apop_data const*observed, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
 	if (!want_cov(out) && !want_predicted(out)){
 		//then don't calculate (X'X)^{-1}
-		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
+		apop_gsl_handler_set();
+		int status = gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
+		apop_gsl_handler_unset();
+		Apop_stopif(status, gsl_vector_set_all(out->parameters->vector, GSL_NAN); out->error='s', 0, "X'X is singular.");
 		return;
 	} //else:
     double s_sq;
@@ -239,6 +242,8 @@ static void xpxinvxpy(apop_data const*data, apop_data const*observed, gsl_matrix
     double det = apop_det_and_inv(xpx, &cov->matrix, 1, 1);// not yet cov, just (X'X)^-1.
     if (det < 1e-4) Apop_notify(1, "Determinant of X'X is small (%g), so matrix is near singular. "
                         "Expect the covariance matrix [based on (X'X)^-1] to be garbage.", det);
+    Apop_stopif(!cov->matrix, apop_data_free(cov); gsl_vector_set_all(out->parameters->vector, GSL_NAN); out->error='s'; return,
+            0, "X'X is singular.");
     apop_data_free(out->parameters);
     out->parameters = apop_dot(cov, xpy);               // \beta=(X'X)^{-1}X'Y
     apop_data *error = apop_dot(data, out->parameters); // X\beta ==predicted (not yet error)
@@ -357,6 +362,10 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
+    if (ep->error){ //a singular X'X
+        if (set != inset) apop_data_free(set);
+        return;
+    }
 
     if (pwant ? wants(pwant->tests) : want_cov(ep))
         apop_estimate_parameter_tests(ep);
@@ -494,7 +503,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
 
     xpxinvxpy(set, inset, zpx->matrix, zpy, ep);
 
-    if (want_cov(ep)){
+    if (!ep->error && want_cov(ep)){
         //covariance matrix right now is sigma (Z'X)^-1. We need
         //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
         apop_data *zpz = apop_dot(z, z, .form1='t');
@@ -510,7 +519,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
         gsl_matrix_free(zpxinv.matrix);
         apop_data_free(zpz);
         apop_data_free(zpz_xpzinv);
-    }
+    } else gsl_matrix_free(zpxinv.matrix);
     prep_names(ep);
     apop_data_free(zpx);
     apop_data_free(zpy);
-- 
2.43.0


From 461c67654183a215259ef8ae9b5f7fefdc992235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:53 +0000
Subject: [PATCH 293/311] fix: estimating a lognormal from NULL data crashed

---
 model/apop_normal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 39af681..6d9747d 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -189,6 +189,7 @@ static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void lognormal_estimate(apop_data * data, apop_model *est){
+    Nullcheck_mpd(data, est, );
     apop_data *cp = apop_data_copy(data);
     Apop_stopif(!cp->matrix && !cp->vector, est->error='d'; return, 
             0, "Neither matrix nor vector in the input data.");
-- 
2.43.0


From 7619b558429fdc860040ecfa7e54ef250685649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:56 +0000
Subject: [PATCH 294/311] fix: apop_linear_constraint aborted on infinite
 parameters

---
 apop_linear_constraint.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index c13bb0a..9f4aa9d 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -158,6 +158,7 @@ APOP_VAR_ENDHEAD
         bindlist[i] = binds(beta, apop_data_get(constraint, i, -1), c, margin);
     }
     if (!bound) return 0;   //All constraints met.
+    if (!apop_vector_bounded(beta)) return GSL_POSINF; //no point of the feasible region is closest.
     gsl_vector *base_beta = apop_vector_copy(beta);
     /* With only one constraint, it's easy. */
     if (constraint->vector->size==1){
-- 
2.43.0


From b09f5b7cf1e6287c9c3a24081c41d9de3e071e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:56 +0000
Subject: [PATCH 295/311] fix: the Zipf likelihood with a parameter of one
 aborted the program

---
 model/apop_zipf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_zipf.c b/model/apop_zipf.c
index 9ff4089..0729b75 100644
--- a/model/apop_zipf.c
+++ b/model/apop_zipf.c
@@ -36,7 +36,7 @@ static long double zipf_log_likelihood(apop_data *d, apop_model *m){
     long double bb = apop_data_get(m->parameters, 0, -1);
     Apop_stopif(isnan(bb) || bb < 1, return GSL_NAN, 0, "Zipf needs a parameter >=1; "
                                               "got %Lg. Returning NaN.", bb); 
-    if (apop_map_sum(d, below_one)) return GSL_NEGINF;
+    if (bb == 1 || apop_map_sum(d, below_one)) return GSL_NEGINF; //zeta(1) is infinite.
     double like = -apop_map_sum(d, log) * bb;
     like -= log(gsl_sf_zeta(bb)) * tsize;
     return like;
-- 
2.43.0


From 7825b1f5f3055a7688ea78c7840c129fdf35832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:56 +0000
Subject: [PATCH 296/311] fix: the binomial CDF of a negative, infinite, or NaN
 count converted it to an unsigned integer

---
 model/apop_multinomial.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 5ab3172..d5de9cd 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -38,7 +38,8 @@ static long double binomial_cdf(apop_data *d, apop_model *est){
     double hitcount = apop_data_get(d, .col=firstcol);
     double n = gsl_vector_get(est->parameters->vector, 0);
     double p = gsl_vector_get(est->parameters->vector, 1);
-    return gsl_cdf_binomial_P(hitcount, p, n);
+    if (isnan(hitcount) || isnan(p) || !(n >= 0 && n <= UINT_MAX)) return GSL_NAN;
+    return hitcount < 0 ? 0 : hitcount >= n ? 1 : gsl_cdf_binomial_P(hitcount, p, n);
 }
 
 static void make_covar(apop_model *est){
-- 
2.43.0


From 8dcb35089ae5e317fd9c7b10d179a1153fb49648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 297/311] fix: binomial and multinomial estimates of counts too
 large for an int overflowed

---
 model/apop_multinomial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index d5de9cd..6649f66 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -172,7 +172,7 @@ double avs(gsl_vector *v){return (double) apop_vector_sum(v);}
 static void multinomial_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     Get_vmsizes(data); //vsize, msize1
-    Apop_stopif(!msize1 || !isfinite(apop_matrix_sum(data->matrix)), est->error='d'; return, 0, "I need a matrix of counts, without NaNs or infinities.");
+    Apop_stopif(!msize1 || !(fabs(apop_matrix_sum(data->matrix)/msize1) <= INT_MAX), est->error='d'; return, 0, "I need a matrix of counts that an int can hold.");
     apop_data_free(est->parameters);
     est->parameters= apop_map(data, .fn_v=avs, .part='c');
     gsl_vector *v = est->parameters->vector;
-- 
2.43.0


From 32ab56bce2b00d1c14402e8ad4e510bde147847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 298/311] fix: the scores of Gamma and Beta distributions with
 parameters they are not defined for aborted the program

---
 model/apop_beta.c  | 4 ++++
 model/apop_gamma.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 70c0cc7..29c50b8 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -62,6 +62,10 @@ static void beta_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
     Nullcheck_mpd(d, m, )
     Get_vmsizes(d) //tsize
     Get_ab(m) //ab
+    if (!(ab.alpha > 0 && ab.beta > 0)) {
+        gsl_vector_set_all(gradient, GSL_NAN);
+        return;
+    }
     double lnsum = apop_map_sum(d, log);
     double ln_x_minus_1_sum = apop_map_sum(d, dbeta_callback);
 	//Psi is the derivative of the log gamma function.
diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index b109f26..00f372f 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -63,6 +63,10 @@ static void gamma_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
     Nullcheck_mp(p, ) 
     double  a = gsl_vector_get(p->parameters->vector, 0),
         	b = gsl_vector_get(p->parameters->vector, 1);
+    if (!(a > 0)) {
+        gsl_vector_set_all(gradient, GSL_NAN);
+        return;
+    }
     double psi_a_ln_b  = gsl_sf_psi(a) + log(b);
     double b_and_ab[2] = {b, a/b};
     gsl_vector_set(gradient, 0, apop_map_sum(d, .fn_dp = a_callback, .param=&psi_a_ln_b));
-- 
2.43.0


From c352c9c5b071a893cf8e0ed339c4db9773e3b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 299/311] fix: estimating a PMF from NULL data or a
 Multivariate normal from data without a matrix crashed

---
 model/apop_multivariate_normal.c | 1 +
 model/apop_pmf.c                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index bdae440..fb4ebbf 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -54,6 +54,7 @@ static double a_mean(gsl_vector * in){ return apop_vector_mean(in); }
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>.  */ 
 static void multivariate_normal_estimate(apop_data * data, apop_model *p){
+    Apop_stopif(!data || !data->matrix, p->error='d'; return, 0, "No data matrix to estimate from.");
     apop_data_free(p->parameters);
     p->parameters = apop_map(data, .fn_v=a_mean, .part='c'); 
     apop_data *cov =  apop_data_covariance(data);
diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 400eb4a..db13f09 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -86,6 +86,7 @@ Apop_settings_init(apop_pmf,
 /* \adoc    estimated_data  The data you sent in is linked to (not copied).
 \adoc    estimated_parameters  Still \c NULL.    */
 static void estim (apop_data *d, apop_model *out){
+    Nullcheck_d(d, );
     out->data = d;
     apop_data_free(out->parameters); //may have been auto-alloced by prep.
 
-- 
2.43.0


From e962fa2e16c1088533feb1bcb35561f420212677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 300/311] fix: the Yule score of data outside its support
 aborted the program

---
 model/apop_yule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_yule.c b/model/apop_yule.c
index f712500..62cc18f 100644
--- a/model/apop_yule.c
+++ b/model/apop_yule.c
@@ -35,7 +35,7 @@ static double apply_me(double pt, void *bb){
     return ln_k - ln_bb_k;
 }
 
-static double dapply_me(double pt, void *bb){ return -gsl_sf_psi(pt+*(double*)bb); }
+static double dapply_me(double pt, void *bb){ return !(pt >= 1) || isinf(pt) ? GSL_NAN : -gsl_sf_psi(pt+*(double*)bb); }
 
 static long double yule_log_likelihood(apop_data *d, apop_model *m){
   Nullcheck_mpd(d, m, GSL_NAN);
-- 
2.43.0


From 373c79bbd26c3694e1519db574f34f1f6cb80707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 301/311] fix: the Beta log likelihood with an extreme
 parameter aborted the program

---
 model/apop_beta.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 29c50b8..756d634 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -53,7 +53,11 @@ static long double beta_log_likelihood(apop_data *d, apop_model *p){
     Get_ab(p) //ab
     Apop_stopif(isnan(ab.alpha+ab.beta), return GSL_NAN, 0, "NaN α or β input.");
     Apop_stopif(!(ab.alpha > 0 && ab.beta > 0), return GSL_NAN, 1, "α and β have to be positive, but α=%g and β=%g. Returning NaN.", ab.alpha, ab.beta);
-	return apop_map_sum(d, .fn_dp = betamap, .param=&ab) - gsl_sf_lnbeta(ab.alpha, ab.beta) * tsize;
+    gsl_sf_result lnbeta;
+    apop_gsl_handler_set(); //over- or underflow is no reason to halt.
+    gsl_sf_lnbeta_e(ab.alpha, ab.beta, &lnbeta);
+    apop_gsl_handler_unset();
+    return apop_map_sum(d, .fn_dp = betamap, .param=&ab) - lnbeta.val * tsize;
 }
 
 static double dbeta_callback(double x){ return log(1-x); }
-- 
2.43.0


From 4d473229b5af61daf4430e12258eaad489b5b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 302/311] fix: the OLS log likelihood of the estimation data
 ignored changes in the parameters

---
 model/apop_ols.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 34c5366..46bb4d7 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -154,24 +154,17 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
   gsl_matrix *data = d->matrix;
   gsl_vector *errors;
 
-    apop_data *pred = apop_data_get_page(p->info, "<Predicted>");
-    if (pred && d==p->data){ //use already-stored errors for this data set.
-        gsl_vector *as_errors = Apop_cv(pred, 2);
-				errors = gsl_vector_calloc(data->size1);
-				for (size_t i=0;i< GSL_MIN(as_errors->size,data->size1); i++)
-					gsl_vector_set(errors, i, gsl_vector_get(as_errors, i));
-    } else {
-        errors = gsl_vector_alloc(data->size1);
-        for (size_t i=0;i< data->size1; i++){
-            gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
-            if (d->vector){ //then this has been prepped
-                actual = apop_data_get(d,i, -1);
-            } else {
-                actual = gsl_matrix_get(data,i, 0);
-                expected += gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
-            }
-            gsl_vector_set(errors, i, expected-actual);
+    //Not the stored residuals, which are those of the parameters as estimated.
+    errors = gsl_vector_alloc(data->size1);
+    for (size_t i=0;i< data->size1; i++){
+        gsl_blas_ddot(p->parameters->vector, Apop_rv(d, i), &expected);
+        if (d->vector){ //then this has been prepped
+            actual = apop_data_get(d,i, -1);
+        } else {
+            actual = gsl_matrix_get(data,i, 0);
+            expected += gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
         }
+        gsl_vector_set(errors, i, expected-actual);
     }
 
     //The variance of an observation is sigma^2/weight.
-- 
2.43.0


From 662d91fbd7ef80fe85bcddebc861781818fb9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 303/311] fix: the OLS log likelihood was negative infinity
 when an error was some 38 standard deviations out

---
 model/apop_ols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 46bb4d7..bb318cf 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -183,7 +183,9 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
                     : 1;
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
         if (!weight) continue;
-        ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* sqrtl(weight) * x_prob);
+        //the log of the density itself, because the density underflows.
+        ll += -gsl_pow_2(gsl_vector_get(errors, i)/sigma)/2 - log(sigma) - M_LNPI/2 - M_LN2/2 
+                + logl(sqrtl(weight) * x_prob);
     }
     gsl_vector_free(errors);
     return ll;
-- 
2.43.0


From f83ee1d1ec8a4d4df31d074f31cdacc7674ef4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:34 +0000
Subject: [PATCH 304/311] fix: the probit log likelihood and score were wrong
 for an observation far in the tail

---
 model/apop_probit.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 0a3167b..68b92d0 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -26,6 +26,7 @@ replace that matrix column with a constant column of ones, just like with OLS.
 */
 
 #include "apop_internal.h"
+#include <gsl/gsl_sf_erf.h>
 
 static void probit_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model *p);
 
@@ -86,11 +87,12 @@ static void probit_prep(apop_data *d, apop_model *m){
     gsl_vector_free(params_as_vector);
 }
 
+//The log of the Normal CDF; the log of gsl_cdf_gaussian_P loses its precision in the tails.
+static double log_phi(double x){ return gsl_sf_log_erfc(-x/M_SQRT2) - M_LN2; }
+
 static double biprobit_ll_row(apop_data *r){
-    long double n = gsl_cdf_gaussian_P(-gsl_matrix_get(r->matrix, 0, 0),1);
-    n = n ? n : 1e-10; //prevent -inf in the next step.
-    n = n<1 ? n : 1-1e-10; 
-    return r->vector->data[0] ?  log(1-n): log(n);
+    double betax = gsl_matrix_get(r->matrix, 0, 0);
+    return log_phi(r->vector->data[0] ? betax : -betax);
 }
 
 //The case where outcome is a single zero/one option.
@@ -137,17 +139,16 @@ static void probit_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_mode
         gsl_vector_free(numeric_default);
         return;
     }
-    long double	cdf, betax, deriv_base;
+    long double	betax, deriv_base;
     apop_data *betadotx = apop_dot(d, p->parameters); 
     gsl_vector_set_all(gradient, 0);
     for (size_t i=0; i< d->matrix->size1; i++){
         betax = apop_data_get(betadotx, i, 0);
-        cdf = gsl_cdf_gaussian_P(-betax, 1);
-        cdf = cdf ? cdf : 1e-10; //prevent -inf in the next step.
-        cdf = cdf<1 ? cdf : 1-1e-10; 
+        //the density over the CDF, via logs, as both underflow
+        double log_pdf = -gsl_pow_2(betax)/2 - M_LNPI/2 - M_LN2/2;
         deriv_base = apop_data_get(d, i, -1)
-                       ?  gsl_ran_gaussian_pdf(-betax, 1) /(1-cdf)
-                       : -gsl_ran_gaussian_pdf(-betax, 1) / cdf;
+                       ?  exp(log_pdf - log_phi(betax))
+                       : -exp(log_pdf - log_phi(-betax));
         for (size_t j=0; j< d->matrix->size2; j++)
             *gsl_vector_ptr(gradient, j) += apop_data_get(d, i, j) * deriv_base;
 	}
-- 
2.43.0


From cfd67d37c2649e86b5d516d059ea28659d39e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 305/311] fix: apop_plot_query -Q lost the query, printing a
 string onto itself

---
 cmd/apop_plot_query.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/apop_plot_query.c b/cmd/apop_plot_query.c
index 75ecb36..0340da5 100644
--- a/cmd/apop_plot_query.c
+++ b/cmd/apop_plot_query.c
@@ -57,9 +57,9 @@ char *read_query(char *infile){
     Apop_stopif(!inf, exit(0), 0, "Trouble opening %s.\n", infile);
     while(fgets(in, 1000, inf)){
         q = realloc(q, strlen(q) + strlen(in) + 4);
-        sprintf(q, "%s%s", q, in);
+        strcat(q, in);
     }
-    sprintf(q, "%s;\n", q);
+    strcat(q, ";\n");
     fclose(inf);
     return q;
 }
-- 
2.43.0


From 14a915236a23825eb77db5f4203d492419a3691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 306/311] fix: stacking a vector, matrix, or data set onto
 itself in place read past the original end

---
 apop_data.m4.c           |  8 ++++++++
 apop_linear_algebra.m4.c | 17 +++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fff46af..290a194 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -374,6 +374,14 @@ APOP_VAR_HEAD apop_data *apop_data_stack(apop_data *m1, apop_data * m2, char pos
 APOP_VAR_ENDHEAD
     if (!m1) return apop_data_copy(m2);
     if (!m2) return inplace ? m1 : apop_data_copy(m1);
+    if (inplace && m1 == m2){ //then m2 would grow as it is read.
+        apop_data m2base = *m2; //not following the more pointer.
+        m2base.more = NULL;
+        apop_data *m2copy = apop_data_copy(&m2base);
+        apop_data *stacked = apop_data_stack(m1, m2copy, posn, .inplace='y');
+        apop_data_free(m2copy);
+        return stacked;
+    }
     apop_data *out = NULL;
     if (inplace)
         out = m1;
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index b044eea..26092cb 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -226,17 +226,18 @@ APOP_VAR_ENDHEAD
     } else if (!v1 && !v2)
         return NULL;
     //else:
-    size_t v1size = v1->size; //save in case of reallocing.
+    size_t v1size = v1->size, v2size = v2->size; //save in case of reallocing, including when v1==v2.
     if (inplace == 'y' ){
-        out = apop_vector_realloc(v1, v1->size+v2->size);
+        out = apop_vector_realloc(v1, v1size+v2size);
         Apop_stopif(!out, return NULL, 0, "Couldn't resize the first vector. Returning NULL.");
     } else {
         out = gsl_vector_alloc(v1->size + v2->size);
         t   = gsl_vector_subvector(out, 0, v1size).vector;
         gsl_vector_memcpy(&t, v1);
     }
-    t   = gsl_vector_subvector(out, v1size, v2->size).vector;
-    gsl_vector_memcpy(&t, v2);
+    t   = gsl_vector_subvector(out, v1size, v2size).vector;
+    gsl_vector_const_view v2view = gsl_vector_const_subvector(v2, 0, v2size);
+    gsl_vector_memcpy(&t, &v2view.vector);
     return out;
 }
 
@@ -286,7 +287,7 @@ APOP_VAR_ENDHEAD
 
     if (posn == 'r'){
         Apop_stopif(m1->size2 != m2->size2, return NULL, 0, "When stacking matrices on top of each other, they have to have the same number of columns, but  m1->size2==%zu and m2->size2==%zu. Returning NULL.", m1->size2, m2->size2);
-        int m1size = m1->size1;
+        int m1size = m1->size1, m2size = m2->size1; //save in case of reallocing, including when m1==m2.
         if (inplace =='y'){
             out = apop_matrix_realloc(m1, m1->size1 + m2->size1, m1->size2);
             Apop_stopif(!out, return NULL, 0, "Couldn't resize the first matrix. Returning NULL.");
@@ -297,7 +298,7 @@ APOP_VAR_ENDHEAD
                     gsl_matrix_set_row(out, i, &(tmp_vector.vector));
             }
         }
-        for (int i=m1size; i< m1size + m2->size1; i++){
+        for (int i=m1size; i< m1size + m2size; i++){
             gsl_vector_const_view tmp_vector = gsl_matrix_const_row(m2, i- m1size);
             gsl_matrix_set_row(out, i, &(tmp_vector.vector));
         }
@@ -306,7 +307,7 @@ APOP_VAR_ENDHEAD
         Apop_stopif(m1->size1 != m2->size1, return NULL, 0, "When stacking matrices side by side, "
                 "they have to have the same number of rows, but m1->size1==%zu and m2->size1==%zu. Returning NULL."
                 , m1->size1, m2->size1);
-        int m1size = m1->size2;
+        int m1size = m1->size2, m2size = m2->size2;
         if (inplace =='y'){
             out = apop_matrix_realloc(m1, m1->size1, m1->size2 + m2->size2);
             Apop_stopif(!out, return NULL, 0, "Couldn't resize the first matrix. Returning NULL.");
@@ -315,7 +316,7 @@ APOP_VAR_ENDHEAD
             for (int i=0; i< m1size; i++)
                 gsl_matrix_set_col(out, i, Apop_mcv(m1, i));
         }
-        for (int i=0; i< m2->size2; i++)
+        for (int i=0; i< m2size; i++)
             gsl_matrix_set_col(out, i+ m1size, Apop_mcv((gsl_matrix*)m2, i));
         return out;
     } 
-- 
2.43.0


From 4bd7d4a60345dd2dd8d17b43c2c6980cb35c4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:50 +0000
Subject: [PATCH 307/311] fix: settings groups whose names share a hash were
 taken for each other

---
 apop_settings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_settings.c b/apop_settings.c
index 02051b4..0768fdc 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -30,7 +30,7 @@ void apop_settings_remove_group(apop_model *m, char *delme){
     unsigned long delme_hash = apop_settings_hash(delme);
  
     while (m->settings[i].name[0] !='\0'){
-        if (m->settings[i].name_hash == delme_hash){
+        if (m->settings[i].name_hash == delme_hash && !strncmp(m->settings[i].name, delme, 100)){
             if (m->settings[i].free)
                 ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
             for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
@@ -72,7 +72,7 @@ void * apop_settings_get_grp(apop_model *m, char *type, char fail){
     int i;
     unsigned long type_hash = apop_settings_hash(type);
     for (i=0; m->settings[i].name[0] !='\0'; i++)
-       if (type_hash == m->settings[i].name_hash)
+       if (type_hash == m->settings[i].name_hash && !strncmp(m->settings[i].name, type, 100))
            return m->settings[i].setting_group;
     Apop_assert(fail != 'f', "I couldn't find the settings group %s in the given model.", type);
     return NULL; //else, just return NULL and let the caller sort it out.
@@ -98,7 +98,7 @@ void apop_settings_copy_group(apop_model *outm, apop_model *inm, char *copyme){
     int i;
     unsigned long type_hash = apop_settings_hash(copyme);
     for (i=0; inm->settings[i].name[0] !='\0'; i++)//retrieve the index.
-       if (type_hash == inm->settings[i].name_hash)
+       if (type_hash == inm->settings[i].name_hash && !strncmp(inm->settings[i].name, copyme, 100))
            break;
     void *gnew = (inm->settings[i].copy) 
                     ? ((void *(*)(void*))inm->settings[i].copy)(g)
-- 
2.43.0


From 10914c54440c8eb5b68db0b8481d036bd295b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:47 +0000
Subject: [PATCH 308/311] fix: apop_text_to_db rewrote the numbers in text
 columns of tables of over 999 columns

---
 apop_conversions.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 2f67a51..a607e1b 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1048,6 +1048,11 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         else if (astring[0]=='.')
 			Asprintf(&out, "0%s",astring);
 		else out = strdup(astring);
+        if (!prepped_statements){ //unquoted, a text column would get SQL's version of the number: 007 as 7, 9e9999999 as Inf.
+            char *bare = out;
+            Asprintf(&out, "'%s'", bare);
+            free(bare);
+        }
 	}
     return out;
 }
-- 
2.43.0


From 209351a06e7680f9d2155214cab10d33fc184b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:52 +0000
Subject: [PATCH 309/311] fix: estimating an already estimated Beta or Poisson
 model duplicated the names of its parameters

---
 model/apop_beta.c    | 1 +
 model/apop_poisson.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 756d634..2f02f11 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -22,6 +22,7 @@ static void beta_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     double		mean, var, alpha, beta;
     get_mu_var(data, &mean, &var);
+    apop_name_rm_rows(est->parameters->names);
     apop_data_add_names(est->parameters, 'r', "α", "β");
     alpha   = gsl_pow_2(mean) * ((1-mean)/var - 1/mean);
     beta    = alpha * (1-mean)/mean;
diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index c3410d6..3d75a6b 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -44,6 +44,7 @@ static void poisson_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     double mean = data_mean(data);
 	apop_data_set(est->parameters, .val=mean);
+    apop_name_rm_rows(est->parameters->names);
     apop_data_add_names(est->parameters, 'r', "λ");
     apop_data_add_named_elmt(est->info, "log likelihood", poisson_log_likelihood(data, est));
     //to prevent an infinite loop, the bootstrap needs to be flagged to not run itself. 
-- 
2.43.0


From 613233662bb4b78ada4b1b52f977fe98388b38bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 310/311] fix: printing an OLS estimate moved its page of
 predicted values

---
 model/apop_ols.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index bb318cf..4bc6100 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -409,9 +409,13 @@ apop_model *ols_param_models(apop_data *d, apop_model *m){
 void ols_print(apop_model *m, FILE *ap){
     fprintf(ap, "Parameters:\n");
     apop_data_print(m->parameters, .output_pipe=(ap? ap : stdout));
-    apop_data *predict = apop_data_rm_page(m->info, "<Predicted>", .free_p='n');
+    //leave the predicted values out of the printout, and put them back where they were.
+    apop_data *predict = m->info ? apop_data_get_page(m->info, "<Predicted>") : NULL;
+    apop_data *prior = m->info;
+    while (predict && prior && prior->more != predict) prior = prior->more;
+    if (predict && prior) prior->more = predict->more;
     apop_data_print(m->info, .output_pipe=(ap? ap : stdout));
-    if (predict) apop_data_add_page(m->info, predict, predict->names->title);
+    if (predict && prior) prior->more = predict;
 }
 
 apop_model *apop_ols = &(apop_model){.name="Ordinary Least Squares", .vsize = -1, .dsize=-1, .estimate=apop_estimate_OLS, 
-- 
2.43.0


From cb0e740ca8937b75c9bafb754450d7d3ac695384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 311/311] fix: printing a Multinomial or Binomial without
 parameters crashed once any had been prepared

---
 model/apop_multinomial.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 6649f66..6f22b46 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -156,6 +156,7 @@ static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
 }
 
 static void multinomial_show(apop_model *est, FILE *out){
+    if (!est->parameters) {fprintf(out, "%s\n\n", est->name); return;}
     double * p = est->parameters->vector->data;
     int N=p[0];
     p[0] = 1 - (apop_sum(est->parameters->vector)-N);
-- 
2.43.0

