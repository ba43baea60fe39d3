From 5bf294942036e6154deb6b15d4c93e4b8470d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 001/161] fix: copying a data set lost the vector name, wrote a
 "(null)" title, and skipped the text size check

---
 apop_data.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..87e3c2d 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -231,8 +231,8 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        if (in->names->title) {Asprintf(&out->names->title, "%s", in->names->title);}
+        if (in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
         for (int i=0; i< in->names->rowct; i++)
             if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
             else  apop_name_add(out->names, in->names->row[i], 'r');
@@ -243,8 +243,6 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
@@ -258,6 +256,8 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
                      apop_text_blank(out, i, j);
                 else apop_text_set(out, i, j, "%s", in->text[i][j]);
     }
+    out->textsize[0] = in->textsize[0]; 
+    out->textsize[1] = in->textsize[1]; 
     if (in->more && out->more) apop_data_memcpy(out->more, in->more);
 }
 
-- 
2.43.0


From 29edcbf8ba1db3d7ae9c32645deaa4904caed644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 002/161] fix: a multi-row view exposed only its first row name

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..e637e70 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -870,7 +870,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                 .colhash = (d)->names->colhash,                                  \
                 .text = (d)->names->text,                                        \
                 .colct = (d)->names->colct,                                      \
-                .rowct = (d)->names->row ? (GSL_MIN(1, GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
+                .rowct = (d)->names->row ? (GSL_MIN((int)(len), GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
                                           : 0,                                   \
                 .textct = (d)->names->textct }),                                 \
         .vector= Apop_subvector((d->vector), (rownum), (len)),                   \
-- 
2.43.0


From 330620b23079bc611d1bae42e2848414b51c783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 003/161] fix: growing the rows of a text grid while shrinking
 its columns overran the new rows

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 87e3c2d..47917fc 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1058,7 +1058,7 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
             Apop_stopif(!in->text, in->error='a'; return in,
                             0, "realloc failed setting up %zu rows. Probably out of memory.", row);
             for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
+                in->text[i] = malloc(sizeof(char*) * GSL_MAX(col, cols_now)); //trimmed below.
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
                 for (int j=0; j < cols_now; j++)
-- 
2.43.0


From 9c2085fdfd9f4d3c43d4010e0a4659043de39486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 004/161] fix: in-place transposition left the name hashes
 behind and mixed text names into the row names; text with percent signs was
 misread as a format when copied

---
 apop_data.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 47917fc..dc05d4f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1116,6 +1116,7 @@ APOP_VAR_HEAD apop_data * apop_data_transpose(apop_data *in, char transpose_text
 APOP_VAR_ENDHEAD
     Apop_stopif(!in->matrix && !*in->textsize, return apop_data_alloc(), 
             1, "input data set has neither matrix nor text elements; returning an empty data set.");
+    int has_colnames = in->names && in->names->colct;
     apop_data *out = (inplace=='y') ? in
                                     : apop_data_alloc(0, in->matrix ? in->matrix->size2 : 0
                                                        , in->matrix ? in->matrix->size1 : 0);
@@ -1134,6 +1135,9 @@ APOP_VAR_ENDHEAD
             char **tmp = out->names->col;
             out->names->col = out->names->row;
             out->names->row = tmp;
+            unsigned long *tmphash = out->names->colhash;
+            out->names->colhash = out->names->rowhash;
+            out->names->rowhash = tmphash;
             int tmpct = out->names->colct;
             out->names->colct = out->names->rowct;
             out->names->rowct = tmpct;
@@ -1187,9 +1191,9 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
-    if (in->names && in->names->textct && !in->names->colct)
+    if (in->names && in->names->textct && !has_colnames)
         apop_name_stack(out->names, in->names, 't', 'r');
     return out;
 }
-- 
2.43.0


From 6ad4ad438562689eb8bf6c872b274a38d7f80dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 005/161] fix: out-of-bounds get/set/ptr ran into the GSL error
 handler instead of returning the documented error value

---
 apop_data.m4.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index dc05d4f..f4ef486 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -787,9 +787,11 @@ APOP_VAR_HEAD double * apop_data_ptr(apop_data *data, int row, int col, const ch
 APOP_VAR_ENDHEAD
     if (col == -1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NULL, 1, "You asked for the vector element (col=-1) but it is NULL. Returning NULL.");
+        Apop_stopif((size_t)row >= data->vector->size, return NULL, 1, "You asked for vector element %i but the vector has %zu elements. Returning NULL.", row, data->vector->size);
         return gsl_vector_ptr(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NULL, 1, "You asked for the matrix element (%i, %i) but the matrix is NULL Returning NULL..", row, col);
+        Apop_stopif((size_t)row >= data->matrix->size1 || (size_t)col >= data->matrix->size2, return NULL, 1, "You asked for matrix element (%i, %i) but the matrix is %zu X %zu. Returning NULL.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_ptr(data->matrix, row,col);
     }
     return NULL;//the main function is blank.
@@ -835,26 +837,15 @@ APOP_VAR_HEAD double apop_data_get(const apop_data *data, size_t row, int col, c
 APOP_VAR_ENDHEAD
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NAN, 1,  "You asked for the vector element (col=-1) but it is NULL.");
+        Apop_stopif(row >= data->vector->size, return NAN, 1, "You asked for vector element %zu but the vector has %zu elements.", row, data->vector->size);
         return gsl_vector_get(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NAN, 1, "You asked for the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || (size_t)col >= data->matrix->size2, return NAN, 1, "You asked for matrix element (%zu, %i) but the matrix is %zu X %zu.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_get(data->matrix, row, col);
     }
 }
 
-/* The only hint the GSL gives that something failed is that the error-handler is called.
-   The error handling function won't let you set an output to the function. So all we
-   can do is use a global variable.
-*/
-
-static threadlocal int error_for_set; //see apop_internal.h
-
-void apop_gsl_error_for_set(const char *reason, const char *file, int line, int gsl_errno){
-    Apop_notify(1, "%s: %s", file, reason);
-    Apop_maybe_abort(1);
-    error_for_set = -1;
-}
-
 /**  Set a data element.
 See \ref data_set_get "the set/get page" for details and examples. 
  
@@ -901,16 +892,16 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(row >= data->vector->size, return -1, 1, "You're trying to set vector element %zu but the vector has %zu elements.", row, data->vector->size);
         gsl_vector_set(data->vector, row, val);
     } else {
         Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || (size_t)col >= data->matrix->size2, return -1, 1, "You're trying to set matrix element (%zu, %i) but the matrix is %zu X %zu.", row, col, data->matrix->size1, data->matrix->size2);
         gsl_matrix_set(data->matrix, row, col, val);
     }
-    Unset_gsl_handler
-    return error_for_set;
+    return 0;
 }
 
 /** A convenience function to add a named element to a data set.  Many of Apophenia's
-- 
2.43.0


From 3c00078d30ed109c65c28e4300ffff39f7b97213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 006/161] fix: removing a page crashed on untitled pages and
 leaked the contents of the removed page

---
 apop_data.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index f4ef486..38d7df1 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1356,7 +1356,8 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title
+                            || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
@@ -1365,7 +1366,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From dfd14562eb945a37ce92579aa42cce0f19212b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 007/161] fix: stacking data sets crashed when one had no names
 and misaligned column names when a vector became a column

---
 apop_data.m4.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 38d7df1..c9138f8 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -377,12 +377,15 @@ APOP_VAR_ENDHEAD
         if (m2->vector && out->vector){
             gsl_matrix_view mview = gsl_matrix_view_vector(m2->vector, m2->vector->size, 1);
             out->matrix = apop_matrix_stack(out->matrix, &mview.matrix, posn, .inplace='y');
+            if (m2->names && (m2->names->vector || m2->names->colct))
+                for (int k = out->names->colct; k < msize2; k++) //keep names aligned with columns
+                    apop_name_add(out->names, "", 'c');
             apop_name_stack(out->names, m2->names, 'c', 'v');
             if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            if (m2->names && m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
         }
     }
 
@@ -425,7 +428,7 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
+        int min = posn =='r' ? out->names->rowct : out->names->colct;
         int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
             apop_name_add(out->names, "", posn); 
-- 
2.43.0


From 57f6ae9c7e1061b934b04fa140533ee8eb729499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 008/161] fix: splitting rows failed for sets with only a
 vector or text, and for position 'R' with text

---
 apop_data.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c9138f8..009ae87 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -476,7 +476,7 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
      if (r_or_c == 'r' || r_or_c == 'R') {
         if (splitpoint <=0)
             out[1]  = apop_data_copy(in);
-        else if (in->matrix && splitpoint >= in->matrix->size1)
+        else if (splitpoint >= (in->matrix ? in->matrix->size1 : in->vector ? in->vector->size : in->textsize[0]))
             out[0]  = apop_data_copy(in);
         else {
             namev0  =
@@ -602,7 +602,7 @@ allocation:
         if (namec1 && out[1]) apop_name_stack(out[1]->names, in->names, 'c');
     }
     //finally, the text [split by rows only]
-    if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
+    if ((r_or_c=='r' || r_or_c=='R') && in->textsize[0] && in->textsize[1]){
         apop_name_stack(out[1]->names, in->names, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
-- 
2.43.0


From d9b477dc4a7aa8e3b5ea181e3f62e2d8cc338cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 009/161] fix: pruning columns read past the names when some
 columns are unnamed

---
 apop_data.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 009ae87..7c7fa60 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -725,7 +725,9 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     find each element of the list, using that "" as a stopper, and then call apop_data_rm_columns.*/
     Apop_stopif(!d, return NULL, 1, "You're asking me to prune a NULL data set; returning.");
     Apop_stopif(!d->matrix, return d, 1, "You're asking me to prune a data set with NULL matrix; returning.");
-    int rm_list[d->names->colct];
+    int list_size = GSL_MAX(d->names->colct, (int)d->matrix->size2);
+    int rm_list[list_size];
+    for (int i=0; i< list_size; i++) rm_list[i] = 1; //unnamed columns can't be in the list to keep
     int keep_count = 0;
     char **name_step = colnames;
     //to throw errors for typos (and slight efficiency gains), I need an array of whether
-- 
2.43.0


From 73342c670c744ac2347189a4c0124a742f0f9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 010/161] fix: stacking columns overwrote the first vector name
 with the second instead of naming the new column

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 7c7fa60..a6b33b9 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -380,7 +380,7 @@ APOP_VAR_ENDHEAD
             if (m2->names && (m2->names->vector || m2->names->colct))
                 for (int k = out->names->colct; k < msize2; k++) //keep names aligned with columns
                     apop_name_add(out->names, "", 'c');
-            apop_name_stack(out->names, m2->names, 'c', 'v');
+            if (m2->names) apop_name_add(out->names, m2->names->vector, 'c');
             if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
         }
         if (m2->vector && !out->vector) {
-- 
2.43.0


From ecbe69f38439b43c91dce33360beea4e26aaaee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 011/161] fix: sorting: a descending sort broke ties in
 ascending order; equal ranks and blank strings in the sort order, and
 case-insensitive text ties, were mishandled

---
 apop_sort.m4.c | 69 +++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 4486e23..75c55e6 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -4,41 +4,38 @@ Copyright (c) 2013 by Ben Klemens.  Licensed under the GPLv2; see COPYING.  */
 #include "apop_internal.h"
 #include <stdbool.h>
 
-static double find_smallest_larger_than(apop_data const *sort_order, double *x){
-    //the next column in the sort order is the one that is not NAN, greater than x, but smaller than all other candidate values.
+static double text_to_rank(char const *in){
+    if (!in || !*in) return NAN;   //blanks are not sorted.
+    if (apop_opts.nan_string && !strcasecmp(in, apop_opts.nan_string)) return NAN;
+    return atof(in);
+}
+
+static double find_smallest_larger_than(apop_data const *sort_order, double *x, int *x_posn){
+    //the next column in the sort order is the one that is not NAN, and is the smallest among those that
+    //are greater than x, or that tie with x and are at a later position in the default order.
     double candidate_col=-100, candidate_val = INFINITY, v;
-    if (sort_order->vector && !isnan(v=gsl_vector_get(sort_order->vector, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -1;
-    }
+    int posn = 0, candidate_posn = -1;
+    #define Check_candidate(value, col) do {                                             \
+        v = (value); posn++;                                                             \
+        if (!isnan(v) && (v > *x || (v == *x && posn > *x_posn)) && (v < candidate_val || candidate_posn==-1)){ \
+            candidate_val = v;                                                           \
+            candidate_col = (col);                                                       \
+            candidate_posn = posn;                                                       \
+        } } while (0)
+
+    if (sort_order->vector) Check_candidate(gsl_vector_get(sort_order->vector, 0), -1);
     if (sort_order->matrix)
         for (int i=0; i< sort_order->matrix->size2; i++)
-            if (!isnan(v=gsl_matrix_get(sort_order->matrix, 0, i)) 
-                    && v > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i;
-            }
+            Check_candidate(gsl_matrix_get(sort_order->matrix, 0, i), i);
     if (*sort_order->textsize)
         for (int i=0; i< sort_order->textsize[1]; i++)
-            if (apop_opts.nan_string && strcmp(sort_order->text[0][i], apop_opts.nan_string)
-                    && (v=atof(sort_order->text[0][i])) > *x && v < candidate_val){
-                candidate_val = v;
-                candidate_col = i+0.5;
-            }
-    if (sort_order->weights && !isnan(v=gsl_vector_get(sort_order->weights, 0)) 
-            && v > *x && v < candidate_val){
-        candidate_val = v;
-        candidate_col = -2;
-    }
-    if (sort_order->names->rowct)
-        if (apop_opts.nan_string && strcmp(*sort_order->names->row, apop_opts.nan_string)
-                && (v=atof(*sort_order->names->row)) > *x && v < candidate_val){
-            candidate_val = v;
-            candidate_col = 0.2;
-        }
+            Check_candidate(text_to_rank(sort_order->text[0][i]), i+0.5);
+    if (sort_order->weights) Check_candidate(gsl_vector_get(sort_order->weights, 0), -2);
+    if (sort_order->names && sort_order->names->rowct)
+        Check_candidate(text_to_rank(*sort_order->names->row), 0.2);
 
     *x = candidate_val;
+    *x_posn = candidate_posn;
     return candidate_col;
 }
 
@@ -47,8 +44,10 @@ static void generate_sort_order(apop_data const *data, apop_data const *sort_ord
  * 0.2, and the text cols are the column+0.5. How's that for arbitrary. */
     if (sort_order) {
         double x = -INFINITY;
-        for (int i=0; i< cols_to_sort_ct-1; i++)
-            so[i] = find_smallest_larger_than(sort_order, &x);
+        int x_posn = 0;
+        int i = 0;
+        while (i< cols_to_sort_ct-1 && (so[i] = find_smallest_larger_than(sort_order, &x, &x_posn)) != -100) i++;
+        for ( ; i< cols_to_sort_ct-1; i++) so[i] = -100;
     } else {
         int ctr=0;
         if (data->vector) so[ctr++] = -1;
@@ -153,13 +152,15 @@ APOP_VAR_ENDHEAD
 
     apop_data *xx = sort_order ? sort_order : out;
     Get_vmsizes(xx); //firstcol, msize2
-    int cols_to_sort_ct = msize2 - firstcol +1 + !!(xx->weights) + xx->textsize[1] + !!xx->names->rowct;
+    int cols_to_sort_ct = msize2 - firstcol +1 + !!(xx->weights) + xx->textsize[1] + (xx->names && xx->names->rowct);
     double so[cols_to_sort_ct];
     if (!col_order){
         generate_sort_order(out, sort_order, cols_to_sort_ct, so);
         col_order = so;
     }
 
+    if (*col_order == -100) return out;  //no columns to sort by.
+
     bool is_text = ((int)*col_order != *col_order);
     bool is_name = (*col_order == 0.2);
 
@@ -209,7 +210,7 @@ APOP_VAR_ENDHEAD
             double this_val=0;
             if ((i==height || (this_val=gsl_vector_get(thiscol, i)) != last_val) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
             if (last_val != this_val) bottom = i;
             last_val = this_val;
@@ -220,9 +221,9 @@ APOP_VAR_ENDHEAD
             char *this_val = i==height ? NULL : is_name ? out->names->row[i] : out->text[i][(int)(*col_order-0.5)];
             if ((i==height || strcasecmp(this_val, last_val)) 
                     && bottom != i-1){
-                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, 'a', 'y', col_order+1);
+                apop_data_sort_base(Apop_rs(out, bottom, i-bottom), sort_order, asc, 'y', col_order+1);
             }
-            if (this_val && strcmp(last_val, this_val)) bottom = i;
+            if (this_val && strcasecmp(last_val, this_val)) bottom = i;
             free(last_val);
             last_val = this_val ? strdup(this_val) : NULL;
         }
-- 
2.43.0


From e367ff300212dea41a7d28826a5d6e160e83a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 012/161] fix: packing and unpacking: info pages beyond the
 second, "Y", and trailing pages with no numbers were mishandled

---
 apop_conversions.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..11c70bb 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -713,15 +713,15 @@ APOP_VAR_ENDHEAD
         gsl_vector_memcpy(d->weights, &vin);
         offset += d->weights->size;
     }
-    if (offset != in->size && d->more){
+    if (offset < in->size && d->more){
         vin = gsl_vector_subvector((gsl_vector *)in, offset, in->size - offset).vector;
         d = d->more;
-        if (use_info_pages=='n')
-            while (d && apop_regex(d->names->title, "^<.*>$"))
+        if (use_info_pages!='y' && use_info_pages!='Y')
+            while (d && d->names && apop_regex(d->names->title, "^<.*>$"))
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
-        apop_data_unpack(&vin, d);
+        apop_data_unpack(&vin, d, use_info_pages);
     }
 }
 
@@ -795,9 +795,9 @@ APOP_VAR_ENDHEAD
         offset  += in->weights->size;
     }
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
-        while (use_info_pages=='n' && in->more && apop_regex(in->more->names->title, "^<.*>$"))
+        while (use_info_pages!='y' && use_info_pages!='Y' && in->more && in->more->names && apop_regex(in->more->names->title, "^<.*>$"))
             in = in->more;
-        if (in->more){
+        if (in->more && offset < out->size){
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
             apop_data_pack(in->more, &vout, more_pages, use_info_pages);
         }
-- 
2.43.0


From 3515fa16c46da54842e589539d171a15b37adab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 013/161] fix: in-place listwise deletion left the data in
 place when every row was incomplete

---
 apop_missing_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_missing_data.m4.c b/apop_missing_data.m4.c
index 4a77ecc..6c0ce59 100644
--- a/apop_missing_data.m4.c
+++ b/apop_missing_data.m4.c
@@ -70,6 +70,7 @@ APOP_VAR_ENDHEAD
             break;
         }
     if (!not_empty){
+        if (inplace=='y' || inplace=='Y') apop_data_rm_rows(d, marked);
         free(marked);
         return NULL;
     }
-- 
2.43.0


From 9530018bede76364411c65bd3c536286cd992b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 014/161] fix: rank compression ignored min_bins when the data
 had both a vector and a matrix, and expansion crashed without a matrix

---
 apop_conversions.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 11c70bb..487a281 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -264,8 +264,9 @@ APOP_VAR_HEAD apop_data * apop_data_rank_compress (apop_data *in, int min_bins){
     int apop_varad_var(min_bins, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(in);
-    int upper_bound = GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
-                              in->vector ? gsl_vector_max(in->vector) : min_bins);
+    int upper_bound = min_bins;
+    if (in->matrix) upper_bound = GSL_MAX(upper_bound, gsl_matrix_max(in->matrix));
+    if (in->vector) upper_bound = GSL_MAX(upper_bound, gsl_vector_max(in->vector));
     apop_data *out = apop_data_calloc(1, upper_bound+1);
     for (int i=0; i< msize1; i++)
         for (int j=0; j< msize2; j++) 
@@ -284,8 +285,7 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
-    int total_ct = (in->matrix ? apop_matrix_sum(in->matrix) : 0)
-                 + (in->vector ? apop_vector_sum(in->vector) : 0);
+    int total_ct = (in && in->matrix) ? apop_matrix_sum(in->matrix) : 0;
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
-- 
2.43.0


From 000055237db6d3095fe3b0affe9ce9b96ca1ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 015/161] fix: factors and dummies: text with percent signs was
 read as a format; in-place insertion crashed, ignored the removal option and
 the vector; wrong sizes were allocated

---
 apop_regression.m4.c | 55 ++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index ad892ab..9ea0622 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -107,7 +107,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
     for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, telmts[j]);
+        apop_text_set(out, j, 0, "%s", telmts[j]);
     free(telmts);
     return out;
 }
@@ -236,12 +236,12 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
             else {
                 index = elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
-                apop_text_set(*factor_list, index, 0, d->text[i][col]);
+                apop_text_set(*factor_list, index, 0, "%s", d->text[i][col]);
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 apop_data_set(*factor_list, index, -1, index);
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
-                apop_text_set(telmts, 0, index, d->text[i][col]);
+                apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
                 if (dummyfactor == 'd'){
                     out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
                     gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
@@ -334,43 +334,54 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error(d),
+        Apop_stopif((col == -1) && !d->vector, apop_return_data_error(d),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
-        Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error(d),
+        Apop_stopif((col != -1) && (!d->matrix || col >= d->matrix->size2), apop_return_data_error(d),
                                 0, "You asked for the matrix element %i "
-                                "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
+                                "but the data's matrix element has only %zu columns.", col, d->matrix ? d->matrix->size2 : 0);
     } else Apop_stopif(col >= d->textsize[1], apop_return_data_error(d),
                                 0, "You asked for the text element %i but "
                                     "the data's text element has only %zu elements.", col, d->textsize[1]);
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    size_t orig_size = d->matrix ? d->matrix->size1 : 0;
-    int rm_list[orig_size+1];
-    memset (rm_list, 0, (orig_size+1)*sizeof(int)); 
-    if (append =='i'){
+    if (append =='i' && type != 't'){
         apop_data **split = apop_data_split(d, col+1, 'c');
+        apop_data *before = split[0], *after = split[1]; //after==NULL if col is the last one.
+        free(split);
         //stack names, then matrices
         for (int i=0; i < d->names->colct; i++)
             free(d->names->col[i]);
-        apop_name_stack(d->names, split[0]->names, 'c');
-        for (int k = d->names->colct; k < (split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
+        d->names->colct = 0;
+        apop_name_stack(d->names, before->names, 'c');
+        for (int k = d->names->colct; k < (before->matrix ? before->matrix->size2 : 0); k++)
             apop_name_add(d->names, "", 'c'); //pad so the name stacking is aligned (if needed)
         apop_name_stack(d->names, dummies->names, 'c');
-        apop_name_stack(d->names, split[1]->names, 'c');
         gsl_matrix_free(d->matrix);
-        d->matrix = apop_matrix_stack(split[0]->matrix, dummies->matrix, 'c');
+        d->matrix = apop_matrix_stack(before->matrix, dummies->matrix, 'c');
         apop_data_free(dummies);
-        apop_data_free(split[0]);
-        apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
-        apop_data_free(split[1]);
-        return d;
+        apop_data_free(before);
+        if (after){
+            apop_name_stack(d->names, after->names, 'c');
+            apop_matrix_stack(d->matrix, after->matrix, 'c', .inplace='y');
+            apop_data_free(after);
+        }
     }
     if (remove!='n' && type!='t'){
-        rm_list[col]=1;
-        apop_data_rm_columns(d, rm_list);
+        if (col == -1){
+            gsl_vector_free(d->vector);
+            d->vector = NULL;
+            free(d->names->vector);
+            d->names->vector = NULL;
+        } else {
+            int rm_list[d->matrix->size2];
+            memset(rm_list, 0, sizeof(rm_list));
+            rm_list[col]=1;
+            apop_data_rm_columns(d, rm_list);
+        }
     }
+    if (append =='i' && type != 't') return d;
     if (append =='y' || append == 'e' || append ==1 || (append=='i' && type=='t')){
         d = apop_data_stack(d, dummies, 'c', .inplace='y');
         apop_data_free(dummies);
@@ -441,9 +452,9 @@ APOP_VAR_ENDHEAD
                             "the matrix has only %zu elements.", incol, data->matrix->size2);
     }
     if (!data->vector && outcol == -1) //allocate a vector for the user.
-        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size2);
+        data->vector = gsl_vector_alloc(intype=='t' ? data->textsize[0] : data->matrix->size1);
     if (!data->matrix && outcol >= 0) //allocate a matrxi for the user.
-        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->matrix->size2, outcol+1);
+        data->matrix = gsl_matrix_calloc(intype=='t' ? data->textsize[0] : data->vector->size, outcol+1);
     apop_data *out;
     dummies_and_factors_core(data, incol, intype, 1, outcol, 'f', &out);
     return out;
-- 
2.43.0


From f13dfdeb4cd5c3a3ca67933b2e9dd98f57a8e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 016/161] fix: copying untitled names produced the title
 "(null)"; stacking onto the vector name used the wrong list

---
 apop_name.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..8a531cb 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -158,7 +158,7 @@ APOP_VAR_HEAD void  apop_name_stack(apop_name * n1, apop_name *nadd, char type1,
 APOP_VAR_ENDHEAD
     int i;
     apop_name counts = (apop_name){.rowct=nadd->rowct, .textct = nadd->textct, .colct = nadd->colct};//Necessary when stacking onto self.;
-    if (typeadd == 'v')
+    if (type1 == 'v' || typeadd == 'v')
         apop_name_add(n1, nadd->vector, 'v');
     else if (typeadd == 'r')
         for (i=0; i< counts.rowct; i++)
@@ -193,7 +193,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in) apop_name_add(out, in->title, 'h');
     return out;
 }
 
-- 
2.43.0


From fb75ed55dc6ed6d65c23b1a7b43c22565b8a4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 017/161] fix: a regular expression matching the empty string
 looped forever when asked for substrings

---
 apop_asst.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..95e2100 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -282,6 +282,7 @@ APOP_VAR_ENDHEAD
                 } //else matches nothing; apop_text_alloc already made this cell this NULL.
             }
             string += result[0].rm_eo; //end of whole match;
+            if (result[0].rm_eo == result[0].rm_so && *string) string++; //empty match: advance, else we would find it forever.
             matchrow++;
         }
     } while (substrings && found && string[0]!='\0');
-- 
2.43.0


From 58e5548d3e3206fdd498721e5669ef4b9677ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 018/161] fix: categories of an unnamed text column were filed
 under the name of a matrix column

---
 apop_regression.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 9ea0622..52e7493 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -116,6 +116,7 @@ static char *apop_get_factor_basename(apop_data *d, int col, char type){
     char *name;
     char *catname =   d->names == NULL ? NULL
                     : type == 't' && d->names && d->names->textct > col ? d->names->text[col]
+                    : type == 't'                                       ? NULL
                     : col == -1 && d->names && d->names->vector         ? d->names->vector
                     : col >=0 && d->names && d->names->colct > col      ? d->names->col[col]
                     : NULL;
-- 
2.43.0


From 437264034c07e3c78ba39c29ef4461102d46df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 019/161] fix: the determinant of a non-square matrix crashed,
 and asking only for an inverse returned NaN instead of zero

---
 apop_linear_algebra.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index e2f1c26..f19c84b 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -38,9 +38,9 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
-    Set_gsl_handler
-    Apop_stopif(in->size1 != in->size2, *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
+    Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
+    Set_gsl_handler
     int sign;
     double the_determinant = GSL_NAN;
 	gsl_matrix *invert_me = gsl_matrix_alloc(in->size1, in->size1);
@@ -51,8 +51,7 @@ double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, in
 		*out = gsl_matrix_alloc(in->size1, in->size1); //square.
 		Check_gsl_with_outmp(gsl_linalg_LU_invert(invert_me, perm, *out))
     }
-	if (calc_det)
-		the_determinant	= gsl_linalg_LU_det(invert_me, sign);
+    the_determinant = calc_det ? gsl_linalg_LU_det(invert_me, sign) : 0;
     done:
 	gsl_matrix_free(invert_me);
 	gsl_permutation_free(perm);
-- 
2.43.0


From 7da68893e7a6c78e0f2b751ee524de1119140fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 020/161] fix: weighted variance, covariance, skew and kurtosis
 were wrong when the weights sum to one

---
 apop_stats.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..9499fac 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -67,8 +67,7 @@ static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int expo
         sumcu+= ww * gsl_pow_int(vv - mu, exponent); 
         wsum += ww; 
     }
-    double len = wsum < 1.1 ? w->size : wsum;
-    return sumcu/len;
+    return sumcu/wsum;
 }
 
 /** Returns the population skew \f$(\sum_i (x_i - \mu)^3/n))\f$ of the data in the given vector. Observations may be weighted.
@@ -521,7 +520,7 @@ APOP_VAR_END_HEAD
         wsum  += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len - gsl_pow_2(sum/len)) * len/(len -1.);
+    return (sumsq/wsum - gsl_pow_2(sum/wsum)) * len/(len -1.);
 }
 
 /** Find the sample covariance of a pair of vectors, with an optional weighting. This only
@@ -558,7 +557,7 @@ APOP_VAR_ENDHEAD
         wsum += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len  - sum1*sum2/gsl_pow_2(len)) *(len/(len-1));
+    return (sumsq/wsum  - sum1*sum2/gsl_pow_2(wsum)) *(len/(len-1));
 }
 
 /** Returns the sample variance/covariance matrix relating each column of the matrix to each other column.
-- 
2.43.0


From 3905e9cd48526fd97e8105ed11d45b8721398cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 021/161] fix: the multivariate gamma function missed poles
 when the dimension is even

---
 apop_stats.m4.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9499fac..45d67ed 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -783,8 +783,16 @@ Because \f$\Gamma(x)\f$ is undefined for \f$x\in\{0, -1, -2, ...\}\f$, this func
 
 See also \ref apop_multivariate_lngamma, which is more numerically stable in most cases.
 */
+static int mv_gamma_pole(double a, int p){ //is any a+(1-j)/2, j=1..p, in {0, -1, -2, ...}?
+    for (int j=1; j<=p; j++){
+        double x = a+(1-j)/2.;
+        if (x <= 0 && x == floor(x)) return 1;
+    }
+    return 0;
+}
+
 long double apop_multivariate_gamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    Apop_stopif(mv_gamma_pole(a, p), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for some j in 1..p [you sent a=%g, p=%i]", a, p);
     long double out = pow(M_PI, p*(p-1.)/4.);
     long double factor = 1;
     for (int i=1; i<=p; i++)
@@ -796,7 +804,7 @@ long double apop_multivariate_gamma(double a, int p){
  \ref apop_multivariate_gamma.
 */
 long double apop_multivariate_lngamma(double a, int p){
-    Apop_stopif(-(a+(1-p)/2) == (int)-(a+(1-p)/2) && a+(1-p)/2 <=0, return NAN, 1, "Undefined when a + (1-p)/2 = 0, -1, -2, ... [you sent a=%g, p=%i]", a, p);
+    Apop_stopif(mv_gamma_pole(a, p), return NAN, 1, "Undefined when a + (1-j)/2 = 0, -1, -2, ... for some j in 1..p [you sent a=%g, p=%i]", a, p);
     long double out = M_LNPI * p*(p-1.)/4.;
     for (int i=1; i<=p; i++)
         out += gsl_sf_lngamma(a+(1-i)/2.);
-- 
2.43.0


From 8828c8f0c23109d5f033789a0b8758f71c024cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 022/161] fix: a moving average wider than the vector asked for
 a negative number of elements

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 74ac092..1ceb4ce 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -368,7 +368,7 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
     int halfspan = bandwidth/2;
-    Apop_stopif((v->size - halfspan*2)<=0, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
+    Apop_stopif(v->size <= halfspan*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
         double *item = gsl_vector_ptr(vout, i);
-- 
2.43.0


From f8c396907094723ad929d16af3064c4c3a3b69ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 023/161] fix: the Beta log likelihood counted data outside
 [0,1] as possible

---
 model/apop_beta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index a8b55bd..56b09e0 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -45,7 +45,7 @@ typedef struct{
 
 static double betamap(double x, void *abin) {
     ab_type *ab = abin; 
-    return (x < 0 || x > 1) ? 0
+    return (x < 0 || x > 1) ? -INFINITY
                 : (ab->alpha-1) * log(x) + (ab->beta-1) *log(1-x); 
 }
 
-- 
2.43.0


From 85d8931df3b1f86c3cd5d646074cfecc2e768cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 024/161] fix: exponential estimate uses the vector and the
 matrix

---
 model/apop_exponential.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_exponential.c b/model/apop_exponential.c
index 2bc414b..8684fa3 100644
--- a/model/apop_exponential.c
+++ b/model/apop_exponential.c
@@ -50,8 +50,8 @@ static void exponential_estimate(apop_data * data,  apop_model *est){
     apop_score_vtable_add(exponential_dlog_likelihood, apop_exponential);
     apop_name_add(est->parameters->names, "μ", 'r');
     Get_vmsizes(data); //msize1, msize2, vsize, tsize
-    double mu =  (vsize ? vsize * apop_vector_mean(data->vector):0
-                + msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0)/tsize;
+    double mu =  ((vsize ? vsize * apop_vector_mean(data->vector):0)
+                + (msize1 ? msize1*msize2 * apop_matrix_mean(data->matrix):0))/tsize;
 	gsl_vector_set(est->parameters->vector, 0, mu);
     apop_data_add_named_elmt(est->info, "log likelihood", exponential_log_likelihood(data, est));
 }
-- 
2.43.0


From 2a329cce299473c17e5fbc3d24c625e11c199720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 025/161] fix: Poisson score counts data in the vector

---
 model/apop_poisson.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_poisson.c b/model/apop_poisson.c
index f2d50f8..9dbb2c7 100644
--- a/model/apop_poisson.c
+++ b/model/apop_poisson.c
@@ -67,8 +67,8 @@ static void poisson_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_mod
     Get_vmsizes(d) //tsize
     Nullcheck_mpd(d, p, )
     double     lambda = apop_data_get(p->parameters);
-    gsl_matrix *data = d->matrix;
-    double     d_a = apop_matrix_sum(data)/lambda - tsize;
+    double     sum = (d->matrix ? apop_matrix_sum(d->matrix) : 0) + (d->vector ? apop_sum(d->vector) : 0);
+    double     d_a = sum/lambda - tsize;
     gsl_vector_set(gradient,0, d_a);
 }
 
-- 
2.43.0


From 62b0e6ab8dd504255762f7e6dac96dd6c1255f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 026/161] fix: Normal variance estimate for data in both the
 vector and the matrix

---
 model/apop_normal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 54e4297..5f088d0 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -67,8 +67,11 @@ void get_mu_var(apop_data *data, double *mu_out, double *var_out){
     else if (!vsize && msize1)  *var_out = mvar;
     else {
         long double vv=0;
-        for (int i=-1; i< msize2; i++)
-            vv += gsl_pow_2(apop_data_get(data, i) - *mu_out);
+        for (int i=0; i< vsize; i++)
+            vv += gsl_pow_2(gsl_vector_get(data->vector, i) - *mu_out);
+        for (int i=0; i< msize1; i++)
+            for (int j=0; j< msize2; j++)
+                vv += gsl_pow_2(gsl_matrix_get(data->matrix, i, j) - *mu_out);
         *var_out = vv/tsize;
     }
 }
-- 
2.43.0


From 16b2c285a3375bbfd80f1f735dd740589b9bef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 027/161] fix: Normal covariance page reports the variance of
 the mean

---
 model/apop_normal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 5f088d0..19afe32 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -92,7 +92,7 @@ static void normal_estimate(apop_data * data, apop_model *est){
 	if (!p || p->want_cov=='y'){
         apop_data *cov = apop_data_get_page(est->parameters, "<Covariance>");
         if (!cov) cov = apop_data_add_page(est->parameters, apop_data_calloc(2, 2), "<Covariance>");
-        apop_data_set(cov, 0, 0, mean/tsize);
+        apop_data_set(cov, 0, 0, var/tsize);
         apop_data_set(cov, 1, 1, 2*gsl_pow_2(var)/(tsize-1));
     }
     est->data = data;
-- 
2.43.0


From 72af2d29b0dd3dec1a6b129e9e050439e70c8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 028/161] fix: Normal prediction reports the variance of the
 mean, not its standard deviation

---
 model/apop_normal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 19afe32..3e5e136 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -130,7 +130,7 @@ apop_data * normal_predict(apop_data *dummy, apop_model *m){
     if (!cov) cov = apop_data_add_page(out, apop_data_alloc(1,1), "<Covariance>");
     if (m->data){
            Get_vmsizes(m->data) //tsize
-           cov->matrix->data[0] = m->parameters->vector->data[1]/ sqrt(tsize);
+           cov->matrix->data[0] = gsl_pow_2(m->parameters->vector->data[1])/tsize;
     } else cov->matrix->data[0] = 0;
     return out;
 }
-- 
2.43.0


From e4820ed4148f7dc7694b50312e95e9ac2f46716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 029/161] fix: register the Lognormal prediction function

---
 model/apop_normal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_normal.c b/model/apop_normal.c
index 3e5e136..f7d06a5 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -246,6 +246,7 @@ static int lognormal_rng(double *out, gsl_rng *r, apop_model *p){
 
 static void lognormal_prep(apop_data *data, apop_model *params){
     apop_score_vtable_add(lognormal_dlog_likelihood, apop_lognormal);
+    apop_predict_vtable_add(lognormal_predict, apop_lognormal);
     apop_model_clear(data, params);
 }
 
-- 
2.43.0


From 9c0c0f8ef334a0a383e6eef9830fd1d9749013c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 030/161] fix: Gamma estimate measures variance across the
 vector and the matrix together

---
 model/apop_gamma.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/model/apop_gamma.c b/model/apop_gamma.c
index 82c5e43..f1527bd 100644
--- a/model/apop_gamma.c
+++ b/model/apop_gamma.c
@@ -93,16 +93,11 @@ static void gamma_prep(apop_data *data, apop_model *params){
    so a = E^2/var
       b = var/E
 */
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //in apop_normal.c
+
 static void gamma_est(apop_data *data, apop_model *m){
-    Get_vmsizes(data)
-    double mmean=0, mvar=0, vmean=0, vvar=0;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1) apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);
-    double mean = mmean *(msize1*msize2/(tsize+0.0)) + vmean *(vsize/(tsize+0.0));
-    double var = mvar *(msize1*msize2/(tsize+0.0)) + vvar *(vsize/(tsize+0.0));
+    double mean, var;
+    get_mu_var(data, &mean, &var);
     apop_data_set(m->parameters, 0, .val=gsl_pow_2(mean)/var);
     apop_data_set(m->parameters, 1, .val=var/mean);
 }
-- 
2.43.0


From f492c0ee26ea213f2ed7486d8b9d284e2d134955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 031/161] fix: Beta estimate uses the vector and the matrix
 together

---
 model/apop_beta.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 56b09e0..79e7e19 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -14,20 +14,13 @@ may also find \ref apop_beta_from_mean_var to be useful.
 #include "apop_internal.h"
 
 static long double beta_log_likelihood(apop_data *d, apop_model *p);
+void get_mu_var(apop_data *data, double *mu_out, double *var_out); //in apop_normal.c
 
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void beta_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
-    Get_vmsizes(data) //vsize, msize1,...
-    double		mmean=0, mvar=0, vmean=0, vvar=0, alpha, beta;
-    if (vsize){
-        vmean = apop_mean(data->vector);
-        vvar = apop_var(data->vector);
-    }
-    if (msize1)
-        apop_matrix_mean_and_var(data->matrix, &mmean, &mvar);	
-    double mean = mmean *(msize1*msize2/tsize) + vmean *(vsize/tsize);
-    double var = mvar *(msize1*msize2/tsize) + vvar *(vsize/tsize);
+    double mean, var, alpha, beta;
+    get_mu_var(data, &mean, &var);
     apop_data_add_names(est->parameters, 'r', "α", "β");
     alpha   = gsl_pow_2(mean) * ((1-mean)/var - 1/mean);
     beta    = alpha * (1-mean)/mean;
-- 
2.43.0


From 27c485c4c509a46b76e3005b16bb27d847254bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 032/161] fix: t estimate takes the sum of squares over the
 whole data set

---
 model/apop_t.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model/apop_t.c b/model/apop_t.c
index 2da62c7..45dbbb0 100644
--- a/model/apop_t.c
+++ b/model/apop_t.c
@@ -9,15 +9,17 @@ static void apop_t_estimate(apop_data *d, apop_model *m){
     Apop_stopif(!d, m->error='d'; return, 0, "No data with which to count df. (the default estimation method)");
     Get_vmsizes(d); //vsize, msize1, msize2, tsize
     double vmu = vsize ? apop_mean(d->vector) : 0;
-    double v_sum_sq = vsize ? apop_var(d->vector)*(vsize-1) : 0;
+    double v_sum_sq = vsize > 1 ? apop_var(d->vector)*(vsize-1) : 0;
     double m_sum_sq = 0;
     double mmu = 0;
    if (msize1) {
        apop_matrix_mean_and_var(d->matrix, &mmu, &m_sum_sq);
-       m_sum_sq *= msize1*msize2-1;
+       m_sum_sq *= msize1*msize2; //undo the division by n
    }
-    apop_data_add_named_elmt(m->parameters, "μ", (vmu *vsize + mmu * msize1*msize2)/tsize);
-    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * (v_sum_sq + m_sum_sq)/(tsize-1))); 
+    double mu = (vmu *vsize + mmu * msize1*msize2)/tsize;
+    double sum_sq = v_sum_sq + m_sum_sq + vsize*gsl_pow_2(vmu-mu) + msize1*msize2*gsl_pow_2(mmu-mu);
+    apop_data_add_named_elmt(m->parameters, "μ", mu);
+    apop_data_add_named_elmt(m->parameters, "σ", sqrt(((tsize-3.)/(tsize-1)) * sum_sq/(tsize-1))); 
     apop_data_add_named_elmt(m->parameters, "df", tsize-1);
     apop_data_add_named_elmt(m->info, "log likelihood", m->log_likelihood(d, m));
 }
-- 
2.43.0


From 1b5dbeacad94042062ace855465f0497fc954519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 033/161] fix: multinomial likelihood treated any two-draw
 model as a binomial

---
 model/apop_multinomial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 36990f7..32bbfdf 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -105,7 +105,7 @@ static long double multinomial_log_likelihood(apop_data *d, apop_model *params){
                     "representing [n, p_1, (...)].");
     Apop_assert_c(pv[1] <=1, GSL_NAN, 1, "The input parameters should be [n, p_1, (...)], but "
         "element 1 of the parameter vector is >1."); //mostly makes sense for the binomial.
-    if (n==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
+    if (params->parameters->vector->size==2) return apop_map_sum(d, .fn_vp=binomial_ll, .param=params->parameters->vector);
 
     pv[0] = 1 - (apop_sum(params->parameters->vector)-n);//making the params a p-vector. Put n back at the end.
     double out = apop_map_sum(d, .fn_vp=multinomial_ll, .param=params);
-- 
2.43.0


From 6748947e11e1031e8850d371cfc3d4ede7ca27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 034/161] fix: multinomial estimate reported the number of
 draws as the size of an observation

---
 model/apop_multinomial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 32bbfdf..388a5cf 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -184,7 +184,7 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
         sprintf(name, "p%i", i);
         apop_name_add(est->parameters->names, name, 'r');
     }
-    est->dsize = n;
+    if (est->dsize != 1) est->dsize = v->size; //the binomial's draw is a scalar
     make_covar(est);
     apop_data_add_named_elmt(est->info, "log likelihood", multinomial_log_likelihood(data, est));
 }
-- 
2.43.0


From 1cd2537a4c87e1f9df968f1c3b35c87706bd7b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 035/161] fix: binomial draw is the number of successes, a
 scalar

---
 model/apop_multinomial.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 388a5cf..591d8a4 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -134,8 +134,12 @@ static int multinomial_rng(double *out, gsl_rng *r, apop_model* est){
     int N = p[0];
 
     if (est->parameters->vector->size == 2) {
-        *out = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
-        out[1] = N-*out;
+        int misses = gsl_ran_binomial_knuth(r, 1-gsl_vector_get(est->parameters->vector, 1), N);
+        if (est->dsize == 1) *out = N - misses; //a Binomial: report hits only.
+        else {
+            out[0] = misses;
+            out[1] = N - misses;
+        }
         goto done;
     }
     //else, multinomial
-- 
2.43.0


From 89d3b843ea62070690295508eb5efb53764d06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 036/161] fix: dropping from a vtable read past its end

---
 apop_vtables.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index da4a4b1..455d9d1 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -56,7 +56,7 @@ int apop_vtable_drop(char const *tabname, unsigned long hash){
     lock
     for (int i=0; i< v->elmt_ct; i++)
         if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i));
+            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
             v->elmt_ct--;
             unlock
             return 0;
-- 
2.43.0


From 22612b6333dde90f31db30ce8f21a26c9f9922d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 037/161] fix: parameter model passed a variance as the
 Normal's standard deviation

---
 apop_model.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index ad03cd3..2bfd327 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -370,7 +370,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
         else {
             apop_model *out2 = apop_model_set_parameters(apop_normal, 
                     apop_data_get(out->parameters, settings->index, -1), //mean
-                    apop_data_get(out->parameters, settings->index, settings->index)//var
+                    sqrt(apop_data_get(out->parameters, settings->index, settings->index)) //sd
                     );
             apop_model_free(out);
             return out2;
-- 
2.43.0


From 7b998f48ad201deaa6b6db7f7075ed92bfcc130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 038/161] fix: mapping by column put no names on the output

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..fb1dd60 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -177,7 +177,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From 1b41d6df22a25db4514f3e050f24b2ad52f88a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 039/161] fix: mapping over all pages without output
 dereferenced NULL

---
 apop_mapply.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index fb1dd60..b03a90c 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -210,7 +210,9 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        apop_data *next = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (!out) return next; //inplace=='v'; any return is an error marker.
+        out->more = next;
         Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
-- 
2.43.0


From 52d3f01fa145d4d6dc4539f6d5ae46776e94a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 040/161] fix: mapping rows or columns in place wrote past a
 vector of another size

---
 apop_mapply.m4.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index b03a90c..413c5ef 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -159,9 +159,13 @@ APOP_VAR_ENDHEAD
                      : part == 'a' ? apop_data_alloc(vsize, msize1, msize2)
                      : part == 'r' ? apop_data_alloc(maxsize)
                      : part == 'c' ?  apop_data_alloc(msize2) : NULL;
-    Apop_stopif(inplace=='y' && (part=='r'||part=='c') && !in->vector, in->vector=gsl_vector_alloc(maxsize), 2, 
+    if (inplace=='y' && (part=='r'||part=='c') && in->matrix && !by_apop_rows){
+        int outsize = part=='r' ? msize1 : msize2;
+        Apop_stopif(!in->vector, in->vector=gsl_vector_alloc(outsize), 2, 
                             "No vector in your input data set for me to write outputs to; "
-                            "allocating one for you of size %i", maxsize);
+                            "allocating one for you of size %i", outsize);
+        if (vsize && vsize != outsize) in->vector = apop_vector_realloc(in->vector, outsize);
+    }
     if (in->names && out && !(inplace=='y')){
         if (part == 'v'  || (in->vector && ! in->matrix)) {
              apop_name_stack(out->names, in->names, 'v');
-- 
2.43.0


From d64130e65ff36f9a8b7a41620cae04131f9b2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 041/161] fix: multinomial parameters are named n, p1, ..., not
 after the data columns

---
 model/apop_multinomial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/apop_multinomial.c b/model/apop_multinomial.c
index 591d8a4..2182760 100644
--- a/model/apop_multinomial.c
+++ b/model/apop_multinomial.c
@@ -178,6 +178,8 @@ static void multinomial_estimate(apop_data * data,  apop_model *est){
     Nullcheck_mpd(data, est, );
     Get_vmsizes(data); //vsize, msize1
     est->parameters= apop_map(data, .fn_v=avs, .part='c');
+    apop_name_free(est->parameters->names); //use the names below, not the data's column names.
+    est->parameters->names = apop_name_alloc();
     gsl_vector *v = est->parameters->vector;
     int n = apop_sum(v)/data->matrix->size1; //size of one row
     apop_vector_normalize(v);
-- 
2.43.0


From 28c5e917e45a1798aed9ccb7b41f1c0615174cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 042/161] fix: error codes returned on data sets were all the
 letter E

---
 apop.m4.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index e637e70..fcdc3b9 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,8 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error='E'; return out;}
+//The code may be given as a bare letter or as a character constant.
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=(#E)[(#E)[0]=='\'']; return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
-- 
2.43.0


From 84754cf4adbe5043eb650ca21519cbfe56c87bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 043/161] fix: apop_model_draws returned error codes other than
 those documented

---
 apop_asst.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 95e2100..28cbbe6 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -405,17 +405,17 @@ Here is a two-line program to draw a different set of ten Standard Normals on ev
 */
 APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_data *draws){
     apop_model * apop_varad_var(model, NULL);
-    Apop_stopif(!model, apop_return_data_error(n), 0, "Input model is NULL.");
-    Apop_stopif(!model->dsize, apop_return_data_error(n), 0, "Input model has dsize==0.");
+    Apop_stopif(!model, apop_return_data_error(m), 0, "Input model is NULL.");
+    Apop_stopif(!model->dsize, apop_return_data_error(m), 0, "Input model has dsize==0.");
     apop_data * apop_varad_var(draws, NULL);
     int apop_varad_var(count, 1000);
     if (draws) {
         Apop_stopif(!draws->matrix, draws->error='m'; return draws, 1, "Input data set's matrix is NULL.");
-        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; draws->error='m'; return draws,
+        Apop_stopif((int)draws->matrix->size2 < model->dsize, draws->error='s'; return draws,
                 1, "Input data set's matrix column count is less than model->dsize.");
         count = draws->matrix->size1;
     } else
-        Apop_stopif(model->dsize<=0, apop_return_data_error(n), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
+        Apop_stopif(model->dsize<=0, apop_return_data_error(m), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
 APOP_VAR_ENDHEAD
     apop_data *out = draws ? draws : apop_data_alloc(count, model->dsize);
 
-- 
2.43.0


From 6a0d24abb9edf7fc422aa110bfa5ca33026c2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 044/161] fix: text read from the database was used as a printf
 format; a blank row name shifted the names after it

---
 apop_db_sqlite.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..550516d 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -180,6 +180,9 @@ typedef struct {    //for the apop_query_to_... functions.
 } callback_t;
 /** \endcond */
 
+//What to write for a NULL field.
+#define Blank_name (apop_opts.nan_string ? apop_opts.nan_string : "NaN")
+
 //This is the callback for apop_query_to_text.
 static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     callback_t *qi= qinfo;
@@ -199,11 +202,10 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
     apop_text_alloc(d, rows+1, cols);//doesn't move d.
     for (size_t jj=0; jj<argc; jj++)
         if (jj == qi->namecol){
-            apop_name_add(d->names, argv[jj], 'r'); 
+            apop_name_add(d->names, argv[jj] ? argv[jj] : Blank_name, 'r'); 
             ncshift ++;
         } else {
-            apop_text_set(d, rows, jj-ncshift, (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
-            //Asprintf(&(d->text[rows][jj-ncshift]), "%s", (argv[jj]==NULL)? "NaN": argv[jj]);
+            apop_text_set(d, rows, jj-ncshift, "%s", argv[jj] ? argv[jj] : Blank_name);
             if(addnames)
                 apop_name_add(d->names, column[jj], 't'); 
         }
-- 
2.43.0


From 96894bc91cadee98ebb2142bdacd07f55e938b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 045/161] fix: querying a blank row name to a data set shifted
 the names after it

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index fe7243f..9df7e25 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -292,7 +292,7 @@ static int db_to_table(void *qinfo, int argc, char **argv, char **column){
                  ? GSL_NAN : atof(argv[jj]);
             gsl_matrix_set(qi->outdata->matrix,qi->currentrow,jj-ncfound, valor);
         } else {
-            apop_name_add(qi->outdata->names, argv[jj], 'r');
+            apop_name_add(qi->outdata->names, argv[jj] ? argv[jj] : Blank_name, 'r');
             ncfound = 1;
         }
     (qi->currentrow)++;
-- 
2.43.0


From 7e3bae5f1e042919eadd18fa83bc421011846ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 046/161] fix: apop_query_to_vector crashed on a failed query,
 or one with only row names

---
 apop_db.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 9df7e25..23d7d05 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -376,7 +376,9 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
     Store_settings
 	d	= apop_query_to_data("%s", query);
     Restore_settings
-    Apop_stopif(!d, return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(!d, free(query); return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(d->error, apop_data_free(d); free(query); return NULL, 0, "Query [%s] failed. Returning NULL.", query);
+    Apop_stopif(!d->matrix, apop_data_free(d); free(query); return NULL, 2, "Query [%s] turned up no columns. Returning NULL.", query);
     //else:
     out = gsl_vector_alloc(d->matrix->size1);
 	gsl_matrix_get_col(out, d->matrix, 0);
-- 
2.43.0


From d08dbdd58006901d17d414e4803571a7732130c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 047/161] fix: a mixed query with more columns than types read
 past the list of types; one with fewer or more stopped after the first row

---
 apop_db_sqlite.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 550516d..424ae40 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -256,10 +256,17 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
     char c;
     int thistcol    = 0, 
         thismcol    = 0,
-        colct       = 0,
         i, addnames = 0;
     in->thisrow ++;
+    int requested = in->intypes[0]+in->intypes[1]+in->intypes[2]+in->intypes[3]+in->intypes[4];
     if (!in->d) {
+        if (argc != requested){
+            in->error_thrown = 'd';
+            Apop_notify(1, "you asked for %i columns in your list of types(%s), but your query produced %i columns. "
+                "Any remainder will be placed in the text section. Output data set's ->error element set to 'd'.", requested, in->instring, argc);
+        }
+        int listed = strlen(in->instring);
+        if (argc > listed) in->intypes[3] += argc - listed;
         in->d = in->intypes[2]
                 ? apop_data_alloc(in->intypes[1], 1, in->intypes[2])
                 : apop_data_alloc(in->intypes[1]);
@@ -281,7 +288,7 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
     for (i=in->current=0; i< argc; i++){
-        c   = in->instring[in->current++];
+        c   = in->instring[in->current] ? in->instring[in->current++] : 't';
         if (c=='n'||c=='N'){
             apop_name_add(in->d->names, (argv[i]? argv[i] : "NaN")  , 'r'); 
             if(addnames)
@@ -307,12 +314,7 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
             gsl_vector_set(in->d->weights, in->thisrow-1, 
                                     argv[i] ? atof(argv[i]) : GSL_NAN);
         }
-        colct++;
     }
-    int requested = in->intypes[0]+in->intypes[1]+in->intypes[2]+in->intypes[3]+in->intypes[4];
-      Apop_stopif(colct != requested, in->error_thrown='d'; return 1, 1, 
-      "you asked for %i columns in your list of types(%s), but your query produced %u columns. "
-      "The remainder will be placed in the text section. Output data set's ->error element set to 'd'." , requested, in->instring, colct);
     return 0;
 }
 
@@ -324,8 +326,7 @@ apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
     count_types(&info, intypes);
 	if (!db) apop_db_open(NULL);
     sqlite3_exec(db, query, multiquery_callback, &info, &err); 
-    Apop_stopif(info.error_thrown, if (!info.d) apop_data_alloc(); info.d->error='d'; return info.d,
-            0, "dimension error");
     ERRCHECK_SET_ERROR(info.d)
+    if (info.error_thrown) info.d->error = info.error_thrown;
 	return info.d;
 }
-- 
2.43.0


From 4177506555d15168bbf1d0962ec45dbb496cccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 048/161] fix: text cells with no column in a mixed query held
 wild pointers

---
 apop_db_sqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index 424ae40..d58adef 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -7,6 +7,7 @@ Copyright (c) 2006--2007 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 #include <string.h>
 
 sqlite3	*db=NULL;	                //There's only one SQLite database handle. Here it is.
+extern char *apop_nul_string;
 
 
 
@@ -284,6 +285,7 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
         in->d->textsize[0]         = in->thisrow;
         in->d->text                = realloc(in->d->text, sizeof(char ***)*in->thisrow);
         in->d->text[in->thisrow-1] = malloc(sizeof(char**) * in->d->textsize[1]);
+        for (i=0; i< in->d->textsize[1]; i++) in->d->text[in->thisrow-1][i] = apop_nul_string;
     }
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
-- 
2.43.0


From e34c8c8c565a372c2b6e395592e6a79adb28c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 049/161] fix: tables written from uneven, partly named, or
 text-only data had shifted or missing columns and rows

---
 apop_db.m4.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 23d7d05..372ae77 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -495,29 +495,33 @@ static void add_a_number (char **q, char *comma, double v){
     *comma = ',';
 }
 
-static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
+static int run_prepared_statements(apop_data const *set, int use_row, sqlite3_stmt *p_stmt){
 #if SQLITE_VERSION_NUMBER < 3003009
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
-    Get_vmsizes(set) //firstcol, msize1, maxsize
+    Get_vmsizes(set) //firstcol, msize1, maxsize, wsize
+    if (maxsize < wsize) maxsize = wsize;
     for (size_t row=0; row < maxsize; row++){
         size_t field =1;
-        if (set->names && set->names->rowct>row){
-            if (!strlen(set->names->row[row])) field++; //leave NULL and cleared
-            Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
+        //Fields not bound here, because they are blank or this part of the data is too short, are NULL.
+        if (use_row && set->names->rowct>row && strlen(set->names->row[row]))
+            Apop_stopif(sqlite3_bind_text(p_stmt, field, set->names->row[row], -1, SQLITE_TRANSIENT),
                     return -1, apop_errorlevel, 
                     "Something wrong with the row name for line %zu, [%s].\n" , row, set->names->row[row]);
-        }
-        if (set->vector && set->vector->size > row)
+        field += !!use_row;
+        if (set->vector && set->vector->size <= row) field++;
+        else if (set->vector)
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, -1)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the vector element on line %zu, [%g].\n" ,row,  apop_data_get(set, row, -1));
-        if (msize1 > row)
+        if (msize1 <= row) field += msize2;
+        else
             for (size_t col=0; col < msize2; col++)
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, col)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the matrix element %zu on line %zu, [%g].\n" ,col, row,  apop_data_get(set, row, col));
-        if (*set->textsize > row)
+        if (*set->textsize <= row) field += set->textsize[1];
+        else
             for (size_t col=0; col < set->textsize[1]; col++){
                 if (!strlen(set->text[row][col]) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
                     {field++; continue;} //leave NULL and cleared
@@ -547,8 +551,11 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     char *q;
     char comma = ' ';
     int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names
+                && set->names->rowct
                 && ((set->matrix && set->names->rowct == set->matrix->size1)
-                    || (set->vector && set->names->rowct == set->vector->size));
+                    || (set->vector && set->names->rowct == set->vector->size)
+                    || (set->textsize[0] && set->names->rowct == set->textsize[0])
+                    || (set->weights && set->names->rowct == set->weights->size));
 
     if (!apop_opts.db_engine) get_db_type();
     if (apop_table_exists(tabname))
@@ -627,7 +634,8 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     }
 
     Get_vmsizes(set) //firstcol, msize2, maxsize
-    int col_ct = (set->names ? !!set->names->rowct : 0) + set->textsize[1] + msize2 - firstcol + !!set->weights;
+    if (maxsize < wsize) maxsize = wsize;
+    int col_ct = !!use_row + set->textsize[1] + msize2 - firstcol + !!set->weights;
     Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
@@ -635,31 +643,31 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
             return -1, 0, "Trouble preparing prepared statements.");
         Apop_stopif(
-            run_prepared_statements(set, statement), 
+            run_prepared_statements(set, use_row, statement), 
             return -1, 0, "error in insertions.");
     } else {
         for(i=0; i< maxsize; i++){
             comma = ' ';
             qxprintf(&q, "%s \n insert into %s values(",q, tabname);
             if (use_row){
-                char *fixed= prep_string_for_sqlite(0, set->names->row[i]);
-                qxprintf(&q, "%s %s ",q, fixed);
+                char *fixed= i < set->names->rowct ? prep_string_for_sqlite(0, set->names->row[i]) : NULL;
+                qxprintf(&q, "%s %s ",q, fixed ? fixed : "NULL");
                 free(fixed);
                 comma = ',';
             }
             if (set->vector)
-               add_a_number (&q, &comma, gsl_vector_get(set->vector,i));
+               add_a_number (&q, &comma, i < vsize ? gsl_vector_get(set->vector,i) : GSL_NAN);
             if (set->matrix)
                 for(j=0; j< set->matrix->size2; j++)
-                   add_a_number (&q, &comma, gsl_matrix_get(set->matrix,i,j));
+                   add_a_number (&q, &comma, i < msize1 ? gsl_matrix_get(set->matrix,i,j) : GSL_NAN);
             for(j=0; j< set->textsize[1]; j++){
-                char *fixed= prep_string_for_sqlite(0, set->text[i][j]);
-                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "''");
+                char *fixed= i < set->textsize[0] ? prep_string_for_sqlite(0, set->text[i][j]) : NULL;
+                qxprintf(&q, "%s%c %s ",q, comma,fixed ? fixed : "NULL");
                 free(fixed);
                 comma = ',';
             }
             if (set->weights)
-               add_a_number (&q, &comma, gsl_vector_get(set->weights,i));
+               add_a_number (&q, &comma, i < wsize ? gsl_vector_get(set->weights,i) : GSL_NAN);
             qxprintf(&q,"%s);",q);
             apop_query("%s", q); 
             q[0]='\0';
-- 
2.43.0


From 638c89a1ddde146db6131f27c1faf725bba889c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 050/161] fix: names of text columns in a new table were not
 quoted

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 372ae77..cc31662 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -623,7 +623,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                 }
             for(i=0; i< set->textsize[1]; i++){
                 if(!set->names || set->names->textct <= i) qxprintf(&q, "%s%c\n tc%i ", q, comma, i);
-                else qxprintf(&q, "%s%c\n %s ", q, comma, set->names->text[i]);
+                else qxprintf(&q, "%s%c\n \"%s\" ", q, comma, set->names->text[i]);
                 comma = ',';
             }
             if (set->weights) qxprintf(&q, "%s%c\n \"weights\" numeric", q, comma);
-- 
2.43.0


From cb25035495ff922145d4caf66a6c9b2baae9dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 051/161] fix: the message for a failed query used the query
 after freeing it

---
 apop_db.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index cc31662..130a30e 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -332,8 +332,8 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
 	if (db==NULL) apop_db_open(NULL);
     sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
-    free (query);
     ERRCHECK_SET_ERROR(qinfo.outdata)
+    free(query);
 	return qinfo.outdata;
 }
 
-- 
2.43.0


From 352f2ee56054847a843334359cfdc710acefafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 052/161] fix: the SQL aggregates counted blank fields as zeros

---
 apop_db_sqlite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index d58adef..dd4cd3b 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -25,7 +25,7 @@ struct StdDevCtx {
 static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio = p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -39,7 +39,7 @@ static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio =  p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -55,7 +55,7 @@ static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void fourStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if( argc<1 ) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         p->cnt++;
         p->avg = (x + p->avg * (p->cnt-1.))/p->cnt;
-- 
2.43.0


From 3b849e4e23bae754ff52dd7c7753a4999b1b2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 053/161] fix: the sample kurtosis was biased, and differed
 between SQL and vectors

---
 apop_db_sqlite.c | 6 ++----
 apop_stats.m4.c  | 9 ++++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index dd4cd3b..45ab5f0 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -120,10 +120,8 @@ static void kurtFinalize(sqlite3_context *context){
                         + 6 * p->avg2*gsl_pow_2(p->avg)
                         - 3* gsl_pow_4(p->avg);
       double var = p->avg2 - gsl_pow_2(p->avg);
-      long double coeff0= n*n/(gsl_pow_3(n)*(gsl_pow_2(n)-3*n+3));
-      long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-      long double coeff2= n*(6*n-9);
-      sqlite3_result_double(context, coeff0*(coeff1 * kurtovern + coeff2 * gsl_pow_2(var)));
+      sqlite3_result_double(context, n*((n*n - 2*n + 3)*kurtovern - 3*(2*n-3)*gsl_pow_2(var))
+                                        /((n-1)*(n-2)*(n-3)));
     } else if (p->cnt == 1)
       sqlite3_result_double(context, 0);
 }
diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 45d67ed..2610b7a 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -50,11 +50,10 @@ with data</em>.
 \see \ref apop_vector_kurtosis_pop
 */
 double apop_vector_kurtosis(const gsl_vector *in){
-    size_t n = in->size;
-    long double coeff0= n*n/(gsl_pow_3(n-1)*(gsl_pow_2(n)-3*n+3));
-    long double coeff1= n*gsl_pow_2(n-1)+ (6*n-9);
-    long double coeff2= n*(6*n-9);
-    return  coeff0 *(coeff1 * apop_vector_kurtosis_pop(in) - coeff2 * gsl_pow_2(apop_vector_var(in)*(n-1.)/n));
+    double n = in->size;
+    double var_pop = apop_vector_var(in)*(n-1.)/n;
+    return n*((n*n - 2*n + 3)*apop_vector_kurtosis_pop(in) - 3*(2*n-3)*gsl_pow_2(var_pop))
+                /((n-1)*(n-2)*(n-3));
 }
 
 static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int exponent, const char *fn_name){
-- 
2.43.0


From 83261a6ed3f220ac43b102983c0b5d703885d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 054/161] fix: reading past the end of a text file, which lost
 last lines with no newline and never ended for files with no data

---
 apop_conversions.m4.c | 58 ++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 487a281..1d4f311 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -479,7 +479,9 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
         *ptr=0;
     }
     r = buffer[(*ptr)++];
-    return r == (char)-1 ? EOF : r;
+    if (r != (char)-1) return r;
+    (*ptr)--; //Stay on the end-of-file marker.
+    return EOF;
 }
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
@@ -563,19 +565,22 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 }
 
 //On return, fn has copies of the field names, and add_this_line has the first data line.
-static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
+//Returns the count of elements in the first data line (zero if there is none).
+static line_parse_t get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
-    if (has_col_names && field_names == NULL){
-        while (fn->textsize[0] ==0) parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
-        while (add_this_line->textsize[0] ==0) parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
-    } else{
-        while (add_this_line->textsize[0] ==0) 
-            parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+    line_parse_t L = { };
+    if (has_col_names && field_names == NULL)
+        while (fn->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
+    L = (line_parse_t){ };
+    while (!L.ct && !L.eof)
+        L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+    if (!(has_col_names && field_names == NULL) && L.ct){
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
+    return L;
 }
 
 /** Read a delimited or fixed-wisdth text file into the matrix element of an \ref apop_data set.
@@ -621,37 +626,37 @@ APOP_VAR_ENDHEAD
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
-        L.ct = *add_this_line->textsize;
-        set = apop_data_alloc(0,1, L.ct - hasrows);
-	    set->names->colct = 0;
-	    set->names->col = malloc(sizeof(char*));
-        for (int j=0; j< L.ct - hasrows; j++)
+        L = get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        set = L.ct > hasrows ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
+        int namect = L.ct ? L.ct - hasrows : field_names->textsize[0];
+        for (int j=0; j< namect && j < field_names->textsize[0]; j++)
             apop_name_add(set->names, *field_names->text[j], 'c');
         apop_data_free(field_names);
     } 
 
     //Now do the body.
-	while(!set || !L.eof || L.ct){
+	while(!L.eof || L.ct){
         if (!L.ct) { //skip blank lines
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
         }
-        if (!set) set = apop_data_alloc(0, 1, L.ct-hasrows); //for .has_col_names=='n'.
+        if (!set) set = L.ct > hasrows ? apop_data_alloc(0, 1, L.ct-hasrows) : apop_data_alloc(); //for .has_col_names=='n'.
         row++;
-        int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
-        set->matrix = apop_matrix_realloc(set->matrix, row, cols);
-        Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+        int cols = set->matrix  ? set->matrix->size2 : row==1 ? L.ct - hasrows : 0;
+        if (cols) {
+            set->matrix = apop_matrix_realloc(set->matrix, row, cols);
+            Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+        }
         if (hasrows) {
             apop_name_add(set->names, *add_this_line->text[0], 'r');
-            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; return set, 1,
+            Apop_stopif(L.ct-1 > cols, set->error='t'; return set, 1,
                  "row %i (not counting rownames) has %i elements (not counting the rowname), "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far.", row, L.ct-1, set->matrix->size2);
-        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; return set, 1,
+                 "but I thought this was a data set with %i elements per row. "
+                 "Stopping the file read; returning what I have so far.", row, L.ct-1, cols);
+        } else Apop_stopif(L.ct > cols, set->error='t'; return set, 1,
                  "row %i has %i elements, "
-                 "but I thought this was a data set with %zu elements per row. "
-                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
+                 "but I thought this was a data set with %i elements per row. "
+                 "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, cols);
         for (int col=hasrows; col < L.ct; col++){
             char *thisstr = *add_this_line->text[col];
             if (strlen(thisstr)){
@@ -664,11 +669,14 @@ APOP_VAR_ENDHEAD
                 }
             } else gsl_matrix_set(set->matrix, row-1, col-hasrows, GSL_NAN);
         }
+        for (int col=GSL_MAX(L.ct-hasrows, 0); col < cols; col++) //a short row
+            gsl_matrix_set(set->matrix, row-1, col, GSL_NAN);
         if (L.eof) break;//hit when the last line has elements and is terminated by EOF.
         L=parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
     apop_data_free(add_this_line);
     if (strcmp(text_file,"-")) fclose(infile);
+    Apop_stopif(!row, if (!set) set = apop_data_alloc(); set->error='t'; return set, 1, "No data found in %s.", text_file);
 	return set;
 }
 
-- 
2.43.0


From 2274a1dcbc5c8962846e46ff4b638dd42b0261c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 055/161] fix: apop_text_to_db lost a last line with no
 newline, miscounted the rows, and could not read row names without column
 names

---
 apop_conversions.m4.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1d4f311..b356ba4 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -567,7 +567,7 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 //On return, fn has copies of the field names, and add_this_line has the first data line.
 //Returns the count of elements in the first data line (zero if there is none).
 static line_parse_t get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
-                                apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
+                                apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters, int has_row_names){
     line_parse_t L = { };
     if (has_col_names && field_names == NULL)
         while (fn->textsize[0] ==0 && !L.eof) L = parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
@@ -575,7 +575,7 @@ static line_parse_t get_field_names(int has_col_names, char **field_names, FILE
     while (!L.ct && !L.eof)
         L = parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
     if (!(has_col_names && field_names == NULL) && L.ct){
-        fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
+        fn	= apop_text_alloc(fn, L.ct - has_row_names, 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
@@ -626,7 +626,7 @@ APOP_VAR_ENDHEAD
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        L = get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        L = get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters, hasrows);
         set = L.ct > hasrows ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
         int namect = L.ct ? L.ct - hasrows : field_names->textsize[0];
         for (int j=0; j< namect && j < field_names->textsize[0]; j++)
@@ -1141,7 +1141,7 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1;
+      	 col_ct, ct = 0, rows = 0;
     FILE *infile;
     char buffer[bs];
     size_t ptr = bs;
@@ -1163,10 +1163,10 @@ APOP_VAR_ENDHEAD
     //get names and the first row.
     if (prep_text_reading(text_file, &infile)) return -1;
     apop_data *fn = apop_data_alloc();
-    get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
-                                    add_this_line, fn, field_ends, delimiters);
-    col_ct = L.ct = *add_this_line->textsize;
-    Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
+    L = get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
+                                    add_this_line, fn, field_ends, delimiters, has_row_names=='y');
+    col_ct = L.ct;
+    Apop_stopif(col_ct <= (has_row_names=='y'), if (strcmp(text_file,"-")) fclose(infile); return -1, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
             return -1, 0, "Creating the table in the database failed.");
@@ -1181,7 +1181,8 @@ APOP_VAR_ENDHEAD
                 return -1, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
-	while(L.ct && !L.eof){
+	while(L.ct){
+        rows ++;
         line_to_insert(L, add_this_line, tabname, statement, rows);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
@@ -1196,7 +1197,6 @@ APOP_VAR_ENDHEAD
         }
         do {
             L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
-            rows ++;
         } while (!L.ct && !L.eof); //skip blank lines
 	}
     apop_data_free(add_this_line);
-- 
2.43.0


From 004e1f8c38e1b0f9a9ac6ad75f2ef62870e13564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 056/161] fix: NULs in a text file were taken as delimiters
 instead of white space

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index b356ba4..dbb740a 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -486,7 +486,7 @@ static int get_next(char *buffer, size_t *ptr, FILE *infile){
 
 static apop_char_info parse_next_char(char *buffer, size_t *ptr, FILE *f, char const *delimiters){
     int c = get_next(buffer, ptr, f);
-    int is_delimiter = !!strchr(delimiters, c);
+    int is_delimiter = c && strchr(delimiters, c);
     return (apop_char_info){.c=c, 
             .type = (c==' '||c=='\r' ||c=='\t' || c==0)? (is_delimiter ? 'W'  : 'w')
                     :is_delimiter    ? 'd'
-- 
2.43.0


From 9036b3598345b7807b847286ff4da7852f1b8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 057/161] fix: writing more than one page to a file, which lost
 all but the first

---
 apop_output.m4.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3bbde30..80c824f 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -331,10 +331,8 @@ APOP_VAR_ENDHEAD
         return;
     }
     apop_data_print_core(data, output_pipe, output_type);
-    if (data && data->more) {
-        output_append='a';
-        apop_data_print(data->more, Output_vars);
-    }
+    for (const apop_data *page = data ? data->more : NULL; page; page = page->more)
+        apop_data_print_core(page, output_pipe, output_type);
     if (output_name)
         fclose(output_pipe);
 }
-- 
2.43.0


From 632f5f8c40b70704b327e544f82ef7253643646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 058/161] fix: apop_vector_print to a database table wrote to
 stdout and closed it

---
 apop_output.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 80c824f..5a8c19b 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -206,6 +206,11 @@ APOP_VAR_HEAD void apop_vector_print(gsl_vector *data, Output_declares){
     gsl_vector *apop_varad_var(data, NULL);
     Dispatch_output
 APOP_VAR_ENDHEAD
+    if (output_type == 'd'){
+        Apop_assert_c(data, , 1, "You sent me a NULL vector. No database table will be created.");
+        apop_data_print(&(apop_data){.vector=data}, Output_vars);
+        return;
+    }
 	print_core_v(data, apop_opts.output_delimiter, Output_vars);
  }
 
-- 
2.43.0


From 3f29b9b638777cee88ec4d6aad44ccbc0d1607dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 059/161] fix: crash when the file to be written cannot be
 opened

---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 5a8c19b..5485df5 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -59,7 +59,7 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
     else *output_pipe = output_name
                         ? fopen(output_name, *output_append == 'a' ? "a" : "w")
                         : stdout;
-    Apop_stopif(!output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
+    Apop_stopif(!*output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
     return 0;
 }
 
-- 
2.43.0


From ea093dda232303dfb4671832e4b0a465cbd156a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 060/161] fix: a NaN in the input, when apop_opts.nan_string is
 something else, was read from the database as zero

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index dbb740a..1d89351 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1018,7 +1018,7 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
         else if (isinf(atof(astring))==-1)
 			out = strdup("-9e9999999");
         else if (gsl_isnan(atof(astring)))
-			out = strdup("0.0/0.0");
+			return NULL;
         else if (astring[0]=='.')
 			Asprintf(&out, "0%s",astring);
 		else out = strdup(astring);
-- 
2.43.0


From 1c1c389682f6a48b7b40ec0d34b887435f05c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 061/161] fix: OLS residuals were predicted minus observed, not
 observed minus predicted as documented

---
 model/apop_ols.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 1d032b2..557e527 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -223,17 +223,18 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     apop_data_free(out->parameters);
     out->parameters = apop_dot(cov, xpy);               // \beta=(X'X)^{-1}X'Y
     apop_data *error = apop_dot(data, out->parameters); // X\beta ==predicted (not yet error)
-	gsl_vector_sub(error->vector, y_data);              // X'\beta - Y == error
+	gsl_vector_scale(error->vector, -1);
+	gsl_vector_add(error->vector, y_data);              // Y - X\beta == error
     gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
 	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
         gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
-        gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
         gsl_vector *predicted = Apop_cv(predicted_page, 1);
         gsl_vector_memcpy(predicted, y_data);
-        gsl_vector_add(predicted, error->vector); //pred = y_data + error
+        gsl_vector_sub(predicted, error->vector); //pred = y_data - error
+        gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
     }
     apop_data_free(error);
     if (apop_data_get_page(out->parameters, "<Covariance>"))
-- 
2.43.0


From d8fdb5a1fb54ef6a4ca2b9ed78a9b473edfa0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 062/161] fix: the observed column of the regression
 predictions was not named Observed

---
 model/apop_ols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 557e527..35de59a 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -74,7 +74,7 @@ static void prep_names (apop_model *e){
     apop_parts_wanted_settings *pwant = apop_settings_get_group(e, apop_parts_wanted);
     apop_data *predicted = apop_data_get_page(e->info, "<Predicted>");
     if (predicted){
-        apop_name_add(predicted->names, (e->data->names->colct ? e->data->names->col[0] : "Observed"), 'c');
+        apop_name_add(predicted->names, "Observed", 'c');
         apop_name_add(predicted->names, "Predicted", 'c');
         apop_name_add(predicted->names, "Residual", 'c');
     }
-- 
2.43.0


From b25bcdff603da646de5169877ba76e1bf7109eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 063/161] fix: buffer overflow when a regression overwrites a
 short column name

---
 model/apop_ols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 35de59a..e19fb6c 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -102,7 +102,8 @@ static void ols_shuffle(apop_data *d){
         gsl_vector_set_all(independent, 1);     //affine; first column is ones.
         if (d->names->colct > 0) {		
             apop_name_add(d->names, d->names->col[0], 'v');
-            sprintf(d->names->col[0], "1");
+            free(d->names->col[0]);
+            Asprintf(&d->names->col[0], "1");
         }
     }
 }
-- 
2.43.0


From aeecb3978269ed19b0e9e622f357a765e9fb13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 064/161] fix: crash on regression data without a matrix

---
 model/apop_ols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index e19fb6c..5ff2639 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -114,7 +114,7 @@ static void ols_prep(apop_data *d, apop_model *m){
     apop_predict_vtable_add(ols_predict, apop_ols);
     apop_model_print_vtable_add(ols_print, apop_ols);
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
-    Apop_stopif(!d || (!d->vector && !d->matrix), m->error='d'; return, 0, "No data for regression.");
+    Apop_stopif(!d || !d->matrix, m->error='d'; return, 0, "No data matrix for regression.");
     ols_shuffle(d);
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
-- 
2.43.0


From d96b0788a624f08e742548480c423eabe6742404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 065/161] fix: crash in OLS when only one of covariance and
 predicted values is wanted; parts wanted as n were treated as wanted

---
 model/apop_ols.c | 87 ++++++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 5ff2639..d90806a 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -68,10 +68,24 @@ Apop_settings_init(apop_lm,
        out->input_distribution = apop_model_copy(apop_improper_uniform);
 )
 
+typedef struct { int covariance, predicted, tests; } lm_wants;
+
+//The apop_parts_wanted group takes precedence over the switches in apop_lm.
+static lm_wants get_lm_wants(apop_model *m){
+    apop_parts_wanted_settings *pwant = apop_settings_get_group(m, apop_parts_wanted);
+    apop_lm_settings *p = apop_settings_get_group(m, apop_lm);
+    if (pwant) return (lm_wants){
+            .covariance = pwant->covariance=='y' || pwant->tests=='y', //tests depend on covariance
+            .predicted = pwant->predicted=='y',
+            .tests = pwant->tests=='y'};
+    return (lm_wants){
+            .covariance = p && p->want_cov=='y',
+            .predicted = p && p->want_expected_value=='y',
+            .tests = p && p->want_cov=='y'};
+}
+
 //shift first col to depvar, rename first col "one".
 static void prep_names (apop_model *e){
-    apop_lm_settings *p = apop_settings_get_group(e, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(e, apop_parts_wanted);
     apop_data *predicted = apop_data_get_page(e->info, "<Predicted>");
     if (predicted){
         apop_name_add(predicted->names, "Observed", 'c');
@@ -84,12 +98,10 @@ static void prep_names (apop_model *e){
         apop_name_add(e->parameters->names, "parameters", 'v');
         for(int i=0; i< e->data->names->colct; i++)
             apop_name_add(e->parameters->names, e->data->names->col[i], 'r');
-        if ((pwant && pwant->covariance) || (!pwant && p && p->want_cov== 'y')){
-            apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
-            if (cov && e->data->names){
-                apop_name_stack(cov->names, e->data->names, 'c');
-                apop_name_stack(cov->names, e->data->names, 'r', 'c');
-            }
+        apop_data *cov = apop_data_get_page(e->parameters, "<Covariance>");
+        if (cov && e->data->names){
+            apop_name_stack(cov->names, e->data->names, 'c');
+            apop_name_stack(cov->names, e->data->names, 'r', 'c');
         }
 	}
 }
@@ -207,10 +219,8 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
 
 //xpx may be destroyed by the HH transformation.
 static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
-    apop_lm_settings   *p =  apop_settings_get_group(out, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(out, apop_parts_wanted);
-	if ( (pwant && pwant->covariance!='y' && pwant->predicted != 'y') 
-       ||(!pwant && p && p->want_cov!='y' && p->want_expected_value != 'y')){	
+    lm_wants want = get_lm_wants(out);
+	if (!want.covariance && !want.predicted){
 		//then don't calculate (X'X)^{-1}
 		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
 		return;
@@ -229,7 +239,7 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
-	if ((pwant && pwant->predicted) || (!pwant && p && p->want_expected_value)){
+	if (want.predicted){
         apop_data *predicted_page = apop_data_get_page(out->info, "<Predicted>");
         gsl_matrix_set_col(predicted_page->matrix, 0, y_data);
         gsl_vector *predicted = Apop_cv(predicted_page, 1);
@@ -238,9 +248,8 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
         gsl_matrix_set_col(predicted_page->matrix, 2, error->vector);
     }
     apop_data_free(error);
-    if (apop_data_get_page(out->parameters, "<Covariance>"))
-        apop_data_rm_page(out->parameters, "<Covariance>");
-    apop_data_add_page(out->parameters, cov, "<Covariance>");
+    if (want.covariance) apop_data_add_page(out->parameters, cov, "<Covariance>");
+    else                 apop_data_free(cov);
     apop_data_add_page(out->parameters, apop_data_falloc((1), s_sq), "<Error variance>");
 }
 
@@ -311,9 +320,9 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     Apop_stopif(ep->error, return, 0, "Not estimating the model due to a previous error");
     apop_data *set;
     apop_lm_settings *olp =  apop_settings_get_group(ep, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) 
         olp = Apop_model_add_group(ep, apop_lm);
+    lm_wants want = get_lm_wants(ep);
     ep->data = inset;
     set = olp->destroy_data ? inset : apop_data_copy(inset); 
     
@@ -324,10 +333,8 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
         for (size_t i =0; i< weights->size; i++)
             gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
 
-    if ((pwant &&pwant->predicted) || (!pwant && olp && olp->want_expected_value=='y'))
+    if (want.predicted)
         apop_data_add_page(ep->info, apop_data_alloc(0, set->matrix->size1, 3), "<Predicted>");
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
-        apop_data_add_page(ep->parameters, apop_data_alloc(0, set->matrix->size2, set->matrix->size2), "<Covariance>");
     if (weights)
         for (int i = -1; i < set->matrix->size2; i++)
             gsl_vector_mul(Apop_cv(set, i), weights);
@@ -339,15 +346,16 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
 
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y'))
+    if (want.tests)
         apop_estimate_parameter_tests(ep);
 
     add_info_criteria(ep->data, ep, ep, apop_log_likelihood(ep->data, ep), set->matrix->size2); //in apop_mle.c
 
-    apop_data *r_sq = apop_estimate_coefficient_of_determination(ep); //Add R^2-type info to info page.
-    apop_data_stack(ep->info, r_sq, .inplace='y');
-
-    apop_data_free(r_sq);
+    if (want.predicted){ //Add R^2-type info to info page.
+        apop_data *r_sq = apop_estimate_coefficient_of_determination(ep);
+        apop_data_stack(ep->info, r_sq, .inplace='y');
+        apop_data_free(r_sq);
+    }
     if (!olp->destroy_data){
         if (weights) gsl_vector_free(weights);
         apop_data_free(set);
@@ -449,7 +457,6 @@ static apop_data *prep_z(apop_data *x, apop_data *instruments){
 static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     apop_lm_settings   *olp =  apop_settings_get_group(ep, apop_lm);
-    apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) olp = Apop_model_add_group(ep, apop_lm);
     if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)) 
         apop_ols->estimate(inset, ep);
@@ -466,7 +473,8 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
         for (int i =0; i< weights->size; i++)
             gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
 
-    if ((pwant && pwant->predicted) || (!pwant && olp && olp->want_expected_value))
+    lm_wants want = get_lm_wants(ep);
+    if (want.predicted)
         apop_data_add_page(ep->info, apop_data_alloc(set->matrix->size1, 3), "<Predicted>");
     prep_names(ep);
     if (weights){
@@ -483,18 +491,19 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     //covariance matrix right now is sigma (Z'X)^-1. We need
     //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
 
-    apop_data *zpz = apop_dot(z, z, .form1='t');
-    apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
-    apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
-    apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
-    apop_data *cov = apop_dot(halfcov, zpz_xpzinv);
-    apop_data_rm_page(ep->parameters, "<Covariance>");
-    apop_data_add_page(ep->parameters, cov, "<Covariance>");
-
-    gsl_matrix_free(zpxinv.matrix);
-    apop_data_free(zpx);
-    apop_data_free(zpy);
-    apop_data_free(zpz);
+    if (want.covariance){
+        apop_data *zpz = apop_dot(z, z, .form1='t');
+        apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
+        apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
+        apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
+        apop_data *cov = apop_dot(halfcov, zpz_xpzinv);
+        apop_data_rm_page(ep->parameters, "<Covariance>");
+        apop_data_add_page(ep->parameters, cov, "<Covariance>");
+
+        gsl_matrix_free(zpxinv.matrix);
+        apop_data_free(zpz_xpzinv);
+        apop_data_free(zpz);
+    }
 
 
 /*
-- 
2.43.0


From 670a511edaeb24c88eded91211d72378f9bd45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 066/161] fix: crash when the columns of the regression data
 are collinear

---
 model/apop_ols.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index d90806a..13a1fde 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -217,18 +217,28 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
     apop_model_free(norm);
 }
 
+#define Set_gsl_handler gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error);
+#define Unset_gsl_handler gsl_set_error_handler(prior_handler);
+
 //xpx may be destroyed by the HH transformation.
+//Sets out->error='s' and the parameters to NaN if xpx is singular.
 static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xpy, apop_model *out){
     lm_wants want = get_lm_wants(out);
 	if (!want.covariance && !want.predicted){
 		//then don't calculate (X'X)^{-1}
-		gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
+        Set_gsl_handler
+		int singular = gsl_linalg_HH_solve (xpx, xpy->vector, out->parameters->vector);
+        Unset_gsl_handler
+        Apop_stopif(singular, out->error='s'; gsl_vector_set_all(out->parameters->vector, GSL_NAN),
+                0, "X'X is singular; can't estimate the regression.");
 		return;
 	} //else:
     double s_sq;
     gsl_vector const *y_data = data->vector; //just an alias
     apop_data *cov = apop_data_alloc();
     double det = apop_det_and_inv(xpx, &cov->matrix, 1, 1);// not yet cov, just (X'X)^-1.
+    Apop_stopif(!cov->matrix, out->error='s'; gsl_vector_set_all(out->parameters->vector, GSL_NAN);
+                apop_data_free(cov); return, 0, "X'X is singular; can't estimate the regression.");
     if (det < 1e-4) Apop_notify(1, "Determinant of X'X is small (%g), so matrix is near singular. "
                         "Expect the covariance matrix [based on (X'X)^-1] to be garbage.", det);
     apop_data_free(out->parameters);
@@ -345,6 +355,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
+    if (ep->error) goto done;
 
     if (want.tests)
         apop_estimate_parameter_tests(ep);
@@ -356,6 +367,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
         apop_data_stack(ep->info, r_sq, .inplace='y');
         apop_data_free(r_sq);
     }
+done:
     if (!olp->destroy_data){
         if (weights) gsl_vector_free(weights);
         apop_data_free(set);
@@ -491,7 +503,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     //covariance matrix right now is sigma (Z'X)^-1. We need
     //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
 
-    if (want.covariance){
+    if (want.covariance && !ep->error){
         apop_data *zpz = apop_dot(z, z, .form1='t');
         apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
         apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
-- 
2.43.0


From 28eca20e956c405709e55cbcd2e586848864b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 067/161] fix: the adjusted R squared used the wrong degrees of
 freedom

---
 apop_regression.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 52e7493..fcea5ae 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -502,7 +502,7 @@ following entries (in the vector element):
 \li  \f$ SST \equiv \sum (Y_i - \bar Y) ^2 \f$
 \li  \f$ SSE \equiv \sum \epsilon ^2       \f$
 \li  \f$ R^2 \equiv 1 - {SSE\over SST}     \f$
-\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k-1)}(1-R^2)     \f$
+\li  \f$ R^2_{adj} \equiv R^2 - {(k-1)\over (n-k)}(1-R^2)     \f$
 
 Internally allocates (and frees) a vector the size of your data set.
 
@@ -533,7 +533,7 @@ SST, and SSR (and calculate the \f$R^2\f$s using those values).
   */
 apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
   double          sse, sst, rsq, adjustment;
-  size_t          indep_ct= m->data->matrix->size2 - 1;
+  size_t          indep_ct= m->data->matrix->size2;
   apop_data       *out    = apop_data_alloc();
     gsl_vector *weights = m->data->weights; //typically NULL.
     apop_data *expected = apop_data_get_page(m->info, "<Predicted>");
-- 
2.43.0


From edbf9c354ce343c8ee56edd2de89ce1a029c91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 068/161] fix: the total sum of squares of a weighted
 regression used replicate-weight degrees of freedom

---
 apop_regression.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index fcea5ae..1ec21bc 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -549,7 +549,10 @@ apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
         gsl_vector_free(v_times_w);
     }
     gsl_vector *vv = Apop_cv(expected, 0);
-    sst = apop_vector_var(vv, m->data->weights) * (vv->size-1);
+    double mean = apop_vector_mean(vv, weights);
+    sst = 0;
+    for (size_t i=0; i< vv->size; i++)
+        sst += (weights ? gsl_vector_get(weights, i) : 1) * gsl_pow_2(gsl_vector_get(vv, i) - mean);
     rsq = 1. - (sse/sst);
     adjustment  = ((obs -1.) /(obs - indep_ct)) * (1.-rsq) ;
     apop_data_add_named_elmt(out, "R squared", rsq);
-- 
2.43.0


From c9e199259a305c43ec06e359ff4acd2705289cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 069/161] fix: the predicted values, residuals, R squared, and
 likelihood of a weighted regression were for data scaled by root weights

---
 model/apop_ols.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 13a1fde..2a71b32 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -246,7 +246,13 @@ static void xpxinvxpy(apop_data const*data, gsl_matrix *xpx, apop_data const* xp
     apop_data *error = apop_dot(data, out->parameters); // X\beta ==predicted (not yet error)
 	gsl_vector_scale(error->vector, -1);
 	gsl_vector_add(error->vector, y_data);              // Y - X\beta == error
-    gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
+    if (!data->weights) gsl_blas_ddot(error->vector, error->vector, &s_sq); // e'e
+    else {                                              // e'We
+        gsl_vector *we = apop_vector_copy(error->vector);
+        gsl_vector_mul(we, data->weights);
+        gsl_blas_ddot(we, error->vector, &s_sq);
+        gsl_vector_free(we);
+    }
     s_sq /= data->matrix->size1 - data->matrix->size2;  // \sigma^2 = e'e / df
 	gsl_matrix_scale(cov->matrix, s_sq);                // cov = \sigma^2 (X'X)^{-1}
 	if (want.predicted){
@@ -325,6 +331,16 @@ Given your estimate \c est, the zeroth element is one of <br>
 <tt> apop_data_get(est->info, .page= "Predicted", .row=0, .colname="predicted") or</tt><br>
 <tt> apop_data_get(est->info, .page= "Predicted", .row=0, .colname="residual").</tt><br>
 */
+
+//Return a copy of the data with each row of the matrix multiplied by its weight.
+static apop_data *weighted_copy(apop_data *in){
+    apop_data *out = apop_data_alloc();
+    out->matrix = apop_matrix_copy(in->matrix);
+    for (size_t i=0; i< out->matrix->size2; i++)
+        gsl_vector_mul(Apop_cv(out, i), in->weights);
+    return out;
+}
+
 static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     Apop_stopif(ep->error, return, 0, "Not estimating the model due to a previous error");
@@ -334,24 +350,13 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
         olp = Apop_model_add_group(ep, apop_lm);
     lm_wants want = get_lm_wants(ep);
     ep->data = inset;
-    set = olp->destroy_data ? inset : apop_data_copy(inset); 
-    
-    gsl_vector *weights = olp->destroy_data      //this may be NULL.
-                           ? ep->data->weights 
-                           : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (size_t i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
-
+    set = inset->weights ? weighted_copy(inset) : inset;
     if (want.predicted)
         apop_data_add_page(ep->info, apop_data_alloc(0, set->matrix->size1, 3), "<Predicted>");
-    if (weights)
-        for (int i = -1; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
 
-    apop_data *xpx_d = apop_dot(set, set, .form1='t'); //(X'X)
-    apop_data *xpy_d = apop_dot(set, set, .form1='t', .form2='v'); //(X'y)
-    xpxinvxpy(set, xpx_d->matrix, xpy_d, ep);
+    apop_data *xpx_d = apop_dot(set, inset, .form1='t'); //(X'WX)
+    apop_data *xpy_d = apop_dot(set, inset, .form1='t', .form2='v'); //(X'Wy)
+    xpxinvxpy(inset, xpx_d->matrix, xpy_d, ep);
     prep_names(ep);
     apop_data_free(xpx_d);
     apop_data_free(xpy_d);
@@ -368,10 +373,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
         apop_data_free(r_sq);
     }
 done:
-    if (!olp->destroy_data){
-        if (weights) gsl_vector_free(weights);
-        apop_data_free(set);
-    }
+    if (set != inset) apop_data_free(set);
 }
 
 /* \adoc predict This function is limited to taking in a data set with a matrix, and
-- 
2.43.0


From adc76fe8f6259eb27f5cb110ab7683b13f0c47fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 070/161] fix: IV without instruments crashed after running
 OLS; weighted IV did not weight the instruments; IV parameters lost their
 names

---
 model/apop_ols.c | 54 ++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 2a71b32..cd91a5a 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -472,33 +472,21 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     Nullcheck_mpd(inset, ep, );
     apop_lm_settings   *olp =  apop_settings_get_group(ep, apop_lm);
     if (!olp) olp = Apop_model_add_group(ep, apop_lm);
-    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)) 
+    if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)){
         apop_ols->estimate(inset, ep);
+        return;
+    }
+    Apop_stopif(ep->error, return, 0, "Not estimating the model due to a previous error");
     ep->data = inset;
-    if (ep->parameters) apop_data_free(ep->parameters);
-    ep->parameters = apop_data_alloc(inset->matrix->size2);
-    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
     apop_data *z = prep_z(inset, olp->instruments);
-    
-    gsl_vector *weights = olp->destroy_data      //the weights may be NULL.
-                             ? ep->data->weights 
-                             : apop_vector_copy(ep->data->weights);
-    if (weights)
-        for (int i =0; i< weights->size; i++)
-            gsl_vector_set(weights, i, sqrt(gsl_vector_get(weights, i)));
+    apop_data *wz = inset->weights ? weighted_copy(z) : z;
 
     lm_wants want = get_lm_wants(ep);
     if (want.predicted)
-        apop_data_add_page(ep->info, apop_data_alloc(set->matrix->size1, 3), "<Predicted>");
-    prep_names(ep);
-    if (weights){
-        gsl_vector_mul(set->vector, weights);
-        for (int i = 0; i < set->matrix->size2; i++)
-            gsl_vector_mul(Apop_cv(set, i), weights);
-    }
+        apop_data_add_page(ep->info, apop_data_alloc(inset->matrix->size1, 3), "<Predicted>");
 
-    apop_data *zpx = apop_dot(z, set, .form1='t');
-    apop_data *zpy = apop_dot(z, set, .form1='t', .form2='v'); //z'y
+    apop_data *zpx = apop_dot(wz, inset, .form1='t');
+    apop_data *zpy = apop_dot(wz, inset, .form1='t', .form2='v'); //z'y
 
     xpxinvxpy(inset, zpx->matrix, zpy, ep);
 
@@ -506,7 +494,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     //sigma (Z'X)^-1 (Z'Z) (X'Z)^-1
 
     if (want.covariance && !ep->error){
-        apop_data *zpz = apop_dot(z, z, .form1='t');
+        apop_data *zpz = apop_dot(wz, z, .form1='t');
         apop_data zpxinv = (apop_data) {.matrix=apop_matrix_inverse(zpx->matrix)};
         apop_data *zpz_xpzinv = apop_dot(zpz, &zpxinv, .form2='t');
         apop_data *halfcov = apop_data_get_page(ep->parameters, "<Covariance>");
@@ -518,28 +506,12 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
         apop_data_free(zpz_xpzinv);
         apop_data_free(zpz);
     }
+    prep_names(ep);
 
-
-/*
-    apop_data *zpxinv = apop_matrix_to_data(apop_matrix_inverse(zpx->matrix));
-    ep->parameters = apop_dot(zpxinv, zpy);
-    //cov = sigma^2 (Z'X)^-1 Z'Z (X'Z)^-1
-    */
-
-    /*
-    if ((pwant &&pwant->covariance) || (!pwant && olp && olp->want_cov=='y')){
-        apop_data *zpz = apop_dot(z, z, .form1='t');
-        apop_data *zpz_zpxinv = apop_dot(zpz, zpxinv, .form2='t');
-        apop_data_add_page(ep->parameters, apop_dot(zpx, zpz_zpxinv)
-                , "<Covariance>");
-        apop_data_free(zpz); apop_data_free(zpz_zpxinv);
-    }
-    */
-
-    apop_data_free(zpx);// apop_data_free(zpxinv);
+    apop_data_free(zpx);
     apop_data_free(zpy);
-
-    if (!olp->destroy_data) apop_data_free(set);
+    if (wz != z) apop_data_free(wz);
+    apop_data_free(z);
 }
 
 apop_model *apop_iv = &(apop_model){.name="instrumental variables", .vsize = -1, .dsize=-1,
-- 
2.43.0


From 9cfff787848b8c161ce5b973d09836b0e3079396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 071/161] fix: the score of the OLS model had the wrong sign

---
 model/apop_ols.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index cd91a5a..618cd08 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -201,19 +201,22 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
             actual       = gsl_matrix_get(data,i, 0);
             expected    +=  gsl_vector_get(p->parameters->vector,0) * (1 - actual); //data isn't affine.
         }
-        gsl_vector_set(errors, i, expected-actual);
+        gsl_vector_set(errors, i, actual-expected);
     }
-    sigma   = sqrt(apop_vector_var(errors));
+    apop_data *err = apop_data_get_page(p->parameters, "<Error variance>");
+    sigma = err ? sqrt(apop_data_get(err)) : sqrt(apop_vector_var(errors));
     apop_model *norm = apop_model_set_parameters(apop_normal, 0.0, sigma);
     gsl_vector_set_all(gradient, 0);
 	for(size_t i=0;i< data->size1; i++){
         apop_data_set(subdata, 0, 0, gsl_vector_get(errors, i));
         apop_score(subdata, normscore, norm);
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
-        for(size_t j=0; j< data->size2; j++)
-            *gsl_vector_ptr(gradient, j) += weight * apop_data_get(d, i, j) * gsl_vector_get(normscore, 0);
+        for(size_t j=0; j< data->size2; j++) //column zero is the constant if this isn't yet prepped
+            *gsl_vector_ptr(gradient, j) += weight * (j || d->vector ? apop_data_get(d, i, j) : 1) * gsl_vector_get(normscore, 0);
 	} 
     gsl_vector_free(errors);
+    gsl_vector_free(normscore);
+    apop_data_free(subdata);
     apop_model_free(norm);
 }
 
-- 
2.43.0


From 34df6d1c229b362c47bd97e8a611d61209b3185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 072/161] fix: the log likelihood of weighted OLS scaled the
 density by the weight

---
 model/apop_ols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 618cd08..9e0dd82 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -179,8 +179,9 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
                     ? apop_p(justarow, input_distribution) //probably improper uniform, and so just 1 anyway.
                     : 1;
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
-        ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* weight * x_prob);
+        ll += weight * logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma) * x_prob);
     }
+    gsl_vector_free(errors);
     return ll;
 }
 
-- 
2.43.0


From 08bb26d1da50ff8c15b8b2d2778e81a8490f85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 073/161] fix: models with no estimate routine shared one entry
 in the parameter model and predict vtables

---
 apop.m4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index fcdc3b9..79d01cc 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -533,11 +533,11 @@ typedef void (*apop_score_type)(apop_data *d, gsl_vector *gradient, apop_model *
 make_vtab_fns(apop_score)
 
 typedef apop_model* (*apop_parameter_model_type)(apop_data *, apop_model *);
-#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_parameter_model_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_parameter_model)
 
 typedef apop_data * (*apop_predict_type)(apop_data *d, apop_model *params);
-#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + (m1)->estimate ? (size_t)(m1)->estimate: 27)
+#define apop_predict_hash(m1) ((size_t)((m1)->log_likelihood ? (m1)->log_likelihood : (m1)->p)*33 + ((m1)->estimate ? (size_t)(m1)->estimate: 27))
 make_vtab_fns(apop_predict)
 
 typedef void (*apop_model_print_type)(apop_model *params, FILE *out);
-- 
2.43.0


From d62b1504102e7201e02cc0478d31a52c98b174c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 074/161] fix: the IV model did not use the parameter model and
 predict functions of linear models

---
 model/apop_ols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 9e0dd82..fe67188 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -123,8 +123,10 @@ static void ols_shuffle(apop_data *d){
 static void ols_prep(apop_data *d, apop_model *m){
     apop_score_vtable_add(ols_score, apop_ols);
     apop_parameter_model_vtable_add(ols_param_models, apop_ols);
+    apop_parameter_model_vtable_add(ols_param_models, apop_iv);
     apop_predict_vtable_add(ols_predict, apop_ols);
-    apop_model_print_vtable_add(ols_print, apop_ols);
+    apop_predict_vtable_add(ols_predict, apop_iv);
+    apop_model_print_vtable_add(ols_print, apop_ols); //as with the score, IV has the same key
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
     Apop_stopif(!d || !d->matrix, m->error='d'; return, 0, "No data matrix for regression.");
     ols_shuffle(d);
-- 
2.43.0


From 074d359ca466355be43845701d4c80750bcf8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 075/161] fix: the likelihood of a probit with three or more
 categories used the same parameters and the wrong category for every column

---
 model/apop_probit.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 8cddb54..68fb6f3 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -97,33 +97,24 @@ static long double biprobit_log_likelihood(apop_data *d, apop_model *p){
 	return total_prob;
 }
 
-static threadlocal double val;
-static double unordered(double in){ return in == val; }
-
 // This is just a for loop that runs a probit on each column.
 static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck_mpd(d, p, GSL_NAN)
     gsl_vector *val_vector = get_category_table(d)->vector;
     if (val_vector->size==2) return biprobit_log_likelihood(d, p);
     //else, multinomial loop
-    static threadlocal apop_model *spare_probit = NULL;
-    if (!spare_probit){
-        spare_probit = apop_model_copy(apop_probit);
-        spare_probit->parameters = apop_data_alloc();
-    }
-    Staticdef(apop_data *, working_data, apop_data_alloc());
-    working_data->matrix = d->matrix;
-    gsl_vector *original_outcome = d->vector;
     double ll = 0;
-    double *vals = val_vector->data;
+    gsl_vector *is_val = gsl_vector_alloc(d->vector->size);
     for(size_t i=0; i < p->parameters->matrix->size2; i++){
-        val = vals[i];
-        working_data->vector = apop_vector_map(original_outcome, unordered);
-        spare_probit->parameters->matrix = apop_vector_to_matrix(Apop_cv(p->parameters, 1));
-        ll  += apop_log_likelihood(working_data, spare_probit);
-        gsl_vector_free(working_data->vector); //yup. It's inefficient.
-        gsl_matrix_free(spare_probit->parameters->matrix);
+        double val = gsl_vector_get(val_vector, i+1); //category zero is the numeraire
+        for (size_t j=0; j < is_val->size; j++)
+            gsl_vector_set(is_val, j, gsl_vector_get(d->vector, j) == val);
+        apop_data params = {.matrix=apop_vector_to_matrix(Apop_cv(p->parameters, i))};
+        ll += biprobit_log_likelihood(&(apop_data){.vector=is_val, .matrix=d->matrix},
+                                      &(apop_model){.parameters=&params});
+        gsl_matrix_free(params.matrix);
     }
+    gsl_vector_free(is_val);
 	return ll;
 }
 
-- 
2.43.0


From 45b02ddfb225f73eee2b1d8154ca53c3087a168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 076/161] fix: logit and probit likelihoods looked for the
 category number among the original category values

---
 model/apop_probit.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 68fb6f3..e9a1fb0 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -45,6 +45,10 @@ static void probit_prep(apop_data *d, apop_model *m){
     apop_score_vtable_add(probit_dlog_likelihood, apop_probit);
     //apop_score_vtable_add(logit_dlog_likelihood, apop_logit);
     apop_ols->prep(d, m);//also runs the default apop_model_clear.
+    if (!apop_data_get_factor_names(d, .col=-1)){ //the shuffle moved the outcome to an unnamed vector
+        free(factor_list->names->title);
+        Asprintf(&factor_list->names->title, "<categories for vector>");
+    }
     int count = factor_list->textsize[0];
     m->parameters = apop_data_alloc(d->matrix->size2, count-1);
     apop_name_stack(m->parameters->names, d->names, 'r', 'c');
@@ -106,9 +110,8 @@ static long double multiprobit_log_likelihood(apop_data *d, apop_model *p){
     double ll = 0;
     gsl_vector *is_val = gsl_vector_alloc(d->vector->size);
     for(size_t i=0; i < p->parameters->matrix->size2; i++){
-        double val = gsl_vector_get(val_vector, i+1); //category zero is the numeraire
-        for (size_t j=0; j < is_val->size; j++)
-            gsl_vector_set(is_val, j, gsl_vector_get(d->vector, j) == val);
+        for (size_t j=0; j < is_val->size; j++) //category zero is the numeraire
+            gsl_vector_set(is_val, j, gsl_vector_get(d->vector, j) == i+1);
         apop_data params = {.matrix=apop_vector_to_matrix(Apop_cv(p->parameters, i))};
         ll += biprobit_log_likelihood(&(apop_data){.vector=is_val, .matrix=d->matrix},
                                       &(apop_model){.parameters=&params});
@@ -194,16 +197,11 @@ static void logit_prep(apop_data *d, apop_model *m){
     apop_predict_vtable_add(multilogit_expected, apop_logit);
 }
 
-static size_t find_index(double in, double *m, size_t max){
-    size_t i = 0;
-    while (in !=m[i] && i<max) i++;
-    return i;
-}
-
-double one_logit_row(apop_data *thisobservation, void *factor_list){
-    //get the $x\beta_j$ numerator for the appropriate choice:
-    size_t index   = find_index(gsl_vector_get(thisobservation->vector, 0), 
-                                factor_list, thisobservation->matrix->size2);
+double one_logit_row(apop_data *thisobservation){
+    //get the $x\beta_j$ numerator for the appropriate choice. The outcome is the
+    //category number, as set by apop_data_to_factors.
+    size_t index   = GSL_MIN(gsl_vector_get(thisobservation->vector, 0), 
+                             thisobservation->matrix->size2);
     Apop_row_v(thisobservation, 0, thisrow);
     double num = (index==0) ? 0 : gsl_vector_get(thisrow, index-1);
 
@@ -224,9 +222,9 @@ static long double multilogit_log_likelihood(apop_data *d, apop_model *p){
     Nullcheck(d->matrix, GSL_NAN)
     //Find X\beta_i for each row of X and each column of \beta.
     apop_data  *xbeta = apop_dot(d, p->parameters);
-    double* factor_list = get_category_table(p->data)->vector->data;
+    get_category_table(d); //number the categories, if that hasn't happened yet.
     xbeta->vector = d->vector; //we'll need this in one_logit_row
-    long double ll = apop_map_sum(xbeta, .fn_rp = one_logit_row, .param=factor_list);
+    long double ll = apop_map_sum(xbeta, .fn_r = one_logit_row);
     xbeta->vector = NULL;
     apop_data_free(xbeta);
 	return ll;
-- 
2.43.0


From 3f14b015da463c77be5f09a7d13c21d54045dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 077/161] fix: t tests divided the sample variance by n-1
 rather than n

---
 apop_tests.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5f99135..18f5bd8 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -59,8 +59,8 @@ apop_data *	apop_t_test(gsl_vector *a, gsl_vector *b){
            b_avg = apop_vector_mean(b),
     b_var = b_count > 1 ? apop_vector_var(b): 0,
     stat = (a_avg - b_avg)/ sqrt(
-                        (b_count > 1 ? b_var/(b_count-1) : 0) 
-                        + (a_count > 1 ? a_var/(a_count-1) : 0) 
+                        (b_count > 1 ? b_var/b_count : 0) 
+                        + (a_count > 1 ? a_var/a_count : 0) 
                         );
     if (apop_opts.verbose >=1){
         printf("1st avg: %g; 1st std dev: %g; 1st count: %i.\n", a_avg, sqrt(a_var), a_count);
@@ -95,7 +95,7 @@ apop_data * apop_paired_t_test(gsl_vector *a, gsl_vector *b){
     int count = a->size; 
     double avg = apop_vector_mean(diff),
     var = apop_vector_var(diff),
-    stat = avg/ sqrt(var/(count-1));
+    stat = avg/ sqrt(var/count);
     gsl_vector_free(diff);
     Apop_notify(2, "avg diff: %g; diff std dev: %g; count: %i; t-statistic: %g.\n", avg, sqrt(var), count, stat);
     return produce_t_test_output(count-1, stat, avg);
-- 
2.43.0


From 6b2d9792942700222921dc14ff1fdcc90f4ec036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 078/161] fix: F tests of hypotheses about the constant used a
 demeaned X'X

---
 apop_tests.m4.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 18f5bd8..6161adf 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -168,19 +168,15 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(est->data); //msize1, msize2
     int data_df = msize1 - contrast_ct;
 
-    //Find (\underbar x)'(\underbar x), where (\underbar x) = the data with means removed
-    long double means[msize2];
-    for (int i=1; i< msize2; i++)
-        means[i] = apop_vector_mean(Apop_cv(est->data, i));
-    means[0]=0;// don't screw with the ones column.
+    //Find X'X
     apop_data *xpx = apop_data_alloc(msize2, msize2);
     Apop_stopif(xpx->error, apop_data_free(xpx); out->error='a'; return out, 0, "allocation error");
     for (int i=0; i< msize2; i++)
         for (int j=0; j< msize2; j++){ //at this loop, we calculate one cell in the dot prouct
             long double total = 0;
             for (int c=0; c<msize1; c++)
-                total +=  (gsl_matrix_get(est->data->matrix, c, i) - means[i])
-                         *(gsl_matrix_get(est->data->matrix, c, j) - means[j]);
+                total +=  gsl_matrix_get(est->data->matrix, c, i)
+                         *gsl_matrix_get(est->data->matrix, c, j);
             apop_data_set(xpx, i, j, total);
         }
 
-- 
2.43.0


From f2d6a0ca48f299fa60b45287f9912c35af75fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 079/161] fix: apop_f_test left its default contrasts in the
 caller's data set, and leaked

---
 apop_tests.m4.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 6161adf..1e5bbb7 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -144,7 +144,7 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
     if (!contrast) contrast = apop_data_alloc(), free_data=1;
     if (!contrast->matrix) {
         int size = est->parameters->vector->size;
-        contrast->matrix= gsl_matrix_calloc(size - 1, size);
+        contrast->matrix= gsl_matrix_calloc(size - 1, size), free_matrix=1;
         for (int i=1; i< size; i++)
             apop_data_set(contrast, i-1, i, 1);
     }
@@ -152,8 +152,8 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
 
     apop_data *out = apop_f_test_base(est, contrast);
     if (free_data) {apop_data_free(contrast); return out;}
-    if (free_matrix) gsl_matrix_free(contrast->matrix);
-    if (free_vector) gsl_vector_free(contrast->vector);
+    if (free_matrix) {gsl_matrix_free(contrast->matrix); contrast->matrix=NULL;}
+    if (free_vector) {gsl_vector_free(contrast->vector); contrast->vector=NULL;}
     return out;
 APOP_VAR_ENDHEAD
     apop_data *out = apop_data_alloc();
@@ -198,9 +198,12 @@ APOP_VAR_ENDHEAD
     apop_data_free(xpx);
     apop_data_free(qprimebeta);
     apop_data_free(qprimebetaminusc_qprimexpxinvqinv);
+    gsl_matrix_free(xpxinv.matrix);
+    gsl_matrix_free(qprimexpxinvqinv.matrix);
 
     apop_data *r_sq_list = apop_estimate_coefficient_of_determination (est);
     double variance = apop_data_get(r_sq_list, .rowname="sse");
+    apop_data_free(r_sq_list);
     f_stat *=  data_df / (variance * contrast_ct);
     pval    = (contrast_ct > 0 && data_df > 0) ? gsl_cdf_fdist_Q(f_stat, contrast_ct, data_df): GSL_NAN; 
 
-- 
2.43.0


From 6361c6aae318d54e963f7c58b4c0a5d311e35d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 080/161] fix: independence tests truncated the total count to
 an integer

---
 apop_tests.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 1e5bbb7..5ca1872 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -215,7 +215,7 @@ APOP_VAR_ENDHEAD
     return out;
 }
 
-static double one_chi_sq(apop_data *d, int row, int col, int n){
+static double one_chi_sq(apop_data *d, int row, int col, double n){
     double rowexp  = apop_vector_sum(Apop_rv(d, row))/n;
     double colexp  = apop_vector_sum(Apop_cv(d, col))/n;
     double observed = apop_data_get(d, row, col);
@@ -238,7 +238,7 @@ apop_data * apop_test_anova_independence(apop_data *d){
     double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
-    int n = apop_matrix_sum(d->matrix);
+    double n = apop_matrix_sum(d->matrix);
     for (size_t row=0; row <d->matrix->size1; row++)
         for (size_t col=0; col <d->matrix->size2; col++)
             total += one_chi_sq(d, row, col, n);
-- 
2.43.0


From c5fd5fcebb76be207280df5e07425b9fa5797e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 081/161] fix: degrees of freedom for an independence test on a
 single column

---
 apop_tests.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5ca1872..0b39b50 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -235,7 +235,7 @@ apop_data * apop_test_anova_independence(apop_data *d){
     Apop_stopif(!d || !d->matrix, return NULL, 0, "You sent me data with no matrix element. Returning NULL.");
     double total = 0;
     //You can have a one-column or one-row matrix if you want; else df = (rows-1)*(cols-1)
-    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1 
+    double df = d->matrix->size1==1 ? d->matrix->size2-1 : d->matrix->size2 == 1 ? d->matrix->size1-1
                               : (d->matrix->size1 - 1)* (d->matrix->size2 - 1);
     Apop_stopif(!df, return NULL, 0, "You sent a degenerate matrix. Returning NULL.");
     double n = apop_matrix_sum(d->matrix);
-- 
2.43.0


From ee0051d54554acf32e1d11d884b3b1266aabf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 082/161] fix: apop_test with the default distribution crashed

---
 apop_tests.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 0b39b50..4061961 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -431,6 +431,7 @@ Here are the distributions you can use and their parameters.
 APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1, double p2, char tail){
     double  apop_varad_var(statistic, 0);
     char*  apop_varad_var(distribution, NULL);
+    if (!distribution) distribution = "normal";
     double apop_varad_var(p1, 0);
     double apop_varad_var(p2, 0);
     int is_chi = !strcasecmp(distribution, "chi squared")|| !strcasecmp(distribution, "chi")
@@ -438,7 +439,7 @@ APOP_VAR_HEAD double apop_test(double statistic, char *distribution, double p1,
      Apop_stopif(!strcasecmp(distribution, "f") && (!p1 || !p2), return NAN, 0, "I need both a p1 and p2 parameter specifying the degrees of freedom.");
      Apop_stopif((!strcasecmp(distribution, "t") || !strcasecmp(distribution, "f") || is_chi)
              && !p1, return NAN, 0, "I need a p1 parameter specifying the degrees of freedom.");
-     if (!p2 && (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ))
+     if (!p2 && (!strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ))
          p2 = 1;
      if (!p2 && p1 >= 0 && !strcasecmp(distribution, "uniform"))
          p2 = 1;
-- 
2.43.0


From dbc3c6d638915095a388a830cab4778548e6d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 083/161] fix: tails of Normal and Uniform tests

---
 apop_tests.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 4061961..f087c8a 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -451,9 +451,9 @@ APOP_VAR_ENDHEAD
     //clever way to make it shorter.
      if (!distribution || !strcasecmp(distribution, "normal") || !strcasecmp(distribution, "gaussian") ){
          if (tail == 'u')
-             return gsl_cdf_gaussian_Q(p1-statistic, p2);
+             return gsl_cdf_gaussian_Q(statistic-p1, p2);
          else if (tail == 'l')
-             return gsl_cdf_gaussian_P(p1-statistic, p2);
+             return gsl_cdf_gaussian_P(statistic-p1, p2);
          else
              return 2 * gsl_cdf_gaussian_Q(fabs(p1-statistic), p2);
      }
@@ -496,7 +496,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_flat_P(statistic, p1, p2);
          else
-             return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.), p1, p2);
+             return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.) + (p1+p2)/2., p1, p2);
      }
     Apop_assert(0, "Sorry, but I don't recognize %s as a distribution", distribution);
 }
-- 
2.43.0


From 8f905b39166ba56504e418e243fb645efa5396e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 084/161] fix: apop_test returned p=0 for tests it cannot do

---
 apop_tests.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index f087c8a..95c45bd 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -463,7 +463,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_lognormal_P(statistic, p1, p2);
          else
-             Apop_assert(0, "A two-tailed test doesn't really make sense for the lognormal. Please specify either tail= 'u' or tail= 'l'.");
+             Apop_stopif(1, return NAN, 0, "A two-tailed test doesn't really make sense for the lognormal. Please specify either tail= 'u' or tail= 'l'.");
      }
     else if (!strcasecmp(distribution, "t")){
          if (tail == 'u')
@@ -479,7 +479,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_fdist_P(statistic, p1, p2);
          else
-             Apop_assert(0, "A two-tailed test doesn't really make sense for the %s. Please specify either tail= 'u' or tail= 'l'.", distribution);
+             Apop_stopif(1, return NAN, 0, "A two-tailed test doesn't really make sense for the %s. Please specify either tail= 'u' or tail= 'l'.", distribution);
      }
     else if (!strcasecmp(distribution, "chi squared")|| !strcasecmp(distribution, "chi")
                                                 || !strcasecmp(distribution, "chisq")){
@@ -488,7 +488,7 @@ APOP_VAR_ENDHEAD
          else if (tail == 'l')
              return gsl_cdf_chisq_P(statistic, p1);
          else
-             Apop_assert(0, "A two-tailed test doesn't really make sense for the %s. Please specify either tail= 'u' or tail= 'l'.", distribution);
+             Apop_stopif(1, return NAN, 0, "A two-tailed test doesn't really make sense for the %s. Please specify either tail= 'u' or tail= 'l'.", distribution);
      }
     else if (!strcasecmp(distribution, "uniform")){
          if (tail == 'u')
@@ -498,5 +498,5 @@ APOP_VAR_ENDHEAD
          else
              return 2 * gsl_cdf_flat_Q(fabs(statistic - (p1+p2)/2.) + (p1+p2)/2., p1, p2);
      }
-    Apop_assert(0, "Sorry, but I don't recognize %s as a distribution", distribution);
+    Apop_stopif(1, return NAN, 0, "Sorry, but I don't recognize %s as a distribution", distribution);
 }
-- 
2.43.0


From cbc58b77177bbd438e8e85175bd1c41edae5d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 085/161] fix: one-way ANOVA sums of squares and degrees of
 freedom

---
 apop_tests.m4.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 95c45bd..472d21d 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -269,21 +269,25 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
     Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
-    double total_df = apop_data_get(tss, 0, 1);
-    apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
+    double total_df = apop_data_get(tss, 0, 1) - 1;
+    apop_data_set(out, 2, 1, total_df); //total df.
 
     //within group sum of squares:
     apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
     double group_df = wss->matrix->size1-1;
-    apop_data_set(out, 0, 0, apop_data_get(wss, 0, 0)*group_df); //within sum of squares
+    double within = 0;
+    for (int i=0; i< wss->matrix->size1; i++)
+        within += apop_data_get(wss, i, 0)*apop_data_get(wss, i, 1);
+    apop_data_set(out, 1, 0, within); //residual sum of squares
+
+    //between groups is just total-within
+    apop_data_set(out, 0, 0, apop_data_get(out, 2, 0) - within);
     apop_data_set(out, 0, 1, group_df);
 
-    //residuals are just total-wss
-    apop_data_set(out, 1, 0, apop_data_get(out, 2, 0) - apop_data_get(out, 0,0)); //residual sum of squares
     double residual_df = total_df - group_df;
     apop_data_set(out, 1, 1, residual_df); //residual df
 
-    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS within
+    apop_data_set(out, 0, 2, apop_data_get(out, 0, 0)/apop_data_get(out, 0, 1));//mean SS between
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-- 
2.43.0


From 56493d9ecceca6c77832e5b6de6e5dc159561614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 086/161] fix: ANOVA tables reported the confidence as the p
 value and vice versa

---
 apop_tests.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 472d21d..4e4fac4 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -291,7 +291,7 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
     apop_data_set(out, 1, 2, apop_data_get(out, 1, 0)/apop_data_get(out, 1, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 1, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), group_df, residual_df));//pval
+    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), group_df, residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_free(tss);
@@ -348,15 +348,15 @@ APOP_VAR_ENDHEAD
     apop_data_set(out, 3, 2, apop_data_get(out, 3, 0)/apop_data_get(out, 3, 1));//mean SS residual
 
     apop_data_set(out, 0, 3, apop_data_get(out, 0, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 0, 4, gsl_cdf_fdist_P(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
+    apop_data_set(out, 0, 4, gsl_cdf_fdist_Q(apop_data_get(out, 0, 3), gsl_vector_get(firstrow, 1), residual_df));//pval
     apop_data_set(out, 0, 5, 1- apop_data_get(out, 0, 4));//confidence
 
     apop_data_set(out, 1, 3, apop_data_get(out, 1, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 1, 4, gsl_cdf_fdist_P(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
+    apop_data_set(out, 1, 4, gsl_cdf_fdist_Q(apop_data_get(out, 1, 3), gsl_vector_get(secondrow, 1), residual_df));//pval
     apop_data_set(out, 1, 5, 1- apop_data_get(out, 1, 4));//confidence
 
     apop_data_set(out, 2, 3, apop_data_get(out, 2, 2)/apop_data_get(out, 3, 2));//F ratio
-    apop_data_set(out, 2, 4, gsl_cdf_fdist_P(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
+    apop_data_set(out, 2, 4, gsl_cdf_fdist_Q(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
     apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
 
     free(joined);
-- 
2.43.0


From 25ee94148f33cfe5e9d6e4172bdfc344d04c7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 087/161] fix: two-way ANOVA counted the main effects again in
 the interaction

---
 apop_tests.m4.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 4e4fac4..83e9c9a 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -333,6 +333,11 @@ APOP_VAR_ENDHEAD
     gsl_vector *firstrow = Apop_rv(first, 0);
     gsl_vector *secondrow = Apop_rv(second, 0);
     gsl_vector *interrow = Apop_rv(interaction, 0);
+    //The by-cell table includes both main effects; leave only what is due to the interaction.
+    for (int i=0; i< 2; i++)
+        gsl_vector_set(interrow, i, gsl_vector_get(interrow, i)
+                         - gsl_vector_get(firstrow, i) - gsl_vector_get(secondrow, i));
+    gsl_vector_set(interrow, 2, gsl_vector_get(interrow, 0)/gsl_vector_get(interrow, 1));
     gsl_matrix_set_row(out->matrix, 0, firstrow);
     gsl_matrix_set_row(out->matrix, 1, secondrow);
     gsl_matrix_set_row(out->matrix, 2, interrow);
-- 
2.43.0


From d99840287be132eac41e7b0a2820b503d18eb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 088/161] fix: apop_anova with no grouping column crashed

---
 apop_tests.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 83e9c9a..bcb35e9 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -316,7 +316,7 @@ APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, ch
     char *apop_varad_var(data, NULL)
     Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
     char *apop_varad_var(grouping1, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
+    Apop_stopif(!grouping1, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
     char *apop_varad_var(grouping2, NULL)
 APOP_VAR_ENDHEAD
     apop_data *first = apop_anova_one_way(table, data, grouping1);
-- 
2.43.0


From 5ab4bfd4de0f37299a99bb44c92e9ad4cf2f14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 089/161] fix: ANOVA on a query that fails crashed

---
 apop_tests.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index bcb35e9..c607a6b 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -267,13 +267,14 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
  
     //total sum of squares:
     apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
+    Apop_stopif(!tss || tss->error, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
     double total_df = apop_data_get(tss, 0, 1) - 1;
     apop_data_set(out, 2, 1, total_df); //total df.
 
     //within group sum of squares:
     apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
+    Apop_stopif(!wss || wss->error, apop_return_data_error('q'), 0, "Grouping %s by %s failed. Does that look right to you?", table, grouping);
     double group_df = wss->matrix->size1-1;
     double within = 0;
     for (int i=0; i< wss->matrix->size1; i++)
-- 
2.43.0


From 2d3bdc968d6e58be482e6ef5e205d2577ccbae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 090/161] fix: jackknife covariance divided by n-1 twice

---
 apop_bootstrap.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index cf6cff4..8017196 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -78,7 +78,7 @@ apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
     }
     in->names = tmpnames;
     apop_data *out = apop_data_covariance(array_of_boots);
-    gsl_matrix_scale(out->matrix, 1./(n-1.));
+    gsl_matrix_scale(out->matrix, 1./n);
     apop_data_free(subset);
     gsl_vector_free(pseudoval);
     apop_data_free(array_of_boots);
-- 
2.43.0


From 6015b83ed2e166073971d8c12f521cb1c617fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 091/161] fix: bootstraps where the first estimate is NaN
 crashed; other NaN estimates were never written

---
 apop_bootstrap.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index 8017196..2d9ba4a 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -148,15 +148,15 @@ APOP_VAR_ENDHEAD
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        if (!gsl_isnan(apop_sum(estp))){
-            if (i==0){
+        if (ignore_nans!='y' || !gsl_isnan(apop_sum(estp))){
+            if (!array_of_boots){
                 array_of_boots	      = apop_data_alloc(iterations, estp->size);
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'v');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'c');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'r');
             }
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
-        } else if (ignore_nans=='y'){
+        } else {
             i--; 
             nan_draws++;
         }
-- 
2.43.0


From b71ac159e5dfbf627b8414d1da18e6523c8d56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 092/161] fix: bootstraps of models whose prep routine
 rearranges the data mixed old and new layouts

---
 apop_bootstrap.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index 2d9ba4a..36b0c03 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -130,21 +130,22 @@ APOP_VAR_HEAD apop_data * apop_bootstrap_cov(apop_data * data, apop_model *model
 APOP_VAR_ENDHEAD
     Get_vmsizes(data); //vsize, msize1, msize2
     apop_model *e = apop_model_copy(model);
-    apop_data *subset = apop_data_copy(data);
     apop_data *array_of_boots = NULL,
               *summary;
     //prevent and infinite regression of covariance calculation.
     Apop_model_add_group(e, apop_parts_wanted); //default wants for nothing.
     size_t i, nan_draws=0;
-    apop_name *tmpnames = (data && data->names) ? data->names : NULL; //save on some copying below.
-    if (data && data->names) data->names = NULL;
-
     int height = GSL_MAX(msize1, GSL_MAX(vsize, (data?(*data->textsize):0)));
 	for (i=0; i<iterations && nan_draws < iterations; i++){
+        //The estimation may rearrange its input, so start from a fresh copy every time.
+        apop_data *subset = apop_data_copy(data);
+        apop_name *tmpnames = (data && data->names) ? data->names : NULL; //save on some copying.
+        if (data && data->names) data->names = NULL;
 		for (size_t j=0; j< height; j++){       //create the data set
 			size_t randrow	= gsl_rng_uniform_int(rng, height);
             apop_data_memcpy(Apop_r(subset, j), Apop_r(data, randrow));
 		}
+        if (data) data->names = tmpnames;
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
@@ -162,9 +163,8 @@ APOP_VAR_ENDHEAD
         }
         apop_model_free(est);
         gsl_vector_free(estp);
+        apop_data_free(subset);
 	}
-    if(data) data->names = tmpnames;
-    apop_data_free(subset);
     apop_model_free(e);
     int set_error=0;
     Apop_stopif(i == 0 && nan_draws == iterations, apop_return_data_error(N),
-- 
2.43.0


From 599cc7732abb5eeae1948d4735b2dc6eb31da478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 093/161] fix: setting an element of a settings group the model
 does not have crashed

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 79d01cc..dcce18e 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -1120,7 +1120,7 @@ apop_model *optimal_mix = apop_estimate(input_data, mix); //Everything is set up
         type ## _settings *apop_tmp_settings = apop_settings_get_grp(model, #type, 'c');  \
         Apop_stopif(!apop_tmp_settings, (model)->error='s', 0, "You're trying to modify a setting in " \
                         #model "'s setting group of type " #type " but that model doesn't have such a group."); \
-    apop_tmp_settings->setting = (data);                \
+    if (apop_tmp_settings) apop_tmp_settings->setting = (data); \
     } while (0);
 
 /** \cond doxy_ignore */
-- 
2.43.0


From 0fa3c4a43bd4189f799e5afd85ba7c007f29e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 094/161] fix: size of the parameter model for models with a
 matrix of parameters

---
 apop_model.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index 2bfd327..09f214b 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -362,7 +362,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
     else if (d){
         Get_vmsizes(m->parameters);//vsize, msize1, msize2
         apop_model *out = apop_model_copy(apop_multivariate_normal);
-        out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1+msize2;
+        out->msize1 = out->vsize = out->msize2 = out->dsize = vsize+msize1*msize2;
         out->parameters = apop_bootstrap_cov(d, m, settings->rng, settings->draws);
         out->parameters->vector = apop_data_pack(m->parameters);
         if (settings->index == -1)
@@ -377,7 +377,7 @@ apop_model *apop_parameter_model(apop_data *d, apop_model *m){
         }
     } //else
     Get_vmsizes(m->parameters);//vsize, msize1, msize2
-    apop_data *param_draws = apop_data_alloc(0, settings->draws, vsize+msize1+msize2);
+    apop_data *param_draws = apop_data_alloc(0, settings->draws, vsize+msize1*msize2);
     for (int i=0; i < settings->draws; i++){
         apop_model *mm = apop_estimate (NULL, m);//If you're here, d==NULL.
         apop_data_pack(mm->parameters, Apop_rv(param_draws, i));
-- 
2.43.0


From 5750955c7a7fafb37115846d50fe69af0ee276d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 095/161] fix: an unweighted PMF draws every row with equal
 probability, including the last

---
 model/apop_pmf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 792a18a..72d06c4 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -139,7 +139,7 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     Get_vmsizes(m->data) //maxsize
     size_t current; 
     if (!m->data->weights) //all rows are equiprobable
-        current = gsl_rng_uniform(r)* (maxsize-1);
+        current = gsl_rng_uniform(r)* maxsize;
     else {
         size_t size = m->data->weights->size;
         #pragma omp critical (pmfsetuptwo)
-- 
2.43.0


From 4654f1baed8d7567b619d5b8d648c36fe218eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 096/161] fix: draws from a PMF with both vector and matrix
 give the whole row

---
 model/apop_pmf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 72d06c4..747d8ef 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -181,8 +181,8 @@ static int draw (double *out, gsl_rng *r, apop_model *m){
     if (outrow->vector)
         out[i++] = outrow->vector->data[0];
     if (outrow->matrix)
-        for( ; i < outrow->matrix->size2; i ++)
-            out[i] = gsl_matrix_get(outrow->matrix, 0, i);
+        for(int j=0; j < outrow->matrix->size2; j++)
+            out[i++] = gsl_matrix_get(outrow->matrix, 0, j);
     return 0;
 }
 
@@ -288,7 +288,8 @@ static void pmf_prep(apop_data * data, apop_model *model){
     if (model->data) return; //already prepped, and reprep is a no-op.
     apop_model_print_vtable_add(pmf_print, apop_pmf);
     Get_vmsizes(data) //msize2, firstcol
-    int width = msize2 ? msize2 : -firstcol;//use the vector only if there's no matrix.
+    int width = msize2 - firstcol; //a draw is a whole row: the vector, if any, then the matrix.
+    if (model->dsize==-1 && width) model->dsize = width;
     if (Apop_settings_get_group(model, apop_pmf) && Apop_settings_get(model, apop_pmf, draw_index)=='y' && !width) model->dsize=0;
     apop_model_clear(data, model);
 }
-- 
2.43.0


From f7d92079eaadc16fa504521072ee972a641e9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 097/161] fix: the CDF of a PMF is the cumulative mass,
 including the given point's

---
 model/apop_pmf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index 747d8ef..a4de230 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -271,14 +271,15 @@ static long double pmf_cmf(apop_data *d, apop_model *m){
     Get_vmsizes(m->data); //maxsize
     int elmt = find_in_data(m->data, Apop_r(d, 0));
     if (elmt == -1) return 0; //Can't find one observation: prob=0;
-    if (!m->data->weights) return (elmt+0.0)/maxsize;
+    //The data is sorted, so repetitions of the observation are adjacent.
+    while (elmt+1 < maxsize && are_equal(Apop_r(d, 0), Apop_r(m->data, elmt+1))) elmt++;
+    if (!m->data->weights) return (elmt+1.0)/maxsize;
     else {
         apop_pmf_settings *settings = Apop_settings_get_group(m, apop_pmf);
         if (!settings) settings = Apop_model_add_group(m, apop_pmf);
         if (!settings->cmf) setup_cmf(m);
         Apop_stopif(m->error=='f', return GSL_NAN, 0, "Zero or NaN density in the PMF.");
-        gsl_vector_view v = gsl_vector_subvector(settings->cmf, 0, elmt+1);
-        return apop_sum(&v.vector);
+        return gsl_vector_get(settings->cmf, elmt);
     }
 }
 
-- 
2.43.0


From 5e53f93fe106690b37cc4a32c3b2839bf8753e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 098/161] fix: the probability of a PMF observation includes
 all of the rows that match it

---
 model/apop_pmf.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/model/apop_pmf.c b/model/apop_pmf.c
index a4de230..51a9867 100644
--- a/model/apop_pmf.c
+++ b/model/apop_pmf.c
@@ -240,13 +240,21 @@ static long double pmf_p(apop_data *d, apop_model *m){
         model_pmf_length = maxsize;
     }
     Get_vmsizes(d)//maxsize
+    long double total_weight = !m->data->weights ? 0 //The weights may have been added since the estimation.
+                    : (settings && settings->total_weight) ? settings->total_weight : apop_sum(m->data->weights);
     long double p = 1;
     for (int i=0; i< maxsize; i++){
-        int elmt = find_in_data(m->data, Apop_r(d, i));
-        if (elmt == -1) return 0; //Can't find one observation: prob=0;
+        long double mass = 0; //There may be repeated rows.
+        int found = 0;
+        for (int j=0; j< model_pmf_length; j++)
+            if (are_equal(Apop_r(d, i), Apop_r(m->data, j))){
+                found++;
+                if (m->data->weights) mass += gsl_vector_get(m->data->weights, j);
+            }
+        if (!found) return 0; //Can't find one observation: prob=0;
         p *= m->data->weights
-                 ? m->data->weights->data[elmt] /settings->total_weight 
-                 : 1./model_pmf_length; //no weights means any known event is equiprobable
+                 ? mass /total_weight 
+                 : (found+0.0L)/model_pmf_length; //no weights means any row is equiprobable
     }
     return p;
 }
-- 
2.43.0


From fa02768084d811c5d34cbc7d8c7f90806232fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 099/161] fix: Kolmogorov-Smirnov: compare on both sides of
 each step, and use the step functions of both PMFs

---
 apop_hist.m4.c | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 1ceb4ce..3ceb604 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -212,6 +212,24 @@ static double psmirnov2x(double x, int m, int n) {
     return u[n];
 }
 
+//Is the data a list of scalars?
+static bool is_one_dim(apop_data const *d){
+    Get_vmsizes(d); //msize2, firstcol
+    return msize2 - firstcol == 1 && !d->textsize[1];
+}
+
+//The share of a PMF's mass in rows at or below x.
+static double mass_upto(apop_data const *d, double x){
+    Get_vmsizes(d); //maxsize, firstcol
+    long double mass = 0, total = 0;
+    for (int i=0; i< maxsize; i++){
+        double wt = d->weights ? gsl_vector_get(d->weights, i) : 1;
+        total += wt;
+        if (apop_data_get(d, i, firstcol) <= x) mass += wt;
+    }
+    return mass/total;
+}
+
 /** Run the Kolmogorov-Smirnov test to determine whether two distributions are identical.
 
 \param m1 A sorted PMF model. I.e., a model estimated via something like 
@@ -248,17 +266,30 @@ apop_data *apop_test_kolmogorov(apop_model *m1, apop_model *m2){
     {Get_vmsizes(m2->data); maxsize2 = maxsize;} //to the full function's scope.
     double largest_diff = GSL_NEGINF;
     double sum = 0;
-    for (size_t i=0; i< maxsize1; i++){
+    double total1 = m1->data->weights ? apop_sum(m1->data->weights) : maxsize1;
+    double total2 = m2_is_pmf && m2->data->weights ? apop_sum(m2->data->weights) : maxsize2;
+    if (m2_is_pmf && is_one_dim(m1->data) && is_one_dim(m2->data)){
+        //Both CDFs are step functions, and each step is at a point in one of the data sets.
+        int col1 = m1->data->vector ? -1 : 0, col2 = m2->data->vector ? -1 : 0;
+        for (int i=0; i< maxsize1 + maxsize2; i++){
+            double x = i < maxsize1 ? apop_data_get(m1->data, i, col1)
+                                    : apop_data_get(m2->data, i-maxsize1, col2);
+            largest_diff = GSL_MAX(largest_diff, fabs(mass_upto(m1->data, x) - mass_upto(m2->data, x)));
+        }
+    } else for (size_t i=0; i< maxsize1; i++){
         apop_data *arow = Apop_r(m1->data, i);
-        sum += m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1./maxsize1;
-        largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m2)));
+        double cdf = apop_cdf(arow, m2);
+        if (!m2_is_pmf) //m2 is continuous, so look at the bottom of the step too.
+            largest_diff = GSL_MAX(largest_diff, fabs(sum-cdf));
+        sum += (m1->data->weights ? gsl_vector_get(m1->data->weights, i) : 1)/total1;
+        largest_diff = GSL_MAX(largest_diff, fabs(sum-cdf));
     }
-    if (m2_is_pmf){
+    if (m2_is_pmf && !(is_one_dim(m1->data) && is_one_dim(m2->data))){
         double sum = 0;
         for (size_t i=0; i< maxsize2; i++){     //There could be matched data rows to m1, so there is redundancy.
             apop_data *arow = Apop_r(m2->data, i);   // Feel free to submit a smarter version.
-            sum += m2->data->weights ? gsl_vector_get(m2->data->weights, i) : 1./maxsize2;
-            largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m2)));
+            sum += (m2->data->weights ? gsl_vector_get(m2->data->weights, i) : 1)/total2;
+            largest_diff = GSL_MAX(largest_diff, fabs(sum-apop_cdf(arow, m1)));
         }
     }
     apop_data *out = apop_data_alloc();
-- 
2.43.0


From c104b3a9425da1b824815c522529cadb758472a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 100/161] fix: close the top bin whatever its scale, bin
 constant columns, and use the maximum when a binspec is given

---
 apop_hist.m4.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 3ceb604..b85e89e 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -360,7 +360,7 @@ APOP_VAR_HEAD apop_data *apop_data_to_bins(apop_data const *indata, apop_data co
     int apop_varad_var(bin_count, 0);
 APOP_VAR_ENDHEAD
     Get_vmsizes(indata); //firstcol, vsize, msize1, msize2
-    double binwidth, offset, max=0;
+    double binwidth, offset, max;
     apop_data *out = apop_data_alloc(vsize, msize1, msize2);
     apop_data const *bs = binspec ? binspec
                     : apop_data_add_page(out, 
@@ -369,20 +369,23 @@ APOP_VAR_ENDHEAD
     for (int j= firstcol; j< msize2; j++){
         gsl_vector *onecol = Apop_cv(out, j);
         gsl_vector *datacol = Apop_cv(indata, j);
+        max = gsl_vector_max(datacol);
         if (binspec){
            binwidth = apop_data_get(binspec, 0, j);
            offset = ((binspec->vector && binspec->vector->size==2 )
                    ||(binspec->matrix && binspec->matrix->size1==2)) ? apop_data_get(binspec, 1, j) : 0;
         } else {
             gsl_vector *abin = Apop_cv(bs, j);
-            max = gsl_vector_max(datacol);
             gsl_vector_set(abin, 1, offset = gsl_vector_min(datacol));
             gsl_vector_set(abin, 0, binwidth = (max - offset)/(bin_count ? bin_count : sqrt(datacol->size)));
         }
         for (int i=0; i< onecol->size; i++){
             double val = gsl_vector_get(datacol, i);
-            double adjust = (close_top_bin=='y' && val == max && val!=offset) ? 2*GSL_DBL_EPSILON : 0;
-            gsl_vector_set(onecol, i, (floor((val-offset-adjust)/binwidth))*binwidth+offset);
+            double bin = binwidth ? floor((val-offset)/binwidth) : 0; //zero width==a constant column
+            //If the maximum is alone at the bottom of a bin, put it at the top of the bin below.
+            if (close_top_bin=='y' && val == max && val!=offset && 
+                        (val-offset)/binwidth - bin <= 2*GSL_DBL_EPSILON*fabs(bin)) bin--;
+            gsl_vector_set(onecol, i, bin*binwidth+offset);
         }
     }
     if (indata->weights) out->weights = apop_vector_copy(indata->weights);
-- 
2.43.0


From 3ac3e32b91a315245370fe2c5d4cabe59561f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 101/161] fix: each copy of a mixture model owns its list of
 parameter sizes

---
 transform/apop_mixture.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 663ed6b..acbe363 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -98,6 +98,10 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 
 Apop_settings_copy(apop_mixture,
     (*out->cmf_refct)++;
+    if (in->param_sizes) {
+        out->param_sizes = malloc(sizeof(int)*in->model_count);
+        memcpy(out->param_sizes, in->param_sizes, sizeof(int)*in->model_count);
+    }
     out->next_weights = apop_vector_copy(in->next_weights);
 )
 
-- 
2.43.0


From 7d78efbfad5e70dad6bc56354ba565bed6f10f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 102/161] fix: mixtures including a component without
 parameters pack and unpack the others

---
 transform/apop_mixture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index acbe363..ed12a05 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -184,7 +184,7 @@ void unpack(apop_model *min){
     if (posn && (ms->find_weights && ms->find_weights!='n' && ms->find_weights!='N') && ms->next_weights)
         gsl_vector_memcpy(ms->weights, Apop_rs(min->parameters, 0, posn)->vector);
     for (apop_model **m = ms->model_list; *m; m++){
-        if (!ms->param_sizes[i]) continue; //NULL params
+        if (!ms->param_sizes[i]) {i++; continue;} //NULL params
         gsl_vector v = gsl_vector_subvector(min->parameters->vector, posn, ms->param_sizes[i]).vector;
         apop_data_unpack(&v, (*m)->parameters);
         posn+=ms->param_sizes[i++];
@@ -313,7 +313,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     if (penalty){
         int posn=0, i=0;
         for (apop_model **m = ms->model_list; *m; m++){
-            if (!ms->param_sizes[i]) continue; //NULL params
+            if (!ms->param_sizes[i]) {i++; continue;} //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
             apop_data_pack((*m)->parameters, &v);
             posn+=ms->param_sizes[i++];
-- 
2.43.0


From 4e3dce23dbcf4e39e6ec119b2dfc9fd8665e4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 103/161] fix: the mixture constraint writes corrected
 component parameters after the weights, not over them

---
 transform/apop_mixture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index ed12a05..b741e63 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -311,7 +311,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     for (apop_model **m = ms->model_list; *m; m++)
         penalty += (*m)->constraint(data, *m);
     if (penalty){
-        int posn=0, i=0;
+        int posn=(ms->weights ? ms->weights->size : 0), i=0;
         for (apop_model **m = ms->model_list; *m; m++){
             if (!ms->param_sizes[i]) {i++; continue;} //NULL params
             gsl_vector v = gsl_vector_subvector(model_in->parameters->vector, posn, ms->param_sizes[i]).vector;
-- 
2.43.0


From 1ac3bb7b3a3fd7d3ba11615c7ae383300dab3a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 104/161] fix: the mixture log likelihood multiplies densities
 by the component weights

---
 transform/apop_mixture.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index b741e63..450b32a 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -239,9 +239,10 @@ static long double mixture_log_likelihood(apop_data *d, apop_model *model_in){
     apop_data *lls = get_lls(d, model_in);
 
     //reweight by last round's lambda 
+    long double total_weight = apop_sum(ms->weights);
     for (int i=0; i< lls->matrix->size2; i++){
         Apop_col_v(lls, i, onecol);
-        gsl_vector_add_constant(onecol, gsl_vector_get(ms->weights, i));
+        gsl_vector_add_constant(onecol, log(gsl_vector_get(ms->weights, i)/total_weight));
     }
 
 //OK, now we need the λs, and then the max ll for each observation
@@ -256,11 +257,10 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
     for (int i=0; i< lls->matrix->size1; i++){
         Apop_row_v(lls, i, onerow);
         total_ll += gsl_vector_max(onerow);
-        for (int j=0; j < onerow->size; j++){
-            gsl_vector_memcpy(cp, onerow);
-            gsl_vector_add_constant(cp, -gsl_vector_get(onerow, j));
-            gsl_vector_set(ps, j, 1./sum_exp_vector(cp));
-        }
+        gsl_vector_memcpy(cp, onerow);
+        gsl_vector_add_constant(cp, -gsl_vector_max(onerow));
+        for (int j=0; j < onerow->size; j++)
+            gsl_vector_set(ps, j, exp(gsl_vector_get(cp, j))/sum_exp_vector(cp));
         gsl_vector_memcpy(onerow, ps);
 
         Apop_stopif(fabs(apop_sum(onerow) - 1) > 1e-3, /*Warn user, but continue.*/, 0,
-- 
2.43.0


From b94e74def7e40124609c39d2537ee6ab2608021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 105/161] fix: copies of data-constrained models do not share
 the vector of last-used parameters

---
 transform/apop_dconstrain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index ff3b9e5..c6a268a 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -59,10 +59,10 @@ Apop_settings_init(apop_dconstrain,
     if (!in.scaling) out->scaling = get_scaling;
 )
 
-Apop_settings_copy(apop_dconstrain, in->refct++;)
-Apop_settings_free(apop_dconstrain, in->refct--;
-        if(!in->refct) gsl_vector_free(in->last_params);
+Apop_settings_copy(apop_dconstrain,
+    if (in->last_params) out->last_params = apop_vector_copy(in->last_params);
 )
+Apop_settings_free(apop_dconstrain, gsl_vector_free(in->last_params);)
 
 static void dc_prep(apop_data *d, apop_model *m){
     apop_dconstrain_settings *cs = Apop_settings_get_group(m, apop_dconstrain); 
-- 
2.43.0


From acd47d9fa3a08139ba0c26e9d62e64e2ebcd054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 106/161] fix: fixed-parameter models pack free parameters from
 every page

---
 transform/apop_fix_params.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 53bbccb..a7d695f 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -102,13 +102,13 @@ static void pack(apop_data *in, apop_model *m){
     //real param set --> predict table 
    apop_fix_params_settings *mset = Apop_settings_get_group(m, apop_fix_params);
    apop_data *predict = mset->predict;
+    int this_page = 0;
     for(int i =0; i< predict->matrix->size1; i++){
+        int p = apop_data_get(predict, .row=i, .colname="page");
+        for ( ; this_page < p; this_page++) in = in->more; //entries are in page order, but may skip pages.
         apop_data_set(predict, .row =i, .colname="value", .val=apop_data_get(in, 
                                                         apop_data_get(predict, .row=i, .colname="row"),
                                                         apop_data_get(predict, .row=i, .colname="col")));
-        if (i< mset->ct-1 && apop_data_get(predict, .row= i+1, .colname="page") 
-                                != apop_data_get(predict, .row= i, .colname="page"))
-            in = in->more;
     }
    Apop_col_tv(mset->predict, "value", p_in_tab);
    if (m->parameters) //empty only during set_starting_point
-- 
2.43.0


From 4cc5f361cd4f27f738ec20e2f8cc3b7657640795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 107/161] fix: crossing zero or one models returns as
 documented

---
 transform/apop_cross.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index 9bcaeed..a793caa 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -141,9 +141,9 @@ apop_model *apop_cross = &(apop_model){"Cross product of models", .p=cross_p, .l
 
 apop_model *apop_model_cross_base(apop_model *mlist[]){
     apop_model_print_vtable_add(cross_print, apop_cross);
-    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='i', 
+    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='n'; return oute, 
                             0, "No inputs. Returning blank model with outmodel->error=='n'.");
-    Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
+    Apop_stopif(!mlist[1], return apop_model_copy(mlist[0]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
     Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2);
-- 
2.43.0


From 926231c4fb8c82410c59f768ced832de13f3fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 108/161] fix: copies of kernel density models own their PMF
 and kernel

---
 model/apop_kerneld.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index f3c8d1b..4444d39 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -65,8 +65,8 @@ Apop_settings_init(apop_kernel_density,
 )
 
 Apop_settings_copy(apop_kernel_density,
-    out->own_pmf    =
-    out->own_kernel = 0;
+    if (in->own_pmf)    out->base_pmf = apop_model_copy(in->base_pmf);
+    if (in->own_kernel) out->kernel   = apop_model_copy(in->kernel);
 )
 
 Apop_settings_free(apop_kernel_density,
-- 
2.43.0


From 07bb3a7a3cee4225fb692ae6e4aa427457ad0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 109/161] fix: mixtures with a component that has no constraint
 crashed

---
 transform/apop_mixture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 450b32a..ea2493b 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -309,7 +309,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     unpack(model_in);
     //check all component models.
     for (apop_model **m = ms->model_list; *m; m++)
-        penalty += (*m)->constraint(data, *m);
+        if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
         int posn=(ms->weights ? ms->weights->size : 0), i=0;
         for (apop_model **m = ms->model_list; *m; m++){
-- 
2.43.0


From ef558437567b001d01430044d48688c2dca99e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 110/161] fix: the starting point for fixed-parameter models is
 that of the free parameters, on every page

---
 transform/apop_fix_params.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index a7d695f..2d0aaff 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -182,7 +182,10 @@ static apop_model *fixed_param_model = &(apop_model){"Fill me", .estimate=fixed_
 void set_starting_point(apop_data * in_params, apop_model * model_out, double *start, apop_data *predict_tab){
     //reshape the starting_pt to the shape of typical params
     apop_data *param_cp = apop_data_copy(in_params);
-    Get_vmsizes(in_params);//tsize
+    int tsize = 0;
+    for (apop_data *page = in_params; page; page = page->more)
+        tsize += (page->vector ? page->vector->size : 0)
+                + (page->matrix ? page->matrix->size1 * page->matrix->size2 : 0);
     gsl_vector_view v = gsl_vector_view_array(start, tsize);
     apop_data_unpack(&(v.vector), param_cp);
 
@@ -190,7 +193,7 @@ void set_starting_point(apop_data * in_params, apop_model * model_out, double *s
     apop_data_free(param_cp);
     Apop_col_tv(predict_tab, "value", ptv);
     double *new_start = malloc(ptv->size * sizeof(double)); //leak!!
-    memcpy(new_start, ptv->data, ptv->size* sizeof(double));
+    for (int i=0; i< ptv->size; i++) new_start[i] = gsl_vector_get(ptv, i);
     Apop_settings_add(model_out, apop_mle, starting_pt, new_start);
 }
 
-- 
2.43.0


From 1974c74b4496555a0a19ba982bb697715cf7a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 111/161] fix: apop_linear_constraint compared against the
 closest point of earlier calls

---
 apop_linear_constraint.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 688242a..8002ee9 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -151,8 +151,8 @@ APOP_VAR_ENDHEAD
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
         fix         = gsl_vector_alloc(beta->size);
-        closest_pt->data[0] = GSL_NEGINF;
     }
+    closest_pt->data[0] = GSL_NEGINF; //infinitely far until this call finds a candidate.
     /* Do any constraints bind?*/
     memset(bindlist, 0, sizeof(int)*constraint_ct);
     for (i=0; i< constraint_ct; i++){
-- 
2.43.0


From 9003f0594eb10fd1e72cf46a878386f93a8a2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 112/161] fix: linear constraints whose coefficients are not
 unit vectors

---
 apop_linear_constraint.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 8002ee9..4e030e1 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -5,6 +5,7 @@ Copyright (c) 2007, 2009 by Ben Klemens.  Licensed under the GPLv2; see COPYING.
 */
 #include "apop_internal.h"
 
+//The squared Euclidean length.
 static double magnitude(gsl_vector *v){
     double out;
     gsl_blas_ddot(v, v, &out);
@@ -34,7 +35,7 @@ static int binds(gsl_vector const *v, double k, gsl_vector const *b, double marg
 static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
     double theta, costheta, dot, out;
     gsl_blas_ddot(dimv, otherv, &dot);
-    costheta = dot/(magnitude(dimv)*magnitude(otherv));
+    costheta = dot/sqrt(magnitude(dimv)*magnitude(otherv));
     theta = acos(costheta);
     out = off_by/gsl_pow_2(sin(theta)); 
     return out;
@@ -74,7 +75,7 @@ static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, g
                 off_by  = apop_vector_distance(pseudocandidate, pseudocandidate2);
                 s       = trig_bit(cc, other, off_by);
                 gsl_vector_memcpy(fix, cc);
-                gsl_vector_scale(fix, magnitude(cc));
+                gsl_vector_scale(fix, 1/sqrt(magnitude(cc)));
                 gsl_vector_scale(fix, s);
                 gsl_vector_add(pseudobeta, fix);
                 find_nearest_point(pseudobeta, k, other, candidate);
-- 
2.43.0


From 16e400c4b292cd7b653a321f337b0f679a1719c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 113/161] fix: the point returned by apop_linear_constraint is
 inside every border by the margin

---
 apop_linear_constraint.m4.c | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/apop_linear_constraint.m4.c b/apop_linear_constraint.m4.c
index 4e030e1..bbc6435 100644
--- a/apop_linear_constraint.m4.c
+++ b/apop_linear_constraint.m4.c
@@ -26,10 +26,10 @@ assert(!gsl_isnan(S));
 assert(!gsl_isnan(gsl_vector_get(out,0)));
 }
 
-static int binds(gsl_vector const *v, double k, gsl_vector const *b, double margin){
+static int binds(gsl_vector const *v, double k, gsl_vector const *b){
     double d;
     gsl_blas_ddot(v, b, &d);
-    return d < k + margin;
+    return d < k;
 }
 
 static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
@@ -49,20 +49,20 @@ static double trig_bit(gsl_vector *dimv, gsl_vector *otherv, double off_by){
    projection of the translated beta onto the new surface now also touches the old
    surface.
    */
-static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, gsl_vector *candidate, double margin){
+static void get_candiate(gsl_vector *beta, apop_data *constraint, int current, gsl_vector *candidate, double const *borders){
     double k, ck, off_by, s;
     gsl_vector *pseudobeta        = NULL;
     gsl_vector *pseudocandidate   = NULL;
     gsl_vector *pseudocandidate2  = NULL;
     gsl_vector *fix               = NULL;
     gsl_vector *cc = Apop_rv(constraint, current);
-    ck = gsl_vector_get(constraint->vector, current);
+    ck = borders[current];
     find_nearest_point(beta, ck, cc, candidate);
     for (size_t i=0; i< constraint->vector->size; i++){
         if (i!=current){
             gsl_vector *other = Apop_rv(constraint, i);
-            k   =apop_data_get(constraint, i, -1);
-            if (binds(candidate, k, other, margin)){
+            k   = borders[i];
+            if (binds(candidate, k, other)){
                 if (!pseudobeta){
                     pseudobeta          = gsl_vector_alloc(beta->size);
                     gsl_vector_memcpy(pseudobeta, beta);
@@ -143,31 +143,31 @@ APOP_VAR_HEAD long double  apop_linear_constraint(gsl_vector *beta, apop_data *
 APOP_VAR_ENDHEAD
     static threadlocal gsl_vector *closest_pt = NULL;
     static threadlocal gsl_vector *candidate  = NULL;
-    static threadlocal gsl_vector *fix        = NULL;
     int constraint_ct = constraint->matrix->size1;
+    double borders[constraint_ct]; //each constraint, moved in by the margin
     int bindlist[constraint_ct];
     int i, bound = 0;
     /* For added efficiency, keep a scratch vector or two on hand. */
     if (closest_pt==NULL || closest_pt->size != constraint->matrix->size2){
         closest_pt  = gsl_vector_calloc(beta->size);
         candidate   = gsl_vector_alloc(beta->size);
-        fix         = gsl_vector_alloc(beta->size);
     }
     closest_pt->data[0] = GSL_NEGINF; //infinitely far until this call finds a candidate.
     /* Do any constraints bind?*/
     memset(bindlist, 0, sizeof(int)*constraint_ct);
     for (i=0; i< constraint_ct; i++){
         gsl_vector *c = Apop_rv(constraint, i);
+        borders[i]  = apop_data_get(constraint, i, -1) + (margin ? margin * sqrt(magnitude(c)) : 0);
         bound       +=
-        bindlist[i] = binds(beta, apop_data_get(constraint, i, -1), c, margin);
+        bindlist[i] = binds(beta, borders[i], c);
     }
     if (!bound) return 0;   //All constraints met.
     gsl_vector *base_beta = apop_vector_copy(beta);
     /* With only one constraint, it's easy. */
     if (constraint->vector->size==1){
         gsl_vector *c = Apop_rv(constraint, 0);
-        find_nearest_point(base_beta, constraint->vector->data[0], c, beta);
-        goto add_margin;
+        find_nearest_point(base_beta, borders[0], c, beta);
+        goto penalty;
     }
     /* Finally, multiple constraints, at least one binding.
        For each surface, pick a candidate point.
@@ -180,20 +180,12 @@ APOP_VAR_ENDHEAD
      */
     for (i=0; i< constraint_ct; i++)
         if (bindlist[i]){
-            get_candiate(base_beta, constraint, i, candidate, margin);
+            get_candiate(base_beta, constraint, i, candidate, borders);
             if(apop_vector_distance(base_beta, candidate) < apop_vector_distance(base_beta, closest_pt))
                 gsl_vector_memcpy(closest_pt, candidate);
         }
     gsl_vector_memcpy(beta, closest_pt);
-add_margin:
-    for (i=0; i< constraint_ct; i++){
-        if(bindlist[i]){
-            gsl_vector_memcpy(fix, Apop_rv(constraint, i));
-            gsl_vector_scale(fix, magnitude(fix));
-            gsl_vector_scale(fix, margin);
-            gsl_vector_add(beta, fix);
-        }
-    }
+penalty: ;
     long double out = apop_vector_distance(base_beta, beta);
     gsl_vector_free(base_beta);
     return out;
-- 
2.43.0


From 20474fb06a2c11707552854f55bef3680f203b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 114/161] fix: updating with a likelihood that has no
 constraint crashed

---
 apop_update.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index edf0617..a6cdd96 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -33,7 +33,7 @@ static long double product_constraint(apop_data *data, apop_model *m){
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
     gsl_vector_free(v);
-    return pl[1]->constraint(data, pl[1]);
+    return pl[1]->constraint ? pl[1]->constraint(data, pl[1]) : 0;
 }
 
 apop_model *product = &(apop_model){"product of two models", 
-- 
2.43.0


From 0758979db6327fa237cea59c1a6dd65a2c66c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 115/161] fix: gamma/exponential and gamma/Poisson updating
 count every element of the data

---
 apop_update.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index a6cdd96..ace38b6 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -71,8 +71,8 @@ static apop_model *betabernie(apop_data *data, apop_model *prior, apop_model *li
 
 static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *likelihood){
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //maxsize
-    *gsl_vector_ptr(outp->parameters->vector, 0) += maxsize;
+    Get_vmsizes(data); //tsize
+    *gsl_vector_ptr(outp->parameters->vector, 0) += tsize;
     apop_data_set(outp->parameters, 1, .val=1./
                           (1./apop_data_get(outp->parameters, 1) 
                         + (data->matrix ? apop_matrix_sum(data->matrix) : 0)
@@ -83,13 +83,13 @@ static apop_model *gammaexpo(apop_data *data, apop_model *prior, apop_model *lik
 static apop_model *gammapoisson(apop_data *data, apop_model *prior, apop_model *likelihood){
     /* Posterior alpha = alpha_0 + sum x; posterior beta = beta_0/(beta_0*n + 1) */
     apop_model *outp = apop_model_copy(prior);
-    Get_vmsizes(data); //vsize, msize1,maxsize
+    Get_vmsizes(data); //vsize, msize1, tsize
     *gsl_vector_ptr(outp->parameters->vector, 0) +=
                          (vsize  ? apop_sum(data->vector): 0) +
                          (msize1 ? apop_matrix_sum(data->matrix): 0);
 
     double *beta = gsl_vector_ptr(outp->parameters->vector, 1);
-    *beta = *beta/(*beta * maxsize + 1);
+    *beta = *beta/(*beta * tsize + 1);
     return outp;
 }
 
-- 
2.43.0


From aa0cef6c6271979206452ed4f140668019b1ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 116/161] fix: Normal/Normal updating crashed when the data has
 no matrix, and ignored the vector

---
 apop_update.m4.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/apop_update.m4.c b/apop_update.m4.c
index ace38b6..d24f1a3 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -111,8 +111,19 @@ likelihood. If you give me a parametrized normal, with no data, then I'll take t
         var_like = gsl_pow_2(likelihood->parameters->vector->data[1]);
         n        = 1;
     } else {
-        n = data->matrix->size1 * data->matrix->size2;
-        apop_matrix_mean_and_var(data->matrix, &mu_like, &var_like);
+        Get_vmsizes(data); //tsize
+        n = tsize;
+        if (!data->vector)
+            apop_matrix_mean_and_var(data->matrix, &mu_like, &var_like);
+        else {
+            gsl_vector *all = gsl_vector_alloc(tsize);
+            for (int i=0; i< vsize; i++) gsl_vector_set(all, i, gsl_vector_get(data->vector, i));
+            for (int i=0; i< msize1*msize2; i++)
+                gsl_vector_set(all, vsize+i, gsl_matrix_get(data->matrix, i/msize2, i%msize2));
+            mu_like = apop_vector_mean(all);
+            var_like = apop_vector_var(all)*(tsize-1.)/tsize; //population variance, like the matrix version.
+            gsl_vector_free(all);
+        }
     }
     gsl_vector_set(outp->parameters->vector, 0, (mu_pri/var_pri + n*mu_like/var_like)/(1/var_pri + n/var_like));
     gsl_vector_set(outp->parameters->vector, 1, pow((1/var_pri + n/var_like), -.5));
-- 
2.43.0


From 8fb443c165ccd0fb8f8ebc72c1bcb14dcc0f95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 117/161] fix: the chain from apop_model_metropolis wrote past
 its output for some burn-ins

---
 apop_mcmc.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 54b461a..74644cd 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -298,8 +298,8 @@ APOP_VAR_END_HEAD
                 1, "Burn-in should be a fraction of the number of periods, "
                    "not a whole number of periods. Rescaling to burnin=%g."
                    , s->burnin/double_periods);
-		double integerpart_periods_cburnin = GSL_NAN; modf(double_periods*(1.0-s->burnin),&integerpart_periods_cburnin);
-		const size_t data_size1 = llround(integerpart_periods_cburnin);
+		double integerpart_periods_burnin = GSL_NAN; modf(double_periods*s->burnin,&integerpart_periods_burnin);
+		const size_t data_size1 = s->periods - llround(integerpart_periods_burnin); //see main_mcmc_loop
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
     if (!s->proposals){
@@ -326,7 +326,7 @@ APOP_VAR_END_HEAD
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
     Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
 
-    out->weights = gsl_vector_alloc(s->periods*(1-s->burnin));
+    out->weights = gsl_vector_alloc(data_size1);
     gsl_vector_set_all(out->weights, 1);
     outp = apop_estimate(out, apop_pmf);
     s->pmf = outp;
-- 
2.43.0


From 8a21079cefb978b0a63b2a8af2be1bcdce90fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 118/161] fix: one_step leaked its copy of the last draw

---
 apop_mcmc.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 74644cd..c054844 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -135,6 +135,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
         apop_data_unpack(draw, m->parameters); //keep the last success in m->parameters.
     }
     if (out_row>=0) gsl_vector_memcpy(Apop_rv(out, out_row), draw);
+    gsl_vector_free(clean_copy);
 }
 
 
-- 
2.43.0


From f8575e8e472197072979459f0d47f3230bc295eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 119/161] fix: further draws from a Markov chain have weights,
 like the first ones

---
 apop_mcmc.m4.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index c054844..ebd7eeb 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -183,6 +183,10 @@ OMP_critical (metro_draw)
     while (!done){
         s->proposal_count++;
         earlier_draws->matrix = apop_matrix_realloc(earlier_draws->matrix, earlier_draws->matrix->size1+1, earlier_draws->matrix->size2);
+        if (earlier_draws->weights){
+            earlier_draws->weights = apop_vector_realloc(earlier_draws->weights, earlier_draws->matrix->size1);
+            gsl_vector_set(earlier_draws->weights, earlier_draws->matrix->size1-1, 1);
+        }
         one_step(s->base_model->data, &(vv.vector), m, s, rng, &constraint_fails, 
                             earlier_draws, block, earlier_draws->matrix->size1-1);
         block = (block+1) % s->block_count;
-- 
2.43.0


From bb9ac499fc502a3f737f4caac1699923aac2e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 120/161] fix: further draws from a Markov chain use the data
 the chain began with

---
 apop_mcmc.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index ebd7eeb..442bc06 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -187,7 +187,7 @@ OMP_critical (metro_draw)
             earlier_draws->weights = apop_vector_realloc(earlier_draws->weights, earlier_draws->matrix->size1);
             gsl_vector_set(earlier_draws->weights, earlier_draws->matrix->size1-1, 1);
         }
-        one_step(s->base_model->data, &(vv.vector), m, s, rng, &constraint_fails, 
+        one_step(s->data, &(vv.vector), m, s, rng, &constraint_fails, 
                             earlier_draws, block, earlier_draws->matrix->size1-1);
         block = (block+1) % s->block_count;
         done = !block; //have looped back to the start.
@@ -336,6 +336,7 @@ APOP_VAR_END_HEAD
     outp = apop_estimate(out, apop_pmf);
     s->pmf = outp;
     s->base_model = m;
+    s->data = d;
     outp->draw = apop_model_metropolis_draw;
     apop_settings_copy_group(outp, m, "apop_mcmc");
 
-- 
2.43.0


From 5377f736b4d0420662b7aa143764f1390c9e972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 121/161] fix: Markov chain output is marked when proposals
 failed the constraint, as documented

---
 apop_mcmc.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 442bc06..f7f7040 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -329,7 +329,7 @@ APOP_VAR_END_HEAD
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
 
     Apop_notify(2, "M-H sampling accept percent = %3.3f%%", 100*(0.0+s->accept_count)/s->periods);
-    Apop_stopif(constraint_fails, out->error='c', 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
+    Apop_stopif(constraint_fails, , 2, "%i proposals failed to meet your model's parameter constraints", constraint_fails);
 
     out->weights = gsl_vector_alloc(data_size1);
     gsl_vector_set_all(out->weights, 1);
@@ -338,6 +338,7 @@ APOP_VAR_END_HEAD
     s->base_model = m;
     s->data = d;
     outp->draw = apop_model_metropolis_draw;
+    if (constraint_fails) outp->error = 'c';
     apop_settings_copy_group(outp, m, "apop_mcmc");
 
     gsl_vector_free(drawv);
-- 
2.43.0


From ce65cea01edd43f201086f575717902302e0f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 122/161] fix: Markov chains told to start from the model
 parameters do

---
 apop_mcmc.m4.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index f7f7040..2435aa8 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -63,10 +63,11 @@ Apop_settings_free(apop_mcmc,
         }
 )
 
-static void setup_normal_proposals(apop_mcmc_proposal_s *s, int tsize, apop_mcmc_settings *settings){
+static void setup_normal_proposals(apop_mcmc_proposal_s *s, gsl_vector const *start, apop_mcmc_settings *settings){
+    int tsize = start->size;
     apop_model *mvn =  apop_model_copy(apop_multivariate_normal);
     mvn->parameters = apop_data_alloc(tsize, tsize, tsize);
-    gsl_vector_set_all(mvn->parameters->vector, 1);
+    gsl_vector_memcpy(mvn->parameters->vector, start);
     gsl_matrix_set_identity(mvn->parameters->matrix);
     s->proposal = mvn;
     s->step_fn = settings->base_step_fn;
@@ -307,13 +308,16 @@ APOP_VAR_END_HEAD
 		const size_t data_size1 = s->periods - llround(integerpart_periods_burnin); //see main_mcmc_loop
     apop_data *out = apop_data_alloc(data_size1, drawv->size);
 
+    //if s->start_at =='p', we already have m->parameters in drawv.
+    if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
     if (!s->proposals){
         set_block_count_and_block_starts(m->parameters, s, drawv->size);
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
         for (int i=0; i< s->block_count; i++){
             apop_mcmc_proposal_s *p = s->proposals+i;
-            setup_normal_proposals(p, s->block_starts[i+1]-s->block_starts[i], s);
+            gsl_vector_view start = gsl_vector_subvector(drawv, s->block_starts[i], s->block_starts[i+1]-s->block_starts[i]);
+            setup_normal_proposals(p, &start.vector, s);
             if (!p->proposal->parameters) {
                 apop_prep(NULL, p->proposal+i);
                 if(p->proposal->parameters->matrix) gsl_matrix_set_all(p->proposal->parameters->matrix, 1);
@@ -322,8 +326,6 @@ APOP_VAR_END_HEAD
         }
     }
 
-    //if s->start_at =='p', we already have m->parameters in drawv.
-    if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
     int constraint_fails = 0;
 
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
-- 
2.43.0


From 7c418908f3fafe166d44223c97445633cfab6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 123/161] fix: proposals provided to apop_model_metropolis
 crashed: the blocks were not set up

---
 apop_mcmc.m4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 2435aa8..91b9844 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -310,8 +310,8 @@ APOP_VAR_END_HEAD
 
     //if s->start_at =='p', we already have m->parameters in drawv.
     if (s->start_at == '1') gsl_vector_set_all(drawv, 1);
+    if (!s->block_starts) set_block_count_and_block_starts(m->parameters, s, drawv->size);
     if (!s->proposals){
-        set_block_count_and_block_starts(m->parameters, s, drawv->size);
         s->proposals = calloc(s->block_count, sizeof(apop_mcmc_proposal_s));
         s->proposal_is_cp = 1;
         for (int i=0; i< s->block_count; i++){
@@ -326,6 +326,10 @@ APOP_VAR_END_HEAD
         }
     }
 
+    for (int i=0; i< s->block_count; i++){
+        if (!s->proposals[i].step_fn) s->proposals[i].step_fn = s->base_step_fn;
+        if (!s->proposals[i].adapt_fn) s->proposals[i].adapt_fn = s->base_adapt_fn;
+    }
     int constraint_fails = 0;
 
     main_mcmc_loop(d, m, out, drawv, s, rng, &constraint_fails);
-- 
2.43.0


From df8fb6995b7237e39c86dc147e9f5af7abe03d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 124/161] fix: raking that converges in its last round was
 marked as not converging, and raking that does not converge was not marked

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 7b0e800..bdef91d 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -322,7 +322,7 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
     }
     cleanup(index, rakeinfos,contrast_ct);
     gsl_vector_free(previous);
-    Apop_stopif(k == maxit, fit->error='c', 0, "Maximum number of iterations reached.");
+    Apop_stopif(k > maxit, fit->error='c', 0, "Maximum number of iterations reached.");
 }
 
 char *pipe_parse = "[ \n\t]*([^| \n\t]+)[ \n\t]*([|]|$)";
-- 
2.43.0


From b461df0adf2f492683628d6e457ae70d3445fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 125/161] fix: raking a table of more than six variables
 without listing them failed

---
 apop_rake.m4.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index bdef91d..264db39 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -344,13 +344,15 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
                     0, "I need a list of the full set of variable "
                        "names sent as .varlist= (char *[]){\"var1\", \"var2\",...}");
         //use SQLite's table_info, then shift the second col to the first.
-        all_vars_d = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        apop_data *cols = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
         int ctr=0;
-        for (int i=0; i< all_vars_d->textsize[0]; i++)
-            if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
-                 && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, all_vars_d->text[i][1]);
+        all_vars_d = apop_text_alloc(NULL, 1, cols->textsize[0]);
+        for (int i=0; i< cols->textsize[0]; i++)
+            if (cols->text[i][1] && (count_col ? strcmp(cols->text[i][1], count_col) : 1)
+                 && (init_count_col ? strcmp(cols->text[i][1], init_count_col): 1))
+                    apop_text_set(all_vars_d, 0, ctr++, "%s", cols->text[i][1]);
         apop_text_alloc(all_vars_d, 1, ctr);
+        apop_data_free(cols);
         *var_ct = ctr;
     } else {
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
-- 
2.43.0


From e8ca33f28e67652fd3e2c256331f424dacf94e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 126/161] fix: looking up a missing value among the categories
 to be raked read past the end of the list

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 264db39..b2c28e4 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -47,7 +47,7 @@ typedef void(*index_apply_f)(mnode_t * const * const, int, void*);
 /** \endcond */
 
 static int find_val(double findme, mnode_t *nodecol){
-    for (int i=0; nodecol[i].val <= findme || gsl_isnan(findme); i++)
+    for (int i=0; !isinf(nodecol[i].val); i++)
         if (nodecol[i].val == findme || (gsl_isnan(findme) && gsl_isnan(nodecol[i].val)))
            return i;
     return -1;
-- 
2.43.0


From d0dd625dd9601f835789f9720b3dc2929dcbd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 127/161] fix: nudging cells with an initial table missed cells
 of the margin table and repeated cells of the initial table

---
 apop_rake.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index b2c28e4..e88fd9d 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -396,7 +396,7 @@ int find_in_allvars(char const *in, apop_data const *allvars){
 static int setup_nonzero_contrast(char const *margin_table, 
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
-              double nudge, char const * structural_zeros, bool have_init_table){
+              double nudge, char const * structural_zeros, char const *init_table){
     char *q;
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
@@ -418,9 +418,9 @@ static int setup_nonzero_contrast(char const *margin_table,
                   q, (!contrast_ct && i==0) ? "" : "natural join",
                   allvars->text[0][i],  margin_table);
     if (structural_zeros) xprintf(&q, "%s where not (%s)\n", q, structural_zeros);
-    if (have_init_table){
-        //Keep out margins with values for now; join them in below.
-        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
+    if (init_table){
+        //Keep out cells in the initial table for now; join them in below.
+        xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, init_table);
     }
 	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
     free(q);
-- 
2.43.0


From 5a70064c02ab2247a55fee11b2d7ed4b1eff32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 128/161] fix: cells of the initial table with a category
 absent from the margin table kept a weight after raking

---
 apop_rake.m4.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index e88fd9d..cfd2969 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -290,6 +290,14 @@ static void c_loglin(const apop_data *config, const apop_data *indata,
                         apop_data *fit, double tolerance, int maxit) {
     mnode_t ** index = index_generate(indata, fit);
 
+    /* A category that does not appear in the margins has a marginal total of zero. */
+    for (size_t i=0; config && config->matrix && i < config->matrix->size1; i++)
+        for (size_t c=0; c < config->matrix->size2; c++)
+            if (gsl_matrix_get(config->matrix, i, c))
+                for (size_t j=0; j < fit->matrix->size1; j++)
+                    if (find_val(gsl_matrix_get(fit->matrix, j, i), index[i]) == -1)
+                        gsl_vector_set(fit->weights, j, 0);
+
     /* Make a preliminary adjustment to obtain the fit to an empty configuration list */
     //fit->weights is either all 1 (for synthetic data) or the initial counts from the db.
     double x = apop_sum(indata->weights);
-- 
2.43.0


From 1f69a905170584457601ddab6033c53257aa2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 129/161] fix: initial counts for raking skipped rows with a
 missing first variable

---
 apop_rake.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index cfd2969..6bd590b 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -590,7 +590,7 @@ APOP_VAR_ENDHEAD
     if (init_table){
         char *countstr;
         if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
-        else                Asprintf(&countstr, "count(%s)", **all_vars_d->text);
+        else                countstr = strdup("count(*)");
         Asprintf(&init_q, "select %s, %s from %s group by %s", 
                            list_of_fields, countstr, initt, list_of_fields);
         free(countstr);
-- 
2.43.0


From 5f657cae3eddfaf5c2d0a91e80dd40215b59ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 130/161] fix: every thread used the same RNG when asking for
 its own

---
 apop_asst.m4.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 28cbbe6..07f33de 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -359,22 +359,25 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static int rng_ct = -1;
 
     if (thread==-1){
-        #ifdef OpenMP
+        #ifdef _OPENMP
             thread = omp_get_thread_num();
         #else
             thread = 0;
         #endif
     }
 
+    gsl_rng *out;
     OMP_critical(rng_get_thread)
-    if (thread > rng_ct)
-        {
+    {
+        if (thread > rng_ct) {
             rngs = realloc(rngs, sizeof(gsl_rng*)*(thread+1));
             for (int i=rng_ct+1; i<= thread; i++)
                 rngs[i] = apop_rng_alloc(++apop_opts.rng_seed);
             rng_ct = thread;
         }
-    return rngs[thread];
+        out = rngs[thread];
+    }
+    return out;
 }
 
 /** Make a set of random draws from a model and write them to an \ref apop_data set.
-- 
2.43.0


From 838fe97c4a311d89a901c7326ad1caf8624fa9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 131/161] fix: rakings in different threads used the same
 temporary table

---
 apop_rake.m4.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 6bd590b..2979c61 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -2,6 +2,9 @@
 #include "apop_internal.h"
 #include <stdbool.h>
 #include <gsl/gsl_sort_vector.h>
+#ifdef _OPENMP
+    #include <omp.h>
+#endif
 void xprintf(char **q, char *format, ...); //in apop_conversions.c
 
 /* This is the internal documentation for apop_rake(). I assume you've read the usage
@@ -556,7 +559,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
 APOP_VAR_ENDHEAD
-    #ifdef OpenMP
+    #ifdef _OPENMP
         int run_number = omp_get_thread_num();
     #else
         int run_number = 0;
-- 
2.43.0


From c72daca844deb6363067d88955a04c25f49b74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 132/161] fix: a crosstab query with no results discarded the
 db_name_column option, and one that failed was not marked

---
 apop_conversions.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1d89351..72582b0 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -133,8 +133,10 @@ APOP_VAR_ENDHEAD
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
     datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
-    Apop_stopif(datachars->error, free(Q); goto bailout, 0, "error from [%s].", Q);
+    if (!datachars) apop_opts.db_name_column = p;
+    Apop_stopif(!datachars, free(Q); apop_data_free(outdata); return NULL, 2, "[%s] returned an empty table.", Q);
+    Apop_stopif(datachars->error, free(Q); outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
+    free(Q);
 
     //A bit inefficient, but well-encapsulated.
     //Pull the distinct (sorted) list of headers, copy into outdata->names.
-- 
2.43.0


From ab16bd28c6ec6f7904f25867847db10d2d769ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 133/161] fix: missing values in a crosstab were read as zero
 when apop_opts.nan_string is not a form of NaN

---
 apop_conversions.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 72582b0..036f199 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -156,7 +156,8 @@ APOP_VAR_ENDHEAD
 		j = find_cat_index(outdata->names->col, datachars->text[k][1], j, pre_d2->textsize[0]);
         Apop_stopif(i==-2 || j == -2, outdata->error='n'; goto bailout, 0, "Something went wrong in the crosstabbing; "
                                                  "couldn't find %s or %s.", datachars->text[k][0], datachars->text[k][1]);
-		gsl_matrix_set(out, i, j, atof(datachars->text[k][2]));
+		gsl_matrix_set(out, i, j, (apop_opts.nan_string && !strcmp(datachars->text[k][2], apop_opts.nan_string))
+                                    ? GSL_NAN : atof(datachars->text[k][2]));
 	}
     bailout:
     apop_data_free(pre_d1);
-- 
2.43.0


From 31c0525b42ceb81dbbd3ccab2bdde87e48b98a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 134/161] fix: apop_crosstab_to_db overflowed the buffers for
 its default names

---
 apop_conversions.m4.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 036f199..b565f51 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -197,9 +197,8 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     apop_name *n = in->names;
     char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
-    int maxcol= GSL_MAX(msize2, in->textsize[1]);
-    char sparerow[msize1 > 0 ? (int)log10(msize1)+1 : 0];
-    char sparecol[maxcol > 0 ? (int)log10(maxcol)+1 : 0];
+    char sparerow[32];
+    char sparecol[32];
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
-- 
2.43.0


From 62ad42d1df043873eb34d0c55abb8f2f22026d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 135/161] fix: apop_crosstab_to_db wrote six digits of each
 number

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index b565f51..ee98e70 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -209,7 +209,7 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
         for (int j=0; j< msize2; j++){
             colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
             double x = gsl_matrix_get(in->matrix, i, j); 
-            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %g)", 
+            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %.17g)", 
                                                 tabname, rowname, colname, x);
             else apop_query("INSERT INTO %s VALUES ('%s', '%s', 0/0)", 
                                         tabname, rowname, colname);
-- 
2.43.0


From a37bf27570b37bd914b209fbeee89699b159f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 136/161] fix: apop_crosstab_to_db lost cells whose name or
 text has a single quote, and infinite cells

---
 apop_conversions.m4.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index ee98e70..823d06b 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -168,6 +168,17 @@ APOP_VAR_ENDHEAD
 	return outdata;
 }
 
+//SQL string literals: double each single quote.
+static char *double_quotes(char const *in){
+    char *out = malloc(2*strlen(in)+1), *o = out;
+    for ( ; *in; in++){
+        if (*in=='\'') *o++ = '\'';
+        *o++ = *in;
+    }
+    *o = '\0';
+    return out;
+}
+
 /** See \ref apop_db_to_crosstab for the storyline; this is the complement, which takes a
   crosstab and writes its values to the database.
 
@@ -205,23 +216,30 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
                         row_col_name, DbType, col_col_name, DbType, data_col_name, DbType2);
 	apop_query("begin");
     for (int i=0; i< msize1; i++){
-        rowname = (n->rowct > i) ?  n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
+        rowname = double_quotes((n->rowct > i) ?  n->row[i] : (sprintf(sparerow, "r%i", i), sparerow));
         for (int j=0; j< msize2; j++){
-            colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
+            colname = double_quotes((n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol));
             double x = gsl_matrix_get(in->matrix, i, j); 
-            if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %.17g)", 
+            if (isinf(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %s9e9999999)",
+                                                tabname, rowname, colname, x < 0 ? "-" : "");
+            else if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %.17g)", 
                                                 tabname, rowname, colname, x);
             else apop_query("INSERT INTO %s VALUES ('%s', '%s', 0/0)", 
                                         tabname, rowname, colname);
+            free(colname);
         }
+        free(rowname);
     }
     for (int i=0; i< in->textsize[0]; i++){
-        rowname = (n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
+        rowname = double_quotes((n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow));
         for (int j=0; j< in->textsize[1]; j++){
-            colname = (n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
+            colname = double_quotes((n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol));
+            char *cell = double_quotes(in->text[i][j]);
             apop_query("INSERT INTO %s VALUES ('%s', '%s', '%s')", tabname, 
-                rowname, colname, in->text[i][j]);
+                rowname, colname, cell);
+            free(colname); free(cell);
         }
+        free(rowname);
     }
 	apop_query("commit");
 }
-- 
2.43.0


From 860be51e26b5f04abeb382ca5b0ed8efa0815fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 137/161] fix: the numerical gradient leaves the model's
 parameters as they were

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7377bfb..56f3e55 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -104,6 +104,8 @@ static void apop_internal_numerical_gradient(apop_fn_with_params ll,
 		gsl_deriv_central(&F, gsl_vector_get(beta,j), delta, &result, &err);
 		gsl_vector_set(out, j, result);
 	}
+    apop_data_unpack(beta, info->model->parameters);
+    gsl_vector_free(i.gp->beta);
     gsl_vector_free(beta);
 }
 
-- 
2.43.0


From 5a1791f98952ffb2f4aefeca5960e8cea2700fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 138/161] fix: a gradient search reads the size of its start
 before it is freed

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 56f3e55..60e1177 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -469,8 +469,8 @@ Inside the infostruct, you'll find these elements:
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-    gsl_vector_free(i->beta);
     auxinfo(est->parameters, i, apopstatus, i->best_ll);
+    gsl_vector_free(i->beta);
 }
 
 /* See apop_maximum_likelihood_w_d for notes. */
-- 
2.43.0


From bd9f91bf8a4575247d271e87ad818e1690aedba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 139/161] fix: a root search reads the size of its start before
 it is freed

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 60e1177..740be17 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -912,7 +912,7 @@ static apop_model * find_roots (infostruct p) {
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-    gsl_vector_free (p.beta);
     auxinfo(dist->parameters, &p, apopstatus, 0); //root-finders don't store best val.
+    gsl_vector_free (p.beta);
     return dist;
 }
-- 
2.43.0


From b21e7a274736b81111dd701eac6c1fa8aa64c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 140/161] fix: a root search that converged reports status 0,
 any other does not

---
 apop_mle.m4.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 740be17..ee729bc 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -900,7 +900,10 @@ static apop_model * find_roots (infostruct p) {
     gsl_multiroot_fsolver_set (s, &f, p.beta);
     do {
         iter++;
-        if (setjmp(p.bad_eval_jump)) break;
+        if (setjmp(p.bad_eval_jump)) {
+            status = GSL_EBADFUNC;
+            break;
+        }
         status = gsl_multiroot_fsolver_iterate (s);
         if (!mlep || mlep->verbose)
             printf ("iter = %3zu x = % .3f f(x) = % .3e\n", iter, gsl_vector_get (s->x, 0), gsl_vector_get (s->f, 0));
@@ -908,7 +911,7 @@ static apop_model * find_roots (infostruct p) {
             break;
         status = gsl_multiroot_test_residual (s->f, mlep->tolerance);
     } while (status == GSL_CONTINUE && iter < mlep->max_iterations);
-    if (GSL_SUCCESS) apopstatus = 0;
+    if (status == GSL_SUCCESS) apopstatus = 0;
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-- 
2.43.0


From 2d009a8410274f307b42ce892f257df5a04b6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 141/161] fix: a simplex search that did not converge does not
 report status 0

---
 apop_mle.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index ee729bc..3efd380 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -486,8 +486,8 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     double size;
     s = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, betasize);
     ss = gsl_vector_alloc(betasize);
-    ctrl_c      =
-    apopstatus = 0; //assume failure until we score a success.
+    ctrl_c     = 0;
+    apopstatus = -1; //assume failure until we score a success.
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
@@ -498,7 +498,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
-            apopstatus = -1;
+            status = GSL_EBADFUNC;
             break;
         }
     status  = gsl_multimin_fminimizer_iterate(s);
-- 
2.43.0


From e8184f0816c1deff54602267ed04aa9b2d99c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 142/161] fix: a gradient search that converged at its last
 iteration reports status 0

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 3efd380..9dfe88f 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -465,7 +465,7 @@ Inside the infostruct, you'll find these elements:
         Apop_stopif(status == GSL_SUCCESS, apopstatus=0, 2, "Optimum found.");
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
     signal(SIGINT, NULL);
-	Apop_stopif(iter==mp->max_iterations, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
+	Apop_stopif(iter==mp->max_iterations && status==GSL_CONTINUE, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-- 
2.43.0


From faab161b07d2af8537180c6f4cdb18cfe0fbaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 143/161] fix: the log likelihood reported is that of the
 estimate, not of another point tried

---
 apop_mle.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 9dfe88f..b71ec75 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -407,7 +407,8 @@ static void auxinfo(apop_data *params, infostruct *i, int status, double ll){
     }
     if (!est->info) est->info = apop_data_alloc();
     apop_data_add_named_elmt(est->info, "status", status);
-    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, ll, i->beta->size);
+    //The search may have tried better points than the one where it stopped, so recalculate.
+    if (i->want_info=='y') add_info_criteria(i->data, i->model, est, 0, i->beta->size);
 }
 
 static void apop_maximum_likelihood_w_d(apop_data * data, infostruct *i){
-- 
2.43.0


From 672796a67155c2da7e1aeaefb0d7791c6e3198ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 144/161] fix: the numerical gradient subtracts the constraint
 penalty, as the objective does

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index b71ec75..4f13538 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -82,7 +82,7 @@ static double one_d(double b, void *in){
     apop_data_unpack(i->gp->beta, i->model->parameters);
 	if (i->model->constraint)
 		penalty	= i->model->constraint(i->data, i->model);
-	return (*(i->f))(i->data, i->model) + penalty;
+	return (*(i->f))(i->data, i->model) - penalty;
 }
 
 //Numeric first and second derivatives.
-- 
2.43.0


From 8c058509b20202d59ca14b21cb5ccd49adfc0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 145/161] fix: the path of a search is recorded for parameters
 of any shape

---
 apop_mle.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 4f13538..7c31c19 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -312,7 +312,7 @@ static double negshell (const gsl_vector *beta, void * in){
     Apop_stopif(gsl_isnan(out), longjmp(i->bad_eval_jump, -1),
                 0, "I got a NaN in evaluating the objective function.%s", 
                     !i->model->constraint ? " Maybe add a constraint to your model?" : "");
-    if (i->path) tracepath(i->model->parameters->vector, -out, i->path);
+    if (i->path) tracepath(beta, -out, i->path);
     if (i->want_info =='y'){
         //I report the log likelihood under the assumption that the final param set 
         //matches the best ll evaluated.
-- 
2.43.0


From 1d305e01aff53d98283839b855bc8ee6ec227e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 146/161] fix: simulated annealing with data does not
 re-estimate itself forever: tests only when wanted, as for other methods

---
 apop_mle.m4.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7c31c19..1ea82c7 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -876,7 +876,6 @@ static void apop_annealing(infostruct *i){
     }
     signal(SIGINT, NULL);
     apop_data_unpack(i->beta, i->model->parameters); 
-    apop_estimate_parameter_tests(i->model);
     apopstatus = 0;
 done:
     if (mp->rng) r = NULL;
-- 
2.43.0


From fedc1b612d470b039efe6d4ee4074ebcfc32854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 147/161] fix: the cut points of an annealing step are in
 order, so steps are no longer than the step size

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 1ea82c7..7d817ec 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -3,6 +3,7 @@
 #include "apop_internal.h"
 #include <setjmp.h>
 #include <signal.h>
+#include <gsl/gsl_sort.h>
 #include <gsl/gsl_deriv.h>
 #include <gsl/gsl_siman.h>
 #include <gsl/gsl_randist.h>
@@ -792,6 +793,7 @@ This will give a move \f$\leq\f$ step_size on the Manhattan metric.
     cutpoints[i->beta->size] = 1;
     for (size_t j=1; j< i->beta->size; j++)
         cutpoints[j] = gsl_rng_uniform(r);
+    gsl_sort(cutpoints, 1, i->beta->size+1);
 
     for (size_t j=0; j< i->beta->size; j++){
         sign  = (gsl_rng_uniform(r) > 0.5) ? 1 : -1;
-- 
2.43.0


From bf564321ab6987f1c19b5c16fb2301ea721338a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 148/161] fix: cycling over dimensions does not leave a freed
 starting point in the settings

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7d817ec..3bf72dc 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -544,6 +544,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
     int iteration = 0;
     apop_mle_settings *mp = Apop_settings_get_group(est, apop_mle);
     double tol = mp->dim_cycle_tolerance;
+    double *start = mp->starting_pt;
     int betasize = info.beta->size;
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, 0);//so sub-estimations won't use this function.
     gsl_vector *paramv = apop_data_pack(est->parameters);
@@ -572,6 +573,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
         Apop_settings_add(est, apop_mle, starting_pt, paramv->data);
     } while (fabs(this_ll - last_ll) > tol);
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, tol);
+    Apop_settings_set(est, apop_mle, starting_pt, start); //paramv is about to go.
     gsl_vector_free(paramv);
 }
 
-- 
2.43.0


From fe4ccbaf6fdc1866382a88dbc399ca57b5d3797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 149/161] fix: restarting a search from the starting point the
 user asks for (es, ns), or for a second model without MLE settings

---
 apop_mle.m4.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 3bf72dc..606dccd 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -722,22 +722,23 @@ APOP_VAR_ENDHEAD
     if (!copy) copy = apop_model_copy(e);
     apop_mle_settings* prm0 = apop_settings_get_group(e, apop_mle);
     apop_mle_settings* prm = apop_settings_get_group(copy, apop_mle);
+    if (!prm) prm = Apop_model_add_group(copy, apop_mle);
             //copy off the old params; modify the starting pt, method, and scale
-    if (!strcmp(starting_pt, "es"))
-        v = apop_array_to_vector(prm0->starting_pt);
-    else if (!strcmp(starting_pt, "ns")){
-        int size =sizeof(prm->starting_pt)/sizeof(double);
-        v = apop_array_to_vector(prm->starting_pt, size);
-        prm0->starting_pt	= malloc(sizeof(double)*size);
-        memcpy(prm0->starting_pt, prm->starting_pt, sizeof(double)*size);
+    if (!strcmp(starting_pt, "es") || !strcmp(starting_pt, "ns")){
+        //A starting point from the settings has one element per parameter; NULL=default starting point
+        double *start = *starting_pt=='n' ? prm->starting_pt : prm0 ? prm0->starting_pt : NULL;
+        apop_data *params = e->parameters ? e->parameters : copy->parameters;
+        if (start && params){
+            v = apop_data_pack(params);
+            memcpy(v->data, start, sizeof(double)*v->size);
+        }
+        prm->starting_pt = start;
     }
-    else if (!strcmp(starting_pt, "np")){
+    else if (!strcmp(starting_pt, "np"))
         v = apop_data_pack(copy->parameters); 
-        prm->starting_pt = malloc(sizeof(double)*v->size);
-        memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
-    }
-    else if (e->parameters){//"ep" or default.
+    else if (e->parameters)//"ep" or default.
         v = apop_data_pack(e->parameters); 
+    if (v){
         prm->starting_pt = malloc(sizeof(double)*v->size);
         memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
     }
-- 
2.43.0


From 6d1226894358065a8b5d95a1e1a70536142f0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 150/161] fix: a restarted search whose parameters are a matrix
 with NaNs or infinities does not displace the old estimate

---
 apop_mle.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 606dccd..b1c4f4d 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -750,8 +750,10 @@ APOP_VAR_ENDHEAD
     apop_model *newcopy = apop_estimate(e->data, copy);
     apop_model_free(copy);
     //Now check whether the new output is better than the old
-    if (apop_vector_bounded(newcopy->parameters->vector, boundary) 
-            && get_ll(e->data, newcopy) > get_ll(e->data, e)){
+    gsl_vector *newparams = apop_data_pack(newcopy->parameters);
+    int bounded = apop_vector_bounded(newparams, boundary);
+    gsl_vector_free(newparams);
+    if (bounded && get_ll(e->data, newcopy) > get_ll(e->data, e)){
         apop_model_free(e);
         return newcopy;
     } //else:
-- 
2.43.0


From ef2fc94588de5aae8fede32bdcb41d03217cbe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:30 +0000
Subject: [PATCH 151/161] fix: categories found after the list of factors was
 made are listed once, and get a zero-filled dummy column

---
 apop_regression.m4.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 1ec21bc..8d68877 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -189,6 +189,16 @@ apop_data * create_factor_list(apop_data *d, int col, char type){
     return factor_list;
 }
 
+//A category that isn't in the list of factors gets a new column of zeros at the end.
+static void add_dummy_column(apop_data *out, size_t rows){
+    if (!out->matrix){
+        out->matrix = gsl_matrix_calloc(rows, 1);
+        return;
+    }
+    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
+    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
+}
+
 /* Producing dummies consists of finding the index of element i, for all i, then
  setting (i, index) to one.
  Producing factors consists of finding the index and then setting (i, datacol) to index.
@@ -223,19 +233,26 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
             size_t posn = (size_t)bsearch(&val, delmts->data, elmt_ctr, sizeof(double), compare_doubles);
             if (posn )
                 index = (posn - (size_t)delmts->data)/sizeof(double);
-            else {
-                index = elmt_ctr++;
-                (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
-                gsl_vector_set((*factor_list)->vector, index, val);
-                out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, elmt_ctr);
-                gsl_vector_set_zero(Apop_cv(out, index));
+            else //new categories are appended, so the list may not be sorted.
+                for (index=0; index< elmt_ctr; index++)
+                    if (!compare_doubles(&val, gsl_vector_ptr(delmts, index))) break;
+            if (index == elmt_ctr){
+                elmt_ctr++;
+                delmts = (*factor_list)->vector = apop_vector_realloc(delmts, elmt_ctr);
+                gsl_vector_set(delmts, index, val);
+                apop_text_alloc(*factor_list, elmt_ctr, 1);
+                apop_text_set(*factor_list, index, 0, "%g", val);
+                if (dummyfactor == 'd') add_dummy_column(out, s);
             }
         } else {
             size_t posn = (size_t)bsearch(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
             if (posn)
                 index = (posn - (size_t)*telmts->text)/sizeof(char**);
-            else {
-                index = elmt_ctr++;
+            else //new categories are appended, so the list may not be sorted.
+                for (index=0; index< elmt_ctr; index++)
+                    if (!strcmp(d->text[i][col], telmts->text[0][index])) break;
+            if (index == elmt_ctr){
+                elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
                 apop_text_set(*factor_list, index, 0, "%s", d->text[i][col]);
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
@@ -243,10 +260,7 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
                 apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
-                if (dummyfactor == 'd'){
-                    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
-                    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-                }
+                if (dummyfactor == 'd') add_dummy_column(out, s);
             }
         }
         if (dummyfactor == 'd'){
-- 
2.43.0


From 4ca2dac9860c86757054c9b06665aca767053b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:01 +0000
Subject: [PATCH 152/161] fix: transposing text gives the rows the text column
 names and the text columns the row names, as documented

---
 apop_data.m4.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a6b33b9..0d36732 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1189,8 +1189,14 @@ APOP_VAR_ENDHEAD
                      apop_text_blank(out, c, r);
                 else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
-    if (in->names && in->names->textct && !has_colnames)
-        apop_name_stack(out->names, in->names, 't', 'r');
+    if (in->names){
+        if (!has_colnames) apop_name_stack(out->names, in->names, 'r', 't');
+        if (inplace=='y'){ //the row names are now in the list of column names.
+            for (int i=0; i< out->names->textct; i++) free(out->names->text[i]);
+            out->names->textct = 0;
+        }
+        apop_name_stack(out->names, in->names, 't', inplace=='y' ? 'c' : 'r');
+    }
     return out;
 }
 
-- 
2.43.0


From b66aaf2b3cd47cf65f02058241543d272a380283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:39 +0000
Subject: [PATCH 153/161] fix: the Beta CDF reads the vector when there is one
 beside a matrix, like the other univariate models

---
 model/apop_beta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/apop_beta.c b/model/apop_beta.c
index 79e7e19..3e9fc24 100644
--- a/model/apop_beta.c
+++ b/model/apop_beta.c
@@ -76,7 +76,7 @@ static long double beta_cdf(apop_data *d, apop_model *params){
     Nullcheck_mpd(d, params, GSL_NAN)
     Get_vmsizes(d)  //vsize
     Get_ab(params)
-    double val = apop_data_get(d);
+    double val = apop_data_get(d, 0, vsize ? -1 : 0);
     return gsl_cdf_beta_P(val, ab.alpha, ab.beta);
 }
 
-- 
2.43.0


From 92b1070214aba1451d4103e757696407287a6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:52 +0000
Subject: [PATCH 154/161] fix: apop_text_paste prunes what the prune function
 says to prune out, and separates only what is left

---
 apop_asst.m4.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 07f33de..6901cdc 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -104,22 +104,17 @@ APOP_VAR_HEAD char *apop_text_paste(apop_data const *strings, char *between, cha
     apop_fn_riip apop_varad_var(prune, NULL);
     void *apop_varad_var(prune_parameter, NULL);
 APOP_VAR_ENDHEAD
-    char *prior_line=NULL, *oneline=NULL, *out = before ? strdup(before) : NULL;
+    char *out = before ? strdup(before) : NULL;
+    int rows_so_far = 0;
     for (int i=0; i< ((!strings || !*strings->textsize)? 0 : *strings->textsize); i++){
-        free(oneline); oneline = NULL;
+        int cols_so_far = 0; //A row with everything pruned out gets no separator.
         for (int j=0; j< strings->textsize[1]; j++){
-            if (prune && !prune((apop_data*)strings, i, j, prune_parameter)) continue;
-            apop_tack_on(&oneline, strings->text[i][j]);
-            if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
+            if (prune && prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (cols_so_far++)       apop_tack_on(&out, between_cols);
+            else if (rows_so_far++)  apop_tack_on(&out, between);
+            apop_tack_on(&out, strings->text[i][j]);
         }
-        apop_tack_on(&out, prior_line);
-        if (prior_line && oneline) apop_tack_on(&out, between);
-        free(prior_line);
-        prior_line=oneline ? strdup(oneline): NULL;
-        //if (i <strings->textsize[0]-1)  apop_tack_on(&out, between);
-        //if (oneline)  apop_tack_on(&out, oneline);
     }
-    apop_tack_on(&out, oneline); //the final one never got a chance to be prior_line
     apop_tack_on(&out, after);
     Apop_notify(3, "%s", out);
     return out;
-- 
2.43.0


From 7a3b37c96a645a0cf8516e214e944d4a9bcd47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 155/161] fix: the divergence from a PMF to one without some of
 its points is -infinity, as documented, not NaN

---
 apop_stats.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 2610b7a..491c473 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -748,9 +748,10 @@ APOP_VAR_ENDHEAD
             } //else:
             double qi = apop_p(Apop_r(p, i), to);
             Apop_notify(3,"%g\t%g\t%g", pi, qi, pi ? pi * log(pi/qi):0);
-            Apop_stopif(!qi, div+=GSL_NEGINF; break, 1, "The PMFs aren't synced: from-distribution has a value where "
+            //We're inside a (parallel) loop, and Apop_stopif is a block of its own, so no break or continue.
+            Apop_stopif(!qi, , 1, "The PMFs aren't synced: from-distribution has a value where "
                                                 "to-distribution doesn't (which produces infinite divergence).");
-            div += pi * log(pi/qi);
+            div += qi ? pi * log(pi/qi) : GSL_NEGINF;
         }
     } else { //the version with the RNG.
         Apop_stopif(!from->dsize, return GSL_NAN, 0, "I need to make random draws from the 'from' model, "
-- 
2.43.0


From fc5383cb82527cc54417bed101ec489d9372e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 156/161] fix: the divergence from a PMF uses weights added to
 the data after the estimation

---
 apop_stats.m4.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 491c473..69ca709 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -740,8 +740,10 @@ APOP_VAR_ENDHEAD
         apop_data *p = from->data;
         apop_pmf_settings *settings = Apop_settings_get_group(from, apop_pmf);
         Get_vmsizes(p); //maxsize
+        double total_weight = !p->weights ? 0 //The weights may have been added since the estimation.
+                    : (settings && settings->total_weight) ? settings->total_weight : apop_sum(p->weights);
         OMP_for_reduce (+:div,    int i=0; i < maxsize; i++){
-            double pi = p->weights ? gsl_vector_get(p->weights, i)/settings->total_weight : 1./maxsize;
+            double pi = p->weights ? gsl_vector_get(p->weights, i)/total_weight : 1./maxsize;
             if (!pi){
                 Apop_notify(3, "0\t--\t0");
                 continue;
-- 
2.43.0


From dd32e11c8d0ae568e08209589eb8c34de375c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 157/161] fix: apop_plot_query reads a query file of any length
 without copying a string onto itself

---
 cmd/apop_plot_query.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/apop_plot_query.c b/cmd/apop_plot_query.c
index 75ecb36..0340da5 100644
--- a/cmd/apop_plot_query.c
+++ b/cmd/apop_plot_query.c
@@ -57,9 +57,9 @@ char *read_query(char *infile){
     Apop_stopif(!inf, exit(0), 0, "Trouble opening %s.\n", infile);
     while(fgets(in, 1000, inf)){
         q = realloc(q, strlen(q) + strlen(in) + 4);
-        sprintf(q, "%s%s", q, in);
+        strcat(q, in);
     }
-    sprintf(q, "%s;\n", q);
+    strcat(q, ";\n");
     fclose(inf);
     return q;
 }
-- 
2.43.0


From 0b8660c303959f33c41ddf8106725ff580ff8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 158/161] fix: a draw from a linear model is as wide as its
 outcome and regressors, so that making several does not overrun the output

---
 model/apop_ols.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index fe67188..6892400 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -130,6 +130,7 @@ static void ols_prep(apop_data *d, apop_model *m){
     if (m->data && m->info) return; //already prepped; re-prep must be a no-op
     Apop_stopif(!d || !d->matrix, m->error='d'; return, 0, "No data matrix for regression.");
     ols_shuffle(d);
+    if (m->dsize == -1) m->dsize = 1 + d->matrix->size2; //a draw is Y, then X.
     void *mpt = m->prep; //also use the defaults.
     m->prep = NULL;
     apop_prep(d, m);
-- 
2.43.0


From 124dec03539f394c4e6fdaf562ccea941eadf18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 159/161] fix: a draw from a Logit gives a category with its
 probability at regressors drawn from the data or the given distribution,
 instead of failing or leaving the output unset

---
 model/apop_probit.c | 67 ++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index e9a1fb0..52edf47 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -277,45 +277,38 @@ static void logit_dlog_likelihood(apop_data *d, gsl_vector *gradient, apop_model
 }
 */
 
-//Should this be available everywhere?
-static size_t get_draw_size(apop_model *in){
-    Get_vmsizes(in->data); //msize2, firstcol
-    size_t datasize = (in->dsize == -1)
-                        ? msize2-firstcol
-                        : in->dsize;
-    Apop_assert(datasize > 0, "I don't know the size of the X "
-                              "vector to draw for drawing your logit. "
-                              "See the apop_ols RNG documentation for details.");
-    return datasize;
-}
-
 static int logit_rng(double *out, gsl_rng *r, apop_model *m){
-    //X is drawn from the input distribution, then Y = X\beta + epsilon
+    //X is drawn from the input distribution, then the category given X\beta.
     apop_lm_settings *olp = apop_settings_get_group(m, apop_lm);
-    if (!olp) olp=Apop_model_add_group(m, apop_lm
-                                , .input_distribution= apop_estimate(m->data, apop_pmf));
-
-    size_t datasize = get_draw_size(olp->input_distribution);
-    apop_data *x = apop_data_alloc(datasize);
-    apop_draw(x->vector->data, r, olp->input_distribution);
-
-    apop_data *xbeta = apop_dot(x, m->parameters);
-    apop_data *zero = apop_data_calloc(1);
-    apop_data *xbeta_w_numeraire = apop_data_stack(zero, xbeta, 'r');
-    apop_data_free(xbeta);
-    apop_data_free(zero);
-    apop_vector_exp(xbeta_w_numeraire->vector);
-    apop_vector_normalize(xbeta_w_numeraire->vector);
-    xbeta_w_numeraire->weights = xbeta_w_numeraire->vector;
-    xbeta_w_numeraire->vector = NULL;
-
-    Staticdef(apop_model*, a_pmf, apop_model_copy(apop_pmf))
-    a_pmf->dsize = 0; //so draws produce a row number
-    a_pmf->data = xbeta_w_numeraire;
-    Apop_stopif(apop_draw(out, r, a_pmf), return 1, 
-                        0, "Couldn't draw from a PMF populated using X'β.");
-    if (m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
-    apop_data_free(x);
+    if (!olp){ //by default, X is a row of the observed data.
+        Apop_stopif(!m->data || !m->data->matrix, return 2, 0, "No input distribution, and no data to draw from.");
+        apop_data *x = apop_data_alloc();
+        x->matrix = apop_matrix_copy(m->data->matrix);
+        if (m->data->weights) x->weights = apop_vector_copy(m->data->weights);
+        olp = Apop_model_add_group(m, apop_lm, .input_distribution=apop_estimate(x, apop_pmf));
+    }
+    gsl_matrix *beta = m->parameters->matrix;
+    gsl_vector *x = gsl_vector_alloc(beta->size1);
+    Apop_stopif(apop_draw(x->data, r, olp->input_distribution), gsl_vector_free(x); return 2,
+            0, "Couldn't draw from the distribution of the input data.");
+
+    gsl_vector *odds = gsl_vector_alloc(beta->size2+1);
+    gsl_vector_set(odds, 0, 0); //the numeraire
+    for (size_t j=0; j< beta->size2; j++){
+        gsl_vector_view b = gsl_matrix_column(beta, j);
+        gsl_blas_ddot(x, &b.vector, gsl_vector_ptr(odds, j+1));
+    }
+    gsl_vector_add_constant(odds, -gsl_vector_max(odds)); //see the subtract-the-max trick in the documentation.
+    apop_vector_exp(odds);
+
+    double left = gsl_rng_uniform(r) * apop_sum(odds);
+    size_t choice = 0;
+    while (choice < beta->size2 && left >= gsl_vector_get(odds, choice))
+        left -= gsl_vector_get(odds, choice++);
+    out[0] = choice;
+    if (m->dsize > 1) memcpy(out+1, x->data, sizeof(double)*x->size);
+    gsl_vector_free(odds);
+    gsl_vector_free(x);
     return 0;
 }
 
-- 
2.43.0


From b0177087348b78a032157ae84f8c847a72cc3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:53 +0000
Subject: [PATCH 160/161] fix: a cross of models whose data is in a matrix is
 split at the named page, and rows of draws by the sizes of draws

---
 transform/apop_cross.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index a793caa..cb8d078 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -41,27 +41,31 @@ typedef struct {
 
 /* A model must accept data in the form of each observation being a single row of
    data---i.e., each row is what you'd get from apop_draw.
-    If the length of the data matrix is longer than the first model's stated msize2,
-    then we have to unpack the draw into two new apop_data sets.
+    If there is no second page and the rows are longer than one draw from the first model,
+    then we have to split each row into two new apop_data sets.
 */
-twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
+static twop_s unpack_a_draw(apop_data *d, apop_cross_settings *s){
+    size_t rows = d->matrix->size1, len1 = s->model1->dsize, len2 = d->matrix->size2 - len1;
     twop_s out = (twop_s){
-        .d1 = (s->model1 ? apop_data_alloc(s->model1->vsize, s->model1->msize1, s->model1->msize2) : NULL),
-        .d2 = (s->model2 ? apop_data_alloc(s->model2->vsize, s->model2->msize1, s->model2->msize2) : NULL),
+        .d1 = apop_data_alloc(rows, len1),
+        .d2 = apop_data_alloc(rows, len2),
         .need_to_free=1};
-    int len1 = s->model1->vsize + s->model1->msize1 * s->model1->msize2;
-    for (int i=0; i< d->matrix->size1; i++){
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), 0, len1), Apop_r(out.d1, i));
-        apop_data_unpack(Apop_subvector(Apop_rv(d, i), len1, d->matrix->size1), Apop_r(out.d2, i));
-      }
+    for (size_t i=0; i< rows; i++){
+        for (size_t j=0; j< len1; j++)
+            gsl_matrix_set(out.d1->matrix, i, j, gsl_matrix_get(d->matrix, i, j));
+        for (size_t j=0; j< len2; j++)
+            gsl_matrix_set(out.d2->matrix, i, j, gsl_matrix_get(d->matrix, i, len1+j));
+    }
+    if (d->weights){
+        out.d1->weights = apop_vector_copy(d->weights);
+        out.d2->weights = apop_vector_copy(d->weights);
+    }
     return out;
 }
 
 static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
     twop_s out = {.d1=d, .d2=d};
     if (splitpage) {
-        if (d->matrix && (d->matrix->size2 > s->model1->msize2))
-            return unpack_a_draw(d, s);
         apop_data *ctr = d;
         if (!ctr ||(ctr->names && ctr->names->title && !strcasecmp(ctr->names->title, splitpage))){
             out.d1 = NULL;
@@ -70,6 +74,8 @@ static twop_s get_second(apop_data *d, char *splitpage, apop_cross_settings *s){
         }
         for ( ; ctr->more && (!ctr->more->names || !ctr->more->names->title || strcasecmp(ctr->more->names->title, splitpage)); ) 
             ctr = ctr->more; 
+        if (!ctr->more && d->matrix && s->model1->dsize > 0 && d->matrix->size2 > s->model1->dsize)
+            return unpack_a_draw(d, s);
         out.d2 = ctr->more;
         out.dangly_bit = ctr;
         ctr->more = NULL; //the only change to the original data set.
@@ -106,6 +112,7 @@ static void cross_est(apop_data *d, apop_model *m){
     s->model1 = apop_estimate(datas.d1, s->model1);
     s->model2 = apop_estimate(datas.d2, s->model2);
 
+    datas.need_to_free = 0; //the estimated models may hold on to their data.
     repaste(datas);
 }
 
-- 
2.43.0


From 12d597bf89bd9bfbee42cea982a51194304d376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 161/161] fix: draws from a mixture follow changes to its
 weights and parameters

---
 transform/apop_mixture.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index ea2493b..5918191 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -282,12 +282,19 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
 static int mixture_draw (double *out, gsl_rng *r, apop_model *m){
     apop_mixture_settings *ms = Apop_settings_get_group(m, apop_mixture);
     OMP_critical (mixdraw)
+    {
+    unpack(m);
+    if (ms->cmf && !gsl_vector_equal(ms->cmf->data->weights, ms->weights)){ //reweighted since the last draw
+        if (*ms->cmf_refct == 1) apop_model_free(ms->cmf);
+        ms->cmf = NULL;
+    }
     if (!ms->cmf){
         ms->cmf = apop_model_copy(apop_pmf);
         ms->cmf->data = apop_data_alloc();
         ms->cmf->data->weights = apop_vector_copy(ms->weights);
         Apop_model_add_group(ms->cmf, apop_pmf, .draw_index='y');
     }
+    }
     double index; 
     Apop_stopif(apop_draw(&index, r, ms->cmf), return 1, 
             0, "Couldn't select a mixture element using the internal PMF over mixture elements.");
-- 
2.43.0

