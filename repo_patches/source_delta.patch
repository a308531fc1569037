From 19bae352b6353f964abd40f8eeb11b24ea5e911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 01/20] fix: finite differences in reduce_vector_ND_poly_flint
 must cover the support of the higher coefficients

---
 dr_nd/dr_nd.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..eebc15f 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1906,8 +1906,17 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
             }
         }
     }
+    // the l-th difference of M involves all the M[i] with i >= l,
+    // thus its support must cover the support of all of them
+    for(i = n; i >= 0; i--)
+    {
+        if(max_row[i] < max_row[i + 1])
+            max_row[i] = max_row[i + 1];
+        if(min_col[i] > min_col[i + 1])
+            min_col[i] = min_col[i + 1];
+    }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d )
     {
         //M[i] = 0;
         n--;
-- 
2.43.0


From 929bdaf2b02f08c3b7db37f8b8102a2c0ad139d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/20] fix: row stride of the mpz_t matrix helpers for
 non-square matrices

---
 conv/conv.cc           | 4 ++--
 matrix/mul.cc          | 8 ++++----
 matrix/mul_tranpose.cc | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..5daef91 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,7 +63,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From d4fa12efc3d03f551e5b4ebf5e939e07ed53b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 03/20] fix: release the temporaries of the mpz_t matrix-vector
 product

---
 matrix/mul.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index 5daef91..9178e31 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -68,6 +68,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         }
         mpz_set(result[i],acc);
     }
+    mpz_clears(tmp,acc,NULL);
 }
 // result = a * v;
 void mul(mpz_t* result, mpz_t a, mpz_t* v, int64_t v_length)
-- 
2.43.0


From 491879f32659a182d1c11c1c87fca243faef46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 04/20] fix: frob_ND_flint cleared the modulus while it was
 still in use (threads > 1)

---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From c408a86434ab7d0225d559e34d05adfec4dc0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 05/20] fix: buffer overflow in save() for file names longer
 than 7 characters

---
 dr/save.cc     | 8 +++-----
 dr_nd/dr_nd.cc | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..2e5715b 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const std::string fileswpname = std::string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -51,7 +49,7 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index eebc15f..93ebcaa 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const std::string fileswpname = std::string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -305,7 +303,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From a3f09c6331dc19b3bc99de7cb0375ce466039603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 06/20] fix: save() lost the p-adic lift of f that the saved
 matrices depend on

---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 13 +++++++------
 dr_nd/dr_nd.cc     | 27 ++++++++++++++-------------
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..d2295e1 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index 2e5715b..aa7c24c 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,14 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    // f, and not only fbar, as the solve matrices depend on the lift of fbar
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -36,7 +37,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 93ebcaa..d2f1773 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
@@ -253,13 +253,14 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    // f, and not only fbar, as the solve matrices depend on the lift of fbar
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -274,7 +275,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0


From 73691f9af29af52f0229b28a0253ae3747bb9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 07/20] fix: save() reported success when the file could not be
 written

---
 dr/save.cc     | 5 +++++
 dr_nd/dr_nd.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dr/save.cc b/dr/save.cc
index aa7c24c..019b3b4 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -51,6 +51,11 @@ bool de_Rham_local::save(const char * filename)
         file.close();
         fileswp.close();
         remove(fileswpname.c_str());
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index d2f1773..5c82050 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -305,6 +305,11 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file.close();
         fileswp.close();
         remove(fileswpname.c_str());
+        if(file.fail())
+        {
+            cout << "Wasn't able to write "<<filename<<endl;
+            return false;
+        }
         return true;
     }
     else
-- 
2.43.0


From 63e3d2a5040d00557fe9743f6490335828b73a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 08/20] fix: sign of the functional equation when all the
 middle coefficients vanish

---
 matrix/charpoly_frob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 270a76c..51397ad 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -32,7 +32,9 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
     {
         // figure out the sign if dimension is even, i.e., weight is even
         // for odd case the sign is 1
-        for (int64_t i = 1; i <= degree/2; ++i) {
+        // the constant coefficient, always known to be nonzero, comes first:
+        // all the coefficients in the middle might vanish
+        for (int64_t i = 0; i <= degree/2; ++i) {
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
             if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
-- 
2.43.0


From f7ce210528ba6762f164c6b91507e32fe6c69957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 09/20] fix: frob_J_ZZ_p must complete the factorial when p <=
 n and there are no terms left to add

---
 hypersurface/frob_J_ZZ_p.cc | 46 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..5d0d22d 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -214,32 +214,36 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
     // H_last has the poles with order n
     // final reduction step for H_last
     mul(F, *(dR->get_final_reduction_matrix_J(n)), H_last);
-    for(e = n/p; e != 0 && e >= m; e-- )
+    for(e = n/p; e != 0; e-- )
     {
-        if(verbose)
-            cout<<"e = "<<e<<endl<<"\tadding new terms\n";
+        // fact has to be updated even if there are no terms to be added
+        if(e >= m)
+        {
+            if(verbose)
+                cout<<"e = "<<e<<endl<<"\tadding new terms\n";
 
-        dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
-        clear(G0);
-        G0.SetLength( dict_G0->size() );
+            dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
+            clear(G0);
+            G0.SetLength( dict_G0->size() );
 
-        j = e - m;
-        Djm = 0;
-        for( i = j ; i < N ; i++)
-        {
-            bin = binomial(m + i - 1, m - 1) * binomial(i,j);
-            if(j%2 == 0)
-                Djm += bin;
-            else
-                Djm -= bin;
-        }
+            j = e - m;
+            Djm = 0;
+            for( i = j ; i < N ; i++)
+            {
+                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                if(j%2 == 0)
+                    Djm += bin;
+                else
+                    Djm -= bin;
+            }
 
-        for( it = fpow[j].begin(); it != fpow[j].end(); it++)
-        {
-            monomial = p * ( it->first + ei + ones ) - ones;
-            G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            for( it = fpow[j].begin(); it != fpow[j].end(); it++)
+            {
+                monomial = p * ( it->first + ei + ones ) - ones;
+                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            }
+            F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
-        F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
 
         /*
          * before
-- 
2.43.0


From bd3c24f7419bd2b84288a95f2d305f18c42e9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 10/20] fix: solve_system_padic with no columns must not keep
 old entries of U

---
 solve_system/solve_system.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solve_system/solve_system.cc b/solve_system/solve_system.cc
index 885005a..603c695 100644
--- a/solve_system/solve_system.cc
+++ b/solve_system/solve_system.cc
@@ -342,6 +342,7 @@ void solve_system_padic_flint(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T,
     if(ncols == 0)
     {
         B.SetLength(nrows);
+        clear(U);
         U.SetDims(nrows,nrows);
         for(i = 0; i < nrows; i++)
         {
@@ -500,6 +501,7 @@ void solve_system_padic_NTL(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T, i
     if(ncols == 0)
     {
         B.SetLength(nrows);
+        clear(U);
         U.SetDims(nrows,nrows);
         for(i = 0; i < nrows; i++)
         {
-- 
2.43.0


From 2c06820112ada87aaee2a9ee825b32864ea8038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 11/20] fix: binomial() returned a negative number for values
 between 2^63 and 2^64

---
 tools/binomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/binomial.cc b/tools/binomial.cc
index 1ed321d..4ca7961 100644
--- a/tools/binomial.cc
+++ b/tools/binomial.cc
@@ -25,7 +25,7 @@ int64_t binomial(const int64_t n, int64_t k)
         den *=i;
     }
     num = num/den;
-    assert( NumBytes(num) <= 8 );
+    assert( NumBits(num) < 64 ); // num fits in a signed 64 bit integer
     return int64_t{conv<long>(num)};
 }
 
-- 
2.43.0


From a12438ead825fe60bfa2a89f17d4087988c5490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 12/20] fix: geometric_picard must normalise by p^(dimension/2)

---
 tools/geometric_picard.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/geometric_picard.cc b/tools/geometric_picard.cc
index b64cfde..afa8d70 100644
--- a/tools/geometric_picard.cc
+++ b/tools/geometric_picard.cc
@@ -30,7 +30,7 @@ int64_t number_of_roots_of_unity(fmpz_poly_mat_t cyclo, fmpz_poly_t f, int64_t p
     fmpz_init(ppower);
     fmpz_init(rem);
     fmpz_set_ui(ppower,p);
-    //Performing change of variables T->T/p 
+    //Performing change of variables T->T/p, where p is the absolute value of the roots that we are looking for
     for(int64_t i = 1; i <= degree; ++i)
     {
         //ppower = p^i
@@ -100,7 +100,7 @@ int64_t geometric_picard(const Vec<ZZ> &charpoly_frob, const int64_t p, const in
     int64_t count = 0;
     for(i = 0; i < (int64_t) fac->num; ++i)
     {
-        count += fac->exp[i] * number_of_roots_of_unity(cyclo, fac->p + i, p);
+        count += fac->exp[i] * number_of_roots_of_unity(cyclo, fac->p + i, power_long(p, dimension/2));
     }
     fmpz_poly_mat_clear(cyclo);
     fmpz_poly_factor_clear(fac);
-- 
2.43.0


From fa5172621d95c0b382c86fe1ef8556669adeab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 13/20] fix: release the temporary of the mpz_t inner product

---
 matrix/mul.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index 9178e31..ae70440 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -102,6 +102,7 @@ void mul(mpz_t &result, mpz_t* u, int64_t u_length, mpz_t* v, int64_t v_length)
         mpz_mul(tmp,u[i],v[i]);
         mpz_add(result, result, tmp);
     }
+    mpz_clear(tmp);
 }
 
 //Some routines for fmpz_{mat,vec} and nmod_{mat,vec}
-- 
2.43.0


From c6af77cd5ca8542d7c4643dc4c6c9e451f8def0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 14/20] fix: comparison of empty exponent vectors read out of
 bounds

---
 vec_int64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec_int64.h b/vec_int64.h
index f60d824..190b68f 100644
--- a/vec_int64.h
+++ b/vec_int64.h
@@ -36,7 +36,7 @@ operator<(const NTL::Vec<int64_t>& a, const NTL::Vec<int64_t>& b) {
         else if ( a[i] < b[i] )
             return true;
     }
-    return a[a.length() - 1] < b[b.length() - 1];
+    return a.length() > 0 && a[a.length() - 1] < b[b.length() - 1];
 }
 
 // res = c * v;
-- 
2.43.0


From 5f96765e164aa20afe068ba9d33f5e0d17bb1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 15/20] fix: writing an empty polynomial dereferenced the end
 iterator

---
 tools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools.h b/tools.h
index 03e654a..22eda13 100644
--- a/tools.h
+++ b/tools.h
@@ -191,7 +191,8 @@ NTL_SNS ostream & operator<< (NTL_SNS ostream& s, const  std::map< NTL::Vec<T>,
     NTL::Mat<T>  monomials;
     NTL::Vec<R> coefficients;
         
-    monomials.SetDims(a.size(), a.cbegin()->first.length());
+    if (!a.empty())
+        monomials.SetDims(a.size(), a.cbegin()->first.length());
     coefficients.SetLength(a.size());
     for (i = 0, it = a.cbegin(); it != a.cend(); ++it, ++i){
         monomials[i] = it->first;
-- 
2.43.0


From 8ac189b667305fdfebc03ce15c27599e2e557903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 16/20] fix: zeta_function must refuse an empty polynomial

---
 wrapper/zeta_function.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wrapper/zeta_function.cc b/wrapper/zeta_function.cc
index 3334fd7..837699b 100644
--- a/wrapper/zeta_function.cc
+++ b/wrapper/zeta_function.cc
@@ -42,6 +42,7 @@ void zeta_function(
     #else
     assert(threads > 0);
     #endif
+    assert_print(f.size(), >, 0);
     Vec<int64_t> monomial = f.cbegin()->first;
     int64_t n = monomial.length() - 1;
     int64_t d = 0;
-- 
2.43.0


From f856510fa5af36b7693d873c5b95db7d24bc6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 17/20] fix: a truncated file was read past the end of its
 tables instead of refused

---
 dr/constructors.cc | 3 +++
 dr_nd/dr_nd.cc     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index d2295e1..b0e2d10 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -112,6 +112,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> d;
         file >> Hilbert_J;
         file >> f_vector;
+        assert( !file.fail() );
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -138,6 +139,7 @@ de_Rham_local::de_Rham_local(const char* filename)
             solve_pair = &( solve_J[(i+1)*d - (n+1)]);
             file >> solve_pair->first;
             file >> solve_pair->second;
+            assert( !file.fail() );
             assert( Hilbert_J[(i+1)*d-(n+1)] == (int64_t) (solve_pair->first).length() );
             for( j = 0; j < (int64_t)(solve_pair->first).length(); j++)
             {
@@ -147,6 +149,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         solve_pair = &( solve_J[(d - 2) * (n + 1) + 1]);
         file >> solve_pair->first;
         file >> solve_pair->second;
+        assert( !file.fail() );
 
         for( i = 0; i < (int64_t)coKernels_J_basis.length(); i++ )
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 5c82050..3b6ef40 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -121,6 +121,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> d;
         file >> Hilbert_J;
         file >> f_vector;
+        assert( !file.fail() );
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -147,6 +148,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
             solve_pair = &( solve_J[(i+1)*d - (n+1)]);
             file >> solve_pair->first;
             file >> solve_pair->second;
+            assert( !file.fail() );
             assert( Hilbert_J[(i+1)*d-(n+1)] == (int64_t) (solve_pair->first).length() );
             for( j = 0; j < (int64_t)(solve_pair->first).length(); j++)
             {
@@ -156,6 +158,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         solve_pair = &( solve_J[(d - 2) *  (n + 1) + 1]);
         file >> solve_pair->first;
         file >> solve_pair->second;
+        assert( !file.fail() );
 
         for( i = 0; i < (int64_t)coKernels_J_basis.length(); i++ )
         {
@@ -163,12 +166,14 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         }
 
         file >> Hilbert_ND;
+        assert( !file.fail() );
 
         for( i = 0; i <= n; i++)
         {
             solve_pair = &( solve_ND[ i * d ]);
             file >> solve_pair->first;
             file >> solve_pair->second;
+            assert( !file.fail() );
             assert( Hilbert_ND[i*d] == (int64_t) (solve_pair->first).length() );
             for( j = 0; j < (int64_t) (solve_pair->first).length(); j++ )
             {
@@ -181,6 +186,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         solve_pair = &( solve_ND[ (d - 1) * (n + 1) + 1 ] );
         file >> solve_pair->first;
         file >> solve_pair->second;
+        assert( !file.fail() );
         assert( coKernels_ND_basis.length() == power_long(d, n) );
         file.close();
     }
-- 
2.43.0


From cde00652faa714d2d833f7ce2513641edc64b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 18/20] fix: the default constructor of de_Rham_local left its
 flags uninitialised, and isND copies them

---
 dr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dr.h b/dr.h
index 55e70a8..d1dfa6e 100644
--- a/dr.h
+++ b/dr.h
@@ -102,7 +102,7 @@ class de_Rham_local{
         /*
          * constructors
          */
-        de_Rham_local(){};
+        de_Rham_local() : p(0), precision(0), save_memory(true), verbose(false), d(0), n(0) {};
         de_Rham_local(int64_t p, int64_t precision, int64_t n, int64_t d, bool verbose, bool save_memory = true);
         de_Rham_local(int64_t p, int64_t precision, int64_t n, int64_t d, Vec< ZZ_p> f_vector, bool verbose, bool save_memory = true);
         de_Rham_local(int64_t p, int64_t precision, map< Vec<int64_t>, ZZ_p, vi64less> f, bool verbose , bool save_memory = true);
-- 
2.43.0


From ca10c34ec6c2fb85d57d762a8000c9c764a196de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 19/20] fix: binomials of the expansion of Frobenius overflowed
 64 bits for more than 61 terms

---
 hypersurface/frob_J_ZZ.cc          |  4 ++--
 hypersurface/frob_J_ZZ_p.cc        | 12 ++++++------
 hypersurface_nd/hypersurface_nd.cc | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hypersurface/frob_J_ZZ.cc b/hypersurface/frob_J_ZZ.cc
index c018ed1..3b049c7 100644
--- a/hypersurface/frob_J_ZZ.cc
+++ b/hypersurface/frob_J_ZZ.cc
@@ -75,7 +75,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial_ZZ(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -252,7 +252,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ( const int64_t coordinate, const int64_t N,con
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i, j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 5d0d22d..50d8ff6 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -11,11 +11,11 @@
 Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val;
+    int64_t e, i, j, m, sum, end, val;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ Djm, bin;
     Vec<int64_t> ei, monomial, ones, src, dest, v, y;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -65,7 +65,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -76,7 +76,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dict_V->size() );
-                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += Djm * it->second * fact;
+                (*H_temp)[ (*dict_V)[ p * monomial - tweak( p * monomial, d * n - n) ] ] += conv<ZZ_p>(Djm) * it->second * fact;
                 /*
                 if( H.find(monomial) == H.end() )
                 {
@@ -230,7 +230,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             Djm = 0;
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -240,7 +240,7 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
             for( it = fpow[j].begin(); it != fpow[j].end(); it++)
             {
                 monomial = p * ( it->first + ei + ones ) - ones;
-                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+                G0[ (*dict_G0)[ monomial ] ] += fact * conv<ZZ_p>(Djm) * it->second;
             }
             F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index e7b382f..11e07af 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -125,7 +125,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -271,11 +271,11 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ(const int64_t coordinate, cons
 Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, const int64_t N, const int64_t loop)
 {
     assert(N > 0);
-    int64_t bin, e, i, j, m, sum, end, val, dpowern;
+    int64_t e, i, j, m, sum, end, val, dpowern;
     ZZ_p fact;
     //ZZ factZZ;
     ZZ tmp, remainder;
-    int64_t Djm;
+    ZZ Djm, bin;
     Vec<int64_t> ei, monomial, ones, src, dest, v, final_dest;
     Vec<ZZ_p> F, G, G0, H_last, *H_temp;
     Mat<ZZ_p> Mred;
@@ -322,7 +322,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
@@ -333,7 +333,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_ZZ_p(const int64_t coordinate, co
                 monomial = it->first + ei + ones;
                 H_temp = &H[monomial];
                 H_temp->SetLength( dpowern );
-                (*H_temp)[0] += Djm * it->second * fact;
+                (*H_temp)[0] += conv<ZZ_p>(Djm) * it->second * fact;
             }
         }
         /*
@@ -514,7 +514,7 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             // Djm = sum( [ binomial(m + i -1, m -1) * binomial(i , j) * (-1) ** j for i in range(j,N) ] )
             for( i = j ; i < N ; i++)
             {
-                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                bin = binomial_ZZ(m + i - 1, m - 1) * binomial_ZZ(i,j);
                 if(j%2 == 0)
                     Djm += bin;
                 else
-- 
2.43.0


From 918dc87e569020daa7d29ed37f84d70a2956efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 20/20] fix: the characteristic polynomial of a 0 x 0 matrix
 wrote a trace past the end of its table

---
 matrix/charpoly.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly.cc b/matrix/charpoly.cc
index 046443b..ed84728 100644
--- a/matrix/charpoly.cc
+++ b/matrix/charpoly.cc
@@ -26,7 +26,8 @@ Vec<ZZ> charpoly(const Mat<ZZ> M) {
     p.SetLength(n+1);
     NTL::set(e[0]);
     NTL::set(result[n]);
-    p[1] = trace(M);
+    if( n > 0 )
+        p[1] = trace(M);
 
     powerM = M;
 
-- 
2.43.0

