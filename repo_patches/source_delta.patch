From 2a5887e1d8c618d6dc9fa80099188616363a8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 01/34] fix: predict into an output buffer of any alignment

Rows of a batch (and any caller's float array) are not SIMD aligned, but the
last layer was written straight to them with aligned stores.
---
 src/activation.c        |  8 ++++----
 src/matrix_operations.c | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..bfa84e7 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -548,8 +548,8 @@ static void tanh_act( const int n, float *y )
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(y + i);
-        YMM1 = _mm256_load_ps(y + i + 8);
+        YMM0 = _mm256_loadu_ps(y + i);
+        YMM1 = _mm256_loadu_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
         YMM1 = _mm256_mul_ps(neg_two, YMM1);
         YMM2 = _mm256_add_ps(one, exp256_ps(YMM0));
@@ -558,8 +558,8 @@ static void tanh_act( const int n, float *y )
         YMM3 = _mm256_div_ps(two, YMM3);
         YMM2 = _mm256_add_ps(neg_one, YMM2);
         YMM3 = _mm256_add_ps(neg_one, YMM3);
-        _mm256_store_ps(y + i, YMM2);
-        _mm256_store_ps(y + i + 8, YMM3);
+        _mm256_storeu_ps(y + i, YMM2);
+        _mm256_storeu_ps(y + i + 8, YMM3);
     }
 #endif  /* __AVX2__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..3bae51f 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -120,7 +120,7 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
     /*
     assert( is_aligned( weight ));
     assert( is_aligned( bias ));
-    assert( is_aligned( y ));
+    y may have any alignment: it is the output buffer of the caller for the last layer.
     */
     const float *bias_ptr = bias;
     float *y_ptr = y; 
@@ -128,12 +128,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_load_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_load_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -149,11 +149,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -162,9 +162,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -172,9 +172,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From b7fd7b002c7f713a5f87d3f773b93c99269e6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 02/34] fix: back propagation through layers whose size is no
 multiple of the SIMD width

Matrix rows and the gradient segments of the layers are then unaligned.
---
 src/activation.c        | 24 ++++++++++++------------
 src/matrix_operations.c |  8 ++++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index bfa84e7..e507f60 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 3bae51f..9759689 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From e49d9e072b58036cdc34fdb1390d346e4815eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 03/34] fix: no data race between concurrent batch predictions
 with BLAS

---
 src/neuralnet_predict_batch.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..2524eaf 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -105,9 +105,8 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
             memcpy( activations[i+1] + j*layer_ptr->n_output, layer_ptr->bias, size );
     }
 
-    static activation_func softmax = NULL; /* Keep it static such that get_() is called only once! */
-    if( !softmax )
-        softmax = get_activation_func( "softmax" ); /* Slow? */
+    /* A local variable: a static one would be shared, unsynchronized, by all calling threads. */
+    const activation_func softmax = get_activation_func( "softmax" );
 
     /* Then we do the forward calculation */
     for( int i = 0; i < nn->n_layers; i++){
-- 
2.43.0


From ba31cdf7823df6849806a51a55bfdd97571dfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 04/34] fix: the shuffle pivot belongs to the optimizer

The size of the pivot array was kept in a variable shared by all optimizers,
so with several optimizers (or a second training session) the array could be
missing, too small, or not a permutation of the samples.
---
 src/optimizer.c | 5 ++---
 src/optimizer.h | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..c6830f2 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..3592359 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* The number of elements in the pivot. Don't touch! */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0;    \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From f2c69174c5fc3c24e336cd0d1f05643224295925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 05/34] fix: count Adam's bias correction per optimizer

The decayed beta powers were shared by all Adam optimizers of the process, so
a second one started without its bias correction.
---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..b93999e 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -23,6 +23,8 @@ struct _adam_t
     float weight_decay;
 
     /* private stuff - don't touch! */
+    float beta_1_corrected;
+    float beta_2_corrected;
     float *r;
     float *s;
 };
@@ -36,6 +38,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
 
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
+
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From d30cfdfb8eff345091a8d1b614e23d8d8b95c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 06/34] fix: early stopping judges by its own history

Best score and epoch count were shared by all instances, and with
greater_is_better a NaN in the first epoch could never be improved on.
---
 src/earlystopping.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..a61741b 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -14,6 +14,9 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    bool  has_best;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +26,15 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->has_best            = false;
+        newcb->best_so_far         = FLT_MAX;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +45,26 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( es->has_best ? score > es->best_so_far : score == score ){ /* an undefined score is no improvement */
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
+            es->has_best = true;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
+            es->has_best = true;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From 6d6ec5aa84828098ac9fd399bf1a8ce1be452aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:43 +0000
Subject: [PATCH 07/34] fix: a checkpoint compares with the best score of its
 own instance

The best score was shared by all model checkpoints, and with greater_is_better
a NaN in the first epoch kept every later model from being saved.
---
 src/modelcheckpoint.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..fb85e81 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -18,6 +18,8 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    bool has_best;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +29,14 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->has_best              = false;
+        newcb->best_so_far           = FLT_MAX;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +47,20 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( mcp->has_best ? score > mcp->best_so_far : score == score ){ /* an undefined score is no improvement */
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
+            mcp->has_best = true;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
+            mcp->has_best = true;
         }
     }
 
-- 
2.43.0


From 115d5fa7e7862bbfa0b5e531f5808c5a688301b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 08/34] fix: the default metric list belongs to the optimizer

All optimizers without a metric list shared one static list, written by every
optimizer that was created: each got the metric of the last one's loss.
---
 src/optimizer.c | 8 +++-----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index c6830f2..f2bfa96 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,10 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
-
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+        opt->default_metrics[1] = NULL;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 3592359..e5c5989 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -30,6 +30,7 @@ struct _optimizer_t {
     int          batchsize;
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
+    metric_func  default_metrics[2];  /* Used when no metrics are given. Don't touch! */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* The number of elements in the pivot. Don't touch! */
 };
-- 
2.43.0


From be1e652cfc0904c8405e1beb3dc6c64cac010750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 09/34] fix: reduce the batch gradient over its own elements
 only

The reduction covered up to 16 elements more than the array of the caller has,
and read and wrote back whatever is next to it on the stack. The threads' own
copies need no alignment: they are accumulated with unaligned instructions.
---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index f2bfa96..d1c2187 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -62,19 +62,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -82,7 +69,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 54d253ccae25ed57bf64ef453d77d1d6c8b6fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 10/34] fix: log lines of any length, and epoch numbers from
 any log

A line with many metrics overflowed a buffer of 255 bytes; a log that is empty,
has one line or ends in a torn line crashed the start or restarted the
numbering; the time of day came from a buffer shared between threads.
---
 src/logger.c | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..f9e1ad5 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -2,10 +2,12 @@
 /* 
  vim: ts=4 sw=4 softtabstop=4 expandtab 
 */
+#define _POSIX_C_SOURCE 200112L  /* localtime_r */
 #include "logger.h"
 #include "metrics.h"
 
 #include <stdio.h>
+#include <stddef.h>
 #include <time.h>
 #include <assert.h>
 #include <string.h>
@@ -24,6 +26,7 @@ static int find_last_epoch_from_logfile( logger_t *logger );
 
 #define EPOCH_STR "Epoch"
 #define MAX_BUFFER 255
+#define MAX_VALUE   32  /* Room for one value and its decoration */
 /* Define and set the defaults. OMG, this is ugly but it is general. */
 CALLBACK_DEFINE(logger,
         logger_config *cfg = (logger_config*) config;
@@ -44,20 +47,21 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        int  next = logger->epoch_count;
+        int  epoch = -1;
+        bool at_line_start = true;
+        while( fgets( buf, sizeof(buf), fp ) ){  /* A long line comes in several pieces */
+            if( at_line_start ){
+                char *e_counter = strstr( buf, EPOCH_STR );
+                if( !e_counter || sscanf( e_counter + strlen(EPOCH_STR), "%d", &epoch ) != 1 )
+                    epoch = -1;
+            }
+            at_line_start = strchr( buf, '\n' ) != NULL;
+            if( at_line_start && epoch >= 0 )    /* Only complete lines count */
+                next = epoch + 1;
+        }
+        fclose(fp);
+        return next;
     }
     return logger->epoch_count;
 }
@@ -66,13 +70,20 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
 {
     logger_t *log = (logger_t*) cb;
 
-    char buffer[MAX_BUFFER + 1];
+    int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
+    size_t size = MAX_BUFFER;
+    for ( int i = 0; i < n_metrics; i++ )
+        size += 2 * ( strlen( get_metric_name( opt->metrics[i] )) + MAX_VALUE );
+
+    char buffer[size];
     char *ptr = buffer;
     time_t rawtime;
-    struct tm * timeinfo;
+    struct tm timebuf;
 
     time ( &rawtime );
-    timeinfo = localtime ( &rawtime );
+    memset( &timebuf, 0, sizeof(timebuf));
+    struct tm *timeinfo = &timebuf;
+    localtime_r( &rawtime, timeinfo );
 
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
     ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
@@ -81,7 +92,6 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
 
     /* Now the metric values */
-    int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
             ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
@@ -90,7 +100,7 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     }
 
     ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    assert( ptr - buffer < (ptrdiff_t) size );
 
     /* Print it out */
     if ( !log->no_stdout )
-- 
2.43.0


From c4616d1c788e26f06d244420ad1cab2d430a3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 11/34] fix: start a new log line after a torn one

After a crash in the middle of a line the next epoch was appended to the
incomplete line.
---
 src/logger.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index f9e1ad5..c4529c1 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -107,11 +107,17 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
         fprintf( stdout, "%s", buffer ); 
 
     FILE *fp = NULL;
-    if ( log->filename )
-        fp = fopen( log->filename, "a" );
+    if ( log->filename ){
+        fp = fopen( log->filename, "a+" );
+        if ( !fp )
+            fp = fopen( log->filename, "a" );
+    }
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        /* The last line is not complete if an earlier run died (or the disk ran full) while writing it */
+        int last = fseek( fp, -1, SEEK_END ) == 0 ? fgetc( fp ) : EOF;
+        fseek( fp, 0, SEEK_END );
+        fprintf( fp, "%s%s", last == EOF || last == '\n' ? "" : "\n", buffer );
         fclose( fp );
     }
     return;
-- 
2.43.0


From 3e15d35a547cfc3b22fd9486747dd4299a5d7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:35 +0000
Subject: [PATCH 12/34] fix: finite normal weights for any random stream, from
 any thread

A pair of zeros from the random generator gave NaN weights, and the cached
second value of the pair was shared between threads.
---
 src/neuralnet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..57463aa 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -695,8 +695,8 @@ static float random_uniform()
 
 static float random_normal()
 {
-    static float v, fac;
-    static bool use_prev = false;
+    static __thread float v, fac;  /* one pair per thread: networks may be initialized concurrently */
+    static __thread bool use_prev = false;
     float S, Z, u;
     if(use_prev)
         Z = v * fac;
@@ -706,7 +706,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From 8cfc0b8b2fa6f86263c505936bb5ae97cdf059cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:20 +0000
Subject: [PATCH 13/34] fix: read any array header without crashing or reading
 a wrong array

---
 npy_array/npy_array.c | 71 +++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..feab751 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -43,6 +43,7 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <sys/mman.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
 #include <assert.h>
 
 #define NPY_ARRAY_MAGIC_STRING {0x93,'N','U','M','P','Y'}
@@ -135,9 +136,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
-        n_elements *= m->shape[ idx++ ];
+    for( int i = 0; i < m->ndim; i++ )
+        n_elements *= m->shape[ i ];
     return n_elements * m->elem_size;
 }
 
@@ -179,8 +179,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
@@ -200,7 +200,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    if( !descr || !descr[0] || !descr[1] ){
+        fprintf(stderr, "Cannot find the element type in the header.\n");
+        free( m );
+        return NULL;
+    }
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -214,12 +218,20 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    const long long elem_size = strtoll( &descr[2], NULL, 10);
+    m->elem_size = (size_t) elem_size;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+
+    /* FIXME: This only works if there is one and only one leading spaces. */
+    char *shape   = find_header_item("'shape': ", header);
+
+    if( elem_size <= 0 || !fortran || !shape || !strchr( shape, ')' )){
+        fprintf(stderr, "Cannot parse the header of the numpy array.\n");
+        free( m );
+        return NULL;
+    }
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -228,26 +240,36 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     else
         fprintf(stderr, "Warning: No matrix order found, assuming fortran_order=False");
 
-    /* FIXME: This only works if there is one and only one leading spaces. */
-    char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
     while (*shape != ')' ) {
         if( !isdigit( (int) *shape ) ){
             shape++;
             continue;
         }
-        m->shape[m->ndim] = strtol( shape, &shape, 10);
+        if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS ){
+            fprintf(stderr, "Cannot read arrays of more than %d dimensions.\n", NPY_ARRAY_MAX_DIMENSIONS );
+            free( m );
+            return NULL;
+        }
+        errno = 0;
+        m->shape[m->ndim] = strtoull( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
+        if( errno == ERANGE )
+            goto too_large;
     }
 
-    size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
+    /* The size in bytes must not overflow. (An array with a zero dimension has no data at all.) */
+    size_t datasize = m->elem_size;
+    for( int i = 0; i < m->ndim; i++ )
+        if( m->shape[i] == 0 )
+            datasize = 0;
+    for( int i = 0; i < m->ndim && datasize; i++ ){
+        if( datasize > SIZE_MAX / m->shape[i] )
+            goto too_large;
+        datasize *= m->shape[i];
+    }
 
 #if VERBOSE
-    printf("Number of elements: %llu\n", (unsigned long long) n_elements );
+    printf("Number of bytes: %llu\n", (unsigned long long) datasize );
 #endif
     m->map_addr = NULL;
     if( read_func == read_mapped ){
@@ -257,21 +279,26 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( datasize ? datasize : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
         return NULL;
     }
 
-    chk = read_func( fp, m->data, m->elem_size * n_elements ); /* Can the multiplication overflow? */ 
-    if( chk != m->elem_size * n_elements){
+    chk = read_func( fp, m->data, datasize );
+    if( chk != datasize ){
         fprintf(stderr, "Could not read all data.\n");
         free( m->data );
         free( m );
         return NULL;
     }
     return m;
+
+too_large:
+    fprintf(stderr, "The shape in the header is too large.\n");
+    free( m );
+    return NULL;
 }
 
 npy_array_t * npy_array_load( const char *filename )
-- 
2.43.0


From 240f195e1d23e500f0e1c13b2b01d0874574cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 14/34] fix: write array headers of any shape

---
 npy_array/npy_array.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index feab751..1d0c0cc 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -98,7 +98,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -121,8 +121,11 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    /* Big arrays with a lot of dimensions need a longer header. The total stays evenly divisible by 64. */
+    size_t header_len = HEADER_LEN + NPY_ARRAY_PREHEADER_LENGTH;
+    while( len + 2 > header_len )
+        header_len += 64;
+    len += sprintf( dict + len, "%*s\n", (int) (header_len - len - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
-- 
2.43.0


From 39206d2624c05b7971c69f6a2f3b3cd18e6f7c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 15/34] fix: map array files within their length

---
 npy_array/npy_array.c | 18 ++++++++----------
 npy_array/npy_array.h |  1 +
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 1d0c0cc..086d0be 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -277,8 +277,14 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( datasize > mh->length - (size_t) (mh->current_pos - mh->start_pos) ){
+            fprintf(stderr, "Could not read all data.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
@@ -329,7 +335,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
@@ -413,15 +419,7 @@ void npy_array_free( npy_array_t *m )
     }
 
     if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
+        munmap( m->map_addr, m->map_length );
     } else
         free( m->data );
 
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..a0558c8 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* (private) length of the map */
 } npy_array_t;
 
 
-- 
2.43.0


From 010d02c1c641a1580e70e49e92a73ff185158d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 16/34] fix: report data that is lost when an array file is
 closed

---
 npy_array/npy_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 086d0be..e3e1dc7 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -408,7 +408,10 @@ void npy_array_save( const char *filename, const npy_array_t *m )
     if( chk != datasize){
         fprintf(stderr, "Could not write all data.\n");
     }
-    fclose(fp);
+    if( fclose(fp) != 0 ){
+        fprintf(stderr, "Could not write all data to '%s'.\n", filename );
+        perror("Error");
+    }
 }
 
 void npy_array_free( npy_array_t *m )
-- 
2.43.0


From ebfb36e187a99bcd326a6c1659ba8899d036544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 17/34] fix: saving arrays and networks fails with a message,
 and leaves the file as it was

---
 npy_array/npy_array_list.c | 72 ++++++++++++++++++++++++++++----------
 src/neuralnet.c            | 23 ++++++------
 2 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..7c8d7e3 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -83,11 +83,16 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save numpy array. Your filename is too long."
                 " Please limit the filename to %d characters.\n", MAX_FILENAME_LEN );
+        va_end( ap2 );
         return NULL;
     }
 
     char *real_filename = malloc( (len+1) * sizeof(char));
-    assert( real_filename );
+    if( !real_filename ){
+        fprintf( stderr, "Warning: Cannot allocate memory for the filename of numpy array.\n" );
+        va_end( ap2 );
+        return NULL;
+    }
 
     vsprintf( real_filename, filename, ap2 );
     va_end( ap2 );
@@ -114,6 +119,7 @@ static npy_array_list_t * _list_prepend( npy_array_list_t *list, npy_array_list_
     return new_elem;
 }
 
+/* The list is returned unchanged (and the array still belongs to the caller) if the array cannot be added. */
 #define create_extend_list_func(oper) \
 npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t *array, const char *filename, ... ) \
 { \
@@ -124,8 +130,11 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
+    if( !new_list->filename ){ \
+        free( new_list ); \
+        return list; \
+    } \
 \
     return _list_ ##oper ( list, new_list ); \
 } 
@@ -153,11 +162,23 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( !array_list )
         return 0;
 
-    /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf( stderr, "Error: Cannot open '%s' for writing.\n", filename );
+        return 0;
+    }
 
+    /* The archive needs the data until it is closed. (Who owns it when libzip fails differs from case to case,
+       so it is always freed here.) */
     int n = 0;
+    const size_t len = npy_array_list_length( array_list );
+    char **buffers = calloc( len, sizeof( char* ));
+    if( !buffers ){
+        fprintf( stderr, "Error: Cannot allocate memory for the numpy arrays.\n" );
+        zip_discard( zip );
+        return 0;
+    }
+
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
         if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
             /* what is wrong? */
@@ -174,27 +195,42 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         size_t hlen = npy_array_get_header( m, header );
         size_t datasize = npy_array_calculate_datasize( m );
 
-        char *matrix_npy_format = malloc( hlen + datasize );
-        assert( matrix_npy_format );
+        char *matrix_npy_format = buffers[n] = malloc( hlen + datasize );
+        if( !matrix_npy_format ){
+            fprintf( stderr, "Error: Cannot allocate memory for the numpy array.\n" );
+            goto save_error;
+        }
         memcpy( matrix_npy_format, header, hlen );
         memcpy( matrix_npy_format + hlen, m->data, datasize );
 
-        /* FIXME: Check for error */
-        zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
-        assert(s); 
+        zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 0, NULL);
+        if( !s ){
+            fprintf( stderr, "Error: Cannot allocate memory for the numpy array.\n" );
+            goto save_error;
+        }
 
-        int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
-        if( idx != n )
-            fprintf( stderr, "Warning: Index and counter mismatch.");
+        /* An archive without this array would be incomplete. Leave the file as it was. */
+        if( zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 ) < 0 ){
+            fprintf( stderr, "Error: Cannot add numpy array %d to '%s': %s\n", n, filename, zip_strerror( zip ));
+            zip_source_free( s );
+            goto save_error;
+        }
 
-        // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
-        
         n++;
     }
-    if ( zip_close( zip ) < 0 ){
-        fprintf(stderr, "What? no close?\n");
-        fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
-    }
+    if ( zip_close( zip ) == 0 )
+        goto done;
+
+    fprintf(stderr, "What? no close?\n");
+    fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+
+save_error:
+    zip_discard( zip );
+    n = 0;
+done:
+    for( size_t i = 0; i < len; i++ )
+        free( buffers[i] );
+    free( buffers );
     return n;
 }
 
diff --git a/src/neuralnet.c b/src/neuralnet.c
index 57463aa..02e04a7 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -341,11 +341,11 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     va_end( ap2 );
 
     npy_array_list_t *save = NULL;
+    npy_array_t arrays[ 2 * nn->n_layers + 1 ];
 
     for (int i = 0; i < nn->n_layers ; i++ ){
         /* weight */
-        npy_array_t  *w = calloc( 1, sizeof( npy_array_t ));
-        assert( w );
+        npy_array_t  *w = arrays + 2*i;
         memcpy( w, NPY_ARRAY_BUILDER(
                     nn->layer[i].weight,
                     SHAPE( nn->layer[i].n_input, nn->layer[i].n_output),
@@ -353,15 +353,14 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
                 sizeof(npy_array_t));
         save = npy_array_list_append( save, w, "weight_%d", i );
         /* bias */
-        npy_array_t *b = calloc( 1, sizeof( npy_array_t ));
-        assert( b );
+        npy_array_t *b = arrays + 2*i + 1;
         memcpy( b, NPY_ARRAY_BUILDER(
                 nn->layer[i].bias,
                 SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32),
                 sizeof(npy_array_t));
 
         save = npy_array_list_append( save, b, "bias_%d", i );
-        /* Note: The npy_arrays have to be allocated and copied.
+        /* Note: The npy_arrays have to be copied.
            They are automatic stack allocated and they go out of scope
            when leaving the for-loop */
     }
@@ -385,15 +384,16 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
         memcpy( ptr, activation_name, len );
     }        
 
-    npy_array_t *a = malloc( sizeof(npy_array_t));
-    assert( a );
+    npy_array_t *a = arrays + 2 * nn->n_layers;
     memcpy( a, NPY_ARRAY_BUILDER( data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ), sizeof(npy_array_t));
     save = npy_array_list_append( save, a, "activations" );
-    /* (The above npy_array doesn't go out of any scope. heap allocating and copying is unnecessary, however ...
-        Then I cannot free this array in the same way as the others. I need to treat it different when freeing!
-        I therefore allocate on heap anyway...)  */
 
-    int n_saved = npy_array_list_save( real_filename, save );
+    /* Never replace a good file with one that lacks an array */
+    int n_saved = 0;
+    if( npy_array_list_length( save ) == (size_t) (nn->n_layers*2 + 1) )
+        n_saved = npy_array_list_save( real_filename, save );
+    else
+        fprintf( stderr, "Error: Cannot allocate memory for saving neural network to '%s'.\n", real_filename );
     if( n_saved != (nn->n_layers*2 + 1) )
         printf("Warning: Arrays written: %d  !=  2 x n_layers + 1     (n_layers=%d)\n", n_saved, nn->n_layers );
 
@@ -402,7 +402,6 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
      * for each element. That is data we do not have for weights and biases. */
     while( save ){
         if(save->filename) free(save->filename);
-        if(save->array) free( save->array );
         npy_array_list_t *tmp = save;
         save = save->next;
         free( tmp );
-- 
2.43.0


From a3647106d2f605b3b10cb5bfb21c247c5debd12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 18/34] fix: load every readable array of an archive, and none
 that fails its checksum

---
 npy_array/npy_array_list.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 7c8d7e3..e85d786 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -251,12 +251,29 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             continue;
         }
         npy_array_t *arr = _read_matrix( fp, &read_zip );
+        /* The checksum is verified when all data is read */
+        char rest[64];
+        zip_int64_t n_rest = 0;
+        while( arr && (n_rest = zip_fread( fp, rest, sizeof(rest))) > 0 )
+            ;
         zip_fclose( fp );
-        if(!arr) {
+        if( !arr || n_rest < 0 ) {
             fprintf(stderr, "Warning: Cannot read matrix.\n");
+            if( arr ) npy_array_free( arr );
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        /* The names in a file can have any length and any characters. */
+        const char *name = zip_get_name( zip, i, 0 );
+        npy_array_list_t *elem = npy_array_list_new();
+        if( elem && name && (elem->filename = malloc( strlen( name ) + 1 )) != NULL ) {
+            strcpy( elem->filename, name );
+            elem->array = arr;
+            list = _list_append( list, elem );
+        } else {
+            fprintf(stderr, "Warning: Cannot allocate memory for internal file of index %d in archive '%s'.\n", i, filename );
+            npy_array_free( arr );
+            npy_array_list_free( elem );
+        }
     }
 
     zip_close(zip);
-- 
2.43.0


From 67e47370c7057ffb05fba36435855a4c57615196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 19/34] fix: compress arrays in an archive as requested

---
 npy_array/npy_array_list.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index e85d786..988ca67 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -180,9 +180,6 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     }
 
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -216,6 +213,11 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
             goto save_error;
         }
 
+        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
+            fprintf( stderr, "Error: Cannot compress numpy array %d of '%s': %s\n", n, filename, zip_strerror( zip ));
+            goto save_error;
+        }
+
         n++;
     }
     if ( zip_close( zip ) == 0 )
-- 
2.43.0


From 9134c583e120cb87b55ab23254f16356ce1f52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:52 +0000
Subject: [PATCH 20/34] fix: load a network only from arrays that make one

---
 src/neuralnet.c | 86 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 02e04a7..5391739 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -94,10 +95,16 @@ weight_alloc_error:
 
 static char ** _activation_names_from_npy( npy_array_t *m )
 {
+    if( m->ndim != 1 || m->shape[0] < 1 )
+        return NULL;
     char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( !ret )
+        return NULL;
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -108,6 +115,41 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+/* The parameters of a layer are usable if they are native float32 in C order, and if the sizes fit together. */
+static bool _layer_arrays_ok( int layer, const npy_array_t *weights, const npy_array_t *bias, const npy_array_t *prev_weights )
+{
+    const int val = 1;
+    const char opposite_endianness = *(const char *)&val == 1 ? '>' : '<';
+    const npy_array_t *arrays[] = { weights, bias };
+    for( int i = 0; i < 2; i++ ){
+        const npy_array_t *m = arrays[i];
+        if( m->elem_size != sizeof(float) || m->endianness == opposite_endianness || m->fortran_order ){
+            fprintf( stderr, "Parameters of layer %d are not native float32 numbers in C order.\n", layer );
+            return false;
+        }
+    }
+    if( weights->ndim != 2 || weights->shape[0] > INT_MAX || weights->shape[1] > INT_MAX ){
+        fprintf(stderr, "weight npy array not a 2-dimensional matrix in layer %d (It's %dD!)\n", layer, weights->ndim);
+        return false;
+    }
+    if( bias->ndim != 1 ){
+        fprintf(stderr, "bias npy array not 1-dimensional in layer %d (It's %dD!)\n", layer, bias->ndim);
+        return false;
+    }
+    if( weights->shape[1] != bias->shape[0] ){
+        fprintf(stderr, "bias size does not match weight size in layer %d. Weight: (%zu,%zu) Bias (%zu)\n",
+                layer, weights->shape[0], weights->shape[1], bias->shape[0]);
+        return false;
+    }
+    if( prev_weights && weights->shape[0] != prev_weights->shape[1] ){
+        fprintf( stderr, "weight size mismatch between layer %d and %d.\n", (layer-1), layer );
+        fprintf( stderr, "* Prev layer output size: %zu\n", prev_weights->shape[1] );
+        fprintf( stderr, "* This layer  input size: %zu\n", weights->shape[0] );
+        return false;
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -118,6 +160,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_list_t  *array_list          = NULL;
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
+    size_t             n_names             = 0;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
 
@@ -141,15 +184,28 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
-        else {
+        else if( m->typechar == 'S' && !activation_funcs ){
+            if( NULL == (activation_funcs = _activation_names_from_npy( m ))){
+                fprintf( stderr, "Cannot read the names of the activation functions in file '%s'.\n", filename );
+                goto load_error;
+            }
+            n_names = m->shape[0];
+        } else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    /* There should be one weight and one bias npy arrays for each layer, and one name for each layer. */
+    if( wb_idx < 2 || (wb_idx % 2) != 0 || n_names != (size_t) (wb_idx / 2) ){
+        fprintf( stderr, "%d arrays of parameters and %zu names of activation functions do not make a neural network. Cannot open file '%s'.\n",
+                wb_idx, n_names, filename );
+        goto load_error;
+    }
+
+    for( int i = 0; i < wb_idx / 2; i++ )
+        if( !_layer_arrays_ok( i, weights_and_biases[i*2], weights_and_biases[i*2+1], i > 0 ? weights_and_biases[(i-1)*2] : NULL ))
+            goto load_error;
 
     int n_layers = wb_idx / 2;
     {  /* An added scope to please 'goto' */
@@ -173,22 +229,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -198,8 +238,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
         /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
          * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
     }
 
 load_error:
-- 
2.43.0


From 6ce6250927ee3306e7ba7dd733f1f3f552db26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:34 +0000
Subject: [PATCH 21/34] fix: do not free uninitialised layers when memory runs
 out

neuralnet_create() freed every layer's pointers after a failed allocation,
including those not assigned yet.
---
 src/neuralnet.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 5391739..96716b9 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -684,7 +684,8 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    /* ... but cleared, such that a layer without memory yet has no pointers to free */
+    nn->layer = calloc( n_layers, sizeof( layer_t ));
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From d6f6da746a6b7c1da0d9df3cecf0b6a12632878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 22/34] fix: creating an optimizer fails with a message when
 memory runs out

The state of the optimizer was checked with assert() only.
---
 src/RMSprop.c | 17 +++++++++++------
 src/SGD.c     | 13 ++++++++++---
 src/adagrad.c | 13 ++++++++++---
 src/adam.c    | 14 ++++++++++----
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/RMSprop.c b/src/RMSprop.c
index cc8d746..0588aa9 100644
--- a/src/RMSprop.c
+++ b/src/RMSprop.c
@@ -29,7 +29,7 @@ struct _RMSprop_t
     float *r;
 };
 
-static void RMSprop_optimizer_init( RMSprop_t *rmsprop, rmsprop_properties_t *properties )
+static bool RMSprop_optimizer_init( RMSprop_t *rmsprop, rmsprop_properties_t *properties )
 {
     rmsprop_properties_t *props = (rmsprop_properties_t*) properties;
 
@@ -44,12 +44,14 @@ static void RMSprop_optimizer_init( RMSprop_t *rmsprop, rmsprop_properties_t *pr
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(rmsprop)->nn );
 
     rmsprop->velocity   = simd_malloc( n_param * sizeof(float) );
-    assert( rmsprop->velocity );
-    memset( rmsprop->velocity, 0, n_param * sizeof(float));
-
     rmsprop->r   = simd_malloc( n_param * sizeof(float) );
-    assert( rmsprop->r );
+    if( !rmsprop->velocity || !rmsprop->r ){
+        fprintf( stderr, "Can't allocate memory for the state of the RMSprop optimizer.\n" );
+        return false;
+    }
+    memset( rmsprop->velocity, 0, n_param * sizeof(float));
     memset( rmsprop->r, 0, n_param * sizeof(float));
+    return true;
 }
 
 static void RMSprop_optimizer_free( optimizer_t *opt )
@@ -60,8 +62,11 @@ static void RMSprop_optimizer_free( optimizer_t *opt )
 }
 
 OPTIMIZER_DEFINE(RMSprop, 
-    RMSprop_optimizer_init( newopt, properties );
     newopt->opt.free = RMSprop_optimizer_free;
+    if( !RMSprop_optimizer_init( newopt, properties )){
+        optimizer_free( OPTIMIZER(newopt) );
+        return NULL;
+    }
 );
 
 /* FIXME */
diff --git a/src/SGD.c b/src/SGD.c
index 6ea3dbc..2eb51b6 100644
--- a/src/SGD.c
+++ b/src/SGD.c
@@ -21,7 +21,7 @@ struct _SGD_t
     float *velocity;
 };
 
-static void SGD_optimizer_init( SGD_t *sgd, sgd_properties_t *properties )
+static bool SGD_optimizer_init( SGD_t *sgd, sgd_properties_t *properties )
 {
     sgd_properties_t *props = (sgd_properties_t*) properties;
 
@@ -35,8 +35,12 @@ static void SGD_optimizer_init( SGD_t *sgd, sgd_properties_t *properties )
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(sgd)->nn );
 
     sgd->velocity   = simd_malloc( n_param * sizeof(float) );
-    assert( sgd->velocity );
+    if( !sgd->velocity ){
+        fprintf( stderr, "Can't allocate memory for the state of the SGD optimizer.\n" );
+        return false;
+    }
     memset( sgd->velocity, 0, n_param * sizeof(float));
+    return true;
 }
 
 static void SGD_optimizer_free( optimizer_t *opt )
@@ -46,8 +50,11 @@ static void SGD_optimizer_free( optimizer_t *opt )
 }
 
 OPTIMIZER_DEFINE(SGD, 
-    SGD_optimizer_init( newopt, properties );
     newopt->opt.free = SGD_optimizer_free;
+    if( !SGD_optimizer_init( newopt, properties )){
+        optimizer_free( OPTIMIZER(newopt) );
+        return NULL;
+    }
 );
 
 /* Stochastic Gradient Descent */
diff --git a/src/adagrad.c b/src/adagrad.c
index b2b6a85..cf26788 100644
--- a/src/adagrad.c
+++ b/src/adagrad.c
@@ -24,7 +24,7 @@ struct _adagrad_t
     float *r;  /* gradient accumulation variable */
 };
 
-static void adagrad_optimizer_init( adagrad_t *adagrad, adagrad_properties_t *properties )
+static bool adagrad_optimizer_init( adagrad_t *adagrad, adagrad_properties_t *properties )
 {
     adagrad_properties_t *props = (adagrad_properties_t*) properties;
 
@@ -36,8 +36,12 @@ static void adagrad_optimizer_init( adagrad_t *adagrad, adagrad_properties_t *pr
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adagrad)->nn );
 
     adagrad->r   = simd_malloc( n_param * sizeof(float) );
-    assert( adagrad->r );
+    if( !adagrad->r ){
+        fprintf( stderr, "Can't allocate memory for the state of the adagrad optimizer.\n" );
+        return false;
+    }
     memset( adagrad->r, 0, n_param * sizeof(float));
+    return true;
 }
 
 static void adagrad_optimizer_free( optimizer_t *opt )
@@ -47,8 +51,11 @@ static void adagrad_optimizer_free( optimizer_t *opt )
 }
 
 OPTIMIZER_DEFINE(adagrad, 
-    adagrad_optimizer_init( newopt, properties );
     newopt->opt.free = adagrad_optimizer_free;
+    if( !adagrad_optimizer_init( newopt, properties )){
+        optimizer_free( OPTIMIZER(newopt) );
+        return NULL;
+    }
 );
 
 /* Adagrad */
diff --git a/src/adam.c b/src/adam.c
index b93999e..0fb1e5f 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -29,7 +29,7 @@ struct _adam_t
     float *s;
 };
 
-static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
+static bool adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
 {
     adam_properties_t *props = (adam_properties_t*) properties;
 
@@ -45,10 +45,13 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
     adam->s   = simd_malloc( n_param * sizeof(float) );
-    assert( adam->r );
-    assert( adam->s );
+    if( !adam->r || !adam->s ){
+        fprintf( stderr, "Can't allocate memory for the state of the adam optimizer.\n" );
+        return false;
+    }
     memset( adam->r, 0, n_param * sizeof(float));
     memset( adam->s, 0, n_param * sizeof(float));
+    return true;
 }
 
 static void adam_optimizer_free( optimizer_t *opt )
@@ -59,8 +62,11 @@ static void adam_optimizer_free( optimizer_t *opt )
 }
 
 OPTIMIZER_DEFINE(adam, 
-    adam_optimizer_init( newopt, properties );
     newopt->opt.free = adam_optimizer_free;
+    if( !adam_optimizer_init( newopt, properties )){
+        optimizer_free( OPTIMIZER(newopt) );
+        return NULL;
+    }
 );
 
 /* Adam */
-- 
2.43.0


From 2d18091bf0a83276094966459c327a3880826e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 23/34] fix: an epoch without memory for its pivot is reported
 and not trained

A failed realloc() left a NULL pivot of the new size, which the epoch used.
---
 src/optimizer.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index d1c2187..52ea915 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -13,20 +13,22 @@
 #include <time.h>
 #include <assert.h>
 
-static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
+static bool prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
     if ( n_train_samples != opt->n_pivot ){
-        opt->n_pivot = n_train_samples;
-        opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
-        if ( !opt->pivot ){
+        unsigned int *pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
+        if ( !pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
-            return;
+            return false;
         }
+        opt->pivot   = pivot;
+        opt->n_pivot = n_train_samples;
         for ( unsigned int i = 0; i < n_train_samples; i++ )
             opt->pivot[i] = i;
 
         srand( time (NULL ) );
     }
+    return true;
 }
 
 static void fisher_yates_shuffle( unsigned int *arr, unsigned int n )
@@ -87,13 +89,15 @@ void optimizer_run_epoch( optimizer_t *self,
         const unsigned int n_valid_samples, const float *valid_X, const float *valid_Y, float *results )
 {
     /* Setup some stuff */
-    prepare_shuffle_pivot( self, n_train_samples );
-    if( self->shuffle )
-        fisher_yates_shuffle( self->pivot, n_train_samples );
-
-    /* Run the epoch */
-    assert ( self->run_epoch );
-    self->run_epoch(self, n_train_samples, train_X, train_Y );
+    if( prepare_shuffle_pivot( self, n_train_samples )){
+        if( self->shuffle )
+            fisher_yates_shuffle( self->pivot, n_train_samples );
+
+        /* Run the epoch */
+        assert ( self->run_epoch );
+        self->run_epoch(self, n_train_samples, train_X, train_Y );
+    } else
+        fprintf( stderr, "The neural network is not trained in this epoch.\n");
 
     /* Calculate the losses */
     /* First the train loss */
-- 
2.43.0


From eb05614f05b8ca7324d6b4b2a25934b8b770c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 24/34] fix: custom activations without races, leaks or calls
 into an unloaded library

A failed allocation closed the library and returned the function in it; the
record and its name leaked. Names longer than the symbol buffer overflowed it.
Every created or loaded network opened the library, added a record and
registered the cleanup again, and concurrent calls raced on the list.
---
 src/activation.c | 162 ++++++++++++++++++++++++-----------------------
 1 file changed, 83 insertions(+), 79 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index e507f60..f4a4aa8 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -5,6 +5,8 @@
 #include "activation.h"
 #include "simd.h"
 
+#include <stdbool.h>
+#include <stdlib.h>
 #include <string.h>
 #include <math.h>
 
@@ -88,92 +90,101 @@ struct _activation_record_t {
 
 static activation_record_t *records = NULL;  /* A linked list of open activation funcs. */
 
-static activation_func get_activation_func_dynamic( const char *name )
+static void *dynamic_symbol( void *handle, const char *symbol )
 {
-    atexit(cleanup_dynamic_symbols);
-
-    /* strdup() is not ansi c .... */
-    size_t len = strlen( name ) + 1;
-    char *file_and_symbol_name = malloc( len );
-    if ( !file_and_symbol_name ){
-        perror("Cannot allocate memory for function name.\n");
+    dlerror();  /* Clear any old error */
+    void *ret = dlsym( handle, symbol );
+    char *error_message = dlerror();
+    if( error_message ){
+        fprintf( stderr, "dlsym(): %s\n", error_message );
         return NULL;
     }
-    memcpy( file_and_symbol_name, name, len);
+    return ret;
+}
 
-    char *at = strchr( file_and_symbol_name, '@' );
+/* Opens the library and returns a new record, or NULL. */
+static activation_record_t *open_dynamic_record( const char *name )
+{
+    const char *at = strchr( name, '@' );
     if( !at ){
         fprintf(stderr, "Trying to load dynamic function, but name does not contain any '@'\n"
                 "Format should read '<symbol>@<libraryfile>'\n");
-        free( file_and_symbol_name );
         return NULL;
     }
 
-    *at = '\0';
-    char *library_file = at + 1;
-    char *symbol = file_and_symbol_name;
+    const char *library_file = at + 1;
+    const size_t symbol_len = at - name;
+    activation_record_t *rec = malloc( sizeof(activation_record_t) );
+    char *activation_name = malloc( strlen( name ) + 1 );
+    char *symbol = malloc( symbol_len + sizeof("_derivative") );
+    void *handle = NULL;
+    if ( !rec || !activation_name || !symbol ){
+        fprintf( stderr, "Cannot allocate memory for dynamic loaded activation function.\n" );
+        goto open_error;
+    }
 
-    void *handle = dlopen( library_file, RTLD_NOW );
+    handle = dlopen( library_file, RTLD_NOW );
     if ( !handle ){
         fprintf( stderr, "Cannot open dynamic library '%s'. \n"
                 "Set LD_LIBRARY_PATH \n"
                 "or install it in a directory where dynamic linker finds it,\n"
                 "or link the library with -Wl,-rpath  linker option\n", library_file);
-        free( file_and_symbol_name );
-        return NULL;
-    }
-    activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
-    sprintf(derivative_symbol, "%s_derivative", symbol );
-    free( file_and_symbol_name );
-    char * error_message = dlerror();
-    if( error_message )
-    {
-        fprintf( stderr, "dlsym(): %s\n", error_message );
-        dlclose( handle );
-        return NULL;
+        goto open_error;
     }
 
-    activation_record_t *rec = malloc( sizeof(activation_record_t) );
-    if ( !rec ){
-        perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
-        dlclose( handle );
-        return retfunc;
-    }
-
-    /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
-    rec->handle = handle;
-    rec->activation_name = malloc( len );
-    if ( !rec->activation_name ){
-        perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
-        dlclose( handle );
-        return retfunc;
-    }
-    memcpy( rec->activation_name, name, len);
+    memcpy( symbol, name, symbol_len );
+    symbol[symbol_len] = '\0';
+    rec->func_ptr = dynamic_symbol( handle, symbol );
+    if( !rec->func_ptr )
+        goto open_error;
 
-    rec->deriv_ptr = dlsym( handle, derivative_symbol);
-    error_message = dlerror();
-    if( error_message )
-    {
-        fprintf( stderr, "dlsym(): %s\n", error_message );
+    strcpy( symbol + symbol_len, "_derivative" );
+    rec->deriv_ptr = dynamic_symbol( handle, symbol );
+    if( !rec->deriv_ptr )
         fprintf( stderr, "WARNING: This neural net will not be trainable and expect a segmentation fault if you try.\n");
-        /* DO NOT RETURN - It could be that the user just needs the forward prediction and has omitted
+        /* DO NOT FAIL - It could be that the user just needs the forward prediction and has omitted
            the activation derivative intentionally. */
-    }
-    rec->func_ptr = retfunc;
+
+    rec->handle = handle;
+    rec->activation_name = strcpy( activation_name, name );
     rec->next = NULL;
+    free( symbol );
+    return rec;
+
+open_error:
+    if( handle ) dlclose( handle );
+    free( symbol );
+    free( activation_name );
+    free( rec );
+    return NULL;
+}
 
-    /* Find the backmost and append */
-    if( !records )
-        records = rec;
-    else {
-        activation_record_t *endptr = records;
-        while(endptr->next)
-            endptr = endptr->next;
-        endptr->next = rec;
-    }
+/* The list of records is shared by all threads. Only use it inside 'omp critical (activation_records)' */
+static activation_record_t *find_or_open_dynamic_record( const char *name )
+{
+    activation_record_t **endptr = &records;
+    for( ; *endptr; endptr = &(*endptr)->next )
+        if( !strcmp( (*endptr)->activation_name, name ))
+            return *endptr;
+
+    static bool cleanup_registered = false;
+    if( !cleanup_registered )
+        cleanup_registered = !atexit( cleanup_dynamic_symbols );
 
-    return retfunc;
+    /* Append at the back */
+    return *endptr = open_dynamic_record( name );
+}
+
+static activation_func get_activation_func_dynamic( const char *name )
+{
+    activation_func ret = NULL;
+#pragma omp critical (activation_records)
+    {
+        activation_record_t *rec = find_or_open_dynamic_record( name );
+        if( rec )
+            ret = rec->func_ptr;
+    }
+    return ret;
 }
 
 #if 0
@@ -196,14 +207,11 @@ int debug_linked_list()
 
 activation_derivative get_activation_derivative_dynamic( const activation_func ptr )
 {
-    if( !records )
-        return NULL;
-    activation_record_t *iter = records;
-    do {
-        if( iter->func_ptr == ptr ) return iter->deriv_ptr; 
-        iter = iter->next;
-    } while ( iter );
-    return NULL;
+    activation_derivative ret = NULL;
+#pragma omp critical (activation_records)
+    for( activation_record_t *iter = records; iter && !ret; iter = iter->next )
+        if( iter->func_ptr == ptr ) ret = iter->deriv_ptr;
+    return ret;
 }
 
 static void cleanup_dynamic_symbols()
@@ -263,15 +271,11 @@ const char * get_activation_name( activation_func ptr ){
     if (ret)
         return ret;
 #if __USE_DYNAMIC_LOAD__ == 1
-    if( !records )
-        return "(unknown)";
-    else {
-        activation_record_t *iter = records;
-        do {
-            if( iter->func_ptr == ptr ) return (const char*) iter->activation_name; 
-            iter = iter->next;
-        } while ( iter );
-    }
+#pragma omp critical (activation_records)
+    for( activation_record_t *iter = records; iter && !ret; iter = iter->next )
+        if( iter->func_ptr == ptr ) ret = (const char*) iter->activation_name;
+    if (ret)
+        return ret;
 #endif
     return "(unknown)";
 }
-- 
2.43.0


From e32a07ffa38f8d823719112e2ce35bf76c9b70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:35 +0000
Subject: [PATCH 25/34] fix: do not load part of an archive when its storage
 fails

An array that could not be read for lack of memory, a failing read or a wrong
checksum was left out with a warning. What was left could make another network
than the one in the file.
---
 npy_array/npy_array_list.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 988ca67..a7d56f5 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -41,6 +41,8 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <string.h>
 #include <ctype.h>
 #include <assert.h>
+#include <errno.h>
+#include <stdbool.h>
 #include <stdarg.h>
 
 #define MAX_FILENAME_LEN 80
@@ -249,19 +251,27 @@ npy_array_list_t * npy_array_list_load( const char *filename )
     for( int i = 0; i < zip_get_num_entries( zip, 0 ); i++ ){
         zip_file_t *fp = zip_fopen_index( zip, i, 0 ); /* FIXME Better checks */
         if (!fp ){
-            fprintf(stderr, "Warning: Cannot open internal file of index %d in archive '%s'.\n", i, filename );
-            continue;
+            fprintf(stderr, "Cannot open internal file of index %d in archive '%s'.\n", i, filename );
+            goto load_error;
         }
+        errno = 0;
         npy_array_t *arr = _read_matrix( fp, &read_zip );
+        bool no_memory = !arr && errno == ENOMEM;
         /* The checksum is verified when all data is read */
         char rest[64];
         zip_int64_t n_rest = 0;
         while( arr && (n_rest = zip_fread( fp, rest, sizeof(rest))) > 0 )
             ;
+        bool read_failed = n_rest < 0 || no_memory || zip_error_code_zip( zip_file_get_error( fp )) != ZIP_ER_OK;
         zip_fclose( fp );
-        if( !arr || n_rest < 0 ) {
-            fprintf(stderr, "Warning: Cannot read matrix.\n");
+        if( read_failed ){
+            /* The archive is damaged or its storage fails. What is left is not what was saved. */
+            fprintf(stderr, "Cannot read internal file of index %d in archive '%s'.\n", i, filename );
             if( arr ) npy_array_free( arr );
+            goto load_error;
+        }
+        if( !arr ) {
+            fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
         /* The names in a file can have any length and any characters. */
@@ -272,15 +282,21 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             elem->array = arr;
             list = _list_append( list, elem );
         } else {
-            fprintf(stderr, "Warning: Cannot allocate memory for internal file of index %d in archive '%s'.\n", i, filename );
+            fprintf(stderr, "Cannot allocate memory for internal file of index %d in archive '%s'.\n", i, filename );
             npy_array_free( arr );
             npy_array_list_free( elem );
+            goto load_error;
         }
     }
 
     zip_close(zip);
     
     return list;
+
+load_error:
+    npy_array_list_free( list );
+    zip_close(zip);
+    return NULL;
 }
 
 size_t npy_array_list_length( npy_array_list_t *arr)
-- 
2.43.0


From 98a0474381c49cb75536195e190d9e68d577904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 26/34] fix: a checkpoint's file name is not a format

The configured name was passed on as the format of neuralnet_save(), with no
arguments: a '%' in it read whatever was on the stack, and the checkpoint went
to another file or the process crashed.
---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index fb85e81..bbe932a 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -65,7 +65,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From a979cbd13a0f18098e68017e114ae319191beeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 27/34] fix: an epoch without shuffling takes the samples in
 dataset order

---
 src/optimizer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimizer.c b/src/optimizer.c
index 52ea915..ceab75f 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -92,6 +92,9 @@ void optimizer_run_epoch( optimizer_t *self,
     if( prepare_shuffle_pivot( self, n_train_samples )){
         if( self->shuffle )
             fisher_yates_shuffle( self->pivot, n_train_samples );
+        else /* An earlier epoch may have been shuffled */
+            for ( unsigned int i = 0; i < n_train_samples; i++ )
+                self->pivot[i] = i;
 
         /* Run the epoch */
         assert ( self->run_epoch );
-- 
2.43.0


From 5f0f92be9cb6d80670ec2ecc2c406ed1eff834bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:44 +0000
Subject: [PATCH 28/34] fix: npy_array_dump reads before the shape of a
 zero-dimensional array

---
 npy_array/npy_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index e3e1dc7..8c0018a 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -374,7 +374,9 @@ void npy_array_dump( const npy_array_t *m )
     printf("Dimensions   : %d\n", m->ndim);
     printf("Shape        : ( ");
     for( int i = 0; i < m->ndim - 1; i++) printf("%d, ", (int) m->shape[i]);
-    printf("%d )\n", (int) m->shape[m->ndim-1]);
+    if( m->ndim > 0 ) /* a zero-dimensional array has no sizes */
+        printf("%d ", (int) m->shape[m->ndim-1]);
+    printf(")\n");
     printf("Type         : '%c' ", m->typechar);
     printf("(%d bytes each element)\n", (int) m->elem_size);
     printf("Fortran order: %s\n", m->fortran_order ? "True" : "False" );
-- 
2.43.0


From 99bc6e9e3472d76e718a77507ac0711f9c4ab769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:27 +0000
Subject: [PATCH 29/34] fix: do not create a network of more parameters than
 can be counted

---
 src/neuralnet.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 96716b9..f58db7f 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -67,11 +67,18 @@ static void _weights_memory_free( neuralnet_t *nn )
 
 static bool _weights_memory_allocate( neuralnet_t *nn )
 {
+    size_t n_param = 0;
     for ( int i = 0; i < nn->n_layers; i++ ){
         if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1){
             fprintf( stderr, "Bad neural network dimensions. Can't allocate memory\n" );
             return false;
         }
+        /* The number of parameters shall be countable with an int. */
+        n_param += ((size_t) nn->layer[i].n_input + 1) * nn->layer[i].n_output;
+        if( n_param > INT_MAX ){
+            fprintf( stderr, "Too many parameters in the neural network. Can't allocate memory\n" );
+            return false;
+        }
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
-- 
2.43.0


From 0cd3bc075adc2ce78e523277cf2805d185738315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 30/34] fix: predict and evaluate datasets of more than 2^31
 numbers

The offset of a sample was calculated with an int.
---
 src/evaluate.c                | 4 ++--
 src/neuralnet_predict_batch.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..16a4891 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -36,11 +36,11 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         float *y_pred = predictions + (i*n_output);
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
         }
     }
diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 2524eaf..39980ac 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -23,7 +23,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
     for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+        neuralnet_predict( nn, inputs + (size_t) i*n_inputs, output + (size_t) i*n_output);
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
-- 
2.43.0


From faab52b73f5591bc74881aa01deca3bf0a652948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 31/34] fix: batch prediction with BLAS of wide layers and of
 very many samples

The size of the work memory overflowed an int, and a sample that alone needs
more than the work memory was divided forever.
---
 src/neuralnet_predict_batch.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 39980ac..ece210a 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -44,7 +44,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t workmem_sz = 0;
     for( int i = 0; i < nn->n_layers; i++)
         workmem_sz += nn->layer[i].n_output;
     workmem_sz *= n_samples;  /* This size is also in floats */
@@ -56,12 +56,16 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 #endif
 
     if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+        if( n_samples == 1 ){ /* The layers are too wide. */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
         int half = n_samples >> 1;
         const int n_inputs = nn->layer[0].n_input;
         const int n_output = nn->layer[nn->n_layers-1].n_output;
         // fprintf(stderr, "Warning: Stack limit reached with %d samples - recursing.\n", n_samples);
         neuralnet_predict_batch( nn, half, inputs, output );
-        neuralnet_predict_batch( nn, n_samples - half, inputs+(half*n_inputs), output+(half*n_output) );
+        neuralnet_predict_batch( nn, n_samples - half, inputs+((size_t) half*n_inputs), output+((size_t) half*n_output) );
         return;    
     }
 
-- 
2.43.0


From 40f8b2e5e3075646004121c8a3d6e7b3c610443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:29 +0000
Subject: [PATCH 32/34] fix: evaluate with BLAS many samples or outputs

All predictions were stored on the stack at the same time.
---
 src/evaluate.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 16a4891..00de0df 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -9,12 +9,12 @@
 
 #include <omp.h>
 
+#define N_STACK_PREDICTIONS (64 * 1024)
+
 void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X, const float *valid_Y,
         metric_func metrics[], float *results )
 {
-#ifndef USE_CBLAS 
     const int n_input  = nn->layer[0].n_input;
-#endif
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 
     metric_func *mf_ptr = metrics;
@@ -25,23 +25,35 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
 
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
+    int n_samples = n_valid_samples;  /* as many at a time */
+#ifdef USE_CBLAS
+    /* The predictions are stored on the stack, which has not room for any number of them. */
+    const int max_samples = n_output < N_STACK_PREDICTIONS ? N_STACK_PREDICTIONS / n_output : 1;
+    if ( n_samples > max_samples )
+        n_samples = max_samples;
+    float predictions[ n_output * n_samples ];
+#endif
+    for ( int start = 0; start < n_valid_samples; start += n_samples ){
+        if ( n_samples > n_valid_samples - start )
+            n_samples = n_valid_samples - start;
+        const float *X = valid_X + ((size_t) start*n_input);
+        const float *Y = valid_Y + ((size_t) start*n_output);
 #ifdef USE_CBLAS
-    float predictions[ n_output * n_valid_samples ];
-    memset( predictions, 0, n_output * n_valid_samples * sizeof(float));
-    neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
+        neuralnet_predict_batch( nn, n_samples, X, predictions);
 #endif
-    #pragma omp parallel for reduction(+:local_results[:])
-    for ( int i = 0; i < n_valid_samples; i++ ){
+        #pragma omp parallel for reduction(+:local_results[:])
+        for ( int i = 0; i < n_samples; i++ ){
 #ifdef USE_CBLAS
-        float *y_pred = predictions + (i*n_output);
+            float *y_pred = predictions + (i*n_output);
 #else
-        SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
+            SIMD_ALIGN(float y_pred[n_output]);
+            neuralnet_predict( nn, X + ((size_t) i*n_input), y_pred );
 #endif
-        float *res = local_results;
-        for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
-            *res++ += _error;
+            float *res = local_results;
+            for ( int j = 0; j < n_metrics; j++ ){
+                float _error = metrics[j]( n_output, y_pred, Y + ((size_t) i*n_output));
+                *res++ += _error;
+            }
         }
     }
 
-- 
2.43.0


From 11b9110053c2fc12fa66532e2966a80514ee4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:52 +0000
Subject: [PATCH 33/34] fix: train on datasets of more than 2^32 numbers

The offset of a sample was calculated with an unsigned int, and wrapped: other
samples were trained on instead.
---
 src/optimizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index ceab75f..e68f0f8 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -75,7 +75,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+        neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
         /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
            have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
-- 
2.43.0


From 84b860290ebea9498a6b9371df369f3bb470d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:55 +0000
Subject: [PATCH 34/34] fix: npy_array_list_load: report a storage failure that
 cuts an array short

---
 npy_array/npy_array_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index a7d56f5..9be9154 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -257,10 +257,10 @@ npy_array_list_t * npy_array_list_load( const char *filename )
         errno = 0;
         npy_array_t *arr = _read_matrix( fp, &read_zip );
         bool no_memory = !arr && errno == ENOMEM;
-        /* The checksum is verified when all data is read */
+        /* The checksum is verified when all data is read. A read that failed halfway is reported by the next read. */
         char rest[64];
         zip_int64_t n_rest = 0;
-        while( arr && (n_rest = zip_fread( fp, rest, sizeof(rest))) > 0 )
+        while( (n_rest = zip_fread( fp, rest, sizeof(rest))) > 0 )
             ;
         bool read_failed = n_rest < 0 || no_memory || zip_error_code_zip( zip_file_get_error( fp )) != ZIP_ER_OK;
         zip_fclose( fp );
-- 
2.43.0

