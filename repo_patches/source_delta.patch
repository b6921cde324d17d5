From 02d548c0a8681d59ed1e1746e61c3fac515a4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 01/62] fix: single observation models and copies of value
 functions

With a single observation, incremental pruning and enumeration returned
plain copies of the projection set, whose vectors had no obs_source, and
relinking the sources then dereferenced NULL. copyAlphaList() also gave the
copied vectors the fields of the source list's header instead of those of
the vectors copied.
---
 src/alpha.c       | 18 +++++++-----------
 src/cross-sum.c   | 27 +++++++++++++++++++++++++++
 src/cross-sum.h   |  5 +++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 5 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..4e4822f 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..0837f83 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -179,5 +179,32 @@ crossSum( AlphaList A, AlphaList B, int save_obs_sources )
   return ( V );
 }  /* crossSum */
 /**********************************************************************/
+AlphaList 
+singleObsSum( AlphaList A ) 
+{
+  /*
+    The degenerate case of crossSum() for a POMDP with only a single
+    observation, where there is nothing to sum: returns a copy of the
+    projection set whose vectors have their obs_source set to the
+    projection vector they are a copy of, just as if they were the
+    result of a cross-sum.
+  */
+  AlphaList V, a, temp;
+
+  Assert ( A != NULL, "NULL set specified." );
+
+  V = newAlphaList();
+  V->action = A->action;
+
+  for ( a = A->head; a != NULL; a = a->next ) {
 
+    temp = newAlphaNodeObsSource( duplicateAlpha( a->alpha ), 
+                                  V->action );
+    temp->obs_source[a->obs] = a;
+    appendNodeToAlphaList( V, temp );
 
+  }  /* for a */
+
+  return ( V );
+}  /* singleObsSum */
+/**********************************************************************/
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..ee51d50 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,10 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* The degenerate case of crossSum() for a POMDP with only a single
+  observation.  Returns a copy of the projection set with the
+  obs_source of its vectors set. */
+extern AlphaList singleObsSum( AlphaList A );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..3bbfe5d 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsSum( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..179b2e7 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsSum( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From 51f3794f9e8d3c605498d75e313084124d18b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/62] fix: restricted-region incremental pruning with
 unpurged projections

Vectors that occur several times in a projection set were compared to their
own duplicates, none of them got a witness point and all were dropped, so
that with -proj_purge none or domonly the value function lost whole regions.
---
 src/inc-prune.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 179b2e7..39f40ee 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -88,12 +88,16 @@ void
 addSimpleSumIp( AlphaList new_list, 
 		AlphaList old_list, 
 		AlphaList add_node,
-		AlphaList skip_node ) 
+		AlphaList skip_node,
+		double epsilon ) 
 {
   /*
     For each vector in the 'old' list, it adds a vector to the 'new'
     list that had the vector in 'add_node' added to it.  It will ignore
-    the node that is equal to 'skip_node' when doing this.
+    the node that is equal to 'skip_node' when doing this, as well as
+    any other node with the same vector: if the list was not purged
+    then it can contain duplicates, and comparing those to each other
+    would leave none of them with a witness point.
   */
   AlphaList new_node;
   int i;
@@ -106,7 +110,8 @@ addSimpleSumIp( AlphaList new_list,
   old_list = old_list->head;
   while( old_list != NULL ) {
     
-    if ( old_list != skip_node ) {
+    if (( old_list != skip_node )
+        && ! sameAlpha( old_list->alpha, skip_node->alpha, epsilon )) {
       new_node = appendAlphaList( new_list, 
                                   duplicateAlpha( old_list->alpha ),
                                   old_list->action );
@@ -157,7 +162,8 @@ AlphaList
 getGenIpCompareList( AlphaList node, 
 		     AlphaList A, AlphaList B,
 		     AlphaList cur_list,
-		     GeneralizedIpChoice ip_type ) 
+		     GeneralizedIpChoice ip_type,
+		     double epsilon ) 
 {
   /*
     Based on the parameters, returns a pointer to an AlphaList
@@ -188,9 +194,9 @@ getGenIpCompareList( AlphaList node,
     compare_list = newAlphaList();
     SHOULD_DESTROY(compare_list) = TRUE;
     addSimpleSumIp( compare_list, A, node->second_source,
-                    node->first_source );
+                    node->first_source, epsilon );
     addSimpleSumIp( compare_list, B, node->first_source,
-                    node->second_source );
+                    node->second_source, epsilon );
     break;
 
   case GeneralizedIp:
@@ -224,14 +230,14 @@ getGenIpCompareList( AlphaList node,
          < ( COUNT(node->second_source) + B->length)) {
       
       addSimpleSumIp( compare_list, A, node->second_source,
-                      node->first_source );
+                      node->first_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            node->first_source, NULL );
     }
 
     else {
       addSimpleSumIp( compare_list, B, node->first_source,
-                      node->second_source );
+                      node->second_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            NULL, node->second_source );
 
@@ -333,7 +339,8 @@ generalizedIpCrossSum( AlphaList A,
        do not want to destroy) and in other cases return a list that
        was temporarily constructed for comparison purpose. */
     compare_list = getGenIpCompareList( cur_node, A, B, 
-                                        new_list, param->ip_type );
+                                        new_list, param->ip_type,
+                                        param->alpha_epsilon );
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
-- 
2.43.0


From 8f9831ec2a092618f28b4a87c13197f1ca049ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 03/62] fix: policy graph writer swaps the marks of impossible
 and unknown successors

---
 src/pg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 1defd8d..b6018f8 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -486,12 +486,12 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
-		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
+	   if ( pg->next[n][z] == INVALID_NODE )
 		fprintf( file, "%s ", INVALID_NODE_STR );
-	   else
+	   else if ( pg->next[n][z] == NO_INFO_NODE )
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
+	   else
+		fprintf( file, "%d ", pg->next[n][z] );
 	 
 	 fprintf( file, "\n");
     }  /* for n */
-- 
2.43.0


From 5d6eecbf9c3cbcec25a5a35fa97492367658397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 04/62] fix: finite grid search makes a NaN belief for an
 impossible observation

---
 src/finite-grid.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..4f1fa61 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,11 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* No state can give this observation, so there is no belief
+	    state for it. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From 15447f5df6cadd51ce527e8cf61718e4fba5c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 05/62] fix: leftover debugging output of point backups breaks
 up the epoch lines

---
 src/common.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..407f1d1 100644
--- a/src/common.c
+++ b/src/common.c
@@ -328,17 +328,6 @@ setBestAlphasForBeliefV( double *b, AlphaList **projection, double epsilon )
     result = result
       && bestAlphaForBeliefQ( gCurAlphaVector[a], b, 
                               projection[a], epsilon );
-   
-  // PBVI:
-  printf( "Belief: " );
-  showAlpha( b );
-
-  printf( "Alphas:\n" );
-  for( a = 0; a < gNumActions; a++ )
-    {
-	 printf( "a=%d : ", a );
-	 showAlpha( gCurAlphaVector[a]->alpha );
-    }
 
   return ( result );
 }  /* setBestAlphasForBeliefV */
-- 
2.43.0


From 86159701e9e125b244816cb314645997306beb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 06/62] fix: absent -dom_check option did not behave as its
 default

---
 src/pomdp-solve-options.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..7da41f8 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -552,7 +552,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
-- 
2.43.0


From 19c2061bc46ebfd7e3ee9ed370554193ef72767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 07/62] fix: Bellman stopping criterion ignored the decrease of
 the values of cost models

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 407f1d1..fffab1b 100644
--- a/src/common.c
+++ b/src/common.c
@@ -177,8 +177,10 @@ bellmanError( AlphaList prev_list,
   /* If there are negative rewards, then we must also compare each old
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
-     negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+     negative value (which we do not check for.)  Costs are negated, so
+     for them the rewards are negative. */
+  if (( (( gMinimumImmediateReward >= 0.0 )
+         && ( gValueType != COST_value_type ))
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From 79570829e7c648ba8f27ca80316fe6d04af57f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 08/62] fix: restricted incremental pruning loses vectors when
 projections hold near duplicates

---
 src/inc-prune.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 39f40ee..76a3dd2 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -413,6 +413,18 @@ improveIncPrune( AlphaList *projection,
   if ( gNumObservations == 1 ) 
     return ( singleObsSum( projection[0] ));
 
+  /* Comparing a vector only to the sums that share one of its sources
+     is right only if each source vector is itself useful.  If the
+     projections hold redundant or nearly redundant vectors, then all
+     the sums made from these can lose against each other, so that none
+     of them would be kept. */
+  if (( param->ip_type != NormalIp )
+      && (( param->proj_purge == purge_none )
+          || ( param->proj_purge == purge_dom )))
+    for( z = 0; z < gNumObservations; z++)
+      if ( projection[z]->length > 1 )
+        purgeAlphaList( projection[z], purge_prune, param );
+
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
      
-- 
2.43.0


From 4aaa4eecda6ff53d2ab83a0c920007da4cef2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 09/62] fix: ZLZ speedup aborts when vectors have no witness
 points

---
 src/zlz_speedup.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 21dc31e..2e787ce 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -325,6 +325,7 @@ ZLZ_ViSpeedup( AlphaList U_n, double delta,
     previous value funciton as computed by the bellmanError() routine.
   */
   AlphaList V_n;
+  int use_witness_points;
 
   /* Note that this should be checked prior to calling this routine by
      the meetStoppingCriteria() routine, but we put the check in here
@@ -336,6 +337,14 @@ ZLZ_ViSpeedup( AlphaList U_n, double delta,
   ZLZ_startStats( param->stat, U_n );
   startContext( param->stat, Context_Zlz_Speedup );
   
+  /* The improvement is anchored at the witness points of the vectors,
+     so each vector must have one.  Not all ways to compute the set
+     save these points, even when they are asked for. */
+  use_witness_points = param->use_witness_points;
+  param->use_witness_points = TRUE;
+  normalPrune( U_n, param );
+  param->use_witness_points = use_witness_points;
+
   /* Does the improvement and will leave the final set in U_n (which
      is where the main VI loop is expecting it to be. */
   ZLZ_improve( U_n, delta, 0, param );
-- 
2.43.0


From da3f50d21f4882de7192eb376fd2870242411bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 10/62] fix: ZLZ speedup exceeds the optimal values of models
 with negative rewards

---
 src/pomdp-solve.c | 22 +++++++++++++++++-----
 src/pomdp-solve.h |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..1b100f2 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -289,20 +289,32 @@ endPomdpSolve( PomdpSolveParams param,
 }  /* endPomdpSolve */
 /**********************************************************************/
 AlphaList 
-getDefaultInitialPolicy( ) 
+getDefaultInitialPolicy( PomdpSolveParams param ) 
 {
   /*
-    For now our default policy is just all zeroes.
+    Our default policy is just all zeroes.  The exception is the ZLZ
+    speedup: it never lets the value of a point decrease, so it must
+    start from values that are no more than the optimal ones, which
+    zeroes are not if there are negative rewards.
   */
   AlphaList alpha_list;
   double *alpha;
-  int i;
+  double value = 0.0;
+  int a, i;
   
+  if (( param->vi_variation == ZlzSpeedup )
+      && ( gDiscount < 1.0 )) {
+    for ( a = 0; a < gNumActions; a++ )
+      for ( i = 0; i < gNumStates; i++ )
+        value = Min( value, getAdjustedReward( a, i ));
+    value /= 1.0 - gDiscount;
+  } /* if ZLZ speedup */
+
   alpha_list = newAlphaList();
   
   alpha = newAlpha();
   for ( i = 0; i < gNumStates; i++ )
-    alpha[i] = 0.0;
+    alpha[i] = value;
 
   appendAlphaList( alpha_list, alpha, 0 );
 
@@ -985,7 +997,7 @@ solvePomdp( PomdpSolveParams param )
      these to next_alpha_list because the first thing the loop does
      is to swap in the next_alpha_list for the current_alpha_list. */
   if ( param->initial_policy == NULL )
-    next_alpha_list = getDefaultInitialPolicy( );
+    next_alpha_list = getDefaultInitialPolicy( param );
   else
     next_alpha_list = duplicateAlphaList( param->initial_policy );
   
diff --git a/src/pomdp-solve.h b/src/pomdp-solve.h
index 6bca414..ba8edd2 100644
--- a/src/pomdp-solve.h
+++ b/src/pomdp-solve.h
@@ -38,7 +38,7 @@ extern void cleanUpPomdpSolve( PomdpSolveParams param );
 extern void solvePomdp( PomdpSolveParams param );
 
 /* For now our default policy is just all zeroes.  */
-extern AlphaList getDefaultInitialPolicy( );
+extern AlphaList getDefaultInitialPolicy( PomdpSolveParams param );
 
 /* Some algorithms will solve one iteration of POMDP value iteration
    by breaking the problem into a separate one for each action.  This
-- 
2.43.0


From 5fdb2a76e516c256fbcecc5a3714474d1bf43ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 11/62] fix: random numbers ignored the seed given

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..bc957eb 100644
--- a/src/random.c
+++ b/src/random.c
@@ -121,6 +121,7 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From b2c1e2e666e5117c55d33b45720c0aef9a6f5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 12/62] fix: numeric options accept values that are not numbers

---
 src/program-options.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..9e229e7 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -50,6 +50,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "global.h"
 #include "command-line.h"
@@ -573,6 +575,8 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  long found_value;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -585,7 +589,18 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  /* The whole value must be an integer, and one that an int can hold. */
+  errno = 0;
+  found_value = strtol( found_str, &end_ptr, 10 );
+
+  if (( end_ptr == found_str )
+	 || ( *end_ptr != '\0' )
+	 || ( errno == ERANGE )
+	 || ( found_value < INT_MIN )
+	 || ( found_value > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = (int) found_value;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -616,6 +631,7 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -628,7 +644,13 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  *ret_value = strtod( found_str, &end_ptr );
+
+  /* The whole value must be a number. */
+  if (( end_ptr == found_str )
+	 || ( *end_ptr != '\0' )
+	 || ( *ret_value != *ret_value ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From 3bd81eca25912657e00caaa59e42ad41357574bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 13/62] fix: unknown options are silently ignored

---
 src/program-options.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 9e229e7..57db064 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -365,7 +365,7 @@ PO_endValidate( ProgramOptions opts )
   int i;
   CommandLine cmd_line;
   AssocArray assoc;
-  char err_msg[256];
+  char err_msg[MAX_OPT_STRING_LEN + 64];
 
   if (( opts == NULL )
 	 || ( opts->flag_seen == NULL )
@@ -378,7 +378,7 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line flag '%s'.",
 			    cmd_line->flags[i] );
@@ -390,10 +390,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+			    assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From 2dbc7ef606f3ae36c3602ec9b09f563081bc5815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 14/62] fix: echoed settings print small tolerances as zero and
 cannot be read back

---
 src/pomdp-solve-options.c | 56 ++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index 7da41f8..c6b05d0 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -131,8 +131,12 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
 
   cfg = CF_new();
 
-  sprintf( str, "%d", options->max_secs );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_TIME_LIMIT_STR, str );
+  /* Options that were not given and have no default value are left
+	out, so that this can be read back as a configuration file. */
+  if ( options->max_secs > 0 ) {
+    sprintf( str, "%d", options->max_secs );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_TIME_LIMIT_STR, str );
+  }
 
   sprintf( str, "%d", options->mcgs_prune_freq );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MCGS_PRUNE_FREQ_STR, str );
@@ -146,10 +150,12 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%s", POMDP_SOLVE_OPTS_Inc_Prune_Str[options->ip_type] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_INC_PRUNE_STR, str );
 
-  sprintf( str, "%d", options->epoch_history_window_length );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HISTORY_LENGTH_STR, str );
+  if ( options->epoch_history_window_length > 0 ) {
+    sprintf( str, "%d", options->epoch_history_window_length );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HISTORY_LENGTH_STR, str );
+  }
 
-  sprintf( str, "%.6f", options->prune_epsilon );
+  sprintf( str, "%.15g", options->prune_epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_PRUNE_EPSILON_STR, str );
 
   sprintf( str, "%s", Boolean_Str[options->save_all] );
@@ -167,25 +173,25 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%s", POMDP_SOLVE_OPTS_Fg_Type_Str[options->finite_grid_type] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_FG_TYPE_STR, str );
 
-  sprintf( str, "%.6f", options->fg_epsilon );
+  sprintf( str, "%.15g", options->fg_epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_FG_EPSILON_STR, str );
 
   sprintf( str, "%d", options->mcgs_traj_iter_count );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MCGS_TRAJ_ITER_COUNT_STR, str );
 
-  sprintf( str, "%.6f", options->lp_epsilon );
+  sprintf( str, "%.15g", options->lp_epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_LP_EPSILON_STR, str );
 
-  sprintf( str, "%.6f", options->ending_epsilon );
+  sprintf( str, "%.15g", options->ending_epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_END_EPSILON_STR, str );
 
-  sprintf( str, "%.6f", options->starting_epsilon );
+  sprintf( str, "%.15g", options->starting_epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_START_EPSILON_STR, str );
 
   sprintf( str, "%s", Boolean_Str[options->domination_check] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_DOM_CHECK_STR, str );
 
-  sprintf( str, "%.6f", options->stop_delta );
+  sprintf( str, "%.15g", options->stop_delta );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_STOP_DELTA_STR, str );
 
   sprintf( str, "%s", POMDP_SOLVE_OPTS_Q_Purge_Str[options->q_purge_option] );
@@ -203,8 +209,10 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%s", POMDP_SOLVE_OPTS_Method_Str[options->method] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_METHOD_STR, str );
 
-  sprintf( str, "%d", options->memory_limit );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MEMORY_LIMIT_STR, str );
+  if ( options->memory_limit > 0 ) {
+    sprintf( str, "%d", options->memory_limit );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MEMORY_LIMIT_STR, str );
+  }
 
   sprintf( str, "%d", options->alg_init_rand_points );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_ALG_RAND_STR, str );
@@ -215,14 +223,16 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%s", Boolean_Str[options->save_penultimate] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_SAVE_PENULTIMATE_STR, str );
 
-  sprintf( str, "%.6f", options->epsilon );
+  sprintf( str, "%.15g", options->epsilon );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_EPSILON_STR, str );
 
   sprintf( str, "%s", options->rand_seed );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_RAND_SEED_STR, str );
 
-  sprintf( str, "%.6f", options->override_discount );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_DISCOUNT_STR, str );
+  if ( options->override_discount >= 0.0 ) {
+    sprintf( str, "%.15g", options->override_discount );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_DISCOUNT_STR, str );
+  }
 
   sprintf( str, "%d", options->finite_grid_points );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_FG_POINTS_STR, str );
@@ -236,13 +246,15 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%d", options->mcgs_traj_length );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MCGS_TRAJ_LENGTH_STR, str );
 
-  sprintf( str, "%d", options->epoch_history_window_delta );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HISTORY_DELTA_STR, str );
+  if ( options->epoch_history_window_delta > 0 ) {
+    sprintf( str, "%d", options->epoch_history_window_delta );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HISTORY_DELTA_STR, str );
+  }
 
   sprintf( str, "%s", options->True );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_F_STR, str );
 
-  sprintf( str, "%.6f", options->epsilon_adjust_factor );
+  sprintf( str, "%.15g", options->epsilon_adjust_factor );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_EPSILON_ADJUST_STR, str );
 
   sprintf( str, "%d", options->prune_init_rand_points );
@@ -251,13 +263,15 @@ POMDP_SOLVE_OPTS_toConfigFile( PomdpSolveProgOptions options )
   sprintf( str, "%s", POMDP_SOLVE_OPTS_Vi_Variation_Str[options->vi_variation] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_VI_VARIATION_STR, str );
 
-  sprintf( str, "%d", options->horizon );
-  CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HORIZON_STR, str );
+  if ( options->horizon > 0 ) {
+    sprintf( str, "%d", options->horizon );
+    CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_HORIZON_STR, str );
+  }
 
   sprintf( str, "%s", Boolean_Str[options->stat_summary] );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_STAT_SUMMARY_STR, str );
 
-  sprintf( str, "%.6f", options->max_soln_size );
+  sprintf( str, "%.15g", options->max_soln_size );
   CF_addParam( cfg, POMDP_SOLVE_OPTS_CFG_MAX_SOLN_SIZE_STR, str );
 
   sprintf( str, "%s", Boolean_Str[options->use_witness_points] );
-- 
2.43.0


From 9ead3afa34cfbb668e0b317f10750b5b082a37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 15/62] fix: malformed random seeds are accepted and leave the
 seed undefined

---
 src/random.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/random.c b/src/random.c
index bc957eb..2457907 100644
--- a/src/random.c
+++ b/src/random.c
@@ -111,12 +111,14 @@ setRandomSeedFromString ( char *str )
 {
   int s[SEED_SIZE];
   int i;
+  char extra;
 
-  /* zzz Need to add something to check for too many and too few
-     values. Also need to make this a function of SEED_SIZE and not
-     hard coded as '3'. */  
+  /* zzz Need to make this a function of SEED_SIZE and not hard coded
+     as '3'. */  
   
-  sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] );	
+  if ( sscanf( str, "%d:%d:%d%c", &s[0], &s[1], &s[2], &extra ) 
+       != SEED_SIZE )
+    Abort( "The random seed must be three numbers, as in 1:2:3." );
   
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
-- 
2.43.0


From 29dd9b3c82190638d26531c6aecb2ef5a00dba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 16/62] fix: long or unterminated configuration file lines
 overflow buffers or are dropped

---
 src/config-file.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..a778a2c 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -90,7 +90,7 @@ CF_fscanf( FILE* file )
   int file_done = 0;
   int line_done;
   int line_no = 0;
-  char ch;
+  int ch;
 
   int char_idx;
 
@@ -110,9 +110,10 @@ CF_fscanf( FILE* file )
 
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
 		    file_done = 1;
-		    break;
+
+		    /* The last line need not be terminated. */
+		    ch = '\n';
 		  }
 
 		switch( ch )
@@ -233,12 +234,19 @@ CF_fscanf( FILE* file )
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
-			   attr[char_idx] = ch;
-			   char_idx += 1;
-			   break;
-
 			 case PARSE_IN_VALUE:
-			   value[char_idx] = ch;
+			   /* Always leave room for the terminator. */
+			   if ( char_idx >= ( MAX_CFG_FILE_STRING_LEN - 1 ))
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
+
+			   if ( state == PARSE_IN_ATTRIBUTE )
+				attr[char_idx] = ch;
+			   else
+				value[char_idx] = ch;
 			   char_idx += 1;
 			   break;
 
-- 
2.43.0


From edba95ab6d5848089b287b36392524aa382fd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 17/62] fix: long file names and words on the command line
 overflow buffers

---
 src/command-line.c | 8 ++++----
 src/config-file.h  | 2 +-
 src/global.h       | 2 +-
 src/params.c       | 3 ++-
 src/params.h       | 4 ++--
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..b7fa27f 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line value '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line argument '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..87f8d4e 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN    1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
diff --git a/src/global.h b/src/global.h
index 064e873..e5e93c8 100644
--- a/src/global.h
+++ b/src/global.h
@@ -64,7 +64,7 @@
 
 /* For places where we statically allocate filename character arrays,
    use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+#define MAX_FILENAME_LENGTH         1096
 
 /*******************************************************************/
 /**************              MACROS                 ****************/
diff --git a/src/params.c b/src/params.c
index 389b460..5681ee8 100644
--- a/src/params.c
+++ b/src/params.c
@@ -273,7 +273,8 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 snprintf( opts->prefix_str, MAX_OPT_STRING_LEN,
+			 "%s-%d", tmp_str, getPid() );
 	 
     } /* if we can override the default */
 
diff --git a/src/params.h b/src/params.h
index 11a3d2e..68c089a 100644
--- a/src/params.h
+++ b/src/params.h
@@ -177,10 +177,10 @@ struct PomdpSolveParamStruct {
   int use_witness_points;
 
   /* The filename to use as a backup file for each iteration's answer. */
-  char backup_file[1024];
+  char backup_file[MAX_FILENAME_LENGTH];
 
   /* The filename to use for previous epoch solution. */
-  char penultimate_filename[1024];
+  char penultimate_filename[MAX_FILENAME_LENGTH];
 
   /* For the algorithms which construct the value function one action
      at a time, the final step is to merge and purge all the
-- 
2.43.0


From 29d5c22b5aa73587635166aed5153283ba0f0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 18/62] fix: a wildcard in a start include or exclude list
 names every state

---
 src/mdp/parser.c | 163 ++++++++++++++++++++++++-----------------------
 src/mdp/parser.y |   7 ++
 2 files changed, 92 insertions(+), 78 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..7d074c0 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1267,6 +1267,13 @@ enterStartState( int i ) {
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* A wildcard stands for every state. */
+  if( i == WILDCARD_SPEC ) {
+    for( i = 0; i < gNumStates; i++ )
+      enterStartState( i );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
@@ -1482,7 +1489,7 @@ yywrap()
    return 1;
 }
 /************************************************************************/
-#line 1486 "parser.c"
+#line 1493 "parser.c"
 
 /* For use in generated program */
 #define yydepth (int)(yystack.s_mark - yystack.s_base)
@@ -2176,7 +2183,7 @@ case 1:
 
 		    allocateIntermediateMDP();  
 		  }
-#line 2180 "parser.c"
+#line 2187 "parser.c"
 break;
 case 2:
 #line 148 "parser.y"
@@ -2194,7 +2201,7 @@ case 2:
 
 		    endStartStates(); 
 		  }
-#line 2198 "parser.c"
+#line 2205 "parser.c"
 break;
 case 3:
 #line 167 "parser.y"
@@ -2213,14 +2220,14 @@ case 3:
                      checkProbs();
 		     YACCtrace("pomdp_file -> preamble params\n");
                   }
-#line 2217 "parser.c"
+#line 2224 "parser.c"
 break;
 case 4:
 #line 184 "parser.y"
 	{
 		   YACCtrace("preamble -> preamble param_type\n");
 		}
-#line 2224 "parser.c"
+#line 2231 "parser.c"
 break;
 case 11:
 #line 196 "parser.y"
@@ -2236,7 +2243,7 @@ case 11:
                    discountDefined = 1;
 		   YACCtrace("discount_param -> DISCOUNTTOK COLONTOK number\n");
 	        }
-#line 2240 "parser.c"
+#line 2247 "parser.c"
 break;
 case 12:
 #line 210 "parser.y"
@@ -2244,21 +2251,21 @@ case 12:
                    valuesDefined = 1;
 		   YACCtrace("value_param -> VALUESTOK COLONTOK value_tail\n");
 	        }
-#line 2248 "parser.c"
+#line 2255 "parser.c"
 break;
 case 13:
 #line 223 "parser.y"
 	{
                    gValueType = REWARD_value_type;
 		}
-#line 2255 "parser.c"
+#line 2262 "parser.c"
 break;
 case 14:
 #line 227 "parser.y"
 	{
                    gValueType = COST_value_type;
 		}
-#line 2262 "parser.c"
+#line 2269 "parser.c"
 break;
 case 15:
 #line 232 "parser.y"
@@ -2273,7 +2280,7 @@ case 15:
 		  curMnemonic = nt_state; 
 
 		}
-#line 2277 "parser.c"
+#line 2284 "parser.c"
 break;
 case 16:
 #line 244 "parser.y"
@@ -2282,7 +2289,7 @@ case 16:
                    curMnemonic = nt_unknown;
 		   YACCtrace("state_param -> STATETOK COLONTOK state_tail\n");
 		}
-#line 2286 "parser.c"
+#line 2293 "parser.c"
 break;
 case 17:
 #line 251 "parser.y"
@@ -2304,7 +2311,7 @@ case 17:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2308 "parser.c"
+#line 2315 "parser.c"
 break;
 case 19:
 #line 273 "parser.y"
@@ -2313,7 +2320,7 @@ case 19:
 
 		  curMnemonic = nt_action;  
 		}
-#line 2317 "parser.c"
+#line 2324 "parser.c"
 break;
 case 20:
 #line 279 "parser.y"
@@ -2322,7 +2329,7 @@ case 20:
                    curMnemonic = nt_unknown;
 		   YACCtrace("action_param -> ACTIONTOK COLONTOK action_tail\n");
 		}
-#line 2326 "parser.c"
+#line 2333 "parser.c"
 break;
 case 21:
 #line 286 "parser.y"
@@ -2344,7 +2351,7 @@ case 21:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2348 "parser.c"
+#line 2355 "parser.c"
 break;
 case 23:
 #line 308 "parser.y"
@@ -2353,7 +2360,7 @@ case 23:
 
 		  curMnemonic = nt_observation; 
 		}
-#line 2357 "parser.c"
+#line 2364 "parser.c"
 break;
 case 24:
 #line 314 "parser.y"
@@ -2362,7 +2369,7 @@ case 24:
                    curMnemonic = nt_unknown;
 		   YACCtrace("obs_param -> OBSTOK COLONTOK obs_param_tail\n");
 		}
-#line 2366 "parser.c"
+#line 2373 "parser.c"
 break;
 case 25:
 #line 321 "parser.y"
@@ -2384,7 +2391,7 @@ case 25:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2388 "parser.c"
+#line 2395 "parser.c"
 break;
 case 27:
 #line 343 "parser.y"
@@ -2402,7 +2409,7 @@ case 27:
 		  else
 		    setMatrixContext(mc_mdp_start, 0, 0, 0, 0); 
 		}
-#line 2406 "parser.c"
+#line 2413 "parser.c"
 break;
 case 29:
 #line 376 "parser.y"
@@ -2424,42 +2431,42 @@ case 29:
 		   XFREE( yystack.l_mark[0].constBlk->theValue.theString );
 		   XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2428 "parser.c"
+#line 2435 "parser.c"
 break;
 case 30:
 #line 396 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_include, 0, 0, 0, 0); 
 		}
-#line 2435 "parser.c"
+#line 2442 "parser.c"
 break;
 case 32:
 #line 402 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_exclude, 0, 0, 0, 0); 
 		}
-#line 2442 "parser.c"
+#line 2449 "parser.c"
 break;
 case 34:
 #line 409 "parser.y"
 	{ 
 		  setStartStateUniform(); 
 		}
-#line 2449 "parser.c"
+#line 2456 "parser.c"
 break;
 case 35:
 #line 414 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2456 "parser.c"
+#line 2463 "parser.c"
 break;
 case 36:
 #line 418 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2463 "parser.c"
+#line 2470 "parser.c"
 break;
 case 40:
 #line 427 "parser.y"
@@ -2488,19 +2495,19 @@ case 40:
 
 		      observationSpecDefined = 1;
 		  }
-#line 2492 "parser.c"
+#line 2499 "parser.c"
 break;
 case 42:
 #line 455 "parser.y"
 	{
 		   YACCtrace("trans_prob_spec -> TTOK COLONTOK trans_spec_tail\n");
 		}
-#line 2499 "parser.c"
+#line 2506 "parser.c"
 break;
 case 43:
 #line 460 "parser.y"
 	{ setMatrixContext(mc_trans_single, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2504 "parser.c"
+#line 2511 "parser.c"
 break;
 case 44:
 #line 461 "parser.y"
@@ -2508,43 +2515,43 @@ case 44:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("trans_spec_tail -> action COLONTOK state COLONTOK state prob \n");
 		}
-#line 2512 "parser.c"
+#line 2519 "parser.c"
 break;
 case 45:
 #line 466 "parser.y"
 	{ setMatrixContext(mc_trans_row, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2517 "parser.c"
+#line 2524 "parser.c"
 break;
 case 46:
 #line 467 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action COLONTOK state ui_matrix \n");
 		}
-#line 2524 "parser.c"
+#line 2531 "parser.c"
 break;
 case 47:
 #line 470 "parser.y"
 	{ setMatrixContext(mc_trans_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2529 "parser.c"
+#line 2536 "parser.c"
 break;
 case 48:
 #line 471 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action ui_matrix\n");
 		}
-#line 2536 "parser.c"
+#line 2543 "parser.c"
 break;
 case 49:
 #line 476 "parser.y"
 	{
 		   YACCtrace("obs_prob_spec -> OTOK COLONTOK  obs_spec_tail\n");
 		}
-#line 2543 "parser.c"
+#line 2550 "parser.c"
 break;
 case 50:
 #line 481 "parser.y"
 	{ setMatrixContext(mc_obs_single, yystack.l_mark[-4].i_num, 0, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2548 "parser.c"
+#line 2555 "parser.c"
 break;
 case 51:
 #line 482 "parser.y"
@@ -2552,43 +2559,43 @@ case 51:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK obs prob \n");
 		}
-#line 2556 "parser.c"
+#line 2563 "parser.c"
 break;
 case 52:
 #line 487 "parser.y"
 	{ setMatrixContext(mc_obs_row, yystack.l_mark[-2].i_num, 0, yystack.l_mark[0].i_num, 0); }
-#line 2561 "parser.c"
+#line 2568 "parser.c"
 break;
 case 53:
 #line 488 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK u_matrix\n");
 		}
-#line 2568 "parser.c"
+#line 2575 "parser.c"
 break;
 case 54:
 #line 491 "parser.y"
 	{ setMatrixContext(mc_obs_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2573 "parser.c"
+#line 2580 "parser.c"
 break;
 case 55:
 #line 492 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action u_matrix\n");
 		}
-#line 2580 "parser.c"
+#line 2587 "parser.c"
 break;
 case 56:
 #line 497 "parser.y"
 	{
 		   YACCtrace("reward_spec -> RTOK COLONTOK  reward_spec_tail\n");
 		}
-#line 2587 "parser.c"
+#line 2594 "parser.c"
 break;
 case 57:
 #line 504 "parser.y"
 	{ setMatrixContext(mc_reward_single, yystack.l_mark[-6].i_num, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2592 "parser.c"
+#line 2599 "parser.c"
 break;
 case 58:
 #line 505 "parser.y"
@@ -2599,12 +2606,12 @@ case 58:
 		   checkMatrix();  
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state COLONTOK obs number\n");
 		}
-#line 2603 "parser.c"
+#line 2610 "parser.c"
 break;
 case 59:
 #line 513 "parser.y"
 	{ setMatrixContext(mc_reward_row, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2608 "parser.c"
+#line 2615 "parser.c"
 break;
 case 60:
 #line 514 "parser.y"
@@ -2612,12 +2619,12 @@ case 60:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state num_matrix\n");
 		 }
-#line 2616 "parser.c"
+#line 2623 "parser.c"
 break;
 case 61:
 #line 519 "parser.y"
 	{ setMatrixContext(mc_reward_all, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2621 "parser.c"
+#line 2628 "parser.c"
 break;
 case 62:
 #line 520 "parser.y"
@@ -2625,12 +2632,12 @@ case 62:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state num_matrix\n");
 		}
-#line 2629 "parser.c"
+#line 2636 "parser.c"
 break;
 case 63:
 #line 526 "parser.y"
 	{ setMatrixContext(mc_reward_mdp_only, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2634 "parser.c"
+#line 2641 "parser.c"
 break;
 case 64:
 #line 527 "parser.y"
@@ -2638,77 +2645,77 @@ case 64:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action num_matrix\n");
                 }
-#line 2642 "parser.c"
+#line 2649 "parser.c"
 break;
 case 65:
 #line 533 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2649 "parser.c"
+#line 2656 "parser.c"
 break;
 case 66:
 #line 537 "parser.y"
 	{
                    enterIdentityMatrix();
                 }
-#line 2656 "parser.c"
+#line 2663 "parser.c"
 break;
 case 67:
 #line 541 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2663 "parser.c"
+#line 2670 "parser.c"
 break;
 case 68:
 #line 547 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2670 "parser.c"
+#line 2677 "parser.c"
 break;
 case 69:
 #line 551 "parser.y"
 	{
 		  enterResetMatrix();
 		}
-#line 2677 "parser.c"
+#line 2684 "parser.c"
 break;
 case 70:
 #line 555 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2684 "parser.c"
+#line 2691 "parser.c"
 break;
 case 71:
 #line 560 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2691 "parser.c"
+#line 2698 "parser.c"
 break;
 case 72:
 #line 564 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2698 "parser.c"
+#line 2705 "parser.c"
 break;
 case 73:
 #line 569 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2705 "parser.c"
+#line 2712 "parser.c"
 break;
 case 74:
 #line 573 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2712 "parser.c"
+#line 2719 "parser.c"
 break;
 case 75:
 #line 578 "parser.y"
@@ -2723,7 +2730,7 @@ case 75:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2727 "parser.c"
+#line 2734 "parser.c"
 break;
 case 76:
 #line 590 "parser.y"
@@ -2741,14 +2748,14 @@ case 76:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2745 "parser.c"
+#line 2752 "parser.c"
 break;
 case 77:
 #line 605 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2752 "parser.c"
+#line 2759 "parser.c"
 break;
 case 78:
 #line 610 "parser.y"
@@ -2764,7 +2771,7 @@ case 78:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2768 "parser.c"
+#line 2775 "parser.c"
 break;
 case 79:
 #line 623 "parser.y"
@@ -2782,14 +2789,14 @@ case 79:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2786 "parser.c"
+#line 2793 "parser.c"
 break;
 case 80:
 #line 638 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2793 "parser.c"
+#line 2800 "parser.c"
 break;
 case 81:
 #line 643 "parser.y"
@@ -2804,7 +2811,7 @@ case 81:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2808 "parser.c"
+#line 2815 "parser.c"
 break;
 case 82:
 #line 655 "parser.y"
@@ -2822,28 +2829,28 @@ case 82:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                }
-#line 2826 "parser.c"
+#line 2833 "parser.c"
 break;
 case 83:
 #line 670 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2833 "parser.c"
+#line 2840 "parser.c"
 break;
 case 84:
 #line 675 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2840 "parser.c"
+#line 2847 "parser.c"
 break;
 case 85:
 #line 679 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2847 "parser.c"
+#line 2854 "parser.c"
 break;
 case 86:
 #line 684 "parser.y"
@@ -2855,7 +2862,7 @@ case 86:
 				BAD_PROB_VAL, "");
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2859 "parser.c"
+#line 2866 "parser.c"
 break;
 case 87:
 #line 693 "parser.y"
@@ -2870,7 +2877,7 @@ case 87:
 					 BAD_PROB_VAL, "" );
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2874 "parser.c"
+#line 2881 "parser.c"
 break;
 case 88:
 #line 706 "parser.y"
@@ -2881,7 +2888,7 @@ case 88:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2885 "parser.c"
+#line 2892 "parser.c"
 break;
 case 89:
 #line 714 "parser.y"
@@ -2892,30 +2899,30 @@ case 89:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theFloat;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2896 "parser.c"
+#line 2903 "parser.c"
 break;
 case 90:
 #line 723 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2903 "parser.c"
+#line 2910 "parser.c"
 break;
 case 91:
 #line 727 "parser.y"
 	{
                    yyval.i_num = 1;
                 }
-#line 2910 "parser.c"
+#line 2917 "parser.c"
 break;
 case 92:
 #line 731 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2917 "parser.c"
+#line 2924 "parser.c"
 break;
-#line 2919 "parser.c"
+#line 2926 "parser.c"
     default:
         break;
     }
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..7060c67 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1362,6 +1362,13 @@ enterStartState( int i ) {
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* A wildcard stands for every state. */
+  if( i == WILDCARD_SPEC ) {
+    for( i = 0; i < gNumStates; i++ )
+      enterStartState( i );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From a90581c085b380c9e360e8ab9ae1be6a9fadb220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 19/62] fix: check the start state of an MDP before it is used
 as a matrix column

---
 src/mdp/parser.c | 170 +++++++++++++++++++++++++----------------------
 src/mdp/parser.y |  14 +++-
 2 files changed, 102 insertions(+), 82 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7d074c0..d42d1f9 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -867,7 +867,12 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
-  else  /* It is an MDP */
+  /* It is an MDP, which has nothing to be reset to without a start state */
+  else if( gInitialState == INVALID_STATE )
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
+  else
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
 	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
@@ -1078,7 +1083,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "" );
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
@@ -1439,6 +1448,7 @@ initParser() {
    currentLineNumber = 1;
    curMnemonic = nt_unknown;
    curMatrixContext = mc_none;
+   gInitialState = INVALID_STATE;
 
 }  /* initParser */
 /************************************************************************/
@@ -1489,7 +1499,7 @@ yywrap()
    return 1;
 }
 /************************************************************************/
-#line 1493 "parser.c"
+#line 1503 "parser.c"
 
 /* For use in generated program */
 #define yydepth (int)(yystack.s_mark - yystack.s_base)
@@ -2183,7 +2193,7 @@ case 1:
 
 		    allocateIntermediateMDP();  
 		  }
-#line 2187 "parser.c"
+#line 2197 "parser.c"
 break;
 case 2:
 #line 148 "parser.y"
@@ -2201,7 +2211,7 @@ case 2:
 
 		    endStartStates(); 
 		  }
-#line 2205 "parser.c"
+#line 2215 "parser.c"
 break;
 case 3:
 #line 167 "parser.y"
@@ -2220,14 +2230,14 @@ case 3:
                      checkProbs();
 		     YACCtrace("pomdp_file -> preamble params\n");
                   }
-#line 2224 "parser.c"
+#line 2234 "parser.c"
 break;
 case 4:
 #line 184 "parser.y"
 	{
 		   YACCtrace("preamble -> preamble param_type\n");
 		}
-#line 2231 "parser.c"
+#line 2241 "parser.c"
 break;
 case 11:
 #line 196 "parser.y"
@@ -2243,7 +2253,7 @@ case 11:
                    discountDefined = 1;
 		   YACCtrace("discount_param -> DISCOUNTTOK COLONTOK number\n");
 	        }
-#line 2247 "parser.c"
+#line 2257 "parser.c"
 break;
 case 12:
 #line 210 "parser.y"
@@ -2251,21 +2261,21 @@ case 12:
                    valuesDefined = 1;
 		   YACCtrace("value_param -> VALUESTOK COLONTOK value_tail\n");
 	        }
-#line 2255 "parser.c"
+#line 2265 "parser.c"
 break;
 case 13:
 #line 223 "parser.y"
 	{
                    gValueType = REWARD_value_type;
 		}
-#line 2262 "parser.c"
+#line 2272 "parser.c"
 break;
 case 14:
 #line 227 "parser.y"
 	{
                    gValueType = COST_value_type;
 		}
-#line 2269 "parser.c"
+#line 2279 "parser.c"
 break;
 case 15:
 #line 232 "parser.y"
@@ -2280,7 +2290,7 @@ case 15:
 		  curMnemonic = nt_state; 
 
 		}
-#line 2284 "parser.c"
+#line 2294 "parser.c"
 break;
 case 16:
 #line 244 "parser.y"
@@ -2289,7 +2299,7 @@ case 16:
                    curMnemonic = nt_unknown;
 		   YACCtrace("state_param -> STATETOK COLONTOK state_tail\n");
 		}
-#line 2293 "parser.c"
+#line 2303 "parser.c"
 break;
 case 17:
 #line 251 "parser.y"
@@ -2311,7 +2321,7 @@ case 17:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2315 "parser.c"
+#line 2325 "parser.c"
 break;
 case 19:
 #line 273 "parser.y"
@@ -2320,7 +2330,7 @@ case 19:
 
 		  curMnemonic = nt_action;  
 		}
-#line 2324 "parser.c"
+#line 2334 "parser.c"
 break;
 case 20:
 #line 279 "parser.y"
@@ -2329,7 +2339,7 @@ case 20:
                    curMnemonic = nt_unknown;
 		   YACCtrace("action_param -> ACTIONTOK COLONTOK action_tail\n");
 		}
-#line 2333 "parser.c"
+#line 2343 "parser.c"
 break;
 case 21:
 #line 286 "parser.y"
@@ -2351,7 +2361,7 @@ case 21:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2355 "parser.c"
+#line 2365 "parser.c"
 break;
 case 23:
 #line 308 "parser.y"
@@ -2360,7 +2370,7 @@ case 23:
 
 		  curMnemonic = nt_observation; 
 		}
-#line 2364 "parser.c"
+#line 2374 "parser.c"
 break;
 case 24:
 #line 314 "parser.y"
@@ -2369,7 +2379,7 @@ case 24:
                    curMnemonic = nt_unknown;
 		   YACCtrace("obs_param -> OBSTOK COLONTOK obs_param_tail\n");
 		}
-#line 2373 "parser.c"
+#line 2383 "parser.c"
 break;
 case 25:
 #line 321 "parser.y"
@@ -2391,7 +2401,7 @@ case 25:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2395 "parser.c"
+#line 2405 "parser.c"
 break;
 case 27:
 #line 343 "parser.y"
@@ -2409,7 +2419,7 @@ case 27:
 		  else
 		    setMatrixContext(mc_mdp_start, 0, 0, 0, 0); 
 		}
-#line 2413 "parser.c"
+#line 2423 "parser.c"
 break;
 case 29:
 #line 376 "parser.y"
@@ -2431,42 +2441,42 @@ case 29:
 		   XFREE( yystack.l_mark[0].constBlk->theValue.theString );
 		   XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2435 "parser.c"
+#line 2445 "parser.c"
 break;
 case 30:
 #line 396 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_include, 0, 0, 0, 0); 
 		}
-#line 2442 "parser.c"
+#line 2452 "parser.c"
 break;
 case 32:
 #line 402 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_exclude, 0, 0, 0, 0); 
 		}
-#line 2449 "parser.c"
+#line 2459 "parser.c"
 break;
 case 34:
 #line 409 "parser.y"
 	{ 
 		  setStartStateUniform(); 
 		}
-#line 2456 "parser.c"
+#line 2466 "parser.c"
 break;
 case 35:
 #line 414 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2463 "parser.c"
+#line 2473 "parser.c"
 break;
 case 36:
 #line 418 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2470 "parser.c"
+#line 2480 "parser.c"
 break;
 case 40:
 #line 427 "parser.y"
@@ -2495,19 +2505,19 @@ case 40:
 
 		      observationSpecDefined = 1;
 		  }
-#line 2499 "parser.c"
+#line 2509 "parser.c"
 break;
 case 42:
 #line 455 "parser.y"
 	{
 		   YACCtrace("trans_prob_spec -> TTOK COLONTOK trans_spec_tail\n");
 		}
-#line 2506 "parser.c"
+#line 2516 "parser.c"
 break;
 case 43:
 #line 460 "parser.y"
 	{ setMatrixContext(mc_trans_single, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2511 "parser.c"
+#line 2521 "parser.c"
 break;
 case 44:
 #line 461 "parser.y"
@@ -2515,43 +2525,43 @@ case 44:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("trans_spec_tail -> action COLONTOK state COLONTOK state prob \n");
 		}
-#line 2519 "parser.c"
+#line 2529 "parser.c"
 break;
 case 45:
 #line 466 "parser.y"
 	{ setMatrixContext(mc_trans_row, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2524 "parser.c"
+#line 2534 "parser.c"
 break;
 case 46:
 #line 467 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action COLONTOK state ui_matrix \n");
 		}
-#line 2531 "parser.c"
+#line 2541 "parser.c"
 break;
 case 47:
 #line 470 "parser.y"
 	{ setMatrixContext(mc_trans_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2536 "parser.c"
+#line 2546 "parser.c"
 break;
 case 48:
 #line 471 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action ui_matrix\n");
 		}
-#line 2543 "parser.c"
+#line 2553 "parser.c"
 break;
 case 49:
 #line 476 "parser.y"
 	{
 		   YACCtrace("obs_prob_spec -> OTOK COLONTOK  obs_spec_tail\n");
 		}
-#line 2550 "parser.c"
+#line 2560 "parser.c"
 break;
 case 50:
 #line 481 "parser.y"
 	{ setMatrixContext(mc_obs_single, yystack.l_mark[-4].i_num, 0, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2555 "parser.c"
+#line 2565 "parser.c"
 break;
 case 51:
 #line 482 "parser.y"
@@ -2559,43 +2569,43 @@ case 51:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK obs prob \n");
 		}
-#line 2563 "parser.c"
+#line 2573 "parser.c"
 break;
 case 52:
 #line 487 "parser.y"
 	{ setMatrixContext(mc_obs_row, yystack.l_mark[-2].i_num, 0, yystack.l_mark[0].i_num, 0); }
-#line 2568 "parser.c"
+#line 2578 "parser.c"
 break;
 case 53:
 #line 488 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK u_matrix\n");
 		}
-#line 2575 "parser.c"
+#line 2585 "parser.c"
 break;
 case 54:
 #line 491 "parser.y"
 	{ setMatrixContext(mc_obs_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2580 "parser.c"
+#line 2590 "parser.c"
 break;
 case 55:
 #line 492 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action u_matrix\n");
 		}
-#line 2587 "parser.c"
+#line 2597 "parser.c"
 break;
 case 56:
 #line 497 "parser.y"
 	{
 		   YACCtrace("reward_spec -> RTOK COLONTOK  reward_spec_tail\n");
 		}
-#line 2594 "parser.c"
+#line 2604 "parser.c"
 break;
 case 57:
 #line 504 "parser.y"
 	{ setMatrixContext(mc_reward_single, yystack.l_mark[-6].i_num, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2599 "parser.c"
+#line 2609 "parser.c"
 break;
 case 58:
 #line 505 "parser.y"
@@ -2606,12 +2616,12 @@ case 58:
 		   checkMatrix();  
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state COLONTOK obs number\n");
 		}
-#line 2610 "parser.c"
+#line 2620 "parser.c"
 break;
 case 59:
 #line 513 "parser.y"
 	{ setMatrixContext(mc_reward_row, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2615 "parser.c"
+#line 2625 "parser.c"
 break;
 case 60:
 #line 514 "parser.y"
@@ -2619,12 +2629,12 @@ case 60:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state num_matrix\n");
 		 }
-#line 2623 "parser.c"
+#line 2633 "parser.c"
 break;
 case 61:
 #line 519 "parser.y"
 	{ setMatrixContext(mc_reward_all, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2628 "parser.c"
+#line 2638 "parser.c"
 break;
 case 62:
 #line 520 "parser.y"
@@ -2632,12 +2642,12 @@ case 62:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state num_matrix\n");
 		}
-#line 2636 "parser.c"
+#line 2646 "parser.c"
 break;
 case 63:
 #line 526 "parser.y"
 	{ setMatrixContext(mc_reward_mdp_only, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2641 "parser.c"
+#line 2651 "parser.c"
 break;
 case 64:
 #line 527 "parser.y"
@@ -2645,77 +2655,77 @@ case 64:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action num_matrix\n");
                 }
-#line 2649 "parser.c"
+#line 2659 "parser.c"
 break;
 case 65:
 #line 533 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2656 "parser.c"
+#line 2666 "parser.c"
 break;
 case 66:
 #line 537 "parser.y"
 	{
                    enterIdentityMatrix();
                 }
-#line 2663 "parser.c"
+#line 2673 "parser.c"
 break;
 case 67:
 #line 541 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2670 "parser.c"
+#line 2680 "parser.c"
 break;
 case 68:
 #line 547 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2677 "parser.c"
+#line 2687 "parser.c"
 break;
 case 69:
 #line 551 "parser.y"
 	{
 		  enterResetMatrix();
 		}
-#line 2684 "parser.c"
+#line 2694 "parser.c"
 break;
 case 70:
 #line 555 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2691 "parser.c"
+#line 2701 "parser.c"
 break;
 case 71:
 #line 560 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2698 "parser.c"
+#line 2708 "parser.c"
 break;
 case 72:
 #line 564 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2705 "parser.c"
+#line 2715 "parser.c"
 break;
 case 73:
 #line 569 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2712 "parser.c"
+#line 2722 "parser.c"
 break;
 case 74:
 #line 573 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2719 "parser.c"
+#line 2729 "parser.c"
 break;
 case 75:
 #line 578 "parser.y"
@@ -2730,7 +2740,7 @@ case 75:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2734 "parser.c"
+#line 2744 "parser.c"
 break;
 case 76:
 #line 590 "parser.y"
@@ -2748,14 +2758,14 @@ case 76:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2752 "parser.c"
+#line 2762 "parser.c"
 break;
 case 77:
 #line 605 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2759 "parser.c"
+#line 2769 "parser.c"
 break;
 case 78:
 #line 610 "parser.y"
@@ -2771,7 +2781,7 @@ case 78:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2775 "parser.c"
+#line 2785 "parser.c"
 break;
 case 79:
 #line 623 "parser.y"
@@ -2789,14 +2799,14 @@ case 79:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2793 "parser.c"
+#line 2803 "parser.c"
 break;
 case 80:
 #line 638 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2800 "parser.c"
+#line 2810 "parser.c"
 break;
 case 81:
 #line 643 "parser.y"
@@ -2811,7 +2821,7 @@ case 81:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2815 "parser.c"
+#line 2825 "parser.c"
 break;
 case 82:
 #line 655 "parser.y"
@@ -2829,28 +2839,28 @@ case 82:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                }
-#line 2833 "parser.c"
+#line 2843 "parser.c"
 break;
 case 83:
 #line 670 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2840 "parser.c"
+#line 2850 "parser.c"
 break;
 case 84:
 #line 675 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2847 "parser.c"
+#line 2857 "parser.c"
 break;
 case 85:
 #line 679 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2854 "parser.c"
+#line 2864 "parser.c"
 break;
 case 86:
 #line 684 "parser.y"
@@ -2862,7 +2872,7 @@ case 86:
 				BAD_PROB_VAL, "");
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2866 "parser.c"
+#line 2876 "parser.c"
 break;
 case 87:
 #line 693 "parser.y"
@@ -2877,7 +2887,7 @@ case 87:
 					 BAD_PROB_VAL, "" );
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2881 "parser.c"
+#line 2891 "parser.c"
 break;
 case 88:
 #line 706 "parser.y"
@@ -2888,7 +2898,7 @@ case 88:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2892 "parser.c"
+#line 2902 "parser.c"
 break;
 case 89:
 #line 714 "parser.y"
@@ -2899,30 +2909,30 @@ case 89:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theFloat;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2903 "parser.c"
+#line 2913 "parser.c"
 break;
 case 90:
 #line 723 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2910 "parser.c"
+#line 2920 "parser.c"
 break;
 case 91:
 #line 727 "parser.y"
 	{
                    yyval.i_num = 1;
                 }
-#line 2917 "parser.c"
+#line 2927 "parser.c"
 break;
 case 92:
 #line 731 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2924 "parser.c"
+#line 2934 "parser.c"
 break;
-#line 2926 "parser.c"
+#line 2936 "parser.c"
     default:
         break;
     }
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index 7060c67..3b907cc 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -962,7 +962,12 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
-  else  /* It is an MDP */
+  /* It is an MDP, which has nothing to be reset to without a start state */
+  else if( gInitialState == INVALID_STATE )
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
+  else
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
 	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
@@ -1173,7 +1178,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "" );
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
@@ -1534,6 +1543,7 @@ initParser() {
    currentLineNumber = 1;
    curMnemonic = nt_unknown;
    curMatrixContext = mc_none;
+   gInitialState = INVALID_STATE;
 
 }  /* initParser */
 /************************************************************************/
-- 
2.43.0


From ca58c30f44ba0daf1971bd4a293da2282412a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 20/62] fix: zeros in a reward matrix override the rewards of
 earlier lines

---
 src/mdp/imm-reward.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..5e7111a 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -289,7 +289,7 @@ enterImmReward( int cur_state, int next_state, int obs,
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node)
 {
-  int i, j, k;
+  int i, j, num_cols;
   Matrix m;
 
   assert( node != NULL );
@@ -320,13 +320,14 @@ void irAddToDecisionTree(Imm_Reward_List node)
     
   case ir_matrix:
     m = node->rep.matrix;
+    /* zero entries too, since they override what earlier lines specified */
+    num_cols = ( gProblemType == POMDP_problem_type ) ? gNumObservations : gNumStates;
     for (i=0; i < m->num_rows; i++) {
-      for (j=0; j < m->row_length[i]; j++) {
-	k = m->row_start[i] + j;
+      for (j=0; j < num_cols; j++) {
 	if( gProblemType == POMDP_problem_type )  { /* pomdp */
-	  dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+	  dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));
 	} else { /* mdp */
-	  dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+	  dtAdd(node->action, i, j, WILDCARD_SPEC, getEntryMatrix(m, i, j));
 	}
       }
     }
-- 
2.43.0


From f9ea98767b238c77e3b7b64ed80adf22fdd1b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 21/62] fix: a model without reward lines has zero rewards

---
 src/mdp/decision-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..a7089d4 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -358,6 +358,9 @@ double dtGet(int action, int cur_state, int next_state, int obs)
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* without any specification every value is zero */
+  if (NULL == gTree) return 0.0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From 8b5074633528cf8dfc1494577ead775a54745cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 22/62] fix: forget the released reward tree, so that another
 model can be loaded

---
 src/mdp/decision-tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index a7089d4..b79417a 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -368,6 +368,8 @@ void dtDeallocate(void)
 {
   dtDestroyNode(gTree);
   free(gTableSizes);
+  gTree = NULL;
+  gTableSizes = NULL;
 }
 
 void dtDebugPrint(const char* header)
-- 
2.43.0


From 11866458387fdad515c0e3b1bf3f4d15c144875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 23/62] fix: integer literals too large for an int are misread

---
 src/mdp/scanner.c | 71 ++++++++++++++++++++++++++++-------------------
 src/mdp/scanner.l | 31 +++++++++++++++------
 2 files changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/mdp/scanner.c b/src/mdp/scanner.c
index d950c90..0a8746f 100644
--- a/src/mdp/scanner.c
+++ b/src/mdp/scanner.c
@@ -472,6 +472,8 @@ char *yytext;
 
 #include <stdio.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -535,27 +537,39 @@ static int reserved_token[] = {
 
 /**********************************************************************/
 void 
-IntToYylval()
+FloatToYylval()
 {
 Constant_Block *aConst;
 
    aConst = (Constant_Block *) XMALLOC(sizeof(Constant_Block));
-   aConst->theTag = CONST_INT;
-   aConst->theValue.theInt = atoi(yytext);
+   aConst->theTag = CONST_FLOAT;
+   aConst->theValue.theFloat = atof(yytext);
 
    yylval.constBlk = aConst;
 }
 /**********************************************************************/
-void 
-FloatToYylval()
+int 
+IntToYylval()
+/*  Returns the type of token this is: digits that are too many for an
+integer can still be a reward.
+*/
 {
 Constant_Block *aConst;
+long value;
+
+   errno = 0;
+   value = strtol(yytext, NULL, 10);
+   if( errno != 0 || value > INT_MAX ) {
+      FloatToYylval();
+      return (FLOATTOK);
+   }
 
    aConst = (Constant_Block *) XMALLOC(sizeof(Constant_Block));
-   aConst->theTag = CONST_FLOAT;
-   aConst->theValue.theFloat = atof(yytext);
+   aConst->theTag = CONST_INT;
+   aConst->theValue.theInt = value;
 
    yylval.constBlk = aConst;
+   return (INTTOK);
 }
 /**********************************************************************/
 void 
@@ -595,9 +609,9 @@ CheckReserved() {
 
 }  /* CheckReserved */
 /**********************************************************************/
-#line 599 "scanner.c"
+#line 613 "scanner.c"
 /************************* Character Classes  *******************************/
-#line 601 "scanner.c"
+#line 615 "scanner.c"
 
 #define INITIAL 0
 
@@ -814,9 +828,9 @@ YY_DECL
 		}
 
 	{
-#line 156 "scanner.l"
+#line 170 "scanner.l"
 
-#line 820 "scanner.c"
+#line 834 "scanner.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -875,15 +889,14 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 157 "scanner.l"
+#line 171 "scanner.l"
 {
-                                          IntToYylval();
-                                          return (INTTOK);  /* Integer Literal */
+                                          return (IntToYylval());  /* Integer Literal */
 					}   
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 162 "scanner.l"
+#line 175 "scanner.l"
 {
                                           FloatToYylval();
                                           return (FLOATTOK);  /* Floating Point Literal */
@@ -891,7 +904,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 167 "scanner.l"
+#line 180 "scanner.l"
 {
                                   int tok_val;
                                   tok_val = CheckReserved();
@@ -905,63 +918,63 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 178 "scanner.l"
+#line 191 "scanner.l"
 ;   /* Comment: No action */
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 181 "scanner.l"
+#line 194 "scanner.l"
 {         
                                    return (ASTERICKTOK);
                                 }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 184 "scanner.l"
+#line 197 "scanner.l"
 {         
                                    return (MINUSTOK);
                                 }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 187 "scanner.l"
+#line 200 "scanner.l"
 {         
                                     return (PLUSTOK);
                                 }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 190 "scanner.l"
+#line 203 "scanner.l"
 {         
                                     return (COLONTOK);
                                 }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 194 "scanner.l"
+#line 207 "scanner.l"
 ; /* Spacedelimiter: No action */ 
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 196 "scanner.l"
+#line 209 "scanner.l"
 ; /* Tab delimiter: No action */
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 198 "scanner.l"
+#line 211 "scanner.l"
 ; /* Carriage return: No action */
 	YY_BREAK
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 200 "scanner.l"
+#line 213 "scanner.l"
 {  
                                     currentLineNumber++; /* Newline delimiter */
                                 }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 205 "scanner.l"
+#line 218 "scanner.l"
 { 
                                   
                                   ERR_enter("Scanner<yylex>",currentLineNumber,
@@ -970,10 +983,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 218 "scanner.l"
+#line 231 "scanner.l"
 ECHO;
 	YY_BREAK
-#line 977 "scanner.c"
+#line 990 "scanner.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1978,4 +1991,4 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 218 "scanner.l"
+#line 231 "scanner.l"
diff --git a/src/mdp/scanner.l b/src/mdp/scanner.l
index b4e83fe..36d84af 100644
--- a/src/mdp/scanner.l
+++ b/src/mdp/scanner.l
@@ -17,6 +17,8 @@
 
 #include <stdio.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -80,27 +82,39 @@ static int reserved_token[] = {
 
 /**********************************************************************/
 void 
-IntToYylval()
+FloatToYylval()
 {
 Constant_Block *aConst;
 
    aConst = (Constant_Block *) XMALLOC(sizeof(Constant_Block));
-   aConst->theTag = CONST_INT;
-   aConst->theValue.theInt = atoi(yytext);
+   aConst->theTag = CONST_FLOAT;
+   aConst->theValue.theFloat = atof(yytext);
 
    yylval.constBlk = aConst;
 }
 /**********************************************************************/
-void 
-FloatToYylval()
+int 
+IntToYylval()
+/*  Returns the type of token this is: digits that are too many for an
+integer can still be a reward.
+*/
 {
 Constant_Block *aConst;
+long value;
+
+   errno = 0;
+   value = strtol(yytext, NULL, 10);
+   if( errno != 0 || value > INT_MAX ) {
+      FloatToYylval();
+      return (FLOATTOK);
+   }
 
    aConst = (Constant_Block *) XMALLOC(sizeof(Constant_Block));
-   aConst->theTag = CONST_FLOAT;
-   aConst->theValue.theFloat = atof(yytext);
+   aConst->theTag = CONST_INT;
+   aConst->theValue.theInt = value;
 
    yylval.constBlk = aConst;
+   return (INTTOK);
 }
 /**********************************************************************/
 void 
@@ -155,8 +169,7 @@ UnsignedReal ({Digit}+({RealOpt1}|{RealOpt2}))
 
 %%
 {IntLiteral} 			{
-                                          IntToYylval();
-                                          return (INTTOK);  /* Integer Literal */
+                                          return (IntToYylval());  /* Integer Literal */
 					}   
 
 {UnsignedReal}	{
-- 
2.43.0


From 3134d2d6fcbfbf3536bd9ab367dc00825187a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 24/62] fix: the model loader dereferences NULL when memory is
 exhausted

The mdp library used the allocation functions unchecked. Use the
wrappers the rest of the program uses, which stop with a message.
---
 src/mdp/decision-tree.c | 9 +++++----
 src/mdp/mdp-common.h    | 7 +++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index b79417a..b9788ef 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -25,6 +25,7 @@
 #include <assert.h>
 #include <stdio.h>
 
+#include "mdp-common.h"
 #include "decision-tree.h"
 
 /**********************************************************************
@@ -94,7 +95,7 @@ static DTNode* dtNewNodeVal(double val)
 {
   DTNode* out;
 
-  out = (DTNode*) malloc(sizeof(DTNode));
+  out = (DTNode*) XMALLOC(sizeof(DTNode));
   out->type = DT_VAL;
   out->data.val = val;
 
@@ -105,7 +106,7 @@ static DTNode* dtNewNodeTable(int numEntries)
 {
   DTNode* out;
 
-  out = (DTNode*) malloc(sizeof(DTNode));
+  out = (DTNode*) XMALLOC(sizeof(DTNode));
   out->type = DT_TABLE;
   dtInitTable(&out->data.subTree, numEntries);
 
@@ -115,7 +116,7 @@ static DTNode* dtNewNodeTable(int numEntries)
 static void dtInitTable(DTTable* t, int numEntries)
 {
   t->numEntries = numEntries;
-  t->entries = (DTNode**) malloc(numEntries * sizeof(DTNode*));
+  t->entries = (DTNode**) XMALLOC(numEntries * sizeof(DTNode*));
   memset(t->entries, 0, numEntries * sizeof(DTNode*));
 }
 
@@ -330,7 +331,7 @@ void dtInit(int numActions, int numStates, int numObservations)
   /* guard to prevent double initialization */
   if (NULL != gTree) return;
 
-  gTableSizes = (int*) malloc(DT_TABLE_DEPTH*sizeof(int));
+  gTableSizes = (int*) XMALLOC(DT_TABLE_DEPTH*sizeof(int));
   gTableSizes[0] = numActions;
   gTableSizes[1] = numStates;
   gTableSizes[2] = numStates;
diff --git a/src/mdp/mdp-common.h b/src/mdp/mdp-common.h
index aaf61f8..2911135 100644
--- a/src/mdp/mdp-common.h
+++ b/src/mdp/mdp-common.h
@@ -28,10 +28,9 @@
 
 #else
 
-#define XCALLOC(num, size) calloc( (num), (size) )
-#define XMALLOC(size) malloc( size )
-#define XREALLOC(p, size) realloc( (p), (size) )
-#define XFREE(stale) free(stale)
+/* The allocation wrappers that stop with a message when memory is
+   exhausted. */
+#include "../xalloc.h"
 
 #endif
 
-- 
2.43.0


From 6b9de0945b48d52adc44ff4337878f39d6997ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 25/62] fix: policy graph evaluation printed values far from
 the solution

The iterative solver stopped at a relative residual of 1e-5, which is
visible in the printed digits, and, when the discount is near one, after
1000 iterations wherever it was by then.
---
 src/laspack-util.h | 4 ++--
 src/pg-eval.c      | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/laspack-util.h b/src/laspack-util.h
index 236b493..070bda7 100644
--- a/src/laspack-util.h
+++ b/src/laspack-util.h
@@ -18,9 +18,9 @@
 #include <laspack/vector.h>
 
 /* Arguments for the LASPACK iterative solver. */
-#define ITER_SOLVE_ACCURACY                1e-5
+#define ITER_SOLVE_ACCURACY                1e-10
 #define JACOBI_PRECON_OMEGA                0.8
-#define MAX_JACOBI_ITERATIONS              1000
+#define MAX_JACOBI_ITERATIONS              1000000
 
 extern void showVector( Vector *v );
 extern void showQMatrix( QMatrix *M );
diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..0e98512 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -367,6 +367,15 @@ PGE_evaluate( PG pg, PgEvalContext pgec ) {
     V_Destr( &(pgec->x) );
     return( FALSE );
   } /* if trouble solving system of equations */
+
+  /* Running out of iterations is not an error for LASPACK. */
+  if ( GetLastNoIter() >= MAX_JACOBI_ITERATIONS ) {
+    Warning( "evaluatePG() The system of equations did not converge." );
+    Q_Destr( &(pgec->A) );
+    V_Destr( &(pgec->b) );
+    V_Destr( &(pgec->x) );
+    return( FALSE );
+  } /* if not converged */
 #ifdef DEBUG
   showVector( &(pgec->x) );
 #endif
-- 
2.43.0


From 3de248435be612b9e647e1ed48e05756d4aa5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 26/62] fix: pg_eval picked the costliest node and read the
 best node before it was set

---
 src/pg-eval.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 0e98512..7685674 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -164,9 +164,10 @@ double
 PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 /*
   Evaluates the policy graph for the given belief state byt finding
-  the node of the graph that yields the highers value
+  the node of the graph that yields the highers value (the lowest one
+  if the values are costs).
 */
-  double max_sum = -1.0 * HUGE_VAL;
+  double max_sum = 0.0;
   double cur_sum;
   int cur_node, state;
 
@@ -179,7 +180,9 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
     for ( state = 0; state < pgec->num_states; state++ )
       cur_sum += pgec->soln[state][cur_node] * b[state];
 
-    if ( cur_sum > max_sum ) {
+    if (( *best_node < 0 )
+        || (( gValueType == COST_value_type )
+            ? ( cur_sum < max_sum ) : ( cur_sum > max_sum ))) {
       max_sum = cur_sum;
       *best_node = cur_node;
     } /* if new best value */
@@ -418,6 +421,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double best_val;
 
   PgEvalContext pgec;
 
@@ -439,9 +443,10 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 /* Not as an argument: it sets the other one. */
+	 best_val = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    best_val, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0


From f1d364dcb7100f54654682ee42ba041ceff4e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 27/62] fix: pg_eval refused policy graphs with impossible
 observations

The solver itself marks the successors after impossible observations in
the graphs it writes.
---
 src/pg-eval.c | 4 ++++
 src/pg.c      | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 7685674..2ffe07a 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -250,6 +250,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* No next node where the observation is impossible. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
diff --git a/src/pg.c b/src/pg.c
index b6018f8..68746da 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -127,7 +127,8 @@ int
 LPG_verify( LinkedPG orig_pg ) {
 /*
    Make sure the policy graph is valid.  Need valid actions and
-   all neighbors must be defined.
+   all neighbors must be defined, except after observations that are
+   impossible with the node's action.
 */
   LinkedPG pg = orig_pg;
   int z;
@@ -140,6 +141,10 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   if(( pg->neighbor[z] == INVALID_NODE )
+		 && ( ! gObservationPossible[pg->action][z] ))
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
-- 
2.43.0


From 0a5ee5d64cf38b0fc9727943334527737559be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 28/62] fix: reading malformed policy graph files hangs or
 corrupts memory

A token that is not a number was read forever, long tokens overflowed a
buffer, and node ids were used as array indices unchecked.
---
 src/pg.c | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 68746da..7de0131 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <assert.h>
 
@@ -170,24 +171,32 @@ LPG_scanf( FILE *file, int verify ) {
   int *neighbor;
   int z;
   char int_str[MAX_MSG_LENGTH];
+  char *int_end;
+  long next_node;
   int count = 0;
+  int num_read;
+  LinkedPG node;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     num_read = fscanf( file, "%d", &id );
+     if( num_read == EOF )
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( num_read != 1 )
+	   || ( fscanf( file, "%d", &action ) != 1 )) {
+	  XFREE( neighbor );
 	  LPG_destroy( lpg );
-	  Warning( "Not enough values in the policy graph file.");
+	  Warning( "Missing or bad values in the policy graph file.");
 	  return( NULL );
      }
 
 	if (( action < 0 ) 
 	    || ( action >= gNumActions ))
 	  {
+	    XFREE( neighbor );
 	    LPG_destroy( lpg );
 	    Warning( "Bad action number.\n" );
 	    return NULL;
@@ -195,8 +204,10 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  /* Room for MAX_MSG_LENGTH - 1 characters. */
+	  if ( fscanf( file, "%1095s", int_str) != 1 )
 	    {
+		 XFREE( neighbor );
 		 LPG_destroy( lpg );
 		 Warning("Not enough values in the policy graph file." );
 		 return NULL;
@@ -207,7 +218,18 @@ LPG_scanf( FILE *file, int verify ) {
 	  else if ( strcmp( int_str, NO_INFO_NODE_STR ) == 0 )
 	    neighbor[z] = NO_INFO_NODE;
 	  else
-	    neighbor[z] = atoi( int_str );
+	    {
+		 next_node = strtol( int_str, &int_end, 10 );
+		 if (( int_end == int_str ) || ( *int_end != '\0' )
+			|| ( next_node < 0 ) || ( next_node > INT_MAX ))
+		   {
+			XFREE( neighbor );
+			LPG_destroy( lpg );
+			Warning( "Bad node number in the policy graph file." );
+			return NULL;
+		   }
+		 neighbor[z] = (int) next_node;
+	    }
 	}
 
 	lpg = LPG_addNode( lpg, id, action, neighbor );
@@ -217,7 +239,17 @@ LPG_scanf( FILE *file, int verify ) {
   XFREE( neighbor );
 
   Assert( count > 0, "Node pg nodes read." );
-  
+
+  /* The node ids are used as array indices: each one from zero to one
+	less than the number of nodes must be there once. */
+  for ( node = lpg; node != NULL; node = node->next )
+    if (( node->id < 0 ) || ( node->id >= count )
+	   || ( LPG_findNode( lpg, node->id ) != node )) {
+	 LPG_destroy( lpg );
+	 Warning( "Bad node id in the policy graph file." );
+	 return NULL;
+    }
+
   /* DO sanity checking, but only if requested. */
   if ( verify
 	  && ( !LPG_verify( lpg ))) {
-- 
2.43.0


From cb231e5dee3bcea967094cd1046c23ae7e485c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 29/62] fix: reading malformed value function and belief files
 never ends

A token that is not a number was read again and again, with another
vector allocated each time. Empty files and values that are not finite
are refused, too.
---
 src/alpha.c  | 31 +++++++++++++++++++++++--------
 src/belief.c | 31 +++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 4e4822f..64b0f10 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1090,7 +1090,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1112,21 +1112,36 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     num_read = fscanf( file, "%d", &a );
+     if ( num_read == EOF )
        break;
      alpha = newAlpha();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
-         fprintf(gStdErrFile, 
-                 "** Error: Alpha vector file format incorrect.\n");
-         return ( NULL );
-       }
+     for ( i = 0; ( num_read == 1 ) && ( i < gNumStates ); i++ )
+       if (( fscanf( file, "%lf", &( alpha[i] )) != 1 )
+           || ( ! isfinite( alpha[i] )))
+         num_read = 0;
+
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       XFREE( alpha );
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      
      appendAlphaList( list, alpha, a );
    }  /* while */
    
    fclose( file );
+
+   if ( sizeAlphaList( list ) == 0 ) {
+     fprintf(gStdErrFile, 
+             "** Error: No vectors in alpha vector file: %s\n", filename);
+     destroyAlphaList( list );
+     return ( NULL );
+   }
    
    return ( list );
 }  /* readAlphaList */
diff --git a/src/belief.c b/src/belief.c
index 0b70959..aa8013d 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -207,28 +207,39 @@ readBeliefList( char *filename, int max )
 
      b = newBelief();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+     for ( i = 0; i < gNumStates; i++ ) {
+       num_read = fscanf( file, "%lf", &( b[i] ));
+
+       if (( num_read != 1 ) || ( ! isfinite( b[i] ))) {
+
+	    XFREE( b );
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
-		 fprintf(gStdErrFile, 
-			    "** Error: Belief list file format incorrect.\n");
-		 return ( NULL );
-	    }
-	    else 
+	    if (( num_read == EOF ) && ( i == 0 ))
 		 goto RBL_DONE;
-		 
+
+	    fprintf(gStdErrFile, 
+		       "** Error: Belief list file format incorrect.\n");
+	    destroyBeliefList( list );
+	    fclose( file );
+	    return ( NULL );
        }
+     }
      
+     /* This makes a copy. */
      list = appendBeliefList( list, b );
+     XFREE( b );
    }  /* while */
    
  RBL_DONE:
 
    fclose( file );
+
+   if ( list == NULL )
+     fprintf(gStdErrFile, 
+             "** Error: No beliefs in belief list file: %s\n", filename);
    
    return ( list );
 }  /* readBeliefList */
-- 
2.43.0


From d246753be41b959e0047899a48cd5fcfa87f375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 30/62] fix: long belief update lines overflow a buffer, blank
 ones read it uninitialised

---
 src/utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4730ec2..32dd068 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1491,7 +1491,7 @@ UTIL_doBeliefUpdates()
   char *post_action_ptr;
   char *post_obs_ptr;
 
-  char line_init[255];
+  char line_init[1024];
 
   prev_belief = newBelief();
   next_belief = newBelief();
@@ -1506,9 +1506,9 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%s", line_init );
-
-	 if ( strcmp( line_init, "exit" ) == 0 )
+	 /* Room for the whole line; nothing is set if it is blank. */
+	 if (( sscanf( line, "%s", line_init ) == 1 )
+		&& ( strcmp( line_init, "exit" ) == 0 ))
 	   break;
 	 
 	 action = strtol( line, &post_action_ptr, 10 );
-- 
2.43.0


From 36a4b78ca345398f4014638fddd27c1c9b280ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 31/62] fix: comparing or mapping beliefs fails or overflows
 for more than 98 points

The lists of best vectors and of belief indices had a fixed size, and two
of them too little memory even for that; a belief file that could not be
read closed a file that was never opened.
---
 src/utils.c | 92 +++++++++++++++--------------------------------------
 src/utils.h |  9 ------
 2 files changed, 25 insertions(+), 76 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 32dd068..c1bf7a3 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -36,61 +36,35 @@ double gUtilEpsilon = 1.0e-9;
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This returns the number of elements in the list.
 */
 int
 UTIL_sizeIndexList( int *index_list )
 {
-  int count, i;
-
-  count = 0;
+  int count = 0;
   
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return count;
-
-	 count++;
-    }
+  while ( index_list[count] >= 0 )
+    count++;
   
-  fprintf( stderr, "%s %s",
-		 "Non-terminated index list.",
-		 "This seems to be some internal coding error.\n" );
-  exit( 1 );
+  return count;
 
 }
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This appends the 'index' parameter to the end of the list.
 
    Assumes the input list index_list is already terminated with a -1
-   and that the size of this array is MAX_BEST_COUNT.
-
-   If the list is already full, this will print an error message and
-   halt the program, since this indicates and internal coding error.
+   and that the array has room for one more element.
 */
 void
 UTIL_appendIndexList( int *index_list, int index )
 {
   int i;
 
-  /* Find end of list to insert. */
-  i = 0;
-  while ( index_list[i] >= 0 )
-    {
-	 if ( i >= (MAX_BEST_COUNT-2))
-	   {
-		fprintf( stderr, "%s %s",
-			    "Ran off end of index list.",
-			    "This seems to be some internal coding error.\n" );
-		exit( 1 );
-	   }
-
-	 i++;
-    }
+  i = UTIL_sizeIndexList( index_list );
 
   index_list[i] = index;
   index_list[i+1] = -1;
@@ -103,13 +77,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
 {
   int i;
 
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return;
-	 
-	 fprintf( file, " %d", index_list[i] );
-    }
+  for ( i = 0; index_list[i] >= 0; i++ )
+    fprintf( file, " %d", index_list[i] );
   
 } /* UTIL_printIndexList */
 
@@ -124,8 +93,7 @@ UTIL_printIndexList( FILE *file, int *index_list )
   elsewhere.  The all_values is a 2D array of size NxM where N is the
   size of the belief list and M the size of the alpha list.  The best
   values is a 1D array of length N.  The best_alphas is a 2D array of
-  size NxP where P is a hard-coded limit on the list size arbitarily
-  set. It contains a list of pointers to the alphas in the list that
+  size Nx(M+1). It contains a list of pointers to the alphas in the list that
   reach the maximal value (one list for each belief point).  This list
   is NULL terminated.
 */
@@ -170,15 +138,6 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 				  best_value[b_num], 
 				  epsilon )) 
 	  {
-
-	    if ( best_count >= (MAX_BEST_COUNT - 1) )
-		 {
-		   fprintf( stderr, "%s %s",
-				  "Too many best vectors.",
-				  "Increase the MAX_BEST_COUNT variable in utils.h.\n" );
-		   exit( 1 );
-		 }
-	    
 	    best_alphas[b_num][best_count] = a_ptr;
 	    best_alphas[b_num][best_count+1] = NULL;
 	    best_count++;
@@ -307,7 +266,7 @@ UTIL_reportBeliefMapping( FILE *file,
     fprintf( file, "Belief[%d]:\n", b_num );
     
     fprintf( file, "  Best Alpha Indices: " );
-    for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
+    for ( i = 0; ; i++ ) {
 	 
 	 if ( alpha_best[b_num][i] == NULL )
 	   break;
@@ -411,7 +370,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +381,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
@@ -435,7 +394,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	 fprintf( file, "Belief[%d]:\n", b_num );
 
 	 fprintf( file, "  [%d] Best Alpha1 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
+	 for ( i = 0; ; i++ ) {
 	   
 	   if ( alpha1_best[b_num][i] == NULL )
 		break;
@@ -448,7 +407,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 			BELIEF_FILE_DECIMAL_PRECISION, alpha1_best_values[b_num] );
 
 	 fprintf( file, "  [%d] Best Alpha2 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
+	 for ( i = 0; ; i++ ) {
 	   
 	   if ( alpha2_best[b_num][i] == NULL )
 		break;
@@ -614,7 +573,6 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
     return;
   }
 
@@ -654,9 +612,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 								* sizeof( *alpha2_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha1_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha1_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha1_list ) + 1)
 								    * sizeof( AlphaList ) );
-    alpha2_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha2_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha2_list ) + 1)
 								    * sizeof( AlphaList ) );
   }
 
@@ -666,9 +624,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha1_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha1_list ); i++) {
-    alpha1_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 									  * sizeof( int ) );
-    alpha1_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 										 * sizeof( int ) );
   }
 
@@ -678,9 +636,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha2_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha2_list ); i++) {
-    alpha2_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 									  * sizeof( int ) );
-    alpha2_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 										 * sizeof( int ) );
   }
 
@@ -847,7 +805,7 @@ UTIL_mapBeliefList( char *belief_filename,
 								* sizeof( *alpha_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha_best[i] = (AlphaList *) XMALLOC( (sizeAlphaList( alpha_list ) + 1)
 								    * sizeof( AlphaList ) );
   }
 
@@ -863,9 +821,9 @@ UTIL_mapBeliefList( char *belief_filename,
 	uniquely and non_uniquely the best for a given belief state.
   */
   for ( i = 0; i < sizeAlphaList( alpha_list ); i++) {
-    alpha_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 									 * sizeof( int ) );
-    alpha_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_non_uniquely_best[i] = (int *) XMALLOC( (sizeBeliefList( belief_list ) + 1)
 										* sizeof( int ) );
   }
 
diff --git a/src/utils.h b/src/utils.h
index 303eab1..86dc8bf 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -13,15 +13,6 @@
 #ifndef UTILS_H
 #define UTILS_H
 
-/* Rather than worry about dynamically alocating arrays for tracking
-   ties in best comparisons, we will make an assumption that there are
-   at most a fixed number of ties.  This variable sets this amount and
-   the code that uses it should check to see if this is exceeding and
-   spit out a warning/error message if it has so that the user can
-   increase this value for their problem.
-*/
-#define MAX_BEST_COUNT   100
-
 extern void UTIL_mapBeliefList( char *belief_filename,
 						  char *alpha_filename,
 						  double epsilon,
-- 
2.43.0


From 5569d026d3acd24e5181b8d744a42099ad1b57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:58 +0000
Subject: [PATCH 32/62] fix: cycling linear programs are answered as infeasible

The dual simplex phase could repeat a sequence of bases until the loop
limit was reached, whereupon the program was taken for infeasible and
needed vectors were pruned. Choose by smallest index once a program
takes suspiciously long.
---
 src/lp-solve/solve.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..631df76 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -38,6 +38,13 @@ int gInversionProblem;
 #define SOLVE_LP_MAX_LOOP_COUNT   500
 unsigned int gSolveLpLoopCount;
 
+/* On degenerate problems the usual choices of the leaving and entering
+   variables can repeat a sequence of bases for ever. When a problem
+   takes more than this number of iterations (and some for its size)
+   the choices are made by smallest index, which cannot cycle. */
+#define SOLVE_LP_CYCLING_LOOP_COUNT   200
+static short SmallestIndex;
+
 static void ftran(lprec *lp, REAL *pcol)
 {
   int  i, j, k, r, *rowp;
@@ -735,6 +742,19 @@ static short rowdual(lprec *lp, int *row_nr)
 
   (*row_nr) = 0;
   minrhs = -lp->epsb;
+
+  if(SmallestIndex)
+    {
+      for(i = 1; i <= lp->rows; i++)
+	{
+	  f = lp->upbo[lp->bas[i]];
+	  if((lp->rhs[i] < minrhs) || (f - lp->rhs[i] < minrhs))
+	    if((*row_nr) == 0 || lp->bas[i] < lp->bas[(*row_nr)])
+	      (*row_nr) = i;
+	}
+      return((*row_nr) > 0);
+    }
+
   i = 0;
   artifs = FALSE;
   while(i < lp->rows && !artifs)
@@ -889,7 +909,8 @@ static short coldual(lprec *lp,
 	      pivot = d;
 	      (*colnr) = i;
 	    }
-	  else if((quot == theta) && (my_abs(d) > my_abs(pivot)))
+	  else if((quot == theta) && !SmallestIndex
+		  && (my_abs(d) > my_abs(pivot)))
 	    {
 	      pivot = d;
 	      (*colnr) = i;
@@ -1071,17 +1092,21 @@ static int solvelp(lprec *lp)
      testing and incrementing it to detect LPs that loop
      indefinitely. */
   gSolveLpLoopCount = 0;
+  SmallestIndex = FALSE;
   while(Status == RUNNING)
     {
       /* Added 1/9/99 by arc */
       gSolveLpLoopCount++;
-      if ( gSolveLpLoopCount == SOLVE_LP_MAX_LOOP_COUNT ) {
+      if(gSolveLpLoopCount > SOLVE_LP_CYCLING_LOOP_COUNT + 2 * lp->sum)
+        SmallestIndex = TRUE;
+
+      if ( gSolveLpLoopCount == SOLVE_LP_MAX_LOOP_COUNT + 10 * lp->sum ) {
          
         gLpSolveInstabilityCount++;
         if ( gShowInstabilityMessages ) 
           fprintf( stderr,
                    "*** solvelp() loop count reached %d ***\n",
-                   SOLVE_LP_MAX_LOOP_COUNT );
+                   gSolveLpLoopCount );
 
         Status = FAILURE;
         break;
-- 
2.43.0


From d9c08512c26ca273fce8cbe83482357de0d2a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 33/62] fix: dual simplex loses a bound flip when the step
 meets the other bound to rounding

The test whether the leaving variable goes to its upper bound was exact
while the one whether the basis changes at all has a tolerance. In
between, the basis changed with the leaving variable at the wrong bound,
and feasible programs were answered as infeasible.
---
 src/lp-solve/solve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index 631df76..a6c1149 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -1182,7 +1182,9 @@ static int solvelp(lprec *lp)
 	              if(f > 0)
 	                {
 	                  theta = f / (REAL) Pcol[row_nr];
-	                  if(theta <= lp->upbo[colnr])
+	                  /* the same test iteration() makes to decide
+			     whether the basis changes */
+	                  if(theta <= lp->upbo[colnr] + lp->epsb)
 	                    lp->lower[lp->bas[row_nr]] =
 			      !lp->lower[lp->bas[row_nr]];
 	                }
-- 
2.43.0


From e4ade14cb86d2105a40df28a1165a241d058c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 34/62] fix: epsilon pruning leaks a copy of the vectors

---
 src/parsimonious.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsimonious.c b/src/parsimonious.c
index 8aa950c..052537a 100644
--- a/src/parsimonious.c
+++ b/src/parsimonious.c
@@ -293,6 +293,8 @@ epsilonPrune( AlphaList list,
 
   param->epsilon_diff_of_last_prune = max_diff;
 
+  destroyAlphaList( orig_list );
+
   return( num_pruned );
 
 }  /* epsilonPrune */
-- 
2.43.0


From 98a01a4d3eff111d9e0af15895765f68c50da868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 35/62] fix: restricted-region and generalized incremental
 pruning leak a list header per cross sum

---
 src/inc-prune.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 76a3dd2..6860c56 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -383,13 +383,12 @@ generalizedIpCrossSum( AlphaList A,
       destroyAlphaList( compare_list );
 
     if ( shouldTerminateEarly( new_list, param ))
-	 {
-	   destroyAlphaList( search_list );
 	   break;
-	 }
 
   } /* while orig_list->length > 0 */
 
+  destroyAlphaList( search_list );
+
   return( new_list );
 
 }  /* generalizedIpCrossSum */
-- 
2.43.0


From 92fb4c8be2381231ebe062084309a89177436940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 36/62] fix: releasing a policy graph forgets its ids and marks

---
 src/pg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pg.c b/src/pg.c
index 7de0131..39f29cf 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -465,6 +465,8 @@ PG_Destructor( PG pg )
     XFREE( pg->next[n] );
   XFREE( pg->next );
   XFREE( pg->action );
+  XFREE( pg->id );
+  XFREE( pg->marked );
   XFREE( pg );
 
 }  /* PG_Destructor */
-- 
2.43.0


From 3623fef5566030342235ea277ff94a88d80ab948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 37/62] fix: ZLZ speedup leaks the value function before its
 last improvement

---
 src/zlz_speedup.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 2e787ce..7bdf00f 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -291,6 +291,8 @@ ZLZ_improve( AlphaList U_orig, double delta,
     
   } /* while not done */
 
+  destroyAlphaList( U_prev );
+
   dominationCheck( U_next );
 
   /* This special domination check prunes vectors from U_orig that are
-- 
2.43.0


From 1ab74d891ebee530d820aa0b71e7698ca904ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 38/62] fix: uniting with an empty list leaks its header

---
 src/alpha.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 64b0f10..0ec68ea 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1199,10 +1199,14 @@ unionTwoAlphaLists( AlphaList list, AlphaList other_list )
     all nodes in the other_list are moved to this list.
   */
   if (( list == NULL ) 
-      || ( other_list == NULL )
-      || ( other_list->length == 0 ))
+      || ( other_list == NULL ))
     return;
 
+  if ( other_list->length == 0 ) {
+    XFREE( other_list );
+    return;
+  }
+
   if ( list->length < 1 ) {
     list->head = other_list->head;
     list->length = other_list->length;
-- 
2.43.0


From ce62379386b1eab1da0816b6fc3415006ab3229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 39/62] fix: a copied vector shares its witness point with the
 original

---
 src/alpha.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 0ec68ea..92aed3a 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -431,9 +431,9 @@ duplicateAlphaNode( AlphaList node )
 {
   /*
     Allocates the memory and copies an AlphaList node. Copies pointers
-    if it has any, but not objects they point to. The slight exception
-    is the obs_source array.  It makes new space for this duplicate
-    node's obs_source and then copies the pointers.
+    if it has any, but not objects they point to. The slight exceptions
+    are the obs_source array and the witness point.  It makes new space
+    for this duplicate node's obs_source and then copies the pointers.
   */
   AlphaList new_node;
   int z;
@@ -451,7 +451,9 @@ duplicateAlphaNode( AlphaList node )
 
   new_node->first_source = node->first_source;
   new_node->second_source = node->second_source;
-  new_node->witness = node->witness;
+  /* Each node releases its own witness, so it cannot be shared. */
+  if ( node->witness != NULL )
+    addWitnessToAlphaNode( new_node, node->witness );
 
   /* If there is an obs_choice array, we will copy the pointers, but
      must make a new array to hold them. */
-- 
2.43.0


From e0be1e84d0da41e4fd4c81075cef0cf7f135b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 40/62] fix: uniting with an empty list of points leaks its
 header

---
 src/double-vector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/double-vector.c b/src/double-vector.c
index 74875ef..76307df 100644
--- a/src/double-vector.c
+++ b/src/double-vector.c
@@ -726,10 +726,14 @@ DV_unionTwoLists( DoubleVectorList list, DoubleVectorList other_list )
     all nodes in the other_list are moved to this list.
   */
   if (( list == NULL ) 
-      || ( other_list == NULL )
-      || ( other_list->length == 0 ))
+      || ( other_list == NULL ))
     return;
 
+  if ( other_list->length == 0 ) {
+    DV_destroyList( other_list );
+    return;
+  }
+
   if ( list->length < 1 ) {
     list->head = other_list->head;
     list->length = other_list->length;
-- 
2.43.0


From ef7debff5fe90fae3b2ce18344f1a63bba48a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 41/62] fix: linear programs pivot on tiny elements

---
 src/lp-solve/solve.c | 49 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index a6c1149..4467e44 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -609,6 +609,8 @@ static short colprim(lprec *lp,
 	    {
 	      dpiv = f;
 	      (*colnr) = i;
+	      if(SmallestIndex)
+		break;
 	    }
 	}
   if(lp->trace) {
@@ -635,10 +637,15 @@ static short rowprim(lprec *lp,
 		     REAL *pcol)
 {
   int  i;
-  REAL f=1, quot; 
+  REAL f=1, quot, limit, pivot, slack; 
 
   (*row_nr) = 0;
   (*theta) = lp->infinite;
+
+  /* how far the variable can go when each basic variable may pass its
+     bound by the tolerance that is also used for rounding them */
+  slack = SmallestIndex ? 0 : lp->epsb;
+  limit = lp->infinite;
   for(i = 1; i <= lp->rows; i++)
     {
       f = pcol[i];
@@ -653,15 +660,39 @@ static short rowprim(lprec *lp,
 	    {
 	      quot = 2 * lp->infinite;
 	      if(f > 0)
-		quot = lp->rhs[i] / (REAL) f;
+		quot = (lp->rhs[i] + slack) / (REAL) f;
 	      else if(lp->upbo[lp->bas[i]] < lp->infinite)
-		quot = (lp->rhs[i] - lp->upbo[lp->bas[i]]) / (REAL) f;
-	      my_round(quot, lp->epsel);
-	      if(quot < (*theta))
-		{
-		  (*theta) = quot;
-		  (*row_nr) = i;
-		}
+		quot = (lp->rhs[i] - lp->upbo[lp->bas[i]] - slack) / (REAL) f;
+	      if(SmallestIndex)
+		my_round(quot, lp->epsel);
+	      if(quot < limit)
+		limit = quot;
+	    }
+	}
+    }
+
+  /* of the rows that block before that, the largest pivot: a tiny one
+     makes a basis in which the rounding of the rhs counts for much */
+  pivot = 0;
+  for(i = 1; i <= lp->rows; i++)
+    {
+      f = pcol[i];
+      if((f != 0) && (my_abs(f) >= Trej))
+	{
+	  quot = 2 * lp->infinite;
+	  if(f > 0)
+	    quot = lp->rhs[i] / (REAL) f;
+	  else if(lp->upbo[lp->bas[i]] < lp->infinite)
+	    quot = (lp->rhs[i] - lp->upbo[lp->bas[i]]) / (REAL) f;
+	  my_round(quot, lp->epsel);
+	  if((quot <= limit) && (quot < lp->infinite)
+	     && (SmallestIndex
+		 ? ((*row_nr) == 0 || lp->bas[i] < lp->bas[(*row_nr)])
+		 : (my_abs(f) > pivot)))
+	    {
+	      pivot = my_abs(f);
+	      (*theta) = quot;
+	      (*row_nr) = i;
 	    }
 	}
     }
-- 
2.43.0


From 6f20a6eafa15898663238e99f75b0efd38d3e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 42/62] fix: an interrupt before the first epoch aborts the run

---
 src/pomdp-solve.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 1b100f2..677bd9c 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1161,9 +1161,11 @@ solvePomdp( PomdpSolveParams param )
      point there are obs_source pointers from next_alpha_list into
      prev_alpha_list, so free'ing prev_alpha_list first would leave
      pointers to nowhere.  Thus, we free them in the other order to
-     show this dependency explicitly. */
+     show this dependency explicitly. There is no previous one if we
+     were interrupted before the first epoch. */
   destroyAlphaList( next_alpha_list );
-  destroyAlphaList( prev_alpha_list );
+  if ( prev_alpha_list != NULL )
+    destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
      that we are done, remove it. */
-- 
2.43.0


From ee7b3df84417069575616b79e6632901d2d0f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 43/62] fix: the time limit does not stop the run

---
 src/signal-handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..7e913f9 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -175,6 +175,8 @@ signalHandlerSIGVTALRM( int sig )
 
   reportSIGVTALRM( gInterruptParamContext );
    
+  exit ( 0 );
+
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
 static void 
-- 
2.43.0


From d776f106fe03bc64c836f4496f0282203a8a6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 44/62] fix: the time limit can strike while a finished run
 tidies up

---
 src/pomdp-solve.c    |  1 +
 src/signal-handler.c | 23 +++++++++++++++++++++++
 src/signal-handler.h |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 677bd9c..a2f3c1d 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1150,6 +1150,7 @@ solvePomdp( PomdpSolveParams param )
   }  /* while( done == FALSE && gInterrupt = FALSE ) */
   
   gInterrupt = FALSE;
+  clearIntervalTimer();
   
   /* Give some final tally information, such as solution location and
      time. Also write the solution files, but note that this must be
diff --git a/src/signal-handler.c b/src/signal-handler.c
index 7e913f9..6474513 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -221,6 +221,29 @@ setUpIntervalTimer( int secs )
 }  /* setUpIntervalTimer */
 /**********************************************************************/
 void 
+clearIntervalTimer( ) 
+{
+  /*  
+      Once there is a solution to be written out, the time limit no
+      longer applies: the handler would cut short the writing, or use
+      things that are being deallocated.
+  */
+   struct itimerval value;
+
+   value.it_interval.tv_sec = 0;
+   value.it_interval.tv_usec = 0;
+
+   value.it_value.tv_sec = 0;
+   value.it_value.tv_usec = 0;
+
+   if ( setitimer( ITIMER_VIRTUAL, &value, NULL ) )
+      Abort( "Trouble in function call to setitimer().\n");
+
+   signal(SIGVTALRM, SIG_IGN);
+
+}  /* clearIntervalTimer */
+/**********************************************************************/
+void 
 setMemoryLimit( int mem_size_limit ) 
 {
   /* 
diff --git a/src/signal-handler.h b/src/signal-handler.h
index 86a2734..fbc1e82 100644
--- a/src/signal-handler.h
+++ b/src/signal-handler.h
@@ -36,6 +36,7 @@ extern int gInterrupt;
 /* If the -brief option is specified, then we set a timer for the
    maximum number of seconds we will allow the program to run for.  */
 extern void setUpIntervalTimer( int secs );
+extern void clearIntervalTimer(  );
 
 /* Sets the hard virtual memory size limit.  If process exceeds this
    limit, then the SIGSEGV signal will be generated.  We also try to
-- 
2.43.0


From b7baa9d2c9fd6c6610331e8c21fc287285dfb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 45/62] fix: files that cannot be completely written go
 unreported

---
 src/alpha.c  |  2 +-
 src/belief.c |  2 +-
 src/global.c | 18 ++++++++++++++++++
 src/global.h |  4 ++++
 src/pg.c     |  2 +-
 src/utils.c  |  6 ++++++
 6 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92aed3a..dfa97ba 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1189,7 +1189,7 @@ saveAlphaList( AlphaList list, char *filename )
    
    writeAlphaList( file, list );
    
-   fclose( file );
+   closeOutputFile( file, filename );
 }  /* saveAlphaList */
 /**********************************************************************/
 void 
diff --git a/src/belief.c b/src/belief.c
index aa8013d..4a8c65d 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -152,7 +152,7 @@ saveBeliefList( BeliefList list, char *filename )
    
    writeBeliefList( file, list );
    
-   fclose( file );
+   closeOutputFile( file, filename );
 }  /* saveBeliefList */
 /**********************************************************************/
 void 
diff --git a/src/global.c b/src/global.c
index fad5f43..a9146fb 100644
--- a/src/global.c
+++ b/src/global.c
@@ -103,6 +103,24 @@ removeFile( char *filename )
 }  /* removeFile */
 /**********************************************************************/
 void 
+closeOutputFile( FILE *file, char *filename ) 
+{
+  /* 
+     Closes a file that was being written, and reports if not all of it
+     could be written.
+  */
+  int failed;
+
+  failed = ferror( file );
+
+  if (( fclose( file ) != 0 ) || failed )
+    fprintf( gStdErrFile,
+	     "** Error: The file: %s could not be completely written.\n",
+	     filename );
+
+}  /* closeOutputFile */
+/**********************************************************************/
+void 
 strupr ( char *string )
 {
   /* 
diff --git a/src/global.h b/src/global.h
index e5e93c8..b4f519f 100644
--- a/src/global.h
+++ b/src/global.h
@@ -282,4 +282,8 @@ extern int getPid(  );
    this gets ported to another platform.  */
 extern void removeFile( char *filename );
 
+/* Closes a file that was being written, and reports if not all of it
+   could be written. */
+extern void closeOutputFile( FILE *file, char *filename );
+
 #endif
diff --git a/src/pg.c b/src/pg.c
index 39f29cf..b936f2d 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -581,7 +581,7 @@ PG_write( PG pg, char *filename  )
   
   PG_printf( pg, file );
   
-  fclose( file );
+  closeOutputFile( file, filename );
 }  /* PG_write */
 
 /**********************************************************************/
diff --git a/src/utils.c b/src/utils.c
index c1bf7a3..713a115 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -738,6 +738,8 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   XFREE( alpha2_uniquely_best );
   XFREE( alpha2_non_uniquely_best );
 
+  closeOutputFile( file, out_filename );
+
 } /* UTIL_fooNeedsAName */
 
 
@@ -876,6 +878,8 @@ UTIL_mapBeliefList( char *belief_filename,
   destroyBeliefList( belief_list );
   destroyAlphaList( alpha_list );
 
+  closeOutputFile( file, map_filename );
+
 }  /* UTIL_mapBeliefList */
 
 /**********************************************************************/
@@ -1341,6 +1345,8 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
   destroyAlphaList( alpha1_list );
   destroyAlphaList( alpha2_list );
 
+  closeOutputFile( file, out_filename );
+
 }  /* UTIL_compareAlphaFiles */
 
 /**********************************************************************/
-- 
2.43.0


From e87b42a5d9c0a465f61cf62994ee1d602432e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 46/62] fix: pomdp-tools crashes when an error strikes while
 its options are read

---
 src/pomdp-tools-main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-tools-main.c b/src/pomdp-tools-main.c
index 69ecd87..538557d 100644
--- a/src/pomdp-tools-main.c
+++ b/src/pomdp-tools-main.c
@@ -38,10 +38,10 @@ int main( int argc, char **argv )
   PomdpToolsProgOptions tool_options;
   PomdpSolveParams solve_params;
 
-  tool_options = POMDP_TOOLS_OPTS_create( argc, argv );
-
   gStdErrFile = stderr;
 
+  tool_options = POMDP_TOOLS_OPTS_create( argc, argv );
+
   solve_params = newPomdpSolveParams();
 
   /* Manually set these. */
-- 
2.43.0


From 59a98ceb6f9acb1123c7053b772e5530c8098c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 47/62] fix: pomdp-solve crashes when memory runs out at its
 very start

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 0eb81c8..8fda6fa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -49,6 +49,9 @@ int
 main( int argc, char **argv ) {
   PomdpSolveParams param;
   
+  /* Before anything that might have an error to report. */
+  gStdErrFile = stderr;
+
   /* Handles configuration file and command line options. */
   param = parseCmdLineAndCfgFile( argc, argv );
 
-- 
2.43.0


From cc50440383903c4bb498c3c4ea7bf993c405a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 48/62] fix: LASPack crashes while reporting a lack of memory

---
 src/laspack/errhandl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/laspack/errhandl.c b/src/laspack/errhandl.c
index 874c2fa..fa3fd6d 100644
--- a/src/laspack/errhandl.c
+++ b/src/laspack/errhandl.c
@@ -40,7 +40,7 @@ void LASError(LASErrIdType ErrId, char *ProcName, char *Object1Name,
     if (LASObject2Name != NULL)
         free(LASObject2Name);
     if (LASObject3Name != NULL)
-        free(LASObject2Name);
+        free(LASObject3Name);
     LASProcName = NULL;
     LASObject1Name = NULL;
     LASObject2Name = NULL;
@@ -65,8 +65,6 @@ void LASError(LASErrIdType ErrId, char *ProcName, char *Object1Name,
             if (LASObject3Name != NULL)
                 strcpy(LASObject3Name, Object3Name);
 	}
-    } else {
-        strcpy(LASProcName, "(procedure unknown)");
     }
 
 }
-- 
2.43.0


From 621bbc4758e71897051115c85dc93561671742fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 49/62] fix: an error while reading a file is taken for its end

---
 src/alpha.c       | 2 +-
 src/belief.c      | 2 +-
 src/config-file.c | 2 ++
 src/pg.c          | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index dfa97ba..760fe3d 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1115,7 +1115,7 @@ readAlphaList( char *filename, int max_alphas )
    while( max_alphas != 0 ) {
      max_alphas--;
      num_read = fscanf( file, "%d", &a );
-     if ( num_read == EOF )
+     if (( num_read == EOF ) && ( ! ferror( file )))
        break;
      alpha = newAlpha();
      
diff --git a/src/belief.c b/src/belief.c
index 4a8c65d..d20de3f 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -217,7 +217,7 @@ readBeliefList( char *filename, int max )
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if (( num_read == EOF ) && ( i == 0 ))
+	    if (( num_read == EOF ) && ( i == 0 ) && ( ! ferror( file )))
 		 goto RBL_DONE;
 
 	    fprintf(gStdErrFile, 
diff --git a/src/config-file.c b/src/config-file.c
index a778a2c..45b9bcd 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -277,6 +277,8 @@ CF_fscanf( FILE* file )
 	   } /* inner loop over chars of a line */
     }  /* outer loop over lines */
   
+  if ( ferror( file ))
+    cfg->error_count += 1;
 
   return cfg;
 } /* CF_fscanf */
diff --git a/src/pg.c b/src/pg.c
index b936f2d..e661170 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -182,7 +182,7 @@ LPG_scanf( FILE *file, int verify ) {
    while( 1 ) {
 
      num_read = fscanf( file, "%d", &id );
-     if( num_read == EOF )
+     if(( num_read == EOF ) && ( ! ferror( file )))
        break;
 
      if(( num_read != 1 )
-- 
2.43.0


From 5ed33295e35ef5785759fe476e79de7bf4883104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 50/62] fix: an incomplete report goes unreported

---
 src/pomdp-solve.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index a2f3c1d..1cddf40 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -228,8 +228,11 @@ cleanUpPomdpSolve( PomdpSolveParams param )
   /* Deallocate the POMDP problem parameters. */
   cleanUpPomdp();
 
-  /* Close the reporting file. */
-  fclose( param->report_file );
+  /* Close the reporting file.  Errors can only be reported elsewhere. */
+  gStdErrFile = stderr;
+  closeOutputFile( param->report_file,
+		   param->report_file == stdout 
+		   ? "standard output" : param->opts->report_filename );
   
   /* Don't need this structure anymore. */ 
   destroyPomdpSolveParams ( param );
-- 
2.43.0


From e95a49c38e5af86e5cb1231d38807adc2d145456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 51/62] fix: incomplete standard output of pomdp-tools goes
 unreported

---
 src/pomdp-tools-main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pomdp-tools-main.c b/src/pomdp-tools-main.c
index 538557d..8a349c5 100644
--- a/src/pomdp-tools-main.c
+++ b/src/pomdp-tools-main.c
@@ -285,5 +285,7 @@ int main( int argc, char **argv )
   /* This will also take care of deallocating the 'opts' structure. */
   destroyPomdpSolveParams( solve_params );
 
+  closeOutputFile( stdout, "standard output" );
+
   return 0;
 } /* main */
-- 
2.43.0


From 8e06488748b35de992bda41b34c1188c984e26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 52/62] fix: LASPack goes on with released memory when memory
 runs out

---
 src/laspack/eigenval.c |  9 ++++---
 src/laspack/factor.c   |  9 ++++---
 src/laspack/itersolv.c | 15 ++++++-----
 src/laspack/matrix.c   | 13 ++++-----
 src/laspack/operats.c  | 61 +++++++++++++++++++++---------------------
 src/laspack/qmatrix.c  | 29 ++++++++++----------
 src/laspack/vector.c   |  7 ++---
 7 files changed, 75 insertions(+), 68 deletions(-)

diff --git a/src/laspack/eigenval.c b/src/laspack/eigenval.c
index 6ea9827..66c8b0f 100644
--- a/src/laspack/eigenval.c
+++ b/src/laspack/eigenval.c
@@ -21,6 +21,7 @@
 #include "laspack/errhandl.h"
 #include "laspack/operats.h"
 #include "laspack/rtc.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 typedef struct {
@@ -60,7 +61,7 @@ double GetMinEigenval(QMatrix *A, PrecondProcType PrecondProc, double OmegaPreco
         EigenvalInfo = (EigenvalInfoType *)*(Q_EigenvalInfo(A));
         /* if eigenvalues not estimated yet, ... */
         if (EigenvalInfo == NULL) {
-            EigenvalInfo = (EigenvalInfoType *)malloc(sizeof(EigenvalInfoType));
+            EigenvalInfo = (EigenvalInfoType *)XA_malloc(sizeof(EigenvalInfoType));
             if (EigenvalInfo != NULL) {
 	        *(Q_EigenvalInfo(A)) = (void *)EigenvalInfo;
                 EstimEigenvals(A, PrecondProc, OmegaPrecond);
@@ -99,7 +100,7 @@ double GetMaxEigenval(QMatrix *A, PrecondProcType PrecondProc, double OmegaPreco
         EigenvalInfo = (EigenvalInfoType *)*(Q_EigenvalInfo(A));
         /* if eigenvalues not estimated yet, ... */
         if (EigenvalInfo == NULL) {
-            EigenvalInfo = (EigenvalInfoType *)malloc(sizeof(EigenvalInfoType));
+            EigenvalInfo = (EigenvalInfoType *)XA_malloc(sizeof(EigenvalInfoType));
             if (EigenvalInfo != NULL) {
 	        *(Q_EigenvalInfo(A)) = (void *)EigenvalInfo;
                 EstimEigenvals(A, PrecondProc, OmegaPrecond);
@@ -157,8 +158,8 @@ static void EstimEigenvals(QMatrix *A, PrecondProcType PrecondProc, double Omega
         V_Constr(&p, "p", Dim, Normal, True);
    
     if (LASResult() == LASOK) {
-        Alpha = (double *)malloc((Dim + 1) * sizeof(double));
-        Beta = (double *)malloc((Dim + 1) * sizeof(double));
+        Alpha = (double *)XA_malloc((Dim + 1) * sizeof(double));
+        Beta = (double *)XA_malloc((Dim + 1) * sizeof(double));
         if (Alpha != NULL && Beta != NULL) {
 	    j = 0;
             
diff --git a/src/laspack/factor.c b/src/laspack/factor.c
index 2102cbd..1bca8f1 100644
--- a/src/laspack/factor.c
+++ b/src/laspack/factor.c
@@ -18,6 +18,7 @@
 #include "laspack/factor.h"
 #include "laspack/errhandl.h"
 #include "laspack/qmatrix.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 #define PEN_FACT 1e-4
@@ -69,7 +70,7 @@ QMatrix *ILUFactor(QMatrix *Q)
             if (LASResult() == LASOK && *Q->ILU->ElSorted && !(*Q->ILU->ZeroInDiag)) {
                 /* allocate an auxiliary vector for index mapping */
                 AllocOK = True;
-                IndexMapp = (size_t *)malloc((Dim + 1) * sizeof(size_t));
+                IndexMapp = (size_t *)XA_malloc((Dim + 1) * sizeof(size_t));
                 if (IndexMapp == NULL) {
                     AllocOK = False;
                 } else {
@@ -79,12 +80,12 @@ QMatrix *ILUFactor(QMatrix *Q)
                 }
                 /* allocate a dense matrix L for elements which have influence
                    on new elements arising during the factorization */
-                L = (Real **)malloc((MaxLen + 1) * sizeof(Real *));
+                L = (Real **)XA_malloc((MaxLen + 1) * sizeof(Real *));
                 if (L == NULL) {
                     AllocOK = False;
                 } else {
                     for (j = 0; j <= MaxLen; j++) {
-                        L[j] = (Real *)malloc((MaxLen + 1) * sizeof(Real));
+                        L[j] = (Real *)XA_malloc((MaxLen + 1) * sizeof(Real));
                         if (L[j] == NULL)
                             AllocOK = False;
                     }
@@ -285,7 +286,7 @@ QMatrix *ILUFactor(QMatrix *Q)
         }
         
         if (LASResult() == LASOK) {
-	    QILUName = (char *)malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
+	    QILUName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
 	    if (QILUName != NULL) {
 	        sprintf(QILUName, "ILU(%s)", Q_GetName(Q));
 		Q_SetName(Q->ILU, QILUName);
diff --git a/src/laspack/itersolv.c b/src/laspack/itersolv.c
index 039a4c0..b22f06d 100644
--- a/src/laspack/itersolv.c
+++ b/src/laspack/itersolv.c
@@ -21,6 +21,7 @@
 #include "laspack/errhandl.h"
 #include "laspack/operats.h"
 #include "laspack/rtc.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 /* number of GMRES steps bevore restart */
@@ -588,32 +589,32 @@ Vector *GMRESIter(QMatrix *A, Vector *x, Vector *b, int MaxIter,
     
     /* allocation of matrix H and vectors y, s, c1 and c2 */
     AllocOK = True;
-    h = (double **)malloc((GMRESSteps + 1) * sizeof(double *));
+    h = (double **)XA_malloc((GMRESSteps + 1) * sizeof(double *));
     if (h == NULL) {
         AllocOK = False;
     } else {
         for (i = 1; i <= GMRESSteps; i++) {
-            h[i] = (double *)malloc((GMRESSteps + 2) * sizeof(double));
+            h[i] = (double *)XA_malloc((GMRESSteps + 2) * sizeof(double));
             if (h[i] == NULL)
                 AllocOK = False;
 	}
     }
-    y = (double *)malloc((GMRESSteps + 1) * sizeof(double));
+    y = (double *)XA_malloc((GMRESSteps + 1) * sizeof(double));
     if (y == NULL)
         AllocOK = False;
-    s = (double *)malloc((GMRESSteps + 2) * sizeof(double));
+    s = (double *)XA_malloc((GMRESSteps + 2) * sizeof(double));
     if (s == NULL)
         AllocOK = False;
-    c1 = (double *)malloc((GMRESSteps + 1) * sizeof(double));
+    c1 = (double *)XA_malloc((GMRESSteps + 1) * sizeof(double));
     if (c1 == NULL)
         AllocOK = False;
-    c2 = (double *)malloc((GMRESSteps + 1) * sizeof(double));
+    c2 = (double *)XA_malloc((GMRESSteps + 1) * sizeof(double));
     if (c2 == NULL)
         AllocOK = False;
 
     /* ... and vectors u */    
     Dim = Q_GetDim(A);
-    v = (Vector *)malloc((GMRESSteps + 2) * sizeof(Vector));
+    v = (Vector *)XA_malloc((GMRESSteps + 2) * sizeof(Vector));
     if (v == NULL)
         AllocOK = False;
     else
diff --git a/src/laspack/matrix.c b/src/laspack/matrix.c
index 7d62240..7f87073 100644
--- a/src/laspack/matrix.c
+++ b/src/laspack/matrix.c
@@ -20,6 +20,7 @@
 
 #include "laspack/matrix.h"
 #include "laspack/errhandl.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 static ElType ZeroEl = { 0, 0.0 };
@@ -32,7 +33,7 @@ void M_Constr(Matrix *M, char *Name, size_t RowDim, size_t ClmDim,
 {
     size_t Dim, RoC;
 
-    M->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+    M->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
     if (M->Name != NULL)
         strcpy(M->Name, Name);
     else
@@ -50,9 +51,9 @@ void M_Constr(Matrix *M, char *Name, size_t RowDim, size_t ClmDim,
                 Dim = RowDim;
             else
                 Dim = ClmDim;
-	    M->Len = (size_t *)malloc((Dim + 1) * sizeof(size_t));
-	    M->El = (ElType **)malloc((Dim + 1) * sizeof(ElType *));
-	    M->ElSorted = (Boolean *)malloc(sizeof(Boolean));
+	    M->Len = (size_t *)XA_malloc((Dim + 1) * sizeof(size_t));
+	    M->El = (ElType **)XA_malloc((Dim + 1) * sizeof(ElType *));
+	    M->ElSorted = (Boolean *)XA_malloc(sizeof(Boolean));
 	    if (M->Len != NULL && M->El != NULL) {
                 for (RoC = 1; RoC <= Dim; RoC++) {
                     M->Len[RoC] = 0;
@@ -110,7 +111,7 @@ void M_SetName(Matrix *M, char *Name)
 {
     if (LASResult() == LASOK) {
         free(M->Name);
-        M->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+        M->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
         if (M->Name != NULL)
             strcpy(M->Name, Name);
         else
@@ -184,7 +185,7 @@ void M_SetLen(Matrix *M, size_t RoC, size_t Len)
             }
 
             if (Len > 0) {
-                PtrEl = (ElType *)malloc(Len * sizeof(ElType));
+                PtrEl = (ElType *)XA_malloc(Len * sizeof(ElType));
                 M->El[RoC] = PtrEl;
 
                 if (PtrEl != NULL) {
diff --git a/src/laspack/operats.c b/src/laspack/operats.c
index 554b806..3687d2f 100644
--- a/src/laspack/operats.c
+++ b/src/laspack/operats.c
@@ -19,6 +19,7 @@
 
 #include "laspack/operats.h"
 #include "laspack/errhandl.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 /* the following macro allows to optimize vector operations
@@ -216,8 +217,8 @@ Vector *Add_VV(Vector *V1, Vector *V2)
     if (LASResult() == LASOK) {
         if (V1->Dim == V2->Dim) {
             Dim = V1->Dim;
-            VRes = (Vector *)malloc(sizeof(Vector));
-	    VResName = (char *)malloc((strlen(V_GetName(V1)) + strlen(V_GetName(V2)) + 10)
+            VRes = (Vector *)XA_malloc(sizeof(Vector));
+	    VResName = (char *)XA_malloc((strlen(V_GetName(V1)) + strlen(V_GetName(V2)) + 10)
 		           * sizeof(char));
             if (VRes != NULL && VResName != NULL) {
 	        sprintf(VResName, "%s + %s", V_GetName(V1), V_GetName(V2));
@@ -286,8 +287,8 @@ QMatrix *Add_QQ(QMatrix *Q1, QMatrix *Q2)
                 Q1->ElOrder == Q2->ElOrder &&
                 Q1->Len == Q2->Len &&
                 Q1->El == Q2->El) {
-                QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	        QResName = (char *)malloc((strlen(Q_GetName(Q1)) + strlen(Q_GetName(Q1)) + 10)
+                QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	        QResName = (char *)XA_malloc((strlen(Q_GetName(Q1)) + strlen(Q_GetName(Q1)) + 10)
 		           * sizeof(char));
                 if (QRes != NULL && QResName != NULL) {
 	            sprintf(QResName, "%s + %s", Q_GetName(Q1), Q_GetName(Q2));
@@ -352,8 +353,8 @@ Vector *Sub_VV(Vector *V1, Vector *V2)
     if (LASResult() == LASOK) {
         if (V1->Dim == V2->Dim) {
             Dim = V1->Dim;
-            VRes = (Vector *)malloc(sizeof(Vector));
-	    VResName = (char *)malloc((strlen(V_GetName(V1)) + strlen(V_GetName(V2)) + 10)
+            VRes = (Vector *)XA_malloc(sizeof(Vector));
+	    VResName = (char *)XA_malloc((strlen(V_GetName(V1)) + strlen(V_GetName(V2)) + 10)
 		           * sizeof(char));
             if (VRes != NULL && VResName != NULL) {
 	        sprintf(VResName, "%s - %s", V_GetName(V1), V_GetName(V2));
@@ -422,8 +423,8 @@ QMatrix *Sub_QQ(QMatrix *Q1, QMatrix *Q2)
                 Q1->ElOrder == Q2->ElOrder &&
                 Q1->Len == Q2->Len &&
                 Q1->El == Q2->El) {
-                QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	        QResName = (char *)malloc((strlen(Q_GetName(Q1)) + strlen(Q_GetName(Q1)) + 10)
+                QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	        QResName = (char *)XA_malloc((strlen(Q_GetName(Q1)) + strlen(Q_GetName(Q1)) + 10)
 		           * sizeof(char));
                 if (QRes != NULL && QResName != NULL) {
 	            sprintf(QResName, "%s - %s", Q_GetName(Q1), Q_GetName(Q2));
@@ -482,8 +483,8 @@ Vector *Mul_SV(double S, Vector *V)
     V_Lock(V);
     
     if (LASResult() == LASOK) {
-        VRes = (Vector *)malloc(sizeof(Vector));
-	VResName = (char *)malloc((strlen(V_GetName(V)) + 20) * sizeof(char));
+        VRes = (Vector *)XA_malloc(sizeof(Vector));
+	VResName = (char *)XA_malloc((strlen(V_GetName(V)) + 20) * sizeof(char));
         if (VRes != NULL && VResName != NULL) {
 	    sprintf(VResName, "%12.5e * (%s)", S, V_GetName(V));
             V_Constr(VRes, VResName, V->Dim, Tempor, False);
@@ -522,8 +523,8 @@ Matrix *Mul_SM(double S, Matrix *M)
     M_Lock(M);
 
     if (LASResult() == LASOK) {
-        MRes = (Matrix *)malloc(sizeof(Matrix));
-	MResName = (char *)malloc((strlen(M_GetName(M)) + 20) * sizeof(char));
+        MRes = (Matrix *)XA_malloc(sizeof(Matrix));
+	MResName = (char *)XA_malloc((strlen(M_GetName(M)) + 20) * sizeof(char));
         if (MRes != NULL && MResName != NULL) {
 	    sprintf(MResName, "%12.5e * (%s)", S, M_GetName(M));
             M_Constr(MRes, MResName,  M->RowDim, M->ClmDim, M->ElOrder, Tempor, False);
@@ -560,8 +561,8 @@ QMatrix *Mul_SQ(double S, QMatrix *Q)
     Q_Lock(Q);
     
     if (LASResult() == LASOK) {
-        QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	QResName = (char *)malloc((strlen(Q_GetName(Q)) + 20) * sizeof(char));
+        QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	QResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 20) * sizeof(char));
         if (QRes != NULL && QResName != NULL) {
 	    sprintf(QResName, "%12.5e * (%s)", S, Q_GetName(Q));
             Q_Constr(QRes, QResName, Q->Dim, Q->Symmetry, Q->ElOrder, Tempor, False);
@@ -659,8 +660,8 @@ Vector *Mul_MV(Matrix *M, Vector *V)
 	if (M->ClmDim == V->Dim) {
             RowDim = M->RowDim;
             ClmDim = M->ClmDim;
-	    VRes = (Vector *)malloc(sizeof(Vector));
-	    VResName = (char *)malloc((strlen(M_GetName(M)) + strlen(V_GetName(V)) + 10)
+	    VRes = (Vector *)XA_malloc(sizeof(Vector));
+	    VResName = (char *)XA_malloc((strlen(M_GetName(M)) + strlen(V_GetName(V)) + 10)
 		           * sizeof(char));
             if (VRes != NULL && VResName != NULL) {
 	        sprintf(VResName, "(%s) * (%s)", M_GetName(M), V_GetName(V));
@@ -759,8 +760,8 @@ Vector *Mul_QV(QMatrix *Q, Vector *V)
     if (LASResult() == LASOK) {
 	if (Q->Dim == V->Dim) {
 	    Dim = V->Dim;
-	    VRes = (Vector *)malloc(sizeof(Vector));
-	    VResName = (char *)malloc((strlen(Q_GetName(Q)) + strlen(V_GetName(V)) + 10)
+	    VRes = (Vector *)XA_malloc(sizeof(Vector));
+	    VResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + strlen(V_GetName(V)) + 10)
 		           * sizeof(char));
             if (VRes != NULL && VResName != NULL) {
 	        sprintf(VResName, "(%s) * (%s)", Q_GetName(Q), V_GetName(V));
@@ -1025,8 +1026,8 @@ Vector *MulInv_QV(QMatrix *Q, Vector *V)
     if (LASResult() == LASOK) {
 	if (Q->Dim == V->Dim) {
 	    Dim = V->Dim;
-	    VRes = (Vector *)malloc(sizeof(Vector));
-	    VResName = (char *)malloc((strlen(Q_GetName(Q)) + strlen(V_GetName(V)) + 20)
+	    VRes = (Vector *)XA_malloc(sizeof(Vector));
+	    VResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + strlen(V_GetName(V)) + 20)
 		           * sizeof(char));
             if (VRes != NULL && VResName != NULL) {
 	        sprintf(VResName, "(%s)^(-1) * (%s)", Q_GetName(Q), V_GetName(V));
@@ -1228,8 +1229,8 @@ Matrix *Transp_M(Matrix *M)
     M_Lock(M);
     
     if (LASResult() == LASOK) {
-        MRes = (Matrix *)malloc(sizeof(Matrix));
-	MResName = (char *)malloc((strlen(M_GetName(M)) + 10) * sizeof(char));
+        MRes = (Matrix *)XA_malloc(sizeof(Matrix));
+	MResName = (char *)XA_malloc((strlen(M_GetName(M)) + 10) * sizeof(char));
         if (MRes != NULL && MResName != NULL) {
 	    sprintf(MResName, "(%s)^T", M_GetName(M));
             M_Constr(MRes, MResName,  M->ClmDim, M->RowDim, M->ElOrder, Tempor, False);
@@ -1274,8 +1275,8 @@ QMatrix *Transp_Q(QMatrix *Q)
     Q_Lock(Q);
     
     if (LASResult() == LASOK) {
-        QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	QResName = (char *)malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
+        QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	QResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
         if (QRes != NULL && QResName != NULL) {
 	    sprintf(QResName, "(%s)^T", Q_GetName(Q));
             Q_Constr(QRes, QResName, Q->Dim, Q->Symmetry, Q->ElOrder, Tempor, False);
@@ -1341,8 +1342,8 @@ QMatrix *Diag_Q(QMatrix *Q)
     Q_Lock(Q);
     
     if (LASResult() == LASOK) {
-        QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	QResName = (char *)malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
+        QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	QResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
         if (QRes != NULL && QResName != NULL) {
 	    sprintf(QResName, "Diag(%s)", Q_GetName(Q));
             Q_Constr(QRes, QResName, Q->Dim, Q->Symmetry, Q->ElOrder, Tempor, False);
@@ -1395,8 +1396,8 @@ QMatrix *Upper_Q(QMatrix *Q)
     Q_Lock(Q);
     
     if (LASResult() == LASOK) {
-        QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	QResName = (char *)malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
+        QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	QResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
         if (QRes != NULL && QResName != NULL) {
 	    sprintf(QResName, "Upper(%s)", Q_GetName(Q));
             Q_Constr(QRes, QResName, Q->Dim, Q->Symmetry, Q->ElOrder, Tempor, False);
@@ -1449,8 +1450,8 @@ QMatrix *Lower_Q(QMatrix *Q)
     Q_Lock(Q);
     
     if (LASResult() == LASOK) {
-        QRes = (QMatrix *)malloc(sizeof(QMatrix));
-	QResName = (char *)malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
+        QRes = (QMatrix *)XA_malloc(sizeof(QMatrix));
+	QResName = (char *)XA_malloc((strlen(Q_GetName(Q)) + 10) * sizeof(char));
         if (QRes != NULL && QResName != NULL) {
 	    sprintf(QResName, "Lower(%s)", Q_GetName(Q));
             Q_Constr(QRes, QResName, Q->Dim, Q->Symmetry, Q->ElOrder, Tempor, False);
diff --git a/src/laspack/qmatrix.c b/src/laspack/qmatrix.c
index b2f4952..a45517c 100644
--- a/src/laspack/qmatrix.c
+++ b/src/laspack/qmatrix.c
@@ -20,6 +20,7 @@
 
 #include "laspack/qmatrix.h"
 #include "laspack/errhandl.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 static ElType ZeroEl = { 0, 0.0 };
@@ -32,7 +33,7 @@ void Q_Constr(QMatrix *Q, char *Name, size_t Dim, Boolean Symmetry,
 {
     size_t RoC;
 
-    Q->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+    Q->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
     if (Q->Name != NULL)
         strcpy(Q->Name, Name);
     else
@@ -48,15 +49,15 @@ void Q_Constr(QMatrix *Q, char *Name, size_t Dim, Boolean Symmetry,
     Q->OwnData = OwnData;
     if (OwnData) {
         if (LASResult() == LASOK) {
-	    Q->Len = (size_t *)malloc((Dim + 1) * sizeof(size_t));
-	    Q->El = (ElType **)malloc((Dim + 1) * sizeof(ElType *));
-	    Q->ElSorted = (Boolean *)malloc(sizeof(Boolean));
-	    Q->DiagElAlloc = (Boolean *)malloc(sizeof(Boolean));
-	    Q->DiagEl = (ElType **)malloc((Dim + 1) * sizeof(ElType *));
-	    Q->ZeroInDiag = (Boolean *)malloc(sizeof(Boolean));
-            Q->InvDiagEl = (Real *)malloc((Dim + 1) * sizeof(Real));
-	    Q->ILUExists = (Boolean *)malloc(sizeof(Boolean));
-            Q->ILU = (QMatrix *)malloc(sizeof(QMatrix));
+	    Q->Len = (size_t *)XA_malloc((Dim + 1) * sizeof(size_t));
+	    Q->El = (ElType **)XA_malloc((Dim + 1) * sizeof(ElType *));
+	    Q->ElSorted = (Boolean *)XA_malloc(sizeof(Boolean));
+	    Q->DiagElAlloc = (Boolean *)XA_malloc(sizeof(Boolean));
+	    Q->DiagEl = (ElType **)XA_malloc((Dim + 1) * sizeof(ElType *));
+	    Q->ZeroInDiag = (Boolean *)XA_malloc(sizeof(Boolean));
+            Q->InvDiagEl = (Real *)XA_malloc((Dim + 1) * sizeof(Real));
+	    Q->ILUExists = (Boolean *)XA_malloc(sizeof(Boolean));
+            Q->ILU = (QMatrix *)XA_malloc(sizeof(QMatrix));
 	    if (Q->Len != NULL && Q->El != NULL && Q->ElSorted != NULL
 	        && Q->DiagElAlloc != NULL && Q->DiagEl != NULL && Q->ZeroInDiag != NULL
 	        && Q->InvDiagEl != NULL && Q->ILUExists != NULL && Q->ILU != NULL) {
@@ -169,7 +170,7 @@ void Q_SetName(QMatrix *Q, char *Name)
 {
     if (LASResult() == LASOK) {
         free(Q->Name);
-        Q->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+        Q->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
         if (Q->Name != NULL)
             strcpy(Q->Name, Name);
         else
@@ -242,7 +243,7 @@ void Q_SetLen(QMatrix *Q, size_t RoC, size_t Len)
 	    }
 
             if (Len > 0) {
-                PtrEl = (ElType *)malloc(Len * sizeof(ElType));
+                PtrEl = (ElType *)XA_malloc(Len * sizeof(ElType));
                 Q->El[RoC] = PtrEl;
 
                 if (PtrEl != NULL) {
@@ -580,7 +581,7 @@ void Q_SetKer(QMatrix *Q, Vector *RightKer, Vector *LeftKer)
 	        }
 		Norm = sqrt(Sum);
 		if (!IsZero(Norm)) {
-                    Q->RightKerCmp = (Real *)malloc((Dim + 1) * sizeof(Real));
+                    Q->RightKerCmp = (Real *)XA_malloc((Dim + 1) * sizeof(Real));
 		    if (Q->RightKerCmp != NULL) {
 		        for(Ind = 1; Ind <= Dim; Ind++)
 	                    Q->RightKerCmp[Ind] = KerCmp[Ind] / Norm;
@@ -615,7 +616,7 @@ void Q_SetKer(QMatrix *Q, Vector *RightKer, Vector *LeftKer)
 	            }
 		    Norm = sqrt(Sum);
 		    if (!IsZero(Norm)) {
-                        Q->LeftKerCmp = (Real *)malloc((Dim + 1) * sizeof(Real));
+                        Q->LeftKerCmp = (Real *)XA_malloc((Dim + 1) * sizeof(Real));
 		        if (Q->LeftKerCmp != NULL) {
 		            for(Ind = 1; Ind <= Dim; Ind++)
 	                        Q->LeftKerCmp[Ind] = KerCmp[Ind] / Norm;
diff --git a/src/laspack/vector.c b/src/laspack/vector.c
index aa31c8e..1525f27 100644
--- a/src/laspack/vector.c
+++ b/src/laspack/vector.c
@@ -19,13 +19,14 @@
 
 #include "laspack/vector.h"
 #include "laspack/errhandl.h"
+#include "../xalloc.h"
 #include "laspack/copyrght.h"
 
 void V_Constr(Vector *V, char *Name, size_t Dim, InstanceType Instance,
               Boolean OwnData)
 /* constructor of the type Vector */
 {
-    V->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+    V->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
     if (V->Name != NULL)
         strcpy(V->Name, Name);
     else
@@ -37,7 +38,7 @@ void V_Constr(Vector *V, char *Name, size_t Dim, InstanceType Instance,
     V->OwnData = OwnData;
     if (OwnData) {
         if (LASResult() == LASOK) {
-            V->Cmp = (Real *)malloc((Dim + 1) * sizeof(Real));
+            V->Cmp = (Real *)XA_malloc((Dim + 1) * sizeof(Real));
             if (V->Cmp == NULL) 
                 LASError(LASMemAllocErr, "V_Constr", Name, NULL, NULL);
         } else {
@@ -64,7 +65,7 @@ void V_SetName(Vector *V, char *Name)
 {
     if (LASResult() == LASOK) {
         free(V->Name);
-        V->Name = (char *)malloc((strlen(Name) + 1) * sizeof(char));
+        V->Name = (char *)XA_malloc((strlen(Name) + 1) * sizeof(char));
         if (V->Name != NULL)
             strcpy(V->Name, Name);
         else
-- 
2.43.0


From c6f56f5d43234171c3c1d81b6bd5274114cbafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 53/62] fix: LASPack sorts the rows that have no elements

---
 src/laspack/qmatrix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/laspack/qmatrix.c b/src/laspack/qmatrix.c
index a45517c..9385e66 100644
--- a/src/laspack/qmatrix.c
+++ b/src/laspack/qmatrix.c
@@ -435,6 +435,8 @@ void Q_SortEl(QMatrix *Q)
         UpperOnly = True;
         for (RoC = 1; RoC <= Dim; RoC++) {
             /* sort of elements by the quick sort algorithms */
+            if (Q->Len[RoC] == 0)
+                continue;
             qsort((void *)Q->El[RoC], Q->Len[RoC], sizeof(ElType), ElCompar);
 
             /* test whether elements contained in upper triangular part
@@ -495,7 +497,7 @@ void Q_AllocInvDiagEl(QMatrix *Q)
             for (RoC = 1; RoC <= Dim; RoC++) {
                 Found = False;
                 Len = Q->Len[RoC];
-                PtrEl = Q->El[RoC] + Len - 1;
+                PtrEl = (Len > 0) ? Q->El[RoC] + Len - 1 : NULL;
                 for (ElCount = Len; ElCount > 0; ElCount--) {
                     if ((*PtrEl).Pos == RoC) {
                         Found = True;
-- 
2.43.0


From 9785251d2fc97c43d260b6abd6fed866f26cbf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 54/62] fix: the weak stopping criterion holds only if no
 vector of the previous epoch has gone either

---
 src/pomdp-solve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 1cddf40..2659728 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -521,6 +521,14 @@ meetStopCriteria( AlphaList prev_alpha_list,
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_weak:
 	   *error = weakBound( cur_alpha_list, prev_alpha_list,
 					   param->stop_delta );
+
+	   /* Each current vector being near some previous one is not
+		 enough: when a previous vector has gone without leaving
+		 anything near it, the value has dropped where it was best. */
+	   if ( *error <= param->stop_delta )
+		*error = Max( *error, weakBound( prev_alpha_list,
+								   cur_alpha_list,
+								   param->stop_delta ));
 	   break;
 	   
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_bellman:
-- 
2.43.0


From 83ab604d7f53c9c805c0f07ddac32d16b28c7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 55/62] fix: saving every epoch does not change what the ZLZ
 variation computes

---
 src/pomdp-solve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 2659728..607d6ae 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1099,6 +1099,11 @@ solvePomdp( PomdpSolveParams param )
 	 handleSaveAll( next_alpha_list, param );
     }
 
+    /* The ZLZ update depends on the order of the vectors, which should
+	  not depend on whether the files are saved. */
+    else if ( param->vi_variation == ZlzSpeedup )
+	 sortAlphaList( next_alpha_list );
+
     /* The number of value function updates is not always the same as
        the number of value funtion epochs, mostly due to the ZLZ
        speedup. */
-- 
2.43.0


From 2e4f466bc3885384f6cf629227aa8f8f2aff8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 56/62] fix: however unlikely an observation is, the belief is
 updated by it

---
 src/mdp/mdp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 4cdafa1..164be1d 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -133,7 +133,8 @@ transformBeliefState( double *pi,
    for( i = 0; i < gNumStates; i++ )
       denom += pi_hat[i];
    
-   if( IS_ZERO( denom ))
+   /* However unlikely, it is possible unless this is exactly zero. */
+   if( denom <= 0.0 )
       return( 0 );
 
    for( i = 0; i < gNumStates; i++ )
-- 
2.43.0


From b4de127918ef09db3c91966df952d172d26aea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 57/62] fix: in an MDP, resetting a transition row clears what
 it held before

---
 src/mdp/parser.c | 159 ++++++++++++++++++++++++-----------------------
 src/mdp/parser.y |   3 +-
 2 files changed, 82 insertions(+), 80 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index d42d1f9..f2c8fef 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -875,7 +875,8 @@ enterResetMatrix( ) {
   else
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
@@ -1499,7 +1500,7 @@ yywrap()
    return 1;
 }
 /************************************************************************/
-#line 1503 "parser.c"
+#line 1504 "parser.c"
 
 /* For use in generated program */
 #define yydepth (int)(yystack.s_mark - yystack.s_base)
@@ -2193,7 +2194,7 @@ case 1:
 
 		    allocateIntermediateMDP();  
 		  }
-#line 2197 "parser.c"
+#line 2198 "parser.c"
 break;
 case 2:
 #line 148 "parser.y"
@@ -2211,7 +2212,7 @@ case 2:
 
 		    endStartStates(); 
 		  }
-#line 2215 "parser.c"
+#line 2216 "parser.c"
 break;
 case 3:
 #line 167 "parser.y"
@@ -2230,14 +2231,14 @@ case 3:
                      checkProbs();
 		     YACCtrace("pomdp_file -> preamble params\n");
                   }
-#line 2234 "parser.c"
+#line 2235 "parser.c"
 break;
 case 4:
 #line 184 "parser.y"
 	{
 		   YACCtrace("preamble -> preamble param_type\n");
 		}
-#line 2241 "parser.c"
+#line 2242 "parser.c"
 break;
 case 11:
 #line 196 "parser.y"
@@ -2253,7 +2254,7 @@ case 11:
                    discountDefined = 1;
 		   YACCtrace("discount_param -> DISCOUNTTOK COLONTOK number\n");
 	        }
-#line 2257 "parser.c"
+#line 2258 "parser.c"
 break;
 case 12:
 #line 210 "parser.y"
@@ -2261,21 +2262,21 @@ case 12:
                    valuesDefined = 1;
 		   YACCtrace("value_param -> VALUESTOK COLONTOK value_tail\n");
 	        }
-#line 2265 "parser.c"
+#line 2266 "parser.c"
 break;
 case 13:
 #line 223 "parser.y"
 	{
                    gValueType = REWARD_value_type;
 		}
-#line 2272 "parser.c"
+#line 2273 "parser.c"
 break;
 case 14:
 #line 227 "parser.y"
 	{
                    gValueType = COST_value_type;
 		}
-#line 2279 "parser.c"
+#line 2280 "parser.c"
 break;
 case 15:
 #line 232 "parser.y"
@@ -2290,7 +2291,7 @@ case 15:
 		  curMnemonic = nt_state; 
 
 		}
-#line 2294 "parser.c"
+#line 2295 "parser.c"
 break;
 case 16:
 #line 244 "parser.y"
@@ -2299,7 +2300,7 @@ case 16:
                    curMnemonic = nt_unknown;
 		   YACCtrace("state_param -> STATETOK COLONTOK state_tail\n");
 		}
-#line 2303 "parser.c"
+#line 2304 "parser.c"
 break;
 case 17:
 #line 251 "parser.y"
@@ -2321,7 +2322,7 @@ case 17:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2325 "parser.c"
+#line 2326 "parser.c"
 break;
 case 19:
 #line 273 "parser.y"
@@ -2330,7 +2331,7 @@ case 19:
 
 		  curMnemonic = nt_action;  
 		}
-#line 2334 "parser.c"
+#line 2335 "parser.c"
 break;
 case 20:
 #line 279 "parser.y"
@@ -2339,7 +2340,7 @@ case 20:
                    curMnemonic = nt_unknown;
 		   YACCtrace("action_param -> ACTIONTOK COLONTOK action_tail\n");
 		}
-#line 2343 "parser.c"
+#line 2344 "parser.c"
 break;
 case 21:
 #line 286 "parser.y"
@@ -2361,7 +2362,7 @@ case 21:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2365 "parser.c"
+#line 2366 "parser.c"
 break;
 case 23:
 #line 308 "parser.y"
@@ -2370,7 +2371,7 @@ case 23:
 
 		  curMnemonic = nt_observation; 
 		}
-#line 2374 "parser.c"
+#line 2375 "parser.c"
 break;
 case 24:
 #line 314 "parser.y"
@@ -2379,7 +2380,7 @@ case 24:
                    curMnemonic = nt_unknown;
 		   YACCtrace("obs_param -> OBSTOK COLONTOK obs_param_tail\n");
 		}
-#line 2383 "parser.c"
+#line 2384 "parser.c"
 break;
 case 25:
 #line 321 "parser.y"
@@ -2401,7 +2402,7 @@ case 25:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2405 "parser.c"
+#line 2406 "parser.c"
 break;
 case 27:
 #line 343 "parser.y"
@@ -2419,7 +2420,7 @@ case 27:
 		  else
 		    setMatrixContext(mc_mdp_start, 0, 0, 0, 0); 
 		}
-#line 2423 "parser.c"
+#line 2424 "parser.c"
 break;
 case 29:
 #line 376 "parser.y"
@@ -2441,42 +2442,42 @@ case 29:
 		   XFREE( yystack.l_mark[0].constBlk->theValue.theString );
 		   XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2445 "parser.c"
+#line 2446 "parser.c"
 break;
 case 30:
 #line 396 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_include, 0, 0, 0, 0); 
 		}
-#line 2452 "parser.c"
+#line 2453 "parser.c"
 break;
 case 32:
 #line 402 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_exclude, 0, 0, 0, 0); 
 		}
-#line 2459 "parser.c"
+#line 2460 "parser.c"
 break;
 case 34:
 #line 409 "parser.y"
 	{ 
 		  setStartStateUniform(); 
 		}
-#line 2466 "parser.c"
+#line 2467 "parser.c"
 break;
 case 35:
 #line 414 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2473 "parser.c"
+#line 2474 "parser.c"
 break;
 case 36:
 #line 418 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2480 "parser.c"
+#line 2481 "parser.c"
 break;
 case 40:
 #line 427 "parser.y"
@@ -2505,19 +2506,19 @@ case 40:
 
 		      observationSpecDefined = 1;
 		  }
-#line 2509 "parser.c"
+#line 2510 "parser.c"
 break;
 case 42:
 #line 455 "parser.y"
 	{
 		   YACCtrace("trans_prob_spec -> TTOK COLONTOK trans_spec_tail\n");
 		}
-#line 2516 "parser.c"
+#line 2517 "parser.c"
 break;
 case 43:
 #line 460 "parser.y"
 	{ setMatrixContext(mc_trans_single, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2521 "parser.c"
+#line 2522 "parser.c"
 break;
 case 44:
 #line 461 "parser.y"
@@ -2525,43 +2526,43 @@ case 44:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("trans_spec_tail -> action COLONTOK state COLONTOK state prob \n");
 		}
-#line 2529 "parser.c"
+#line 2530 "parser.c"
 break;
 case 45:
 #line 466 "parser.y"
 	{ setMatrixContext(mc_trans_row, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2534 "parser.c"
+#line 2535 "parser.c"
 break;
 case 46:
 #line 467 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action COLONTOK state ui_matrix \n");
 		}
-#line 2541 "parser.c"
+#line 2542 "parser.c"
 break;
 case 47:
 #line 470 "parser.y"
 	{ setMatrixContext(mc_trans_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2546 "parser.c"
+#line 2547 "parser.c"
 break;
 case 48:
 #line 471 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action ui_matrix\n");
 		}
-#line 2553 "parser.c"
+#line 2554 "parser.c"
 break;
 case 49:
 #line 476 "parser.y"
 	{
 		   YACCtrace("obs_prob_spec -> OTOK COLONTOK  obs_spec_tail\n");
 		}
-#line 2560 "parser.c"
+#line 2561 "parser.c"
 break;
 case 50:
 #line 481 "parser.y"
 	{ setMatrixContext(mc_obs_single, yystack.l_mark[-4].i_num, 0, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2565 "parser.c"
+#line 2566 "parser.c"
 break;
 case 51:
 #line 482 "parser.y"
@@ -2569,43 +2570,43 @@ case 51:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK obs prob \n");
 		}
-#line 2573 "parser.c"
+#line 2574 "parser.c"
 break;
 case 52:
 #line 487 "parser.y"
 	{ setMatrixContext(mc_obs_row, yystack.l_mark[-2].i_num, 0, yystack.l_mark[0].i_num, 0); }
-#line 2578 "parser.c"
+#line 2579 "parser.c"
 break;
 case 53:
 #line 488 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK u_matrix\n");
 		}
-#line 2585 "parser.c"
+#line 2586 "parser.c"
 break;
 case 54:
 #line 491 "parser.y"
 	{ setMatrixContext(mc_obs_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2590 "parser.c"
+#line 2591 "parser.c"
 break;
 case 55:
 #line 492 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action u_matrix\n");
 		}
-#line 2597 "parser.c"
+#line 2598 "parser.c"
 break;
 case 56:
 #line 497 "parser.y"
 	{
 		   YACCtrace("reward_spec -> RTOK COLONTOK  reward_spec_tail\n");
 		}
-#line 2604 "parser.c"
+#line 2605 "parser.c"
 break;
 case 57:
 #line 504 "parser.y"
 	{ setMatrixContext(mc_reward_single, yystack.l_mark[-6].i_num, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2609 "parser.c"
+#line 2610 "parser.c"
 break;
 case 58:
 #line 505 "parser.y"
@@ -2616,12 +2617,12 @@ case 58:
 		   checkMatrix();  
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state COLONTOK obs number\n");
 		}
-#line 2620 "parser.c"
+#line 2621 "parser.c"
 break;
 case 59:
 #line 513 "parser.y"
 	{ setMatrixContext(mc_reward_row, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2625 "parser.c"
+#line 2626 "parser.c"
 break;
 case 60:
 #line 514 "parser.y"
@@ -2629,12 +2630,12 @@ case 60:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state num_matrix\n");
 		 }
-#line 2633 "parser.c"
+#line 2634 "parser.c"
 break;
 case 61:
 #line 519 "parser.y"
 	{ setMatrixContext(mc_reward_all, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2638 "parser.c"
+#line 2639 "parser.c"
 break;
 case 62:
 #line 520 "parser.y"
@@ -2642,12 +2643,12 @@ case 62:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state num_matrix\n");
 		}
-#line 2646 "parser.c"
+#line 2647 "parser.c"
 break;
 case 63:
 #line 526 "parser.y"
 	{ setMatrixContext(mc_reward_mdp_only, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2651 "parser.c"
+#line 2652 "parser.c"
 break;
 case 64:
 #line 527 "parser.y"
@@ -2655,77 +2656,77 @@ case 64:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action num_matrix\n");
                 }
-#line 2659 "parser.c"
+#line 2660 "parser.c"
 break;
 case 65:
 #line 533 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2666 "parser.c"
+#line 2667 "parser.c"
 break;
 case 66:
 #line 537 "parser.y"
 	{
                    enterIdentityMatrix();
                 }
-#line 2673 "parser.c"
+#line 2674 "parser.c"
 break;
 case 67:
 #line 541 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2680 "parser.c"
+#line 2681 "parser.c"
 break;
 case 68:
 #line 547 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2687 "parser.c"
+#line 2688 "parser.c"
 break;
 case 69:
 #line 551 "parser.y"
 	{
 		  enterResetMatrix();
 		}
-#line 2694 "parser.c"
+#line 2695 "parser.c"
 break;
 case 70:
 #line 555 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2701 "parser.c"
+#line 2702 "parser.c"
 break;
 case 71:
 #line 560 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2708 "parser.c"
+#line 2709 "parser.c"
 break;
 case 72:
 #line 564 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2715 "parser.c"
+#line 2716 "parser.c"
 break;
 case 73:
 #line 569 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2722 "parser.c"
+#line 2723 "parser.c"
 break;
 case 74:
 #line 573 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2729 "parser.c"
+#line 2730 "parser.c"
 break;
 case 75:
 #line 578 "parser.y"
@@ -2740,7 +2741,7 @@ case 75:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2744 "parser.c"
+#line 2745 "parser.c"
 break;
 case 76:
 #line 590 "parser.y"
@@ -2758,14 +2759,14 @@ case 76:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2762 "parser.c"
+#line 2763 "parser.c"
 break;
 case 77:
 #line 605 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2769 "parser.c"
+#line 2770 "parser.c"
 break;
 case 78:
 #line 610 "parser.y"
@@ -2781,7 +2782,7 @@ case 78:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2785 "parser.c"
+#line 2786 "parser.c"
 break;
 case 79:
 #line 623 "parser.y"
@@ -2799,14 +2800,14 @@ case 79:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2803 "parser.c"
+#line 2804 "parser.c"
 break;
 case 80:
 #line 638 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2810 "parser.c"
+#line 2811 "parser.c"
 break;
 case 81:
 #line 643 "parser.y"
@@ -2821,7 +2822,7 @@ case 81:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2825 "parser.c"
+#line 2826 "parser.c"
 break;
 case 82:
 #line 655 "parser.y"
@@ -2839,28 +2840,28 @@ case 82:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                }
-#line 2843 "parser.c"
+#line 2844 "parser.c"
 break;
 case 83:
 #line 670 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2850 "parser.c"
+#line 2851 "parser.c"
 break;
 case 84:
 #line 675 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2857 "parser.c"
+#line 2858 "parser.c"
 break;
 case 85:
 #line 679 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2864 "parser.c"
+#line 2865 "parser.c"
 break;
 case 86:
 #line 684 "parser.y"
@@ -2872,7 +2873,7 @@ case 86:
 				BAD_PROB_VAL, "");
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2876 "parser.c"
+#line 2877 "parser.c"
 break;
 case 87:
 #line 693 "parser.y"
@@ -2887,7 +2888,7 @@ case 87:
 					 BAD_PROB_VAL, "" );
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2891 "parser.c"
+#line 2892 "parser.c"
 break;
 case 88:
 #line 706 "parser.y"
@@ -2898,7 +2899,7 @@ case 88:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2902 "parser.c"
+#line 2903 "parser.c"
 break;
 case 89:
 #line 714 "parser.y"
@@ -2909,30 +2910,30 @@ case 89:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theFloat;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2913 "parser.c"
+#line 2914 "parser.c"
 break;
 case 90:
 #line 723 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2920 "parser.c"
+#line 2921 "parser.c"
 break;
 case 91:
 #line 727 "parser.y"
 	{
                    yyval.i_num = 1;
                 }
-#line 2927 "parser.c"
+#line 2928 "parser.c"
 break;
 case 92:
 #line 731 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2934 "parser.c"
+#line 2935 "parser.c"
 break;
-#line 2936 "parser.c"
+#line 2937 "parser.c"
     default:
         break;
     }
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index 3b907cc..1404913 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -970,7 +970,8 @@ enterResetMatrix( ) {
   else
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
-- 
2.43.0


From fabce5773e95075d2b86bdcf136a9a28f359d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 58/62] fix: a model file read after a refused one is read from
 its start and without the other's rewards

---
 src/mdp/mdp.c    |   1 +
 src/mdp/parser.c | 162 ++++++++++++++++++++++++-----------------------
 src/mdp/parser.y |   6 ++
 3 files changed, 91 insertions(+), 78 deletions(-)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 164be1d..852c8f0 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -191,6 +191,7 @@ readMDP( char *filename ) {
    if( readMDPFile( file ) == 0 ) {
       fprintf( stderr, 
               "MDP file '%s' was not successfully parsed!\n", filename );
+      fclose( file );
       return( 0 );
    }
 
diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index f2c8fef..6b75b59 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1457,9 +1457,15 @@ int
 readMDPFile( FILE *file ) {
    int returnValue, dump_status;
    extern FILE *yyin;
+   extern void yyrestart( FILE *file );
 
    initParser();
 
+   /* A file that was refused leaves its rewards and the rest of what the
+      scanner had read behind. */
+   destroyImmRewards();
+   yyrestart( file );
+
    ERR_initialize();
    H_create();
    yyin = file;
@@ -1500,7 +1506,7 @@ yywrap()
    return 1;
 }
 /************************************************************************/
-#line 1504 "parser.c"
+#line 1510 "parser.c"
 
 /* For use in generated program */
 #define yydepth (int)(yystack.s_mark - yystack.s_base)
@@ -2194,7 +2200,7 @@ case 1:
 
 		    allocateIntermediateMDP();  
 		  }
-#line 2198 "parser.c"
+#line 2204 "parser.c"
 break;
 case 2:
 #line 148 "parser.y"
@@ -2212,7 +2218,7 @@ case 2:
 
 		    endStartStates(); 
 		  }
-#line 2216 "parser.c"
+#line 2222 "parser.c"
 break;
 case 3:
 #line 167 "parser.y"
@@ -2231,14 +2237,14 @@ case 3:
                      checkProbs();
 		     YACCtrace("pomdp_file -> preamble params\n");
                   }
-#line 2235 "parser.c"
+#line 2241 "parser.c"
 break;
 case 4:
 #line 184 "parser.y"
 	{
 		   YACCtrace("preamble -> preamble param_type\n");
 		}
-#line 2242 "parser.c"
+#line 2248 "parser.c"
 break;
 case 11:
 #line 196 "parser.y"
@@ -2254,7 +2260,7 @@ case 11:
                    discountDefined = 1;
 		   YACCtrace("discount_param -> DISCOUNTTOK COLONTOK number\n");
 	        }
-#line 2258 "parser.c"
+#line 2264 "parser.c"
 break;
 case 12:
 #line 210 "parser.y"
@@ -2262,21 +2268,21 @@ case 12:
                    valuesDefined = 1;
 		   YACCtrace("value_param -> VALUESTOK COLONTOK value_tail\n");
 	        }
-#line 2266 "parser.c"
+#line 2272 "parser.c"
 break;
 case 13:
 #line 223 "parser.y"
 	{
                    gValueType = REWARD_value_type;
 		}
-#line 2273 "parser.c"
+#line 2279 "parser.c"
 break;
 case 14:
 #line 227 "parser.y"
 	{
                    gValueType = COST_value_type;
 		}
-#line 2280 "parser.c"
+#line 2286 "parser.c"
 break;
 case 15:
 #line 232 "parser.y"
@@ -2291,7 +2297,7 @@ case 15:
 		  curMnemonic = nt_state; 
 
 		}
-#line 2295 "parser.c"
+#line 2301 "parser.c"
 break;
 case 16:
 #line 244 "parser.y"
@@ -2300,7 +2306,7 @@ case 16:
                    curMnemonic = nt_unknown;
 		   YACCtrace("state_param -> STATETOK COLONTOK state_tail\n");
 		}
-#line 2304 "parser.c"
+#line 2310 "parser.c"
 break;
 case 17:
 #line 251 "parser.y"
@@ -2322,7 +2328,7 @@ case 17:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2326 "parser.c"
+#line 2332 "parser.c"
 break;
 case 19:
 #line 273 "parser.y"
@@ -2331,7 +2337,7 @@ case 19:
 
 		  curMnemonic = nt_action;  
 		}
-#line 2335 "parser.c"
+#line 2341 "parser.c"
 break;
 case 20:
 #line 279 "parser.y"
@@ -2340,7 +2346,7 @@ case 20:
                    curMnemonic = nt_unknown;
 		   YACCtrace("action_param -> ACTIONTOK COLONTOK action_tail\n");
 		}
-#line 2344 "parser.c"
+#line 2350 "parser.c"
 break;
 case 21:
 #line 286 "parser.y"
@@ -2362,7 +2368,7 @@ case 21:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2366 "parser.c"
+#line 2372 "parser.c"
 break;
 case 23:
 #line 308 "parser.y"
@@ -2371,7 +2377,7 @@ case 23:
 
 		  curMnemonic = nt_observation; 
 		}
-#line 2375 "parser.c"
+#line 2381 "parser.c"
 break;
 case 24:
 #line 314 "parser.y"
@@ -2380,7 +2386,7 @@ case 24:
                    curMnemonic = nt_unknown;
 		   YACCtrace("obs_param -> OBSTOK COLONTOK obs_param_tail\n");
 		}
-#line 2384 "parser.c"
+#line 2390 "parser.c"
 break;
 case 25:
 #line 321 "parser.y"
@@ -2402,7 +2408,7 @@ case 25:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2406 "parser.c"
+#line 2412 "parser.c"
 break;
 case 27:
 #line 343 "parser.y"
@@ -2420,7 +2426,7 @@ case 27:
 		  else
 		    setMatrixContext(mc_mdp_start, 0, 0, 0, 0); 
 		}
-#line 2424 "parser.c"
+#line 2430 "parser.c"
 break;
 case 29:
 #line 376 "parser.y"
@@ -2442,42 +2448,42 @@ case 29:
 		   XFREE( yystack.l_mark[0].constBlk->theValue.theString );
 		   XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2446 "parser.c"
+#line 2452 "parser.c"
 break;
 case 30:
 #line 396 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_include, 0, 0, 0, 0); 
 		}
-#line 2453 "parser.c"
+#line 2459 "parser.c"
 break;
 case 32:
 #line 402 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_exclude, 0, 0, 0, 0); 
 		}
-#line 2460 "parser.c"
+#line 2466 "parser.c"
 break;
 case 34:
 #line 409 "parser.y"
 	{ 
 		  setStartStateUniform(); 
 		}
-#line 2467 "parser.c"
+#line 2473 "parser.c"
 break;
 case 35:
 #line 414 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2474 "parser.c"
+#line 2480 "parser.c"
 break;
 case 36:
 #line 418 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2481 "parser.c"
+#line 2487 "parser.c"
 break;
 case 40:
 #line 427 "parser.y"
@@ -2506,19 +2512,19 @@ case 40:
 
 		      observationSpecDefined = 1;
 		  }
-#line 2510 "parser.c"
+#line 2516 "parser.c"
 break;
 case 42:
 #line 455 "parser.y"
 	{
 		   YACCtrace("trans_prob_spec -> TTOK COLONTOK trans_spec_tail\n");
 		}
-#line 2517 "parser.c"
+#line 2523 "parser.c"
 break;
 case 43:
 #line 460 "parser.y"
 	{ setMatrixContext(mc_trans_single, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2522 "parser.c"
+#line 2528 "parser.c"
 break;
 case 44:
 #line 461 "parser.y"
@@ -2526,43 +2532,43 @@ case 44:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("trans_spec_tail -> action COLONTOK state COLONTOK state prob \n");
 		}
-#line 2530 "parser.c"
+#line 2536 "parser.c"
 break;
 case 45:
 #line 466 "parser.y"
 	{ setMatrixContext(mc_trans_row, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2535 "parser.c"
+#line 2541 "parser.c"
 break;
 case 46:
 #line 467 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action COLONTOK state ui_matrix \n");
 		}
-#line 2542 "parser.c"
+#line 2548 "parser.c"
 break;
 case 47:
 #line 470 "parser.y"
 	{ setMatrixContext(mc_trans_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2547 "parser.c"
+#line 2553 "parser.c"
 break;
 case 48:
 #line 471 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action ui_matrix\n");
 		}
-#line 2554 "parser.c"
+#line 2560 "parser.c"
 break;
 case 49:
 #line 476 "parser.y"
 	{
 		   YACCtrace("obs_prob_spec -> OTOK COLONTOK  obs_spec_tail\n");
 		}
-#line 2561 "parser.c"
+#line 2567 "parser.c"
 break;
 case 50:
 #line 481 "parser.y"
 	{ setMatrixContext(mc_obs_single, yystack.l_mark[-4].i_num, 0, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2566 "parser.c"
+#line 2572 "parser.c"
 break;
 case 51:
 #line 482 "parser.y"
@@ -2570,43 +2576,43 @@ case 51:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK obs prob \n");
 		}
-#line 2574 "parser.c"
+#line 2580 "parser.c"
 break;
 case 52:
 #line 487 "parser.y"
 	{ setMatrixContext(mc_obs_row, yystack.l_mark[-2].i_num, 0, yystack.l_mark[0].i_num, 0); }
-#line 2579 "parser.c"
+#line 2585 "parser.c"
 break;
 case 53:
 #line 488 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK u_matrix\n");
 		}
-#line 2586 "parser.c"
+#line 2592 "parser.c"
 break;
 case 54:
 #line 491 "parser.y"
 	{ setMatrixContext(mc_obs_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2591 "parser.c"
+#line 2597 "parser.c"
 break;
 case 55:
 #line 492 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action u_matrix\n");
 		}
-#line 2598 "parser.c"
+#line 2604 "parser.c"
 break;
 case 56:
 #line 497 "parser.y"
 	{
 		   YACCtrace("reward_spec -> RTOK COLONTOK  reward_spec_tail\n");
 		}
-#line 2605 "parser.c"
+#line 2611 "parser.c"
 break;
 case 57:
 #line 504 "parser.y"
 	{ setMatrixContext(mc_reward_single, yystack.l_mark[-6].i_num, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2610 "parser.c"
+#line 2616 "parser.c"
 break;
 case 58:
 #line 505 "parser.y"
@@ -2617,12 +2623,12 @@ case 58:
 		   checkMatrix();  
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state COLONTOK obs number\n");
 		}
-#line 2621 "parser.c"
+#line 2627 "parser.c"
 break;
 case 59:
 #line 513 "parser.y"
 	{ setMatrixContext(mc_reward_row, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2626 "parser.c"
+#line 2632 "parser.c"
 break;
 case 60:
 #line 514 "parser.y"
@@ -2630,12 +2636,12 @@ case 60:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state num_matrix\n");
 		 }
-#line 2634 "parser.c"
+#line 2640 "parser.c"
 break;
 case 61:
 #line 519 "parser.y"
 	{ setMatrixContext(mc_reward_all, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2639 "parser.c"
+#line 2645 "parser.c"
 break;
 case 62:
 #line 520 "parser.y"
@@ -2643,12 +2649,12 @@ case 62:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state num_matrix\n");
 		}
-#line 2647 "parser.c"
+#line 2653 "parser.c"
 break;
 case 63:
 #line 526 "parser.y"
 	{ setMatrixContext(mc_reward_mdp_only, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2652 "parser.c"
+#line 2658 "parser.c"
 break;
 case 64:
 #line 527 "parser.y"
@@ -2656,77 +2662,77 @@ case 64:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action num_matrix\n");
                 }
-#line 2660 "parser.c"
+#line 2666 "parser.c"
 break;
 case 65:
 #line 533 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2667 "parser.c"
+#line 2673 "parser.c"
 break;
 case 66:
 #line 537 "parser.y"
 	{
                    enterIdentityMatrix();
                 }
-#line 2674 "parser.c"
+#line 2680 "parser.c"
 break;
 case 67:
 #line 541 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2681 "parser.c"
+#line 2687 "parser.c"
 break;
 case 68:
 #line 547 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2688 "parser.c"
+#line 2694 "parser.c"
 break;
 case 69:
 #line 551 "parser.y"
 	{
 		  enterResetMatrix();
 		}
-#line 2695 "parser.c"
+#line 2701 "parser.c"
 break;
 case 70:
 #line 555 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2702 "parser.c"
+#line 2708 "parser.c"
 break;
 case 71:
 #line 560 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2709 "parser.c"
+#line 2715 "parser.c"
 break;
 case 72:
 #line 564 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2716 "parser.c"
+#line 2722 "parser.c"
 break;
 case 73:
 #line 569 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2723 "parser.c"
+#line 2729 "parser.c"
 break;
 case 74:
 #line 573 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2730 "parser.c"
+#line 2736 "parser.c"
 break;
 case 75:
 #line 578 "parser.y"
@@ -2741,7 +2747,7 @@ case 75:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2745 "parser.c"
+#line 2751 "parser.c"
 break;
 case 76:
 #line 590 "parser.y"
@@ -2759,14 +2765,14 @@ case 76:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2763 "parser.c"
+#line 2769 "parser.c"
 break;
 case 77:
 #line 605 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2770 "parser.c"
+#line 2776 "parser.c"
 break;
 case 78:
 #line 610 "parser.y"
@@ -2782,7 +2788,7 @@ case 78:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2786 "parser.c"
+#line 2792 "parser.c"
 break;
 case 79:
 #line 623 "parser.y"
@@ -2800,14 +2806,14 @@ case 79:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2804 "parser.c"
+#line 2810 "parser.c"
 break;
 case 80:
 #line 638 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2811 "parser.c"
+#line 2817 "parser.c"
 break;
 case 81:
 #line 643 "parser.y"
@@ -2822,7 +2828,7 @@ case 81:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2826 "parser.c"
+#line 2832 "parser.c"
 break;
 case 82:
 #line 655 "parser.y"
@@ -2840,28 +2846,28 @@ case 82:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                }
-#line 2844 "parser.c"
+#line 2850 "parser.c"
 break;
 case 83:
 #line 670 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2851 "parser.c"
+#line 2857 "parser.c"
 break;
 case 84:
 #line 675 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2858 "parser.c"
+#line 2864 "parser.c"
 break;
 case 85:
 #line 679 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2865 "parser.c"
+#line 2871 "parser.c"
 break;
 case 86:
 #line 684 "parser.y"
@@ -2873,7 +2879,7 @@ case 86:
 				BAD_PROB_VAL, "");
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2877 "parser.c"
+#line 2883 "parser.c"
 break;
 case 87:
 #line 693 "parser.y"
@@ -2888,7 +2894,7 @@ case 87:
 					 BAD_PROB_VAL, "" );
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2892 "parser.c"
+#line 2898 "parser.c"
 break;
 case 88:
 #line 706 "parser.y"
@@ -2899,7 +2905,7 @@ case 88:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2903 "parser.c"
+#line 2909 "parser.c"
 break;
 case 89:
 #line 714 "parser.y"
@@ -2910,30 +2916,30 @@ case 89:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theFloat;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2914 "parser.c"
+#line 2920 "parser.c"
 break;
 case 90:
 #line 723 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2921 "parser.c"
+#line 2927 "parser.c"
 break;
 case 91:
 #line 727 "parser.y"
 	{
                    yyval.i_num = 1;
                 }
-#line 2928 "parser.c"
+#line 2934 "parser.c"
 break;
 case 92:
 #line 731 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2935 "parser.c"
+#line 2941 "parser.c"
 break;
-#line 2937 "parser.c"
+#line 2943 "parser.c"
     default:
         break;
     }
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index 1404913..7e49b7b 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1552,9 +1552,15 @@ int
 readMDPFile( FILE *file ) {
    int returnValue, dump_status;
    extern FILE *yyin;
+   extern void yyrestart( FILE *file );
 
    initParser();
 
+   /* A file that was refused leaves its rewards and the rest of what the
+      scanner had read behind. */
+   destroyImmRewards();
+   yyrestart( file );
+
    ERR_initialize();
    H_create();
    yyin = file;
-- 
2.43.0


From 29897ecee599a428be64a968d3f1e8078209fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 59/62] fix: the memory of an MDP is given back completely

---
 src/mdp/mdp.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 852c8f0..660f8c0 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -509,11 +509,10 @@ deallocateMDP() {
   }  /* for a */
 
   XFREE( P );
+  XFREE( R );
 
-  if( gProblemType == POMDP_problem_type ) {
-    XFREE( R );
+  if( gProblemType == POMDP_problem_type )
     XFREE( gInitialBelief );
-  }
 
   destroyMatrix( Q );
 
-- 
2.43.0


From b473a915e4ce9aeff1ab230503124ca08d9b58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 60/62] fix: copying a table of rewards does not lose a block
 of memory

---
 src/mdp/decision-tree.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index b9788ef..ceb5a4a 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -176,7 +176,6 @@ static void dtDeepCopyTable(DTTable* out, const DTTable* in)
 {
   int i;
 
-  dtInitTable(out, in->numEntries);
   out->defaultEntry = dtDeepCopyNode(in->defaultEntry);
   for (i=0; i < in->numEntries; i++) {
     if (NULL != in->entries[i]) {
-- 
2.43.0


From 5a6db43e7f52ed614766706880ce47c640d3b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 61/62] fix: the linear program solver makes room for programs
 of any number of rows

---
 src/lp-solve/solve.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index 4467e44..a1ad4a3 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -165,9 +165,11 @@ static short isvalid(lprec *lp)
   return(TRUE);
 } 
 
-static void resize_eta(lprec *lp)
+static void resize_eta(lprec *lp, int needed)
 {
-  lp->eta_alloc *= 1.5;
+  while(lp->eta_alloc < needed)
+    lp->eta_alloc *= 1.5;
+
   REALLOC(lp->eta_value, lp->eta_alloc);
   REALLOC(lp->eta_row_nr, lp->eta_alloc);
 } /* resize_eta */
@@ -182,7 +184,7 @@ static void condensecol(lprec *lp,
   elnr = lp->eta_col_end[lp->eta_size];
 
   if(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
-    resize_eta(lp);
+    resize_eta(lp, elnr + lp->rows + 2);
 
   for(i = 0; i <= lp->rows; i++)
     if(i != row_nr && pcol[i] != 0)
@@ -266,6 +268,9 @@ static void minoriteration(lprec *lp,
   wk = elnr;
   lp->eta_size++;
 
+  if(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
+    resize_eta(lp, elnr + lp->rows + 2);
+
   if(Extrad != 0)
     {
       lp->eta_row_nr[elnr] = 0;
-- 
2.43.0


From eafb659c54f5a460eaa1029c3d06f250682117c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 62/62] fix: -max_soln_size accepts sizes beyond the range of
 int

---
 src/pomdp-solve-options.c   | 2 +-
 src/pomdp-solve-options.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c6b05d0..239458c 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -773,7 +773,7 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                             POMDP_SOLVE_OPTS_ARG_MAX_SOLN_SIZE_STR,
                &(options->max_soln_size),
                            0,
-                           HUGE_VAL );
+                           INT_MAX );
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'max_soln_size' has invalid value." );
 
diff --git a/src/pomdp-solve-options.xml b/src/pomdp-solve-options.xml
index 6615af3..7731316 100644
--- a/src/pomdp-solve-options.xml
+++ b/src/pomdp-solve-options.xml
@@ -279,7 +279,7 @@
   <category value="Value Iteration"/>
   <type value="double"/>
   <usage value="advanced"/>
-  <valid value="0:any"/>
+  <valid value="0:2147483647"/>
   <depends param="vi_variation" value="fixed_soln_size"/>
   <summary value="Sets the max size for the fixed solution size VI."/>
   <description>
-- 
2.43.0

