/* Records the settings the solver is about to run with, where it is given them.
   Linked with -Wl,--wrap=initPomdpSolve. VERIF_OPTLOG names the log. */
#include <stdio.h>
#include <stdlib.h>
#include "mdp/mdp.h"
#include "global.h"
#include "pomdp.h"
#include "alpha.h"
#include "params.h"
#include "pomdp-solve.h"

extern void __real_initPomdpSolve( PomdpSolveParams param );

static const char *purge( PurgeOption p )
{
  switch( p ) {
  case purge_none: return "none";
  case purge_dom: return "domonly";
  case purge_prune: return "normal_prune";
  case purge_epsilon_prune: return "epsilon_prune";
  default: return "?";
  }
}

void __wrap_initPomdpSolve( PomdpSolveParams p )
{
  char *f = getenv( "VERIF_OPTLOG" );
  FILE *o = f ? fopen( f, "w" ) : NULL;
  if ( o ) {
    fprintf( o, "horizon = %d\n", p->horizon );
    fprintf( o, "stat_summary = %s\n", p->stat_summary ? "true" : "false" );
    fprintf( o, "save_all = %s\n", p->save_all ? "true" : "false" );
    fprintf( o, "discount = %.15g\n", p->override_discount );
    fprintf( o, "time_limit = %d\n", p->max_secs );
    fprintf( o, "memory_limit = %d\n", p->memory_limit );
    fprintf( o, "pomdp = %s\n", p->param_filename );
    fprintf( o, "terminal_values = %s\n", p->initial_policy_filename );
    fprintf( o, "stdout = %s\n", p->report_filename );
    fprintf( o, "proj_purge = %s\n", purge( p->proj_purge ));
    fprintf( o, "q_purge = %s\n", purge( p->q_purge_option ));
    fprintf( o, "enum_purge = %s\n", purge( p->enum_purge_option ));
    fprintf( o, "fg_purge = %s\n", purge( p->fg_purge_option ));
    fprintf( o, "witness_points = %s\n", p->use_witness_points ? "true" : "false" );
    fprintf( o, "dom_check = %s\n", p->domination_check ? "true" : "false" );
    fprintf( o, "alg_rand = %d\n", p->alg_init_rand_points );
    fprintf( o, "prune_rand = %d\n", p->prune_init_rand_points );
    fprintf( o, "stop_delta = %.15g\n", p->stop_delta );
    fprintf( o, "epsilon = %.15g\n", p->epsilon );
    fprintf( o, "lp_epsilon = %.15g\n", p->lp_epsilon );
    fprintf( o, "prune_epsilon = %.15g\n", p->prune_epsilon );
    fprintf( o, "start_epsilon = %.15g\n", p->starting_epsilon );
    fprintf( o, "end_epsilon = %.15g\n", p->ending_epsilon );
    fprintf( o, "epsilon_adjust = %.15g\n", p->epsilon_adjust_factor );
    fprintf( o, "max_soln_size = %d\n", p->max_soln_size );
    fprintf( o, "history_length = %d\n", p->epoch_history_window_length );
    fprintf( o, "history_delta = %d\n", p->epoch_history_window_delta );
    fprintf( o, "inc_prune = %s\n", p->ip_type == NormalIp ? "normal" : p->ip_type == RestrictedRegionIp ? "restricted_region" :
             p->ip_type == GeneralizedIp ? "generalized" : "?" );
    fprintf( o, "vi_variation = %s\n", p->vi_variation == NormalVi ? "normal" : p->vi_variation == ZlzSpeedup ? "zlz" :
             p->vi_variation == AdjustableEpsilonVi ? "adjustable_epsilon" : p->vi_variation == FixedSolnSizeVi ? "fixed_soln_size" : "?" );
    fclose( o );
  }
  __real_initPomdpSolve( p );
}
