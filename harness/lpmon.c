/* Records every linear program of a run, as posed and as answered, at the call that solves it.
   Linked with -Wl,--wrap=LP_solveLP. VERIF_LPLOG names the log, VERIF_LPMAX limits its records,
   VERIF_LPEVERY keeps one of every so many. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "global.h"
#include "lp-interface.h"

extern int __real_LP_solveLP( LP lp, SolutionStats stat );

static FILE *log_file;
static long seen, kept, max_kept = 100000, every = 1;

static void finish( void )
{
  if ( log_file != NULL ) {
    fprintf( log_file, "end %ld %ld\n", seen, kept );
    fclose( log_file );
  }
}

static void start( void )
{
  static int started;
  if ( started )
    return;
  started = 1;
  char *f = getenv( "VERIF_LPLOG" );
  if ( f == NULL )
    return;
  if ( getenv( "VERIF_LPMAX" ))
    max_kept = atol( getenv( "VERIF_LPMAX" ));
  if ( getenv( "VERIF_LPEVERY" ))
    every = atol( getenv( "VERIF_LPEVERY" ));
  log_file = fopen( f, "w" );
  atexit( finish );
}

int __wrap_LP_solveLP( LP lp, SolutionStats stat )
{
  int i, keep, ret;

  start();
  seen++;
  keep = log_file != NULL && kept < max_kept && seen % every == 0;
  if ( keep ) {
    kept++;
    fprintf( log_file, "lp %d %d %d\nobj", lp->rows, lp->cols, lp->objsen );
    for ( i = 0; i < lp->cols; i++ )
      fprintf( log_file, " %.17g", lp->obj[i] );
    fprintf( log_file, "\nlow" );
    for ( i = 0; i < lp->cols; i++ )
      fprintf( log_file, " %.17g", lp->lowbnd[i] );
    fprintf( log_file, "\nup" );
    for ( i = 0; i < lp->cols; i++ )
      fprintf( log_file, " %.17g", lp->upbnd[i] );
    fprintf( log_file, "\nrhs" );
    for ( i = 0; i < lp->rows; i++ )
      fprintf( log_file, " %.17g", lp->rhs[i] );
    fprintf( log_file, "\nsense %.*s\n", lp->rows, lp->sense );
    for ( i = 0; i < lp->cols; i++ ) {
      int k;
      fprintf( log_file, "col" );
      for ( k = lp->matbeg[i]; k < lp->matbeg[i] + lp->matcnt[i]; k++ )
        fprintf( log_file, " %d:%.17g", lp->matind[k], lp->matval[k] );
      fprintf( log_file, "\n" );
    }
    fflush( log_file );
  }
  ret = __real_LP_solveLP( lp, stat );
  if ( keep ) {
    fprintf( log_file, "ret %d obj %.17g\nx", ret, lp->objval );
    if ( lp->x != NULL )
      for ( i = 0; i < lp->cols; i++ )
        fprintf( log_file, " %.17g", lp->x[i] );
    fprintf( log_file, "\n" );
  }
  return ret;
}
