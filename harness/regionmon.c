/* Asks the program's region search about vectors against a list of any length.

   regionmon STATES LIST QUERIES   (files of vectors, one action line each, as the program writes them)
   ->  per query: "region FOUND VALUE POINT..." */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "global.h"
#include "mdp/mdp.h"
#include "alpha.h"
#include "params.h"
#include "common.h"
#include "lp-interface.h"
#include "region.h"

int main( int argc, char **argv )
{
  PomdpSolveParams param = newPomdpSolveParams();
  AlphaList list, queries, q;
  double *w, diff;
  int i, found;

  gNumStates = atoi( argv[1] );
  initCommon();
  initGlobal();
  initLpInterface( param );
  list = readAlphaList( argv[2], -1 );
  queries = readAlphaList( argv[3], -1 );
  w = (double *) calloc( gNumStates, sizeof *w );
  for ( q = queries->head; q != NULL; q = q->next ) {
    diff = NAN;
    found = findRegionPoint( q->alpha, list, w, &diff, param );
    printf( "region %d %.17g", found, diff );
    for ( i = 0; i < gNumStates && found; i++ )
      printf( " %.17g", w[i] );
    printf( "\n" );
    fflush( stdout );
  }
  printf( "end %d\n", sizeAlphaList( list ));
  return 0;
}
