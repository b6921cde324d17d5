/* Loads model files one after another in one process with the model library (MDPs as well as POMDPs), writes down
   through the library's accessors what they were taken to mean, has the library write each of them and
   loads what it wrote.

   mdpmon FILE...   ->  FILE.dump: the meaning of the file; FILE.out: the file written; FILE.back: its meaning;
                        and a line "done FILE BYTES" with what is allocated after it has been given back */
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include "mdp/mdp.h"
#include "mdp/imm-reward.h"
#include "mdp/sparse-matrix.h"

static void dump( char *name )
{
  FILE *o = fopen( name, "w" );
  int a, i, j, z, pomdp = gProblemType == POMDP_problem_type, n = pomdp ? gNumObservations : 1;

  fprintf( o, "type %s\nsizes %d %d %d\n", pomdp ? "pomdp" : "mdp", gNumStates, gNumActions, gNumObservations );
  fprintf( o, "discount %.17g\nvalues %s\nstart", gDiscount, gValueType == COST_value_type ? "cost" : "reward" );
  if( pomdp )
    for( i = 0; i < gNumStates; i++ ) fprintf( o, " %.17g", gInitialBelief[i] );
  else
    fprintf( o, " %d", gInitialState );
  fprintf( o, "\nT" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ )
      for( j = 0; j < gNumStates; j++ ) fprintf( o, " %.17g", getEntryMatrix( P[a], i, j ));
  if( pomdp ) {
    fprintf( o, "\nO" );
    for( a = 0; a < gNumActions; a++ )
      for( i = 0; i < gNumStates; i++ )
        for( z = 0; z < gNumObservations; z++ ) fprintf( o, " %.17g", getEntryMatrix( R[a], i, z ));
  }
  fprintf( o, "\nR" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ )
      for( j = 0; j < gNumStates; j++ )
        for( z = 0; z < n; z++ ) fprintf( o, " %.17g", getImmediateReward( a, i, j, z ));
  fprintf( o, "\nQ" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ ) fprintf( o, " %.17g", getEntryMatrix( Q, a, i ));
  fprintf( o, "\nrows" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ ) {
      fprintf( o, " %.17g", sumRowValues( P[a], i ));
      if( pomdp ) fprintf( o, " %.17g", sumRowValues( R[a], i ));
    }
  fprintf( o, "\n" );
  fclose( o );
}

int main( int argc, char **argv )
{
  char name[4096];
  int i, k;

  for( i = 1; i < argc; i++ ) {
    if( ! readMDP( argv[i] )) { printf( "refused %s\n", argv[i] ); fflush( stdout ); continue; }
    snprintf( name, sizeof name, "%s.dump", argv[i] );
    dump( name );
    if( gNumStates <= 8 ) {
      for( k = -1; k <= gNumStates; k++ ) { printf( "## %s %d\n", argv[i], k ); displayMDPSlice( k ); }
      printf( "## end\n" );
    }
    snprintf( name, sizeof name, "%s.out", argv[i] );
    if( ! writeMDP( name )) { printf( "unwritten %s\n", argv[i] ); return 3; }
    deallocateMDP();
    if( ! readMDP( name )) { printf( "refused %s\n", name ); fflush( stdout ); continue; }
    snprintf( name, sizeof name, "%s.back", argv[i] );
    dump( name );
    deallocateMDP();
    printf( "done %s %zu\n", argv[i], (size_t) mallinfo2().uordblks );
    fflush( stdout );
  }
  return 0;
}
