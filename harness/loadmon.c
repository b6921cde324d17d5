/* Loads model files with the real loader and writes down what they were taken to mean, through the
   loader's own accessors. Each file is loaded in a process of its own, forked from this one.

   loadmon SECONDS FILE...   ->  per file, a line "file exit-status signal" on stdout;
                                 FILE.dump has the meaning, FILE.log what the loader said */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include "mdp/mdp.h"
#include "mdp/imm-reward.h"
#include "global.h"
#include "pomdp.h"

#include "mdp/sparse-matrix.h"

static void dump( FILE *o )
{
  int a, i, j, z;
  double low = 0.0;

  fprintf( o, "sizes %d %d %d\n", gNumStates, gNumActions, gNumObservations );
  fprintf( o, "discount %.17g\n", gDiscount );
  fprintf( o, "values %s\n", gValueType == COST_value_type ? "cost" : "reward" );
  fprintf( o, "start" );
  for( i = 0; i < gNumStates; i++ ) fprintf( o, " %.17g", gInitialBelief[i] );
  fprintf( o, "\n" );
  fprintf( o, "T" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ )
      for( j = 0; j < gNumStates; j++ ) fprintf( o, " %.17g", getEntryMatrix( P[a], i, j ));
  fprintf( o, "\nO" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ )
      for( z = 0; z < gNumObservations; z++ ) fprintf( o, " %.17g", getEntryMatrix( R[a], i, z ));
  fprintf( o, "\nR" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ )
      for( j = 0; j < gNumStates; j++ )
        for( z = 0; z < gNumObservations; z++ ) fprintf( o, " %.17g", getImmediateReward( a, i, j, z ));
  fprintf( o, "\nQ" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ ) fprintf( o, " %.17g", getEntryMatrix( Q, a, i ));
  fprintf( o, "\nA" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ ) fprintf( o, " %.17g", getAdjustedReward( a, i ));
  fprintf( o, "\npossible" );
  for( a = 0; a < gNumActions; a++ )
    for( z = 0; z < gNumObservations; z++ ) fprintf( o, " %d", gObservationPossible[a][z] ? 1 : 0 );
  fprintf( o, "\nnpossible" );
  for( a = 0; a < gNumActions; a++ ) fprintf( o, " %d", gNumPossibleObservations[a] );
  fprintf( o, "\n" );
}

static void child( char *file, int secs )
{
  char name[4096];
  struct rlimit cpu = { secs, secs + 1 };
  FILE *o;
  int fd;

  setrlimit( RLIMIT_CPU, &cpu );
  alarm( 10 * secs + 20 );
  snprintf( name, sizeof name, "%s.log", file );
  fd = open( name, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
  dup2( fd, 1 );
  dup2( fd, 2 );
  close( fd );
  gStdErrFile = stderr;
  initializePomdp( file, 1e-9 );
  if( gNumStates <= 64 && gNumActions <= 64 && gNumObservations <= 64 ) {
    snprintf( name, sizeof name, "%s.dump", file );
    o = fopen( name, "w" );
    dump( o );
    fclose( o );
  }
  cleanUpPomdp();
  fflush( stdout );
  exit( 0 );
}

int main( int argc, char **argv )
{
  int i, st, secs = atoi( argv[1] );
  pid_t pid;

  if( argc == 3 && getenv( "LOADMON_DIRECT" ) )
    child( argv[2], secs );
  for( i = 2; i < argc; i++ ) {
    fflush( stdout );
    pid = fork();
    if( pid == 0 )
      child( argv[i], secs );
    waitpid( pid, &st, 0 );
    printf( "%s %d %d\n", argv[i], WIFEXITED( st ) ? WEXITSTATUS( st ) : -1, WIFSIGNALED( st ) ? WTERMSIG( st ) : 0 );
  }
  return 0;
}
