/* The model loader as a libFuzzer target, many loads in one process. It only looks for inputs: whatever it
   finds is judged again by loadmon, in a process of its own. Linked with -Wl,--wrap=exit. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <setjmp.h>
#include <unistd.h>
#include "mdp/mdp.h"
#include "mdp/imm-reward.h"
#include "global.h"
#include "pomdp.h"

extern int readMDPFile( FILE *file );
extern void yyrestart( FILE *file );
extern int yylex_destroy( void );

static jmp_buf back;
static int inside = 0;

extern void __real_exit( int st );
void __wrap_exit( int st )
{
  if( inside )
    longjmp( back, 1 );
  __real_exit( st );
}

int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size )
{
  static int first = 1;
  FILE *f;
  int i, j, z, a;
  volatile double sum = 0;

  if( first ) {
    gStdErrFile = fopen( "/dev/null", "w" );
    freopen( "/dev/null", "w", stdout );
    first = 0;
  }
  if( size == 0 )
    return 0;
  /* no sizes here that need the memory of many loads */
  for( i = 0, j = 0; (size_t) i < size; i++ ) {
    if( data[i] == '.' ) j = -1000;
    else if( data[i] < '0' || data[i] > '9' ) j = 0;
    else if( ++j > 2 ) return 0;
  }
  f = fmemopen( (void *) data, size, "r" );
  inside = 1;
  if( setjmp( back ) == 0 ) {
    yyrestart( f );
    if( readMDPFile( f ) && gProblemType == POMDP_problem_type
        && (double) gNumStates * gNumStates * gNumActions * gNumObservations < 5000 ) {
      for( a = 0; a < gNumActions; a++ )
        for( i = 0; i < gNumStates; i++ )
          for( j = 0; j < gNumStates; j++ )
            for( z = 0; z < gNumObservations; z++ )
              sum += getImmediateReward( a, i, j, z ) + gInitialBelief[i];
      deallocateMDP();
    }
    else
      destroyImmRewards();
  }
  else
    destroyImmRewards();
  inside = 0;
  yylex_destroy();
  fclose( f );
  return 0;
}
