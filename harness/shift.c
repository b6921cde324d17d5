/* Preloaded to move a run to another time and another process number; both from the environment. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/syscall.h>

static long off( const char *n )
{
  char *s = getenv( n );
  return s ? atol( s ) : 0;
}

time_t time( time_t *t )
{
  struct timespec ts;
  syscall( SYS_clock_gettime, CLOCK_REALTIME, &ts );
  ts.tv_sec += off( "SHIFT_TIME" );
  if ( t )
    *t = ts.tv_sec;
  return ts.tv_sec;
}

int gettimeofday( struct timeval *restrict tv, void *restrict tz )
{
  struct timespec ts;
  (void) tz;
  syscall( SYS_clock_gettime, CLOCK_REALTIME, &ts );
  tv->tv_sec = ts.tv_sec + off( "SHIFT_TIME" );
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

pid_t getpid( void )
{
  return (pid_t) ( off( "SHIFT_PID" ) ? off( "SHIFT_PID" ) : syscall( SYS_getpid ));
}

int getrusage( int who, struct rusage *r )
{
  int x = syscall( SYS_getrusage, who, r );
  r->ru_utime.tv_sec += off( "SHIFT_CPU" );
  return x;
}

clock_t times( struct tms *b )
{
  clock_t c = syscall( SYS_times, b );
  b->tms_utime += 100 * off( "SHIFT_CPU" );
  return c + 100 * off( "SHIFT_CPU" );
}
