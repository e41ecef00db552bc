/* scheduling harness: the real coordinator with scripted workers (see checks/c09.py).
   stdin: cores preproc serialize limit n log / per strategy: name frac64 cores delay(ms) before after (lines) size pause(ms) how status
   how: t|u|s|c|x success words, n no word, g GaveUp, a abort, k SIGKILL, m mute (no output at all) */
#include "h.h"
#include <cco_scheduling.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
static char nm[32][40], lg[400]; static int frac[32], co[32], dl[32], be[32], af[32], sz[32], pa[32], st[32]; static char how[32];
static void ev(char *s) { int f = open(lg, O_WRONLY|O_APPEND|O_CREAT, 0600); if(write(f, s, strlen(s))<0) exit(99); close(f); }
static void nap(int ms) { if(ms) usleep(ms*1000); }
static void lines(int i, int from, int n)
{
   for(int j=from; j<from+n; j++)
   {
      printf("w%d:%d:", i, j); for(int k=0; k<sz[i]; k++) putchar('a'+(i+j+k)%26); putchar('\n');
      if(pa[i]) { fflush(stdout); nap(pa[i]); }
   }
}
int main(int argc, char *argv[])
{
   int cores, pre, ser, limit, n; char b[500]; ScheduleCell S[33]; struct rlimit r;
   if(getenv("LINEBUF")) setvbuf(stdout, NULL, _IOLBF, 0);
   InitIO("sched"); OpenGlobalOut(NULL); GlobalOut = stdout;
   if(scanf("%d %d %d %d %d %399s", &cores, &pre, &ser, &limit, &n, lg)!=6) return 98;
   memset(S, 0, sizeof(S));
   for(int i=0; i<n; i++)
   {
      if(scanf("%39s %d %d %d %d %d %d %d %c %d", nm[i], frac+i, co+i, dl+i, be+i, af+i, sz+i, pa+i, how+i, st+i)!=10) return 98;
      S[i].heu_name = nm[i]; S[i].time_fraction = frac[i]/64.0; S[i].cores = co[i]; S[i].ordering = KBO6;
   }
   HeuristicParms_p h = HeuristicParmsAlloc();
   int i = ExecuteScheduleMultiCore(S, h, false, limit, pre, cores, ser);
   if(i==SCHEDULE_DONE) { printf("returned\n"); fflush(stdout); return 77; }
   getrlimit(RLIMIT_CPU, &r);
   sprintf(b, "S %d %d %s %ld\n", i, (int)getpid(), h->heuristic_name, (long)r.rlim_cur); ev(b);
   setvbuf(stdout, NULL, _IOFBF, 65536);
   nap(dl[i]);
   if(how[i] != 'm') lines(i, 0, be[i]);
   char *w = how[i]=='t'?"Theorem":how[i]=='u'?"Unsatisfiable":how[i]=='s'?"Satisfiable":how[i]=='c'?"CounterSatisfiable":how[i]=='x'?"ContradictoryAxioms":how[i]=='g'?"GaveUp":NULL;
   if(w)
   {  /* paced workers write the word in two pieces */
      int h = strlen(w)/2;
      printf("%% SZS status %.*s", h, w); if(pa[i]) { fflush(stdout); nap(pa[i]); }
      printf("%s\n", w+h);
   }
   if(how[i] != 'm') lines(i, be[i], af[i]);
   fflush(stdout);
   sprintf(b, "E %d\n", i); ev(b);
   if(how[i]=='a') abort();
   if(how[i]=='k') kill(getpid(), SIGKILL);
   _exit(st[i]);
}
