/* TCP message layer over a scripted connection: read() and write() are replaced by stand-ins that follow a schedule (see checks/c20.py).
   Lines: S id | M hex (message to send) | X hex (raw bytes on the wire) | W n.. (sizes granted to successive writes, 0: interrupted/error)
          | C k (connection ends after k bytes) | R n.. (sizes granted to successive reads, -1: error) | G m (go; m=0 whole messages, 1 single reads, 2 strings, 3 text block) */
#include "h.h"
#include <cio_network.h>
#include <cio_simplestuff.h>
#include <errno.h>
#include <setjmp.h>
static unsigned char wire[1000000]; static long nw, rp, cut; static int ws[100000], nws, iw, rs[100000], nrs, ir; static int on = 0; static long asked, got;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
   if(fd != 777) return __real_write(fd, b, n);
   long k = iw < nws ? ws[iw] : 1<<20; iw++;
   if(k < 0) { errno = EIO; return -1; }
   if(k > (long)n) k = n;
   memcpy(wire+nw, b, k); nw += k; return k;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
   if(fd != 777) return __real_read(fd, b, n);
   if(n > 100000000) { printf("! read of %lu bytes asked for\n", (unsigned long)n); fflush(stdout); _exit(78); }
   long k = ir < nrs ? rs[ir] : 1<<20; ir++;
   if(k < 0) { errno = EIO; got = -1; return -1; }
   if(k > (long)n) k = n;
   if(k > cut-rp) k = cut-rp;
   if(k && n) memset(b, 'Z', n);             /* a receiver must not look at bytes it was not given */
   memcpy(b, wire+rp, k); rp += k; if(n && !k) got = 0; return k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return __wrap_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return __wrap_write(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t l) { if(n > l) { printf("! read of %lu bytes into a buffer of %lu\n", (unsigned long)n, (unsigned long)l); fflush(stdout); _exit(78); } return __wrap_read(fd, b, n); }
ssize_t __wrap___recv_chk(int fd, void *b, size_t n, size_t l, int f) { return __wrap___read_chk(fd, b, n, l); }
static void hex(const char *s) { for(; *s; s++) printf("%02x", (unsigned char)*s); }
static char *unhex(char *s) { static char o[500000]; long n = 0; unsigned x; while(sscanf(s, "%2x", &x)==1) { o[n++] = x; s += 2; if(!*s || *s==' ') break; } o[n] = 0; return o; }
static long rawhex(char *s) { long n = 0; unsigned x; while(*s && sscanf(s, "%2x", &x)==1) { wire[nw++] = x; s += 2; n++; } return n; }
static char *msgs[1000]; static int nm;
int main(int argc, char **argv)
{
   static char b[1100000]; int i, m; char *p; MsgStatus st; long x;
   h_init(argv[0]); alarm(100);
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0]) {
      case 'S': for(i=0;i<nm;i++) free(msgs[i]); nm = nws = iw = nrs = ir = 0; nw = rp = 0; cut = -1; printf("S %s\n", a); break;
      case 'M': msgs[nm++] = strdup(*a ? unhex(a) : ""); break;
      case 'X': rawhex(a); break;
      case 'W': for(p = strtok(a, " "); p; p = strtok(NULL, " ")) ws[nws++] = atoi(p); break;
      case 'R': for(p = strtok(a, " "); p; p = strtok(NULL, " ")) rs[nrs++] = atoi(p); break;
      case 'C': cut = atol(a); break;
      case 'G': m = atoi(a);
         for(i=0;i<nm;i++)
         {
            TCPMsg_p q = TCPMsgPack(msgs[i]); long before = nw;
            if(m == 1) do { before = nw; st = TCPMsgWrite(777, q); printf("w %d %ld\n", st, nw-before); } while(st == NWIncomplete);
            else { st = m == 2 ? TCPStringSend(777, msgs[i], false) : TCPMsgSend(777, q); printf("w %d %ld\n", st, nw-before); }
            TCPMsgFree(q); if(st != NWSuccess) break;
         }
         printf("W "); for(x=0;x<nw;x++) printf("%02x", wire[x]); printf("\n");
         if(cut < 0 || cut > nw) cut = nw;
         if(m == 3) { DStr_p d = DStrAlloc(); fflush(stdout); TCPReadTextBlock(d, 777, "GO\n"); printf("b "); hex(DStrView(d)); printf(" %ld\n", rp); DStrFree(d); break; }
         while(1)
         {
            long s0 = rp;
            if(m == 1)
            {
               TCPMsg_p q = TCPMsgAlloc();
               do { got = 1; st = TCPMsgRead(777, q); printf("r %d %ld %ld\n", st, rp-s0, got); } while(st == NWIncomplete);
               if(st == NWSuccess) { char *s = TCPMsgUnpack(q); printf("m "); hex(s); printf(" %ld\n", rp-s0); FREE(s); } else TCPMsgFree(q);
            }
            else if(m == 0)
            {
               TCPMsg_p q = TCPMsgRecv(777, &st); printf("r %d %ld 9\n", st, rp-s0);
               if(st == NWSuccess) { char *s = TCPMsgUnpack(q); printf("m "); hex(s); printf(" %ld\n", rp-s0); FREE(s); } else TCPMsgFree(q);
            }
            else { char *s = TCPStringRecv(777, &st, false); printf("r %d %ld 9\n", st, rp-s0); if(s) { printf("m "); hex(s); printf(" %ld\n", rp-s0); FREE(s); } }
            if(st != NWSuccess) break;
         }
         break;
      }
   }
   return 0;
}
