/* container harness: one container per process, one operation per line, one answer line each (see checks/c16.py) */
#include "h.h"
#include <clb_numtrees.h>
#include <clb_numxtrees.h>
#include <clb_stringtrees.h>
#include <clb_floattrees.h>
#include <clb_quadtrees.h>
#include <clb_objtrees.h>
#include <clb_objmaps.h>
#include <clb_intmap.h>
#include <clb_pqueue.h>
#include <clb_min_heap.h>
#include <clb_pdrangearrays.h>
#include <clb_ddarrays.h>
#include <clb_properties.h>
#include <clb_plist.h>
#define P(i) ((void*)(intptr_t)(i))
#define L(p) ((long)(intptr_t)(p))
typedef struct { long key, id; int idx; } Obj;
static int ocmp(const void *a, const void *b) { long x = ((const Obj*)a)->key, y = ((const Obj*)b)->key; return x<y?-1:x>y; }
static int icmp(const void *a, const void *b) { long x = ((const IntOrP*)a)->i_val, y = ((const IntOrP*)b)->i_val; return x<y?-1:x>y; }
static int lcmp(const void *a, const void *b) { long x = L(a), y = L(b); return x<y?-1:x>y; }
static int hcmp(IntOrP *a, IntOrP *b) { return ocmp(a->p_val, b->p_val); }
static void hset(void *o, int i) { ((Obj*)o)->idx = i; }
static Obj *mko(long k, long id) { Obj *o = malloc(sizeof(Obj)); o->key = k; o->id = id; o->idx = -1; return o; }
static char b[100000], kind[20], op; static char *a; static char k[1000]; static long v, w;
static IntOrP iv(long x) { IntOrP r; r.i_val = x; return r; }
#define NUMTREE(T, KEY, PRK) \
   { T##_p root = NULL, c; PStack_p st; IntOrP z = iv(7); \
     while(h_line(b, sizeof(b))) { op = b[0]; a = b+2; k[0]=0; v=0; sscanf(a, "%999s %ld", k, &v); switch(op) { \
      case 's': printf("%d\n", T##Store(&root, KEY, iv(v), z)?1:0); break; \
      case 'f': c = T##Find(&root, KEY); if(c) printf("%ld\n", VAL(c)); else printf("-\n"); break; \
      case 'x': c = T##ExtractEntry(&root, KEY); if(c) { printf("%ld\n", VAL(c)); FREECELL(T,c); } else printf("-\n"); break; \
      case 'd': printf("%d\n", T##DeleteEntry(&root, KEY)); break; \
      case 't': st = T##TraverseInit(root); while((c = T##TraverseNext(st))) { PRK(c->key); printf(" %ld ", VAL(c)); } T##TraverseExit(st); printf("\n"); break; \
      EXTRA(T) } } T##Free(root); return 0; }
#define PN(x) printf("%ld", (long)(x))
#define PS(x) printf("%s", x)
#define PF(x) printf("%g", x)
#define PQ(x) printf("%ld:%d:%ld:%d", L(x.p1), x.i1, L(x.p2), x.i2)
static QuadKey *qk(char *s) { static QuadKey q; long x, y; int i, j; sscanf(s, "%ld:%d:%ld:%d", &x, &i, &y, &j); q.p1 = P(x); q.p2 = P(y); q.i1 = i; q.i2 = j; return &q; }
static char *dir(PStack_p s) { static char z[10]; return z; }
static void pstack(PStack_p s) { long i; for(i=0;i<PStackGetSP(s);i++) printf("%ld ", PStackElementInt(s, i)); printf("\n"); }
static void vis(void *arg, void *key) { printf("%ld ", L(key)); }
static void pset(PTree_p t) { PTreeVisitInOrder(t, vis, NULL); printf("\n"); }
static void pstr(const char *c) { for(; *c; c++) putchar(*c==10 ? 1 : *c); putchar(10); }
typedef struct { unsigned properties; } Bag;
int main(int argc, char **argv)
{
   h_init(argv[0]); alarm(60); (void)dir;
   h_line(kind, sizeof(kind));
#define VAL(c) ((c)->val1.i_val)
#define FREECELL(T,c) T##CellFree(c)
#define EXTRA(T) \
      case 'n': printf("%ld\n", T##Nodes(root)); break; \
      case 'm': c = T##MaxNode(root); if(c) printf("%ld\n", (long)c->key); else printf("-\n"); break; \
      case 'l': st = T##LimitedTraverseInit(root, atol(k)); while((c = T##TraverseNext(st))) printf("%ld %ld ", (long)c->key, VAL(c)); T##TraverseExit(st); printf("\n"); break; \
      case 'r': c = T##ExtractRoot(&root); if(c) { printf("%ld %ld\n", (long)c->key, VAL(c)); T##CellFree(c); } else printf("-\n"); break;
   if(!strcmp(kind, "num")) NUMTREE(NumTree, atol(k), PN)
#undef VAL
#define VAL(c) ((c)->vals[0].i_val)
   if(!strcmp(kind, "numx")) NUMTREE(NumXTree, atol(k), PN)
#undef VAL
#undef EXTRA
#define EXTRA(T)
#define VAL(c) ((c)->val1.i_val)
#undef FREECELL
#define FREECELL(T,c) FREE((c)->key); T##CellFree(c)
   if(!strcmp(kind, "str")) NUMTREE(StrTree, k, PS)
#undef FREECELL
#define FREECELL(T,c) T##CellFree(c)
#undef EXTRA
#define EXTRA(T) case 'n': printf("%ld\n", T##Nodes(root)); break;
   if(!strcmp(kind, "flt")) NUMTREE(FloatTree, atof(k), PF)
#undef VAL
#undef EXTRA
#define EXTRA(T)
#define VAL(c) ((c)->val.i_val)
#define QuadTreeStore(r,q,x,y) QuadTreeStore(r,q,x)
   if(!strcmp(kind, "quad")) NUMTREE(QuadTree, qk(k), PQ)
   if(!strcmp(kind, "obj"))
   {
      PObjTree_p root = NULL, c; Obj *o, q; PStack_p st;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w); q.key = v;
         switch(op) {
         case 's': o = PTreeObjStore(&root, mko(v, w), ocmp); printf("%d\n", o==NULL); break;
         case 'f': o = PTreeObjFindObj(&root, &q, ocmp); if(o) printf("%ld\n", o->id); else printf("-\n"); break;
         case 'F': c = PTreeObjFind(&root, &q, ocmp); if(c) printf("%ld\n", ((Obj*)c->key)->id); else printf("-\n"); break;
         case 'b': c = PTreeObjFindBinary(root, &q, ocmp); if(c) printf("%ld\n", ((Obj*)c->key)->id); else printf("-\n"); break;
         case 'x': o = PTreeObjExtractObject(&root, &q, ocmp); if(o) printf("%ld\n", o->id); else printf("-\n"); break;
         case 'r': o = PTreeObjExtractRootObject(&root, ocmp); if(o) printf("%ld %ld\n", o->key, o->id); else printf("-\n"); break;
         case 'n': printf("%ld\n", PObjTreeNodes(root)); break;
         case 't': st = PTreeTraverseInit(root); while((c = PTreeTraverseNext(st))) printf("%ld %ld ", ((Obj*)c->key)->key, ((Obj*)c->key)->id); PTreeTraverseExit(st); printf("\n"); break;
         }
      }
      return 0;
   }
   if(!strcmp(kind, "omap"))
   {
      PObjMap_p root = NULL; void **r, *o; bool up; PStack_p st = PStackAlloc();
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w);
         switch(op) {
         case 'u': o = PObjMapStore(&root, P(v), P(w), lcmp); printf("%ld\n", L(o)); break;
         case 'g': r = PObjMapGetRef(&root, P(v), lcmp, &up); printf("%d %ld\n", up, L(*r)); *r = P(w); break;
         case 'f': o = PObjMapFind(&root, P(v), lcmp); if(o) printf("%ld\n", L(o)); else printf("-\n"); break;
         case 'x': o = PObjMapExtract(&root, P(v), lcmp); if(o) printf("%ld\n", L(o)); else printf("-\n"); break;
         case 't': { void *kk, *vv; PObjMapTraverseInit(root, st); while((vv = PObjMapTraverseNext(st, &kk))) printf("%ld %ld ", L(kk), L(vv)); PObjMapTraverseExit(st); printf("\n"); break; }
         }
      }
      PObjMapFree(root); return 0;
   }
   if(!strcmp(kind, "set"))
   {
      PTree_p T[2] = {NULL, NULL}, c; int i; PStack_p st;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; i = b[2]=='B'; v = 0; sscanf(b+3, "%ld", &v);
         switch(op) {
         case 's': printf("%d\n", PTreeStore(&T[i], P(v))); break;
         case 'f': printf("%d\n", PTreeFind(&T[i], P(v))!=NULL); break;
         case 'b': printf("%d\n", PTreeFindBinary(T[i], P(v))!=NULL); break;
         case 'x': printf("%d\n", PTreeExtractKey(&T[i], P(v))!=NULL); break;
         case 'd': printf("%d\n", PTreeDeleteEntry(&T[i], P(v))); break;
         case 'r': if(T[i]) printf("%ld\n", L(PTreeExtractRootKey(&T[i]))); else printf("0\n"); break;
         case 'n': printf("%ld\n", PTreeNodes(T[i])); break;
         case 't': pset(T[i]); break;
         case 'T': st = PTreeTraverseInit(T[i]); while((c = PTreeTraverseNext(st))) printf("%ld ", L(c->key)); PTreeTraverseExit(st); printf("\n"); break;
         case 'I': PTreeInsertTree(&T[i], T[1-i]); printf("1\n"); break;
         case 'M': printf("%d\n", PTreeMerge(&T[i], T[1-i])); T[1-i] = NULL; break;
         case '&': c = PTreeIntersection(T[i], T[1-i]); pset(c); PTreeFree(c); break;
         case 'D': printf("%ld\n", PTreeDestrIntersection(&T[i], T[1-i])); break;
         case 'C': c = PTreeCopy(T[i]); pset(c); PTreeFree(c); break;
         case '=': printf("%d\n", PTreeEquiv(T[i], T[1-i])); break;
         case '<': printf("%d\n", PTreeIsSubset(T[i], &T[1-i])); break;
         case '#': printf("%ld\n", L(PTreeSharedElement(&T[i], T[1-i]))); break;
         case 'P': { PTree_p n = NULL; long x, y; st = PStackAlloc(); x = PTreeToPStack(st, T[i]); y = PStackToPTree(&n, st); (void)x; printf("%ld ", y); pset(n); PTreeFree(n); PStackFree(st); break; }
         }
      }
      PTreeFree(T[0]); PTreeFree(T[1]); return 0;
   }
   if(!strcmp(kind, "imap"))
   {
      IntMap_p m = IntMapAlloc(); void **r;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w);
         switch(op) {
         case 'a': IntMapAssign(m, v, P(w)); printf("1\n"); break;
         case 'g': printf("%ld\n", L(IntMapGetVal(m, v))); break;
         case 'r': r = IntMapGetRef(m, v); printf("%ld\n", L(*r)); break;
         case 'R': r = IntMapGetRef(m, v); printf("%ld\n", L(*r)); *r = P(w); break;
         case 'd': printf("%ld\n", L(IntMapDelKey(m, v))); break;
         case 'i': { IntMapIter_p it = IntMapIterAlloc(m, v, w); long key; void *x; while((x = IntMapIterNext(it, &key))) printf("%ld %ld ", key, L(x)); IntMapIterFree(it); printf("\n"); break; }
         }
      }
      IntMapFree(m); return 0;
   }
   if(!strcmp(kind, "stk"))
   {
      PStack_p S[2] = {PStackAlloc(), PStackVarAlloc(2)}, s, o; int i;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; i = b[2]=='B'; v = w = 0; sscanf(b+3, "%ld %ld", &v, &w); s = S[i]; o = S[1-i];
         switch(op) {
         case 'p': PStackPushInt(s, v); printf("1\n"); break;
         case 'o': if(PStackEmpty(s)) printf("-\n"); else printf("%ld\n", PStackPopInt(s)); break;
         case 'k': if(PStackEmpty(s)) printf("-\n"); else { PStackDiscardTop(s); printf("1\n"); } break;
         case 't': if(PStackEmpty(s)) printf("-\n"); else printf("%ld\n", PStackTopInt(s)); break;
         case 'u': if(PStackGetSP(s)<2) printf("-\n"); else printf("%ld\n", PStackBelowTopInt(s)); break;
         case 'e': if(v>=PStackGetSP(s)) printf("-\n"); else printf("%ld\n", PStackElementInt(s, v)); break;
         case 'a': if(v>=PStackGetSP(s)) printf("-\n"); else { PStackAssignInt(s, v, w); printf("1\n"); } break;
         case 'd': if(v>=PStackGetSP(s)) printf("-\n"); else { PStackDiscardElement(s, v); printf("1\n"); } break;
         case 'n': printf("%ld\n", (long)PStackGetSP(s)); break;
         case 'l': pstack(s); break;
         case 'S': PStackSort(s, icmp); pstack(s); break;
         case 'C': { PStack_p c = PStackCopy(s); PStackPushInt(c, 1); PStackPop(c); pstack(c); PStackFree(c); break; }
         case '+': PStackPushStack(s, o); pstack(s); break;
         case '?': printf("%d\n", PStackFindInt(s, v)); break;
         case 'R': PStackReset(s); printf("1\n"); break;
         case 'B': PStackSort(s, icmp); printf("%ld\n", (long)PStackBinSearch(s, P(v), 0, PStackGetSP(s), lcmp)); break;
         case 'M': { PStack_p x = PStackAlloc(), y = PStackAlloc(), z = PStackAlloc(); long j; PStackSort(s, icmp); PStackSort(o, icmp);
                     for(j=PStackGetSP(s)-1;j>=0;j--) PStackPushInt(x, PStackElementInt(s, j)); for(j=PStackGetSP(o)-1;j>=0;j--) PStackPushInt(y, PStackElementInt(o, j));
                     PStackMerge(x, y, z, icmp); pstack(z); PStackFree(x); PStackFree(y); PStackFree(z); break; }
         }
      }
      PStackFree(S[0]); PStackFree(S[1]); return 0;
   }
   if(!strcmp(kind, "que"))
   {
      PQueue_p q = PQueueAlloc(); long i;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = 0; sscanf(b+2, "%ld", &v);
         switch(op) {
         case 's': PQueueStoreInt(q, v); printf("1\n"); break;
         case 'b': PQueueBuryInt(q, v); printf("1\n"); break;
         case 'g': if(PQueueEmpty(q)) printf("-\n"); else printf("%ld\n", PQueueGetNextInt(q)); break;
         case 'h': if(PQueueEmpty(q)) printf("-\n"); else printf("%ld\n", PQueueGetLastInt(q)); break;
         case 'l': if(PQueueEmpty(q)) printf("-\n"); else printf("%ld\n", PQueueLookInt(q)); break;
         case 'm': if(PQueueEmpty(q)) printf("-\n"); else printf("%ld\n", PQueueLookLastInt(q)); break;
         case 'n': printf("%ld\n", PQueueCardinality(q)); break;
         case 't': for(i=PQueueTailIndex(q); i!=-1; i=PQueueIncIndex(q, i)) printf("%ld ", PQueueElementInt(q, i)); printf("\n"); break;
         case 'R': PQueueReset(q); printf("1\n"); break;
         }
      }
      PQueueFree(q); return 0;
   }
   if(!strcmp(kind, "heap"))
   {
      MinHeap_p h = MinHeapAllocWithIndex(hcmp, hset); static Obj *O[10000]; Obj *o;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w);
         switch(op) {
         case 'a': O[v] = mko(w, v); MinHeapAddP(h, O[v]); printf("1\n"); break;
         case 'p': if(!MinHeapSize(h)) printf("-\n"); else { o = MinHeapPopMinP(h); printf("%ld %ld\n", o->id, o->key); O[o->id] = NULL; memset(o, 0x55, sizeof(*o)); free(o); } break;
         case 'u': if(!O[v]) printf("-\n"); else { O[v]->key = w; MinHeapUpdateElement(h, O[v]->idx); printf("1\n"); } break;
         case 'D': if(!O[v]) printf("-\n"); else { O[v]->key -= w; MinHeapDecrKey(h, O[v]->idx); printf("1\n"); } break;
         case 'I': if(!O[v]) printf("-\n"); else { O[v]->key += w; MinHeapIncrKey(h, O[v]->idx); printf("1\n"); } break;
         case 'r': if(!O[v]) printf("-\n"); else { MinHeapRemoveElement(h, O[v]->idx); free(O[v]); O[v] = NULL; printf("1\n"); } break;
         case 'n': printf("%ld\n", MinHeapSize(h)); break;
         }
      }
      MinHeapFree(h); return 0;
   }
   if(!strcmp(kind, "dstr"))
   {
      DStr_p s = DStrAlloc(); char *c; FILE *f = tmpfile(); long pos = 0;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; a = b+2;
         switch(op) {
         case 's': DStrAppendStr(s, a); printf("1\n"); break;
         case 'c': DStrAppendChar(s, a[0]); printf("1\n"); break;
         case 'i': DStrAppendInt(s, atol(a)); printf("1\n"); break;
         case 'b': { long n = strtol(a, &c, 10); DStrAppendBuffer(s, c+1, n); printf("1\n"); break; }
         case 'd': { char x = DStrDeleteLastChar(s); if(x) printf("%d\n", x); else printf("-\n"); break; }
         case 'e': { char x = DStrLastChar(s); if(x) printf("%d\n", x); else printf("-\n"); break; }
         case '=': DStrSet(s, a); printf("1\n"); break;
         case 'R': DStrReset(s); printf("1\n"); break;
         case 'm': DStrMinimize(s); printf("1\n"); break;
         case 'v': pstr(DStrView(s)); break;
         case 'a': { long i = atol(a); if(i<DStrLen(s)) pstr(DStrAddress(s, i)); else printf("\n"); break; }
         case 'n': printf("%ld\n", DStrLen(s)); break;
         case 'y': c = DStrCopy(s); pstr(c); FREE(c); break;
         case 'z': if(DStrLen(s)<2) printf("-\n"); else { c = DStrCopyCore(s); pstr(c); FREE(c); } break;
         case 'A': { char *arr[20]; int n = 0; char *t; for(t = strtok(a, ","); t; t = strtok(NULL, ",")) arr[n++] = t; arr[n] = NULL; DStrAppendStrArray(s, arr, ", "); printf("1\n"); break; }
         case 'w': fseek(f, 0, SEEK_END); fprintf(f, "%s\n", a); fflush(f); printf("1\n"); break;
         case 'g': fseek(f, pos, SEEK_SET); c = DStrFGetS(s, f); pos = ftell(f); printf("%s\n", c?"1":"-"); break;
         }
      }
      DStrFree(s); return 0;
   }
   if(!strcmp(kind, "arr") || !strcmp(kind, "parr") || !strcmp(kind, "rarr") || !strcmp(kind, "darr"))
   {
      int t = kind[0]; long n, g; scanf("%ld %ld ", &n, &g);
      PDArray_p x[2] = {NULL, NULL}; PDRangeArr_p y = NULL; DDArray_p z[2] = {NULL, NULL}; int i;
      if(t=='a') { x[0] = PDIntArrayAlloc(n, g); x[1] = PDIntArrayAlloc(n+1, g); } else if(t=='p') { x[0] = PDArrayAlloc(n, g); x[1] = PDArrayAlloc(n+2, g); }
      else if(t=='r') y = PDIntRangeArrAlloc(n, g); else { z[0] = DDArrayAlloc(n, g); z[1] = DDArrayAlloc(n, g); }
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; i = b[2]=='B'; v = w = 0; sscanf(b+3, "%ld %ld", &v, &w);
         switch(op) {
         case 'a': if(t=='a') PDArrayAssignInt(x[i], v, w); else if(t=='p') PDArrayAssignP(x[i], v, P(w)); else if(t=='r') PDRangeArrAssignInt(y, v, w); else DDArrayAssign(z[i], v, (double)w); printf("1\n"); break;
         case 'g': printf("%ld\n", t=='a'?PDArrayElementInt(x[i], v):t=='p'?L(PDArrayElementP(x[i], v)):t=='r'?PDRangeArrElementInt(y, v):(long)DDArrayElement(z[i], v)); break;
         case 'i': printf("%ld\n", t=='a'?PDArrayElementIncInt(x[i], v, w):PDRangeArrElementIncInt(y, v, w)); break;
         case 'd': if(t=='a') PDArrayElementDeleteInt(x[i], v); else if(t=='p') PDArrayElementDeleteP(x[i], v); else PDRangeArrElementDeleteInt(y, v); printf("1\n"); break;
         case 'm': printf("%ld\n", PDArrayMembers(x[i])); break;
         case 'u': printf("%ld\n", PDArrayFirstUnused(x[i])); break;
         case 's': printf("%ld\n", PDArrayStoreP(x[i], P(v))); break;
         case '+': if(t=='a') PDArrayAdd(x[i], x[1-i], v); else DDArrayAdd(z[i], z[1-i], v); printf("1\n"); break;
         case 'C': if(t=='r') { PDRangeArr_p q = PDRangeArrCopy(y); PDRangeArrFree(y); y = q; } else { PDArray_p q = PDArrayCopy(x[i]); PDArrayFree(x[i]); x[i] = q; } printf("1\n"); break;
         }
      }
      return 0;
   }
   if(!strcmp(kind, "bag"))
   {
      Bag B[2] = {{0},{0}}; long q;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w); q = 0; (void)q; Bag *p = &B[0], *r = &B[1];
         switch(op) {
         case 's': SetProp(p, v); break; case 'd': DelProp(p, v); break; case 'f': FlipProp(p, v); break; case 'a': AssignProp(p, v, w); break;
         case 'w': { Bag x = B[0]; B[0] = B[1]; B[1] = x; break; }
         }
         printf("%u %d %d %u %d\n", B[0].properties, QueryProp(p, v)?1:0, IsAnyPropSet(p, v)?1:0, GiveProps(p, v), PropsAreEquiv(p, r, v)?1:0);
      }
      return 0;
   }
   if(!strcmp(kind, "plist"))
   {
      PList_p anc = PListAlloc(), c; long i;
      while(h_line(b, sizeof(b)))
      {
         op = b[0]; v = w = 0; sscanf(b+2, "%ld %ld", &v, &w);   /* v: position, 0 is the anchor */
         for(i=0, c=anc; i<v; i++) c = c->succ;
         switch(op) {
         case 's': PListStoreInt(c, w); break;
         case 'x': PListCellFree(PListExtract(c)); break;
         case 'd': PListDelete(c); break;
         }
         printf("%d ", PListEmpty(anc)?1:0); for(c=anc->succ; c!=anc; c=c->succ) printf("%ld ", c->key.i_val); for(c=anc->pred; c!=anc; c=c->pred) printf("%ld ", c->key.i_val); printf("\n");
      }
      PListFree(anc); return 0;
   }
   return 3;
}
