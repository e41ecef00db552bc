/* ordering harness: builds an ordering the way the prover does, answers comparison queries (see checks/c10.py) */
#include "h.h"
#include <cto_orderings.h>
#include <cto_lpo.h>
#include <che_to_autoselect.h>
#include <ccl_eqnlist.h>
#define N 100000
static Term_p T[N]; static int nt = 0;
static void lits(OCB_p ocb, Clause_p c, TB_p bank)
{
   Eqn_p e, f; int i;
   ClauseMarkMaximalTerms(ocb, c);
   for(e = c->literals; e; e = e->next)
   {
      printf("L %d %d %d %d | ", EqnIsPositive(e)?1:0, EqnIsOriented(e)?1:0, EqnIsMaximal(e)?1:0, EqnIsStrictlyMaximal(e)?1:0);
      TermPrint(stdout, e->lterm, bank->sig, DEREF_NEVER); printf(" | "); TermPrint(stdout, e->rterm, bank->sig, DEREF_NEVER); printf("\n");
   }
   printf("M");
   for(e = c->literals; e; e = e->next) for(f = c->literals; f; f = f->next) printf(" %d%d", (int)LiteralCompare(ocb, e, f), LiteralGreater(ocb, e, f)?1:0);
   printf("\n");
}
int main(int argc, char **argv)
{
   static char b[200000]; char *pp = NULL, *pw = NULL; OCB_p ocb = NULL; int i, j, k;
   OrderParmsCell P;
   h_init(argv[0]);
   ProofState_p st = ProofStateAlloc(FPIgnoreProps);
   TB_p bank = st->terms;
   OrderParmsInitialize(&P);
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'O':
      {  char o[40], w[40], p[40]; int cw, fv, lc;
         sscanf(a, "%39s %39s %39s %d %d %d", o, w, p, &cw, &fv, &lc);
         char *nm[] = {"KBO","KBO6","LPO","LPOCopy","LPO4","LPO4Copy"}; TermOrdering ty[] = {KBO,KBO6,LPO,LPOCopy,LPO4,LPO4Copy};
         for(i=0;i<6;i++) if(!strcmp(o,nm[i])) P.ordertype = ty[i];
         P.to_weight_gen = TOTranslateWeightGenMethod(w); P.to_prec_gen = TOTranslatePrecGenMethod(p);
         P.to_const_weight = cw; P.force_kbo_var_weight = fv; P.lit_cmp = lc==0?LCNoCmp:LCNormal;
         break; }
      case 'p': pp = strdup(a); break;
      case 'R': LPORecursionDepthLimit = atol(a); break;
      case 'w': pw = strdup(a); break;
      case 'A': ClauseSetInsert(st->axioms, h_clause(bank, a)); break;
      case 't': T[nt++] = h_term(bank, a); TermCellSetProp(T[nt-1], TPTopPos); break;
      case 'a': { Clause_p c = h_clause(bank, a); T[nt++] = c->literals->lterm; break; }
      case 'T': T[nt++] = bank->true_term; break;
      case '!':
         ocb = TOCreateOrdering(st, &P, pp, pw);
         printf("V %ld\n", ocb->var_weight);
         for(i=1;i<=st->signature->f_count;i++)
         {
            printf("S %s %d %ld\n", SigFindName(st->signature,i), SigFindArity(st->signature,i), ocb->weights?OCBFunWeight(ocb,i):1);
         }
         for(i=1;i<=st->signature->f_count;i++) { printf("P"); for(j=1;j<=st->signature->f_count;j++) printf(" %d", (int)OCBFunCompare(ocb,i,j)); printf("\n"); }
         for(i=0;i<nt;i++) { printf("t "); TermPrint(stdout, T[i], st->signature, DEREF_NEVER); printf("\n"); }
         break;
      case 'c':
      {  int d1, d2; sscanf(a, "%d %d %d %d", &i, &j, &d1, &d2);
         DerefType D[] = {DEREF_NEVER, DEREF_ONCE, DEREF_ALWAYS};
         printf("c %d %d\n", (int)TOCompare(ocb, T[i], T[j], D[d1], D[d2]), TOGreater(ocb, T[i], T[j], D[d1], D[d2])?1:0);
         break; }
      case 'b': sscanf(a, "%d %d", &i, &j); T[i]->binding = T[j]; break;
      case 'u': sscanf(a, "%d", &i); T[i]->binding = NULL; break;
      case 'l': lits(ocb, h_clause(bank, a), bank); break;
      }
   }
   fflush(stdout);
   _exit(0);
}
