/* rewriting harness: demodulators and clauses arrive in any order, terms and clauses are normalised in between (see checks/c14.py) */
#include "h.h"
#include <cto_orderings.h>
#include <che_to_autoselect.h>
#include <ccl_rewrite.h>
#include <cco_simplification.h>
#define N 10000
static Term_p T[N]; static int nt = 0; static Clause_p D[N], K[N]; static int nd = 0, nk = 0;
static TB_p bank; static ProofState_p st; static OCB_p ocb;
static void pt(Term_p t) { TermPrint(stdout, t, bank->sig, DEREF_NEVER); }
static void pk(Clause_p c) { Eqn_p e; for(e = c->literals; e; e = e->next) { printf(" | %d ", EqnIsPositive(e)&&EqnIsMaximal(e)&&EqnIsOriented(e)?1:0); pt(e->lterm); printf(" | "); pt(e->rterm); } printf("\n"); }
static void pc(Clause_p c) { Eqn_p e; for(e = c->literals; e; e = e->next) { printf(" | %d ", EqnIsPositive(e)?1:0); pt(e->lterm); printf(" | "); pt(e->rterm); } printf("\n"); }
int main(int argc, char **argv)
{
   static char b[200000]; int i, j, level, pref; OrderParmsCell P; char *pp = NULL;
   h_init(argv[0]); alarm(100);
   st = ProofStateAlloc(FPIgnoreProps); bank = st->terms;
   OrderParmsInitialize(&P);
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'O':
      {  char o[40], w[40], p[40]; int s;
         sscanf(a, "%39s %39s %39s %d", o, w, p, &s);
         P.ordertype = !strcmp(o,"KBO6") ? KBO6 : LPO4;
         P.to_weight_gen = TOTranslateWeightGenMethod(w); P.to_prec_gen = TOTranslatePrecGenMethod(p);
         P.rewrite_strong_rhs_inst = s;
         break; }
      case 'p': pp = strdup(a); break;
      case 'A': ClauseSetInsert(st->axioms, h_clause(bank, a)); break;
      case 't': T[nt++] = h_term(bank, a); break;
      case 'a': { Clause_p c = h_clause(bank, a); T[nt++] = c->literals->lterm; break; }
      case '!':
         ocb = TOCreateOrdering(st, &P, pp, NULL); ocb->rewrite_strong_rhs_inst = P.rewrite_strong_rhs_inst;
         printf("V %ld\n", ocb->var_weight);
         for(i=1;i<=st->signature->f_count;i++) printf("S %s %d %ld\n", SigFindName(st->signature,i), SigFindArity(st->signature,i), ocb->weights?OCBFunWeight(ocb,i):1);
         for(i=1;i<=st->signature->f_count;i++) { printf("P"); for(j=1;j<=st->signature->f_count;j++) printf(" %d", (int)OCBFunCompare(ocb,i,j)); printf("\n"); }
         printf("m "); pt(OCBDesignatedMinTerm(ocb, bank, bank->sig->type_bank->i_type)); printf("\n");
         for(i=0;i<nt;i++) { printf("t "); pt(T[i]); printf("\n"); }
         break;
      case 'K': /* K level: a processed clause, kept in normal form */
      {  level = atoi(a); Clause_p c = h_clause(bank, a+2);
         ClauseComputeLINormalform(ocb, bank, c, st->demods, level, false, false);
         ClauseMarkMaximalTerms(ocb, c); ClauseSetInsert(st->processed_non_units, c); K[nk] = c; printf("k %d", nk++); pk(c); break; }
      case 'D': /* D normalise(0/1) backward(0/1) clause: a new demodulator, handled as the prover does */
      {  SysDate date; Clause_p c; PStack_p found; int nf = atoi(a), bw = atoi(a+2);
         c = h_clause(bank, a+4);
         if(nf) ClauseComputeLINormalform(ocb, bank, c, st->demods, FullRewrite, false, false);
         EqnDelProp(c->literals, EPMaxIsUpToDate|EPIsOriented); EqnOrient(ocb, c->literals);
         if(c->literals->lterm == c->literals->rterm) { printf("d -1\n"); break; }
         date = ClauseSetListGetMaxDate(st->demods, FullRewrite); SysDateInc(&date);
         if(bw)
         {
            found = PStackAlloc(); FindRewritableClauses(ocb, st->processed_non_units, found, c, date);
            if(bw == 2) { FindRewritableClauses(ocb, st->processed_pos_rules, found, c, date); FindRewritableClauses(ocb, st->processed_pos_eqns, found, c, date); }
         }
         c->date = date; ClauseSetProp(c, CPLimitedRW); D[nd] = c;
         if(bw)
         {
            printf("f");
            while(!PStackEmpty(found))
            {
               Clause_p h = PStackPopP(found);
               for(i=0;i<nk;i++) if(K[i]==h) { printf(" %d", i); ClauseSetExtractEntry(h); ClauseSetInsert(st->tmp_store, h); }
               for(i=0;i<nd;i++) if(D[i]==h && D[i]->set) { printf(" -%d", i+1); ClauseSetExtractEntry(h); ClauseSetInsert(st->archive, h); }
            }
            printf("\n"); PStackFree(found);
         }
         if(EqnIsOriented(c->literals)) { TermCellSetProp(c->literals->lterm, TPIsRewritable); st->processed_pos_rules->date = date; ClauseSetPDTIndexedInsert(st->processed_pos_rules, c); }
         else { st->processed_pos_eqns->date = date; ClauseSetPDTIndexedInsert(st->processed_pos_eqns, c); }
         printf("d %d %d", nd++, EqnIsOriented(c->literals)?1:0); pc(c);
         break; }
      case 'M': /* normalise clause i again, after it was found rewritable */
         i = atoi(a); if(K[i]->set == st->tmp_store)
         {  ClauseSetExtractEntry(K[i]); ClauseDelProp(K[i], CPLimitedRW); ClauseComputeLINormalform(ocb, bank, K[i], st->demods, FullRewrite, false, false); ClauseMarkMaximalTerms(ocb, K[i]); ClauseSetInsert(st->processed_non_units, K[i]); }
         printf("M %d", i); pk(K[i]); break;
      case 'N': sscanf(a, "%d %d %d", &i, &level, &pref); { Term_p u = TermComputeLINormalform(ocb, bank, T[i], st->demods, level, pref, false, false); printf("n "); pt(u); u = TermComputeLINormalform(ocb, bank, u, st->demods, level, pref, false, false); printf(" | "); pt(u); printf("\n"); } break;
      case 'c': { sscanf(a, "%d %d", &level, &pref); Clause_p c = h_clause(bank, a+4); ClauseComputeLINormalform(ocb, bank, c, st->demods, level, pref, false); printf("c"); pc(c); break; }
      }
   }
   fflush(stdout); _exit(0);
}
