/* subsumption harness: single queries, indexed sets and unit sets under insertions and deletions (see checks/c13.py) */
#include "h.h"
#include <ccl_subsumption.h>
#include <ccl_context_sr.h>
#include <ccl_unit_simplify.h>
#include <ccl_fcvindexing.h>
#include <che_to_autoselect.h>
#include <cco_proofproc.h>
#define N 3000
__attribute__((weak)) void fvi_param_init(ProofState_p state, ProofControl_p control);
static Clause_p C[N]; static int nc = 0; static Sig_p sig;
static int num(Clause_p c) { int i; for(i=0;i<nc;i++) if(C[i]==c) return i+1; return 0; }
static void pr(Term_p t) { TermPrint(stdout, t, sig, DEREF_NEVER); }
static void prc(char *tag, Clause_p c)
{
   printf("%s", tag);
   for(Eqn_p e = c->literals; e; e = e->next) { printf(" | %d ; ", EqnIsPositive(e)?1:0); pr(e->lterm); printf(" ; "); pr(e->rterm); }
   printf("\n");
}
static void ord(Clause_p c) { c->weight = ClauseStandardWeight(c); ClauseSubsumeOrderSortLits(c); }
int main(int argc, char **argv)
{
   static char b[200000]; int i, j; char nm[100], ty[100]; OCB_p ocb = NULL; ClauseSet_p set = NULL, units = NULL;
   OrderParmsCell P;
   h_init(argv[0]); alarm(60);
   ProofState_p st = ProofStateAlloc(FPIgnoreProps);
   ProofControl_p ctl = ProofControlAlloc();
   TB_p bank = st->terms; sig = st->signature;
   OrderParmsInitialize(&P);
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'D': { Scanner_p in = h_scan(a); SigParseTFFTypeDeclaration(in, sig); DestroyScanner(in); break; }
      case 'V': { sscanf(a, "%99s %99s", nm, ty); Scanner_p in = h_scan(ty); Type_p t = TypeBankParseType(in, sig->type_bank); DestroyScanner(in);
                  Term_p v = VarBankExtNameAssertAllocSort(bank->vars, nm, t); printf("V "); pr(v); printf("\n"); break; }
      case 'O': P.ordertype = a[0]=='L'?LPO4:KBO6; ocb = TOCreateOrdering(st, &P, NULL, NULL); break;
      case 'C':
      {  Eqn_p list = NULL, *end = &list; char *p = a, *q;
         do { q = strstr(p, " | "); if(q) *q = 0;
              Scanner_p in = h_scan(p); Eqn_p e = EqnParse(in, bank); DestroyScanner(in);
              *end = e; end = &e->next; p = q+3; } while(q);
         Clause_p c = ClauseAlloc(list); ClauseOrientLiterals(ocb, c); ord(c); C[nc++] = c; prc("C", c); break; }
      case 's': sscanf(a, "%d %d", &i, &j); printf("r %d\n", ClauseSubsumesClause(C[i], C[j])?1:0); break;
      case 'I':       /* feature type, maximal number of symbols, slack, drop uninformative features, clauses used as sample: the first k */
      {  int f, m, sl, el, k; sscanf(a, "%d %d %d %d %d", &f, &m, &sl, &el, &k);
         ctl->fvi_parms.cspec.features = f; ctl->fvi_parms.max_symbols = m; ctl->fvi_parms.symbol_slack = sl; ctl->fvi_parms.eliminate_uninformative = el; ctl->fvi_parms.use_perm_vectors = true;
         for(i=0;i<k;i++) ClauseSetInsert(st->axioms, C[i]);
         set = st->processed_non_units;
         if(fvi_param_init) fvi_param_init(st, ctl);
         else if(f != FVINoFeatures)
         {  FVCollect_p cs = FVCollectAlloc(f, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0); cs->max_symbols = m;
            set->fvindex = FVIAnchorAlloc(cs, PermVectorCompute(st->axioms, cs, el)); }
         while(!ClauseSetEmpty(st->axioms)) ClauseSetExtractFirst(st->axioms);
         break; }
      case 'u': units = ClauseSetAlloc(); units->demod_index = PDTreeAlloc(bank); break;
      case '+': ClauseSetIndexedInsertClause(set, C[atoi(a)]); break;
      case '*': ClauseSetIndexedInsertClause(units, C[atoi(a)]); break;
      case '-': ClauseSetExtractEntry(C[atoi(a)]); break;
      case 'f': printf("r %d\n", num(ClauseSetSubsumesClause(set, C[atoi(a)]))); break;
      case 'F': { FVPackedClause_p p = FVIndexPackClause(C[atoi(a)], set->fvindex); printf("r %d\n", num(ClauseSetSubsumesFVPackedClause(set, p))); FVUnpackClause(p); break; }
      case 'b': { PStack_p r = PStackAlloc(); ClauseSetFindSubsumedClauses(set, C[atoi(a)], r); printf("r"); while(!PStackEmpty(r)) printf(" %d", num(PStackPopP(r))); printf("\n"); PStackFree(r); break; }
      case 'B': printf("r %d\n", num(ClauseSetFindFirstSubsumedClause(set, C[atoi(a)]))); break;
      case 'l': { Clause_p c = ClauseSetFindSubsumedClause(set, set->anchor->succ, C[atoi(a)]); printf("r %d\n", num(c)); break; }
      case 'v': printf("r %d\n", set->fvindex ? num(ClauseSetFindVariantClause(set, C[atoi(a)])) : -1); break;
      case 'U': sscanf(a, "%d %d", &i, &j); StrongUnitForwardSubsumption = j; printf("r %d\n", num(UnitClauseSetSubsumesClause(units, C[i]))); StrongUnitForwardSubsumption = false; break;
      case 'P': case 'N': case 'X': case 'S':
      {  Clause_p c; sscanf(a, "%d %d", &i, &j); c = ClauseCopy(C[i], bank);
         if(b[0] == 'X') { ord(c); ClauseContextualSimplifyReflect(set, c); }
         else if(b[0] == 'S') { if(!ClauseSimplifyWithUnitSet(c, units, j?FullUnitSimplify:TopLevelUnitSimplify)) { printf("c subsumed\n"); break; } }
         else { StrongUnitForwardSubsumption = j; if(b[0] == 'P') ClausePositiveSimplifyReflect(units, c); else ClauseNegativeSimplifyReflect(units, c); StrongUnitForwardSubsumption = false; }
         prc("c", c); break; }
      case 'x': { PStack_p r = PStackAlloc(); Clause_p c = ClauseCopy(C[atoi(a)], bank); ord(c); ClauseSetFindContextSRClauses(set, c, r); printf("r"); while(!PStackEmpty(r)) printf(" %d", num(PStackPopP(r))); printf("\n"); PStackFree(r); break; }
      }
   }
   return 0;
}
