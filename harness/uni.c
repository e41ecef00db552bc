/* substitution harness: matching, unification, backtracking on one substitution object (see checks/c11.py) */
#include "h.h"
#include <cte_match_mgu_1-1.h>
#include <ccl_eqn.h>
#define N 5000
static Term_p T[N], V[N]; static Eqn_p Q[N]; static long P[N]; static int np = 0; static int nt = 0, nv = 0, nq = 0;
static void pr(Term_p t, Sig_p sig, bool follow)
{
   int i;
   while(follow && TermIsFreeVar(t) && t->binding) t = t->binding;
   if(TermIsFreeVar(t)) { TermPrint(stdout, t, sig, DEREF_NEVER); return; }
   printf("%s", SigFindName(sig, t->f_code));
   for(i=0;i<t->arity;i++) { printf(i?",":"("); pr(t->args[i], sig, follow); }
   if(t->arity) printf(")");
}
static void state(Sig_p sig, Subst_p s, char o, int ok)
{
   int i;
   P[++np] = PStackGetSP(s);
   printf("s %c %d %ld", o, ok, (long)PStackGetSP(s));
   for(i=0;i<nv;i++)
   {
      if(!V[i]->binding) printf(" | -");
      else { printf(" | "); pr(V[i]->binding, sig, o!='m'); }
   }
   printf("\n");
}
int main(int argc, char **argv)
{
   static char b[200000]; int i, j; char nm[100], ty[100];
   h_init(argv[0]); alarm(60);
   ProofState_p st = ProofStateAlloc(FPIgnoreProps);
   TB_p bank = st->terms; Sig_p sig = st->signature; Subst_p s = SubstAlloc();
   char mode = 'm';
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'D': { Scanner_p in = h_scan(a); SigParseTFFTypeDeclaration(in, sig); DestroyScanner(in); break; }
      case 'V': { sscanf(a, "%99s %99s", nm, ty); Scanner_p in = h_scan(ty); Type_p t = TypeBankParseType(in, sig->type_bank); DestroyScanner(in);
                  V[nv++] = VarBankExtNameAssertAllocSort(bank->vars, nm, t);
                  printf("V "); TermPrint(stdout, V[nv-1], sig, DEREF_NEVER); printf("\n"); break; }
      case 't': T[nt++] = h_term(bank, a); printf("t "); TermPrint(stdout, T[nt-1], sig, DEREF_NEVER); printf("\n"); break;
      case 'q': { Scanner_p in = h_scan(a); Eqn_p e = EqnParse(in, bank); DestroyScanner(in); Q[nq++] = e;
                  printf("q "); TermPrint(stdout, e->lterm, sig, DEREF_NEVER); printf(" | "); TermPrint(stdout, e->rterm, sig, DEREF_NEVER); printf("\n"); break; }
      case 'M': mode = a[0]; if(argc > 1) problemType = PROBLEM_HO; break;
      case 'm': sscanf(a, "%d %d", &i, &j); state(sig, s, mode, mode=='m'?SubstMatchComplete(T[i], T[j], s):SubstMguComplete(T[i], T[j], s)); break;
      case 'e': sscanf(a, "%d %d", &i, &j); state(sig, s, mode, EqnUnify(Q[i], Q[j], s)); break;
      case 'k': SubstBacktrackToPos(s, P[atoi(a)]); state(sig, s, mode, 1); break;
      case 'x': i = SubstBacktrackSingle(s); state(sig, s, mode, i); break;
      }
   }
   return 0;
}
