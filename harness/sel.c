/* clause selection: a real heuristic on a real clause set (see checks/c18.py).
   stdin: H definition / I clause / X id / W (evaluate again) / S (select and extract); answers: i id p h p h ... | w id p h ... | s id */
#include "h.h"
#include <cco_proofproc.h>
#include <cco_forward_contraction.h>
#include <che_heuristics.h>
static Clause_p C[100000]; static int n = 0;
static void show(char k, int id)
{
   Eval_p e = C[id]->evaluations;
   printf("%c %d", k, id); for(int j=0; j<e->eval_no; j++) printf(" %ld %.9g", e->evals[j].priority, e->evals[j].heuristic); printf("\n");
}
static int idof(Clause_p c) { for(int j=0; j<n; j++) if(C[j]==c) return j; return -2; }
int main(int argc, char *argv[])
{
   char b[100000]; h_init("sel"); OpenGlobalOut(NULL);
   ProofState_p state = ProofStateAlloc(FPIgnoreProps); ProofControl_p control = ProofControlAlloc();
   HeuristicParms_p h = HeuristicParmsAlloc(); FVIndexParms_p fv = FVIndexParmsAlloc(); PStack_p wd = PStackAlloc(), hd = PStackAlloc();
   if(!h_line(b, sizeof(b)) || b[0] != 'H') return 98;
   h->heuristic_name = SecureStrdup(b+2); h->order_params.ordertype = KBO6;
   ProofControlInit(state, control, h, fv, wd, hd);
   ClauseSet_p set = ClauseSetAlloc(); printf("ready %d\n", control->hcb->wfcb_no);
   while(h_line(b, sizeof(b)))
   {
      if(b[0]=='I')
      {
         Clause_p c = h_clause(state->terms, b+2); C[n++] = c;
         HCBClauseEvaluate(control->hcb, c); ClauseSetInsert(set, c); show('i', n-1);
      }
      else if(b[0]=='X') { int i = atoi(b+2); ClauseSetExtractEntry(C[i]); ClauseFree(C[i]); C[i] = NULL; }
      else if(b[0]=='W')
      {
         ClauseSetReweight(control->hcb, set);
         for(Clause_p c = set->anchor->succ; c != set->anchor; c = c->succ) show('w', idof(c));
         printf("end\n");
      }
      else if(b[0]=='S')
      {
         Clause_p c = control->hcb->hcb_select(control->hcb, set); int i = c ? idof(c) : -1;
         printf("s %d\n", i);
         if(c) { ClauseSetExtractEntry(c); ClauseFree(c); C[i] = NULL; }
      }
   }
   printf("left %ld\n", ClauseSetCardinality(set)); fflush(stdout);
   return 0;
}
