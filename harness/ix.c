/* index harness: subterm, overlap and demodulator indexes under insertions, deletions and retrievals (see checks/c12.py) */
#include "h.h"
#include <ccl_pdtrees.h>
#include <ccl_subterm_index.h>
#include <ccl_overlap_index.h>
#include <ccl_clausesets.h>
#define N 3000
static Term_p T[N]; static Clause_p C[N]; static int nt = 0, nc = 0; static Sig_p sig;
static int num(Clause_p c) { int i; for(i=0;i<nc;i++) if(C[i]==c) return i+1; return 0; }
static void pr(Term_p t) { TermPrint(stdout, t, sig, DEREF_NEVER); }
static void pr1(Term_p t, bool follow)
{
   int i;
   if(TermIsFreeVar(t)) { pr((follow && t->binding)?t->binding:t); return; }
   printf("%s", SigFindName(sig, t->f_code));
   for(i=0;i<t->arity;i++) { printf(i?",":"("); pr1(t->args[i], follow); }
   if(t->arity) printf(")");
}
static void ctree(PTree_p t, Term_p u)
{
   if(!t) return;
   ctree(t->lson, u); printf(" | %d 0 ", num(t->key)); pr(u); ctree(t->rson, u);
}
static void ntree(NumTree_p t, Clause_p c, Term_p u)
{
   if(!t) return;
   ntree(t->lson, c, u); printf(" | %d %ld ", num(c), t->key); pr(u); ntree(t->rson, c, u);
}
static void ptree(PObjTree_p t, Term_p u)
{
   if(!t) return;
   ptree(t->lson, u); { ClauseTPos_p p = t->key; ntree(p->pos, p->clause, u); } ptree(t->rson, u);
}
static void occs(PObjTree_p t, bool sub)
{
   if(!t) return;
   occs(t->lson, sub);
   SubtermOcc_p o = t->key;
   if(sub) { ctree(o->pl.occs.rw_rest, o->term); ctree(o->pl.occs.rw_full, o->term); } else ptree(o->pl.pos.clauses, o->term);
   occs(t->rson, sub);
}
int main(int argc, char **argv)
{
   static char b[200000]; int i, j; char nm[100], ty[100]; char kind = 0; FPIndex_p ix = NULL; ClauseSet_p set = NULL;
   h_init(argv[0]); alarm(60);
   ProofState_p st = ProofStateAlloc(FPIgnoreProps);
   TB_p bank = st->terms; sig = st->signature; Subst_p s = SubstAlloc();
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'D': { Scanner_p in = h_scan(a); SigParseTFFTypeDeclaration(in, sig); DestroyScanner(in); break; }
      case 'V': { sscanf(a, "%99s %99s", nm, ty); Scanner_p in = h_scan(ty); Type_p t = TypeBankParseType(in, sig->type_bank); DestroyScanner(in);
                  Term_p v = VarBankExtNameAssertAllocSort(bank->vars, nm, t); printf("V "); pr(v); printf("\n"); break; }
      case 't': T[nt++] = h_term(bank, a); printf("t "); pr(T[nt-1]); printf("\n"); break;
      case 'a': { Scanner_p in = h_scan(a); Eqn_p e = EqnParse(in, bank); DestroyScanner(in); T[nt++] = e->lterm; printf("t "); pr(T[nt-1]); printf("\n"); break; }
      case 'C':
      {  Eqn_p list = NULL, *end = &list; char *p = a, *q;
         do { q = strstr(p, " | "); if(q) *q = 0;
              Scanner_p in = h_scan(p+4); Eqn_p e = EqnParse(in, bank); DestroyScanner(in);
              EqnDelProp(e, EPIsMaximal|EPIsOriented|EPIsSelected);
              if(p[0]=='1') EqnSetProp(e, EPIsMaximal); if(p[1]=='1') EqnSetProp(e, EPIsOriented); if(p[2]=='1') EqnSetProp(e, EPIsSelected);
              *end = e; end = &e->next; p = q+3; } while(q);
         Clause_p c = ClauseAlloc(list); c->weight = ClauseStandardWeight(c); C[nc++] = c;
         printf("C");
         for(Eqn_p e = c->literals; e; e = e->next) { printf(" | %d %d %d %d ; ", EqnIsPositive(e)?1:0, EqnIsMaximal(e)?1:0, EqnIsOriented(e)?1:0, EqnIsSelected(e)?1:0); pr(e->lterm); printf(" ; "); pr(e->rterm); }
         printf("\n"); break; }
      case 'K': sscanf(a, "%c %99s", &kind, nm);
         if(kind == 'p') { set = ClauseSetAlloc(); set->demod_index = PDTreeAlloc(bank); }
         else ix = FPIndexAlloc(GetFPIndexFunction(nm), sig, kind=='s'?SubtermBWTreeFreeWrapper:SubtermOLTreeFreeWrapper);
         break;
      case '+': sscanf(a, "%d %d", &i, &j); C[i]->date = j;
         if(kind=='s') SubtermIndexInsertClause(ix, C[i], false);
         if(kind=='i') OverlapIndexInsertIntoClause(ix, C[i]);
         if(kind=='f') OverlapIndexInsertFromClause(ix, C[i]);
         if(kind=='p') ClauseSetPDTIndexedInsert(set, C[i]);
         break;
      case '-': i = atoi(a);
         if(kind=='s') SubtermIndexDeleteClause(ix, C[i], false);
         if(kind=='i') OverlapIndexDeleteIntoClause(ix, C[i]);
         if(kind=='f') OverlapIndexDeleteFromClause(ix, C[i]);
         if(kind=='p') ClauseSetExtractEntry(C[i]);
         break;
      case 'u': case 'm':
      {  PStack_p r = PStackAlloc(); i = atoi(a);
         if(b[0]=='u') FPIndexFindUnifiable(ix, T[i], r); else FPIndexFindMatchable(ix, T[i], r);
         printf("r"); while(!PStackEmpty(r)) { PObjTree_p l = PStackPopP(r); occs(l, kind=='s'); }
         printf("\n"); PStackFree(r); break; }
      case 'd':
      {  int age, gen, stop, n = 0; ClausePos_p p; sscanf(a, "%d %d %d %d", &i, &age, &gen, &stop);
         printf("r");
         PDTreeSearchInit(set->demod_index, T[i], age, gen);
         while((p = PDTreeFindNextDemodulator(set->demod_index, s)))
         {
            printf(" | %d %d ", num(p->clause), p->side==LeftSide?1:2); pr1(p->side==LeftSide?p->literal->lterm:p->literal->rterm, true);
            if(++n == stop) break;
         }
         PDTreeSearchExit(set->demod_index); SubstBacktrack(s);
         printf("\n"); break; }
      }
   }
   return 0;
}
