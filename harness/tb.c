/* term bank harness: insertions by every route, lookups, rewrite links and garbage collections (see checks/c15.py) */
#include "h.h"
#include <ccl_garbage_coll.h>
#include <ccl_formulasets.h>
#include <cte_replace.h>
#define N 5000
static Term_p T[N], VV[100]; static int nt = 0, nv = 0; static Sig_p sig; static TB_p bank;
static Term_p seen[200000]; static int ns;
static long vnum(Term_p t) { int i; for(i=0;i<nv;i++) if(VV[i]==t) return i+1; return 99; }
static void nodes(Term_p t)
{
   int i;
   if(TermIsFreeVar(t)) return;
   for(i=0;i<ns;i++) if(seen[i]==t) return;
   seen[ns++] = t;
   printf(" | %ld %s %d", t->entry_no, SigFindName(sig, t->f_code), t->arity);
   for(i=0;i<t->arity;i++) printf(" %ld", TermIsFreeVar(t->args[i])?-vnum(t->args[i]):t->args[i]->entry_no);
   printf(" %ld %ld %ld %d", (long)t->weight, (long)t->v_count, (long)t->f_count, (TermCellQueryProp(t, TPIsGround)?1:0)+(TermCellQueryProp(t, TPIsShared)?2:0));
   for(i=0;i<t->arity;i++) nodes(t->args[i]);
}
static void show(Term_p t) { ns = 0; printf("t %ld", t ? (TermIsFreeVar(t)?-vnum(t):t->entry_no) : 0); if(t) nodes(t); printf("\n"); }
static void add(Term_p t) { T[nt++] = t; show(t); }
static void counts(char *tag, long x) { printf("%s %ld %ld %ld %ld\n", tag, x, TBNonVarTermNodes(bank), TermCellStoreCountNodes(&bank->term_store), bank->term_store.arg_count); }
int main(int argc, char **argv)
{
   static char b[200000]; int i, j, k, m, x, y, n; char nm[100], ty[100], *p;
   h_init(argv[0]); alarm(60);
   ProofState_p st = ProofStateAlloc(FPIgnoreProps);
   bank = st->terms; sig = st->signature; TB_p other = TBAlloc(sig);
   while(h_line(b, sizeof(b)))
   {
      char *a = b+2;
      switch(b[0])
      {
      case 'D': { Scanner_p in = h_scan(a); SigParseTFFTypeDeclaration(in, sig); DestroyScanner(in); break; }
      case 'V': { sscanf(a, "%99s %99s", nm, ty); Scanner_p in = h_scan(ty); Type_p t = TypeBankParseType(in, sig->type_bank); DestroyScanner(in);
                  VV[nv++] = VarBankExtNameAssertAllocSort(bank->vars, nm, t); VarBankExtNameAssertAllocSort(other->vars, nm, t); break; }
      case '0': counts("K", 0); break;
      case 'i': add(h_term(bank, a)); break;
      case 'j': m = a[0]-'0'; { Term_p t = h_term(other, a+2); add(m==0?TBInsert(bank, t, DEREF_NEVER):m==1?TBInsertNoProps(bank, t, DEREF_NEVER):TBInsertNoPropsCached(bank, t, DEREF_NEVER)); break; }
      case 'c': sscanf(a, "%d %d", &k, &m);
      {  Term_p t = TermCopyKeepVars(T[k], DEREF_NEVER);
         add(m==0?TBInsert(bank, t, DEREF_NEVER):m==1?TBInsertNoProps(bank, t, DEREF_NEVER):TBInsertIgnoreVar(bank, t, DEREF_NEVER)); TermFree(t); break; }
      case 'n': sscanf(a, "%d %d %d%n", &m, &k, &n, &x); p = a+x;
      {  Term_p bd[20], r = NULL;
         for(i=0;i<n;i++) { sscanf(p, "%d %d%n", &x, &y, &j); p += j; bd[i] = VV[x]; VV[x]->binding = T[y]; }
         switch(m) { case 0: r = TBInsert(bank, T[k], DEREF_ALWAYS); break; case 1: r = TBInsertNoProps(bank, T[k], DEREF_ALWAYS); break;
                     case 2: r = TBInsertOpt(bank, T[k], DEREF_ALWAYS); break; case 3: r = TBInsertInstantiated(bank, T[k]); break;
                     case 4: r = TBInsertInstantiatedDeref(bank, T[k], DEREF_ALWAYS); break; case 5: r = TBInsertNoPropsCached(bank, T[k], DEREF_ALWAYS); break;
                     case 6: r = TBInsertNoProps(bank, T[k], DEREF_ONCE); break; }
         for(i=0;i<n;i++) bd[i]->binding = NULL;
         add(r); break; }
      case 'r': sscanf(a, "%d %d %d %d", &m, &k, &x, &y); add(m?TBInsertReplPlain(bank, T[k], T[x], T[y]):TBInsertRepl(bank, T[k], DEREF_NEVER, T[x], T[y])); break;
      case 'q': { Term_p t = h_term(other, a); show(TBFindRepr(bank, t)); break; }
      case 'w': sscanf(a, "%d %d", &k, &x); TermAddRWLink(T[k], T[x], NULL, false, RWAlwaysRewritable); break;
      case 'W': TermDeleteRWLink(T[atoi(a)]); break;
      case 'g': case 'G':
      {  static char keep[N]; memset(keep, 0, sizeof(keep)); int where[N]; long rec;
         sscanf(a, "%d%n", &n, &x); p = a+x;
         ClauseSet_p cs[] = {st->axioms, st->ax_archive, st->processed_pos_rules, st->processed_pos_eqns, st->processed_neg_units, st->processed_non_units, st->unprocessed, st->tmp_store, st->eval_store, st->archive, st->watchlist, st->definition_store->def_clauses};
         FormulaSet_p fs[] = {st->f_axioms, st->f_ax_archive, st->f_archive, st->definition_store->def_archive};
         for(i=0;i<n;i++)
         {
            sscanf(p, "%d %d%n", &k, &m, &j); p += j; keep[k] = 1;
            if(b[0]=='g') { TBGCMarkTerm(bank, T[k]); continue; }
            if(m >= 12 && T[k]->type == sig->type_bank->bool_type) FormulaSetInsert(fs[m-12], WTFormulaAlloc(bank, T[k]));
            else ClauseSetInsert(cs[m%12], ClauseAlloc(T[k]->type == sig->type_bank->bool_type ? EqnAlloc(T[k], bank->true_term, bank, true) : EqnAlloc(T[k], T[k], bank, true)));
         }
         if(b[0]=='g') rec = TBGCSweep(bank); else rec = TBGCCollect(bank);
         for(i=0;i<nt;i++) if(!keep[i]) T[i] = NULL;
         counts("g", rec);
         for(i=0;i<12;i++) ClauseSetFreeClauses(cs[i]);
         for(i=0;i<4;i++) FormulaSetFreeFormulas(fs[i]);
         break; }
      case 'd': ns = 0; printf("d"); for(i=0;i<nt;i++) if(T[i]) nodes(T[i]); printf("\n"); counts("K", 0); break;
      }
   }
   return 0;
}
