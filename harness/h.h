/* shared by the harnesses: reading terms and clauses from strings, printing them */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <clb_defines.h>
#include <cio_basicparser.h>
#include <cio_output.h>
#include <cio_initio.h>
#include <cte_termbanks.h>
#include <ccl_proofstate.h>
#include <ccl_clauses.h>
bool app_encode = false;
static Scanner_p h_scan(char *s)
{
   Scanner_p in = CreateScanner(StreamTypeUserString, s, true, NULL, true);
   ScannerSetFormat(in, TSTPFormat);
   return in;
}
static Term_p h_term(TB_p bank, char *s)
{
   Scanner_p in = h_scan(s);
   Term_p t = TBTermParse(in, bank);
   DestroyScanner(in);
   return t;
}
static Clause_p h_clause(TB_p bank, char *s)
{
   Scanner_p in = h_scan(s);
   Clause_p c = ClauseParse(in, bank);
   DestroyScanner(in);
   return c;
}
static char *h_line(char *buf, int n)
{
   char *r = fgets(buf, n, stdin);
   if(r) { size_t l = strlen(buf); while(l && (buf[l-1]=='\n' || buf[l-1]=='\r')) buf[--l] = 0; }
   return r;
}
static void h_init(char *name)
{
   InitIO(name);
   OutputFormat = TSTPFormat;
   problemType = PROBLEM_FO;
}
