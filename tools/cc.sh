# cc SRC OUT: compile a small program against the built tree in the current directory (_build/fo)
cc() { local d=$PWD/_build/fo; local L=""; for l in CONTROL HEURISTICS LEARN PCL2 CLAUSES PROPOSITIONAL ORDERINGS TERMS INOUT BASICS; do L="$L $d/lib/$l.a"; done
gcc -O1 -g -w -std=gnu99 -DNDEBUG -DFAST_EXIT -DPRINT_SOMEERRORS_STDOUT -DMEMORY_RESERVE_PARANOID -DPRINT_TSTP_STATUS -DSTACK_SIZE=32768 -DCLAUSE_PERM_IDENT -DTAGGED_POINTERS -I$d/include -I$d/PROVER -I$d/EXTERNAL "$1" -o "$2" -Wl,--start-group $L $d/CONTRIB/picosat-965/libpicosat.a -Wl,--end-group -lm; }
