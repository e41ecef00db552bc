#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks": take the diff of /tmp/p/r into seeded/ID (demo.sh written separately), reset the clone
D=/verif/seeded/$1; mkdir -p $D; git -C /tmp/p/r diff > $D/patch.diff; python3 -c "
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('$D/meta.json','w'),indent=1)" "$@"; git -C /tmp/p/r checkout -q -- .; wc -l $D/patch.diff
