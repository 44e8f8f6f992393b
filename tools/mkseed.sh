#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what": save /repo's working-tree diff as a planted bug and undo it (demo.sh is added by hand).
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -- .
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
wc -l $S/patch.diff
