#!/bin/bash
# mkseed.sh ID PKG PROPERTY NEEDS WHAT ; body on stdin; patch from the /tmp/wt diff;
# IMPORT=X imports package X of the repository as well
ID=$1; PKG=$2
D=/verif/seeded/$ID; mkdir -p $D
(cd /tmp/wt && git diff) > $D/patch.diff
[ -s $D/patch.diff ] || echo "EMPTY PATCH"
sed "s#PKG#$PKG#g" /verif/devtools/demo.sh.tmpl > $D/demo.sh
P=$(basename $PKG)
(sed "s#PKG#$P#g" /verif/devtools/common.go.txt; cat) > $D/demo_test.go
[ -n "$IMPORT" ] && sed -i "0,/^import (/s##import (\n\t\"github.com/jik18001/CTngV2/$IMPORT\"#" $D/demo_test.go
[ -n "$IMPORT" ] && gofmt -w $D/demo_test.go
gofmt -l $D/demo_test.go
python3 - "$3" "$4" "$5" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
(cd /tmp/wt && git checkout -q -- .)
