#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks"   (uses the diff in /tmp/edit, demo.py read from stdin) 
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/edit diff > $D/patch.diff
test -s $D/patch.diff
cat > $D/demo.py
cp /verif/replay/tg.py $D/tg.py
printf '#!/bin/bash\nTG_REPO="$PWD" exec python3 "$(dirname "$(readlink -f "$0")")/demo.py"\n' > $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /tmp/edit checkout -q -f .
