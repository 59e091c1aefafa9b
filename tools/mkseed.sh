#!/bin/bash
# mkseed.sh ID: take the working-tree change of /tmp/seedwt into seeded/ID/patch.diff and try the demo on both trees.
set -e
id=$1; d=/verif/seeded/$id; wt=${WT:-/tmp/seedwt}
[ -d $wt ] || { cp -a /repo $wt; }
cp /verif/tools/demo_cm.py $d/cm.py
[ -f $d/demo.sh ] || printf '#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
if ! git -C $wt diff --quiet; then git -C $wt diff > $d/patch.diff; git -C $wt checkout -q -- .; fi
