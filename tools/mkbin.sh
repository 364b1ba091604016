#!/bin/bash
# rebuilds the committed engine binary
set -e
cd /verif; mkdir -p engine/bin build/engine2
engine/build.sh /verif/build/engine2; cp build/engine2/symir engine/bin/symir; strip engine/bin/symir
python3 - <<'P'
import sys,hashlib; sys.path.insert(0,'/verif/vf'); import vf,os
open('/verif/engine/bin/symir.sha','w').write(vf.engine_hash())
assert vf.engine()=='/verif/engine/bin/symir'
P
