#!/bin/bash
# tools/t.sh PROP [entry...]: run the entries of a property with one summary line each
export VF_SUMMARY=1
p=$1; shift
if [ $# = 0 ]; then set -- $(cd /verif/vf && python3 -c "import units;print(*[e['fn'] for _,e in units.PROPS['$p']['entries']])"); fi
for e in "$@"; do timeout ${T:-300} python3 /verif/vf/vf.py --property $p --no-evidence --entry $e --time ${TT:-90} $V 2>&1 | cut -c1-${W:-330} | head -${H:-4}; done
