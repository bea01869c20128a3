#!/bin/bash
# seeds.sh [ID...]: runs the check of each planted bug's property against it, three at a time.
cd /verif/seeded
[ $# = 0 ] && set -- *
one() {
  p=$(python3 -c "import json;print(json.load(open('$1/meta.json'))['property'])")
  t=$(date +%s); o=$(/verif/tools/mirror.sh $1/patch.diff $p 2>&1); rc=$?
  echo "$1 $p exit=$rc $(( $(date +%s)-t ))s $(echo "$o" | grep -m1 VIOLATION | cut -c1-160)"
}
export -f one
printf '%s\n' "$@" | xargs -P ${PAR:-3} -I{} bash -c 'one {}'
