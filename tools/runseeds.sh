#!/bin/bash
# runseeds.sh [ID...]: each planted bug against its property's quick check, in a copy of /repo (VP_REPO)
cd /verif
if [ $# = 0 ]; then set -- $(ls seeded); fi
for id in "$@"; do d=seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=/tmp/rs.$id; mkdir -p $w; cp -a /repo $w/; (cd $w/repo && git apply /verif/$d/patch.diff) || echo "PATCH $id"
  s=$(date +%s)
  VP_REPO=$w/repo VERIF_TIER=quick python3 run.py $p > /tmp/rs.$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/rs.$id.log) $(grep -A1 ^VIOLATION /tmp/rs.$id.log | sed -n 2p | cut -c1-150)"
  if [ $rc = 1 ]; then r="Caught by $p."; else r="Not caught (rc $rc)."; fi; python3 -c "import json,os,sys;f='tools/seed_results.json';d=json.load(open(f)) if os.path.exists(f) else {};d[sys.argv[1]]=sys.argv[2];json.dump(d,open(f,'w'),indent=1,sort_keys=True)" $id "$r"
  rm -rf "/tmp/rs.$id"
done
