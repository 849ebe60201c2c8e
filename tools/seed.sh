#!/bin/bash
# usage: tools/seed.sh new ID PROP "needs" "what it breaks" < demo.py   (takes the working-tree diff of /repo as the patch, and undoes it)
#        tools/seed.sh try ID [CHECK]    (apply, stable tests, demo, check; undo)
#        tools/seed.sh all               (try the check on every seeded change)
V=/verif; S=$V/seeded
case $1 in
new) d=$S/$2; mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
  [ -s $d/patch.diff ] || { echo empty patch; exit 1; }
  cp $V/tools/seedlib/demo.sh $d/demo.sh; cat > $d/demo.py
  P=$3 N=$4 W=$5 python3 -c 'import json,os; print(json.dumps(dict(property=os.environ["P"],needs=os.environ["N"],what_it_breaks=os.environ["W"]),indent=1))' > $d/meta.json
  exec $0 try $2 ;;
try) d=$S/$2; P=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty repo; exit 1; }
  bash $d/demo.sh >/tmp/seed.o 2>&1; a=$?; [ $a = 0 ] || tail -5 /tmp/seed.o
  git apply $d/patch.diff || exit 1
  bash $d/demo.sh >/tmp/seed.o 2>&1; b=$?; tail -1 /tmp/seed.o | cut -c1-200
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 -c "import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print(len(b-set(json.load(open('/tmp/seed.json'))['passed'])))")
  cd $V; VERIF_SEED=1 bin/check $P >/tmp/seed.chk 2>/dev/null; c=$?
  git -C /repo checkout -q -- .
  echo "$2: demo unchanged=$a patched=$b; stable tests lost=$t; check $P exit=$c $(grep -c VIOLATION /tmp/seed.chk) $(grep -A1 -m1 VIOLATION /tmp/seed.chk | tail -1 | cut -c1-160)" ;;
all) for d in $S/*/; do $0 try $(basename $d); done ;;
esac
