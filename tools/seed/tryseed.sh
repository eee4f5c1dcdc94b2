#!/bin/bash
# tryseed.sh ID...: confirm each planted bug in a scratch copy: builds, stable tests pass, demo 0 / nonzero
for id in "$@"; do
  r=/tmp/seedtry; mkdir -p $r; rsync -a --delete /repo/ $r/
  d=$(mktemp -d); cp -r /verif/seeded/$id $d/x; rm -f $d/x/*.diff $d/x/meta.json
  (cd $r && bash $d/x/demo.sh > $d/clean 2>&1); a=$?
  git -C $r apply /verif/seeded/$id/patch.diff || echo "$id DOES NOT APPLY"
  [ -n "$NOTEST" ] || (cd $r && cargo test --offline --workspace > $d/t 2>&1); t=$?
  (cd $r && bash $d/x/demo.sh > $d/bug 2>&1); b=$?
  echo "$id: clean=$a bug=$b tests=$t passed=$(grep -c '^test .* ok$' $d/t) failed=$(grep -c '^test .* FAILED$' $d/t) | $(tail -1 $d/clean) | $(tail -1 $d/bug)"
  [ $a -ne 0 ] && tail -5 $d/clean
  rm -rf $d
done
