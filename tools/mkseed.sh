#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS DEMO.c  -- takes the change made in the scratch copy /tmp/s (a cp -a of /repo),
# confirms it (builds, tests pass, demo 0 without / nonzero with) and keeps it under seeded/ID
set -u
V=/verif; S=/tmp/s; id=$1; prop=$2; needs=$3; breaks=$4; demo=$5
D=$V/seeded/$id; mkdir -p $D
git -C $S diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
case "$demo" in *.c) cp $demo $D/demo.c
cat > $D/demo.sh <<'EOS'
#!/bin/sh
# run in the root of the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
clang -std=gnu99 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -Isml/include -I. ${FLAGS:-} -o "$t/demo" "$d/demo.c" sml/src/*.c -luuid -lm || exit 2
cd "$t" && UBSAN_OPTIONS=print_stacktrace=0 timeout 100 ./demo
EOS
;; *) cp $demo $D/demo.sh;; esac
python3 - "$D" "$prop" "$needs" "$breaks" <<'EOP'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
EOP
ok=1
( cd $S && make -s -C sml clean >/dev/null 2>&1; make -s -C sml CC=gcc >/tmp/s.log 2>&1 && make -s -C examples CC=gcc >>/tmp/s.log 2>&1 && rm -f /tmp/s/test/test && make -s -C test test CC=gcc >>/tmp/s.log 2>&1 ) || { echo "$id: BUILD FAILS"; tail -5 /tmp/s.log; ok=0; }
T=$(cd $S/test && timeout 60 ./test 2>/dev/null | grep -a "Tests.*Failures" ); echo "$id: $T"
(cd /repo && sh $D/demo.sh >/tmp/s.log 2>&1); a=$?
(cd $S && sh $D/demo.sh >/tmp/s2.log 2>&1); b=$?
echo "$id: demo clean=$a patched=$b"
[ $a = 0 ] || tail -5 /tmp/s.log
cd $V && SA_REPO=$S SA_EVID=/tmp/ev python3 check.py $prop > /tmp/s3.log; c=$?
echo "$id: check exit=$c"; grep -v "^UNDECIDED" /tmp/s3.log | head -4
git -C $S checkout -q -- .
