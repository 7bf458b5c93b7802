#!/bin/bash
# against.sh PATCH|revert:HASH[,HASH..] "PROPS" [SCALE] [VARIANTS]: runs checks against a changed scratch copy of /repo
what=$1; props=$2; scale=${3:-0.3}; variants=${4:-dbg}
d=$(mktemp -d /tmp/ag.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir $d/repo; (cd /repo && tar c --exclude=./target --exclude=./.git . ) | tar x -C $d/repo
if [[ $what == revert:* ]]; then
  l=${what#revert:}
  for h in ${l//,/ }; do git -C /repo show $h -- src | git -C $d/repo apply -R -3 - 2>/dev/null || (cd $d/repo && git -C /repo show $h -- src | patch -R -p1 -F3 -s --no-backup-if-mismatch) || { echo "$what: does not revert"; exit 3; }; done
else
  (cd $d/repo && patch -p1 -s < $what) || { echo "$what: does not apply"; exit 3; }
fi
cp -a /verif/harness $d/harness; rm -rf $d/harness/target
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $d/harness/Cargo.toml
sed -i "s#/verif/harness#$d/harness#g" $d/harness/rustc-wrapper.sh
export CARGO_TARGET_DIR=$d/target RUSTC_WRAPPER=$d/harness/rustc-wrapper.sh
for v in $variants; do
  (cd $d/harness && cargo build --offline --profile $v 2>&1 | grep -E '^error' -A9)
  for p in $props; do
    timeout 1500 $d/target/$v/uv run --prop $p --scale $scale --out $d/o.json --variant $v ${ARGS:-} 2>$d/err; rc=$?
    echo "$(basename $what) $p $v rc=$rc $(grep -h '^FATAL' $d/err | head -1 | cut -c1-300)"
    [ -f $d/o.json ] && python3 - $d/o.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print('   n_violations',d['n_violations'],'of',d['evaluations'],'lacking',d['lacking'],'wall',round(d['wall_s']))
for v in d['violations'][:2]: print('   V',v['scenario'],v['index'],v['text'][:250])
P
    rm -f $d/o.json
  done
done
