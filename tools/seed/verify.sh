#!/bin/bash
# verify.sh ID...: in a private mount-free copy: demo on HEAD and on patch; then own check on patch.
# Works on copies whose shim points at the copy instead of /repo. Prints one line per bug.
V=${V:-/verif}
one() {
  i=$1; d=$V/seeded/$i; w=/tmp/seedv/$i
  rm -rf /tmp/seedv/$i; mkdir -p $w
  git -C /repo archive HEAD | (mkdir -p $w/repo && tar -x -C $w/repo)
  cp -r $d $w/bug
  sed -i "s#/repo/src#$w/repo/src#" $w/bug/shim/Cargo.toml $w/bug/demo.rs
  bash $w/bug/demo.sh >$w/clean.log 2>&1; c=$?
  (cd $w/repo && git init -q . && git apply $d/patch.diff) || { echo "$i: patch does not apply"; return; }
  bash $w/bug/demo.sh >$w/bad.log 2>&1; b=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p $w/h; cp -r $V/harness/stubs $V/harness/shim $V/harness/part $w/h/; mkdir $w/h/monitor; cp -r $V/harness/monitor/{Cargo.toml,Cargo.lock,src} $w/h/monitor/
  sed -i "s#/repo/#$w/repo/#" $w/h/shim/Cargo.toml $w/h/part/src/lib.rs
  caught=""
  if (cd $w/h/monitor && export CARGO_TARGET_DIR=$w/target RUSTFLAGS="--cap-lints allow"; cargo build --offline -q 2>$w/build.log && cargo build --offline -q --no-default-features --features xmlutil --bin part 2>$w/build.log); then
    for q in ${CHECKS:-$p}; do
      [ $q = C33 ] && [ -z "$ALSO33" ] && [ $p != C33 ] && continue
      if [ $q = C37 ]; then cp -r $V/harness/tools $w/h/; rm -rf $w/h/tools/target; sed -i "s#/repo/#$w/repo/#" $w/h/tools/Cargo.toml
        (cd $w/h/tools && CARGO_TARGET_DIR=$w/ttarget RUSTFLAGS="--cap-lints allow" cargo build --offline -q 2>$w/build.log); export LLAMAPUN_TOOLS=$w/ttarget/debug; fi
      exe=monitor; case $q in C14|C15|C16|C29|C31|C32) exe=part;; esac
      $w/target/debug/$exe $q --tier quick --seed ${SEED:-1} --scale ${SCALE:-1} --evidence $w/e.json --replay-dir $w/r --known $V/known_findings.json --scratch $w >$w/$q.log 2>&1; r=$?
      [ $r = 1 ] && caught="$caught $q"; [ $r -gt 1 ] && caught="$caught $q(err$r)"
    done
  else caught=" BUILD-FAILED"; fi
  echo "$i property=$p clean=$c bad=$b caught:$caught"
  rm -rf /tmp/seedv/$i/ttarget /tmp/seedv/$i/target /tmp/seedv/$i/h /tmp/seedv/$i/repo
}
export -f one; export V CHECKS SCALE SEED ALSO33
printf '%s\n' "$@" | xargs -P4 -I{} bash -c 'one {}'
