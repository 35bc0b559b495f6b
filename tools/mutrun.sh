#!/bin/bash
# Development tool (no registered command uses it): runs checks against a changed scratch copy of /repo.
#   mutrun.sh [-R] [-d] PATCH ID...     (-R: apply the patch in reverse; -d: only run demo.sh beside PATCH; ALL: every check)
# SLOT=n uses scratch directory /tmp/mut-n. The copy's build output is kept between runs; remove /tmp/mut-* when done.
R=; D=
while [ "${1#-}" != "$1" ]; do case $1 in -R) R=-R;; -d) D=1;; esac; shift; done
P=$(readlink -f "$1"); shift
V=$(dirname "$(dirname "$(readlink -f "$0")")")
W=/tmp/mut-${SLOT:-0}
mkdir -p $W/verif
[ -d $W/repo ] || cp -a /repo $W/repo
rm -rf $W/harness; mkdir $W/harness
cp -r $V/harness/src $V/harness/Cargo.toml $V/harness/Cargo.lock $W/harness/
sed -i "s#/repo/#$W/repo/#" $W/harness/Cargo.toml
cd $W/repo || exit 9
git fetch -q ${REPO:-/repo} HEAD 2>/dev/null; git checkout -q -f FETCH_HEAD -- . ; git reset -q --hard FETCH_HEAD
git apply $R "$P" || { echo "patch does not apply"; exit 9; }
find . -path ./target -prune -o -name '*.rs' -print0 | xargs -0 touch
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if [ -n "$D" ]; then
    CARGO_TARGET_DIR=$W/repo/target cargo build --offline --workspace -q 2>&1 | grep -E '^error' -A9
    bash "$(dirname "$P")/demo.sh"; echo "demo exit $?"; exit
fi
[ -e $W/shim.so ] || cc -O1 -fno-delete-null-pointer-checks -w -shared -fPIC -o $W/shim.so $V/shim/shim.c -ldl
(CARGO_TARGET_DIR=$W/tr cargo build --offline -q -p pw_diff -p pw_patch && cd ../harness && CARGO_TARGET_DIR=$W/t cargo build --offline --release -q) >$W/log 2>&1 || { grep -E '^error' -A9 $W/log; exit 9; }
rm -rf $W/verif/regressions; [ -n "$REG" ] && cp -r $V/regressions $W/verif/
export PBT_VERIF_DIR=$W/verif PBT_BIN_DIR=$W/tr/debug PBT_SHIM=$W/shim.so VERIF_SEED=${VERIF_SEED:-1}
ids="$*"; [ "$ids" = ALL ] && ids=$($W/t/release/pbt list | cut -d' ' -f1)
hit=
for i in $ids; do
    out=$($W/t/release/pbt run $i ${TIER:-quick} 2>&1); rc=$?
    case $rc in 0) ;; 1) hit="$hit $i"; [ -n "$VERBOSE" ] && echo "$out" | tail -3 | cut -c1-600;; *) hit="$hit $i(rc$rc)"; echo "$out" | tail -2;; esac
done
echo "caught by:$hit"
