#!/bin/bash
# usage: check.sh ID            run the check of one property (VERIF_TIER=quick|thorough)
#        check.sh ID replay F   re-run the single case recorded in replay file F
#        check.sh build         only build
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$V/target RUSTFLAGS="--cfg vp_hooks -Awarnings"
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_INCREMENTAL
id=$1
case $id in
    A*) bins=arith;; S*) bins=sumcheck;; K*) bins=kzg;; T*) bins=session;; G*) bins=gadgets;;
    build) bins="gadgets arith sumcheck kzg session";;
    *) echo "check.sh: unknown property $id"; exit 2;;
esac
mkdir -p target evidence replays
build() { # variant, extra args
    local b
    local v=$1; shift
    # cargo goes by mtimes, which a restored file defeats: always look at the crate again
    rm -rf target/release/.fingerprint/zk_sql-* target/release/.fingerprint/vpmc-*
    local args=(); for b in $bins; do args+=(--bin "$b"); done
    if ! (cd harness && timeout 800 cargo build --release --offline --locked "${args[@]}" "$@") > "target/build-$v.log" 2>&1; then
        cat "target/build-$v.log" | grep -E '^error' -A8 | head -60
        echo "check.sh: the harness does not build against /repo ($v)"; return 1
    fi
    for b in $bins; do cp -f "target/release/$b" "target/$b-$v"; done
}
(
    flock 9
    build release && build debug --config 'profile.release.package.zk_sql.debug-assertions=true' --config 'profile.release.package.zk_sql.overflow-checks=true'
) 9> target/.lock || exit 2
[ "$id" = build ] && exit 0
if [ "$2" = replay ]; then
    var=$(sed -n 's/^variant: //p' "$3"); space=$(sed -n 's/^space: //p' "$3"); ix=$(sed -n 's/^index: //p' "$3")
    VERIF_TIER=$(sed -n 's/^tier: //p' "$3") exec "target/$bins-$var" "$id" --variant "$var" --known known_findings.txt --only "$space" "$ix"
fi
rm -f target/part-"$id"-*.json replays/"$id"-*.txt
rc=0; start=$(date +%s.%N)
lim=800; [ "$VERIF_TIER" = thorough ] && lim=14000
for var in release debug; do
    timeout -k 10 $lim "target/$bins-$var" "$id" --variant $var --known known_findings.txt --replays replays --out "target/part-$id-$var.json" ${VP_VERBOSE:+-v}
    r=$?
    [ $r -gt 1 ] && { echo "check.sh: $id ($var) ended with $r"; exit 2; }
    [ $r -eq 1 ] && rc=1
done
python3 tools/evidence.py "$id" "$rc" "$start" || exit 2
exit $rc
