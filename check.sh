#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the harness of the property against /repo's working tree and explores it.
# exit 0: held everywhere explored; 1: violated (VIOLATION line); other: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. ./env.sh
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
features=
case $prop in
  C01|C02|C03) crate=codec; features=wire ;;
  C04) crate=codec; features=sized ;;
  C05) crate=codec; features=lists ;;
  C06) crate=codec; features=unions ;;
  C26) crate=codec; features=equal ;;
  C20|C23) crate=codec; features=numbers ;;
  C07) crate=derive ;;
  C08|C09|C21|C25) crate=core ;;
  C10|C11|C12) crate=client ;;
  C13|C14|C22) crate=tcp ;;
  C15|C16|C17|C18|C19|C24) crate=server ;;
  *) echo "unknown property $prop" >&2; exit 2 ;;
esac
mkdir -p evidence replays
rm -f "evidence/$prop.json" replays/"$prop"-*.txt
log=$(mktemp) || exit 2
mkdir -p "$CARGO_TARGET_DIR/run"
bin=$CARGO_TARGET_DIR/run/mc-$crate.$prop.$$
# one build at a time: the codec harness is built with different features for different properties
exec 9>"$CARGO_TARGET_DIR/run/lock"
flock 9
if ! (cd "harness/$crate" && cargo build --release --offline --quiet ${features:+--no-default-features --features $features} 9>&- &&
      cp "$CARGO_TARGET_DIR/release/mc-$crate" "$bin") >"$log" 2>&1; then
  cat "$log" >&2
  # C07 is about the code the derive macros generate: types of the harness that they no longer compile for
  # are violations (everything the harness depends on has compiled by then).
  if [ "$prop" = C07 ] && grep -q 'could not compile `mc-derive`' "$log"; then
    f=$VERIF_ROOT/replays/$prop-build.txt
    { echo "property: $prop"; echo "a type of harness/derive that the derive macros accepted no longer compiles:"; head -c 4000 "$log"; } >"$f"
    echo "VIOLATION property=$prop replay=$f"
    printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":1,"transitions":1,"traces_validated_against_impl":1,"samples":["harness/derive does not compile"]},"wall_s":0,"violations":1}\n' "$prop" "$tier" "${VERIF_SEED:-1}" >"evidence/$prop.json"
    rm -f "$log" "$bin"
    exit 1
  fi
  rm -f "$log" "$bin"
  echo "check $prop: the harness does not build against /repo" >&2
  exit 2
fi
exec 9>&-
rm -f "$log"
out=$(mktemp) || exit 2
"$bin" "$prop" "$tier" 2>"$out"
rc=$?
cat "$out" >&2
# A process killed by a fatal signal of its own (abort, segmentation fault, stack overflow) is code under test
# crashing; being killed from outside is no answer.
if [ $rc -eq 134 ] || [ $rc -eq 139 ] || [ $rc -eq 135 ] || [ $rc -eq 132 ]; then
  f=$VERIF_ROOT/replays/$prop-crash.txt
  { echo "property: $prop"; echo "the code under test crashed the process (exit $rc) in: ./check.sh $prop $tier"; tail -c 4000 "$out"; } >"$f"
  echo "VIOLATION property=$prop replay=$f"
  [ -e "evidence/$prop.json" ] || printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":1,"transitions":1,"traces_validated_against_impl":1,"samples":["crash, exit %s"]},"wall_s":0,"violations":1}\n' "$prop" "$tier" "${VERIF_SEED:-1}" "$rc" >"evidence/$prop.json"
  rc=1
fi
rm -f "$out" "$bin"
exit $rc
