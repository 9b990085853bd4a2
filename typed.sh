#!/bin/bash
# typed.sh check [tier] | replay <file> [-v..]: P02. Generates parsers from a sample of grammars, compiles them, explores them.
. /verif/env.sh
P=/verif/replays; mkdir -p $P
D=$CARGO_TARGET_DIR/typed; ONLY=
if [ "$1" = replay ]; then ONLY=$(sed -n 's/^param gseed //p' "$2"); D=$CARGO_TARGET_DIR/typed1; fi
if [ "$1" = one ]; then shift; "$D"/../x86_64-unknown-linux-gnu/debug/fallsim_typed one P02 "$@"; exit; fi
exec 8>"$CARGO_TARGET_DIR/.typed-lock"; flock 8
# report <gseed> <what>: a grammar whose parser cannot be generated or compiled
report() { f=$P/P02-grammar-$1.replay; printf 'fallsim-replay 1\nproperty P02\nseed 1\nclass %s\nparam gseed %s\nmode trace\n' "$2" "$1" >$f; echo "VIOLATION property=P02 replay=$f"; exit 1; }
mkdir -p "$D"
[ "$1" = build ] && set -- build quick
VERIF_TIER=${2:-${VERIF_TIER:-quick}}; [ "$VERIF_TIER" = thorough ] || VERIF_TIER=quick; export VERIF_TIER
"$FALLSIM" emit "$D" $ONLY >"$D/emit.log" 2>&1; rc=$?
if [ $rc = 3 ]; then head -60 "$D/emit.log"; report "$(sed -n 's/^grammar \([0-9]*\) violates.*/\1/p' "$D/emit.log" | head -1)" generate-fails; fi
if [ $rc != 0 ]; then tail -20 "$D/emit.log" >&2; echo "HARNESS ERROR: emit" >&2; exit 2; fi
cp --update=none /verif/sim/Cargo.lock "$D/Cargo.lock"
(cd "$D" && cargo build --offline --target x86_64-unknown-linux-gnu >build.log 2>&1); rc=$?
if [ $rc != 0 ]; then
  m=$(grep -oE '^ *--> src/[gp][0-9]+\.rs' "$D/build.log" | grep -oE '[0-9]+' | head -1)
  if [ -n "$m" ] && ! grep -q '^error.*could not compile `fall[a-z_]*` (lib' "$D/build.log"; then
    s=$(sed -n 's/^\/\/ grammar //p' "$D/src/g$m.fall"); echo "grammar $s violates P02: does-not-compile: the parser generated from"; cat "$D/src/g$m.fall"; grep -E '^error' -A12 "$D/build.log" | head -40; report "$s" does-not-compile; fi
  grep -E '^error' -A8 "$D/build.log" | head -40 >&2; echo "HARNESS ERROR: build failed" >&2; exit 2
fi
B=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/fallsim_typed
if [ -n "$ONLY" ]; then grep -q '^op \|^param threads' "$2" && exec "$B" "$@"; echo "the parser compiles"; exit 0; fi
exec 8>&-
[ "$1" = build ] && exit 0
exec "$B" check P02 "$VERIF_TIER"
