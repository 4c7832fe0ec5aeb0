# Development helper: build a harness crate and run checks of it. dev.sh [crate] ID...
c=native; [ -d /verif/harness/$1 ] && { c=$1; shift; }
w=/verif/harness/$c/rustc-wrapper.sh; [ -f $w ] && export RUSTC_WRAPPER=$w
cd /verif/harness/$c && CARGO_TARGET_DIR=/verif/.build/$c CARGO_NET_OFFLINE=true cargo build -q 2>&1 | grep -E "^error" -A12 | head -80
for i in "$@"; do VERIF_LIMIT_S=${VERIF_LIMIT_S:-200} VERIF_EVIDENCE=/tmp/ev-$c-$i.json /verif/.build/$c/debug/v$c $i 2>&1 | cut -c1-1500 | head -60; done
