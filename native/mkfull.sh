#!/bin/bash
# The second native workspace: all of analyzer-core and analyzer-host (items made public), against a stand-in for salsa
# (native/salsa), which is not available offline. Used for the properties whose code /opt/vp/build.sh only parses.
set -e
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${VBUILD:-$(dirname "$HERE")/build}
WS=$OUT/wsf
C=$REPO/crates
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1
unset RUSTC_WRAPPER || true
export CARGO_TARGET_DIR=$OUT/full-target
put() { mkdir -p "$(dirname "$1")"; cat > "$1.new"; if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv -f "$1.new" "$1"; fi; }
tree() { # SRC DST: copies of the files below SRC, written only when they change (so that cargo sees changes by the time of writing)
  if [ -L "$2" ]; then unlink "$2"; fi
  mkdir -p "$2"; find "$2" -type l -delete
  (cd "$2" && find . -type f) | while read -r f; do [ -e "$1/$f" ] || [ "$f" = ./lib.rs ] || unlink "$2/$f"; done
  (cd "$1" && find . -type f) | while read -r f; do if [ "$f" != ./lib.rs ] || [ "${3-}" = all ]; then put "$2/$f" < "$1/$f"; fi; done
}
copies() { # SRC DST: every .rs file below SRC, visibility opened where the search needs it
  mkdir -p "$2"
  (cd "$2" && find . -name '*.rs' | while read -r f; do [ -e "$1/$f" ] || rm -f "$f"; done)
  (cd "$1" && find . -name '*.rs') | while read -r f; do
    sed -E 's/pub\((crate|super)\)/pub/g; s/^mod ([a-z_]+)( \{|;)/pub mod \1\2/; s/^\tfn (interpret_pp_expr|interpret_condition|process_background_analyze_requests)\b/\tpub fn \1/' "$1/$f" | put "$2/$f"
  done
}
put $WS/Cargo.toml <<'X'
[workspace]
members = ["crates/*"]
[profile.dev]
opt-level = 1
X
mkdir -p $WS/crates
if [ -L $WS/crates/analyzer-abstractions ]; then unlink $WS/crates/analyzer-abstractions; fi
tree $C/analyzer-abstractions/src $WS/crates/analyzer-abstractions/src all
put $WS/crates/analyzer-abstractions/Cargo.toml < $C/analyzer-abstractions/Cargo.toml
ln -sfn $HERE/salsa $WS/crates/salsa-2022
ln -sfn $HERE/salsa-macros $WS/crates/salsa-2022-macros
awk '/^\[/{skip=($0=="[[bench]]"||$0=="[dev-dependencies]")} !skip' $C/analyzer-core/Cargo.toml | sed 's|^salsa *=.*|salsa = { path = "../salsa-2022", package = "salsa-2022" }|' | put $WS/crates/analyzer-core/Cargo.toml
cat $C/analyzer-host/Cargo.toml | put $WS/crates/analyzer-host/Cargo.toml
copies $C/analyzer-core/src $WS/crates/analyzer-core/src
copies $C/analyzer-host/src $WS/crates/analyzer-host/src
mkdir -p $WS/crates/vfull
ln -sfn $HERE/full/src $WS/crates/vfull/src
ln -sfn $HERE/full/Cargo.ws.toml $WS/crates/vfull/Cargo.toml
sed '/^name = "salsa-2022/,/^$/{/^source/d}' $REPO/Cargo.lock > $WS/Cargo.lock
cd $WS
exec cargo build --offline -p vfull "$@"
