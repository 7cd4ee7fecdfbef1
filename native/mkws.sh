#!/bin/bash
# Builds the native search/replay harness against /repo's current sources (salsa-free part), offline.
# Mirrors /opt/vp/env.sh's make_ws, but in /verif/build/ws, and never writes into /repo or /opt/vp.
set -e
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${VBUILD:-$(dirname "$HERE")/build}
WS=$OUT/ws
C=$REPO/crates
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1
unset RUSTC_WRAPPER || true
export CARGO_TARGET_DIR=$OUT/native-target
put() { mkdir -p "$(dirname "$1")"; cat > "$1.new"; if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv -f "$1.new" "$1"; fi; }
tree() { # SRC DST: copies of the files below SRC, written only when they change (so that cargo sees changes by the time of writing)
  if [ -L "$2" ]; then unlink "$2"; fi
  mkdir -p "$2"; find "$2" -type l -delete
  (cd "$2" && find . -type f) | while read -r f; do [ -e "$1/$f" ] || [ "$f" = ./lib.rs ] || unlink "$2/$f"; done
  (cd "$1" && find . -type f) | while read -r f; do if [ "$f" != ./lib.rs ] || [ "${3-}" = all ]; then put "$2/$f" < "$1/$f"; fi; done
}
put $WS/Cargo.toml <<'T'
[workspace]
members = ["crates/*"]
[profile.dev]
opt-level = 1
T
mkdir -p $WS/crates
if [ -L $WS/crates/analyzer-abstractions ]; then unlink $WS/crates/analyzer-abstractions; fi
tree $C/analyzer-abstractions/src $WS/crates/analyzer-abstractions/src all
put $WS/crates/analyzer-abstractions/Cargo.toml < $C/analyzer-abstractions/Cargo.toml
awk '/^\[/{skip=($0=="[[bench]]"||$0=="[dev-dependencies]")} !skip && !/^salsa *=/' $C/analyzer-core/Cargo.toml | put $WS/crates/analyzer-core/Cargo.toml
tree $C/analyzer-core/src $WS/crates/analyzer-core/src
grep -E '^(pub )?mod (lsp_file|parser);' $C/analyzer-core/src/lib.rs | sed 's/^mod/pub mod/' | put $WS/crates/analyzer-core/src/lib.rs
grep -v '^analyzer-core *=' $C/analyzer-host/Cargo.toml | put $WS/crates/analyzer-host/Cargo.toml
tree $C/analyzer-host/src $WS/crates/analyzer-host/src
grep -E '^(pub )?mod json_rpc;' $C/analyzer-host/src/lib.rs | sed 's/^mod/pub mod/' | put $WS/crates/analyzer-host/src/lib.rs
mkdir -p $WS/crates/vnative
ln -sfn $HERE/src $WS/crates/vnative/src
ln -sfn $HERE/Cargo.ws.toml $WS/crates/vnative/Cargo.toml
cp $REPO/Cargo.lock $WS/Cargo.lock
cd $WS
exec cargo build --offline -p vnative "$@"
