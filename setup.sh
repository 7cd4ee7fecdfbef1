#!/bin/bash
# builds the extractor and the native harness from the committed files (each check rebuilds what it needs too)
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
(cd extract && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../build/extract" cargo build --offline --release -q) || exit 1
bash native/mkws.sh || exit 1
bash native/mkfull.sh || exit 1
echo setup done
