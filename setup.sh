#!/bin/bash
# builds the weaver and the executable contracts (offline)
export RUSTFLAGS="--cap-lints allow" CARGO_NET_OFFLINE=true
cd "$(dirname "$0")"
(cd weaver && cargo build --offline -q) && (cd harness && cargo build --offline -q)
mkdir -p evidence build
