#!/bin/sh
# builds the extractor and the replay crate (offline); the checks rebuild what changed
cd "$(dirname "$0")" || exit 1
(cd vx && cargo build --offline --quiet) || exit 1
(cd replay && RUSTFLAGS="--cfg dbml_verif" cargo build --offline --quiet) || exit 1
# the extracted text as a program (its dependencies are what takes the time); the checks report when it cannot be built
mkdir -p out/setup && vx/target/debug/vx --repo /repo --contracts contracts --out out/setup/gen.rs --run out/setup/run.rs
(cd exval && EXVAL_RUN="$(cd .. && pwd)/out/setup/run.rs" CARGO_TARGET_DIR="$(cd .. && pwd)/replay/target" RUSTFLAGS="--cfg dbml_verif" cargo build --offline --quiet)
exit 0
