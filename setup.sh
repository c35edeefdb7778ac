#!/bin/bash
# Builds the MIR dumping driver from the committed sources, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
cd driver
CARGO_TARGET_DIR=/verif/build/driver cargo +nightly build --release --offline
