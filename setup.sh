#!/bin/bash
# Builds the MIR extractor (offline).
set -e
cd "$(dirname "$0")/extractor"
cargo +nightly build --release --offline --locked
