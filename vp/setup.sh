#!/bin/bash
# Prepare the framework from the committed files; checks rebuild what they need themselves.
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
cargo kani --version
mkdir -p target evidence
