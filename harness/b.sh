#!/bin/bash
cd /verif/harness && env -u CARGO_TARGET_DIR CARGO_INCREMENTAL=0 cargo build --offline --message-format short 2>&1 | grep -E "error|^src.*warning" | grep -v "^/repo" | head -${1:-60}
