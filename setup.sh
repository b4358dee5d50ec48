#!/bin/sh
cd "$(dirname "$0")/mc" && cargo build --release --offline
