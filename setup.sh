#!/bin/bash
# Builds the harness and the tool once, offline.
cd "$(dirname "$0")" || exit 2
bash tools/build.sh || exit 2
exec bash tools/build-cli.sh
