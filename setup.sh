#!/bin/bash
# Warms the build cache (the checks build everything they need themselves).
cd "$(dirname "$0")" && VERIF_BUILD_ONLY=1 ./run.sh C22 quick
exit 0
