#!/bin/bash
# Warms the build cache; every check rebuilds from /repo anyway.
cd "$(dirname "$0")/harness" && . ../harness/env.sh && go build -o /dev/null ./cmd
