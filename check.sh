#!/bin/bash
# usage: check.sh <property> : decides one property on /repo's current tree
cd "$(dirname "$0")" && exec python3 -m fx.run "$@"
