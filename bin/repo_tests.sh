#!/bin/bash
# Runs every test of the repository (also those that need upb) against the shim.
V=${1:-plain}
B=$(python3 "$(dirname "$0")/build.py" $V --tests) || exit 3
export S2A_ACCESS_TOKEN=s2a_access_token_from_env_variable
rc=0
for t in $B/*_test; do
  $t > $t.log 2>&1 || { echo "FAILED $t"; grep -E "FAILED|ERROR" $t.log | head -5; rc=1; }
  echo "$(basename $t): $(grep -E '^\[  PASSED' $t.log)"
done
exit $rc
