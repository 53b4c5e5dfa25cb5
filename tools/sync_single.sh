#!/bin/bash
# development helper: carry an include/ change (git diff RANGE) over to the single headers
set -e
cd /repo; range="${1:-HEAD}"
for f in $(git diff --name-only $range -- include | grep '\.hpp$'); do
  for s in single-header/ctre.hpp single-header/ctre-unicode.hpp; do
    git diff $range -- $f | sed -n '/^@@/,$p' | (echo "--- a/$s"; echo "+++ b/$s"; cat) > /tmp/x/one.diff
    patch -p1 -F2 --no-backup-if-mismatch $s /tmp/x/one.diff
  done
done
