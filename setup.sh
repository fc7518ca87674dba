#!/bin/bash
# Builds every checker once, from committed files only, offline.
cd /verif || exit 2
for c in $(awk '{print $2}' checks.txt | sort -u); do
    CRATE=$c ./check --build-only || echo "$c: to be built check by check"
done
