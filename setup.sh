#!/bin/bash
# Compiles everything once, so that the build cache is warm.
cd "$(dirname "$0")" && T=$(mktemp -d /tmp/verifsetup.XXXXXX) && ./run.sh bin "$T/mc"; rc=$?; rm -rf "$T"; exit $rc
