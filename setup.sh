#!/bin/bash
# Builds the verifier. Every check builds it itself if it is missing.
cd "$(dirname "$0")" && exec python3 -c 'import check; print(check.build_gocv())'
