#!/bin/bash
# Build the extractor and warm the extraction of the current tree (every check redoes this if needed).
set -e
cd "$(dirname "$0")"
python3 -c 'from sa import base; print(base.extract())'
