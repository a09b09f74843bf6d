#!/bin/bash
# build the extractor and the native harness once, from the committed files and /repo's working tree
cd "$(dirname "$0")/.." && exec python3 bin/setup.py
