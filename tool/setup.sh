#!/bin/bash
# build the fact extractor and warm the dependency cache
cd "$(dirname "$0")/.." && mkdir -p build evidence && bash tool/extract.sh build/setup-facts.json && rm -f build/setup-facts.json
