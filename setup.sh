#!/bin/bash
# Builds the fact extractor and warms the dependency cache under /verif/.build.
set -e
cd "$(dirname "$0")"
exec python3 engine/facts.py
