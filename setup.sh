#!/bin/bash
# Builds the extractor, its precompiled headers and the facts of the current tree.
set -e
cd "$(dirname "$0")"
python3 engine/facts.py
