#!/bin/bash
# Builds the harness once (which also warms the build cache) and parses the specification.
cd "$(dirname "$0")/.." || exit 1
exec python3 bin/setup.py
