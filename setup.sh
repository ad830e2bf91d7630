#!/bin/bash
# Builds the MIR fact extractor and extracts the facts once (checks do it again if needed).
cd "$(dirname "$0")" || exit 3
python3 engine/facts.py
