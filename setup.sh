#!/bin/bash
# builds the driver and the dependencies of the analysed crates, offline
set -e
cd "$(dirname "$0")"
python3 analysis/build.py
