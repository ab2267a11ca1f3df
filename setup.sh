#!/bin/bash
# Checks compile what they need from /repo by themselves; this only verifies that the tools are there
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 --version
mkdir -p build evidence replays
