#!/bin/bash
# Builds what the checks need from the committed files of /verif.
set -e
cd "$(dirname "$0")"
python3 harness/check.py --build
