#!/bin/bash
# builds the MIR dump driver and warms the dump of the current tree
set -e
cd "$(dirname "$0")"
python3 -B engine/frontend.py grib roots gen codegen cli demo buildrs
