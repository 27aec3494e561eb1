#!/bin/bash
# builds the fact extractor (rustc front-end plugin) into ./build
cd "$(dirname "$0")/engine" && exec python3 build.py
