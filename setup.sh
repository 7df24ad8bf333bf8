#!/bin/bash
# builds the environment shim (run.sh builds it too if it is missing)
cd "$(dirname "$0")" && mkdir -p build evidence && gcc -O1 -shared -fPIC -o build/shim.so shim/shim.c -ldl
