#!/bin/sh
# Compiler launcher: same flags as the shipped build minus LTO and debug info (compile time only).
exec "$@" -fno-lto -g0
