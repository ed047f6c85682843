#!/bin/sh
# Compile the TLC overrides and compare them with TLC's own arithmetic.
cd "$(dirname "$0")" && exec python3 -B lib/setup.py
