#!/bin/bash
# Builds the harness once and runs the self-test of the machinery.
cd "$(dirname "$0")" && exec python3 selftest.py
