#!/bin/bash
# Checks that the simulator builds against /repo; every check builds it again from the current tree.
cd "$(dirname "$0")" && exec ./check.sh build
