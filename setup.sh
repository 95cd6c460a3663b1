#!/bin/bash
# Builds the framework once; the checks rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_light && build_heavy
