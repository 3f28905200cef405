#!/bin/bash
# Builds the framework from the committed files, offline.
set -eu
cd "$(dirname "$(readlink -f "$0")")"
tools/build.sh farm farmcheck farming
tools/build.sh amm ammcheck amm
