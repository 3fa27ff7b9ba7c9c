#!/bin/bash
# Builds the framework from the committed files.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
build vh && build zoo && build gen && build cli
