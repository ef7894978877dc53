#!/bin/bash
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/build.sh"
vmc_build all
