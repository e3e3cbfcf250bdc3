#!/bin/bash
# Nothing is kept between runs: this only checks that the tools are there.
set -e
. /opt/vp/env.sh
go version
command -v tlc python3 java
