#!/bin/sh
# The per-field harnesses differ in the prime's name only.
cd "$(dirname "$0")" && for p in 503 751; do sed "/p434 only/d;s/434/$p/g" sidh434_test.go > sidh${p}_test.go; done
