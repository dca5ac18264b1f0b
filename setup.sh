#!/bin/bash
# builds everything once, so that mistakes show early; the checks build what they need themselves
cd "$(dirname "$0")"
harness/build.sh mc sel conc-C08 conc-C11 conc-C12 conc-C23
