#!/bin/bash
# builds the extractor and fills the fact cache (checks do the same on demand)
cd "$(dirname "$0")" && python3 -m fx.extract
