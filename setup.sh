#!/bin/bash
# builds the extractor and pre-extracts the current tree (checks redo either when missing or stale)
cd "$(dirname "$0")" || exit 1
python3 -c 'from t8sa import model; P = model.program(); print(len(P.all), "functions")'
