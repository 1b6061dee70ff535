#!/bin/bash
# snap.sh DIR: a frozen copy of the machinery and its products for long runs while work goes on
mkdir -p "$1" && rsync -a --delete --exclude .git --exclude build --exclude replays /verif/ "$1"/ && mkdir -p "$1/prebuilt" && rsync -a /verif/build/mon/out/{lib,bin,clazy} "$1/prebuilt/"
