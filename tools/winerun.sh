#!/bin/bash
# dev helper: winerun.sh PREFIX cmd...
export WINEPREFIX=$1; shift
export HOME=/tmp/winehome WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
mkdir -p $HOME
mkdir -p $(dirname $WINEPREFIX); [ -d $WINEPREFIX ] || { /usr/lib/wine/wineserver -p; wineboot -i >/dev/null 2>&1; }
exec wine "$@"
