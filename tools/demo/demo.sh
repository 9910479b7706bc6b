#!/bin/bash
# Builds the engine from the sources in the current directory (a ginga tree)
# and runs demo.cpp against it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
P="glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 libxml-2.0
gdk-3.0 gdk-pixbuf-2.0 cairo fontconfig pango pangocairo librsvg-2.0
gstreamer-1.0 gstreamer-base-1.0 gstreamer-app-1.0 gstreamer-video-1.0
gtk+-3.0 jsoncpp lua5.3"
CF="-std=c++11 -O0 -w $DEMO_FLAGS -D_GLIBCXX_ASSERTIONS -I$D/stubs -I$R/lib $(pkg-config --cflags $P)"
ls "$R"/lib/*.cpp | grep -v -e PlayerHTML -e PlayerJavaScript > "$T/list"
printf '%s\n' "$D/stubs.cpp" "$D/demo.cpp" >> "$T/list"
xargs -P 8 -I{} sh -c 'g++ '"$CF"' -c "$1" -o '"$T"'/$(basename "$1" .cpp).o' _ {} < "$T/list" || { echo "does not compile"; exit 2; }
g++ $DEMO_FLAGS -o "$T/demo" "$T"/*.o $(pkg-config --libs $P) -lpthread || exit 2
mkdir "$T/run" && cd "$T/run" || exit 2
DEMO_TMP="$T/run" HOME="$T/run" XDG_CACHE_HOME="$T/run" G_ENABLE_DIAGNOSTIC=0 timeout 60 "$T/demo"
