#!/bin/bash
# Nothing is kept between runs; this only verifies that what the checks need is there.
cd "$(dirname "$0")" || exit 1
command -v clang++-18 >/dev/null || { echo "clang++-18 is missing"; exit 1; }
command -v python3 >/dev/null || { echo "python3 is missing"; exit 1; }
mkdir -p build evidence replays
T=$(mktemp -d) || exit 1
printf '#include <zlib.h>\n#include <cstdio>\nint main() { puts(zlibVersion()); }\n' > "$T/t.cpp"
clang++-18 -fsanitize=address "$T/t.cpp" -o "$T/t" -lz && "$T/t" || { echo "no sanitized program can be built"; exit 1; }
rm -rf "$T"
