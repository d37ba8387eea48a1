# sourced by demo.sh with cwd /repo; compiles $1 with the library's sources into $OUT/demo
D=$(cd "$(dirname "$0")" && pwd)
OUT=$(mktemp -d)
trap 'rm -rf "$OUT"' EXIT
SRCS="src/entry.c src/entry_cdecl.c src/entry_db.c src/entry_tag.c src/hashmap.c src/iterator.c src/printf_format.c src/value.c src/value_base_type.c src/value_deep.c src/value_string.c src/value_with_args.c"
build() { # file extra-flags...
    f=$1; shift
    gcc -g -O0 -D_METAC_OFF_ -fno-builtin-malloc -w -Iinclude -Isrc -I"$D" "$@" "$D/$f" $SRCS -o "$OUT/demo" || { echo "demo does not build"; exit 3; }
}
build_fi() {
    build "$1" "$D/fi.c" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=free
}
