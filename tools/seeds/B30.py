PROPERTY="C17"
NEEDS="debug data with units that are no compile units (DWARF 5 type units, from -fdebug-types-section), in a compile unit or another unit before them"
BREAKS="the null entry that ends a unit does not end its level: the next unit becomes a child of the unit before it"
EDITS=[("pkg/dwarfy/dwarf.go","			if len(parentsStack) > 1 {","			if len(parentsStack) > 2 {")]
FILES={"demo.sh":"""
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(mktemp -d)"
trap 'rm -rf "$OUT"' EXIT
cp go.mod go.sum "$OUT/"
mkdir -p "$OUT/pkg" "$OUT/x"
cp -r pkg/dwarfy "$OUT/pkg/dwarfy"
rm -f "$OUT/pkg/dwarfy/"*_test.go
cp "$HERE/demo.go.txt" "$OUT/x/main.go"
cp "$HERE/types.c" "$OUT/"
cd "$OUT"
gcc -gdwarf-5 -fdebug-types-section -shared -fPIC types.c -o types.so
gcc -gdwarf-5 -c types.c -o plain.o
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOCACHE="$OUT/cache"
go run ./x plain.o types.so
""","types.c":r"""
struct a { int x; struct b { long y; char z[3]; } b; };
enum e { E1, E2 };
struct c { struct a *p; enum e e; };
struct a va; struct c vc;
int f(struct c *p, int n) { struct d { int q; } d = {n}; { int k = d.q; return p->e + k; } }
""","demo.go.txt":r"""
package main

import (
	"debug/dwarf"
	"debug/elf"
	"fmt"
	"os"

	"github.com/aodinokov/metac/pkg/dwarfy"
)

// children as the nesting of the entries has it
func walk(r *dwarf.Reader, parent dwarfy.Offset, m map[dwarfy.Offset]dwarfy.Offset, top bool) {
	for {
		e, err := r.Next()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if e == nil {
			return
		}
		if e.Tag == 0 {
			if top {
				continue
			}
			return
		}
		m[dwarfy.Offset(e.Offset)] = parent
		if e.Children {
			walk(r, dwarfy.Offset(e.Offset), m, false)
		}
	}
}

func main() {
	for _, n := range os.Args[1:] {
		f, err := elf.Open(n)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dd, err := f.DWARF()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		d, err := dwarfy.NewData(dd)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		m := map[dwarfy.Offset]dwarfy.Offset{}
		walk(dd.Reader(), 0, m, true)
		for o, p := range m {
			e := d.Entries[o]
			if e == nil || e.Parent == nil || *e.Parent != p {
				fmt.Println(n, "entry", o, "should have parent", p)
				os.Exit(1)
			}
		}
	}
}
"""}
