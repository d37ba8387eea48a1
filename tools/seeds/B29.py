PROPERTY="C21"
NEEDS="a constant whose value does not fit 32 bits, read back from JSON or YAML"
BREAKS="constants read from YAML are cut to 32 bits"
EDITS=[("pkg/dwarfy/dwarf.go","			f.Val = int64(f.Val.(int))","			f.Val = int64(int32(f.Val.(int)))")]
FILES={"demo.sh":"""
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(mktemp -d)"
trap 'rm -rf "$OUT"' EXIT
cp go.mod go.sum "$OUT/"
mkdir -p "$OUT/pkg" "$OUT/x"
cp -r pkg/dwarfy "$OUT/pkg/dwarfy"
rm -f "$OUT/pkg/dwarfy/"*_test.go
cp "$HERE/demo.go.txt" "$OUT/x/main.go"
cd "$OUT"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOCACHE="$OUT/cache"
go run ./x
""","demo.go.txt":r"""
package main

import (
	"fmt"
	"os"

	"github.com/aodinokov/metac/pkg/dwarfy"
)

func main() {
	for _, v := range []int64{1, -5, 1 << 31, 1 << 40, -(1 << 33)} {
		d := dwarfy.Data{Entries: map[dwarfy.Offset]*dwarfy.Entry{7: {Tag: "Enumerator", Fields: []*dwarfy.Field{{Attr: "ConstValue", Val: v, Class: "ClassConstant"}}}}}
		b, err := d.ToYamlBuffer()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		g, err := dwarfy.NewDataFromYamlBuffer(b)
		if err != nil || g.Entries[7].Fields[0].Val != v {
			fmt.Println("constant", v, "came back as", g.Entries[7].Fields[0].Val, err)
			os.Exit(1)
		}
	}
}
"""}
