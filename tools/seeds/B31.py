PROPERTY="C18"
NEEDS="an override that sets an entry of a nested table to null"
BREAKS="the default comes back in place of the null asked for"
EDITS=[("pkg/override/override.go","		} else if !ok {\n			dst[key] = val","		} else if !ok || dv == nil {\n			dst[key] = val")]
FILES={"demo.sh":"""
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(mktemp -d)"
trap 'rm -rf "$OUT"' EXIT
cp go.mod go.sum "$OUT/"
mkdir -p "$OUT/pkg" "$OUT/x" "$OUT/copy"
cp -r pkg/override "$OUT/pkg/override"
rm -f "$OUT/pkg/override/"*_test.go
cp "$HERE/demo.go.txt" "$OUT/x/main.go"
cp "$HERE/copy.go.txt" "$OUT/copy/copy.go"
cd "$OUT"
echo "module github.com/mitchellh/copystructure" > copy/go.mod
echo "replace github.com/mitchellh/copystructure => ./copy" >> go.mod
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOCACHE="$OUT/cache"
go run ./x
""","copy.go.txt":r"""
// stands in for the package of this name, which is not available offline
package copystructure

func Copy(v interface{}) (interface{}, error) {
	switch t := v.(type) {
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, x := range t {
			r[k], _ = Copy(x)
		}
		return r, nil
	case []interface{}:
		r := []interface{}{}
		for _, x := range t {
			y, _ := Copy(x)
			r = append(r, y)
		}
		return r, nil
	}
	return v, nil
}
""","demo.go.txt":r"""
package main

import (
	"fmt"
	"os"

	"github.com/aodinokov/metac/pkg/override"
)

func main() {
	in := map[string]interface{}{"a": 1, "t": map[string]interface{}{"x": 1, "u": map[string]interface{}{"y": 2, "z": 3}}}
	out, err := override.MergeAll(&in, []string{"t: {u: {y: null}}"})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t := (*out)["t"].(map[string]interface{})
	u := t["u"].(map[string]interface{})
	if (*out)["a"] != 1 || t["x"] != 1 || u["z"] != 3 {
		fmt.Println("something not overridden is lost:", *out)
		os.Exit(1)
	}
	if y, ok := u["y"]; !ok || y != nil {
		fmt.Println("the override does not win:", *out)
		os.Exit(1)
	}
}
"""}
