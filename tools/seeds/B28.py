PROPERTY="C20"
NEEDS="a module in an earlier look-up path whose kind is known but whose spec file asked for does not load, and a good one in a later path that is of another kind"
BREAKS="the look-up of the module's kind happens with the kind of the first module found: the first loadable instance is not found or is loaded by the wrong kind"
EDITS=[("pkg/module/module.go","instance, err := mr.newInstanceByFullInfo(info.Kind, info.Path, specFilename)","instance, err := mr.newInstanceByFullInfo(infos[0].Kind, info.Path, specFilename)")]
FILES={"demo.sh":"""
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$(mktemp -d)"
trap 'rm -rf "$OUT"' EXIT
cp go.mod go.sum "$OUT/"
mkdir -p "$OUT/pkg" "$OUT/x"
cp -r pkg/module "$OUT/pkg/module"
rm -rf "$OUT/pkg/module/gotemplate"
cp "$HERE/demo.go.txt" "$OUT/x/main.go"
cd "$OUT"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOCACHE="$OUT/cache"
go run ./x "$OUT/w"
""","demo.go.txt":r"""
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/aodinokov/metac/pkg/module"
)

type inst struct{ kind, path string }

func (i *inst) Run(string, []string) ([]byte, error) { return nil, nil }

type kind struct{ name string }

func (k *kind) NewInstance(r *module.Runner, path string, spec string) (module.Instance, error) {
	if _, err := os.Stat(filepath.Join(path, spec)); err != nil {
		return nil, errors.New("no spec")
	}
	return &inst{k.name, path}, nil
}

func main() {
	w := os.Args[1]
	for i, k := range []string{"a", "b"} {
		d := filepath.Join(w, fmt.Sprint(i), "m")
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, "module.yaml"), []byte("kind: "+k+"\n"), 0o644)
	}
	os.WriteFile(filepath.Join(w, "1", "m", "other.yaml"), []byte("kind: b\n"), 0o644)
	r := module.Runner{Kinds: map[string]module.Kind{"a": &kind{"a"}, "b": &kind{"b"}}, Paths: []string{filepath.Join(w, "0"), filepath.Join(w, "1")}}
	i, err := r.NewInstance("m", "other.yaml")
	if err != nil {
		fmt.Println("not found:", err)
		os.Exit(1)
	}
	if g := i.(*inst); g.kind != "b" {
		fmt.Println("loaded with kind", g.kind)
		os.Exit(1)
	}
}
"""}
