// gossa: type-checked SSA form of the given packages of a module as JSON (one object per function)
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Ins struct {
	Id   string   `json:"id,omitempty"`   // name of the value it defines
	Op   string   `json:"op"`             // instruction
	Sub  string   `json:"sub,omitempty"`  // operator, field name, callee, method
	Type string   `json:"type,omitempty"` // type of the value
	Aux  string   `json:"aux,omitempty"`  // asserted type
	Args []string `json:"args"`           // operands
	N    int      `json:"n,omitempty"`    // index
	Ok   bool     `json:"ok,omitempty"`   // comma-ok form
	Line string   `json:"line,omitempty"`
}
type Block struct {
	Ins  []Ins `json:"ins"`
	Succ []int `json:"succ"`
	Pred []int `json:"pred"`
}
type Fn struct {
	Name    string            `json:"name"`
	Pkg     string            `json:"pkg"`
	Recv    string            `json:"recv,omitempty"`
	Line    string            `json:"line"`
	Params  []string          `json:"params"`
	PTypes  []string          `json:"ptypes"`
	Results []string          `json:"results"`
	Free    []string          `json:"free,omitempty"`
	Consts  map[string]string `json:"consts"`
	Blocks  []Block           `json:"blocks"`
}
type Struct struct {
	Name   string      `json:"name"`
	Fields [][3]string `json:"fields"` // name, type, tag
}
type Out struct {
	Fns     []Fn     `json:"fns"`
	Structs []Struct `json:"structs"`
	Errors  []string `json:"errors"`
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := Out{}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			out.Errors = append(out.Errors, e.Error())
		}
	}
	if len(out.Errors) > 0 {
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	want := map[*ssa.Package]bool{}
	for _, p := range ps {
		want[p] = true
	}
	qual := func(p *types.Package) string { return p.Name() }
	ts := func(t types.Type) string {
		if t == nil {
			return ""
		}
		return types.TypeString(t, qual)
	}
	pos := func(p token.Pos) string {
		if !p.IsValid() {
			return ""
		}
		q := prog.Fset.Position(p)
		return fmt.Sprintf("%s:%d", q.Filename, q.Line)
	}
	for _, p := range pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					s := Struct{Name: p.Types.Name() + "." + n}
					for i := 0; i < st.NumFields(); i++ {
						s.Fields = append(s.Fields, [3]string{st.Field(i).Name(), ts(st.Field(i).Type()), st.Tag(i)})
					}
					out.Structs = append(out.Structs, s)
				}
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !want[f.Pkg] || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		fn := Fn{Name: f.RelString(nil), Pkg: f.Pkg.Pkg.Path(), Line: pos(f.Pos()), Consts: map[string]string{}}
		if r := f.Signature.Recv(); r != nil {
			fn.Recv = ts(r.Type())
		}
		for _, p := range f.Params {
			fn.Params = append(fn.Params, p.Name())
			fn.PTypes = append(fn.PTypes, ts(p.Type()))
		}
		for _, p := range f.FreeVars {
			fn.Free = append(fn.Free, p.Name())
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			fn.Results = append(fn.Results, ts(f.Signature.Results().At(i).Type()))
		}
		ref := func(v ssa.Value) string {
			if v == nil {
				return ""
			}
			switch x := v.(type) {
			case *ssa.Const:
				k := "nil"
				switch x.Type().Underlying().(type) {
				case *types.Struct, *types.Array, *types.Basic:
					k = "zero"
				}
				if x.Value != nil {
					if x.Value.Kind() == constant.String {
						k = "s:" + constant.StringVal(x.Value)
					} else {
						k = "k:" + x.Value.ExactString()
					}
				}
				n := "#" + k
				fn.Consts[n] = ts(x.Type())
				return n
			case *ssa.Function:
				return "@" + x.RelString(nil)
			case *ssa.Global:
				return "$" + x.RelString(nil)
			case *ssa.Builtin:
				return "!" + x.Name()
			}
			return v.Name()
		}
		for _, b := range f.Blocks {
			bl := Block{Succ: []int{}, Pred: []int{}}
			for _, s := range b.Succs {
				bl.Succ = append(bl.Succ, s.Index)
			}
			for _, s := range b.Preds {
				bl.Pred = append(bl.Pred, s.Index)
			}
			for _, in := range b.Instrs {
				i := Ins{Op: fmt.Sprintf("%T", in)[len("*ssa."):], Args: []string{}, Line: pos(in.Pos())}
				if v, ok := in.(ssa.Value); ok {
					i.Id = v.Name()
					i.Type = ts(v.Type())
				}
				for _, o := range in.Operands(nil) {
					if o != nil && *o != nil {
						i.Args = append(i.Args, ref(*o))
					} else {
						i.Args = append(i.Args, "")
					}
				}
				switch x := in.(type) {
				case *ssa.BinOp:
					i.Sub = x.Op.String()
				case *ssa.UnOp:
					i.Sub = x.Op.String()
					i.Ok = x.CommaOk
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					i.Sub = st.Field(x.Field).Name()
				case *ssa.Field:
					i.Sub = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
				case *ssa.Extract:
					i.N = x.Index
				case *ssa.TypeAssert:
					i.Aux = ts(x.AssertedType)
					i.Ok = x.CommaOk
				case *ssa.Lookup:
					i.Ok = x.CommaOk
				case *ssa.Next:
					i.Ok = x.IsString
				case *ssa.MakeInterface:
					i.Aux = ts(x.X.Type())
				case *ssa.Convert:
					i.Aux = ts(x.X.Type())
				case *ssa.ChangeType:
					i.Aux = ts(x.X.Type())
				case *ssa.Alloc:
					i.Ok = x.Heap
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					i.Args = []string{}
					if cc.IsInvoke() {
						i.Sub = "invoke " + cc.Method.Name()
						i.Args = append(i.Args, ref(cc.Value))
					} else if g := cc.StaticCallee(); g != nil {
						i.Sub = g.RelString(nil)
						if _, isClosure := cc.Value.(*ssa.MakeClosure); isClosure {
							i.Sub = "closure " + i.Sub
						}
					} else if b, ok := cc.Value.(*ssa.Builtin); ok {
						i.Sub = "builtin " + b.Name()
					} else {
						i.Sub = "dynamic"
						i.Args = append(i.Args, ref(cc.Value))
					}
					for _, a := range cc.Args {
						i.Args = append(i.Args, ref(a))
					}
				}
				bl.Ins = append(bl.Ins, i)
			}
			fn.Blocks = append(fn.Blocks, bl)
		}
		out.Fns = append(out.Fns, fn)
	}
	sort.Slice(out.Fns, func(a, b int) bool { return out.Fns[a].Name < out.Fns[b].Name })
	json.NewEncoder(os.Stdout).Encode(out)
}
