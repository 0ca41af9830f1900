// zvexport: loads the Go packages of a module with go/packages, builds SSA form (go/ssa) from the
// current source text and writes it as JSON.  Nothing is interpreted here: the output is a faithful
// dump of the SSA of every function declared in the module's packages (dependencies are represented
// by their signatures only).
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Operand struct {
	K string `json:"k"`           // reg const global func builtin nilval
	N string `json:"n,omitempty"` // name
	T string `json:"t,omitempty"` // type
	V string `json:"v,omitempty"` // const value
	C string `json:"c,omitempty"` // const kind
}

type Instr struct {
	Op    string     `json:"op"`
	Reg   string     `json:"reg,omitempty"`
	T     string     `json:"t,omitempty"`
	Args  []*Operand `json:"args,omitempty"`
	S     string     `json:"s,omitempty"`
	I     int        `json:"i,omitempty"`
	Flag  bool       `json:"flag,omitempty"`
	Edges []int      `json:"edges,omitempty"`
	Pos   string     `json:"pos,omitempty"`
	NRes  int        `json:"nres,omitempty"`
	Src   string     `json:"src,omitempty"`
}

type Block struct {
	Id     int      `json:"id"`
	Preds  []int    `json:"preds"`
	Succs  []int    `json:"succs"`
	Cmt    string   `json:"cmt"`
	Instrs []*Instr `json:"instrs"`
}

type Param struct {
	Name string `json:"name"`
	T    string `json:"t"`
}

type Func struct {
	Name    string   `json:"name"`
	Pkg     string   `json:"pkg"`
	File    string   `json:"file"`
	Params  []Param  `json:"params"`
	Free    []Param  `json:"free"`
	Results []string `json:"results"`
	Blocks  []*Block `json:"blocks"`
	Synth   string   `json:"synth"`
}

type Type struct {
	Kind    string   `json:"kind"`
	Elem    string   `json:"elem,omitempty"`
	Key     string   `json:"key,omitempty"`
	Under   string   `json:"under,omitempty"`
	Len     int64    `json:"len,omitempty"`
	Fields  []Param  `json:"fields,omitempty"`
	Results []string `json:"results,omitempty"`
	Params  []string `json:"params,omitempty"`
	Methods []string `json:"methods,omitempty"`
}

type Out struct {
	Types   map[string]*Type `json:"types"`
	Funcs   map[string]*Func `json:"funcs"`
	Globals map[string]string `json:"globals"`
	Errors  []string         `json:"errors"`
}

var out = Out{Types: map[string]*Type{}, Funcs: map[string]*Func{}, Globals: map[string]string{}}

func tname(t types.Type) string {
	if t == nil {
		return ""
	}
	s := types.TypeString(t, nil)
	if _, ok := out.Types[s]; ok {
		return s
	}
	x := &Type{}
	out.Types[s] = x
	switch u := t.(type) {
	case *types.Alias:
		x.Kind = "alias"
		x.Under = tname(types.Unalias(u))
	case *types.Named:
		x.Kind = "named"
		x.Under = tname(u.Underlying())
	case *types.Basic:
		x.Kind = "basic"
	case *types.Pointer:
		x.Kind = "pointer"
		x.Elem = tname(u.Elem())
	case *types.Slice:
		x.Kind = "slice"
		x.Elem = tname(u.Elem())
	case *types.Array:
		x.Kind = "array"
		x.Elem = tname(u.Elem())
		x.Len = u.Len()
	case *types.Map:
		x.Kind = "map"
		x.Key = tname(u.Key())
		x.Elem = tname(u.Elem())
	case *types.Struct:
		x.Kind = "struct"
		for i := 0; i < u.NumFields(); i++ {
			x.Fields = append(x.Fields, Param{u.Field(i).Name(), tname(u.Field(i).Type())})
		}
	case *types.Interface:
		x.Kind = "interface"
		for i := 0; i < u.NumMethods(); i++ {
			x.Methods = append(x.Methods, u.Method(i).Name())
		}
	case *types.Signature:
		x.Kind = "func"
		for i := 0; i < u.Params().Len(); i++ {
			x.Params = append(x.Params, tname(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			x.Results = append(x.Results, tname(u.Results().At(i).Type()))
		}
	case *types.Tuple:
		x.Kind = "tuple"
		for i := 0; i < u.Len(); i++ {
			x.Fields = append(x.Fields, Param{u.At(i).Name(), tname(u.At(i).Type())})
		}
	case *types.Chan:
		x.Kind = "chan"
		x.Elem = tname(u.Elem())
	default:
		x.Kind = "other"
	}
	return s
}

func operand(v ssa.Value) *Operand {
	if v == nil {
		return nil
	}
	switch u := v.(type) {
	case *ssa.Const:
		o := &Operand{K: "const", T: tname(u.Type())}
		if u.Value == nil {
			o.C = "nil"
		} else {
			switch u.Value.Kind() {
			case constant.Bool:
				o.C = "bool"
				o.V = u.Value.ExactString()
			case constant.String:
				o.C = "string"
				o.V = constant.StringVal(u.Value)
			case constant.Int:
				o.C = "int"
				o.V = u.Value.ExactString()
			default:
				o.C = "other"
				o.V = u.Value.ExactString()
			}
		}
		return o
	case *ssa.Global:
		return &Operand{K: "global", N: u.String(), T: tname(u.Type())}
	case *ssa.Function:
		return &Operand{K: "func", N: u.String(), T: tname(u.Signature)}
	case *ssa.Builtin:
		return &Operand{K: "builtin", N: u.Name()}
	}
	return &Operand{K: "reg", N: v.Name(), T: tname(v.Type())}
}

var fset *token.FileSet

func ops(vs ...ssa.Value) []*Operand {
	r := []*Operand{}
	for _, v := range vs {
		r = append(r, operand(v))
	}
	return r
}

func call(x *Instr, c *ssa.CallCommon) {
	if c.IsInvoke() {
		x.S = c.Method.Name()
		x.Flag = true // invoke
		x.Src = tname(c.Value.Type())
		x.Args = ops(append([]ssa.Value{c.Value}, c.Args...)...)
	} else {
		x.Args = ops(append([]ssa.Value{c.Value}, c.Args...)...)
	}
	x.NRes = c.Signature().Results().Len()
}

func dump(f *ssa.Function) {
	name := f.String()
	if _, ok := out.Funcs[name]; ok {
		return
	}
	g := &Func{Name: name, Synth: f.Synthetic}
	if f.Pkg != nil {
		g.Pkg = f.Pkg.Pkg.Path()
	}
	g.File = fset.Position(f.Pos()).Filename
	out.Funcs[name] = g
	for _, p := range f.Params {
		g.Params = append(g.Params, Param{p.Name(), tname(p.Type())})
	}
	for _, p := range f.FreeVars {
		g.Free = append(g.Free, Param{p.Name(), tname(p.Type())})
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		g.Results = append(g.Results, tname(f.Signature.Results().At(i).Type()))
	}
	for _, b := range f.Blocks {
		bb := &Block{Id: b.Index, Cmt: b.Comment, Preds: []int{}, Succs: []int{}}
		for _, p := range b.Preds {
			bb.Preds = append(bb.Preds, p.Index)
		}
		for _, p := range b.Succs {
			bb.Succs = append(bb.Succs, p.Index)
		}
		for _, in := range b.Instrs {
			x := &Instr{}
			if p := in.Pos(); p.IsValid() {
				pp := fset.Position(p)
				x.Pos = fmt.Sprintf("%s:%d", pp.Filename[strings.LastIndex(pp.Filename, "/")+1:], pp.Line)
			}
			if v, ok := in.(ssa.Value); ok {
				x.Reg = v.Name()
				x.T = tname(v.Type())
			}
			switch i := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				x.Op = "Alloc"
				x.Flag = i.Heap
			case *ssa.Phi:
				x.Op = "Phi"
				x.Args = ops(i.Edges...)
			case *ssa.Call:
				x.Op = "Call"
				call(x, &i.Call)
			case *ssa.Go:
				x.Op = "Go"
				call(x, &i.Call)
			case *ssa.Defer:
				x.Op = "Defer"
				call(x, &i.Call)
			case *ssa.RunDefers:
				x.Op = "RunDefers"
			case *ssa.BinOp:
				x.Op = "BinOp"
				x.S = i.Op.String()
				x.Args = ops(i.X, i.Y)
			case *ssa.UnOp:
				x.Op = "UnOp"
				x.S = i.Op.String()
				x.Flag = i.CommaOk
				x.Args = ops(i.X)
			case *ssa.ChangeType:
				x.Op = "ChangeType"
				x.Args = ops(i.X)
			case *ssa.Convert:
				x.Op = "Convert"
				x.Args = ops(i.X)
			case *ssa.MultiConvert:
				x.Op = "Convert"
				x.Args = ops(i.X)
			case *ssa.ChangeInterface:
				x.Op = "ChangeInterface"
				x.Args = ops(i.X)
			case *ssa.MakeInterface:
				x.Op = "MakeInterface"
				x.Args = ops(i.X)
			case *ssa.MakeClosure:
				x.Op = "MakeClosure"
				x.Args = ops(append([]ssa.Value{i.Fn}, i.Bindings...)...)
			case *ssa.MakeMap:
				x.Op = "MakeMap"
			case *ssa.MakeChan:
				x.Op = "MakeChan"
			case *ssa.MakeSlice:
				x.Op = "MakeSlice"
				x.Args = ops(i.Len, i.Cap)
			case *ssa.Slice:
				x.Op = "Slice"
				x.Args = ops(i.X, i.Low, i.High, i.Max)
			case *ssa.SliceToArrayPointer:
				x.Op = "SliceToArrayPointer"
				x.Args = ops(i.X)
			case *ssa.FieldAddr:
				x.Op = "FieldAddr"
				x.I = i.Field
				x.Args = ops(i.X)
			case *ssa.Field:
				x.Op = "Field"
				x.I = i.Field
				x.Args = ops(i.X)
			case *ssa.IndexAddr:
				x.Op = "IndexAddr"
				x.Args = ops(i.X, i.Index)
			case *ssa.Index:
				x.Op = "Index"
				x.Args = ops(i.X, i.Index)
			case *ssa.Lookup:
				x.Op = "Lookup"
				x.Flag = i.CommaOk
				x.Args = ops(i.X, i.Index)
			case *ssa.Range:
				x.Op = "Range"
				x.Args = ops(i.X)
			case *ssa.Next:
				x.Op = "Next"
				x.Flag = i.IsString
				x.Args = ops(i.Iter)
			case *ssa.TypeAssert:
				x.Op = "TypeAssert"
				x.Flag = i.CommaOk
				x.S = tname(i.AssertedType)
				x.Args = ops(i.X)
			case *ssa.Extract:
				x.Op = "Extract"
				x.I = i.Index
				x.Args = ops(i.Tuple)
			case *ssa.Jump:
				x.Op = "Jump"
			case *ssa.If:
				x.Op = "If"
				x.Args = ops(i.Cond)
			case *ssa.Return:
				x.Op = "Return"
				x.Args = ops(i.Results...)
			case *ssa.Panic:
				x.Op = "Panic"
				x.Args = ops(i.X)
			case *ssa.Store:
				x.Op = "Store"
				x.Args = ops(i.Addr, i.Val)
			case *ssa.MapUpdate:
				x.Op = "MapUpdate"
				x.Args = ops(i.Map, i.Key, i.Value)
			case *ssa.Send:
				x.Op = "Send"
				x.Args = ops(i.Chan, i.X)
			case *ssa.Select:
				x.Op = "Select"
			default:
				x.Op = fmt.Sprintf("?%T", in)
			}
			bb.Instrs = append(bb.Instrs, x)
		}
		g.Blocks = append(g.Blocks, bb)
	}
	for _, a := range f.AnonFuncs {
		dump(a)
	}
}

func main() {
	dir := os.Args[1]
	outf := os.Args[2]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
		Dir:   dir,
		Tests: false,
	}
	fset = token.NewFileSet()
	cfg.Fset = fset
	// load export data for dependencies: LoadTypes-style, syntax for the listed packages only
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, os.Args[3:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			out.Errors = append(out.Errors, p.PkgPath+": "+e.Error())
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				dump(m)
			case *ssa.Global:
				out.Globals[m.String()] = tname(m.Type())
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Blocks != nil {
							dump(f)
						}
					}
				}
			}
		}
	}
	f, err := os.Create(outf)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	if err := enc.Encode(out); err != nil {
		panic(err)
	}
	f.Close()
}
