// Writes the SSA form of the packages given on the command line, as JSON, to standard output.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var typeIDs = map[string]int{}
var typeList []J
var structLike = types.NewPointer

func typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	j := J{"name": key}
	typeList = append(typeList, j)
	if n, ok := t.(*types.Named); ok {
		j["kind"] = "named"
		j["u"] = typ(n.Underlying())
		return id
	}
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		j["kind"] = "named"
		j["u"] = typ(u.Underlying())
	case *types.Basic:
		j["kind"] = "basic"
		j["basic"] = u.Name()
	case *types.Slice:
		j["kind"] = "slice"
		j["e"] = typ(u.Elem())
	case *types.Array:
		j["kind"] = "array"
		j["e"] = typ(u.Elem())
		j["n"] = u.Len()
	case *types.Pointer:
		j["kind"] = "ptr"
		j["e"] = typ(u.Elem())
	case *types.Map:
		j["kind"] = "map"
		j["k"] = typ(u.Key())
		j["e"] = typ(u.Elem())
	case *types.Struct:
		f := []int{}
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, typ(u.Field(i).Type()))
		}
		j["kind"] = "struct"
		j["f"] = f
	case *types.Interface:
		j["kind"] = "interface"
	case *types.Tuple:
		f := []int{}
		for i := 0; i < u.Len(); i++ {
			f = append(f, typ(u.At(i).Type()))
		}
		j["kind"] = "tuple"
		j["f"] = f
	default:
		j["kind"] = "other"
	}
	return id
}

var prog *ssa.Program
var want []*ssa.Function
var seen = map[*ssa.Function]bool{}

func need(f *ssa.Function) string {
	if !seen[f] {
		seen[f] = true
		want = append(want, f)
	}
	return f.String()
}

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "const", "t": typ(x.Type())}
		if x.Value != nil {
			switch x.Value.Kind() {
			case constant.String:
				b := []int{}
				for _, c := range []byte(constant.StringVal(x.Value)) {
					b = append(b, int(c))
				}
				j["s"] = b
			case constant.Bool:
				j["b"] = constant.BoolVal(x.Value)
			case constant.Float:
				f, _ := constant.Float64Val(x.Value)
				j["f"] = fmt.Sprint(f)
			default:
				j["v"] = constant.ToInt(x.Value).ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": x.String(), "t": typ(x.Type())}
	case *ssa.Function:
		return J{"k": "func", "n": need(x)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": x.Name()}
	default:
		return J{"k": "reg", "n": v.Name()}
	}
}

func vals(vs []ssa.Value) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		out = append(out, val(v))
	}
	return out
}

func call(c *ssa.CallCommon) J {
	j := J{"args": vals(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
	} else {
		j["f"] = val(c.Value)
	}
	return j
}

func instr(in ssa.Instruction) J {
	j := J{}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = typ(v.Type())
	}
	j["pos"] = prog.Fset.Position(in.Pos()).Line
	switch x := in.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
	case *ssa.BinOp:
		j["op"] = "binop"
		j["o"] = x.Op.String()
		j["xt"] = typ(x.X.Type())
		j["x"], j["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		j["op"] = "unop"
		j["o"] = x.Op.String()
		j["x"] = val(x.X)
		j["commaok"] = x.CommaOk
	case *ssa.Call:
		j["op"] = "call"
		j["call"] = call(&x.Call)
	case *ssa.Phi:
		j["op"] = "phi"
		j["e"] = vals(x.Edges)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"], j["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.ChangeType:
		j["op"] = "copy"
		j["x"] = val(x.X)
	case *ssa.ChangeInterface:
		j["op"] = "copy"
		j["x"] = val(x.X)
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"], j["xt"] = val(x.X), typ(x.X.Type())
		ms := prog.MethodSets.MethodSet(x.X.Type())
		m := J{}
		if !strings.Contains(types.TypeString(x.X.Type(), nil), "sync.") {
			for i := 0; i < ms.Len(); i++ {
				f := prog.MethodValue(ms.At(i))
				if f != nil && f.Pkg != nil && roots[f.Pkg.Pkg.Path()] {
					m[ms.At(i).Obj().Name()] = need(f)
				}
			}
		}
		j["methods"] = m
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = val(x.X)
		j["at"] = typ(x.AssertedType)
		j["commaok"] = x.CommaOk
		_, isI := x.AssertedType.Underlying().(*types.Interface)
		j["iface"] = isI
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"], j["i"] = val(x.Tuple), x.Index
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"], j["i"] = val(x.X), x.Field
	case *ssa.Field:
		j["op"] = "field"
		j["x"], j["i"] = val(x.X), x.Field
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.Index:
		j["op"] = "index"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"], j["i"], j["commaok"] = val(x.X), val(x.Index), x.CommaOk
		j["xt"] = typ(x.X.Type())
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["x"], j["i"], j["y"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["x"], j["y"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"], j["lo"], j["hi"], j["max"] = val(x.X), val(x.Low), val(x.High), val(x.Max)
	case *ssa.Store:
		j["op"] = "store"
		j["x"], j["y"] = val(x.Addr), val(x.Val)
	case *ssa.If:
		j["op"] = "if"
		j["x"] = val(x.Cond)
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Return:
		j["op"] = "return"
		j["e"] = vals(x.Results)
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = val(x.X)
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = fmt.Sprintf("%T", in)
	}
	return j
}

var roots = map[string]bool{}

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax}
	ps, err := packages.Load(cfg, os.Args[1:]...)
	if err != nil || packages.PrintErrors(ps) > 0 {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var pkgs []*ssa.Package
	prog, pkgs = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range pkgs {
		roots[p.Pkg.Path()] = true
	}
	globals := J{}
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				need(x)
			case *ssa.Global:
				globals[x.String()] = typ(x.Type())
			}
		}
	}
	funcs := J{}
	for len(want) > 0 {
		f := want[0]
		want = want[1:]
		j := J{}
		ps := []string{}
		for _, p := range f.Params {
			ps = append(ps, p.Name())
		}
		j["params"] = ps
		j["synthetic"] = f.Synthetic
		if f.Pkg != nil {
			j["pkg"] = f.Pkg.Pkg.Path()
		}
		if f.Pkg == nil || roots[f.Pkg.Pkg.Path()] {
			bs := []interface{}{}
			for _, b := range f.Blocks {
				is := []interface{}{}
				for _, in := range b.Instrs {
					if q := instr(in); q != nil {
						is = append(is, q)
					}
				}
				s := []int{}
				for _, x := range b.Succs {
					s = append(s, x.Index)
				}
				pr := []int{}
				for _, x := range b.Preds {
					pr = append(pr, x.Index)
				}
				bs = append(bs, J{"i": is, "s": s, "p": pr})
			}
			j["blocks"] = bs
		}
		funcs[f.String()] = j
	}
	json.NewEncoder(os.Stdout).Encode(J{"funcs": funcs, "types": typeList, "globals": globals})
}
