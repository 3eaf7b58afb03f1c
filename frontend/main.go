// Command frontend loads the packages of a Go module from source, builds their
// SSA form (golang.org/x/tools/go/ssa) and prints it as JSON for the
// verification-condition generator. It performs no simplification.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type typ struct {
	Kind   string  `json:"k"`
	Name   string  `json:"name,omitempty"`
	Elem   int     `json:"elem,omitempty"`
	Key    int     `json:"key,omitempty"`
	Len    int64   `json:"len,omitempty"`
	Fields []field `json:"fields,omitempty"`
	Params []int   `json:"params,omitempty"`
	Res    []int   `json:"res,omitempty"`
	Str    string  `json:"s"`
	Size   int64   `json:"size"`
	// methods of a concrete type that is put into an interface
	Methods map[string]string `json:"methods,omitempty"`
}
type field struct {
	Name string `json:"n"`
	Type int    `json:"t"`
}
type instr map[string]interface{}
type block struct {
	Preds  []int   `json:"preds"`
	Succs  []int   `json:"succs"`
	Instrs []instr `json:"i"`
	Idom   int     `json:"idom"`
}
type param struct {
	Name string `json:"n"`
	Type int    `json:"t"`
}
type fn struct {
	Name     string  `json:"name"`
	Pkg      string  `json:"pkg"`
	Short    string  `json:"short"`
	Exported bool    `json:"exported"`
	Params   []param `json:"params"`
	Free     []param `json:"free"`
	Results  []param `json:"results"`
	Blocks   []block `json:"blocks"`
	Pos      string  `json:"pos"`
	Synth    string  `json:"synth,omitempty"`
	Doc      string  `json:"-"`
}

type dumper struct {
	prog  *ssa.Program
	types []typ
	tix   map[string]int
	sizes types.Sizes
	funcs map[string]*fn
	queue []*ssa.Function
	seen  map[*ssa.Function]bool
	allow func(string) bool
	dir   string
	globs map[string]param
}

func (d *dumper) pos(f *ssa.Function, p interface{ Pos() int }) string { return "" }

func (d *dumper) ty(t types.Type) int {
	key := types.TypeString(t, nil)
	if i, ok := d.tix[key]; ok {
		return i
	}
	i := len(d.types)
	d.tix[key] = i
	d.types = append(d.types, typ{})
	o := typ{Str: key}
	func() {
		defer func() { recover() }()
		o.Size = d.sizes.Sizeof(t)
	}()
	if n, ok := t.(*types.Named); ok {
		o.Name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			o.Name = n.Obj().Pkg().Path() + "." + o.Name
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		o.Kind = u.Name()
		if u.Kind() == types.UnsafePointer {
			o.Kind = "unsafeptr"
		}
	case *types.Pointer:
		o.Kind = "ptr"
		o.Elem = d.ty(u.Elem())
	case *types.Slice:
		o.Kind = "slice"
		o.Elem = d.ty(u.Elem())
	case *types.Array:
		o.Kind = "array"
		o.Elem = d.ty(u.Elem())
		o.Len = u.Len()
	case *types.Struct:
		o.Kind = "struct"
		for j := 0; j < u.NumFields(); j++ {
			o.Fields = append(o.Fields, field{u.Field(j).Name(), d.ty(u.Field(j).Type())})
		}
	case *types.Signature:
		o.Kind = "func"
		for j := 0; j < u.Params().Len(); j++ {
			o.Params = append(o.Params, d.ty(u.Params().At(j).Type()))
		}
		for j := 0; j < u.Results().Len(); j++ {
			o.Res = append(o.Res, d.ty(u.Results().At(j).Type()))
		}
	case *types.Tuple:
		o.Kind = "tuple"
		for j := 0; j < u.Len(); j++ {
			o.Fields = append(o.Fields, field{u.At(j).Name(), d.ty(u.At(j).Type())})
		}
	case *types.Map:
		o.Kind = "map"
		o.Key = d.ty(u.Key())
		o.Elem = d.ty(u.Elem())
	case *types.Interface:
		o.Kind = "iface"
	case *types.Chan:
		o.Kind = "chan"
	default:
		o.Kind = "other"
	}
	d.types[i] = o
	return i
}

func (d *dumper) fname(f *ssa.Function) string {
	d.enqueue(f)
	return f.String()
}

func (d *dumper) enqueue(f *ssa.Function) {
	if d.seen[f] {
		return
	}
	d.seen[f] = true
	d.queue = append(d.queue, f)
}

func (d *dumper) val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		t := d.ty(v.Type())
		if v.Value == nil {
			return []interface{}{"z", t}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return []interface{}{"c", t, constant.BoolVal(v.Value)}
		case constant.String:
			return []interface{}{"s", t, latin1(constant.StringVal(v.Value))}
		case constant.Int:
			return []interface{}{"c", t, v.Value.ExactString()}
		default:
			if iv := constant.ToInt(v.Value); iv.Kind() == constant.Int {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return []interface{}{"c", t, iv.ExactString()}
				}
			}
			return []interface{}{"u", t, v.Value.ExactString()}
		}
	case *ssa.Global:
		n := v.String()
		d.globs[n] = param{v.Pkg.Pkg.Path(), d.ty(v.Type())}
		return []interface{}{"g", d.ty(v.Type()), n}
	case *ssa.Function:
		return []interface{}{"f", d.ty(v.Type()), d.fname(v)}
	case *ssa.Builtin:
		return []interface{}{"b", 0, v.Name()}
	case *ssa.Parameter:
		return []interface{}{"r", d.ty(v.Type()), "p:" + v.Name()}
	case *ssa.FreeVar:
		return []interface{}{"r", d.ty(v.Type()), "fv:" + v.Name()}
	default:
		return []interface{}{"r", d.ty(v.Type()), v.Name()}
	}
}

func (d *dumper) vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, d.val(v))
	}
	return r
}

func (d *dumper) call(o instr, c *ssa.CallCommon) {
	if c.IsInvoke() {
		o["invoke"] = c.Method.Name()
	}
	o["fn"] = d.val(c.Value)
	o["args"] = d.vals(c.Args)
}

func (d *dumper) dump(f *ssa.Function) *fn {
	o := &fn{Name: f.String(), Short: f.Name(), Synth: f.Synthetic}
	if f.Pkg != nil {
		o.Pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		o.Pkg = f.Object().Pkg().Path()
	} else if f.Parent() != nil && f.Parent().Pkg != nil {
		o.Pkg = f.Parent().Pkg.Pkg.Path()
	}
	if f.Object() != nil {
		o.Exported = f.Object().Exported()
	}
	o.Pos = d.where(f, f)
	for _, p := range f.Params {
		o.Params = append(o.Params, param{p.Name(), d.ty(p.Type())})
	}
	for _, p := range f.FreeVars {
		o.Free = append(o.Free, param{p.Name(), d.ty(p.Type())})
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		o.Results = append(o.Results, param{rs.At(i).Name(), d.ty(rs.At(i).Type())})
	}
	if !d.allow(o.Pkg) {
		return o
	}
	for _, b := range f.Blocks {
		bo := block{Preds: []int{}, Succs: []int{}, Instrs: []instr{}, Idom: -1}
		if b.Idom() != nil {
			bo.Idom = b.Idom().Index
		}
		for _, p := range b.Preds {
			bo.Preds = append(bo.Preds, p.Index)
		}
		for _, p := range b.Succs {
			bo.Succs = append(bo.Succs, p.Index)
		}
		for _, in := range b.Instrs {
			if x := d.instr(f, in); x != nil {
				bo.Instrs = append(bo.Instrs, x)
			}
		}
		o.Blocks = append(o.Blocks, bo)
	}
	return o
}

func (d *dumper) where(f *ssa.Function, v interface{}) string {
	type poser interface{ Pos() (p int) }
	var ps string
	switch x := v.(type) {
	case ssa.Instruction:
		p := d.prog.Fset.Position(x.Pos())
		if p.IsValid() {
			ps = rel(d.dir, p.Filename) + fmt.Sprintf(":%d", p.Line)
		}
	case *ssa.Function:
		p := d.prog.Fset.Position(x.Pos())
		if p.IsValid() {
			ps = rel(d.dir, p.Filename) + fmt.Sprintf(":%d", p.Line)
		}
	}
	return ps
}

func rel(dir, f string) string {
	if r, err := filepath.Rel(dir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func (d *dumper) instr(f *ssa.Function, in ssa.Instruction) instr {
	o := instr{}
	if v, ok := in.(ssa.Value); ok {
		o["n"] = v.Name()
		o["t"] = d.ty(v.Type())
	}
	if w := d.where(f, in); w != "" {
		o["pos"] = w
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		o["op"] = "alloc"
		o["heap"] = x.Heap
		o["c"] = x.Comment
	case *ssa.Phi:
		o["op"] = "phi"
		o["e"] = d.vals(x.Edges)
		o["c"] = x.Comment
	case *ssa.BinOp:
		o["op"] = "bin"
		o["o"] = x.Op.String()
		o["x"] = d.val(x.X)
		o["y"] = d.val(x.Y)
	case *ssa.UnOp:
		o["op"] = "un"
		o["o"] = x.Op.String()
		o["x"] = d.val(x.X)
		o["ok"] = x.CommaOk
	case *ssa.Call:
		o["op"] = "call"
		d.call(o, &x.Call)
	case *ssa.Defer:
		o["op"] = "defer"
		d.call(o, &x.Call)
	case *ssa.Go:
		o["op"] = "go"
		d.call(o, &x.Call)
	case *ssa.ChangeType:
		o["op"] = "changetype"
		o["x"] = d.val(x.X)
	case *ssa.Convert:
		o["op"] = "convert"
		o["x"] = d.val(x.X)
	case *ssa.ChangeInterface:
		o["op"] = "changeiface"
		o["x"] = d.val(x.X)
	case *ssa.MakeInterface:
		o["op"] = "makeiface"
		o["x"] = d.val(x.X)
		d.methods(x.X.Type())
	case *ssa.MakeSlice:
		o["op"] = "makeslice"
		o["len"] = d.val(x.Len)
		o["cap"] = d.val(x.Cap)
	case *ssa.MakeClosure:
		o["op"] = "closure"
		o["fn"] = d.val(x.Fn)
		o["b"] = d.vals(x.Bindings)
	case *ssa.MakeMap:
		o["op"] = "makemap"
	case *ssa.Slice:
		o["op"] = "slice"
		o["x"] = d.val(x.X)
		o["lo"] = d.val(x.Low)
		o["hi"] = d.val(x.High)
		o["max"] = d.val(x.Max)
	case *ssa.SliceToArrayPointer:
		o["op"] = "slice2arr"
		o["x"] = d.val(x.X)
	case *ssa.FieldAddr:
		o["op"] = "fieldaddr"
		o["x"] = d.val(x.X)
		o["f"] = x.Field
	case *ssa.Field:
		o["op"] = "field"
		o["x"] = d.val(x.X)
		o["f"] = x.Field
	case *ssa.IndexAddr:
		o["op"] = "indexaddr"
		o["x"] = d.val(x.X)
		o["i"] = d.val(x.Index)
	case *ssa.Index:
		o["op"] = "index"
		o["x"] = d.val(x.X)
		o["i"] = d.val(x.Index)
	case *ssa.Lookup:
		o["op"] = "lookup"
		o["x"] = d.val(x.X)
		o["i"] = d.val(x.Index)
		o["ok"] = x.CommaOk
	case *ssa.TypeAssert:
		o["op"] = "typeassert"
		o["x"] = d.val(x.X)
		o["at"] = d.ty(x.AssertedType)
		o["ok"] = x.CommaOk
	case *ssa.Extract:
		o["op"] = "extract"
		o["x"] = d.val(x.Tuple)
		o["i"] = x.Index
	case *ssa.Range:
		o["op"] = "range"
		o["x"] = d.val(x.X)
	case *ssa.Next:
		o["op"] = "next"
		o["x"] = d.val(x.Iter)
	case *ssa.Jump:
		o["op"] = "jump"
	case *ssa.If:
		o["op"] = "if"
		o["x"] = d.val(x.Cond)
	case *ssa.Return:
		o["op"] = "ret"
		o["x"] = d.vals(x.Results)
	case *ssa.Panic:
		o["op"] = "panic"
		o["x"] = d.val(x.X)
	case *ssa.Store:
		o["op"] = "store"
		o["a"] = d.val(x.Addr)
		o["x"] = d.val(x.Val)
	case *ssa.RunDefers:
		o["op"] = "rundefers"
	case *ssa.MapUpdate:
		o["op"] = "mapupdate"
	case *ssa.Send:
		o["op"] = "send"
	default:
		o["op"] = fmt.Sprintf("other:%T", in)
	}
	return o
}

// methods records which functions a method call on an interface holding a t reaches
func (d *dumper) methods(t types.Type) {
	e := t
	if p, ok := e.(*types.Pointer); ok {
		e = p.Elem()
	}
	n, ok := e.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !d.allow(n.Obj().Pkg().Path()) {
		return
	}
	i := d.ty(t)
	if d.types[i].Methods != nil {
		return
	}
	d.types[i].Methods = map[string]string{}
	ms := d.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if f := d.prog.MethodValue(ms.At(k)); f != nil {
			d.types[i].Methods[ms.At(k).Obj().Name()] = d.fname(f)
		}
	}
}

// latin1 makes every byte of a string one character (JSON strings cannot hold other bytes)
func latin1(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	arch := flag.String("arch", "amd64", "GOARCH")
	out := flag.String("out", "", "output file")
	roots := flag.String("roots", "", "comma separated package patterns")
	std := flag.String("std", "encoding/binary", "comma separated packages executed from source besides the module's own")
	flag.Parse()
	env := append(os.Environ(), "GOPROXY=off", "GOFLAGS=", "GOARCH="+*arch, "GOOS=linux", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: *dir, Env: env}
	pats := strings.Split(*roots, ",")
	ps, err := packages.Load(cfg, pats...)
	res := map[string]interface{}{"arch": *arch}
	errs := []string{}
	if err != nil {
		errs = append(errs, err.Error())
	}
	ownErr := map[string]bool{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			s := e.Pos + ": " + e.Msg
			if !ownErr[s] {
				ownErr[s] = true
				errs = append(errs, s)
			}
		}
	})
	stdAllow := map[string]bool{}
	for _, s := range strings.Split(*std, ",") {
		stdAllow[s] = true
	}
	own := map[string]bool{}
	modfiles := map[string][]string{}
	other := map[string][]string{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Module != nil && p.Module.Main {
			own[p.PkgPath] = true
			modfiles[p.PkgPath] = p.CompiledGoFiles
			other[p.PkgPath] = p.OtherFiles
		}
	})
	res["errors"] = errs
	res["own"] = modfiles
	res["other"] = other
	if len(errs) == 0 {
		prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		d := &dumper{prog: prog, tix: map[string]int{}, sizes: types.SizesFor("gc", *arch),
			funcs: map[string]*fn{}, seen: map[*ssa.Function]bool{}, dir: *dir, globs: map[string]param{},
			allow: func(p string) bool { return own[p] || stdAllow[p] }}
		d.ty(types.Typ[types.Invalid])
		inits := []string{}
		consts := map[string]int64{}
		seenp := map[string]bool{}
		packages.Visit(ps, nil, func(p *packages.Package) {
			if (own[p.PkgPath] || stdAllow[p.PkgPath]) && !seenp[p.PkgPath] {
				seenp[p.PkgPath] = true
				inits = append(inits, p.PkgPath)
			}
		})
		_ = spkgs
		for _, pp := range inits {
			sp := prog.ImportedPackage(pp)
			if sp == nil {
				for _, x := range prog.AllPackages() {
					if x.Pkg.Path() == pp {
						sp = x
					}
				}
			}
			if sp == nil {
				continue
			}
			if !own[pp] {
				if i := sp.Func("init"); i != nil {
					d.enqueue(i)
				}
				continue
			}
			names := []string{}
			for n := range sp.Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				switch m := sp.Members[n].(type) {
				case *ssa.Function:
					d.enqueue(m)
				case *ssa.NamedConst:
					if v, ok := constant.Int64Val(constant.ToInt(m.Value.Value)); ok && m.Value.Value != nil {
						consts[sp.Pkg.Name()+"."+n] = v
					}
				case *ssa.Global:
					d.globs[m.String()] = param{pp, d.ty(m.Type())}
				case *ssa.Type:
					for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
						ms := prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if f := prog.MethodValue(ms.At(i)); f != nil {
								d.enqueue(f)
							}
						}
					}
				}
			}
		}
		for len(d.queue) > 0 {
			f := d.queue[0]
			d.queue = d.queue[1:]
			d.funcs[f.String()] = d.dump(f)
		}
		res["types"] = d.types
		res["funcs"] = d.funcs
		res["globals"] = d.globs
		res["inits"] = inits
		res["consts"] = consts
	}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer w.Close()
	}
	e := json.NewEncoder(w)
	if err := e.Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
