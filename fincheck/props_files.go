package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Candles in files.

func init() {
	register("K06", "typestate with ghost counters over every path: each write to the created file prints the candle whose index is the number of candles written so far, field by field in declaration order, and all of them at a successful return; each candle appended by the reader takes field i from part i of the line last read, one candle per line, and a successful return follows the end of the input with no candle changed since it was appended", checkFileContent)
	register("K07", "typestate of file handle, scanner and writer over every path: every error result of a file, scan or parse operation is nil at a successful return, a scanner is asked for its error and a writer is flushed first, every opened file is closed at every return, a successful load has a candle for every line read and a failed one returns no candles", checkFileErrors)
}

// files is the typestate of the files of one function.
type files struct {
	c     *Ctx
	name  string
	e     *Eng
	under map[int]V // what a buffered writer or scanner is built on
	from  map[int]fileOf
	ops   int
}

type fileOf struct {
	path V
	mode string // "read", "write" (emptied first) or "?"
}

func (z *files) where(pos token.Pos, fn *ssa.Function) string {
	return fmt.Sprintf("%s (%s at %s)", z.name, fnName(fn), z.c.prog.pos(pos))
}

func (z *files) add(st *State, g string, n int64) {
	st.ghost[g] = Add(num(st.ghost[g]), IntN(n))
}

func (z *files) set(st *State, g string, n int64) { st.ghost[g] = IntN(n) }

// file finds the file a writer or scanner works on.
func (z *files) file(v V) (fileOf, bool, bool) {
	buffered := false
	for i := 0; i < 4; i++ {
		if x, ok := v.(Iface); ok {
			v = x.val
			continue
		}
		p, ok := v.(Ptr)
		if !ok {
			break
		}
		if f, ok := z.from[p.obj]; ok {
			return f, buffered, true
		}
		u, ok := z.under[p.obj]
		if !ok {
			break
		}
		v = u
		buffered = true
	}
	return fileOf{}, buffered, false
}

var isWrite = map[string]bool{
	"fmt.Fprintln": true, "fmt.Fprintf": true, "fmt.Fprint": true, "io.WriteString": true,
	"(*os.File).WriteString": true, "(*os.File).Write": true, "(*bufio.Writer).WriteString": true, "(*bufio.Writer).Write": true,
}

// noFault are library calls whose error result is no file, scan or parse failure.
var noFault = map[string]bool{"fmt.Println": true, "fmt.Print": true, "fmt.Printf": true, "fmt.Errorf": true, "errors.New": true}

const (
	oWronly, oRdwr, oAppend, oCreate, oTrunc = 0x1, 0x2, 0x400, 0x40, 0x200
)

// track installs the typestate; write is called for every write to a file.
func (z *files) track(e *Eng, st *State, write func(st *State, where, name string, args []V)) {
	z.e = e
	z.under, z.from = map[int]V{}, map[int]fileOf{}
	for _, g := range []string{"opened", "closed", "failures", "unasked", "unflushed", "lost", "written", "scans", "more", "appended"} {
		z.set(st, g, 0)
	}
	e.onResult = func(st *State, fn *ssa.Function, pos token.Pos, name string, args []V) {
		if strings.HasPrefix(name, "github.com/vanclief/ez") || noFault[name] {
			return
		}
		where := z.where(pos, fn)
		if !e.silent() {
			z.ops++
		}
		count := true
		switch name {
		case "os.Create", "os.Open", "os.OpenFile":
			if p, ok := st.ret[0].(Ptr); ok && p.obj != 0 {
				f := fileOf{path: args[0], mode: "read"}
				if name == "os.Create" {
					f.mode = "write"
				}
				if name == "os.OpenFile" {
					f.mode = "?"
					if k, ok := num(args[1]).ConstInt(); ok {
						if k&(oWronly|oRdwr) == 0 {
							f.mode = "read"
						} else if k&oTrunc != 0 && k&oCreate != 0 && k&oAppend == 0 {
							f.mode = "write"
						}
					}
				}
				z.from[p.obj] = f
				z.add(st, "opened", 1)
			}
		case "bufio.NewScanner", "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader":
			if p, ok := st.ret[0].(Ptr); ok {
				z.under[p.obj] = args[0]
			}
		case "(*os.File).Close":
			f, _, ok := z.file(args[0])
			if !ok {
				if !e.silent() {
					z.c.ob(false, "file", where, "a file that was not opened here is closed")
				}
				break
			}
			if st.choose(cmpLit("<", num(st.ghost["closed"]), num(st.ghost["opened"]))) {
				z.add(st, "closed", 1)
				st.ghost["lost"] = Add(num(st.ghost["lost"]), num(st.ghost["unflushed"]))
				z.set(st, "unflushed", 0)
				count = f.mode != "read"
			} else {
				count = false
			}
		case "(*bufio.Scanner).Scan":
			z.set(st, "unasked", 1)
			if st.choose(st.ret[0].(Lit)) {
				z.add(st, "scans", 1)
				z.set(st, "more", 1)
			} else {
				z.set(st, "more", 0)
			}
		case "(*bufio.Scanner).Text":
			st.ret = []V{fnAtom("line", SStr, num(st.ghost["scans"]))}
		case "(*bufio.Scanner).Err":
			z.set(st, "unasked", 0)
		case "(*bufio.Writer).Flush":
			z.set(st, "unflushed", 0)
		default:
			if isWrite[name] {
				if _, buffered, ok := z.file(args[0]); ok {
					if buffered {
						z.set(st, "unflushed", 1)
						count = false // reported by Flush
					}
				} else if !e.silent() {
					z.c.ob(false, "file", where, "the writer of %s is not a file opened here", name)
				}
				if write != nil {
					write(st, where, name, args)
				}
			}
		}
		if !count {
			return
		}
		for _, v := range st.ret {
			if x, ok := v.(Iface); ok && isErr(x) {
				if !st.choose(x.nilL) {
					z.add(st, "failures", 1)
				}
			}
		}
	}
}

// isErr: results of library calls that are interfaces are errors here.
func isErr(x Iface) bool {
	return x.dyn == nil
}

func checkFileErrors(c *Ctx) {
	for _, name := range []string{"market.SaveCandlesToFile", "market.LoadCandlesFromFile"} {
		z := &files{c: c, name: name}
		r := c.run(name, runOpt{prep: func(e *Eng, st *State, args []V) { z.track(e, st, nil) }})
		if r == nil {
			continue
		}
		ok, bad := 0, 0
		r.each(func(o *Out) {
			er := o.ret(len(o.st.ret) - 1)
			g := func(n string) Num { return num(o.st.ghost[n]) }
			o.must("closed", Eq(g("closed"), g("opened")), "a file stays open")
			o.must("success", Imp(errNil(er), Eq(g("failures"), IntN(0))), "success is reported although an operation failed")
			o.must("success", Imp(errNil(er), Ge(g("opened"), IntN(1))), "success is reported without opening a file")
			o.must("scan-error", Imp(errNil(er), Eq(g("unasked"), IntN(0))), "success is reported without asking the scanner for its error")
			o.must("flushed", Imp(errNil(er), And(Eq(g("unflushed"), IntN(0)), Eq(g("lost"), IntN(0)))), "success is reported although a writer was not flushed")
			if len(o.st.ret) == 2 {
				s, is := o.ret(0).(Slice)
				if c.ob(is, "candles", o.where(), "the candles are not tracked") {
					o.must("candles", Imp(Not(errNil(er)), Eq(s.len, IntN(0))), "candles are returned with an error")
					o.must("lines", Imp(errNil(er), Eq(s.len, g("scans"))), "success is reported although a line gave no candle")
				}
			}
			if o.st.f.prove(er.(Iface).nilL) {
				ok++
			} else {
				bad++
			}
		})
		c.ob(ok > 0 && bad > 0, "outcomes", name, "%d successful and %d failed outcomes found", ok, bad)
		c.ob(z.ops >= 4, "operations", name, "only %d file operations found", z.ops)
		c.sites += z.ops
	}
}

func checkFileContent(c *Ctx) {
	checkSave(c)
	checkLoad(c)
}

func checkSave(c *Ctx) {
	name := "market.SaveCandlesToFile"
	z := &files{c: c, name: name}
	var r0 *Run
	var cs Slice
	writes := 0
	prep := func(e *Eng, st *State, args []V) {
		r0 = &Run{c: c, name: name, e: e, st0: st.clone(), args: args}
		s, ok := r0.old(args[0]).(Slice)
		if !ok {
			panic(undecided{"the candles are not tracked"})
		}
		cs = s
		z.track(e, st, func(st *State, where, name string, args []V) {
			n := num(st.ghost["written"])
			z.add(st, "written", 1)
			if e.silent() {
				return
			}
			writes++
			f, _, ok := z.file(args[0])
			if !ok {
				return
			}
			c.ob(f.mode == "write" && vKey(f.path) == vKey(r0.args[1]), "target", where, "the candles are not written to an emptied file of the given name")
			fs, why := z.printed(st, name, args, cs.elem)
			if !c.ob(fs != nil, "format", where, "%s", why) {
				return
			}
			w := r0.oldElem(cs, n).(*Struct)
			for i, v := range fs {
				c.ob(proveF(st.f, eqF(v, w.f[i])), "line", where, "value %d of the line is not field %d of the next candle", i+1, i+1)
			}
		})
	}
	r := c.run(name, runOpt{prep: prep, partial: true})
	if r == nil {
		return
	}
	c.sites += writes
	c.ob(writes > 0, "writes", name, "no write found")
	ok := 0
	r.each(func(o *Out) {
		er := o.ret(0)
		o.must("complete", Imp(errNil(er), Eq(num(o.st.ghost["written"]), cs.len)), "success is reported although not every candle was written once")
		if o.st.f.prove(er.(Iface).nilL) {
			ok++
		}
	})
	c.ob(ok > 0, "outcomes", name, "no successful outcome found")
}

// printed: the values of a line that prints one candle as {v1 v2 ...}.
func (z *files) printed(st *State, name string, args []V, candle types.Type) ([]V, string) {
	elems := func(v V) []V {
		s, ok := v.(Slice)
		if !ok {
			return nil
		}
		k, ok := s.len.ConstInt()
		if !ok || k > 8 {
			return nil
		}
		var out []V
		for i := int64(0); i < k; i++ {
			out = append(out, st.readElem(st.obj(s.obj), Add(s.off, IntN(i)), "", s.elem))
		}
		return out
	}
	whole := func(v V) ([]V, string) {
		x, ok := v.(Iface)
		if !ok || x.dyn == nil {
			return nil, "the printed value is not tracked"
		}
		if !types.Identical(x.dyn, candle) {
			return nil, fmt.Sprintf("a %s is printed, not a candle", types.TypeString(x.dyn, nil))
		}
		if hasStringer(x.dyn) {
			return nil, "candles print themselves with a method, not as a list of fields"
		}
		s, ok := x.val.(*Struct)
		if !ok {
			return nil, "the printed candle is not tracked"
		}
		if !plainFields(candle) {
			return nil, "a field of a candle is not printed as a plain number"
		}
		return s.f, ""
	}
	switch name {
	case "fmt.Fprintln":
		if es := elems(args[1]); len(es) == 1 {
			return whole(es[0])
		}
		return nil, "not exactly one value is printed on a line"
	case "fmt.Fprintf":
		f, ok := args[1].(*Atom)
		es := elems(args[2])
		if !ok || f.kind != KConst {
			return nil, "the format is not constant"
		}
		if f.name == "%v\n" && len(es) == 1 {
			return whole(es[0])
		}
		return plainFormat(f.name, es, candle)
	}
	return nil, "a write in a form the analysis does not know: " + name
}

func plainFields(candle types.Type) bool {
	s, ok := isStruct(candle)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		b, ok := s.Field(i).Type().(*types.Basic)
		if !ok || b.Kind() != types.Int64 && b.Kind() != types.Float64 {
			return false
		}
	}
	return true
}

// plainFormat: a format that prints every field with all its digits.
func plainFormat(f string, es []V, candle types.Type) ([]V, string) {
	s, ok := isStruct(candle)
	if !ok || !plainFields(candle) {
		return nil, "a field of a candle is not printed as a plain number"
	}
	if !strings.HasPrefix(f, "{") || !strings.HasSuffix(f, "}\n") {
		return nil, fmt.Sprintf("the format %q is not one candle on a line", f)
	}
	vs := strings.Split(f[1:len(f)-2], " ")
	if len(vs) != s.NumFields() || len(es) != len(vs) {
		return nil, fmt.Sprintf("the format %q does not print every field", f)
	}
	var out []V
	for i, v := range vs {
		x, ok := es[i].(Iface)
		if !ok || x.dyn == nil || !types.Identical(x.dyn, s.Field(i).Type()) {
			return nil, fmt.Sprintf("value %d is not a field of a candle", i+1)
		}
		isInt := s.Field(i).Type().(*types.Basic).Kind() == types.Int64
		if !(v == "%v" || v == "%d" && isInt || v == "%g" && !isInt) {
			return nil, fmt.Sprintf("%s does not keep all digits", v)
		}
		out = append(out, x.val)
	}
	return out, ""
}

func checkLoad(c *Ctx) {
	name := "market.LoadCandlesFromFile"
	z := &files{c: c, name: name}
	appends := 0
	var path V
	prep := func(e *Eng, st *State, args []V) {
		path = args[0]
		z.track(e, st, nil)
		t := c.prog.fn(name).Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		e.onChange = func(st *State, pos token.Pos, o *Obj) {
			if e.silent() || o.kind != OArr || o.typ.String() != t.String() || strings.HasSuffix(o.name, "varargs") {
				return
			}
			c.ob(false, "final", fmt.Sprintf("%s (store at %s)", name, c.prog.pos(pos)), "a loaded candle is changed after it was appended")
		}
		e.onAppend = func(st *State, fn *ssa.Function, ins ssa.Instruction, dst Slice, els []V) {
			if dst.elem.String() != t.String() {
				return
			}
			n := num(st.ghost["appended"])
			z.add(st, "appended", int64(len(els)))
			if e.silent() {
				return
			}
			where := z.where(ins.Pos(), fn)
			appends++
			if !c.ob(len(els) == 1, "one", where, "not a single candle is appended") {
				return
			}
			c.ob(proveF(st.f, And(Eq(num(st.ghost["scans"]), Add(n, IntN(1))), Eq(dst.len, n))), "in-step", where, "the candle appended is not the one of the line last read")
			v, ok := els[0].(*Struct)
			if !c.ob(ok, "value", where, "the candle is not tracked") {
				return
			}
			z.parsed(st, where, v, t)
		}
	}
	r := c.run(name, runOpt{prep: prep, partial: true})
	if r == nil {
		return
	}
	c.sites += appends
	c.ob(appends > 0, "appends", name, "no candle is appended")
	for _, f := range z.from {
		c.ob(f.mode == "read" && vKey(f.path) == vKey(path), "source", name, "the file read is not the one of the given name")
	}
	ok := 0
	r.each(func(o *Out) {
		er := o.ret(1)
		s, is := o.ret(0).(Slice)
		if !c.ob(is, "candles", o.where(), "the candles are not tracked") {
			return
		}
		g := func(n string) Num { return num(o.st.ghost[n]) }
		o.must("complete", Imp(errNil(er), And(Eq(g("more"), IntN(0)), Eq(g("unasked"), IntN(0)), Eq(g("appended"), g("scans")), Eq(s.len, g("appended")))), "success is reported although not every line gave one candle of the result")
		if o.st.f.prove(er.(Iface).nilL) {
			ok++
		}
	})
	c.ob(ok > 0, "outcomes", name, "no successful outcome found")
}

// parsed: field i of the candle is the number in part i of the last line.
func (z *files) parsed(st *State, where string, v *Struct, t types.Type) {
	s, _ := isStruct(t)
	if !z.c.ob(plainFields(t), "fields", where, "a field of a candle is not a plain number") {
		return
	}
	line := fnAtom("line", SStr, st.f.norm(num(st.ghost["scans"])))
	b := strConst("{}")
	open, clos := strConst("{"), strConst("}")
	inner := []*Atom{
		fnAtom("substr", SStr, line, IntN(1), Sub(lenOf(line), IntN(1))),
		fnAtom("trim", SStr, line, b),
		fnAtom("trim", SStr, line, strConst("}{")),
		fnAtom("trimSuffix", SStr, fnAtom("trimPrefix", SStr, line, open), clos),
		fnAtom("trimPrefix", SStr, fnAtom("trimSuffix", SStr, line, clos), open),
	}
	for i := 0; i < s.NumFields(); i++ {
		isInt := s.Field(i).Type().(*types.Basic).Kind() == types.Int64
		ok := false
		for _, in := range inner {
			for _, parts := range [][]V{partsModel(st, "split", []V{in, strConst(" ")}, 1), partsModel(st, "fields", []V{in}, 0)} {
				p := parts[0].(Slice)
				x, _ := st.readElem(st.obj(p.obj), Add(p.off, IntN(int64(i))), "", p.elem).(*Atom)
				if x == nil {
					continue
				}
				var want []Num
				if isInt {
					want = []Num{atomNum(fnAtom("parseInt", SInt, x, IntN(10), IntN(64))), atomNum(fnAtom("atoi", SInt, x))}
				} else {
					want = []Num{atomNum(fnAtom("parseFloat", SReal, x, IntN(64)))}
				}
				for _, w := range want {
					ok = ok || proveF(st.f, eqF(v.f[i], w))
				}
			}
		}
		z.c.ob(ok, "field", where, "field %s is not the number in part %d of the line read", s.Field(i).Name(), i+1)
	}
}
