package main

// A model of the file system and of package os.

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fsNode struct {
	dir  bool
	data []*Term
}

type openFile struct {
	name    string
	node    *fsNode
	pos     int
	rd, wr  bool
	app     bool
	closed  bool
	std     bool
	cell    *Value
}

type fsModel struct {
	nodes          map[string]*fsNode
	stdout, stderr *openFile
	faults         int
	faulted        bool
	tmp            int
}

func newFS() *fsModel {
	f := &fsModel{nodes: map[string]*fsNode{"/": {dir: true}, "/tmp": {dir: true}, ".": {dir: true}, "/dev": {dir: true}, "/dev/stdout": {}, "/dev/stderr": {}, "/dev/null": {}}}
	f.stdout = &openFile{name: "/dev/stdout", node: f.nodes["/dev/stdout"], wr: true, app: true, std: true}
	f.stderr = &openFile{name: "/dev/stderr", node: f.nodes["/dev/stderr"], wr: true, app: true, std: true}
	return f
}

func (f *fsModel) node(name string) *fsNode {
	n := f.nodes[name]
	if n == nil {
		return &fsNode{}
	}
	return n
}

// file is the *os.File value of an open file.
func (f *fsModel) file(o *openFile) *Value {
	if o.cell == nil {
		o.cell = new(Value)
		*o.cell = &Native{kind: "file", data: o}
	}
	return o.cell
}

func clean(s string) string {
	if s == "" {
		return ""
	}
	return path.Clean(s)
}

func (p *Path) osErr(op, name, msg string, kind string) Iface {
	text := op + " " + name + ": " + msg
	if op == "" {
		text = msg
	}
	if kind != "" {
		return p.wrapErr(text, p.osSentinel(kind))
	}
	return p.errorIface(text)
}

func (p *Path) osSentinel(kind string) Iface {
	if e, ok := p.sentinels[kind]; ok {
		return e
	}
	e := p.errorIface(kind)
	p.sentinels[kind] = e
	return e
}

// fault decides whether the next operation fails.
func (p *Path) fault(op string) bool {
	f := p.fs
	if f.faults <= 0 {
		return false
	}
	k := p.choose(2)
	p.addInput("p", "fault:"+op, nil, uint64(k))
	if k == 1 {
		f.faults--
		f.faulted = true
		return true
	}
	return false
}

func (f *fsModel) write(p *Path, o *openFile, bs Slice) (int, Iface) {
	if o.closed {
		return 0, p.osErr("write", o.name, "file already closed", "closed")
	}
	if !o.wr {
		return 0, p.osErr("write", o.name, "bad file descriptor", "")
	}
	n := len(bs)
	if !o.std && p.fault("write") {
		// nothing or half of the data gets written
		k := p.choose(2)
		p.addInput("p", "short", nil, uint64(k))
		if k == 0 {
			return 0, p.osErr("write", o.name, "injected failure", "")
		}
		n = n / 2
	}
	if o.app {
		o.pos = len(o.node.data)
	}
	nd := append([]*Term{}, o.node.data...)
	for len(nd) < o.pos+n {
		nd = append(nd, p.b.BV(0, 8))
	}
	for i := 0; i < n; i++ {
		nd[o.pos+i] = bs[i].(*Term)
	}
	o.node.data = nd
	o.pos += n
	if n < len(bs) {
		return n, p.osErr("write", o.name, "injected failure", "")
	}
	return n, Iface{}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (p *Path) openModel(name string, flag int64) (*openFile, Iface) {
	p.effect("files")
	f := p.fs
	if p.fault("open") {
		return nil, p.osErr("open", name, "injected failure", "")
	}
	c := clean(name)
	nd := f.nodes[c]
	wr := flag&3 == oWRONLY || flag&3 == oRDWR
	if nd == nil {
		if flag&oCREATE == 0 || c == "" {
			return nil, p.osErr("open", name, "no such file or directory", "notexist")
		}
		dir := path.Dir(c)
		if d := f.nodes[dir]; d == nil || !d.dir {
			return nil, p.osErr("open", name, "no such file or directory", "notexist")
		}
		nd = &fsNode{}
		f.nodes[c] = nd
	} else if flag&oEXCL != 0 && flag&oCREATE != 0 {
		return nil, p.osErr("open", name, "file exists", "exist")
	}
	if nd.dir && (wr || flag&oCREATE != 0) {
		return nil, p.osErr("open", name, "is a directory", "")
	}
	if flag&oTRUNC != 0 && wr {
		nd.data = nil
	}
	return &openFile{name: name, node: nd, rd: flag&3 != oWRONLY, wr: wr, app: flag&oAPPEND != 0}, Iface{}
}

func (p *Path) fileOf(v Value) *openFile {
	c, ok := v.(*Value)
	if !ok || c == nil {
		return nil
	}
	if n, ok := (*c).(*Native); ok && n.kind == "file" {
		return n.data.(*openFile)
	}
	unsupported("file value")
	return nil
}

func osIntrinsic(name string) intrinsic {
	type F = *frame
	nilFile := (*Value)(nil)
	open := func(flag func(a []Value) int64) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			o, err := p.openModel(str(p, a[0]), flag(a))
			if err.t != nil {
				return Tuple{nilFile, err}
			}
			return Tuple{p.fs.file(o), err}
		}
	}
	on := func(f func(p *Path, o *openFile, a []Value) Value, bad func(p *Path) Value) intrinsic {
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			o := p.fileOf(a[0])
			if o == nil {
				return bad(p)
			}
			return f(p, o, a)
		}
	}
	badN := func(p *Path) Value { return Tuple{p.b.BV(0, 64), p.errorIface("invalid argument")} }
	badE := func(p *Path) Value { return p.errorIface("invalid argument") }
	switch name {
	case "os.Open":
		return open(func(a []Value) int64 { return 0 })
	case "os.Create":
		return open(func(a []Value) int64 { return oRDWR | oCREATE | oTRUNC })
	case "os.OpenFile":
		return open(func(a []Value) int64 { return cint(a[1]) })
	case "os.ReadFile":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			o, err := p.openModel(str(p, a[0]), 0)
			if err.t != nil {
				return Tuple{Slice(nil), err}
			}
			if o.node.dir {
				return Tuple{Slice(nil), p.osErr("read", o.name, "is a directory", "")}
			}
			if p.fault("read") {
				p.addInput("p", "short", nil, 0)
				return Tuple{Slice(nil), p.osErr("read", o.name, "is a directory", "")}
			}
			s := make(Slice, len(o.node.data))
			for i := range s {
				s[i] = o.node.data[i]
			}
			return Tuple{s, Iface{}}
		}
	case "os.WriteFile":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			o, err := p.openModel(str(p, a[0]), oWRONLY|oCREATE|oTRUNC)
			if err.t != nil {
				return err
			}
			_, err = p.fs.write(p, o, a[1].(Slice))
			if err.t == nil && p.fault("close") {
				return p.osErr("close", o.name, "injected failure", "")
			}
			return err
		}
	case "os.Remove":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			n := clean(str(p, a[0]))
			if p.fs.nodes[n] == nil {
				return p.osErr("remove", n, "no such file or directory", "notexist")
			}
			delete(p.fs.nodes, n)
			return p.nilErr()
		}
	case "os.RemoveAll":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			n := clean(str(p, a[0]))
			for k := range p.fs.nodes {
				if k == n || strings.HasPrefix(k, n+"/") {
					delete(p.fs.nodes, k)
				}
			}
			return p.nilErr()
		}
	case "os.Rename":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			x, y := clean(str(p, a[0])), clean(str(p, a[1]))
			if p.fault("rename") {
				return p.osErr("rename", x, "injected failure", "")
			}
			n := p.fs.nodes[x]
			if n == nil {
				return p.osErr("rename", x, "no such file or directory", "notexist")
			}
			if d := p.fs.nodes[path.Dir(y)]; d == nil || !d.dir {
				return p.osErr("rename", x, "no such file or directory", "notexist")
			}
			if d := p.fs.nodes[y]; d != nil && d.dir {
				return p.osErr("rename", x, "file exists", "exist")
			}
			delete(p.fs.nodes, x)
			p.fs.nodes[y] = n
			return p.nilErr()
		}
	case "os.Mkdir", "os.MkdirAll":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			n := clean(str(p, a[0]))
			if d := p.fs.nodes[n]; d != nil {
				if d.dir && strings.HasSuffix(name, "All") {
					return p.nilErr()
				}
				return p.osErr("mkdir", n, "file exists", "exist")
			}
			p.fs.nodes[n] = &fsNode{dir: true}
			return p.nilErr()
		}
	case "os.MkdirTemp":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			d := clean(str(p, a[0]))
			if d == "" {
				d = "/tmp"
			}
			p.fs.tmp++
			n := fmt.Sprintf("%s/t%d", d, p.fs.tmp)
			p.fs.nodes[n] = &fsNode{dir: true}
			return Tuple{Str{s: n}, p.nilErr()}
		}
	case "os.CreateTemp":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			d := clean(str(p, a[0]))
			if d == "" {
				d = "/tmp"
			}
			p.fs.tmp++
			o, err := p.openModel(fmt.Sprintf("%s/f%d", d, p.fs.tmp), oRDWR|oCREATE|oTRUNC)
			if err.t != nil {
				return Tuple{nilFile, err}
			}
			return Tuple{p.fs.file(o), err}
		}
	case "os.Stat", "os.Lstat":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			p.effect("files")
			n := str(p, a[0])
			if p.fault("stat") {
				return Tuple{Iface{}, p.osErr("stat", n, "injected failure", "")}
			}
			nd := p.fs.nodes[clean(n)]
			if nd == nil {
				return Tuple{Iface{}, p.osErr("stat", n, "no such file or directory", "notexist")}
			}
			cell := new(Value)
			*cell = &Native{kind: "stat", data: [2]interface{}{n, nd}}
			return Tuple{Iface{t: p.eng.fileStat, v: cell}, p.nilErr()}
		}
	case "os.Exit":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { p.exited("os.Exit"); return nil }
	case "os.IsNotExist", "os.IsExist":
		k := "notexist"
		if name == "os.IsExist" {
			k = "exist"
		}
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			return p.errIs(a[0].(Iface), p.osSentinel(k))
		}
	case "os.TempDir":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return Str{s: "/tmp"} }
	case "os.Getpid":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return p.b.BV(4242, 64) }
	case "os.Getenv":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value { return Str{} }
	case "(*os.File).Write":
		return on(func(p *Path, o *openFile, a []Value) Value {
			n, err := p.fs.write(p, o, a[1].(Slice))
			return Tuple{p.b.BV(uint64(n), 64), err}
		}, badN)
	case "(*os.File).WriteString":
		return on(func(p *Path, o *openFile, a []Value) Value {
			bs := p.strBytes(a[1].(Str))
			s := make(Slice, len(bs))
			for i := range bs {
				s[i] = bs[i]
			}
			n, err := p.fs.write(p, o, s)
			return Tuple{p.b.BV(uint64(n), 64), err}
		}, badN)
	case "(*os.File).Read":
		return on(func(p *Path, o *openFile, a []Value) Value {
			s := a[1].(Slice)
			z := p.b.BV(0, 64)
			if o.closed {
				return Tuple{z, p.osErr("read", o.name, "file already closed", "closed")}
			}
			if len(s) == 0 {
				return Tuple{z, p.nilErr()}
			}
			if o.node.dir {
				return Tuple{z, p.osErr("read", o.name, "is a directory", "")}
			}
			if was := p.fs.faulted; p.fault("read") {
				// nothing is read, or half of it, which is no failure
				k := 0
				if len(s) > 1 && o.pos < len(o.node.data) {
					k = p.choose(2)
				}
				p.addInput("p", "short", nil, uint64(k))
				if k == 0 {
					return Tuple{z, p.osErr("read", o.name, "injected failure", "")}
				}
				p.fs.faulted = was
				s = s[:len(s)/2]
			}
			n := copyBytes(p, s, o)
			if n == 0 {
				return Tuple{z, p.eof()}
			}
			return Tuple{p.b.BV(uint64(n), 64), p.nilErr()}
		}, badN)
	case "(*os.File).Close":
		return on(func(p *Path, o *openFile, a []Value) Value {
			if o.closed {
				return p.osErr("close", o.name, "file already closed", "closed")
			}
			o.closed = true
			if p.fault("close") {
				return p.osErr("close", o.name, "injected failure", "")
			}
			return p.nilErr()
		}, badE)
	case "(*os.File).Sync":
		return on(func(p *Path, o *openFile, a []Value) Value {
			if o.closed {
				return p.osErr("sync", o.name, "file already closed", "closed")
			}
			if p.fault("sync") {
				return p.osErr("sync", o.name, "injected failure", "")
			}
			return p.nilErr()
		}, badE)
	case "(*os.File).Chmod":
		return on(func(p *Path, o *openFile, a []Value) Value { return p.nilErr() }, badE)
	case "(*os.File).Truncate":
		return on(func(p *Path, o *openFile, a []Value) Value {
			n := int(cint(a[1]))
			if n < len(o.node.data) {
				o.node.data = o.node.data[:n:n]
			}
			return p.nilErr()
		}, badE)
	case "(*os.File).Name":
		return on(func(p *Path, o *openFile, a []Value) Value { return Str{s: o.name} }, badE)
	case "(*os.File).Stat":
		return on(func(p *Path, o *openFile, a []Value) Value {
			if o.closed {
				return Tuple{Iface{}, p.osErr("stat", o.name, "file already closed", "closed")}
			}
			if p.fault("stat") {
				return Tuple{Iface{}, p.osErr("stat", o.name, "injected failure", "")}
			}
			cell := new(Value)
			*cell = &Native{kind: "stat", data: [2]interface{}{o.name, o.node}}
			return Tuple{Iface{t: p.eng.fileStat, v: cell}, p.nilErr()}
		}, func(p *Path) Value { return Tuple{Iface{}, p.errorIface("invalid argument")} })
	case "(*os.File).Seek":
		return on(func(p *Path, o *openFile, a []Value) Value {
			off := int(cint(a[1]))
			switch cint(a[2]) {
			case 0:
				o.pos = off
			case 1:
				o.pos += off
			case 2:
				o.pos = len(o.node.data) + off
			}
			return Tuple{p.b.BV(uint64(o.pos), 64), p.nilErr()}
		}, badN)
	case "(*os.fileStat).Size", "(*os.fileStat).IsDir", "(*os.fileStat).Name", "(*os.fileStat).Mode":
		return func(p *Path, c *frame, fn *ssa.Function, a []Value) Value {
			cell, _ := a[0].(*Value)
			if cell == nil {
				p.nilDeref()
			}
			d := (*cell).(*Native).data.([2]interface{})
			nd := d[1].(*fsNode)
			switch fn.Name() {
			case "Size":
				if nd.dir {
					return p.b.BV(4096, 64)
				}
				return p.b.BV(uint64(len(nd.data)), 64)
			case "IsDir":
				return p.b.Bool(nd.dir)
			case "Name":
				return Str{s: path.Base(d[0].(string))}
			}
			if nd.dir {
				return p.b.BV(1<<31|0755, 32)
			}
			return p.b.BV(0644, 32)
		}
	}
	return nil
}

func copyBytes(p *Path, s Slice, o *openFile) int {
	n := 0
	for n < len(s) && o.pos < len(o.node.data) {
		p.write(&s[n], o.node.data[o.pos])
		n++
		o.pos++
	}
	return n
}

func (p *Path) eof() Iface {
	io := p.prog.ImportedPackage("io")
	if io == nil {
		unsupported("package io")
	}
	return p.load(p.global(io.Var("EOF"))).(Iface)
}

// specialGlobal supplies globals of packages whose initialisers are not run.
func (p *Path) specialGlobal(g *ssa.Global, pkg string, v *Value) bool {
	switch pkg + "." + g.Name() {
	case "os.Stdout":
		*v = p.fs.file(p.fs.stdout)
		return true
	case "os.Stderr":
		*v = p.fs.file(p.fs.stderr)
		return true
	case "os.ErrNotExist", "io/fs.ErrNotExist":
		*v = p.osSentinel("notexist")
		return true
	case "os.ErrExist", "io/fs.ErrExist":
		*v = p.osSentinel("exist")
		return true
	case "os.ErrClosed", "io/fs.ErrClosed":
		*v = p.osSentinel("closed")
		return true
	}
	if pkg == "encoding/binary" {
		// the byte orders are empty structs
		if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return true
		}
	}
	return false
}
