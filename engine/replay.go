package main

// Native replay: the same harness, compiled against the real code, run on the
// concrete inputs, random draws and injected faults of a candidate.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

type Replayer struct {
	dir string // scratch
	bin string
	err error
}

type ReplayFile struct {
	Property string `json:"property"`
	Label    string `json:"label"`
	Message  string `json:"message,omitempty"`
	Harness  string `json:"harness"`
	Tier     int    `json:"tier"`
	Mode     string `json:"mode"`
	Inputs   []CI   `json:"inputs"`
	Draws    []CI   `json:"draws"`
	Observed string `json:"observed,omitempty"`
}

type NatFail struct {
	Label  string `json:"label"`
	Soft   bool   `json:"soft"`
	Detail string `json:"detail"`
}

type NatResult struct {
	Status string    `json:"status"`
	Detail string    `json:"detail"`
	Fails  []NatFail `json:"fails"`
	Claims int       `json:"claims"`
	Reach  []string  `json:"reach"`
}

func goroot() (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	return strings.TrimSpace(string(out)), err
}

// patch inserts code at the start of functions.
func patch(src string, ins [][2]string) (string, error) {
	for _, p := range ins {
		re := regexp.MustCompile(`(?m)^func ` + p[0] + `[^\n]*?\{`)
		loc := re.FindStringIndex(src)
		if loc == nil {
			return "", fmt.Errorf("no function %s to hook", p[0])
		}
		src = src[:loc[1]] + p[1] + src[loc[1]:]
	}
	return src, nil
}

func randPatches(method string) [][2]string {
	h := func(name, code string) [2]string {
		return [2]string{`\(r \*Rand\) ` + name + `\(`, " if ZZHook != nil " + code + "; "}
	}
	return [][2]string{
		h("Int63", `{ _, v := ZZHook("r", 0); return int64(v & (1<<63 - 1)) }`),
		h("Uint32", `{ _, v := ZZHook("r", 0); return uint32(v) }`),
		h("Uint64", `{ _, v := ZZHook("r", 0); return v }`),
		h("Int31", `{ _, v := ZZHook("r", 0); return int32(v & (1<<31 - 1)) }`),
		h("Int63n", `&& n > 0 { _, v := ZZHook("i", n); return int64(v) }`),
		h("Int31n", `&& n > 0 { _, v := ZZHook("i", int64(n)); return int32(v) }`),
		h("Intn", `&& n > 0 { _, v := ZZHook("i", int64(n)); return int(v) }`),
		h("Float64", `{ f, _ := ZZHook("u", 0); return f }`),
		{`NewSource\(`, " if ZZSeed != nil { ZZSeed(uint64(seed)) }; "},
		h("Seed", `{ ZZSeed(uint64(seed)); return }`),
		{`Seed\(`, " if ZZSeed != nil { ZZSeed(uint64(seed)); return }; "},
		h("Perm", `&& n >= 0 { m := make([]int, n); for i := 0; i < n; i++ { _, v := ZZHook("i", int64(i+1)); m[i] = m[v]; m[v] = i }; return m }`),
		h("Shuffle", `&& n >= 0 { for i := n - 1; i > 0; i-- { _, v := ZZHook("i", int64(i+1)); swap(i, int(v)) }; return }`),
	}
}

func newReplayer(repo, hdir, prop string, names []string, scratch string) *Replayer {
	r := &Replayer{dir: scratch, bin: filepath.Join(scratch, "replay.bin")}
	r.err = r.build(repo, hdir, prop, names)
	return r
}

func (r *Replayer) build(repo, hdir, prop string, names []string) error {
	root, err := goroot()
	if err != nil {
		return err
	}
	rep := map[string]string{}
	gen := func(name, content string) (string, error) {
		f := filepath.Join(r.dir, name)
		return f, os.WriteFile(f, []byte(content), 0644)
	}
	files, err := harnessFiles(hdir, prop, true)
	if err != nil {
		return err
	}
	for _, f := range files {
		rep[filepath.Join(repo, zzDir, f)] = filepath.Join(hdir, f)
	}
	for _, f := range bridgeFiles(hdir, prop) {
		rep[filepath.Join(repo, "zz_bridge_"+filepath.Base(f))] = f
	}
	var reg strings.Builder
	reg.WriteString("package main\n\nimport \"os\"\n\nfunc main() {\n\tzRun(os.Args[1:], map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&reg, "\t\t%q: %s,\n", n, n)
	}
	reg.WriteString("\t})\n}\n")
	f, err := gen("zz_main.go", reg.String())
	if err != nil {
		return err
	}
	rep[filepath.Join(repo, zzDir, "zz_main.go")] = f

	// hooked math/rand
	hookDecl := "\n\nvar ZZHook func(kind string, n int64) (float64, uint64)\n\nvar ZZSeed func(uint64)\n"
	patchFile := func(dst, src string, extra string, ins [][2]string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s, err := patch(string(b), ins)
		if err != nil {
			return fmt.Errorf("%s: %v", src, err)
		}
		return os.WriteFile(dst, []byte(s+extra), 0644)
	}
	norm := [][2]string{{`\(r \*Rand\) NormFloat64\(`, ` if ZZHook != nil { f, _ := ZZHook("n", 0); return f }; `}}
	exp := [][2]string{{`\(r \*Rand\) ExpFloat64\(`, ` if ZZHook != nil { f, _ := ZZHook("e", 0); return f }; `}}
	mr := filepath.Join(root, "src", "math", "rand")
	for _, x := range []struct {
		n   string
		e   string
		ins [][2]string
	}{{"rand.go", hookDecl, randPatches("")}, {"normal.go", "", norm}, {"exp.go", "", exp}} {
		d := filepath.Join(r.dir, "mrand_"+x.n)
		if err := patchFile(d, filepath.Join(mr, x.n), x.e, x.ins); err != nil {
			return err
		}
		rep[filepath.Join(mr, x.n)] = d
	}
	// hooked os
	osd := filepath.Join(root, "src", "os")
	bad := `&PathError{Op: "%s", Path: %s, Err: syscall.EIO}`
	fail := func(op, name string) string { return fmt.Sprintf(bad, op, name) }
	osPatches := []struct {
		file  string
		extra string
		ins   [][2]string
	}{
		{"file.go", "\n\nvar ZZFault func(op, name string) int\n", [][2]string{
			{`\(f \*File\) Read\(`, ` if ZZFault != nil && f != nil && len(b) > 0 { if zz := ZZFault("read", f.name); zz == 1 { return 0, ` + fail("read", "f.name") + ` } else if zz == 2 { b = b[:len(b)/2] } }; `},
			{`\(f \*File\) Write\(`, ` if ZZFault != nil && f != nil { if zz := ZZFault("write", f.name); zz == 1 { return 0, ` + fail("write", "f.name") + ` } else if zz == 2 { n, err = f.write(b[:len(b)/2]); return n, ` + fail("write", "f.name") + ` } }; `},
			{`OpenFile\(`, ` if ZZFault != nil && ZZFault("open", name) != 0 { return nil, ` + fail("open", "name") + ` }; `},
			{`Rename\(`, ` if ZZFault != nil && ZZFault("rename", oldpath) != 0 { return ` + fail("rename", "oldpath") + ` }; `},
		}},
		{"file_posix.go", "", [][2]string{
			{`\(f \*File\) Close\(`, ` if ZZFault != nil && f != nil && ZZFault("close", f.name) != 0 { f.file.close(); return ` + fail("close", "f.name") + ` }; `},
			{`\(f \*File\) Sync\(`, ` if ZZFault != nil && f != nil && ZZFault("sync", f.name) != 0 { return ` + fail("sync", "f.name") + ` }; `},
		}},
		{"stat.go", "\nvar _ = syscall.EIO\n", [][2]string{
			{`Stat\(name`, ` if ZZFault != nil && ZZFault("stat", name) != 0 { return nil, ` + fail("stat", "name") + ` }; `},
		}},
	}
	for _, x := range osPatches {
		b, err := os.ReadFile(filepath.Join(osd, x.file))
		if err != nil {
			return err
		}
		s, err := patch(string(b), x.ins)
		if err != nil {
			return err
		}
		if !strings.Contains(s, "\"syscall\"") {
			if strings.Contains(s, "import (") {
				s = strings.Replace(s, "import (", "import (\n\t\"syscall\"", 1)
			} else {
				s = strings.Replace(s, "import ", "import \"syscall\"\nimport ", 1)
			}
		}
		d := filepath.Join(r.dir, "os_"+x.file)
		if err := os.WriteFile(d, []byte(s+x.extra), 0644); err != nil {
			return err
		}
		rep[filepath.Join(osd, x.file)] = d
	}
	// hooked golang.org/x/exp/rand
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	mf := string(gomod)
	if m := regexp.MustCompile(`golang.org/x/exp (v[^\s]+)`).FindStringSubmatch(mf); m != nil {
		out, err := exec.Command("go", "env", "GOMODCACHE").Output()
		if err != nil {
			return err
		}
		xd := filepath.Join(strings.TrimSpace(string(out)), "golang.org", "x", "exp@"+m[1])
		nd := filepath.Join(r.dir, "xexp")
		if err := os.MkdirAll(filepath.Join(nd, "rand"), 0755); err != nil {
			return err
		}
		es, err := os.ReadDir(xd)
		if err != nil {
			return err
		}
		for _, e := range es {
			if e.Name() != "rand" {
				os.Symlink(filepath.Join(xd, e.Name()), filepath.Join(nd, e.Name()))
			}
		}
		rs, err := os.ReadDir(filepath.Join(xd, "rand"))
		if err != nil {
			return err
		}
		for _, e := range rs {
			if strings.HasSuffix(e.Name(), "_test.go") || e.IsDir() {
				continue
			}
			var ins [][2]string
			extra := ""
			switch e.Name() {
			case "rand.go":
				ins, extra = randPatches(""), hookDecl
			case "normal.go":
				ins = norm
			case "exp.go":
				ins = exp
			}
			if err := patchFile(filepath.Join(nd, "rand", e.Name()), filepath.Join(xd, "rand", e.Name()), extra, ins); err != nil {
				return err
			}
		}
		mf += "\nreplace golang.org/x/exp => " + nd + "\n"
	}
	if _, err := gen("go.mod", mf); err != nil {
		return err
	}
	gosum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if _, err := gen("go.sum", string(gosum)); err != nil {
		return err
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf, err := gen("overlay.json", string(ovb))
	if err != nil {
		return err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", ovf, "-modfile", filepath.Join(r.dir, "go.mod"), "-o", r.bin, "./"+zzDir)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("native build: %v: %s", err, out)
	}
	return nil
}

// Run executes one candidate natively.
func (r *Replayer) Run(h string, tier int, inputs, draws []CI, timeout time.Duration) *NatResult {
	if r.err != nil {
		return &NatResult{Status: "nobuild", Detail: r.err.Error()}
	}
	d, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return &NatResult{Status: "error", Detail: err.Error()}
	}
	defer os.RemoveAll(d)
	in := filepath.Join(d, "in.json")
	outf := filepath.Join(d, "out.json")
	wd := filepath.Join(d, "wd")
	tmp := filepath.Join(d, "tmp")
	os.Mkdir(wd, 0755)
	os.Mkdir(tmp, 0755)
	b, _ := json.Marshal(map[string]interface{}{"harness": h, "tier": tier, "inputs": nz(inputs), "draws": nz(draws)})
	os.WriteFile(in, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 6000000; ulimit -c 0; ulimit -f 200000; exec \"$0\" \"$@\"", r.bin, in, outf)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = nil
	err = cmd.Run()
	res := &NatResult{}
	if o, e := os.ReadFile(outf); e == nil && json.Unmarshal(o, res) == nil && res.Status != "" {
		return res
	}
	es := eb.String()
	switch {
	case ctx.Err() != nil:
		return &NatResult{Status: "hang", Fails: []NatFail{{Label: "hang", Detail: fmt.Sprintf("still running after %v", timeout)}}}
	case strings.Contains(es, "out of memory") || strings.Contains(es, "cannot allocate memory"):
		return &NatResult{Status: "oom", Fails: []NatFail{{Label: "alloc", Detail: firstLine(es)}}}
	case strings.Contains(es, "stack overflow") || strings.Contains(es, "goroutine stack exceeds"):
		return &NatResult{Status: "panic", Fails: []NatFail{{Label: "panic", Detail: firstLine(es)}}}
	case strings.Contains(es, "fatal error:") || strings.Contains(es, "panic:"):
		return &NatResult{Status: "panic", Fails: []NatFail{{Label: "panic", Detail: firstLine(es)}}}
	case err == nil || strings.Contains(fmt.Sprint(err), "exit status") && !strings.Contains(fmt.Sprint(err), "exit status 3"):
		return &NatResult{Status: "exit", Fails: []NatFail{{Label: "panic", Detail: "the process exited: " + firstLine(es)}}}
	}
	return &NatResult{Status: "error", Detail: fmt.Sprint(err, " ", firstLine(es))}
}

func nz(c []CI) []CI {
	if c == nil {
		return []CI{}
	}
	return c
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
