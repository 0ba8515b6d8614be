package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

//go:embed assets/*.txt
var assets embed.FS

var repoDir = "/repo"

func asset(name string) []byte {
	b, err := assets.ReadFile("assets/" + name)
	if err != nil {
		infra("asset %s: %v", name, err)
	}
	return b
}

// insertAfter puts code right after the line that starts with sig.
func insertAfter(src, sig, code string) string {
	re := regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(sig) + `.*\{$`)
	loc := re.FindStringIndex(src)
	if loc == nil {
		infra("overlay: signature not found: %s", sig)
	}
	return src[:loc[1]] + "\n" + code + src[loc[1]:]
}

func replaceOnce(src, old, new string) string {
	if strings.Count(src, old) != 1 {
		infra("overlay: text found %d times: %s", strings.Count(src, old), old)
	}
	return strings.Replace(src, old, new, 1)
}

func goCmd(dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(goEnv(), env...)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOOS", "GOARCH", "GOWORK", "GOENV", "GOEXPERIMENT", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// writeOverlay generates the monitor overlay for the Go standard library and the driver.
func writeOverlay(dir string, extra map[string]string) string {
	out, err := goCmd(repoDir, nil, "env", "GOROOT")
	if err != nil {
		infra("go env: %v %s", err, out)
	}
	goroot := strings.TrimSpace(out)
	rep := map[string]string{}
	put := func(target string, content []byte) {
		name := filepath.Join(dir, "ov_"+strings.ReplaceAll(strings.Trim(target, "/"), "/", "_"))
		if err := os.WriteFile(name, content, 0644); err != nil {
			infra("overlay: %v", err)
		}
		rep[target] = name
	}
	src := func(rel string) (string, string) {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			infra("overlay: %v", err)
		}
		return p, string(b)
	}
	pe := func(op, v string) string {
		return "return &PathError{Op: \"" + op + "\", Path: " + v + ", Err: vErr}"
	}
	one := func(op, v string, mut bool, ret string) string {
		return fmt.Sprintf("\t%s, vErr := verifOp(%q, %s, \"\", %v)\n\tif vErr != nil {\n\t\t%s\n\t}", v, op, v, mut, ret)
	}
	two := func(op, a, b string) string {
		return fmt.Sprintf("\t%s, vErr := verifOp(%q, %s, %s, true)\n\tif vErr == nil {\n\t\t%s, vErr = verifOp(%q, %s, %s, true)\n\t}\n\tif vErr != nil {\n\t\treturn &LinkError{%q, %s, %s, vErr}\n\t}",
			a, op+"-from", a, b, b, op+"-to", b, a, op, a, b)
	}

	p, s := src("os/file.go")
	s = insertAfter(s, "func Mkdir(name string, perm FileMode) error", one("mkdir", "name", true, pe("mkdir", "name")))
	s = insertAfter(s, "func OpenFile(name string, flag int, perm FileMode) (*File, error)",
		"\tvOp, vMut := verifOpenClass(flag)\n\tname, vErr := verifOp(vOp, name, verifItoa(flag), vMut)\n\tif vErr != nil {\n\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: vErr}\n\t}")
	s = insertAfter(s, "func openDir(name string) (*File, error)",
		"\tname, vErr := verifOp(\"opendir\", name, \"\", false)\n\tif vErr != nil {\n\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: vErr}\n\t}")
	s = insertAfter(s, "func Rename(oldpath, newpath string) error", two("rename", "oldpath", "newpath"))
	s = insertAfter(s, "func Readlink(name string) (string, error)", "\tname, _ = verifOp(\"readlink\", name, \"\", false)")
	s = insertAfter(s, "func Chdir(dir string) error", "\tdir = verifMap(dir)")
	s = replaceOnce(s, "func Chmod(name string, mode FileMode) error { return chmod(name, mode) }",
		"func Chmod(name string, mode FileMode) error {\n"+one("chmod", "name", true, pe("chmod", "name"))+"\n\treturn chmod(name, mode)\n}")
	s = replaceOnce(s, "func (f *File) Chmod(mode FileMode) error { return f.chmod(mode) }",
		"func (f *File) Chmod(mode FileMode) error {\n\tif vErr := f.verifMut(\"chmod\"); vErr != nil {\n\t\treturn vErr\n\t}\n\treturn f.chmod(mode)\n}")
	s = insertAfter(s, "func (f *File) Write(b []byte) (n int, err error)",
		"\tif vShort, vErr, vKill := f.verifWrite(\"write\", b); vErr != nil {\n\t\tif vShort > 0 {\n\t\t\tn, _ = f.write(b[:vShort])\n\t\t}\n\t\tif vKill {\n\t\t\tverifDie()\n\t\t}\n\t\treturn n, f.wrapErr(\"write\", vErr)\n\t}")
	s = insertAfter(s, "func (f *File) WriteAt(b []byte, off int64) (n int, err error)",
		"\tif vShort, vErr, vKill := f.verifWrite(\"writeat\", b); vErr != nil {\n\t\tif vShort > 0 {\n\t\t\tn, _ = f.pwrite(b[:vShort], off)\n\t\t}\n\t\tif vKill {\n\t\t\tverifDie()\n\t\t}\n\t\treturn n, f.wrapErr(\"write\", vErr)\n\t}")
	s = insertAfter(s, "func (f *File) ReadFrom(r io.Reader) (n int64, err error)", "\tif f != nil && f.file != nil && f.pfd.Sysfd > 2 {\n\t\treturn genericReadFrom(f, r)\n\t}")
	s = insertAfter(s, "func (f *File) WriteTo(w io.Writer) (n int64, err error)", "\tif f != nil && f.file != nil && f.pfd.Sysfd > 2 {\n\t\treturn genericWriteTo(f, w)\n\t}")
	s = insertAfter(s, "func (f *File) Read(b []byte) (n int, err error)", "\tif vErr := f.verifRead(); vErr != nil {\n\t\treturn 0, vErr\n\t}")
	put(p, []byte(s))

	p, s = src("os/file_unix.go")
	s = insertAfter(s, "func Truncate(name string, size int64) error", one("truncate", "name", true, pe("truncate", "name")))
	s = insertAfter(s, "func Remove(name string) error", one("remove", "name", true, pe("remove", "name")))
	s = insertAfter(s, "func Link(oldname, newname string) error", two("link", "oldname", "newname"))
	s = insertAfter(s, "func Symlink(oldname, newname string) error",
		"\tnewname, vErr := verifOp(\"symlink\", newname, oldname, true)\n\tif vErr != nil {\n\t\treturn &LinkError{\"symlink\", oldname, newname, vErr}\n\t}")
	put(p, []byte(s))

	p, s = src("os/file_posix.go")
	s = insertAfter(s, "func Chown(name string, uid, gid int) error", one("chown", "name", true, pe("chown", "name")))
	s = insertAfter(s, "func Lchown(name string, uid, gid int) error", one("chown", "name", true, pe("lchown", "name")))
	s = insertAfter(s, "func (f *File) Chown(uid, gid int) error", "\tif vErr := f.verifMut(\"chown\"); vErr != nil {\n\t\treturn vErr\n\t}")
	s = insertAfter(s, "func (f *File) Truncate(size int64) error", "\tif vErr := f.verifMut(\"truncate\"); vErr != nil {\n\t\treturn vErr\n\t}")
	s = insertAfter(s, "func (f *File) Sync() error", "\tif vErr := f.verifMut(\"sync\"); vErr != nil {\n\t\treturn vErr\n\t}")
	s = insertAfter(s, "func Chtimes(name string, atime time.Time, mtime time.Time) error", one("chtimes", "name", true, pe("chtimes", "name")))
	put(p, []byte(s))

	p, s = src("os/path.go")
	s = insertAfter(s, "func RemoveAll(path string) error", one("removeall", "path", true, pe("unlinkat", "path")))
	put(p, []byte(s))

	p, s = src("os/stat.go")
	s = insertAfter(s, "func Stat(name string) (FileInfo, error)", "\tname, _ = verifOp(\"stat\", name, \"\", false)")
	s = insertAfter(s, "func Lstat(name string) (FileInfo, error)", "\tname, _ = verifOp(\"stat\", name, \"\", false)")
	put(p, []byte(s))

	p, s = src("os/exec.go")
	s = insertAfter(s, "func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error)",
		"\tname, vErr := verifExec(name, argv, attr)\n\tif vErr != nil {\n\t\treturn nil, &PathError{Op: \"fork/exec\", Path: name, Err: vErr}\n\t}")
	put(p, []byte(s))

	p, s = src("os/root.go")
	s = insertAfter(s, "func OpenRoot(name string) (*Root, error)", "\tname, _ = verifOp(\"openroot\", name, \"\", false)")
	s = insertAfter(s, "func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error)",
		"\tvOp, vMut := verifOpenClass(flag)\n\tif _, vErr := verifOp(vOp, r.verifPath(name), \"\", vMut); vErr != nil {\n\t\treturn nil, &PathError{Op: \"openat\", Path: name, Err: vErr}\n\t}")
	for _, m := range []struct{ sig, op, v string }{
		{"func (r *Root) Chmod(name string, mode FileMode) error", "chmod", "name"},
		{"func (r *Root) Mkdir(name string, perm FileMode) error", "mkdir", "name"},
		{"func (r *Root) MkdirAll(name string, perm FileMode) error", "mkdir", "name"},
		{"func (r *Root) Remove(name string) error", "remove", "name"},
		{"func (r *Root) RemoveAll(name string) error", "removeall", "name"},
		{"func (r *Root) Rename(oldname, newname string) error", "rename-to", "newname"},
		{"func (r *Root) Link(oldname, newname string) error", "link-to", "newname"},
		{"func (r *Root) Symlink(oldname, newname string) error", "symlink", "newname"},
	} {
		s = insertAfter(s, m.sig, fmt.Sprintf("\tif _, vErr := verifOp(%q, r.verifPath(%s), \"\", true); vErr != nil {\n\t\treturn &PathError{Op: %q, Path: %s, Err: vErr}\n\t}", m.op, m.v, m.op, m.v))
	}
	put(p, []byte(s))
	put(filepath.Join(goroot, "src/os/zz_verif.go"), asset("os_verif.go.txt"))

	p, s = src("net/dial.go")
	s = insertAfter(s, "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error)",
		"\tvAddr, vErr := verifDial(ctx, d, network, address)\n\tif vErr != nil {\n\t\treturn nil, vErr\n\t}\n\taddress = vAddr")
	put(p, []byte(s))
	put(filepath.Join(goroot, "src/net/zz_verif.go"), asset("net_verif.go.txt"))
	p, s = src("net/net.go")
	s = insertAfter(s, "func (c *conn) Write(b []byte) (int, error)", "\tos.VerifData(\"netwrite\", b)")
	put(p, []byte(s))
	p, s = src("crypto/tls/conn.go")
	s = insertAfter(s, "func (c *Conn) Write(b []byte) (int, error)", "\tverifData(b)")
	put(p, []byte(s))
	put(filepath.Join(goroot, "src/crypto/tls/zz_verif.go"), []byte("package tls\n\nimport \"os\"\n\nfunc verifData(b []byte) { os.VerifData(\"tlswrite\", b) }\n"))

	put(filepath.Join(repoDir, "1pass-app/zz_verifdriver/main.go"), asset("driver.go.txt"))

	for f, text := range extra {
		put(f, []byte(text))
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(f, j, 0644); err != nil {
		infra("overlay: %v", err)
	}
	return f
}

// Build products, all made from /repo's current working tree.
type builds struct {
	mu  sync.Mutex
	dir string
	got map[string]string
}

var versionRe = regexp.MustCompile(`(?m)^(\s*(?:const\s+)?Version(?:\s+string)?\s*=\s*)"[^"]*"`)

// variant builds the program as another version of itself; "" if the version cannot be located in the source.
func (b *builds) variant(kind, version string) string {
	b.mu.Lock()
	if p, ok := b.got[kind+"@"+version]; ok {
		b.mu.Unlock()
		return p
	}
	b.mu.Unlock()
	files, _ := filepath.Glob(filepath.Join(repoDir, "1pass-core/core/domain/*.go"))
	found, text := "", ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return ""
		}
		switch len(versionRe.FindAllIndex(src, -1)) {
		case 0:
		case 1:
			if found != "" {
				return ""
			}
			found, text = f, versionRe.ReplaceAllString(string(src), `${1}"`+version+`"`)
		default:
			return ""
		}
	}
	if found == "" {
		return ""
	}
	return b.build(kind, kind+"@"+version, map[string]string{found: text})
}

// get builds (once per run) one of: app (real terminal), gui (monitored terminal), race (monitored terminal, race
// detector), driver (facade driver).
func (b *builds) get(kind string) string { return b.build(kind, kind, nil) }

func (b *builds) build(kind, key string, extra map[string]string) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	if p, ok := b.got[key]; ok {
		return p
	}
	ovDir := filepath.Join(b.dir, "ov_"+key)
	os.MkdirAll(ovDir, 0755)
	ov := writeOverlay(ovDir, extra)
	// copies of go.mod/go.sum, so that nothing is ever written to /repo
	modfile := filepath.Join(ovDir, "app.mod")
	copyMod(ovDir, modfile, kind == "gui" || kind == "race")
	out := filepath.Join(b.dir, "bin_"+key)
	pkg := "."
	args := []string{"build", "-overlay", ov, "-modfile", modfile, "-o", out}
	if kind == "race" || kind == "clirace" {
		args = append(args, "-race")
	}
	if kind == "driver" {
		pkg = "./zz_verifdriver"
	}
	args = append(args, pkg)
	var env []string
	if kind == "race" || kind == "clirace" {
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	if o, err := goCmd(filepath.Join(repoDir, "1pass-app"), env, args...); err != nil {
		infra("build %s: %v\n%s", kind, err, o)
	}
	if err := os.Chmod(out, 0755); err != nil {
		infra("build %s: %v", kind, err)
	}
	b.got[key] = out
	return out
}

// copyMod derives the build's go.mod from /repo's. With fakeTB the terminal library is replaced by the monitored stand-in
// and the GUI library by a copy that reports when an event has been handled.
func copyMod(dir, modfile string, fakeTB bool) {
	m, err := os.ReadFile(filepath.Join(repoDir, "1pass-app/go.mod"))
	if err != nil {
		infra("go.mod: %v", err)
	}
	t := strings.ReplaceAll(string(m), "=> ../", "=> "+repoDir+"/")
	if fakeTB {
		modDir := func(mod string) string {
			out, err := goCmd(filepath.Join(repoDir, "1pass-app"), nil, "list", "-modfile", plainMod(dir, t), "-m", "-f", "{{.Dir}}", mod)
			if err != nil {
				infra("go list %s: %v %s", mod, err, out)
			}
			return strings.TrimSpace(out)
		}
		tb := filepath.Join(dir, "termbox")
		os.MkdirAll(tb, 0755)
		common, err := os.ReadFile(filepath.Join(modDir("github.com/nsf/termbox-go"), "api_common.go"))
		if err != nil {
			infra("termbox: %v", err)
		}
		os.WriteFile(filepath.Join(tb, "api_common.go"), common, 0644)
		os.WriteFile(filepath.Join(tb, "api.go"), asset("termbox_fake.go.txt"), 0644)
		os.WriteFile(filepath.Join(tb, "go.mod"), []byte("module github.com/nsf/termbox-go\n"), 0644)
		src := modDir("github.com/jroimartin/gocui")
		gc := filepath.Join(dir, "gocui")
		os.MkdirAll(gc, 0755)
		files, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				infra("gocui: %v", err)
			}
			if filepath.Base(f) == "gui.go" {
				b = []byte(insertAfter(string(b), "func (g *Gui) handleEvent(ev *termbox.Event) error", "\tdefer termbox.VerifHandled(ev.N)"))
			}
			os.WriteFile(filepath.Join(gc, filepath.Base(f)), b, 0644)
		}
		os.WriteFile(filepath.Join(gc, "go.mod"), []byte("module github.com/jroimartin/gocui\n"), 0644)
		t += fmt.Sprintf("\nreplace github.com/nsf/termbox-go => %s\nreplace github.com/jroimartin/gocui => %s\n", tb, gc)
	}
	writeMod(modfile, t)
}

func plainMod(dir, text string) string {
	p := filepath.Join(dir, "plain.mod")
	writeMod(p, text)
	return p
}

func writeMod(modfile, text string) {
	os.WriteFile(modfile, []byte(text), 0644)
	s, _ := os.ReadFile(filepath.Join(repoDir, "1pass-app/go.sum"))
	os.WriteFile(strings.TrimSuffix(modfile, ".mod")+".sum", s, 0644)
}
