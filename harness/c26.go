package main

// Another user of the machine, a real one to the kernel, interferes with an update wherever its permissions allow.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C26"] = check{
		level: "runtime monitoring of real updates that are held before every one of their file operations, reads included, while a process of another user does to the temporary directory whatever the kernel lets it do; executable, report, the victim's files and their permissions are judged afterwards",
		rule:  "a case is one update under one attack; distinct = distinct (what the attacker prepares, what it exchanges, when it starts and ends, installed program)",
		run:   runC26,
	}
}

// attack is what the other user is told, and what it answers at every step.
type attack struct {
	Tmp      string   // shared, sticky and writable by everybody, as /tmp
	Cache    string   // where the program is known to work
	Mine     string   // a directory of the attacker
	Victim   string   // a directory of the victim, readable by everybody
	Prepare  string   // what it puts in place of a missing cache directory: own, own-sticky, link-own, link-victim, file, dangling, nothing
	Files    []string // further names of the shared directory that the program is known to use
	Dirs     []string
	Swap     []string // what it exchanges: archive, sum, binary, dirs, remove, chmod
	Seed     int64
	Evil     []byte // its program
	Bystand  bool   // only works with files of its own
	From, To int    // steps it is active in
	Prob     float64
}

type attackStep struct {
	Done []string
}

// attacker runs as the other user: one line in for each step, one line out with what succeeded.
func attacker() int {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	line, err := in.ReadBytes('\n')
	var a attack
	if err != nil || json.Unmarshal(line, &a) != nil {
		return 2
	}
	syscall.Umask(0)
	r := rand.New(rand.NewSource(a.Seed))
	evilTgz := tgz(tent{Name: "1pass", Body: a.Evil})
	evilSum := []byte(fmt.Sprintf("%x  1pass\n", md5sum(a.Evil)))
	has := func(s string) bool {
		for _, x := range a.Swap {
			if x == s {
				return true
			}
		}
		return false
	}
	out := json.NewEncoder(os.Stdout)
	for n := 1; ; n++ {
		if _, err := in.ReadBytes('\n'); err != nil {
			return 0
		}
		st := attackStep{}
		did := func(what string, err error) bool {
			if err == nil {
				st.Done = append(st.Done, what)
			}
			return err == nil
		}
		if a.Bystand {
			for _, name := range []string{"other", "notes.txt", "x1pass", ".1pas"} {
				did("a file of its own", os.WriteFile(filepath.Join(a.Tmp, name), a.Evil, 0666))
			}
			out.Encode(st)
			continue
		}
		if n < a.From || n > a.To || r.Float64() >= a.Prob {
			out.Encode(st)
			continue
		}
		if _, err := os.Lstat(a.Cache); err != nil {
			switch a.Prepare {
			case "own":
				did("own directory in place", os.Mkdir(a.Cache, 0777))
			case "own-sticky":
				did("own directory in place", os.Mkdir(a.Cache, 0777|os.ModeSticky))
			case "link-own":
				os.Mkdir(filepath.Join(a.Mine, "c"), 0777)
				did("link to own directory in place", os.Symlink(filepath.Join(a.Mine, "c"), a.Cache))
			case "link-victim":
				did("link to the victim's directory in place", os.Symlink(a.Victim, a.Cache))
			case "dangling":
				did("dangling link in place", os.Symlink(filepath.Join(a.Victim, "made"), a.Cache))
			case "file":
				did("file in place", os.WriteFile(a.Cache, a.Evil, 0777))
			}
			if strings.HasPrefix(a.Prepare, "own") && r.Intn(2) == 0 {
				for name, b := range map[string][]byte{"1pass.tar.gz": evilTgz, "checksum.md5": evilSum, "1pass": a.Evil} {
					os.WriteFile(filepath.Join(a.Cache, name), b, 0666)
				}
				for k := 0; k < 3; k++ { // where a link of that name is followed
					os.Symlink(filepath.Join(a.Victim, "keep.txt"), filepath.Join(a.Cache, []string{"archive", "checksum", "1pass.md5", "extracted"}[r.Intn(4)]))
				}
			}
		}
		for _, name := range append(append([]string{}, a.Files...), a.Dirs...) {
			p := filepath.Join(a.Tmp, name)
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			if a.Prepare == "nothing" {
				break
			}
			mine := filepath.Join(a.Mine, "f-"+name)
			isDir := false
			for _, d := range a.Dirs {
				isDir = isDir || d == name
			}
			switch {
			case a.Prepare == "link-victim" && isDir:
				did("link to the victim's directory in place", os.Symlink(a.Victim, p))
			case a.Prepare == "link-victim", a.Prepare == "dangling":
				did("link to the victim's file in place", os.Symlink(filepath.Join(a.Victim, "keep.txt"), p))
			case isDir && a.Prepare == "link-own":
				os.Mkdir(mine, 0777)
				did("link to own directory in place", os.Symlink(mine, p))
			case isDir:
				did("own directory in place", os.Mkdir(p, 0777))
			case a.Prepare == "link-own":
				os.WriteFile(mine, nil, 0666)
				did("link to own file in place", os.Symlink(mine, p))
			default:
				did("own file in place", os.WriteFile(p, nil, 0666))
			}
		}
		// everything the program keeps in the shared directory, wherever it is
		tops, _ := os.ReadDir(a.Tmp)
		for _, t := range tops {
			if strings.HasPrefix(t.Name(), "other") {
				continue
			}
			root := filepath.Join(a.Tmp, t.Name())
			if t.Type()&os.ModeSymlink != 0 {
				if to, err := os.Readlink(root); err == nil {
					root = to
				}
			}
			filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi == nil {
					return nil
				}
				if fi.IsDir() {
					if has("chmod") {
						did("permissions changed", os.Chmod(p, 0777))
					}
					if p != root && has("dirs") {
						aside := filepath.Join(a.Mine, fmt.Sprintf("aside%d", r.Int63()))
						if os.Rename(p, aside) == nil || os.Remove(p) == nil {
							os.Mkdir(p, 0777)
							did("directory exchanged", os.WriteFile(filepath.Join(p, "1pass"), a.Evil, 0777))
							return filepath.SkipDir
						}
					}
					return nil
				}
				if !fi.Mode().IsRegular() {
					return nil
				}
				b, err := os.ReadFile(p)
				body, kind := a.Evil, "binary"
				switch name := filepath.Base(p); {
				case err == nil && len(b) > 2 && b[0] == 0x1f && b[1] == 0x8b, len(b) == 0 && strings.Contains(name, "gz"):
					body, kind = evilTgz, "archive"
				case err == nil && len(b) >= 32 && len(b) < 200 && !bytes.HasPrefix(b, []byte("#!")), len(b) == 0 && (strings.Contains(name, "md5") || strings.Contains(name, "sum")):
					body, kind = evilSum, "sum"
				}
				if has("remove") && r.Intn(3) == 0 {
					did("file removed", os.Remove(p))
					return nil
				}
				if !has(kind) || err == nil && bytes.Equal(b, body) {
					return nil
				}
				put := func() error {
					f, err := os.OpenFile(p, os.O_WRONLY|os.O_TRUNC, 0)
					if err != nil {
						return err
					}
					defer f.Close()
					_, err = f.Write(body)
					return err
				}
				if !did(kind+" rewritten", put()) {
					tmp := filepath.Join(a.Mine, fmt.Sprintf("new%d", r.Int63()))
					os.WriteFile(tmp, body, 0777)
					did(kind+" replaced", os.Rename(tmp, p))
				}
				return nil
			})
		}
		out.Encode(st)
	}
}

// mallory is the running attacker.
type mallory struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uid  int
	done map[string]int
}

// otherUid finds a user that is neither the superuser nor the one the program runs as.
func (c *Ctx) otherUid(self string) int {
	for _, u := range []int{65533, 1000, 2, 1} {
		if u == c.Uid {
			continue
		}
		cmd := exec.Command(self, "-attacker")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(u), Gid: uint32(u), NoSetGroups: true}}
		if err := cmd.Start(); err == nil { // ends at once: no input
			cmd.Wait()
			return u
		}
	}
	infra("no process of another user can be started")
	return 0
}

func startMallory(self string, uid int, a attack) *mallory {
	m := &mallory{uid: uid, done: map[string]int{}}
	m.cmd = exec.Command(self, "-attacker")
	m.cmd.Env = []string{"PATH=/usr/bin:/bin"}
	m.cmd.Dir = "/"
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid), NoSetGroups: true}}
	m.in, _ = m.cmd.StdinPipe()
	p, _ := m.cmd.StdoutPipe()
	m.out = bufio.NewReader(p)
	if err := m.cmd.Start(); err != nil {
		infra("attacker: %v", err)
	}
	if err := json.NewEncoder(m.in).Encode(a); err != nil {
		infra("attacker: %v", err)
	}
	return m
}

func (m *mallory) step() {
	if _, err := m.in.Write([]byte("\n")); err != nil {
		infra("attacker: %v", err)
	}
	line, err := m.out.ReadBytes('\n')
	var st attackStep
	if err != nil || json.Unmarshal(line, &st) != nil {
		infra("attacker: no answer: %v", err)
	}
	for _, d := range st.Done {
		m.done[d]++
	}
}

func (m *mallory) end() {
	m.in.Close()
	m.cmd.Wait()
}

// next lets a run that is held at every operation go on to the next one; false: it ended.
func (g *gated) next() bool {
	mustWrite(filepath.Join(g.dir, "go"), nil)
	for g.res == nil {
		if _, err := os.Stat(filepath.Join(g.dir, "go")); err != nil {
			break
		}
		select {
		case g.res = <-g.done:
			if g.res == nil {
				infra("a run could not be started")
			}
		case <-time.After(500 * time.Microsecond):
		}
	}
	return g.here()
}

func runC26(c *Ctx) {
	c.B.get("app")
	if c.Uid == 0 {
		infra("no unprivileged users here")
	}
	exe, err := os.Executable()
	if err != nil {
		infra("own path: %v", err)
	}
	self := filepath.Join(c.Scratch, "other-user")
	b, err := os.ReadFile(exe)
	if err != nil {
		infra("own program: %v", err)
	}
	syscall.ForkLock.RLock()
	err = os.WriteFile(self, b, 0755)
	syscall.ForkLock.RUnlock()
	if err != nil {
		infra("own copy: %v", err)
	}
	uid := c.otherUid(self)
	prepares := []string{"own", "own", "own", "own-sticky", "link-own", "link-own", "link-victim", "file", "dangling", "nothing"}
	swaps := [][]string{{"archive", "sum", "binary", "dirs"}, {"archive", "sum"}, {"sum", "dirs", "binary"}, {"dirs"}, {"binary"}, {"archive", "sum", "binary", "dirs", "chmod"}, {"dirs", "remove"}, {"archive", "sum", "chmod", "binary"}, {}}
	seen := 0
	// names the program uses in the shared directory time and again, as anybody can find out
	var files, dirs []string
	names := []map[string]string{{}, {}}
	for k := range names {
		w := c.world("vault")
		w.config("opvault: /x\ntimeout: 20\nupdate-notification: true\nupdate-period: 1\n")
		in := w.install(0755)
		p := newPub(c.rng("profile", k), "2.0.0", 40000)
		h := c.pubHub(p)
		os.Mkdir(filepath.Join(w.dir, "tmp"), 0777)
		w.own()
		o := w.updateOpts(in, h, "y\n")
		o.remap, o.env = "/tmp/1pass="+filepath.Join(w.dir, "tmp", "1pass"), append(append([]string{}, o.env...), "TMPDIR="+filepath.Join(w.dir, "tmp"))
		res := c.run(o)
		for _, e := range res.Events {
			for _, x := range []string{e.Path, e.Extra} {
				rest, ok := strings.CutPrefix(x, filepath.Join(w.dir, "tmp")+"/")
				if !ok {
					continue
				}
				top, below, _ := strings.Cut(rest, "/")
				if below != "" || strings.HasPrefix(e.Op, "mkdir") {
					names[k][top] = "dir"
				} else if names[k][top] == "" {
					names[k][top] = "file"
				}
			}
		}
		st := in.state(p.bin)
		h.close()
		w.done()
		if st != "new" || !claimsUpdate(res.Out) {
			c.violation(-1, "an undisturbed update does not succeed: "+st, map[string]any{"run": res.brief()})
			return
		}
	}
	for name, kind := range names[0] {
		if _, again := names[1][name]; again && name != "1pass" {
			if kind == "dir" {
				dirs = append(dirs, name)
			} else {
				files = append(files, name)
			}
		}
	}
	sort.Strings(files)
	sort.Strings(dirs)
	c.count("names used in the shared directory time and again", len(files)+len(dirs)+1)
	do := func(n int, r *rand.Rand, a attack, reads bool, first int, planted string) {
		w := c.world("vault")
		defer w.done()
		w.config("opvault: /x\ntimeout: 20\nupdate-notification: true\nupdate-period: 1\n")
		p := newPub(r, "2.0.0", []int{300, 40000, 120000}[r.Intn(3)])
		if r.Intn(2) == 0 {
			p.dressUp(r)
		}
		mode := []os.FileMode{0755, 0700, 0775}[r.Intn(3)]
		in := w.install(mode)
		precious := filepath.Join(w.home, "precious")
		os.MkdirAll(filepath.Join(precious, "1pass"), 0755)
		mustWrite(filepath.Join(precious, "keep.txt"), []byte("do not lose me"))
		mustWrite(filepath.Join(precious, "1pass", "keep.txt"), []byte("nor me"))
		h := c.pubHub(p)
		defer h.close()
		w.own()
		os.Chmod(w.dir, 0755)
		os.Chmod(w.home, 0755)
		a.Tmp, a.Mine, a.Victim = filepath.Join(w.dir, "tmp"), filepath.Join(w.dir, "mallory"), precious
		a.Cache = filepath.Join(a.Tmp, "1pass")
		a.Evil = newProgram(r, "6.6.6", []int{400, 30000}[r.Intn(2)])
		for _, d := range []string{a.Tmp, a.Mine} {
			os.Mkdir(d, 0777)
			os.Chmod(d, 0777|os.ModeSticky)
			os.Chown(d, 0, 0)
		}
		os.Chown(a.Mine, uid, uid)
		mighty := r.Intn(2) == 0
		if mighty { // the victim may remove what others put there, as the superuser may
			os.Chown(a.Tmp, c.Uid, c.Uid)
		}
		a.Files, a.Dirs = files, dirs
		a.Seed = r.Int63()
		if planted == "leftover" { // of an update of the victim that did not come to its end
			os.Mkdir(a.Cache, 0700)
			os.Mkdir(filepath.Join(a.Cache, "extracted1"), 0700)
			mustWrite(filepath.Join(a.Cache, "extracted1", "1pass"), []byte("half a program"))
			mustWrite(filepath.Join(a.Cache, "1pass.tar.gz"), p.archive[:len(p.archive)/2])
			c.own(a.Cache)
		}
		before := snapshot(precious)
		m := startMallory(self, uid, a)
		defer m.end()
		if a.From == 0 {
			m.step()
		}
		o := w.updateOpts(in, h, "y\n")
		o.remap = "/tmp/1pass=" + a.Cache
		o.scope, o.reads = []string{w.dir}, reads
		o.timeout = 120 * time.Second
		o.env = append(append([]string{}, o.env...), "TMPDIR="+a.Tmp)
		g := &gated{c: c, dir: c.dir("gate"), done: make(chan *result, 1)}
		o.fault = fmt.Sprintf("%d:gate+", first)
		o.env = append(o.env, "VERIF_GATE="+g.dir)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					g.done <- nil
				}
			}()
			g.done <- c.run(o)
		}()
		steps := 0
		for ok := g.here(); ok; ok = g.next() {
			m.step()
			steps++
		}
		res := g.finish()
		wit := map[string]any{"attack": map[string]any{"prepares": a.Prepare, "exchanges": a.Swap, "active in steps": fmt.Sprintf("%d-%d", a.From, a.To), "probability": a.Prob, "bystander": a.Bystand},
			"what the attacker could do": m.done, "held at operations": steps, "run": res.brief(), "planted before": planted, "victim may remove others' files": mighty}
		st := in.state(p.bin)
		if st != "old" && st != "new" {
			if b, _ := os.ReadFile(in.exe); bytes.Equal(b, a.Evil) {
				st = "the program of the other user is installed"
			}
			c.violation(n, "after an update with another user at work: "+st, wit)
			return
		}
		if fi, err := os.Stat(in.exe); err == nil {
			if fi.Mode()&^mode&0022 != 0 {
				c.violation(n, fmt.Sprintf("after an update other users may write to the executable (%v, was %v)", fi.Mode(), mode), wit)
				return
			}
			if s := fi.Sys().(*syscall.Stat_t); int(s.Uid) == uid {
				c.violation(n, "after an update the executable belongs to another user", wit)
				return
			}
		}
		if res.crashed() || res.Timeout {
			c.violation(n, "an update with another user at work crashes or hangs", wit)
			return
		}
		if claimsUpdate(res.Out) && st == "old" {
			c.violation(n, "an update reports success but the old program is installed", wit)
			return
		}
		if d := diffSnap(before, snapshot(precious)); len(d) > 0 {
			wit["changes"] = d
			c.violation(n, "an update with another user at work touched the victim's files", wit)
			return
		}
		if a.Bystand && st != "new" {
			c.violation(n, "an update fails although nobody interfered", wit)
			return
		}
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(in.exe), "neighbour")); err != nil || string(b) != "another program" {
			c.violation(n, "an update with another user at work touched another program", wit)
			return
		}
		c.count("operations held with the attacker at work", steps)
		for k, v := range m.done {
			c.count("attacker: "+k, v)
		}
		c.count("executable in the end "+st, 1)
		if steps > seen {
			seen = steps
		}
		c.eval(fmt.Sprint(a.Prepare, a.Swap, a.From, a.To, a.Prob, reads, mode, planted, mighty))
		if n%53 == 0 {
			c.sample(wit)
		}
	}
	// nobody interferes
	c.each("bystander", 0, c.n(3, 40), 0, func(n int, r *rand.Rand) {
		do(n, r, attack{Bystand: true, To: 1 << 30, Prob: 1}, n%2 == 0, 1, []string{"", "leftover"}[n/2%2])
	})
	// everything at every step, for every preparation and exchange
	type job struct{ p, s int }
	var jobs []job
	for p := range prepares {
		for s := range swaps {
			jobs = append(jobs, job{p, s})
		}
	}
	c.each("always", 1000, len(jobs)*c.n(1, 5), 0, func(n int, r *rand.Rand) {
		j := jobs[(n-1000)%len(jobs)]
		do(n, r, attack{Prepare: prepares[j.p], Swap: swaps[j.s], From: n % 2, To: 1 << 30, Prob: 1}, r.Intn(3) > 0, 1, []string{"", "", "leftover"}[r.Intn(3)])
	})
	// at one step only, at all from one step on, now and then
	c.each("steps", 10000, c.n(150, 1500), 0, func(n int, r *rand.Rand) {
		a := attack{Prepare: prepares[r.Intn(len(prepares))], Swap: swaps[r.Intn(len(swaps)-1)], From: 1 + r.Intn(60), To: 1 << 30, Prob: 1}
		switch r.Intn(4) {
		case 0:
			a.To = a.From
		case 1:
			a.From, a.Prob = 1, 0.1+0.8*r.Float64()
		case 2:
			a.To = a.From + r.Intn(5)
		}
		planted := ""
		if r.Intn(3) == 0 {
			planted = "leftover"
		}
		do(n, r, a, r.Intn(3) > 0, 1, planted)
	})
	// what the program makes or renews gives nobody else more rights to write
	c.each("permissions", 50000, c.n(24, 300), 0, func(n int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		umask := []string{"022", "077", "027", "002"}[r.Intn(4)]
		file, last := filepath.Join(w.cfg, "1pass.yml"), filepath.Join(w.cfg, "lastcheck")
		kind := []string{"first run", "configure", "check", "update"}[n%4]
		text := "opvault: " + yq(w.vault) + "\ntimeout: 20\nupdate-notification: true\nupdate-period: 0\n"
		p := newPub(r, "2.0.0", 3000)
		var in *inst
		if kind != "first run" || r.Intn(2) == 0 {
			os.MkdirAll(w.cfg, 0755)
			os.Chmod(w.cfg, []os.FileMode{0755, 0700, 0750}[r.Intn(3)])
		}
		if kind != "first run" {
			w.config(text)
			os.Chmod(file, []os.FileMode{0644, 0600, 0640}[r.Intn(3)])
			if r.Intn(2) == 0 {
				mustWrite(last, []byte("1500000000"))
				os.Chmod(last, []os.FileMode{0644, 0600, 0640}[r.Intn(3)])
			}
		}
		genVault(r, "pw", 2, genOpts{items: 1}).write(r, w.vault)
		h := c.pubHub(p)
		defer h.close()
		if kind == "update" {
			in = w.install([]os.FileMode{0755, 0700, 0711, 0555, 0750}[r.Intn(5)])
		}
		w.own()
		modes := func() map[string]os.FileMode {
			m := map[string]os.FileMode{}
			filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode()&os.ModeSymlink == 0 {
					m[p] = fi.Mode()
				}
				return nil
			})
			return m
		}
		before := modes()
		var o runOpts
		answers := fmt.Sprintf("y\n%s\ny\n9\n7\n", w.vault)
		switch kind {
		case "first run":
			o = w.opts([]string{"configure", "list"}[r.Intn(2)])
			o.pipe, o.steps = true, []step{{send: answers + "pw\n"}}
		case "configure":
			o = w.opts("configure")
			o.pipe, o.steps = true, []step{{send: answers}}
		case "check":
			o = w.opts("list")
			o.steps = []step{pw("pw")}
		case "update":
			o = w.updateOpts(in, h, "y\n")
		}
		o.dial = h.dial()
		o.env = append(append([]string{}, c.tlsEnv()...), "TMPDIR="+w.dir)
		o.args = append([]string{"-c", "umask " + umask + "; exec \"$0\" \"$@\"", o.bin}, o.args...)
		o.bin = "/bin/sh"
		res := c.run(o)
		wit := map[string]any{"kind": kind, "umask": umask, "run": res.brief()}
		if res.crashed() || res.Timeout {
			c.violation(n, kind+" crashes or hangs", wit)
			return
		}
		if _, err := os.Stat(file); err != nil {
			c.violation(n, "no settings after "+kind, wit)
			return
		}
		for p, m := range modes() {
			was, ok := before[p]
			rel, _ := filepath.Rel(w.dir, p)
			if ok && m&^was&0022 != 0 || !ok && m&0022 != 0 && !(umask == "002" && m&0002 == 0) {
				wit["was"], wit["is"] = was.String(), m.String()
				c.violation(n, fmt.Sprintf("after %s other users may write to %s (%v)", kind, rel, m), wit)
				return
			}
			if !ok {
				c.count("permissions of new files and directories looked at", 1)
			} else {
				c.count("permissions of existing files and directories looked at", 1)
			}
		}
		c.eval(fmt.Sprint("permissions", kind, umask, len(before)))
	})
	if seen == 0 && len(c.viol) == 0 {
		infra("no operation was held")
	}
}
