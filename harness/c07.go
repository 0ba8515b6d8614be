package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	checks["C07"] = check{
		level: "runtime monitoring of file operations of whole sessions (every command, GUI key sequences, updates, injected I/O errors) against a write policy, plus before/after snapshots of the vault and everything around it",
		rule:  "a case is one session of the program; every mutating file operation is judged by the policy and the tree is compared with a snapshot; distinct = distinct (session kind, vault placement, vault condition, fault)",
		run:   runC07,
	}
}

// damage alters a stored vault in one of several ways.
func damageVault(r *rand.Rand, vault string) string {
	d := filepath.Join(vault, "default")
	var bands []string
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "band_") {
			bands = append(bands, filepath.Join(d, e.Name()))
		}
	}
	sort.Strings(bands)
	prof := filepath.Join(d, "profile.js")
	switch r.Intn(6) {
	case 0:
		if len(bands) > 0 {
			b, _ := os.ReadFile(bands[0])
			for k := 0; k < 6; k++ {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
			mustWrite(bands[0], b)
		}
		return "flipped band bits"
	case 1:
		if len(bands) > 0 {
			b, _ := os.ReadFile(bands[0])
			mustWrite(bands[0], b[:r.Intn(len(b))])
		}
		return "cut band"
	case 2:
		b, _ := os.ReadFile(prof)
		mustWrite(prof, b[:r.Intn(len(b))])
		return "cut profile"
	case 3:
		mustWrite(prof, nil)
		return "empty profile"
	case 4:
		if len(bands) > 0 {
			mustWrite(bands[0], []byte("ld(not json);"))
		}
		return "senseless band"
	}
	for _, b := range bands {
		os.Remove(b)
	}
	return "no bands"
}

// extras puts entries into the vault that a reader has no business with.
func vaultExtras(r *rand.Rand, w *world) {
	d := filepath.Join(w.vault, "default")
	for _, p := range []string{".DS_Store", "band_0.js.bak", "profile.js~", ".band_1.js.swp", "profile.js.tmp", "1pass.yml", "lastcheck"} {
		if r.Intn(2) == 0 {
			mustWrite(filepath.Join(d, p), rbytes(r, 20))
		}
	}
	os.MkdirAll(filepath.Join(w.vault, "other", "deep"), 0755)
	mustWrite(filepath.Join(w.vault, "other", "deep", "profile.js"), []byte("x"))
	os.Symlink(filepath.Join(w.dir, "other", "file"), filepath.Join(w.vault, "link"))
	os.Symlink("/nonexistent", filepath.Join(d, "dangling"))
}

// allowedEvent is the write policy.
func (w *world) allowedEvent(e event, j *job, in *inst, vault string) bool {
	if e.Dec == "ok" || e.Dec == "note" || e.Op == "dial" || e.Op == "exec" {
		return true
	}
	switch e.Op {
	case "stat", "openr", "opendir", "readlink", "read", "openroot":
		return true
	}
	if e.Op == "sync" || e.Op == "write" && strings.HasPrefix(e.Path, "/dev/") {
		return true
	}
	p := e.Path
	if under(p, vault) {
		return false
	}
	if e.Op == "mkdir" && (p == w.home || p == filepath.Dir(w.cfg)) || under(p, w.cfg) {
		return true
	}
	if j.confirmed && (under(p, filepath.Join(w.home, "cache-1pass")) || in != nil && p == in.exe) {
		return true
	}
	if j.confirmed && e.Op == "mkdir" && under(filepath.Join(w.home, "cache-1pass"), p) { // the way to the cache directory
		return true
	}
	return false
}

func runC07(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	c.each("session", 0, c.n(640, 9000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		place := "apart"
		switch r.Intn(8) {
		case 0:
			w.vault, place = filepath.Join(w.home, "vault"), "in the home directory"
		case 1:
			w.vault, place = filepath.Join(w.cfg, "vault"), "in the configuration directory"
		case 2:
			w.vault, place = filepath.Join(w.dir, "bin", "vault"), "next to the program"
		case 3:
			w.vault, place = filepath.Join(w.home, "cache-1password"), "next to the cache"
		}
		w.surroundings(r)
		v := randGuiVault(r, 12)
		v.write(r, w.vault)
		vaultExtras(r, w)
		cond := "intact"
		if r.Intn(4) == 0 {
			cond = damageVault(r, w.vault)
		}
		in := w.install(0755)
		kind := jobKinds[i%len(jobKinds)]
		j := w.makeJob(r, kind, v, in, "wrong"+v.Password)
		if j.hub != nil {
			defer j.hub.close()
		}
		if r.Intn(3) == 0 {
			os.MkdirAll(w.cfg, 0755)
			mustWrite(filepath.Join(w.cfg, "lastcheck"), []byte("1"))
		}
		w.own()
		fault := ""
		if r.Intn(4) == 0 && !j.gui {
			fault = fmt.Sprintf("%d:%s", 1+r.Intn(30), []string{"eio", "enospc", "eacces", "short", "kill"}[r.Intn(5)])
			j.opts.fault, j.opts.scope, j.opts.reads = fault, []string{w.dir}, r.Intn(2) == 0
		}
		before := snapshot(w.dir)
		var evs []event
		wit := map[string]any{"session": kind, "vault": place + ", " + cond, "fault": fault, "args": j.opts.args}
		if j.gui {
			g := c.guiStart(j.opts, "gui", 80, 24, nil)
			s := &guiSession{w: w, v: v, g: g, m: newModel(v)}
			if f := g.first(); f != nil && cond == "intact" {
				if msg := s.drive(r, 30+r.Intn(60), true); msg != "" { // judged by C18
					wit["screens"] = msg
					c.count("GUI sessions cut short", 1)
				} else {
					c.count("GUI sessions played to the end", 1)
				}
			} else if f != nil { // the model knows only intact vaults
				g.typeText(v.Password)
				for _, k := range []gkey{{Key: kEnter}, {Key: kEnter}, {Key: kTab}, {Key: kTab}, ch('j'), ch('q'), {Key: kCtrlL}} {
					if g.press(k) == nil {
						break
					}
				}
			}
			g.quit()
			c.count("GUI frames", g.nframes)
			evs = g.events()
			wit["gui"] = g.witness(nil)
			g.kill()
		} else {
			res := c.run(j.opts)
			evs = res.Events
			wit["run"] = res.brief()
			if fault == "" && kind == "update confirmed" && in.state(nil) == "old" {
				c.count("confirmed updates that failed", 1)
			}
		}
		after := snapshot(w.dir)
		muts := 0
		for _, e := range evs {
			if e.Dec != "ok" && e.Dec != "note" && e.Op != "dial" {
				muts++
			}
			if !w.allowedEvent(e, j, in, w.vault) {
				wit["events"] = evStrings(evs, func(e event) bool { return e.Dec != "ok" })
				c.violation(i, fmt.Sprintf("session '%s' (vault %s, %s): %s %s", kind, place, cond, e.Op, strings.Replace(e.Path, w.dir, "(dir)", 1)), wit)
				return
			}
		}
		var bad []string
		for _, d := range diffSnap(before, after) {
			p := strings.TrimSpace(d[strings.Index(d, ":")+1:])
			if !strings.HasPrefix(d, "gone") {
				p = p[:strings.LastIndex(p, ": ")]
				if k := strings.Index(d, ": "); strings.HasPrefix(d, "changed") {
					rest := d[k+2:]
					p = rest[:strings.Index(rest, ": ")]
				}
			}
			full := filepath.Join(w.dir, p)
			switch {
			case under(full, w.vault):
			case full == filepath.Join(w.home, ".config") || full == w.cfg:
				if strings.HasPrefix(d, "new") {
					continue
				}
			case full == filepath.Join(w.cfg, "1pass.yml"), full == filepath.Join(w.cfg, "lastcheck"):
				if !strings.HasPrefix(d, "gone") {
					continue
				}
			case under(full, w.cfg) && strings.HasPrefix(d, "new") && fault != "" && !under(full, filepath.Join(w.cfg, "sub")):
				continue // the leftover of an interrupted save
			case j.confirmed && (under(full, filepath.Join(w.home, "cache-1pass")) || full == in.exe && !strings.HasPrefix(d, "gone")):
				continue
			}
			bad = append(bad, d)
		}
		if bad != nil {
			sort.Strings(bad)
			wit["changes"] = bad
			wit["events"] = evStrings(evs, func(e event) bool { return e.Dec != "ok" })
			c.violation(i, fmt.Sprintf("session '%s' (vault %s, %s) changed what is not its own: %s", kind, place, cond, firstN(strings.Join(bad, "; "), 500)), wit)
			return
		}
		c.count("file operations judged", len(evs))
		c.count("mutating operations judged", muts)
		c.count("entries compared", len(before))
		c.count("sessions: "+kind, 1)
		c.eval(fmt.Sprint(kind, "|", place, "|", cond, "|", fault))
		if i%97 == 3 {
			c.sample(map[string]any{"session": kind, "vault": place + ", " + cond, "fault": fault, "mutations": evStrings(evs, func(e event) bool { return e.Dec == "mut" && e.Op != "write" })})
		}
	})
	// a vault the user may only read gives the same results
	if c.Uid == 0 {
		return
	}
	c.each("read-only", 100000, c.n(60, 800), 0, func(i int, r *rand.Rand) {
		kind := []string{"list", "list filtered", "overview", "details", "details wrong password", "gui"}[i%6]
		seed := r.Int63()
		once := func(ro bool) (string, int) {
			r := rand.New(rand.NewSource(seed))
			w := c.world("vault")
			defer w.done()
			w.surroundings(r)
			v := randGuiVault(r, 8)
			v.write(r, w.vault)
			j := w.makeJob(r, kind, v, nil, "wrong"+v.Password)
			if j.hub != nil {
				defer j.hub.close()
			}
			w.own()
			if ro {
				filepath.Walk(w.vault, func(p string, fi os.FileInfo, err error) error {
					os.Lchown(p, 0, 0)
					if fi.IsDir() {
						os.Chmod(p, 0555)
					} else {
						os.Chmod(p, 0444)
					}
					return nil
				})
			}
			if j.gui {
				g := c.guiStart(j.opts, "gui", 80, 24, nil)
				defer g.kill()
				s := &guiSession{w: w, v: v, g: g, m: newModel(v)}
				if g.first() == nil {
					return "no screen", -1
				}
				msg := s.drive(r, 40, false)
				g.quit()
				return msg, g.code
			}
			res := c.run(j.opts)
			return strings.ReplaceAll(res.Out, w.dir, "(dir)"), res.Code
		}
		a, ac := once(false)
		b, bc := once(true)
		if a != b || ac != bc {
			c.violation(i, kind+" gives other results with a vault that may only be read", map[string]any{"writable": a, "read-only": b, "exit": []int{ac, bc}})
			return
		}
		c.count("read-only vault sessions", 1)
		c.eval(fmt.Sprint("ro", kind, seed))
	})
}
