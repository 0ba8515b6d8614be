package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C08"] = check{
		level: "runtime monitoring of vault commands over generated file-system states, flag values and settings, with two decoy vaults whose every read is watched",
		rule:  "a case is one command with a flag value and a configured default, each pointing at a valid or invalid vault of some kind; distinct = distinct (command, flag kind, default kind, spelling)",
		run:   runC08,
	}
}

var c08invalid = []string{"missing", "a file", "empty directory", "default is a file", "default without profile", "profile is a directory", "profile is a dangling link", "dangling link", "wrong case", "profile one level up",
	"default directory itself", "profile with another name", "file as parent", "empty default directory", "other profile name", "literal tilde", "literal tilde",
	"literal variable", "blank appended", "blank prepended", "without extension", "with extension", "other case", "escaped", "parent directory", "quoted", "file URL", "name cut"}

// place puts something at dir/name and returns the path to give to the program and whether it is a vault.
func c08place(r *rand.Rand, dir, name, kind string, v *Vault) (path string, valid bool) {
	p := filepath.Join(dir, name)
	mk := func(parts ...string) string {
		q := filepath.Join(append([]string{p}, parts...)...)
		os.MkdirAll(filepath.Dir(q), 0755)
		return q
	}
	os.MkdirAll(filepath.Dir(p), 0755)
	switch kind {
	case "missing":
	case "a file":
		mustWrite(p, []byte("var profile={};"))
	case "empty directory":
		os.MkdirAll(p, 0755)
	case "default is a file":
		mustWrite(mk("default"), []byte("x"))
	case "default without profile":
		v.write(r, p)
		os.Remove(mk("default", "profile.js"))
	case "empty default directory":
		os.MkdirAll(mk("default"), 0755)
	case "profile is a directory":
		v.write(r, p)
		os.Remove(mk("default", "profile.js"))
		os.MkdirAll(mk("default", "profile.js"), 0755)
	case "profile is a dangling link":
		v.write(r, p)
		os.Remove(mk("default", "profile.js"))
		os.Symlink("/nonexistent", mk("default", "profile.js"))
	case "dangling link":
		os.Symlink(filepath.Join(dir, "nowhere"), p)
	case "wrong case":
		v.write(r, p)
		os.Rename(mk("default"), mk("Default"))
	case "profile one level up":
		v.write(r, p)
		os.Rename(mk("default", "profile.js"), mk("profile.js"))
	case "default directory itself":
		v.write(r, p)
		return filepath.Join(p, "default"), false
	case "profile with another name":
		v.write(r, p)
		os.Rename(mk("default", "profile.js"), mk("default", "Profile.js"))
	case "other profile name":
		v.write(r, p)
		os.Rename(mk("default"), mk("work"))
	case "file as parent":
		mustWrite(p, []byte("x"))
		return filepath.Join(p, "sub"), false
	case "literal tilde":
		return []string{"~/" + name, "~/vault", "~", "~/default/.."}[r.Intn(4)], false
	case "literal variable": // the decoys would be found if this were expanded
		return []string{"$HOME/vault", "${HOME}/vault", "$HOME", "$PWD/vault", "%HOME%/vault"}[r.Intn(5)], false
	case "blank appended":
		v.write(r, p)
		return p + " ", false
	case "blank prepended":
		v.write(r, p)
		return " " + p, false
	case "without extension":
		v.write(r, p+".opvault")
	case "with extension":
		v.write(r, p)
		return p + ".opvault", false
	case "other case":
		v.write(r, p)
		return filepath.Join(dir, strings.ToUpper(name)), false
	case "escaped":
		v.write(r, filepath.Join(dir, "a b"))
		return filepath.Join(dir, []string{"a%20b", "a\\ b", "a+b"}[r.Intn(3)]), false
	case "parent directory":
		v.write(r, filepath.Join(p, "inner"))
	case "quoted":
		v.write(r, p)
		return []string{"'", "\""}[r.Intn(2)] + p, false
	case "file URL":
		v.write(r, p)
		return "file://" + p, false
	case "name cut": // a vault whose name begins alike
		v.write(r, p+"2")
	case "linked profile":
		v.write(r, p)
		os.Rename(mk("default", "profile.js"), filepath.Join(dir, "the profile"))
		os.Symlink(filepath.Join(dir, "the profile"), mk("default", "profile.js"))
		return p, true
	case "linked default":
		v.write(r, p)
		os.Rename(mk("default"), filepath.Join(dir, "the default"))
		os.Symlink(filepath.Join(dir, "the default"), mk("default"))
		return p, true
	case "link":
		v.write(r, p+".real")
		os.Symlink(p+".real", p)
		return p, true
	default:
		v.write(r, p)
		return p, true
	}
	return p, false
}

// sameItems makes a second vault with the items' identifiers and another content.
func sameItems(r *rand.Rand, v *Vault, password string) *Vault {
	t := newVault(r, password, 2)
	for _, it := range v.Items {
		n := genItem(r, genOpts{noUnknown: true, uniqueTitles: true, narrow: true}, len(t.Items))
		n.UID, n.Trashed, n.TrashKey = it.UID, it.Trashed, it.TrashKey
		t.seal(r, n)
		t.Items = append(t.Items, n)
	}
	return t
}

func runC08(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	valid := []string{"plain", "plain", "plain", "link", "linked profile", "linked default"}
	c.each("case", 0, c.n(700, 9000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		os.Remove(w.vault)
		A := genVault(r, "first pass", 2, genOpts{items: 1 + r.Intn(4), noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 20})
		B := sameItems(r, A, "second pass")
		D := sameItems(r, A, "decoy pass") // a vault nobody asked for, where one might look by mistake
		for _, d := range []string{filepath.Join(w.dir, "cwd"), filepath.Join(w.dir, "cwd", "vault"), w.home, filepath.Join(w.home, "vault")} {
			D.write(r, d)
		}
		decoys := []string{filepath.Join(w.dir, "cwd", "default"), filepath.Join(w.dir, "cwd", "vault"), filepath.Join(w.home, "default"), filepath.Join(w.home, "vault")}
		pick := func() string {
			if r.Intn(2) == 0 {
				return c08invalid[r.Intn(len(c08invalid))]
			}
			return valid[r.Intn(len(valid))]
		}
		name := func(n string) string {
			if r.Intn(3) == 0 {
				n += oddNames[r.Intn(len(oddNames))]
			}
			return n
		}
		fkind, dkind := "no flag", "no default"
		var fpath, dpath string
		var fok, dok bool
		fdir, ddir := filepath.Join(w.dir, "f"), filepath.Join(w.dir, "d")
		os.MkdirAll(fdir, 0755)
		os.MkdirAll(ddir, 0755)
		if r.Intn(3) != 0 {
			fkind = pick()
			fpath, fok = c08place(r, fdir, name("fv"), fkind, A)
		}
		if r.Intn(5) != 0 {
			dkind = pick()
			dpath, dok = c08place(r, ddir, name("dv"), dkind, B)
		}
		// spelling of the paths
		spell := func(p string) (string, string) {
			if p == "" || !strings.HasPrefix(p, "/") {
				return p, ""
			}
			switch r.Intn(8) {
			case 0:
				return p + "/", "trailing slash"
			case 1:
				q, err := filepath.Rel(filepath.Join(w.dir, "cwd"), p)
				if err == nil {
					return q, "relative"
				}
			case 2:
				return strings.Replace(p, "/v", "//v", 1), "double slash"
			case 3:
				return filepath.Dir(p) + "/./" + filepath.Base(p), "dot"
			}
			return p, ""
		}
		var fs, ds string
		fgiven, dgiven := fpath, dpath
		fgiven, fs = spell(fpath)
		dgiven, ds = spell(dpath)
		if ds == "trailing slash" && dkind == "a file" || ds == "double slash" {
			dgiven, ds = dpath, ""
		}
		if fs == "trailing slash" && fkind == "a file" {
			fgiven, fs = fpath, ""
		}
		cmd := []string{"list", "overview", "details", "gui"}[r.Intn(4)]
		first := cmd != "gui" && r.Intn(5) == 0 // no settings yet: the dialog sets the default
		conf := ""
		switch {
		case first:
		case dgiven == "":
			conf = []string{"timeout: 1\nupdate-notification: false\n", "opvault: ''\nupdate-notification: false\n", "opvault:\nupdate-notification: false\n", "opvault: \"\"\nupdate-notification: false\n"}[r.Intn(4)]
		default:
			conf = "opvault: " + yq(dgiven) + "\nupdate-notification: false\n"
		}
		if first && strings.TrimSpace(dgiven) != dgiven { // the dialog ignores surrounding blanks
			first, conf = false, "opvault: "+yq(dgiven)+"\nupdate-notification: false\n"
		}
		if conf != "" {
			w.config(conf)
		}
		target, given, ok := A, fgiven, fok
		other := []string{ddir}
		if fkind == "no flag" {
			target, given, ok = B, dgiven, dok
			other = []string{fdir}
		}
		other = append(other, decoys...)
		// the judge's own opinion of the path, as a cross check of the generator
		abs := given
		if !filepath.IsAbs(abs) {
			abs = filepath.Join(w.dir, "cwd", abs)
		}
		st, err := os.Stat(abs)
		st2, err2 := os.Stat(filepath.Join(abs, "default", "profile.js"))
		if judged := given != "" && err == nil && st.IsDir() && err2 == nil && !st2.IsDir(); judged != ok {
			infra("C08 generator: %q %s/%s is %v, said %v", given, fkind, dkind, judged, ok)
		}
		w.own()
		it := A.Items[r.Intn(len(A.Items))]
		args := []string{}
		switch cmd {
		case "list":
			args = []string{"list"}
		case "overview", "details":
			args = []string{cmd, it.UID}
			if it.Trashed {
				args = append(args, "-t")
			}
		}
		if fkind != "no flag" {
			switch r.Intn(4) {
			case 0:
				args = append(args, "--vault="+fgiven)
			case 1:
				args = append(args, "--vault", fgiven)
			case 2:
				args = append([]string{}, append(args, "-v"+fgiven)...)
			default:
				args = append(args, "-v", fgiven)
			}
		}
		o := w.opts(args...)
		o.dir = filepath.Join(w.dir, "cwd")
		wit := map[string]any{"args": args, "flag": fkind + " " + fs, "configured default": dkind + " " + ds, "settings": conf, "the path names a vault": ok}
		fail := func(what string) {
			c.violation(i, fmt.Sprintf("%s, flag: %s %s, default: %s %s: %s", cmd, fkind, fs, dkind, ds, what), wit)
		}
		strayed := func(evs []event) string {
			for _, e := range evs {
				if e.Op != "openr" && e.Op != "opendir" {
					continue
				}
				for _, d := range other {
					if under(e.Path, d) {
						return e.Op + " " + strings.TrimPrefix(e.Path, w.dir)
					}
				}
			}
			return ""
		}
		named := func(out string) bool {
			return given == "" || strings.Contains(out, given) || strings.Contains(out, filepath.Clean(given)) || strings.Contains(out, abs) || strings.Contains(out, filepath.Clean(abs))
		}
		if cmd == "gui" {
			o.bin = ""
			g := c.guiStart(o, "gui", 80, 24, nil)
			defer g.kill()
			if !ok {
				ended := g.waitExit(30e9)
				wit["gui"] = g.witness(nil)
				g.mu.Lock()
				n := g.nframes
				g.mu.Unlock()
				switch {
				case !ended:
					fail("the GUI runs on an invalid vault")
				case n > 0:
					fail("the GUI opened on an invalid vault")
				case g.code == 0 || g.killed || strings.Contains(g.stderr(), "goroutine "):
					fail(fmt.Sprintf("exit status %d on an invalid vault", g.code))
				case !strings.Contains(g.stderr(), "invalid vault") || !named(g.stderr()):
					fail("no 'invalid vault' message naming the path")
				case strayed(g.events()) != "":
					fail("read another vault: " + strayed(g.events()))
				default:
					c.count("invalid vaults refused by the GUI", 1)
					c.eval(fmt.Sprint(cmd, "|", fkind, "|", dkind, "|", fs, "|", ds))
				}
				return
			}
			m := newModel(target)
			f := g.first()
			if f == nil || m.check(f) != "" {
				wit["gui"] = g.witness(nil)
				fail("the GUI does not ask for the password of a valid vault")
				return
			}
			for _, k := range append(keys(target.Password), gkey{Key: kEnter}, gkey{Key: kEnter}) {
				m.key(k)
				f := g.press(k)
				if f == nil || m.check(f) != "" {
					wit["gui"] = g.witness(nil)
					fail("the GUI does not show the vault asked for")
					return
				}
			}
			g.quit()
			if s := strayed(g.events()); s != "" {
				fail("read another vault: " + s)
				return
			}
			c.count("valid vaults opened by the GUI", 1)
			c.eval(fmt.Sprint(cmd, "|", fkind, "|", dkind, "|", fs, "|", ds))
			return
		}
		if first {
			ans := "n\n"
			if dgiven != "" {
				ans = "y\n" + dgiven + "\n"
			}
			o.steps = []step{{expect: "1. Do", send: ans + "n\n1\n1\n"}}
		}
		if ok {
			o.steps = append(o.steps, pw(target.Password))
		}
		if !ok { // a password typed anyway must not be taken
			o.steps = append(o.steps, step{expect: "", send: ""})
			o.timeout = 20e9
		}
		res := c.run(o)
		wit["run"] = res.brief()
		if s := strayed(res.Events); s != "" {
			fail("read another vault: " + s)
			return
		}
		if res.crashed() && !res.Timeout {
			fail("crashed")
			return
		}
		if !ok {
			switch {
			case res.Asked:
				fail("asked for a password although the vault is invalid")
			case res.Timeout:
				fail("does not end although the vault is invalid")
			case res.Code == 0:
				fail("exit status 0 although the vault is invalid")
			case !strings.Contains(res.Out, "invalid vault"):
				fail("no 'invalid vault' message")
			case !named(res.Out[strings.Index(res.Out, "invalid vault"):]):
				fail("the message does not name the path")
			default:
				c.count("invalid vaults refused", 1)
				if first {
					c.count("first runs", 1)
				}
				c.eval(fmt.Sprint(cmd, "|", fkind, "|", dkind, "|", fs, "|", ds, first))
				if i%89 == 1 {
					c.sample(wit)
				}
			}
			return
		}
		if !res.Asked || res.Stuck != "" || res.Timeout || res.Code != 0 {
			fail(fmt.Sprintf("the valid vault is not opened (asked %v, exit %d)", res.Asked, res.Code))
			return
		}
		out := afterPrompt(res.Out)
		if cmd == "list" {
			rows, msg := parseTable(out)
			if msg == "" {
				msg = sameListing(rows, target.sel("", "", false), true)
			}
			if msg != "" {
				fail("not the listing of the vault asked for: " + msg)
				return
			}
		} else if t := target.find(it.UID).Title; !strings.Contains(out, t) {
			fail(fmt.Sprintf("shows another item than %q of the vault asked for", t))
			return
		}
		c.count("valid vaults opened", 1)
		if first {
			c.count("first runs", 1)
		}
		c.eval(fmt.Sprint(cmd, "|", fkind, "|", dkind, "|", fs, "|", ds, first))
	})
}
