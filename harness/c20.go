package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C20"] = check{
		level: "runtime monitoring of whole sessions: taint search for the typed password and the vault's secrets in the recorded file writes, file names, started processes, network bytes and files left behind, and in everything drawn on the terminal",
		rule:  "a case is one session with a unique password and unique secrets, all its recorded output channels searched for them in clear and encoded; distinct = distinct (session kind, password shape, vault)",
		run:   runC20,
	}
}

// taints gives the spellings under which a secret would be recognised.
func taints(s string) []string {
	out := []string{s, hex.EncodeToString([]byte(s)), strings.ToUpper(hex.EncodeToString([]byte(s))), url.QueryEscape(s), url.PathEscape(s)}
	j, _ := json.Marshal(s)
	out = append(out, strings.Trim(string(j), `"`))
	for pad := 0; pad < 3; pad++ {
		b := append(make([]byte, pad), s...)
		b = b[:len(b)/3*3]
		if len(b) < 6 {
			continue
		}
		from := map[int]int{0: 0, 1: 4, 2: 4}[pad]
		out = append(out, base64.StdEncoding.EncodeToString(b)[from:], base64.URLEncoding.EncodeToString(b)[from:])
	}
	return out
}

type taintSet struct {
	what  []string
	spell []string
}

func (t *taintSet) add(what, s string) {
	seen := map[string]bool{}
	for _, x := range taints(s) {
		if len(x) >= 8 && !seen[x] {
			seen[x] = true
			t.what = append(t.what, what)
			t.spell = append(t.spell, x)
		}
	}
}

func (t *taintSet) find(text string) string {
	for i, x := range t.spell {
		if strings.Contains(text, x) {
			return t.what[i]
		}
	}
	return ""
}

func c20password(r *rand.Rand) (string, string) {
	const al = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
	b := make([]byte, 12+r.Intn(14))
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	s := string(b)
	switch r.Intn(5) {
	case 0:
		return s[:6] + " " + s[6:], "space"
	case 1:
		return s[:7] + "żó漢"[:4] + s[7:], "unicode"
	case 2:
		return s[:5] + "/%&" + s[5:], "special"
	}
	return s, "plain"
}

// windows are the pieces of the typed text that must not be displayed together.
func windows(p string, n int) []string {
	var out []string
	rs := []rune(p)
	for i := 0; i+n <= len(rs); i++ {
		x := string(rs[i : i+n])
		// pieces that could also be plain text or an identifier say nothing
		if strings.ContainsAny(x, "23456789") && strings.ToLower(x) != x && strings.ToUpper(x) != x {
			out = append(out, x)
		}
	}
	return out
}

func runC20(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	// programs started by the program under test are replaced by a recorder
	rec := filepath.Join(c.Scratch, "rec")
	os.MkdirAll(rec, 0777)
	os.Chmod(rec, 0777)
	script := filepath.Join(rec, "recorder")
	mustWrite(script, []byte("#!/bin/sh\nf=\"$(/usr/bin/dirname \"$0\")/out.$$\"\n{ echo \"$@\"; /usr/bin/env; /usr/bin/timeout 2 /bin/cat; } > \"$f\" 2>&1\nexit 0\n"))
	os.Chmod(script, 0755)
	for _, n := range []string{"xclip", "xsel", "wl-copy", "pbcopy", "sh", "bash", "less", "more", "logger", "notify-send", "clear", "stty", "echo", "cat", "curl", "gpg", "openssl", "keyctl", "secret-tool"} {
		os.Symlink(script, filepath.Join(rec, n))
	}
	kinds := append([]string{}, jobKinds...)
	kinds = append(kinds, "details", "overview", "list", "gui", "gui", "gui with check", "gui with check", "details with check", "details wrong password", "pty gui", "pty gui", "first run details")
	c.each("session", 0, c.n(620, 8000), 0, func(i int, r *rand.Rand) {
		kind := kinds[i%len(kinds)]
		w := c.world("vault")
		defer w.done()
		w.surroundings(r)
		pass, shape := c20password(r)
		wrong, _ := c20password(r)
		switch r.Intn(3) { // near misses share most of the text with the right one
		case 0:
			wrong = pass + wrong[:1]
		case 1:
			wrong = "X" + pass
		}
		v := genVault(r, pass, 3, genOpts{items: 1 + r.Intn(6), noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 20, plainSecrets: r.Intn(2) == 0})
		v.write(r, w.vault)
		damaged := ""
		if r.Intn(6) == 0 {
			damaged = spoilKeys(r, w.vault)
		}
		in := w.install(0755)
		ptyGui := kind == "pty gui"
		k2 := kind
		if ptyGui {
			k2 = "gui"
		}
		j := w.makeJob(r, k2, v, in, wrong)
		if j.hub == nil {
			j.hub = c.pubHub(newPub(r, "9.9.9", 2000))
			j.opts.env = c.tlsEnv()
		}
		defer j.hub.close()
		j.hub.anyHost = true
		o := j.opts
		o.dial = j.hub.dialAll()
		o.logData = true
		o.env = append(o.env, "PATH="+rec+":/usr/bin:/bin", "VERIF_EXEC="+script)
		if r.Intn(3) == 0 {
			o.env = append(o.env, "TMPDIR="+filepath.Join(w.dir, "other"), "DEBUG=1", "VERBOSE=1")
		}
		w.own()
		var T, P taintSet
		P.add("the master password", pass)
		T.add("the master password", pass)
		T.add("the typed password", wrong)
		nsec := 0
		for _, it := range v.Items {
			b, _ := json.Marshal(it.Details)
			for _, f := range strings.FieldsFunc(string(b), func(x rune) bool {
				return !(x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x >= '0' && x <= '9')
			}) {
				if k := strings.Index(f, "S3c"); k >= 0 && len(f) >= k+13 {
					T.add("a secret of item "+it.Title, f[k:k+13])
					nsec++
				}
			}
		}
		wit := map[string]any{"session": kind, "args": o.args, "damage": damaged, "password": pass, "typed wrong password": wrong}
		fail := func(what string) { c.violation(i, fmt.Sprintf("session '%s': %s", kind, what), wit) }
		var evs []event
		shown := "" // everything displayed, for the password
		typed := 0
		if j.gui && !ptyGui {
			var screens []string
			var bad string
			wins := append(windows(pass, 6), windows(wrong, 6)...)
			g := c.guiStart(o, "gui", 80+r.Intn(60), 24+r.Intn(10), func(f *frame) {
				t := f.text()
				for _, x := range wins {
					if strings.Contains(t, x) && bad == "" {
						bad = x
						screens = strings.Split(t, "\n")
					}
				}
				if b := f.box("Password"); b != nil && bad == "" {
					if in := strings.Join(f.inner(b), ""); strings.Trim(in, "* ") != "" {
						bad = in
						screens = strings.Split(t, "\n")
					}
				}
			})
			if g.first() != nil {
				m := newModel(v)
				s := &guiSession{w: w, v: v, g: g, m: m}
				typeIn := func(p string) {
					for _, k := range append(keys(p), gkey{Key: kEnter}) {
						if r.Intn(10) == 0 {
							if g.press(idleKey(r)) == nil {
								return
							}
						}
						m.key(k)
						if g.press(k) == nil {
							return
						}
						typed++
					}
				}
				if r.Intn(2) == 0 {
					typeIn(wrong)
					k := gkey{Key: kEnter}
					m.key(k)
					g.press(k)
				}
				if m.state == gsPrompt {
					typeIn(pass)
				}
				if damaged != "" {
					for _, k := range []gkey{{Key: kEnter}, ch('j'), {Key: kEnter}, {Key: kTab}} {
						if g.press(k) == nil {
							break
						}
					}
					g.quit()
				} else {
					s.drive(r, 30+r.Intn(40), true)
					if r.Intn(3) == 0 && !g.hasExited() { // look into everything
						for _, k := range []gkey{{Key: kEnter}, {Key: kTab}, {Key: kTab}, ch('j'), {Key: kTab}, {Key: kCtrlL}} {
							m.key(k)
							if g.press(k) == nil {
								break
							}
						}
					}
					g.quit()
				}
			}
			g.mu.Lock()
			c.count("screens searched", g.nframes)
			g.mu.Unlock()
			g.kill2()
			evs = g.events()
			os.Remove(g.evlog)
			shown = g.stderr()
			wit["gui"] = g.witness(nil)
			if bad != "" {
				wit["screen"] = screens
				fail(fmt.Sprintf("the typed password is displayed: %q", bad))
				return
			}
		} else {
			if ptyGui {
				o.bin = c.B.get("app")
				o.steps = []step{{expect: "Password", noEcho: true, send: ""}}
				if r.Intn(2) == 0 {
					o.steps = append(o.steps, step{send: wrong + "\r"}, step{expect: "invalid password", send: "\r"}, step{expect: "Password", send: ""})
					if damaged != "" {
						o.steps = append(o.steps[:2], step{send: "\r"})
					}
				}
				o.steps = append(o.steps, step{send: pass + "\r"})
				for _, k := range []string{"\r", "\t", "j", "\t"}[:r.Intn(5)] {
					o.steps = append(o.steps, step{send: k})
				}
				o.steps = append(o.steps, step{send: "\x11"})
				o.w, o.h = 100, 30
			}
			if !ptyGui && j.prompts && !o.pipe && len(o.steps) > 0 { // whoever asks again must hide the answer again
				o.steps = append(append([]step{}, o.steps...), step{expect: "assword: ", noEcho: true, send: pass + "\n", maybe: true}, step{expect: "assword: ", noEcho: true, send: "\n", maybe: true})
			}
			res := c.run(o)
			evs = res.Events
			shown = res.Raw
			wit["run"] = res.brief()
			if j.prompts || ptyGui {
				typed = len(pass)
				if res.Stuck == "echo off" {
					fail("the terminal echoes while the password is typed")
					return
				}
			}
		}
		for _, p := range []string{pass, wrong} {
			for _, x := range windows(p, 6) {
				if strings.Contains(shown, x) {
					fail(fmt.Sprintf("the typed password is displayed: %q", x))
					return
				}
			}
		}
		if x := P.find(shown); x != "" {
			fail(x + " is displayed in another spelling")
			return
		}
		written := 0
		for _, e := range evs {
			text := e.Path + "\n" + e.Extra
			if e.Op == "write" || e.Op == "writeat" {
				if k := strings.IndexByte(e.Extra, ':'); k >= 0 {
					b, _ := hex.DecodeString(e.Extra[k+1:])
					text = e.Path + "\n" + string(b)
					written += len(b)
				}
			}
			if e.Op == "netwrite" || e.Op == "tlswrite" {
				b, _ := hex.DecodeString(e.Extra)
				text = string(b)
				c.count("network bytes searched", len(b))
			}
			if x := T.find(text); x != "" {
				fail(fmt.Sprintf("%s leaves the program: %s %s", x, e.Op, strings.TrimPrefix(e.Path, w.dir)))
				return
			}
		}
		for _, q := range j.hub.requests() {
			if x := T.find(q.all()); x != "" {
				wit["request"] = q.all()
				fail(x + " is sent over the network")
				return
			}
			c.count("requests searched", 1)
		}
		// a secret need not be written through the monitored calls to be found in a file
		found := ""
		nfiles := 0
		look := func(root string, skip string) {
			filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
				if err != nil || found != "" {
					return nil
				}
				if skip != "" && under(p, skip) {
					return filepath.SkipDir
				}
				if x := T.find(filepath.Base(p)); x != "" {
					found = x + " in the file name " + p
				}
				if d.Type().IsRegular() && p != in.exe {
					b, _ := os.ReadFile(p)
					nfiles++
					if x := T.find(string(b)); x != "" {
						found = x + " in " + strings.TrimPrefix(p, w.dir)
					}
				}
				return nil
			})
		}
		look(w.dir, w.vault)
		if found != "" {
			fail("file left behind: " + found)
			return
		}
		look(w.vault, "")
		if found != "" {
			fail("file left in the vault: " + found)
			return
		}
		recs, _ := filepath.Glob(filepath.Join(rec, "out.*"))
		for _, p := range recs {
			b, _ := os.ReadFile(p)
			if x := T.find(string(b)); x != "" {
				wit["process"] = firstN(string(b), 3000)
				fail(x + " is passed to another process")
				return
			}
		}
		c.count("files searched", nfiles)
		c.count("bytes written searched", written)
		c.count("operations searched", len(evs))
		c.count("secrets traced", nsec)
		if typed > 0 {
			c.count("sessions with a typed password", 1)
		}
		if damaged != "" {
			c.count("sessions on a damaged vault", 1)
		}
		c.eval(fmt.Sprint(kind, "|", shape, damaged, "|", vaultSig(v)))
		if i%83 == 4 {
			c.sample(map[string]any{"session": kind, "password shape": shape, "operations": len(evs), "files searched": nfiles, "secrets": nsec, "typed characters": typed})
		}
	})
}

// kill2 ends the program but keeps its event log.
func (g *gui) kill2() {
	log := g.evlog
	g.evlog = ""
	g.kill()
	g.evlog = log
}

// spoilKeys damages what the keys of a vault are derived from.
func spoilKeys(r *rand.Rand, vault string) string {
	p := filepath.Join(vault, "default", "profile.js")
	b, err := os.ReadFile(p)
	if err != nil {
		infra("profile: %v", err)
	}
	var m map[string]any
	if err := json.Unmarshal(b[12:len(b)-1], &m); err != nil {
		infra("profile: %v", err)
	}
	k := []string{"masterKey", "overviewKey", "salt", "salt"}[r.Intn(4)]
	kind := k
	switch r.Intn(4) {
	case 0:
		m[k] = "not*base64*" + m[k].(string)
		kind += " not base64"
	case 1:
		m[k] = m[k].(string)[:8+r.Intn(8)]
		kind += " cut"
	case 2:
		x := unb64(m[k].(string))
		x[r.Intn(len(x))] ^= 1
		m[k] = b64(x)
		kind += " bit flip"
	default:
		delete(m, k)
		kind += " missing"
	}
	j, _ := json.Marshal(m)
	mustWrite(p, []byte("var profile="+string(j)+";"))
	return kind
}
