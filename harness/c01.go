package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// world is one case's private file system: a home directory, a vault and the paths the program may touch.
type world struct {
	c     *Ctx
	dir   string
	home  string
	cfg   string // configuration directory
	vault string
}

var oddNames = []string{"vault", "my vault", "vault[1]", "v*lt", "va?lt", "[vault", "vault]", "väult-ж", "a\\b", "v{x}", "vault.opvault", "-v", "$HOME", "v'q\"",
	"x%sd", "~", "..v", "deep/er/vault", "[a-z]", "band_0.js", "default"}

func (c *Ctx) world(vaultName string) *world {
	w := &world{c: c, dir: c.dir("w")}
	w.home = filepath.Join(w.dir, "home")
	w.cfg = filepath.Join(w.home, ".config", "1pass")
	os.MkdirAll(w.home, 0755)
	w.vault = filepath.Join(w.dir, "v", vaultName)
	os.MkdirAll(w.vault, 0755)
	return w
}

func (w *world) done() {
	if os.Getenv("VERIF_KEEP") == "" {
		filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(w.dir)
	}
}

func (w *world) own() { w.c.own(w.dir) }

// config writes a settings file.
func (w *world) config(text string) {
	os.MkdirAll(w.cfg, 0755)
	mustWrite(filepath.Join(w.cfg, "1pass.yml"), []byte(text))
}

func yq(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// quiet configures notifications off, so that commands run without an update check.
func (w *world) quiet(vault string) {
	w.config("opvault: " + yq(vault) + "\ntimeout: 1\nupdate-notification: false\nupdate-period: 1\n")
}

func (w *world) opts(args ...string) runOpts {
	return runOpts{bin: w.c.B.get("app"), args: args, home: w.home, allow: []string{w.dir}}
}

func genPassword(r *rand.Rand) string {
	base := []string{"freddy", "correct horse battery", "pä$$wörd", "пароль", "p", "0", "A b C", "tab.less", "x'y\"z\\", "%s%d", "漢字かな", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "***", "Zażółć"}
	p := base[r.Intn(len(base))]
	if r.Intn(2) == 0 {
		p += fmt.Sprint(r.Intn(10000))
	}
	return p
}

// afterPrompt is what a vault command printed after the password prompt.
func afterPrompt(out string) string {
	if i := strings.Index(out, "Password:\n"); i >= 0 {
		return out[i+len("Password:\n"):]
	}
	return out
}

func viewLines(out string) []string {
	var l []string
	for _, s := range strings.Split(out, "\n") {
		s = strings.ReplaceAll(s, "\r", "")
		if strings.TrimSpace(s) != "" && !isRule(s) {
			l = append(l, strings.TrimRight(s, " "))
		}
	}
	return l
}

func eqLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func lineDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = fmt.Sprintf("%q", got[i])
		}
		if i < len(want) {
			w = fmt.Sprintf("%q", want[i])
		}
		if g != w {
			return fmt.Sprintf("line %d: got %s, want %s", i+1, g, w)
		}
	}
	return ""
}

// diffItem compares a driver item with the stored one.
func diffItem(it *VItem, d *dItem) string {
	if d.Uid != it.UID || d.Cat != it.Cat || d.CatName != catNames[it.Cat] || d.Title != it.Title || d.Url != it.Url || d.Notes != it.Notes ||
		d.Trashed != it.Trashed || d.Created != it.Created || d.Updated != it.Updated {
		return fmt.Sprintf("head differs: got %+v want uid=%s cat=%s title=%q url=%q notes=%q trashed=%v created=%d updated=%d",
			*d, it.UID, it.Cat, it.Title, it.Url, it.Notes, it.Trashed, it.Created, it.Updated)
	}
	var got, want []string
	for _, s := range d.Sections {
		got = append(got, "section "+s.Title)
		for _, f := range s.Fields {
			got = append(got, "field "+f.Name+" = "+f.Value)
		}
	}
	for _, s := range it.Sections {
		want = append(want, "section "+s.Title)
		for _, f := range s.Fields {
			want = append(want, "field "+f.Name+" = "+f.Value)
		}
	}
	if x := lineDiff(got, want); x != "" {
		return "sections: " + x
	}
	return ""
}

// compareAll checks everything the unlocked driver offers against the vault; "" if equal.
func compareAll(d *driver, v *Vault) (string, *VItem, int) {
	n := 0
	for _, tr := range []bool{false, true} {
		r := d.call(map[string]any{"op": "list", "trashed": tr})
		if b := d.bad(r); b != "" {
			return b, nil, n
		}
		want := map[string]*VItem{}
		for _, it := range v.known() {
			if it.Trashed == tr {
				want[it.UID] = it
			}
		}
		seen := map[string]bool{}
		for _, li := range r.Items {
			it := want[li.Uid]
			if it == nil {
				return fmt.Sprintf("listing (trashed=%v) has unexpected item %+v", tr, li), nil, n
			}
			if seen[li.Uid] {
				return fmt.Sprintf("item %s listed twice", li.Uid), it, n
			}
			seen[li.Uid] = true
			if li.Title != it.Title || li.Cat != it.Cat || li.Trashed != it.Trashed {
				return fmt.Sprintf("listed as %+v, stored title %q category %s", li, it.Title, it.Cat), it, n
			}
		}
		for uid, it := range want {
			if !seen[uid] {
				return fmt.Sprintf("item %s (%s, %q, trashed=%v) is missing from the listing", uid, it.Cat, it.Title, tr), it, n
			}
		}
		for uid, it := range want {
			g := d.call(map[string]any{"op": "get", "uid": uid, "trashed": tr})
			if b := d.bad(g); b != "" {
				return b, it, n
			}
			if g.Item == nil {
				return "item " + uid + " cannot be looked up", it, n
			}
			if x := diffItem(it, g.Item); x != "" {
				return "item " + uid + ": " + x, it, n
			}
			n++
		}
	}
	return "", nil, n
}

func (w *world) unlockDriver(password string) (*driver, *dResp) {
	d := w.c.driver(runOpts{home: w.home, allow: []string{w.dir}})
	d.call(map[string]any{"op": "new", "path": w.cfg})
	r := d.call(map[string]any{"op": "validate", "path": w.vault})
	if r.Err != "" || r.Panic != "" || r.Dead {
		return d, r
	}
	return d, d.call(map[string]any{"op": "unlock", "path": w.vault, "password": password})
}

func itemWitness(it *VItem) any {
	if it == nil {
		return nil
	}
	return map[string]any{"uid": it.UID, "category": it.Cat, "overview": it.Overview, "details": it.Details, "expected": it.view(false)}
}

func vaultSig(v *Vault) string {
	h := fmt.Sprintf("%d items", len(v.Items))
	for _, it := range v.Items {
		h += "|" + it.UID[:6] + it.Cat
	}
	return firstN(h, 80)
}

func init() {
	checks["C01"] = check{
		level: "runtime monitoring of randomised executions against an independent OPVault writer",
		rule:  "a case is one randomly generated vault (own key material, padding lengths, bands, field kinds, directory name) opened through the facade, the command line or the GUI; distinct = distinct vaults with at least one known item",
		run:   runC01,
	}
}

func runC01(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	c.B.get("gui")
	// facade level: many vaults, every item compared field by field
	c.each("facade", 0, c.n(260, 4000), 0, func(i int, r *rand.Rand) {
		w := c.world(oddNames[i%len(oddNames)])
		defer w.done()
		n := r.Intn(30)
		if r.Intn(20) == 0 {
			n = 200 + r.Intn(400)
		}
		v := genVault(r, genPassword(r), 1+r.Intn(400), genOpts{items: n, trashRate: 20})
		v.LowBands = r.Intn(6) == 0
		v.write(r, w.vault)
		if r.Intn(5) == 0 {
			c.count("vaults made of links", 1)
			linkUp(r, w)
		}
		w.own()
		d, u := w.unlockDriver(v.Password)
		defer d.close()
		if u.Err != "" || u.Panic != "" || u.Dead {
			c.violation(i, "a well-formed vault cannot be opened: "+u.Err+d.bad(u), map[string]any{"vault dir": w.vault, "items": len(v.Items)})
			return
		}
		msg, it, cnt := compareAll(d, v)
		c.count("items compared through the facade", cnt)
		if msg != "" {
			c.violation(i, msg, map[string]any{"vault dir": w.vault, "item": itemWitness(it)})
			return
		}
		sig := ""
		if len(v.known()) > 0 {
			sig = "f" + vaultSig(v)
		}
		c.eval(sig)
		if len(v.known()) > 0 {
			c.sample(map[string]any{"how": "facade", "dir": filepath.Base(w.vault), "items": len(v.Items), "bands": len(v.Bands), "first item": v.known()[0].view(false)})
		}
	})
	// command line: the printed details of single items
	c.each("cli", 100000, c.n(64, 800), 0, func(i int, r *rand.Rand) {
		w := c.world(oddNames[r.Intn(len(oddNames))])
		defer w.done()
		v := genVault(r, genPassword(r), 1+r.Intn(100), genOpts{items: 1 + r.Intn(12), trashRate: 25, noUnknown: true, noonDates: true})
		tz := "UTC"
		if r.Intn(2) == 0 {
			tz = v.zone(r)
		}
		v.write(r, w.vault)
		w.quiet("/nonexistent")
		w.own()
		for k := 0; k < 2; k++ {
			it := v.Items[r.Intn(len(v.Items))]
			args := []string{"details", "--vault=" + w.vault, it.UID}
			if it.Trashed {
				args = append(args, "--trashed")
			}
			o := w.opts(args...)
			o.steps = []step{pw(v.Password)}
			o.env = []string{"TZ=" + tz}
			res := c.run(o)
			got := viewLines(afterPrompt(res.Out))
			if res.Timeout || res.Code != 0 || !eqLines(got, it.view(false)) {
				c.violation(i, "printed details differ from the stored item: "+lineDiff(got, it.view(false)),
					map[string]any{"args": args, "time zone": tz, "run": res.brief(), "item": itemWitness(it)})
				return
			}
			c.count("items compared on the command line", 1)
			c.eval("c" + it.UID)
		}
	})
	// GUI: reveal items and read the pane
	c.each("gui", 200000, c.n(16, 150), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "gui pass", 10, genOpts{items: 1 + r.Intn(10), trashRate: 20, noUnknown: true, narrow: true, screen: r.Intn(2) == 0, uniqueTitles: true, dupTitles: r.Intn(2) == 0, noonDates: true})
		tz := "UTC"
		if r.Intn(2) == 0 {
			tz = v.zone(r)
		}
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		msg, wit, n := guiReadAll(c, w, v, r, "TZ="+tz)
		c.count("items revealed in the GUI", n)
		if msg != "" {
			c.violation(i, "GUI: "+msg, wit)
			return
		}
		c.eval("g" + vaultSig(v))
	})
}

// linkUp replaces parts of a vault by symbolic links to the same contents, the
// way a synchronised or store-managed folder looks.
func linkUp(r *rand.Rand, w *world) {
	store := filepath.Join(w.dir, "store")
	os.MkdirAll(store, 0755)
	how := r.Intn(4)
	dir := how == 3 || r.Intn(3) == 0
	link := func(p, name string) {
		to := filepath.Join(store, name)
		if err := os.Rename(p, to); err != nil {
			infra("link: %v", err)
		}
		target := to
		if !dir && r.Intn(2) == 0 {
			if rel, err := filepath.Rel(filepath.Dir(p), to); err == nil {
				target = rel
			}
		}
		if err := os.Symlink(target, p); err != nil {
			infra("link: %v", err)
		}
	}
	d := filepath.Join(w.vault, "default")
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if how == 0 || how == 1 && e.Name() == "profile.js" || how == 2 && r.Intn(2) == 0 {
			link(filepath.Join(d, e.Name()), "f-"+e.Name())
		}
	}
	if dir {
		link(d, "default dir")
	}
}

// guiReadAll opens every category, reveals every item and compares the pane.
func guiReadAll(c *Ctx, w *world, v *Vault, r *rand.Rand, env ...string) (string, map[string]any, int) {
	g := c.guiStart(runOpts{home: w.home, allow: []string{w.dir}, env: env}, "gui", 400, 120, nil)
	defer g.kill()
	m := newModel(v)
	n := 0
	step := func(k gkey) string {
		m.key(k)
		f := g.press(k)
		if f == nil {
			return "no screen after " + k.String()
		}
		if s := m.check(f); s != "" {
			return "after " + k.String() + ": " + s
		}
		return ""
	}
	if g.first() == nil {
		return "no first screen", g.witness(nil), n
	}
	for _, k := range append(keys(v.Password), gkey{Key: kEnter}) {
		if s := step(k); s != "" {
			return s, g.witness(nil), n
		}
	}
	for ci := range m.cats {
		seq := []gkey{{Key: kEnter}}
		for range m.cats[ci].items {
			seq = append(seq, gkey{Key: kTab}, gkey{Key: kTab}, ch('j'))
		}
		seq = append(seq, ch('q'), ch('j'))
		for _, k := range seq {
			if s := step(k); s != "" {
				return s, g.witness(map[string]any{"state": m.state.String(), "item": itemWitness(v.find(m.item().UID))}), n
			}
			if m.state == gsDetails {
				n++
			}
		}
	}
	return "", nil, n
}
