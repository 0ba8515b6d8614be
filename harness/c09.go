package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"gopkg.in/yaml.v2"
)

func init() {
	checks["C09"] = check{
		level: "runtime monitoring of randomised save/read histories over several processes against a reference model of the settings",
		rule:  "a case is one history of saves and reads over several processes starting from one settings file; distinct = distinct (initial file, saved values) histories",
		run:   runC09,
	}
}

type cfgVals struct {
	Vault   string
	Timeout int
	Notify  bool
	Period  int
}

var defaultCfg = cfgVals{"", 1, true, 1}

func (d *driver) cfg() (cfgVals, string) {
	q := d.call(map[string]any{"op": "config"})
	if b := d.bad(q); b != "" {
		return cfgVals{}, b
	}
	return cfgVals{q.Vault, q.Timeout, q.Notify, q.Period}, ""
}

func (d *driver) save(v cfgVals) string {
	return d.bad(d.call(map[string]any{"op": "save", "vault": v.Vault, "timeout": v.Timeout, "notify": v.Notify, "period": v.Period}))
}

var yamlTraps = []string{"", " ", "yes", "no", "on", "off", "true", "False", "null", "~", "Null", "1", "-1", "0x1F", "0o17", "017", "1e3", "1.5", ".inf", ".nan", "2001-01-01", "2001-01-01T00:00:00Z",
	"1:30", "12:30:45", "- a", "a: b", "a:b", ": x", "x:", "# c", "a #c", "a#c", "'q'", "\"q\"", "it's", "*a", "&a", "!t", "!!str x", "%d", "@x", "`x", "{a}", "[a]", "{a: b}", "[a, b]", "| x", "> x", "? x",
	"tab\tx", "\ttab", "trail ", "  lead", "new\nline", "\n", "\n\nx\n", "cr\rx", "crlf\r\nx", "😀", "\u0085", "\ufeffbom", "nul\x00x", "\x1b[31m", "\\", "a\\nb", "<<", "=", "---", "--- x", "...", "%YAML 1.1", "_1", "1_000",
	"/home/me/My Vault.opvault", "/mnt/ä/ö", "C:\\Users\\x", "~/Dropbox", "$HOME/v", "/a'b\"c", "/path with, comma", "y", "n", "Y", "N", "+1", "0", "00", "1.", "0b11", "\u2028", "\u200f", "\x7f", "!!binary aGk="}

func randPathText(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0, 1:
		return yamlTraps[r.Intn(len(yamlTraps))]
	case 2:
		s := "/"
		for k := r.Intn(6); k >= 0; k-- {
			s += yamlTraps[r.Intn(len(yamlTraps))] + []string{"/", " ", "", ":", "#"}[r.Intn(5)]
		}
		return s
	}
	n := r.Intn(40)
	if r.Intn(5) == 0 {
		n = 100 + r.Intn(3000)
	}
	var b strings.Builder
	for k := 0; k < n; k++ {
		switch r.Intn(6) {
		case 0:
			b.WriteRune(rune(0x20 + r.Intn(0x5f)))
		case 1:
			b.WriteRune([]rune(" :#-'\"\\\t\n,[]{}&*!|>%@`")[r.Intn(22)])
		case 2:
			b.WriteRune(rune(0xa0 + r.Intn(0x2000)))
		default:
			b.WriteRune(rune('a' + r.Intn(26)))
		}
	}
	return b.String()
}

func randVals(r *rand.Rand) cfgVals {
	ints := []int{0, 1, 2, 7, 30, 31, 365, 1000, -1, 8, 10, 12, 60, 90, 1 << 30}
	return cfgVals{randPathText(r), ints[r.Intn(len(ints))], r.Intn(2) == 0, ints[r.Intn(len(ints))]}
}

// initial settings file: text, the settings it means and the entries the program does not know.
func randCfgFile(r *rand.Rand) (text string, exists bool, vals cfgVals, unknown map[string]any) {
	vals, unknown = defaultCfg, map[string]any{}
	switch r.Intn(6) {
	case 0:
		return "", false, vals, unknown
	case 1:
		return []string{"", "\n", "# only a comment\n", "---\n", "{}\n"}[r.Intn(5)], true, vals, unknown
	}
	exists = true
	m := yaml.MapSlice{}
	if r.Intn(2) == 0 {
		vals.Vault = randPathText(r)
		m = append(m, yaml.MapItem{Key: "opvault", Value: vals.Vault})
	}
	if r.Intn(2) == 0 {
		vals.Timeout = 1 + r.Intn(30)
		m = append(m, yaml.MapItem{Key: "timeout", Value: vals.Timeout})
	}
	if r.Intn(2) == 0 {
		vals.Notify = r.Intn(2) == 0
		m = append(m, yaml.MapItem{Key: "update-notification", Value: vals.Notify})
	}
	if r.Intn(2) == 0 {
		vals.Period = r.Intn(366)
		m = append(m, yaml.MapItem{Key: "update-period", Value: vals.Period})
	}
	us := []any{"text", 42, true, 1.5, nil, "yes", "0x10", []any{"a", 1, false}, yaml.MapSlice{{Key: "inner", Value: "x"}, {Key: "n", Value: 3}}, "multi\nline", []any{yaml.MapSlice{{Key: "k", Value: "v"}}}, "", -7}
	many := r.Intn(4)
	if r.Intn(6) == 0 {
		many = 8 + r.Intn(40)
	}
	for k := many; k > 0; k-- {
		n := []string{"theme", "Timeout", "vault", "x y", "update", "opvault2", "ąę", "notes", "timeouts", "list"}[r.Intn(10)]
		if many > 4 {
			n = fmt.Sprintf("%s%d", n, k)
		}
		if _, dup := unknown[n]; dup {
			continue
		}
		unknown[n] = us[r.Intn(len(us))]
		m = append(m, yaml.MapItem{Key: n, Value: unknown[n]})
	}
	r.Shuffle(len(m), func(a, b int) { m[a], m[b] = m[b], m[a] })
	b, err := yaml.Marshal(m)
	if err != nil {
		infra("yaml: %v", err)
	}
	text = string(b)
	if r.Intn(4) == 0 {
		text = "# my settings\n---\n" + text
	}
	if len(m) == 0 {
		text = "{}\n"
	}
	return
}

func parseCfg(path string) (map[string]any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var m map[string]any
	if err := yaml.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	return m, nil
}

func normYaml(v any) any {
	b, _ := yaml.Marshal(v)
	var o any
	yaml.Unmarshal(b, &o)
	return o
}

// checkUnknown tells whether the file still has the entries the program does not know.
func checkUnknown(path string, unknown map[string]any) string {
	m, err := parseCfg(path)
	if err != nil {
		return "the settings file cannot be read: " + err.Error()
	}
	for k, v := range unknown {
		got, ok := m[k]
		if !ok {
			return fmt.Sprintf("the entry %q is lost", k)
		}
		if !reflect.DeepEqual(normYaml(got), normYaml(v)) {
			return fmt.Sprintf("the entry %q became %#v, was %#v", k, got, v)
		}
	}
	for k := range m {
		switch k {
		case "opvault", "timeout", "update-notification", "update-period":
			continue
		}
		if _, ok := unknown[k]; !ok {
			return fmt.Sprintf("a new entry %q appeared", k)
		}
	}
	return ""
}

func runC09(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	c.each("history", 0, c.n(600, 12000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		file := filepath.Join(w.cfg, "1pass.yml")
		text, exists, vals, unknown := randCfgFile(r)
		linked, private := false, false
		if exists {
			os.MkdirAll(w.cfg, 0755)
			if r.Intn(6) == 0 { // settings kept elsewhere and linked
				linked = true
				t := filepath.Join(w.dir, "dotfiles", "one.yml")
				os.MkdirAll(filepath.Dir(t), 0755)
				mustWrite(t, []byte(text))
				os.Symlink(t, file)
			} else {
				mustWrite(file, []byte(text))
			}
			if r.Intn(8) == 0 {
				private = true
				os.Chmod(file, 0600)
			}
		}
		w.own()
		hist := []string{fmt.Sprintf("file %q exists=%v linked=%v", text, exists, linked)}
		fail := func(what string) {
			now, _ := os.ReadFile(file)
			c.violation(i, what, map[string]any{"history": hist, "file now": string(now), "expected": vals})
		}
		var d *driver
		defer func() {
			if d != nil {
				d.close()
			}
		}()
		fresh := func() bool {
			if d != nil {
				d.close()
			}
			d = c.driver(runOpts{home: w.home, allow: []string{w.dir}})
			q := d.call(map[string]any{"op": "new", "path": w.cfg})
			if b := d.bad(q); b != "" {
				fail("the settings cannot be loaded: " + b)
				return false
			}
			hist = append(hist, "new process")
			return true
		}
		read := func() bool {
			got, bad := d.cfg()
			if bad != "" {
				fail("reading the settings: " + bad)
				return false
			}
			if got != vals {
				fail(fmt.Sprintf("settings read as %+v instead of %+v", got, vals))
				return false
			}
			c.count("reads compared", 1)
			return true
		}
		if !fresh() || !read() {
			return
		}
		saved := false
		for s := 1 + r.Intn(5); s > 0; s-- {
			nv := randVals(r)
			if r.Intn(3) == 0 { // change one thing only
				x := vals
				switch r.Intn(4) {
				case 0:
					x.Vault = nv.Vault
				case 1:
					x.Timeout = nv.Timeout
				case 2:
					x.Notify = nv.Notify
				default:
					x.Period = nv.Period
				}
				nv = x
			}
			hist = append(hist, fmt.Sprintf("save %+v", nv))
			if bad := d.save(nv); bad != "" {
				fail("saving: " + bad)
				return
			}
			vals = nv
			saved = true
			c.count("saves", 1)
			if !read() {
				return
			}
			if x := checkUnknown(file, unknown); x != "" {
				fail(x)
				return
			}
			if fi, err := os.Lstat(file); linked && (err != nil || fi.Mode()&os.ModeSymlink == 0) {
				fail("the settings file was a link and is none any more")
				return
			}
			if fi, err := os.Stat(file); private && (err != nil || fi.Mode().Perm()&077 != 0) {
				fail("the settings file was readable for its owner only and is " + fi.Mode().String())
				return
			}
			if r.Intn(2) == 0 {
				if !fresh() || !read() {
					return
				}
			}
		}
		if !fresh() || !read() {
			return
		}
		if q := d.call(map[string]any{"op": "available"}); saved && !q.Bool {
			fail("saved settings are not recognised as settings")
			return
		}
		c.eval(strings.Join(hist, ";"))
		if i%151 == 0 {
			c.sample(map[string]any{"history": hist})
		}
	})
	// the command line: what one run saves the next one shows, also bytes that are not text
	c.each("cli", 100000, c.n(120, 1500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		if r.Intn(2) == 0 {
			w.config("update-notification: false\ncolour: blue\n")
		}
		w.own()
		p := "/" + strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' || r == 0 {
				return 'x'
			}
			return r
		}, randPathText(r))
		if r.Intn(3) == 0 {
			b := []byte(p + "/")
			for k := 1 + r.Intn(4); k > 0; k-- {
				b = append(b, byte(0x80+r.Intn(0x80)))
			}
			p = string(b) + "z"
		}
		p = strings.TrimSpace(p) + "/v"
		notify, tm, per := []string{"y", "n"}[r.Intn(2)], 1+r.Intn(30), r.Intn(366)
		o := w.opts("configure")
		o.pipe = true
		o.steps = []step{{send: fmt.Sprintf("y\n%s\n%s\n%d\n%d\n", p, notify, tm, per)}}
		a := c.run(o)
		o.steps = []step{{send: "n\n\n\n\n"}}
		b := c.run(o)
		o2 := w.opts([]string{"list", "overview", "details"}[r.Intn(3)])
		if o2.args[0] != "list" {
			o2.args = append(o2.args, "00112233")
		}
		o2.pipe = true
		l := c.run(o2)
		o.steps = []step{{send: "y\n" + p + "\n\n\n\n"}}
		d := c.run(o)
		wit := map[string]any{"path": fmt.Sprintf("%q", p), "notify": notify, "timeout": tm, "period": per, "first run": a.brief(), "second run": b.brief(), "vault command": l.brief(), "third run": d.brief()}
		for _, want := range []string{fmt.Sprintf("Update notifications? (%s)", notify), fmt.Sprintf("in seconds (%d)", tm), fmt.Sprintf("in days (%d)", per)} {
			if !strings.Contains(b.Out, want) {
				c.violation(i, "the next run does not show "+want, wit)
				return
			}
		}
		if !strings.Contains(d.Out, "OPVault path ("+p+")") {
			c.violation(i, "the next run does not show the saved path", wit)
			return
		}
		if !strings.Contains(l.Out, "invalid vault ("+p) {
			c.violation(i, "a vault command does not use the saved path", wit)
			return
		}
		c.count("command line rounds", 1)
		c.eval("cli" + p + notify + fmt.Sprint(tm, per))
	})
}
