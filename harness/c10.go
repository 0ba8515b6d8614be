package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	checks["C10"] = check{
		level: "runtime monitoring of configuration dialogues with randomised answers against a model of the dialogue",
		rule:  "a case is one configuration dialogue (explicit or first run, on a pipe or a terminal) with generated answers from generated initial settings; distinct = distinct (settings, answers)",
		run:   runC10,
	}
}

var (
	c10yesno = []string{"y", "n", "Y", "N", "", "q", "yes!", "0", "1", "ja", "yn", "y y", "-", "true", "t", "ÿ", "y.", strings.Repeat("y", 200), "on", "y/n", "nn", "true y"}
	c10nums  = []string{"", "0", "1", "2", "9", "10", "15", "29", "30", "31", "32", "99", "100", "364", "365", "366", "367", "1000", "-1", "-15", "abc", "1.5", "5,5", "1e1", "0x10", "12a", "a12", "1 2", "３",
		"99999999999999999999999", "18446744073709551617", "4294967297", "-0.5", "y", "n", "ten", "1_0", "--5", "5-", "9223372036854775808", "65537", "256", "257", "2147483649"}
)

// answer model: what the dialogue does with the lines.
func dialogue(v cfgVals, lines []string) cfgVals {
	next := func() string {
		if len(lines) == 0 {
			return ""
		}
		l := strings.TrimSpace(lines[0])
		lines = lines[1:]
		return l
	}
	if a := next(); a == "y" || a == "Y" {
		v.Vault = next()
	}
	switch next() {
	case "y", "Y":
		v.Notify = true
	case "n", "N":
		v.Notify = false
	}
	if n, err := strconv.Atoi(next()); err == nil && n >= 1 && n <= 30 {
		v.Timeout = n
	}
	if n, err := strconv.Atoi(next()); err == nil && n >= 0 && n <= 365 {
		v.Period = n
	}
	return v
}

func c10lines(r *rand.Rand, path string) []string {
	yn := func() string {
		if r.Intn(2) == 0 {
			return c10yesno[r.Intn(4)]
		}
		return c10yesno[r.Intn(len(c10yesno))]
	}
	num := func(max int) string {
		if r.Intn(2) == 0 {
			return strconv.Itoa(r.Intn(max + 1))
		}
		return c10nums[r.Intn(len(c10nums))]
	}
	var l []string
	a := yn()
	l = append(l, a)
	if a == "y" || a == "Y" {
		l = append(l, path)
	}
	return append(l, yn(), num(31), num(366))
}

func c10path(r *rand.Rand) string {
	p := strings.TrimSpace(strings.Map(func(x rune) rune {
		if x < 0x20 || x == 0x7f || x == 0x85 || x == 0x2028 || x == 0xa0 {
			return '_'
		}
		return x
	}, randPathText(r)))
	if p == "" {
		p = "/some/vault"
	}
	if len(p) > 1500 {
		p = strings.ToValidUTF8(p[:1500], "")
		p = strings.TrimSpace(p)
	}
	return p
}

func runC10(c *Ctx) {
	c.B.get("app")
	c.B.get("driver")
	read := func(w *world) (cfgVals, string) {
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		if b := d.bad(d.call(map[string]any{"op": "new", "path": w.cfg})); b != "" {
			return cfgVals{}, b
		}
		return d.cfg()
	}
	initial := func(r *rand.Rand, w *world) (cfgVals, string, map[string]any) {
		v := cfgVals{c10path(r), 1 + r.Intn(30), r.Intn(2) == 0, r.Intn(366)}
		un := map[string]any{}
		switch r.Intn(5) {
		case 0:
			return defaultCfg, "no file", un
		case 1:
			v = defaultCfg
			v.Timeout = 1 + r.Intn(30)
			w.config(fmt.Sprintf("timeout: %d\n", v.Timeout))
			return v, "partial file", un
		case 2:
			w.config([]string{"", "# nothing yet\n"}[r.Intn(2)])
			return defaultCfg, "empty file", un
		}
		t := ""
		if r.Intn(3) == 0 {
			un["theme"] = "dark"
			t = "theme: dark\n"
		}
		w.config(t + fmt.Sprintf("opvault: %s\ntimeout: %d\nupdate-notification: %v\nupdate-period: %d\n", yq(v.Vault), v.Timeout, v.Notify, v.Period))
		return v, "full file", un
	}
	c.each("configure", 0, c.n(900, 15000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		old, how, unknown := initial(r, w)
		w.own()
		path := c10path(r)
		if r.Intn(10) == 0 {
			path = "" // an empty answer to the path question is an empty path
		}
		lead, trail := "", ""
		if r.Intn(3) == 0 {
			lead, trail = strings.Repeat(" ", r.Intn(3)), []string{"", " ", "  ", "\t"}[r.Intn(4)]
		}
		lines := c10lines(r, lead+path+trail)
		full := r.Intn(4) > 0
		if !full { // end of input
			k := r.Intn(len(lines))
			if k > 0 && (lines[0] == "y" || lines[0] == "Y") && k < 2 {
				k = 2 // the path itself is always answered
			}
			if k == 1 && (lines[0] == "y" || lines[0] == "Y") {
				k = 0
			}
			lines = lines[:k]
		}
		want := dialogue(old, lines)
		o := w.opts("configure")
		in := strings.Join(lines, "\n")
		ended := len(lines) > 0 && r.Intn(3) > 0 // otherwise the last line has no newline
		if ended {
			in += "\n"
		}
		if r.Intn(6) == 0 && full && ended {
			in += "n\ny\n7\n7\n" // lines nobody asked for
		}
		o.pipe = true
		o.steps = []step{{send: in}}
		tty := full && ended && r.Intn(5) == 0 && len(in) < 1000 && !strings.ContainsAny(in, "\t\x1b\x7f")
		if tty {
			o.pipe = false
			if r.Intn(2) == 0 { // everything typed ahead at once
				o.steps = []step{{expect: "1. Do you", send: in}}
			} else {
				o.steps = nil
				ask := []string{"1. Do you want"}
				if lines[0] == "y" || lines[0] == "Y" {
					ask = append(ask, "Default OPVault path (")
				}
				ask = append(ask, "2. Update notif", "3. Update HTTP", "4. How often")
				for k, a := range ask {
					o.steps = append(o.steps, step{expect: a, send: lines[k] + "\n"})
				}
			}
		}
		res := c.run(o)
		got, bad := read(w)
		wit := map[string]any{"initial": how, "settings": old, "answers": in, "terminal": tty, "expected": want, "got": got, "run": res.brief()}
		switch {
		case res.crashed() || res.Timeout || res.Code != 0:
			c.violation(i, "the dialogue failed", wit)
			return
		case bad != "":
			c.violation(i, "the settings cannot be read after the dialogue: "+bad, wit)
			return
		case got != want:
			c.violation(i, fmt.Sprintf("the answers gave %+v instead of %+v", got, want), wit)
			return
		}
		if x := checkUnknown(filepath.Join(w.cfg, "1pass.yml"), unknown); x != "" {
			c.violation(i, "after the dialogue: "+x, wit)
			return
		}
		c.count("dialogues", 1)
		c.count("answers", len(lines))
		if tty {
			c.count("dialogues on a terminal", 1)
		}
		c.eval(fmt.Sprintf("%+v|%s", old, in))
		if i%307 == 0 {
			c.sample(wit)
		}
	})
	// first run: the dialogue comes before the vault command, once
	c.each("first", 100000, c.n(160, 2500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(4), noUnknown: true, uniqueTitles: true, narrow: true})
		v.write(r, w.vault)
		switch r.Intn(4) {
		case 0:
			os.MkdirAll(w.cfg, 0755)
		case 1:
			w.config("")
		}
		w.own()
		path := w.vault
		other := r.Intn(3) == 0
		if other {
			path = filepath.Join(w.dir, "no such vault")
		}
		lines := c10lines(r, path)
		want := dialogue(defaultCfg, lines)
		var args []string
		it := v.Items[r.Intn(len(v.Items))]
		switch r.Intn(4) {
		case 0:
			args = []string{"list"}
		case 1:
			args = []string{"overview", it.UID}
		case 2:
			args = []string{"details", it.UID}
		}
		if len(args) > 1 && it.Trashed {
			args = append(args, "-t")
		}
		uses := want.Vault
		gui := len(args) == 0
		if !gui && r.Intn(3) == 0 { // the dialogue is not skipped because a vault is named
			uses = []string{w.vault, filepath.Join(w.dir, "elsewhere")}[r.Intn(2)]
			args = append(args, "-v", uses)
		}
		opens := uses == w.vault
		if gui && opens { // the GUI itself is not wanted here
			return
		}
		o := w.opts(args...)
		for k, a := range lines {
			s := step{send: a + "\n"}
			if k == 0 {
				s.expect = "1. Do you want"
			}
			o.steps = append(o.steps, s)
		}
		if opens {
			o.steps = append(o.steps, pw("pw"))
		}
		res := c.run(o)
		got, bad := read(w)
		wit := map[string]any{"args": args, "answers": lines, "expected": want, "got": got, "run": res.brief()}
		if res.Timeout || res.crashed() || res.Stuck != "" || bad != "" || got != want {
			c.violation(i, fmt.Sprintf("the first run saved %+v instead of %+v %s", got, want, bad), wit)
			return
		}
		if opens != res.Asked || opens != (res.Code == 0) || !opens && !strings.Contains(res.Out, "invalid vault ("+uses) {
			c.violation(i, "the command after the first dialogue does not use the answered vault", wit)
			return
		}
		o.steps = nil
		if opens {
			o.steps = []step{pw("pw")}
		}
		res = c.run(o)
		wit["second run"] = res.brief()
		if strings.Contains(res.Out, "Do you want") || res.Stuck != "" || res.Timeout {
			c.violation(i, "the second run asks again", wit)
			return
		}
		if again, _ := read(w); again != want {
			c.violation(i, "the second run changed the settings", wit)
			return
		}
		c.count("first runs", 1)
		c.eval("first" + strings.Join(args, " ") + strings.Join(lines, "|"))
	})
	// once there are settings, however few, nothing is asked and nothing changes
	c.each("configured", 200000, c.n(40, 600), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(4), noUnknown: true, uniqueTitles: true, narrow: true})
		v.write(r, w.vault)
		want := defaultCfg
		named := true
		text := "" // notifications need no server: there is no network
		set := 1 + i%15
		if set&1 != 0 {
			want.Vault, named = w.vault, false
			if r.Intn(4) == 0 {
				want.Vault, named = "", true
			}
			text += "opvault: " + yq(want.Vault) + "\n"
		}
		if set&2 != 0 {
			want.Timeout = 1 + r.Intn(30)
			text += fmt.Sprintf("timeout: %d\n", want.Timeout)
		}
		if set&4 != 0 {
			want.Notify = r.Intn(2) == 0
			text += fmt.Sprintf("update-notification: %v\n", want.Notify)
		}
		if set&8 != 0 {
			want.Period = r.Intn(366)
			text += fmt.Sprintf("update-period: %d\n", want.Period)
		}
		w.config(text)
		w.own()
		args := []string{"list"}
		if named {
			args = append(args, "-v", w.vault)
		}
		for k := 0; k < 2; k++ {
			o := w.opts(args...)
			o.steps = []step{pw("pw")}
			res := c.run(o)
			got, bad := read(w)
			wit := map[string]any{"settings": text, "args": args, "got": got, "run": res.brief()}
			if strings.Contains(res.Out, "Do you want") || res.Stuck != "" || res.Timeout || res.Code != 0 || !res.Asked {
				c.violation(i, "a vault command does not go straight to the password although there are settings", wit)
				return
			}
			if bad != "" || got != want {
				c.violation(i, fmt.Sprintf("a vault command turned the settings into %+v instead of %+v %s", got, want, bad), wit)
				return
			}
		}
		c.count("runs with settings present", 2)
		c.eval("configured" + text)
	})
}
