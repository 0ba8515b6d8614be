package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C05"] = check{
		level: "runtime monitoring of paired executions (two-run non-interference) plus secret tracing in every screen",
		rule:  "a case is a pair of vaults that differ only in secret values and notes text, driven identically through list, overview or the GUI; distinct = distinct vault pairs and key sequences",
		run:   runC05,
	}
}

// reSecret returns details of the same shape with other secret values.
func reSecret(r *rand.Rand, x any, key string) any {
	// The values of section fields may also differ in being empty: such a
	// field is listed whatever its value is.
	fresh := func(old string, field bool) string {
		if field && r.Intn(8) == 0 {
			return ""
		}
		if old == "" && !(field && r.Intn(2) == 0) {
			return ""
		}
		s := secretSeq(r)
		switch r.Intn(7) {
		case 4, 5:
			s = secretVal(r, genOpts{narrow: true})
		case 6:
			s = oddValues[r.Intn(len(oddValues))]
		case 0:
			s += strings.Repeat("q", r.Intn(60))
		case 1:
			s = "x" + s[3:4]
		case 2:
			s = "long one " + s + " and " + s
		}
		return s
	}
	switch t := x.(type) {
	case omap:
		o := omap{}
		kind, _ := t.get("k").(string)
		for _, e := range t {
			switch v := e.V.(type) {
			case string:
				if (e.K == "v" || e.K == "value" || e.K == "notesPlain") || key == "address" {
					e.V = fresh(v, e.K == "v" || key == "address")
				}
			case int64:
				if e.K == "v" {
					e.V = int64(r.Intn(1500000000))
				}
			case int:
				if e.K == "v" && kind == "monthYear" {
					e.V = 190001 + 100*r.Intn(150) + r.Intn(12)
				}
			case omap:
				if e.K == "v" {
					e.V = reSecret(r, v, "address")
				}
			case []omap:
				n := []omap{}
				for _, y := range v {
					n = append(n, reSecret(r, y, e.K).(omap))
				}
				e.V = n
			}
			o = append(o, e)
		}
		return o
	}
	return x
}

// twin makes a vault with the same structure and other secrets.
func twin(r *rand.Rand, v *Vault) *Vault {
	t := newVault(r, v.Password, v.Iter)
	for _, it := range v.Items {
		n := *it
		n.Details = reSecret(r, it.Details, "").(omap)
		t.seal(r, &n)
		t.Items = append(t.Items, &n)
	}
	return t
}

func runC05(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	tokens := func(v *Vault) []string {
		var out []string
		for _, it := range v.Items {
			b, _ := json.Marshal(it.Details)
			for _, f := range strings.FieldsFunc(string(b), func(x rune) bool {
				return !(x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x >= '0' && x <= '9')
			}) {
				if i := strings.Index(f, "S3c"); i >= 0 && len(f) >= i+9 {
					out = append(out, f[i:i+9])
				}
			}
		}
		return out
	}
	leak := func(text string, v *Vault) string {
		for _, t := range tokens(v) {
			if strings.Contains(text, t) {
				return t
			}
		}
		return ""
	}
	c.each("cli", 0, c.n(120, 1500), 0, func(i int, r *rand.Rand) {
		a := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(6), trashRate: 25, uniqueTitles: true})
		b := twin(r, a)
		it := a.Items[r.Intn(len(a.Items))]
		args := [][]string{{"list"}, {"list", "-t"}, {"overview", it.UID}, {"overview", it.UID}, {"overview", it.UID}}[r.Intn(5)]
		if args[0] == "overview" && it.Trashed {
			args = append(args, "-t")
		}
		var outs []string
		for _, v := range []*Vault{a, b} {
			w := c.world("vault")
			v.write(r, w.vault)
			w.quiet(w.vault)
			w.own()
			o := w.opts(args...)
			o.steps = []step{pw("pw")}
			res := c.run(o)
			w.done()
			if res.Timeout || res.crashed() || res.Code != 0 {
				c.violation(i, fmt.Sprintf("%v fails", args), res.brief())
				return
			}
			if t := leak(res.Out, v); t != "" {
				c.violation(i, fmt.Sprintf("'%s' prints the secret %s", args[0], t), map[string]any{"args": args, "run": res.brief(), "item": itemWitness(v.find(it.UID))})
				return
			}
			outs = append(outs, res.Out)
		}
		if outs[0] != outs[1] {
			x, y := strings.Split(outs[0], "\n"), strings.Split(outs[1], "\n")
			c.violation(i, fmt.Sprintf("%v depends on secret values: %s", args, lineDiff(x, y)), map[string]any{"first": outs[0], "second": outs[1],
				"item": itemWitness(a.find(it.UID)), "twin": itemWitness(b.find(it.UID))})
			return
		}
		c.count("paired runs of "+args[0], 1)
		c.eval(fmt.Sprint(args[0], vaultSig(a)))
	})
	c.each("gui", 100000, c.n(90, 1200), 0, func(i int, r *rand.Rand) {
		var a *Vault
		for a == nil || len(a.Items) == 0 {
			a = randGuiVault(r, 20)
		}
		b := twin(r, a)
		cols, rows := randSize(r)
		var gs []*gui
		for _, v := range []*Vault{a, b} {
			w := c.world("vault")
			defer w.done()
			v.write(r, w.vault)
			w.quiet(w.vault)
			w.own()
			g := c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", cols, rows, nil)
			defer g.kill()
			gs = append(gs, g)
		}
		m := newModel(a)
		body := func(f *frame) string { return strings.Join(strings.Split(f.text(), "\n")[3:], "\n") }
		if gs[0].first() == nil || gs[1].first() == nil {
			c.violation(i, "no first screen", gs[0].witness(nil))
			return
		}
		ks := append(keys(a.Password), gkey{Key: kEnter})
		revealed := 0
		for n := 0; n < len(ks)+50+r.Intn(60); n++ {
			var k gkey
			if n < len(ks) {
				k = ks[n]
			} else {
				k = m.randKey(r)
				if m.state == gsItems && r.Intn(3) == 0 {
					k = gkey{Key: kTab}
				}
			}
			before := m.state
			m.key(k)
			var fs [2]*frame
			for j := range gs {
				fs[j] = gs[j].press(k)
				if fs[j] == nil {
					c.violation(i, fmt.Sprintf("no screen after %v", k), gs[j].witness(nil))
					return
				}
			}
			if m.state == gsDetails {
				revealed++
				continue
			}
			for j, v := range []*Vault{a, b} {
				if t := leak(fs[j].text(), v); t != "" {
					c.violation(i, fmt.Sprintf("after %v (%v -> %v) the screen shows the secret %s", k, before, m.state, t), gs[j].witness(nil))
					return
				}
			}
			if x, y := body(fs[0]), body(fs[1]); x != y {
				c.violation(i, fmt.Sprintf("after %v (%v -> %v) the screen depends on secret values: %s", k, before, m.state,
					lineDiff(strings.Split(x, "\n"), strings.Split(y, "\n"))), gs[0].witness(map[string]any{"other screen": strings.Split(y, "\n")}))
				return
			}
			c.count("paired screens in "+m.state.String(), 1)
			if before == gsDetails {
				c.count("screens after leaving the details", 1)
			}
		}
		c.count("revealed screens", revealed)
		c.eval(strings.Join(keyStrings(gs[0].log), "") + vaultSig(a))
	})
}
