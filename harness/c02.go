package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
)

func init() {
	checks["C02"] = check{
		level: "runtime monitoring of randomised unlock attempts against an exact-equality oracle",
		rule:  "a case is one unlock attempt (vault key material, master password, guess, history of earlier attempts) on the facade, the command line or the GUI; distinct = distinct (password, guess, route) triples",
		run:   runC02,
	}
}

var pwPool = []string{"freddy", "Freddy", "correct horse battery staple", "pä$$wörd", "pa\u0308$$wo\u0308rd", "пароль", "p", "0", "00", "A b C", " lead", "trail ", "two  gaps",
	"x'y\"z\\", "%s%d%v", "漢字かな", strings.Repeat("a", 32), strings.Repeat("k", 64), strings.Repeat("w", 65), strings.Repeat("0123456789", 12), "***", "**********", "Zażółć gęślą", "é", "e\u0301", "ﬁ", "K", "\u212a", "ß", "SS", "tab\tin", "null", "true", "y", "😀🔑"}

// nearMisses makes guesses that resemble p.
func nearMisses(r *rand.Rand, p string) []string {
	rs := []rune(p)
	flip := func() string {
		o := append([]rune{}, rs...)
		i := r.Intn(len(o))
		if unicode.IsUpper(o[i]) {
			o[i] = unicode.ToLower(o[i])
		} else {
			o[i] = unicode.ToUpper(o[i])
		}
		return string(o)
	}
	repl := func() string {
		o := append([]rune{}, rs...)
		o[r.Intn(len(o))]++
		return string(o)
	}
	swap := func() string {
		o := append([]rune{}, rs...)
		if len(o) > 1 {
			i := r.Intn(len(o) - 1)
			o[i], o[i+1] = o[i+1], o[i]
		}
		return string(o)
	}
	drop := func() string {
		i := r.Intn(len(rs))
		return string(rs[:i]) + string(rs[i+1:])
	}
	g := []string{"", p, p, p + " ", " " + p, p + p, string(rs[:len(rs)-1]), string(rs[1:]), p + "x", p + "*", strings.ToUpper(p), strings.ToLower(p),
		strings.TrimSpace(p), strings.ReplaceAll(p, " ", ""), strings.Join(strings.Fields(p), " "), flip(), repl(), swap(), drop(), pwPool[r.Intn(len(pwPool))],
		strings.ReplaceAll(p, "ä", "a\u0308"), strings.ReplaceAll(p, "e\u0301", "é"), p + "\t", string([]rune(p + "  ")[:len(rs)+1]),
		p + "\u00a0", "\ufeff" + p, p + "\u200b", strings.ReplaceAll(strings.ReplaceAll(p, "ﬁ", "fi"), "\u212a", "K"), p[:len(p)-len(string(rs[len(rs)-1]))] + "\ufffd",
		p + "\x01", "\x7f" + p, strings.Repeat(p, 3), p + ";", p + "#x", "'" + p + "'", "\"" + p + "\""}
	for _, n := range []int{8, 16, 20, 24, 32, 50, 56, 63, 64, 72, 100} {
		if len(p) > n {
			g = append(g, p[:n])
		}
	}
	return g
}

func runC02(c *Ctx) {
	c.B.get("driver")
	c.B.get("app")
	c.B.get("gui")
	hidden := func(d *driver, v *Vault, who string) string {
		if q := d.call(map[string]any{"op": "isunlocked"}); q.Bool {
			return who + ": the vault counts as unlocked"
		}
		for _, tr := range []bool{false, true} {
			if q := d.call(map[string]any{"op": "list", "trashed": tr}); len(q.Items) > 0 {
				return who + ": items are listed"
			}
			if q := d.call(map[string]any{"op": "count", "trashed": tr}); q.Count != 0 {
				return who + ": items are counted"
			}
			for _, it := range v.Items {
				if q := d.call(map[string]any{"op": "get", "uid": it.UID, "trashed": tr}); !q.Nil {
					return who + ": an item is handed out"
				}
			}
		}
		return ""
	}
	c.each("facade", 0, c.n(500, 6000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		p := pwPool[i%len(pwPool)]
		if r.Intn(3) == 0 {
			p += fmt.Sprint(r.Intn(1000))
		}
		iter := 1 + r.Intn(300)
		switch {
		case r.Intn(25) == 0:
			iter = 20000 + r.Intn(30000)
		case r.Intn(40) == 0:
			iter = []int{100000, 100001, 131072, 150000, 250000}[r.Intn(5)]
		case r.Intn(30) == 0:
			iter = []int{999, 1000, 1001, 1024, 4096, 10000, 10001}[r.Intn(7)]
		}
		v := genVault(r, p, iter, genOpts{items: 1 + r.Intn(4), trashRate: 30, noUnknown: true})
		foreign := ""
		switch r.Intn(6) { // key material that does not belong to the password
		case 0, 1:
			other := newVault(r, p+"'", iter)
			other.Salt = v.Salt
			dk, dm := derive(p+"'", v.Salt, iter)
			blob := b64(opdata(r, rbytes(r, 256), dk, dm))
			hurt := func(s string) string {
				b := unb64(s)
				b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
				return b64(b)
			}
			switch r.Intn(7) {
			case 3:
				v.Iter, foreign = v.Iter+1, "iterations + 1"
			case 4:
				v.MasterKey, foreign = hurt(v.MasterKey), "master key altered"
			case 5:
				v.OverKey, foreign = hurt(v.OverKey), "overview key altered"
			case 6:
				v.Salt, foreign = append(append([]byte{}, v.Salt...), 1), "salt one byte longer"
			case 0:
				v.MasterKey, foreign = blob, "master key"
			case 1:
				v.OverKey, foreign = blob, "overview key"
			case 2:
				v.Salt, foreign = rbytes(r, 16), "salt"
			}
		}
		v.write(r, w.vault)
		w.own()
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		d.call(map[string]any{"op": "new", "path": w.cfg})
		if q := d.call(map[string]any{"op": "validate", "path": w.vault}); q.Err != "" || d.bad(q) != "" {
			c.violation(i, "a valid vault is refused: "+q.Err+d.bad(q), nil)
			return
		}
		gs := nearMisses(r, p)
		r.Shuffle(len(gs), func(a, b int) { gs[a], gs[b] = gs[b], gs[a] })
		if iter > 60000 {
			gs = append([]string{p}, gs[:2]...)
		} else if iter > 1000 {
			gs = append([]string{p}, gs[:6]...)
		}
		for k, g := range gs {
			q := d.call(map[string]any{"op": "unlock", "path": w.vault, "password": g})
			wit := map[string]any{"password": p, "guess": g, "iterations": iter, "foreign": foreign, "attempts before": k, "answer": q}
			if b := d.bad(q); b != "" {
				c.violation(i, "unlock crashes: "+b, wit)
				return
			}
			want := g == p && foreign == ""
			if want != (q.Err == "") {
				c.violation(i, fmt.Sprintf("guess %q for password %q (foreign key material: %q): answer %q", g, p, foreign, q.Err), wit)
				return
			}
			if !want {
				if q.Err != "invalid password" {
					c.violation(i, fmt.Sprintf("wrong password is answered with %q", q.Err), wit)
					return
				}
				if s := hidden(d, v, "after a wrong password"); s != "" {
					c.violation(i, s, wit)
					return
				}
				c.count("rejected guesses (facade)", 1)
			} else {
				msg, it, n := compareAll(d, v)
				if msg != "" {
					c.violation(i, "after the right password: "+msg, itemWitness(it))
					return
				}
				c.count("items seen after the right password", n)
				if r.Intn(2) == 0 { // an open vault still asks for the right one
					for _, g2 := range []string{gs[r.Intn(len(gs))], p} {
						q := d.call(map[string]any{"op": "unlock", "path": w.vault, "password": g2})
						if b := d.bad(q); b != "" || (q.Err == "") != (g2 == p) {
							c.violation(i, fmt.Sprintf("guess %q for password %q while the vault is open: answer %q %s", g2, p, q.Err, b), wit)
							return
						}
						c.count("guesses while the vault is open", 1)
					}
					if msg, it, _ := compareAll(d, v); msg != "" {
						c.violation(i, "after the right password twice: "+msg, itemWitness(it))
						return
					}
				}
				d.call(map[string]any{"op": "lock"})
				if s := hidden(d, v, "after a lock"); s != "" {
					c.violation(i, s, wit)
					return
				}
			}
			c.eval(p + "\x00" + g + "\x00f" + foreign)
			if k == 0 {
				c.sample(map[string]any{"password": p, "guess": g, "unlocks": want, "foreign": foreign})
			}
		}
	})
	c.each("cli", 100000, c.n(120, 1500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		p := pwPool[i%len(pwPool)]
		v := genVault(r, p, 1+r.Intn(50), genOpts{items: 2, noUnknown: true, plainSecrets: true, uniqueTitles: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		gs := nearMisses(r, p)
		g := gs[r.Intn(len(gs))]
		if i%3 == 0 {
			g = p
		} else if i%7 == 0 { // bytes that are no text at all
			g = []string{p + "\xff", "\xfe" + p, p[:len(p)-1] + string(p[len(p)-1]|0x80), p + "\xc3"}[r.Intn(4)]
		}
		if strings.ContainsAny(g, "\n\r\x00\x03\x04\x11\x12\x13\x15\x16\x17\x1a\x1c\x7f") { // keys the terminal keeps for itself
			g = p + "y"
		}
		args := [][]string{{"list"}, {"overview", v.Items[0].UID}, {"details", v.Items[0].UID}}[r.Intn(3)]
		o := w.opts(args...)
		o.steps = []step{pw(g)}
		res := c.run(o)
		wit := map[string]any{"password": p, "guess": g, "args": args, "run": res.brief()}
		after := afterPrompt(res.Out)
		if g == p {
			if res.Code != 0 || !strings.Contains(after, v.Items[0].Title) || strings.Contains(after, "invalid password") {
				c.violation(i, "the right password is not accepted on the command line", wit)
				return
			}
		} else {
			if res.Code == 0 || res.crashed() || res.Timeout || strings.TrimSpace(after) != "invalid password" {
				c.violation(i, fmt.Sprintf("wrong password %q for %q on the command line: status %d, output %q", g, p, res.Code, after), wit)
				return
			}
			c.count("rejected guesses (command line)", 1)
		}
		c.eval(p + "\x00" + g + "\x00c" + args[0])
	})
	c.each("gui", 200000, c.n(60, 600), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		p := []string{"freddy", "A b C", " lead", "trail ", "two  gaps", "пароль", "p", "Zażółć", "%s", "***", "x'y\"z\\", " ", "   a   ", "pa ss"}[i%14]
		v := genVault(r, p, 3, genOpts{items: 3, noUnknown: true, narrow: true, uniqueTitles: true})
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		g := c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", 80, 24, nil)
		defer g.kill()
		m := newModel(v)
		if f := g.first(); f == nil {
			c.violation(i, "no first screen", g.witness(nil))
			return
		}
		gs := nearMisses(r, p)
		for k := 0; k < 8; k++ {
			guess := gs[r.Intn(len(gs))]
			if strings.ContainsAny(guess, "\t\u200b\ufeff\x01\x7f") || len([]rune(guess)) > 40 {
				continue
			}
			if k == 7 {
				guess = p
			}
			ks := keys(guess)
			if r.Intn(3) == 0 { // corrected typing
				ks = append(append(keys("zq"), gkey{Key: kBack}, gkey{Key: kBack}), ks...)
			}
			for _, x := range append(ks, gkey{Key: kEnter}) {
				m.key(x)
				f := g.press(x)
				if f == nil {
					c.violation(i, "no screen after "+x.String(), g.witness(nil))
					return
				}
				if s := m.check(f); s != "" {
					c.violation(i, fmt.Sprintf("GUI, password %q, guess %q: %s", p, guess, s), g.witness(nil))
					return
				}
			}
			if (m.state == gsCats) != (guess == p) {
				infra("model")
			}
			c.eval(p + "\x00" + guess + "\x00g")
			c.count("GUI attempts", 1)
			back := gkey{Key: kEnter}
			if m.state == gsCats {
				back = gkey{Key: kCtrlL}
			}
			m.key(back)
			if f := g.press(back); f == nil || m.check(f) != "" {
				c.violation(i, "the prompt does not come back", g.witness(nil))
				return
			}
		}
	})
}
