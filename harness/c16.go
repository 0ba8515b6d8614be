package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

func init() {
	checks["C16"] = check{
		level: "runtime monitoring of update checks against a reference version order, over generated release tags and several running versions",
		rule:  "a case is one update check by a program of one version against one published tag; distinct = distinct (running version, tag, way of asking)",
		run:   runC16,
	}
}

// refNewer is the reference: nil if the tag is not a numeric version.
func refNewer(tag, cur string) bool {
	p := func(s string) []*big.Int {
		s = strings.TrimPrefix(s, "v")
		var o []*big.Int
		for _, x := range strings.Split(s, ".") {
			if x == "" {
				return nil
			}
			for _, c := range x {
				if c < '0' || c > '9' {
					return nil
				}
			}
			n, _ := new(big.Int).SetString(x, 10)
			o = append(o, n)
		}
		return o
	}
	a, b := p(tag), p(cur)
	if a == nil {
		return false
	}
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := new(big.Int), new(big.Int)
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if d := x.Cmp(y); d != 0 {
			return d > 0
		}
	}
	return false
}

func randTag(r *rand.Rand, cur string) string {
	if r.Intn(5) == 0 {
		return []string{"", "latest", "v", "1.", ".1", "1..2", ".", "..", "release-99.0", "99.0.0-beta", "99.0rc1", "99-1", "nightly", "vv99.0", "V99.0", "99.0.0+build", "+99.0", "-99.0", "99,0", "９９.0", "0x99", "1e9", "99 .0",
			" 99.0", "99.0 ", "99.0\n", "v 99.0", "99_0", "99.x", "x.99", "99.0.-1", "null", "99.0.0a", "a.b.c", "1.3.2b", "v1.3.x", "99.0.0.", "99.0/1", "٩٩", "99.0\x00"}[r.Intn(40)]
	}
	parts := []uint64{}
	for _, x := range strings.Split(cur, ".") {
		var n uint64
		fmt.Sscan(x, &n)
		parts = append(parts, n)
	}
	switch r.Intn(5) {
	case 0: // unrelated
		parts = nil
		for k := 1 + r.Intn(5); k > 0; k-- {
			parts = append(parts, []uint64{0, 0, 1, 2, 9, 10, 11, 99, 100, 1000000, 4294967296, 20240101}[r.Intn(12)])
		}
	case 1, 2: // change one or two components
		for k := 1 + r.Intn(2); k > 0; k-- {
			i := r.Intn(len(parts))
			switch r.Intn(6) {
			case 0:
				parts[i]++
			case 1:
				if parts[i] > 0 {
					parts[i]--
				}
			case 2:
				parts[i] += 9
			case 3:
				parts[i] *= 10
			case 4:
				parts[i] = uint64(r.Intn(20))
			case 5:
				parts[i] = parts[i]*10 + uint64(r.Intn(10))
			}
		}
	}
	if r.Intn(4) == 0 { // more or fewer components
		if r.Intn(2) == 0 {
			parts = append(parts, []uint64{0, 0, 1, 10}[r.Intn(4)])
		} else if len(parts) > 1 {
			parts = parts[:len(parts)-1]
		}
	}
	if r.Intn(10) == 0 { // far more components
		for k := r.Intn(6); k > 0; k-- {
			parts = append(parts, 0)
		}
		parts = append(parts, []uint64{0, 1, 7}[r.Intn(3)])
	}
	if r.Intn(6) == 0 { // moving digits over the dots
		a := r.Intn(len(parts))
		parts[a] = parts[a] * 100
	}
	var s []string
	for _, n := range parts {
		x := fmt.Sprint(n)
		if r.Intn(15) == 0 {
			x = "0" + x
		}
		s = append(s, x)
	}
	t := strings.Join(s, ".")
	if r.Intn(3) == 0 {
		t = "v" + t
	}
	return t
}

func runC16(c *Ctx) {
	c.B.get("app")
	c.B.get("driver")
	c.B.get("gui")
	base := c.version()
	vers := []string{base}
	for _, v := range []string{"2.10.0", "1.9.9", "10.0.0", "0.9", "3"} {
		if c.B.variant("driver", v) != "" {
			vers = append(vers, v)
		}
	}
	c.count("running versions", len(vers))
	c.each("driver", 0, c.n(120, 1200), 0, func(i int, r *rand.Rand) {
		cur := vers[i%len(vers)]
		w := c.world("vault")
		defer w.done()
		w.config("timeout: 20\n")
		w.own()
		tag := ""
		var first rel
		var rest []rel
		h := c.hub(func(reqRec, int) reply { return reply{body: relJSON(append([]rel{first}, rest...)...)} })
		defer h.close()
		o := runOpts{home: w.home, allow: []string{w.dir}, dial: h.dial(), env: c.tlsEnv()}
		if cur != base {
			o.bin = c.B.variant("driver", cur)
		}
		d := c.driver(o)
		defer d.close()
		d.call(map[string]any{"op": "new", "path": w.cfg})
		for k := 0; k < 25; k++ {
			tag, rest = randTag(r, cur), nil
			first = variedRel(r, tag)
			second := ""
			for k := r.Intn(5); k > 0; k-- {
				o := []string{"0.0.1", "99.0.0", cur, "v100.1", "not a version", randTag(r, cur)}[r.Intn(6)]
				x := newRel(o)
				switch r.Intn(4) {
				case 0:
					x.Assets = x.Assets[:r.Intn(2)]
				case 1:
					for e := r.Intn(6); e > 0; e-- {
						x.Assets = append(x.Assets, rasset{fmt.Sprintf("extra%d.tar.gz", e), dlBase + o + fmt.Sprintf("/extra%d.tar.gz", e)})
					}
				}
				rest = append(rest, x)
				second += o + " "
			}
			if r.Intn(8) == 0 {
				rest = append(rest, olderRels(r)...)
			}
			want := refNewer(tag, cur)
			q := d.call(map[string]any{"op": "check", "force": true})
			wit := map[string]any{"running": cur, "published": tag, "further releases": second, "error": q.Err, "offer": q.Info}
			switch {
			case d.bad(q) != "":
				c.violation(i, "the check crashed: "+d.bad(q), wit)
				return
			case want != (q.Info != nil):
				c.violation(i, fmt.Sprintf("release %q is offered=%v to version %s (%s)", tag, q.Info != nil, cur, q.Err), wit)
				return
			case want && q.Info.Version != tag:
				c.violation(i, fmt.Sprintf("release %q is offered as %q", tag, q.Info.Version), wit)
				return
			case !want && q.Err != "up to date":
				c.violation(i, fmt.Sprintf("release %q gives %q instead of 'up to date'", tag, q.Err), wit)
				return
			}
			c.count(fmt.Sprintf("offered=%v", want), 1)
			c.eval("d" + cur + "|" + tag)
			if k == 0 && i%40 == 0 {
				c.sample(wit)
			}
		}
	})
	c.each("cli", 100000, c.n(200, 2500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		tag := randTag(r, base)
		want := refNewer(tag, base)
		body := relJSON(variedRel(r, tag), newRel("0.0.1"))
		h := c.hub(func(reqRec, int) reply { return reply{body: body} })
		defer h.close()
		bad := ""
		var wit map[string]any
		switch i % 3 {
		case 0, 1:
			w.config("timeout: 20\nupdate-period: 0\n")
			w.own()
			cmd := []string{"categories", "update"}[i%3]
			o := w.opts(cmd)
			o.pipe, o.dial, o.env = true, h.dial(), c.tlsEnv()
			o.steps = []step{{send: "n\n"}}
			res := c.run(o)
			got := strings.Contains(res.Out, "New version of 1pass is available")
			text := noticeFor(base, tag)
			if cmd == "update" {
				text = fmt.Sprintf("New version of 1pass is available (%s)", tag)
				if got != strings.Contains(res.Out, "Do you want to update now?") {
					bad = "the question and the announcement disagree"
				}
				if !want && !strings.Contains(res.Out, "up to date") {
					bad = "'up to date' is not said"
				}
			}
			wit = map[string]any{"published": tag, "run": res.brief()}
			if got != want {
				bad = fmt.Sprintf("%s: release %q announced=%v to version %s", cmd, tag, got, base)
			} else if want && !strings.Contains(res.Out, text) {
				bad = fmt.Sprintf("%s: release %q is announced under another version", cmd, tag)
			} else if res.crashed() || res.Timeout {
				bad = "crashed"
			}
		case 2:
			v := genVault(r, "pw", 2, genOpts{items: 1, noUnknown: true})
			v.write(r, w.vault)
			w.config("opvault: " + yq(w.vault) + "\ntimeout: 20\n")
			w.own()
			g := c.guiStart(runOpts{home: w.home, allow: []string{w.dir}, dial: h.dial(), env: c.tlsEnv()}, "gui", 160, 24, nil)
			defer g.kill()
			line := g.outcome(40)
			wit = g.witness(map[string]any{"published": tag, "version line": line})
			if got := strings.Contains(line, "new version is available"); got != want {
				bad = fmt.Sprintf("GUI: release %q announced=%v to version %s", tag, got, base)
			} else if want && !strings.Contains(line, ": v"+tag+" ") && !strings.Contains(line, ": "+tag+" ") {
				bad = fmt.Sprintf("GUI: release %q is announced under another version", tag)
			} else if !want && !strings.Contains(line, "up to date") {
				bad = "GUI: 'up to date' is not shown"
			}
		}
		if bad != "" {
			c.violation(i, bad, wit)
			return
		}
		c.count("asked on the command line or GUI", 1)
		c.eval(fmt.Sprint(i%3) + "|" + tag)
	})
}
