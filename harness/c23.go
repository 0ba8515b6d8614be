package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C23"] = check{
		level: "runtime monitoring of randomised GUI sessions with resizes against an online state-machine monitor",
		rule:  "a case is one GUI session (random vault, key sequence and sequence of terminal sizes from 1x1 up); every frame drawn with room for all parts is compared with the state machine of C18; distinct = distinct (vault shape, step sequence) sessions",
		run:   runC23,
	}
}

// fits says whether a screen of this size shows every frame in full.
func fits(w, h int) bool { return w >= 64 && h >= 13 }

func anySize(r *rand.Rand) (int, int) {
	tiny := func() int { return 1 + r.Intn(14) }
	switch r.Intn(8) {
	case 0:
		return tiny(), tiny()
	case 1:
		return tiny(), 13 + r.Intn(40)
	case 2:
		return 64 + r.Intn(100), tiny()
	case 3:
		return 1 + r.Intn(70), 1 + r.Intn(30)
	}
	return randSize(r)
}

func runC23(c *Ctx) {
	c.B.get("gui")
	c.each("resize", 0, c.n(220, 3000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := randGuiVault(r, 60)
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		cols, rows := anySize(r)
		s := &guiSession{w: w, v: v, m: newModel(v)}
		s.g = c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", cols, rows, nil)
		defer s.g.kill()
		var trace []string
		full, small, resizes := 0, 0, 0
		bad := func(what string) {
			c.violation(i, what, s.g.witness(map[string]any{"state": s.m.state.String(), "categories": labels(s.m), "steps": trace}))
		}
		look := func(f *frame, after string) bool {
			trace = append(trace, after)
			if f == nil {
				bad(fmt.Sprintf("no screen after %s on a terminal of %dx%d", after, cols, rows))
				return false
			}
			if f.w != cols || f.h != rows {
				bad(fmt.Sprintf("the screen is %dx%d on a terminal of %dx%d", f.w, f.h, cols, rows))
				return false
			}
			if !fits(cols, rows) {
				small++
				if (s.m.state == gsPrompt || s.m.state == gsError) && len(s.m.typed) == 0 {
					t := f.text()
					for _, it := range v.Items {
						if len(it.Title) > 7 && strings.Contains(t, it.Title) {
							bad(fmt.Sprintf("the locked screen of %dx%d shows %q", cols, rows, it.Title))
							return false
						}
					}
				}
				return true
			}
			full++
			if x := s.m.check(f); x != "" {
				bad(fmt.Sprintf("after %s on a terminal of %dx%d: %s", after, cols, rows, x))
				return false
			}
			return true
		}
		if !look(s.g.first(), "the start") {
			return
		}
		for n := 0; n < 40+r.Intn(120); n++ {
			if r.Intn(7) == 0 {
				cols, rows = anySize(r)
				resizes++
				if !look(s.g.resize(cols, rows), fmt.Sprintf("a resize to %dx%d", cols, rows)) {
					return
				}
				continue
			}
			k := s.m.randKey(r)
			s.m.key(k)
			if !look(s.g.press(k), k.String()) {
				return
			}
		}
		cols, rows = randSize(r)
		if !look(s.g.resize(cols, rows), fmt.Sprintf("a resize to %dx%d", cols, rows)) {
			return
		}
		if r.Intn(2) == 0 {
			cols, rows = anySize(r)
			if !look(s.g.resize(cols, rows), fmt.Sprintf("a resize to %dx%d", cols, rows)) {
				return
			}
		}
		if !s.g.quit() {
			bad(fmt.Sprintf("Ctrl+Q does not end the program on a terminal of %dx%d", cols, rows))
			return
		} else if s.g.code != 0 || s.g.killed || !s.g.closed {
			bad(fmt.Sprintf("Ctrl+Q on a terminal of %dx%d ends with status %d (terminal given back: %v)", cols, rows, s.g.code, s.g.closed))
			return
		}
		c.count("resizes", resizes)
		c.count("screens compared with the model", full)
		c.count("screens on terminals without room for all frames", small)
		c.count("keys", s.g.seq)
		c.eval(fmt.Sprintf("%s %s", vaultSig(v), strings.Join(trace, " ")))
		c.sample(map[string]any{"items": len(v.Items), "steps": firstN(strings.Join(trace, " "), 500)})
	})
}
