package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"
)

func init() {
	checks["C18"] = check{
		level: "runtime monitoring of randomised GUI sessions against an online state-machine monitor",
		rule:  "a case is one GUI session (random vault, terminal size and key sequence, some keys delivered in bursts before a redraw); every frame drawn is compared with the state machine; distinct = distinct (vault shape, size, key sequence) sessions",
		run:   runC18,
	}
}

type guiSession struct {
	w       *world
	v       *Vault
	g       *gui
	m       *model
	scriptd bool
}

// randGuiVault never gives two items one title: their order would be arbitrary.
func randGuiVault(r *rand.Rand, max int) *Vault {
	return randGuiVaultOf(r, max, false)
}

// randGuiVaultOf allows equal titles if dup; only for checks that leave their order open.
func randGuiVaultOf(r *rand.Rand, max int, dup bool) *Vault {
	o := genOpts{narrow: true, screen: dup && r.Intn(2) == 0, uniqueTitles: true, dupTitles: dup, noUnknown: r.Intn(3) != 0, longLists: r.Intn(2) == 0}
	switch r.Intn(8) {
	case 0:
		o.items = r.Intn(2)
	case 1:
		o.items = 1 + r.Intn(4)
	default:
		o.items = 1 + r.Intn(max)
	}
	switch r.Intn(5) {
	case 0:
		o.trashRate = 0
	case 1:
		o.allTrashed = true
	default:
		o.trashRate = 10 + r.Intn(60)
	}
	if r.Intn(4) == 0 {
		o.cats = []string{catCodes[r.Intn(len(catCodes))]}
	}
	if r.Intn(30) == 0 && max >= 50 { // counts of three digits
		o.items = 100 + r.Intn(150)
		if r.Intn(2) == 0 {
			o.cats = []string{catCodes[r.Intn(len(catCodes))]}
		}
	}
	pass := []string{"pass", "A b", "zażółć", "x", " lead", "trail ", "two  gaps", "p*ss*"}[r.Intn(8)]
	v := genVault(r, pass, 5, o)
	if r.Intn(4) == 0 && len(v.Items) > 0 { // one untitled item
		it := v.Items[0]
		it.Title, it.Url = "", ""
		it.Overview = omap{{"ainfo", "x"}}
		v.seal(r, it)
	}
	return v
}

func randSize(r *rand.Rand) (int, int) {
	switch r.Intn(4) {
	case 0:
		return 70 + r.Intn(5), 12 + r.Intn(4)
	case 1:
		return 80, 24
	}
	return 70 + r.Intn(130), 12 + r.Intn(48)
}

// drive plays n random keys and checks every settled screen; "" if all agreed.
func (s *guiSession) drive(r *rand.Rand, n int, batches bool) string {
	for i := 0; i < n; i++ {
		if batches && r.Intn(6) == 0 {
			var ks []gkey
			for len(ks) < 2+r.Intn(12) {
				k := s.m.randKey(r)
				if k.Key == kBack && k.Ch == 0 || k.Key == kCtrlQ {
					break
				}
				s.m.key(k)
				ks = append(ks, k)
			}
			if len(ks) == 0 {
				continue
			}
			f := s.g.batch(ks)
			if f == nil {
				return fmt.Sprintf("no screen after the burst %v (state %v)", keyStrings(ks), s.m.state)
			}
			if x := s.m.check(f); x != "" {
				return fmt.Sprintf("after the burst %v: %s", keyStrings(ks), x)
			}
			continue
		}
		k := s.m.randKey(r)
		before := s.m.state
		s.m.key(k)
		f := s.g.press(k)
		if f == nil {
			return fmt.Sprintf("no screen after %v in state %v", k, before)
		}
		if x := s.m.check(f); x != "" {
			return fmt.Sprintf("after %v in state %v: %s", k, before, x)
		}
	}
	return ""
}

func runC18(c *Ctx) {
	c.B.get("gui")
	c.B.get("app")
	c.each("keys", 0, c.n(420, 6000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := randGuiVaultOf(r, 50, r.Intn(2) == 0)
		v.write(r, w.vault)
		args := []string{}
		if r.Intn(2) == 0 {
			w.quiet(w.vault)
		} else {
			w.quiet("/nonexistent")
			args = []string{"-v", w.vault}
		}
		w.own()
		cols, rows := randSize(r)
		s := &guiSession{w: w, v: v, m: newModel(v)}
		s.g = c.guiStart(runOpts{home: w.home, args: args, allow: []string{w.dir}}, "gui", cols, rows, nil)
		defer s.g.kill()
		f := s.g.first()
		if f == nil {
			c.violation(i, "the GUI shows no screen", s.g.witness(nil))
			return
		}
		msg := s.m.check(f)
		if msg == "" {
			msg = s.drive(r, 40+r.Intn(160), true)
		}
		if msg == "" {
			if !s.g.quit() {
				msg = "Ctrl+Q does not end the program in state " + s.m.state.String()
			} else if s.g.code != 0 || s.g.killed || !s.g.closed {
				msg = fmt.Sprintf("Ctrl+Q in state %v ends with status %d (terminal given back: %v)", s.m.state, s.g.code, s.g.closed)
			}
			c.count("quits from "+s.m.state.String(), 1)
		}
		if msg != "" {
			c.violation(i, msg, s.g.witness(map[string]any{"state": s.m.state.String(), "categories": labels(s.m)}))
			return
		}
		c.mu.Lock()
		for k, n := range s.m.states {
			c.counts["screens checked in "+k] += n
		}
		c.counts["frames"] += s.g.nframes
		c.counts["unlocks"] += s.m.unlocks
		c.counts["locks"] += s.m.locks
		c.counts["reveals"] += s.m.reveals
		c.counts["keys"] += s.g.seq
		c.mu.Unlock()
		sig := fmt.Sprintf("%d-%dx%d-%s", len(v.Items), cols, rows, strings.Join(keyStrings(s.g.log), ""))
		c.eval(sig)
		c.sample(map[string]any{"items": len(v.Items), "size": fmt.Sprintf("%dx%d", cols, rows), "keys": firstN(strings.Join(keyStrings(s.g.log), " "), 400), "states": s.m.states})
	})
	// every line of a revealed (and of a covered) item can be brought into view
	c.each("scroll", 200000, c.n(40, 600), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		o := genOpts{narrow: true, screen: r.Intn(2) == 0, uniqueTitles: true, noUnknown: true, longLists: true, items: 1 + r.Intn(3)}
		v := genVault(r, "pass", 5, o)
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		cols, rows := randSize(r)
		s := &guiSession{w: w, v: v, m: newModel(v)}
		s.g = c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", cols, rows, nil)
		defer s.g.kill()
		if s.g.first() == nil {
			c.violation(i, "the GUI shows no screen", s.g.witness(nil))
			return
		}
		var f *frame
		play := func(ks ...gkey) string {
			for _, k := range ks {
				s.m.key(k)
				if f = s.g.press(k); f == nil {
					return fmt.Sprintf("no screen after %v", k)
				}
				if x := s.m.check(f); x != "" {
					return fmt.Sprintf("after %v: %s", k, x)
				}
			}
			return ""
		}
		msg := play(append(keys("pass"), gkey{Key: kEnter}, gkey{Key: kEnter})...)
		for n := 0; n < len(s.m.items()) && msg == ""; n++ {
			if msg = play(gkey{Key: kTab}); msg != "" {
				break
			}
			it := s.m.item()
			b := f.box("Details")
			left := map[string]bool{}
			for _, l := range it.view(false) {
				left[strings.TrimSpace(clip(l, 0, b.x1-b.x0-1))] = true
			}
			look := func() {
				for _, l := range f.inner(f.box("Details")) {
					delete(left, strings.TrimSpace(l))
				}
			}
			look()
			downs := 0
			for len(left) > 0 && downs < 250 && msg == "" {
				msg = play([]gkey{ch('j'), {Key: kDown}}[r.Intn(2)])
				downs++
				look()
			}
			if msg == "" && len(left) > 0 {
				msg = fmt.Sprintf("scrolling down never shows %q", keysOf(left)[0])
			}
			for k := 0; k < downs && msg == ""; k++ {
				msg = play([]gkey{ch('k'), {Key: kUp}}[r.Intn(2)])
			}
			if msg == "" {
				c.count("items read to the end by scrolling", 1)
				c.count("scroll steps", 2*downs)
				c.eval(fmt.Sprintf("scroll%s%d %d", it.UID, cols, rows))
				msg = play(gkey{Key: kTab}, ch('j'))
			}
		}
		if msg != "" {
			c.violation(i, msg, s.g.witness(map[string]any{"state": s.m.state.String()}))
		}
	})
	// the real terminal library on a pseudo terminal
	c.each("pty", 100000, c.n(8, 40), 8, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := randGuiVault(r, 10)
		v.Password = "ptypass"
		o := genOpts{narrow: true, uniqueTitles: true, items: 4, trashRate: 30, noUnknown: true}
		v = genVault(r, "ptypass", 5, o)
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		opt := w.opts()
		opt.w, opt.h = 90, 30
		deep := r.Intn(5)
		ks := []string{"\r", "\t", "j", "\t", "\x0c"}[:deep]
		opt.steps = []step{{expect: "Password", send: "ptypass\r"}}
		for _, k := range ks {
			opt.steps = append(opt.steps, step{send: k})
		}
		opt.steps = append(opt.steps, step{send: "\x11"})
		res := c.run(opt)
		if res.Timeout || res.Code != 0 || res.crashed() {
			c.violation(i, "a GUI session on a real terminal does not end cleanly with Ctrl+Q", res.brief())
			return
		}
		c.count("real terminal sessions", 1)
		c.eval(fmt.Sprintf("pty%d", deep))
		_ = time.Now
	})
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func labels(m *model) []string {
	var out []string
	for _, e := range m.cats {
		out = append(out, e.label)
	}
	return out
}
