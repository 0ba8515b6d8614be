package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

func init() {
	checks["C19"] = check{
		level: "Go race detector on GUI sessions and command runs with the background check's reply released at chosen and random moments, plus a monitor of the version line",
		rule:  "a case is one session of the race-instrumented program (vault, keys, reply kind, moment of the reply, moment of quitting); distinct = distinct (reply kind, release moment, quit moment, key sequence)",
		run:   runC19,
	}
}

const raceEnv = "GORACE=halt_on_error=0 exitcode=66 history_size=3 atexit_sleep_ms=60"

func runC19(c *Ctx) {
	c.B.get("race")
	type kind struct {
		name, want string
		r          reply
		raw        string
	}
	kinds := []kind{
		{"newer", "new version is available", reply{body: relJSON(newRel("99.0.0"))}, ""},
		{"same", "up to date", reply{body: relJSON(newRel("0.0.1"))}, ""},
		{"none", "up to date", reply{body: []byte("[]")}, ""},
		{"garbage", "update check failed", reply{body: []byte("{")}, ""},
		{"reset", "update check failed", reply{mode: "reset"}, ""},
		{"refused", "update check failed", reply{}, "refuse"},
		{"stalls", "update check failed", reply{mode: "stallhead"}, ""},
	}
	const raced = "DATA RACE"
	c.each("gui", 0, c.n(420, 5000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: r.Intn(25), noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 25})
		v.write(r, w.vault)
		k := kinds[i%len(kinds)]
		timeout := 30
		if k.name == "stalls" {
			timeout = 1
		}
		w.config(fmt.Sprintf("opvault: %s\ntimeout: %d\n", yq(w.vault), timeout))
		w.own()
		gate := make(chan struct{})
		rp := k.r
		if k.raw == "" && k.name != "stalls" {
			rp.gate = gate
		}
		h := c.hub(func(reqRec, int) reply { return rp })
		defer h.close()
		dial := h.dial()
		if k.raw == "refuse" {
			dial = "*=refuse"
		}
		s := &guiSession{w: w, v: v, m: newModel(v)}
		over := ""
		began := running()
		nver := 0
		s.g = c.guiStart(runOpts{home: w.home, bare: true, dial: dial, env: append(c.tlsEnv(), raceEnv)}, "race", 120+r.Intn(60), 14+r.Intn(30), func(f *frame) {
			l := f.verLine()
			if n := outcomes(l); n > 1 {
				over = l
			} else if n == 1 {
				nver++
			}
		})
		defer s.g.kill()
		release := -1 // number of keys before the reply; -1 at once, -2 at the same time as everything, -3 never
		total := 6 + r.Intn(30)
		switch r.Intn(6) {
		case 0:
			release = -1
		case 1:
			release = -2
		case 2:
			release = -3
		default:
			release = r.Intn(total)
		}
		quitAt := total
		if r.Intn(3) == 0 {
			quitAt = r.Intn(total)
		}
		released := false
		open := func() {
			if !released {
				released = true
				close(gate)
			}
		}
		wit := func() map[string]any {
			return s.g.witness(map[string]any{"reply": k.name, "released after keys": release, "quit after keys": quitAt})
		}
		fail := func(what string) { c.violation(i, what, wit()) }
		check := func() bool {
			if e := s.g.stderr(); strings.Contains(e, raced) {
				fail("the race detector reports: " + firstN(e[strings.Index(e, raced):], 900))
				return false
			}
			if over != "" {
				fail("the version line shows the outcome more than once: " + over)
				return false
			}
			return true
		}
		if release == -1 {
			open()
		}
		if s.g.first() == nil {
			if check() {
				fail("no first screen")
			}
			return
		}
		if release == -2 {
			d := time.Duration(r.Intn(60)) * time.Millisecond
			go func() { time.Sleep(d); close(gate) }()
			released = true
		}
		script := append(keys("pw"), gkey{Key: kEnter})
		if r.Intn(5) == 0 {
			script = append(keys("no"), gkey{Key: kEnter}, gkey{Key: kEnter})
			script = append(script, append(keys("pw"), gkey{Key: kEnter})...)
		}
		n := 0
		quit := false
		for n < total && !quit {
			if n == release {
				open()
			}
			if n >= quitAt {
				quit = true
				break
			}
			burst := 1
			if r.Intn(3) == 0 {
				burst = 1 + r.Intn(5)
			}
			var ks []gkey
			for b := 0; b < burst; b++ {
				var key gkey
				if len(script) > 0 {
					key, script = script[0], script[1:]
				} else {
					key = s.m.randKey(r)
				}
				if key.Key == kCtrlQ && key.Ch == 0 || burst > 1 && key.Key == kBack && key.Ch == 0 {
					continue
				}
				s.m.key(key)
				ks = append(ks, key)
				n++
				if n == release {
					break
				}
			}
			if len(ks) == 0 {
				continue
			}
			f := s.g.batch(ks)
			if f == nil {
				if check() {
					fail(fmt.Sprintf("no screen after %v", keyStrings(ks)))
				}
				return
			}
			if x := s.m.check(f); x != "" {
				if check() {
					fail(fmt.Sprintf("after %v: %s", keyStrings(ks), x))
				}
				return
			}
		}
		if !quit && release != -3 {
			open()
			f := s.g.wait(40*time.Second, func(f *frame) bool { return outcomes(f.verLine()) > 0 })
			if f == nil {
				if check() {
					fail("the outcome of the check is never shown")
				}
				return
			}
			if running()-began > 15*time.Second && k.name != "stalls" {
				return // too slow a machine to tell which outcome is due
			}
			if !strings.Contains(f.verLine(), k.want) || k.name == "newer" && !strings.Contains(f.verLine(), "99.0.0") {
				fail("the version line shows another outcome: " + f.verLine())
				return
			}
			c.count("outcomes shown", 1)
			for j := 0; j < 4; j++ { // and stays, also after further redraws
				key := s.m.randKey(r)
				if key.Key == kCtrlQ && key.Ch == 0 {
					continue
				}
				s.m.key(key)
				f := s.g.press(key)
				if f == nil || outcomes(f.verLine()) != 1 || !strings.Contains(f.verLine(), k.want) {
					if check() {
						fail("the outcome does not stay on the version line")
					}
					return
				}
			}
		}
		if !s.g.quit() {
			fail("Ctrl+Q does not end the program")
			return
		}
		if !released && r.Intn(2) == 0 {
			open()
		}
		if !check() {
			return
		}
		if s.g.code != 0 || s.g.killed {
			fail(fmt.Sprintf("exit status %d", s.g.code))
			return
		}
		c.count("sessions", 1)
		c.count("frames", s.g.nframes)
		if nver > 0 {
			c.count("sessions that saw the outcome", 1)
		}
		c.eval(fmt.Sprint(k.name, release, quitAt, keyStrings(s.g.log)))
		if i%131 == 0 {
			c.sample(map[string]any{"reply": k.name, "released after keys": release, "quit after keys": quitAt, "keys": keyStrings(s.g.log), "frames": s.g.nframes})
		}
	})
	// command line
	bin := c.B.get("clirace")
	c.each("cli", 100000, c.n(120, 1500), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(25), noUnknown: true, trashRate: 25})
		v.write(r, w.vault)
		w.config(fmt.Sprintf("opvault: %s\ntimeout: 20\nupdate-period: 0\n", yq(w.vault)))
		p := newPub(r, "99.0.0", 5000)
		h := c.pubHub(p)
		defer h.close()
		it := v.Items[r.Intn(len(v.Items))]
		cmds := [][]string{{"list"}, {"list", "-t"}, {"list", "-c", "login", "-n", "a"}, {"overview", it.UID}, {"details", it.UID}, {"categories"}, {"configure"}, {"update"}, {"version"}}
		args := cmds[i%len(cmds)]
		o := w.opts(args...)
		o.bin, o.dial, o.env = bin, h.dial(), append(c.tlsEnv(), raceEnv)
		o.bare = args[0] != "update"
		o.noEvlog = true
		switch args[0] {
		case "list", "overview", "details":
			o.steps = []step{pw([]string{"pw", "pw", "nope"}[r.Intn(3)])}
		case "update":
			exe := w.dir + "/1pass"
			copyFile(bin, exe, 0755)
			o.bin, o.pipe, o.steps = exe, true, []step{{send: "y\n"}}
		default:
			o.pipe, o.steps = true, []step{{send: "y\n/x\ny\n3\n0\n"}}
		}
		w.own()
		res := c.run(o)
		if strings.Contains(res.Out, raced) || res.Code == 66 || res.crashed() || res.Timeout {
			c.violation(i, "race detector, "+strings.Join(args, " "), map[string]any{"args": args, "run": res.brief()})
			return
		}
		os.Remove(w.dir + "/1pass")
		c.count("command runs", 1)
		c.eval("cli" + strings.Join(args[:1], "") + fmt.Sprint(i))
	})
}
