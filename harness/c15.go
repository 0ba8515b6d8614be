package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C15"] = check{
		level: "runtime monitoring of the network contacts, notices and last-check records of randomised command histories against a model of the check schedule",
		rule:  "a case is one history of one to four commands with generated settings, last-check record and server behaviour; distinct = distinct (settings, record, replies, commands) histories",
		run:   runC15,
	}
}

var runningVersion string

func (c *Ctx) version() string {
	if runningVersion == "" {
		o := runOpts{bin: c.B.get("app"), args: []string{"version"}, home: c.dir("h"), pipe: true}
		runningVersion = strings.Trim(strings.TrimSpace(c.run(o).Out), "= ")
		if runningVersion == "" {
			infra("no version")
		}
	}
	return runningVersion
}

func noticeFor(ver, tag string) string {
	return fmt.Sprintf("New version of 1pass is available (current: %s, available: %s)", ver, tag)
}

func runC15(c *Ctx) {
	c.B.get("app")
	ver := c.version()
	type srv struct {
		name, tag string
		ok, newer bool
		r         reply
		raw       string
	}
	srvs := []srv{
		{name: "newer", tag: "99.1.0", ok: true, newer: true}, {name: "newer", tag: "99.1.0", ok: true, newer: true}, {name: "newer, slow", tag: "99.1.0", ok: true, newer: true, r: reply{delay: 1800 * time.Millisecond}},
		{name: "same", tag: ver, ok: true}, {name: "older", tag: "0.1.0", ok: true}, {name: "no releases", ok: true, r: reply{body: []byte("[]")}},
		{name: "error page", r: reply{status: 500, body: []byte("<html>oops</html>")}}, {name: "rate limited", r: reply{status: 403, body: []byte(`{"message":"API rate limit exceeded","documentation_url":"x"}`)}},
		{name: "garbage", r: reply{mode: "garbage"}}, {name: "cut", r: reply{mode: "truncate", body: relJSON(newRel("99.1.0")), cut: 300}}, {name: "reset", r: reply{mode: "reset"}},
		{name: "closed", raw: "close"}, {name: "not TLS", raw: "plain"}, {name: "refused", raw: "refuse"}, {name: "rogue certificate", raw: "rogue"}, {name: "stalls", r: reply{mode: "stallhead"}},
		{name: "stalls in the body", r: reply{mode: "stallbody", body: relJSON(newRel("99.1.0")), cut: 200}},
	}
	c.each("history", 0, c.n(420, 7000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(3), noUnknown: true})
		v.write(r, w.vault)
		notify := r.Intn(4) > 0
		period := []int{0, 0, 1, 1, 2, 3, 7, 30, 365}[r.Intn(9)]
		noVault := r.Intn(4) == 0 // no default vault configured: the vault is named by flag
		text := "opvault: " + yq(w.vault) + "\n"
		if noVault {
			text = []string{"", "opvault: \"\"\n"}[r.Intn(2)]
		}
		explicit := true
		if notify && period == 1 && r.Intn(3) == 0 {
			explicit = false // the defaults say the same
		} else {
			text += fmt.Sprintf("update-notification: %v\nupdate-period: %d\n", notify, period)
		}
		setTimeout := func(n int) { w.config(text + fmt.Sprintf("timeout: %d\n", n)); w.own() }
		setTimeout(20)
		rec := filepath.Join(w.cfg, "lastcheck")
		// the record: nil = no valid one, else its age in days
		var age *float64
		content := ""
		switch r.Intn(6) {
		case 0:
			content = "(none)"
		case 1:
			content = []string{"", "abc", "12x", "1.5e9", "99999999999999999999999", "\x00\x01", "2021-06-01", "now", "-"}[r.Intn(9)]
			mustWrite(rec, []byte(content))
		default:
			days := []int{0, 1, 2, 3, 6, 7, 8, 29, 30, 31, 364, 365, 366, 3000}[r.Intn(14)]
			if r.Intn(2) == 0 {
				days = period - 1 + r.Intn(3)
				if days < 0 {
					days = 0
				}
			}
			a := float64(days) + 0.05 + 0.9*r.Float64()
			age = &a
			content = fmt.Sprint(time.Now().Add(-time.Duration(a * 24 * float64(time.Hour))).Unix())
			switch r.Intn(5) { // an editor's line end changes nothing
			case 0:
				content += "\n"
			case 1:
				content = []string{" ", "\n", "\t"}[r.Intn(3)] + content + []string{" ", "\r\n", "\n\n", ""}[r.Intn(4)]
			}
			mustWrite(rec, []byte(content))
		}
		if content != "(none)" && r.Intn(2) == 0 { // the time of the check is what the record says, not the file's
			at := time.Now().Add(-time.Duration(r.Intn(400*24)) * time.Hour)
			os.Chtimes(rec, at, at)
		}
		w.own()
		var hist []string
		pickSrv := func() srv {
			if r.Intn(2) == 0 {
				return srvs[r.Intn(6)]
			}
			return srvs[r.Intn(len(srvs))]
		}
		s := pickSrv()
		for step, n := 0, 1+r.Intn(3); step < n; step++ {
			if r.Intn(3) == 0 {
				s = pickSrv()
			}
			rp := s.r
			if rp.body == nil && s.tag != "" {
				rp.body = relJSON(variedRel(r, s.tag), newRel("0.0.1"))
			}
			h := c.hub(func(reqRec, int) reply { return rp })
			dial := h.dial()
			switch s.raw {
			case "refuse":
				dial = "*=refuse"
			case "rogue":
				h.cert = &c.pki().rogue
			default:
				h.raw = s.raw
			}
			it := v.Items[r.Intn(len(v.Items))]
			cmd := []string{"list", "overview", "details", "categories", "configure", "update", "version", "help", "list", "details"}[r.Intn(10)]
			args := []string{cmd}
			var steps []step2
			pipe := false
			switch cmd {
			case "list", "overview", "details":
				if cmd != "list" {
					args = append(args, it.UID)
				}
				if noVault {
					args = append(args, "-v", w.vault)
				}
				k := r.Intn(4)
				if noVault && k == 0 {
					k = 2
				}
				switch k {
				case 0:
					args = append(args, "-v", "/nonexistent/vault")
					pipe = true
				case 1:
					steps = []step2{pw("wrong")}
				default:
					steps = []step2{pw("pw")}
				}
			case "configure":
				pipe = true
				steps = []step2{{send: "n\n\n\n\n"}}
			default:
				pipe = true
				steps = []step2{{send: "n\n"}}
			}
			o := w.opts(args...)
			o.pipe, o.steps, o.dial, o.env = pipe, steps, dial, c.tlsEnv()
			setTimeout(20)
			if rp.mode == "stallhead" || rp.mode == "stallbody" {
				setTimeout(1)
			}
			before, berr := os.ReadFile(rec)
			t0 := time.Now()
			res := c.run(o)
			t1 := time.Now()
			h.close()
			after, aerr := os.ReadFile(rec)
			due := age == nil || int(*age) >= period
			var must, mustNot bool
			switch cmd {
			case "update":
				must = true
			case "version", "help":
				mustNot = !notify
			default:
				must = notify && due
				mustNot = !must
			}
			contacted := len(res.dials()) > 0
			hist = append(hist, fmt.Sprintf("%s (server: %s) -> contact %v", strings.Join(args, " "), s.name, contacted))
			wit := map[string]any{"settings": text, "defaults": !explicit, "record at start": content, "history": hist, "run": res.brief(), "contacts": evStrings(res.dials(), nil),
				"record before": string(before), "record after": string(after)}
			fail := func(what string) { c.violation(i, what, wit) }
			if res.crashed() || res.Timeout || res.Stuck != "" {
				fail("the command crashed or hung")
				return
			}
			if must && !contacted {
				fail(fmt.Sprintf("%s made no check although one is due", cmd))
				return
			}
			if mustNot && contacted {
				fail(fmt.Sprintf("%s contacted the network although it must not (notifications %v, period %d, record %q)", cmd, notify, period, content))
				return
			}
			for _, e := range res.dials() {
				if e.Path != "tcp api.github.com:443" {
					fail("a check contacted " + e.Path)
					return
				}
			}
			succeeded := contacted && s.ok
			times := strings.Count(res.Out, "New version of 1pass is available (current:")
			if cmd != "update" {
				if succeeded && s.newer && (times != 1 || strings.Count(res.Out, noticeFor(ver, s.tag)) != 1) {
					fail(fmt.Sprintf("a newer release exists but the notice is printed %d times", times))
					return
				}
				if !(succeeded && s.newer) && times != 0 {
					fail("a notice is printed although there is no newer release known")
					return
				}
			}
			if succeeded {
				n, err := strconv.ParseInt(strings.TrimSpace(string(after)), 10, 64)
				if aerr != nil || err != nil || n < t0.Unix()-2 || n > t1.Unix()+2 {
					fail("the last-check record was not renewed by a successful check")
					return
				}
				z := 0.0
				age = &z
				c.count("successful checks", 1)
			} else {
				if (berr == nil) != (aerr == nil) || string(before) != string(after) {
					fail("the last-check record changed without a successful check")
					return
				}
				if contacted {
					c.count("failed checks", 1)
				} else {
					c.count("runs without contact", 1)
				}
			}
		}
		c.eval(fmt.Sprint(text, content, hist))
		if i%97 == 0 {
			c.sample(map[string]any{"settings": text, "record": content, "history": hist})
		}
	})
	// nothing of the program exists yet: a check leaves its record all the same
	c.each("fresh", 100000, c.n(16, 150), 4, func(i int, r *rand.Rand) {
		for try := 0; try < 4; try++ {
			w := c.world("vault")
			if r.Intn(2) == 0 {
				os.MkdirAll(filepath.Dir(w.cfg), 0755)
			}
			w.own()
			body := relJSON(variedRel(r, "99.1.0"))
			h := c.hub(func(reqRec, int) reply { return reply{body: body} })
			cmd := []string{"categories", "update", "configure"}[i%3]
			o := w.opts(cmd)
			o.pipe, o.steps, o.dial, o.env = true, []step2{{send: []string{"n\n", "n\nn\n1\n7\n"}[b2i(cmd == "configure")]}}, h.dial(), c.tlsEnv()
			res := c.run(o)
			told := strings.Contains(res.Out, "New version of 1pass is available")
			n := len(res.dials())
			h.close()
			_, err := os.Stat(filepath.Join(w.cfg, "lastcheck"))
			wit := map[string]any{"run": res.brief(), "attempt": try}
			w.done()
			switch {
			case n == 0:
				c.violation(i, cmd+" makes no check although there is no record", wit)
				return
			case told && err != nil:
				c.violation(i, cmd+": a successful check leaves no record in a new configuration directory", wit)
				return
			case told:
				c.count("first checks of a new user", 1)
				c.eval(fmt.Sprint("fresh ", cmd, i, string(body)))
				return
			}
			// the default time limit is one second, a busy machine may need more
		}
		c.count("first checks that came too late", 1)
	})
}

type step2 = step

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
