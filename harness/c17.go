package main

import (
	"compress/gzip"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C17"] = check{
		level: "runtime monitoring: every command and the GUI against a misbehaving update server, compared with the same run without network, with a watchdog on the time taken",
		rule:  "a case is one command or GUI session against one server behaviour, compared with the run where the network refuses; distinct = distinct (command, behaviour)",
		run:   runC17,
	}
}

func bomb(n int) string { return strings.Repeat("[", n) }

type srvBehaviour struct {
	name string
	raw  string // connection level
	r    reply
	slow bool // takes until the timeout
}

func behaviours(r *rand.Rand) []srvBehaviour {
	good := relJSON(newRel("99.0.0"), newRel("1.0.0"))
	j := func(name, body string) srvBehaviour {
		return srvBehaviour{name: "json " + name, r: reply{body: []byte(body)}}
	}
	asset := func(a string) string { return `[{"tag_name":"99.0.0","body":"b","assets":` + a + `}]` }
	bs := []srvBehaviour{
		{name: "good"}, {name: "refused", raw: "refuse"}, {name: "connection hangs", raw: "hang", slow: true}, {name: "silent after connecting", raw: "silent", slow: true},
		{name: "TLS stalls", raw: "tlsstall", slow: true}, {name: "closes", raw: "close"}, {name: "not TLS", raw: "plain"}, {name: "rogue certificate", raw: "rogue"}, {name: "wrong host", raw: "badhost"},
		{name: "expired certificate", raw: "expired"},
		{name: "stalls before the header", r: reply{mode: "stallhead"}, slow: true}, {name: "stalls in the header", r: reply{mode: "halfhead"}, slow: true},
		{name: "stalls before the body", r: reply{mode: "stallbody", body: good, cut: 0}, slow: true}, {name: "stalls in the body", r: reply{mode: "stallbody", body: good, cut: 1 + r.Intn(len(good)-1)}, slow: true},
		{name: "stalls before the last byte", r: reply{mode: "stallbody", body: good, cut: len(good) - 1}, slow: true},
		{name: "drips", r: reply{mode: "drip", body: good}, slow: true}, {name: "cut body", r: reply{mode: "truncate", body: good, cut: r.Intn(len(good))}},
		{name: "cut at once", r: reply{mode: "truncate", body: good, cut: 0}}, {name: "reset", r: reply{mode: "reset"}}, {name: "not HTTP", r: reply{mode: "garbage"}}, {name: "body without length", r: reply{mode: "nolength", body: good}},
		{name: "empty body", r: reply{body: []byte{}}}, {name: "redirect to itself", r: reply{status: 302, header: map[string]string{"Location": "https://api.github.com/repos/mashmb/1pass/releases"}}},
		{name: "slow redirects to itself", r: reply{status: 302, delay: 400 * time.Millisecond, header: map[string]string{"Location": "https://api.github.com/repos/mashmb/1pass/releases"}}, slow: true},
		{name: "redirect to nonsense", r: reply{status: 302, header: map[string]string{"Location": "gopher://%%%"}}}, {name: "redirect without location", r: reply{status: 302}},
		{name: "redirect elsewhere", r: reply{status: 301, header: map[string]string{"Location": "https://evil.example/x"}}},
		{name: "wrong gzip", r: reply{body: good, header: map[string]string{"Content-Encoding": "gzip"}}}, {name: "gzip", r: reply{body: gz(good, gzip.BestSpeed), header: map[string]string{"Content-Encoding": "gzip"}}},
		{name: "huge header", r: reply{body: good, header: map[string]string{"X-Junk": strings.Repeat("x", 2<<20)}}}, {name: "broken header", r: reply{body: good, header: map[string]string{"Broken Header\x01": "x"}}},
		{name: "slow but in time", r: reply{body: good, delay: 300 * time.Millisecond}},
		j("null", "null"), j("object", "{}"), j("array of null", "[null]"), j("array of number", "[1]"), j("array of arrays", "[[],[]]"), j("string", `"x"`), j("open", "["), j("number", "5"), j("true", "true"),
		j("empty object", "[{}]"), j("deep", bomb(9000)), j("very deep", bomb(200000)), j("deep value", `[{"tag_name":"99.0.0","x":`+bomb(20000)), j("numeric tag", `[{"tag_name":99}]`), j("null tag", `[{"tag_name":null}]`),
		j("object tag", `[{"tag_name":{"a":1}}]`), j("array tag", `[{"tag_name":["99"]}]`), j("no tag", `[{"body":"x"}]`), j("null body", `[{"tag_name":"99.0.0","body":null}]`), j("numeric body", `[{"tag_name":"99.0.0","body":3}]`),
		j("object body", `[{"tag_name":"99.0.0","body":{}}]`), j("null assets", asset("null")), j("object assets", asset("{}")), j("number assets", asset("7")), j("string assets", asset(`"x"`)), j("null asset", asset("[null]")),
		j("numeric asset", asset("[1]")), j("array asset", asset("[[]]")), j("empty asset", asset("[{}]")), j("null name", asset(`[{"name":null,"browser_download_url":null}]`)), j("numeric name", asset(`[{"name":1,"browser_download_url":2}]`)),
		j("object url", asset(`[{"name":"x.tar.gz","browser_download_url":{}}]`)), j("no url", asset(`[{"name":"x.tar.gz"}]`)), j("no name", asset(`[{"browser_download_url":"x"}]`)), j("no assets", `[{"tag_name":"99.0.0","body":"b"}]`),
		j("second broken", `[{"tag_name":"99.0.0","body":"b","assets":[]},5,null,"x"]`), j("first null", `[null,{"tag_name":"99.0.0","body":"b","assets":[]}]`), j("trailing junk", string(good)+"junk"), j("BOM", "\ufeff"+string(good)),
		j("NUL", "[{\"tag_name\":\"99.0.0\x00\"}]"), j("invalid UTF-8", "[{\"tag_name\":\"99\xff\xfe\"}]"), j("lone surrogate", `[{"tag_name":"\ud800"}]`), j("huge number", `[{"tag_name":"99.0.0","id":1e999999,"assets":[]}]`),
		j("duplicate keys", `[{"tag_name":"99.0.0","tag_name":5,"tag_name":null}]`), j("case keys", `[{"TAG_NAME":"99.0.0","Assets":5}]`), j("escape codes", `[{"tag_name":"\u001b[2J\u001b]0;x\u0007","body":"\u001b[31m"}]`),
		j("long tag", `[{"tag_name":"`+strings.Repeat("9", 300000)+`"}]`), j("many components", `[{"tag_name":"`+strings.Repeat("9.", 50000)+`9"}]`), j("format verbs", `[{"tag_name":"%s%n%d","body":"%!"}]`),
		j("overflow tag", `[{"tag_name":"99999999999999999999999999.0.0"}]`), j("negative tag", `[{"tag_name":"-1.-2"}]`), j("message", `{"message":"API rate limit exceeded for 1.2.3.4."}`), j("html", "<!DOCTYPE html><html></html>"),
		j("many releases", "["+strings.Repeat(`{"tag_name":"1.0.0","assets":[]},`, 20000)+`{"tag_name":"1.0.0"}]`), j("big body", `[{"tag_name":"99.0.0","body":"`+strings.Repeat("x", 3<<20)+`","assets":[]}]`), j("spaces", "   \n\t "),
	}
	for _, st := range []int{201, 204, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503, 504, 999} {
		body := []byte(`{"message":"no"}`)
		if st == 204 || st == 304 {
			body = []byte{}
		}
		bs = append(bs, srvBehaviour{name: fmt.Sprintf("status %d", st), r: reply{status: st, body: body}})
	}
	return bs
}

func (c *Ctx) behave(b srvBehaviour) (*fakeHub, string) {
	good := relJSON(newRel("99.0.0"), newRel("1.0.0"))
	h := c.hub(func(reqRec, int) reply {
		r := b.r
		if r.body == nil && r.status == 0 && r.mode == "" {
			r.body = good
		}
		return r
	})
	d := h.dial()
	p := c.pki()
	switch b.raw {
	case "refuse":
		d = "*=refuse"
	case "hang":
		d = "*=hang"
	case "rogue":
		h.cert = &p.rogue
	case "badhost":
		h.cert = &p.badHost
	case "expired":
		h.cert = &p.expired
	default:
		h.raw = b.raw
	}
	return h, d
}

// withoutNotice drops the update notice and the blank line that comes with it.
func withoutNotice(out string) string {
	l := strings.Split(out, "\n")
	var o []string
	for i := 0; i < len(l); i++ {
		if strings.HasPrefix(l[i], "New version of 1pass is available (current:") {
			if i+1 < len(l) && l[i+1] == "" {
				i++
			}
			continue
		}
		o = append(o, l[i])
	}
	return strings.Join(o, "\n")
}

func runC17(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	const slack, tight = 8 * time.Second, 2500 * time.Millisecond
	var confirm sync.Mutex
	bs := behaviours(c.rng("behaviours"))
	cmds := []string{"list", "list filtered", "overview", "details", "categories", "configure", "list wrong password", "list invalid vault", "details unknown item", "first run"}
	type jobT struct {
		b   srvBehaviour
		cmd string
	}
	var jobs []jobT
	for k, b := range bs {
		for ci, cmd := range cmds {
			if !c.thorough() && b.slow && (k+ci)%2 != 0 {
				continue // these take until the timeout
			}
			jobs = append(jobs, jobT{b, cmd})
		}
	}
	if c.thorough() {
		for k := 0; k < 3; k++ {
			jobs = append(jobs, jobs...)
		}
	}
	c.each("command", 0, len(jobs), 12, func(i int, r *rand.Rand) {
		b, cmd := jobs[i].b, jobs[i].cmd
		once := func(b srvBehaviour) (*result, cfgVals, string, string) {
			r := c.rng("world", i)
			w := c.world("vault")
			defer w.done()
			v := genVault(r, "pw", 2, genOpts{items: 2 + r.Intn(4), noUnknown: true, uniqueTitles: true})
			v.write(r, w.vault)
			if cmd != "first run" {
				w.config(fmt.Sprintf("opvault: %s\ntimeout: 1\nupdate-period: 0\n", yq(w.vault)))
			}
			w.own()
			it := v.Items[0]
			var args []string
			steps := []step{pw("pw")}
			pipe := false
			switch cmd {
			case "list":
				args = []string{"list"}
			case "list filtered":
				args = []string{"list", "-n", firstRunes(it.Title, 3)}
			case "overview", "details":
				args = []string{cmd, it.UID}
				if it.Trashed {
					args = append(args, "-t")
				}
			case "categories":
				args, steps, pipe = []string{"categories"}, nil, true
			case "configure":
				args, steps, pipe = []string{"configure"}, []step{{send: "y\n/some/where\nn\n7\n9\n"}}, true
			case "list wrong password":
				args, steps = []string{"list"}, []step{pw("nope")}
			case "list invalid vault":
				args, steps, pipe = []string{"list", "-v", "/does/not/exist"}, nil, true
			case "details unknown item":
				args = []string{"details", "0000"}
			case "first run":
				args, steps = []string{"list"}, []step{{expect: "1. Do", send: "y\n" + w.vault + "\ny\n1\n0\n"}, pw("pw")}
			}
			h, dial := c.behave(b)
			defer h.close()
			o := w.opts(args...)
			o.pipe, o.steps, o.dial, o.env, o.timeout = pipe, steps, dial, c.tlsEnv(), 30*time.Second
			if cmd == "first run" { // the echo of lines typed ahead would mix with the questions
				o.termios = func(t *syscall.Termios) { t.Lflag &^= syscall.ECHO }
			}
			res := c.run(o)
			d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
			defer d.close()
			d.call(map[string]any{"op": "new", "path": w.cfg})
			cv, bad := d.cfg()
			return res, cv, bad, strings.ReplaceAll(withoutNotice(res.Out), w.dir, "(dir)")
		}
		ref, rcfg, _, rout := once(srvBehaviour{name: "refused", raw: "refuse"})
		got, gcfg, bad, gout := once(b)
		rcfg.Vault, gcfg.Vault = cutWorld(rcfg.Vault), cutWorld(gcfg.Vault)
		wit := map[string]any{"command": cmd, "server": b.name, "run": got.brief(), "without network": ref.brief(), "seconds": got.Wall.Seconds()}
		checksMade := time.Duration(1)
		if cmd == "first run" {
			checksMade = 2
		}
		late := func(x *result) bool { return x.Timeout || x.Wall > ref.Wall+checksMade*time.Second+tight }
		held := late(got)
		if held { // on a busy machine once is not enough
			confirm.Lock()
			for k := 0; k < 3 && held && !c.stopped.Load(); k++ {
				x, _, _, _ := once(b)
				held = late(x)
			}
			confirm.Unlock()
			if c.stopped.Load() {
				return
			}
		}
		switch {
		case got.crashed() && !got.Timeout:
			c.violation(i, fmt.Sprintf("%s crashes when the server %s", cmd, b.name), wit)
		case held:
			c.violation(i, fmt.Sprintf("%s is held up for %.1f s (timeout 1 s) by the server: %s", cmd, got.Wall.Seconds(), b.name), wit)
		case got.Code != ref.Code:
			c.violation(i, fmt.Sprintf("%s exits with %d instead of %d when the server %s", cmd, got.Code, ref.Code, b.name), wit)
		case gout != rout:
			c.violation(i, fmt.Sprintf("%s prints something else when the server %s: %s", cmd, b.name, lineDiff(strings.Split(gout, "\n"), strings.Split(rout, "\n"))), wit)
		case bad != "" || gcfg != rcfg:
			c.violation(i, fmt.Sprintf("settings after %s are %+v instead of %+v %s", cmd, gcfg, rcfg, bad), wit)
		default:
			if len(got.dials()) == 0 {
				return // no contact, nothing observed
			}
			c.count("runs compared", 1)
			if b.slow {
				c.count("stalls survived", 1)
			}
			c.eval(cmd + "|" + b.name)
			if i%131 == 0 {
				c.sample(wit)
			}
		}
	})
	// GUI: usable while the check is under way, whatever comes of it
	ng := len(bs)
	if c.thorough() {
		ng *= 6
	}
	c.each("gui", 100000, ng, 12, func(i int, r *rand.Rand) {
		b := bs[i%len(bs)]
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 1 + r.Intn(12), noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 20})
		v.write(r, w.vault)
		timeout := 1
		if b.slow {
			timeout = []int{1, 30}[r.Intn(2)]
		}
		w.config(fmt.Sprintf("opvault: %s\ntimeout: %d\n", yq(w.vault), timeout))
		w.own()
		h, dial := c.behave(b)
		defer h.close()
		start := time.Now()
		s := &guiSession{w: w, v: v, m: newModel(v)}
		s.g = c.guiStart(runOpts{home: w.home, allow: []string{w.dir}, dial: dial, env: c.tlsEnv()}, "gui", 200, 30, nil)
		defer s.g.kill()
		wit := func(m string) map[string]any {
			return s.g.witness(map[string]any{"server": b.name, "timeout": timeout, "seconds": time.Since(start).Seconds()})
		}
		fail := func(m string) { c.violation(i, fmt.Sprintf("GUI, server %s: %s", b.name, m), wit(m)) }
		if f := s.g.first(); f == nil || s.m.check(f) != "" {
			fail("no proper first screen")
			return
		}
		if timeout == 30 && time.Since(start) > 12*time.Second {
			fail("the first screen waits for the server")
			return
		}
		for _, k := range append(keys("pw"), gkey{Key: kEnter}) {
			s.m.key(k)
			f := s.g.press(k)
			if f == nil || s.m.check(f) != "" {
				fail("unlocking does not work as without network")
				return
			}
		}
		if x := s.drive(r, 25, false); x != "" {
			fail(x)
			return
		}
		if timeout == 30 && time.Since(start) > 20*time.Second {
			fail("the GUI waits for the server")
			return
		}
		if timeout == 1 {
			f := s.g.wait(time.Duration(timeout)*time.Second+slack+4*time.Second, func(f *frame) bool { return outcomes(f.verLine()) > 0 })
			if f == nil {
				fail("the outcome of the check is never shown")
				return
			}
			if x := s.m.check(f); x != "" {
				fail("after the check ended: " + x)
				return
			}
			if x := s.drive(r, 10, false); x != "" {
				fail("after the check ended: " + x)
				return
			}
		}
		t0 := time.Now()
		if !s.g.quit() || s.g.code != 0 || s.g.killed || time.Since(t0) > slack {
			fail(fmt.Sprintf("quitting takes %.1f s, exit %d", time.Since(t0).Seconds(), s.g.code))
			return
		}
		c.count("GUI sessions", 1)
		c.eval("gui|" + b.name + fmt.Sprint(timeout))
	})
}

// cutWorld makes settings of two private worlds comparable.
func cutWorld(p string) string {
	if i := strings.LastIndex(p, "/v/"); i >= 0 {
		return p[i:]
	}
	return p
}
