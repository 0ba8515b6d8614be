package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C22"] = check{
		level: "runtime monitoring of overlapping real runs under enumerated interleavings: one run is held at each of its file operations while others run, are held or are killed, and settings, executable and outputs are judged after every step",
		rule:  "a case is one interleaving of two (or more) runs; distinct = distinct (scenario, operation the first run is held at, what the other run does, operation the other is held or killed at)",
		run:   runC22,
	}
}

// gated is a run that stops before one of its file operations.
type gated struct {
	c    *Ctx
	dir  string
	done chan *result
	res  *result
}

// hold starts a run that stops before its op-th operation; op 0 = it never does.
func (c *Ctx) hold(o runOpts, op int) *gated {
	g := &gated{c: c, dir: c.dir("gate"), done: make(chan *result, 1)}
	if op > 0 {
		o.fault = fmt.Sprintf("%d:gate", op)
		o.env = append(append([]string{}, o.env...), "VERIF_GATE="+g.dir)
	}
	go func() {
		defer func() {
			if p := recover(); p != nil {
				g.done <- nil
			}
		}()
		g.done <- c.run(o)
	}()
	return g
}

// here waits until the run is held; false: it ended before.
func (g *gated) here() bool {
	for g.res == nil {
		if _, err := os.Stat(filepath.Join(g.dir, "here")); err == nil {
			return true
		}
		select {
		case g.res = <-g.done:
			if g.res == nil {
				infra("a run could not be started")
			}
		case <-time.After(2 * time.Millisecond):
		}
	}
	return false
}

func (g *gated) finish() *result {
	if g.res == nil {
		mustWrite(filepath.Join(g.dir, "go"), nil)
		if g.res = <-g.done; g.res == nil {
			infra("a run could not be started")
		}
	}
	os.RemoveAll(g.dir)
	return g.res
}

func runC22(c *Ctx) {
	c.B.get("app")
	c.B.get("driver")
	c22settings(c)
	if !c.stopped.Load() {
		c22updates(c)
	}
}

func opsOf(res *result) (total int, first map[int]event) {
	first = map[int]event{}
	for _, e := range res.Events {
		total = max(total, e.Count)
		if _, ok := first[e.Count]; !ok && e.Op != "dial" {
			first[e.Count] = e
		}
	}
	return
}

func c22settings(c *Ctx) {
	long := "/a/" + strings.Repeat("long/", 150) + "vault"
	type scen struct {
		name   string
		text   string
		exists bool
		linked bool
		a, b   cfgVals // what the two runs are told to save
	}
	full := "opvault: /old/vault\ntimeout: 3\nupdate-notification: false\nupdate-period: 40\ntheme: dark\n"
	short, other := cfgVals{"/s", 9, true, 7}, cfgVals{"/new/vault path", 17, false, 211}
	big := cfgVals{long, 28, true, 300}
	scens := []scen{
		{name: "longer second", text: full, exists: true, a: short, b: big},
		{name: "longer first", text: full, exists: true, a: big, b: short},
		{name: "same length", text: full, exists: true, a: other, b: cfgVals{"/new/vault htap", 16, true, 112}},
		{name: "no settings", a: other, b: short},
		{name: "empty settings", exists: true, a: big, b: other},
		{name: "linked settings", text: full, exists: true, linked: true, a: short, b: big},
		{name: "long settings", text: strings.Replace(full, "/old/vault", long+long, 1), exists: true, a: short, b: other},
	}
	answers := func(v cfgVals) string {
		return fmt.Sprintf("y\n%s\n%s\n%d\n%d\n", v.Vault, map[bool]string{true: "y", false: "n"}[v.Notify], v.Timeout, v.Period)
	}
	setup := func(s scen) *world {
		w := c.world("vault")
		file := filepath.Join(w.cfg, "1pass.yml")
		if s.exists {
			os.MkdirAll(w.cfg, 0755)
			t := file
			if s.linked {
				t = filepath.Join(w.dir, "dotfiles", "one.yml")
				os.MkdirAll(filepath.Dir(t), 0755)
				os.Symlink(t, file)
			}
			mustWrite(t, []byte(s.text))
		}
		w.own()
		return w
	}
	conf := func(w *world, v cfgVals) runOpts {
		o := w.opts("configure")
		o.pipe, o.scope = true, []string{w.dir}
		o.steps = []step{{send: answers(v)}}
		return o
	}
	read := func(w *world) (cfgVals, string) {
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		if b := d.bad(d.call(map[string]any{"op": "new", "path": w.cfg})); b != "" {
			return cfgVals{}, "the settings cannot be read: " + b
		}
		return d.cfg()
	}
	olds := make([]cfgVals, len(scens))
	ops := make([]int, len(scens))
	descs := make([]map[int]event, len(scens))
	for i, s := range scens {
		w := setup(s)
		olds[i], _ = read(w)
		res := c.run(conf(w, s.a))
		if got, bad := read(w); bad != "" || got != s.a {
			c.violation(-1, "an undisturbed save does not work "+bad, map[string]any{"run": res.brief()})
			w.done()
			return
		}
		ops[i], descs[i] = opsOf(res)
		c.count("operations in clean saves", ops[i])
		w.done()
	}
	type job struct {
		s, k int
		mode string
		j    int
	}
	var jobs []job
	for i := range scens {
		for k := 1; k <= ops[i]; k++ {
			jobs = append(jobs, job{i, k, "read", 0}, job{i, k, "save", 0}, job{i, k, "three saves", 0})
			for j := 1; j <= ops[i]+1; j++ {
				jobs = append(jobs, job{i, k, "held save", j}, job{i, k, "killed save", j}, job{i, k, "save of a later killed one", j})
			}
		}
	}
	reps := c.n(1, 8)
	c.each("settings", 0, len(jobs)*reps, 0, func(n int, r *rand.Rand) {
		j := jobs[n%len(jobs)]
		s := scens[j.s]
		w := setup(s)
		defer w.done()
		wit := map[string]any{"scenario": s.name, "first run held at": fmt.Sprintf("%d (%s %s)", j.k, descs[j.s][j.k].Op, descs[j.s][j.k].Path), "other": j.mode, "at": j.j, "first saves": s.a, "other saves": s.b, "settings before": olds[j.s]}
		bad := false
		fail := func(what string, more ...*result) {
			bad = true
			for _, m := range more {
				wit["run"] = m.brief()
			}
			b, _ := os.ReadFile(filepath.Join(w.cfg, "1pass.yml"))
			wit["file"] = firstN(string(b), 2000)
			c.violation(n, what, wit)
		}
		// look reads the settings, which have to be one of those given
		look := func(when string, want ...cfgVals) {
			if bad {
				return
			}
			v, b := read(w)
			if b != "" {
				fail(when + ": " + b)
				return
			}
			for _, x := range want {
				if x == v {
					c.count("settings read during overlapping runs", 1)
					return
				}
			}
			wit["read as"] = v
			fail(fmt.Sprintf("%s the settings read are %+v, which no run saved", when, v))
		}
		saved := func(who string, res *result) {
			if !bad && (res.Code != 0 || !strings.Contains(res.Out, "1pass configured")) {
				fail(who+" failed although nothing but the other run was there", res)
			}
		}
		old := olds[j.s]
		a := c.hold(conf(w, s.a), j.k)
		a.here()
		look("while the first save is held", old, s.a)
		mid := []cfgVals{old, s.a}
		third := cfgVals{"/third", 5, false, 5}
		switch j.mode {
		case "save", "three saves":
			saved("the other save", c.run(conf(w, s.b)))
			look("after the other save", s.a, s.b)
			mid = []cfgVals{s.a, s.b}
			if j.mode == "three saves" {
				saved("the third save", c.run(conf(w, third)))
				look("after the third save", s.a, third)
				mid = []cfgVals{s.a, third}
			}
		case "held save":
			b := c.hold(conf(w, s.b), j.j)
			b.here()
			look("while both saves are held", old, s.a, s.b)
			if r.Intn(2) == 0 {
				saved("the first save", a.finish())
				look("after the first save", s.a, s.b)
				saved("the other save", b.finish())
			} else {
				saved("the other save", b.finish())
				look("after the other save", s.a, s.b)
			}
			mid = []cfgVals{s.a, s.b}
		case "killed save":
			o := conf(w, s.b)
			o.fault = fmt.Sprintf("%d:kill", j.j)
			c.run(o)
			mid = append(mid, s.b)
			look("after the other save was killed", mid...)
		case "save of a later killed one":
			a.finish()
			o := conf(w, s.b)
			o.fault = fmt.Sprintf("%d:kill", j.j)
			x := c.hold(conf(w, third), j.k)
			x.here()
			c.run(o)
			look("after the other save was killed", s.a, s.b, third)
			saved("a save held meanwhile", x.finish())
			mid = []cfgVals{s.a, s.b, third}
		}
		ra := a.finish()
		saved("the first save", ra)
		if len(mid) == 2 && mid[0] == old { // nothing but the first save happened
			mid = []cfgVals{s.a}
		}
		look("in the end", mid...)
		if bad {
			return
		}
		if strings.Contains(s.text, "theme") {
			if doc, err := parseCfg(filepath.Join(w.cfg, "1pass.yml")); err != nil || !reflect.DeepEqual(doc["theme"], "dark") {
				fail("an entry the program does not know was lost")
				return
			}
		}
		c.eval(fmt.Sprint("settings", j))
		if n%97 == 0 {
			c.sample(wit)
		}
	})
	// commands that use the settings and the vault, at every point of a save and of the renewal of the last-check record
	c.each("commands", 100000, c.n(40, 600), 0, func(n int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := genVault(r, "pw", 2, genOpts{items: 2 + r.Intn(6), noUnknown: true, uniqueTitles: true, narrow: true})
		v.write(r, w.vault)
		w.config(fmt.Sprintf("opvault: %s\ntimeout: 20\nupdate-notification: true\nupdate-period: 0\n", yq(w.vault)))
		w.own()
		hub := c.pubHub(newPub(r, "9.9.9", 100))
		defer hub.close()
		list := func() runOpts {
			o := w.opts("list")
			o.steps = []step{pw("pw")}
			o.dial, o.env = hub.dial(), c.tlsEnv()
			return o
		}
		want := c.run(list())
		var o runOpts
		kind := []string{"save", "check", "list"}[r.Intn(3)]
		switch kind {
		case "save":
			o = conf(w, cfgVals{w.vault, 1 + r.Intn(30), true, 0})
		case "check":
			o = w.opts("categories")
			o.pipe = true
		default:
			o = list()
		}
		o.scope, o.dial, o.env = []string{w.dir}, hub.dial(), c.tlsEnv()
		k := 1 + r.Intn(5)
		a := c.hold(o, k)
		held := a.here()
		got := c.run(list())
		ra := a.finish()
		wit := map[string]any{"held": kind, "at": k, "run": got.brief(), "alone": want.brief(), "held run": ra.brief()}
		if got.Code != want.Code || got.Out != want.Out {
			c.violation(n, "a listing during another run gives another result than alone", wit)
			return
		}
		if ra.Code != 0 || ra.crashed() || ra.Timeout {
			c.violation(n, "a run held during a listing fails", wit)
			return
		}
		b, err := os.ReadFile(filepath.Join(w.cfg, "lastcheck"))
		if x, e := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64); err != nil || e != nil || x <= 0 {
			wit["lastcheck"] = string(b)
			c.violation(n, "overlapping checks leave an invalid last-check record", wit)
			return
		}
		if held {
			c.count("listings during a held "+kind, 1)
			c.eval(fmt.Sprint("commands", kind, k))
		} else {
			c.eval("")
		}
	})
	// free running: several saves and readers at once
	c.each("free", 200000, c.n(8, 120), 2, func(n int, r *rand.Rand) {
		si := r.Intn(len(scens))
		s := scens[si]
		w := setup(s)
		defer w.done()
		vals := []cfgVals{s.a, s.b, {"/third", 5, false, 5}, {long + long, 6, true, 6}, {"/", 7, false, 70}}
		var runs []*gated
		for _, v := range vals {
			o := conf(w, v)
			if r.Intn(2) == 0 {
				o.noEvlog = true
			}
			runs = append(runs, c.hold(o, 0))
		}
		seen := map[cfgVals]bool{}
		is := func(v cfgVals) bool {
			for _, x := range vals {
				if x == v {
					return true
				}
			}
			return false
		}
		for k := 0; k < 12; k++ {
			v, bad := read(w)
			if bad != "" || !is(v) && v != olds[si] {
				c.violation(n, fmt.Sprintf("while several runs save, the settings are read as %+v %s", v, bad), map[string]any{"scenario": s.name})
				break
			}
			seen[v] = true
		}
		for _, g := range runs {
			if res := g.finish(); res.Code != 0 || !strings.Contains(res.Out, "1pass configured") {
				c.violation(n, "a save fails although nothing but other saves were there", map[string]any{"scenario": s.name, "run": res.brief()})
				return
			}
		}
		v, bad := read(w)
		if !is(v) || bad != "" {
			c.violation(n, fmt.Sprintf("after several saves at once the settings are %+v %s", v, bad), map[string]any{"scenario": s.name})
			return
		}
		c.count("saves running freely side by side", len(vals))
		c.count("different settings seen meanwhile", len(seen))
		c.eval(fmt.Sprint("free", s.name, v))
	})
}

func c22updates(c *Ctx) {
	setup := func(r *rand.Rand, second string) (w *world, p1, p2 *pub, in *inst, h1, h2 *fakeHub) {
		w = c.world("vault")
		w.config("opvault: /x\ntimeout: 20\nupdate-notification: true\nupdate-period: 1\n")
		p1 = newPub(r, "2.0.0", 70000)
		p2 = p1
		if second != "2.0.0" {
			p2 = newPub(r, second, []int{90000, 200, 70000}[r.Intn(3)])
		}
		in = w.install(0755)
		h1, h2 = c.pubHub(p1), c.pubHub(p2)
		w.own()
		return
	}
	upd := func(w *world, in *inst, h *fakeHub) runOpts {
		o := w.updateOpts(in, h, "y\n")
		o.scope = []string{w.dir}
		o.timeout = 120 * time.Second
		return o
	}
	w, p1, _, in, h1, h2 := setup(c.rng("clean"), "2.0.0")
	res := c.run(upd(w, in, h1))
	st := in.state(p1.bin)
	h1.close()
	h2.close()
	w.done()
	if st != "new" {
		c.violation(-1, "an undisturbed update does not succeed: "+st, map[string]any{"run": res.brief()})
		return
	}
	total, desc := opsOf(res)
	c.count("operations in a clean update", total)
	renamed := total + 1
	for k := 1; k <= total; k++ {
		if strings.HasPrefix(desc[k].Op, "rename") && k < renamed {
			renamed = k
		}
	}
	modes := []string{"update", "held update", "held update, other first", "killed update", "version"}
	type job struct {
		k, j int
		mode string
	}
	var near []job // the first is about to install what it verified, the other is anywhere
	for k := max(1, renamed-2); k <= renamed; k++ {
		for j := 1; j <= total; j++ {
			near = append(near, job{k, j, "held update"}, job{k, j, "killed update"})
		}
	}
	n := len(near) + c.n(total, 40*total)
	c.each("updates", 300000, n, 0, func(i int, r *rand.Rand) {
		k, j := 1+i%total, 1+r.Intn(total)
		mode := modes[r.Intn(len(modes))]
		if i-300000 < len(near) {
			x := near[i-300000]
			k, j, mode = x.k, x.j, x.mode
		}
		w, p1, p2, in, h1, h2 := setup(r, []string{"2.0.0", "2.0.0", "2.1.0"}[r.Intn(3)])
		defer w.done()
		defer h1.close()
		defer h2.close()
		wit := map[string]any{"first held at": fmt.Sprintf("%d (%s %s)", k, desc[k].Op, desc[k].Path), "other": mode, "other at": fmt.Sprintf("%d (%s %s)", j, desc[j].Op, desc[j].Path), "versions": p1.rel.Tag + " " + p2.rel.Tag}
		bad := false
		fail := func(what string, res *result) {
			if bad {
				return
			}
			bad = true
			if res != nil {
				wit["run"] = res.brief()
			}
			c.violation(i, what, wit)
		}
		look := func(when string) string {
			st, st2 := in.state(p1.bin), in.state(p2.bin)
			if st != "old" && st != "new" && st2 != "new" {
				fail(when+": "+st, nil)
			}
			c.count("looks at the executable between steps", 1)
			if st2 == "new" {
				return "new"
			}
			return st
		}
		judge := func(who string, res *result) {
			if res.crashed() || res.Timeout {
				fail(who+" crashed or hung", res)
				return
			}
			if st := look("after " + who); claimsUpdate(res.Out) && st == "old" {
				fail(who+" reports success but the old program is installed", res)
			}
		}
		a := c.hold(upd(w, in, h1), k)
		a.here()
		st := look("while the first update is held")
		if mode != "version" && st == "new" { // what is installed now is no program that updates
			mode = "version"
		}
		switch mode {
		case "update":
			b := c.run(upd(w, in, h2))
			judge("the other update", b)
			if !claimsUpdate(b.Out) || look("after the other update") != "new" {
				fail("an update fails while another one is held", b)
			}
		case "held update", "held update, other first":
			b := c.hold(upd(w, in, h2), j)
			b.here()
			look("while both are held")
			if mode == "held update" {
				judge("the first update", a.finish())
			}
			judge("the other update", b.finish())
		case "killed update":
			o := upd(w, in, h2)
			o.fault = fmt.Sprintf("%d:%s", j, []string{"kill", "shortkill"}[r.Intn(2)])
			c.run(o)
			look("after the other update was killed")
		default:
			o := w.opts("version")
			o.bin, o.pipe = in.exe, true
			if res := c.run(o); res.Code != 0 || !strings.Contains(res.Out, "===") {
				fail("the program does not run while an update is held", res)
			}
		}
		judge("the first update", a.finish())
		if bad {
			return
		}
		if look("in the end") == "old" {
			h3 := c.pubHub(p2)
			defer h3.close()
			res := c.run(upd(w, in, h3))
			if !claimsUpdate(res.Out) || in.state(p2.bin) != "new" {
				fail("a later update does not succeed: "+in.state(p2.bin), res)
				return
			}
			c.count("later updates that succeeded", 1)
		}
		c.count("overlapping updates: "+mode, 1)
		c.eval(fmt.Sprint("update", k, mode, j))
		if i%211 == 0 {
			c.sample(wit)
		}
	})
}
