package main

// The vault is synchronised by another program while it is read.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C27"] = check{
		level: "runtime monitoring of commands, and of GUI sessions, that are held at their reads of the vault while a synchronisation changes it file by file; what they show is compared with the versions an independent writer stored",
		rule:  "a case is one run (or GUI session) during one synchronisation; distinct = distinct (way of synchronising, command, reads and sync steps in between, outcome)",
		run:   runC27,
	}
}

// syncOp is one step of a synchronisation.
type syncOp func()

// syncSteps turns the vault at live into the one at next: "atomic" (files appear whole), "in place" (files are emptied and
// written again piece by piece) or "directory" (the whole directory is exchanged).
func syncSteps(r *rand.Rand, live, next, how string) []syncOp {
	l, n := filepath.Join(live, "default"), filepath.Join(next, "default")
	if how == "directory" {
		return []syncOp{
			func() { os.Rename(l, l+".old") },
			func() { os.Rename(n, l) },
		}
	}
	read := func(d string) map[string]string {
		m := map[string]string{}
		es, _ := os.ReadDir(d)
		for _, e := range es {
			b, _ := os.ReadFile(filepath.Join(d, e.Name()))
			m[e.Name()] = string(b)
		}
		return m
	}
	was, will := read(l), read(n)
	names := map[string]bool{}
	for k := range was {
		names[k] = true
	}
	for k := range will {
		names[k] = true
	}
	var order []string
	for k := range names {
		order = append(order, k)
	}
	sort.Strings(order)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	var ops []syncOp
	for _, k := range order {
		p := filepath.Join(l, k)
		b, there := will[k]
		old, had := was[k]
		switch {
		case !there:
			ops = append(ops, func() { os.Remove(p) })
		case had && old == b:
		case how == "atomic":
			ops = append(ops, func() {
				mustWrite(filepath.Join(live, ".sync"), []byte(b))
				os.Rename(filepath.Join(live, ".sync"), p)
			})
		default:
			cut := r.Intn(len(b) + 1)
			if at := strings.Split(b, "},\""); len(at) > 1 && r.Intn(2) == 0 { // the first records and a bit of the next
				cut = len(strings.Join(at[:1+r.Intn(len(at)-1)], "},\"")) + 1 + 3
			}
			ops = append(ops, func() { mustWrite(p, nil) })
			for _, part := range []string{b[:cut], b[cut:]} {
				ops = append(ops, func() {
					f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
					if err == nil {
						f.WriteString(part)
						f.Close()
					}
				})
			}
		}
	}
	return ops
}

// nextVersion is the vault after some changes made on another device.
func (v *Vault) nextVersion(r *rand.Rand, o genOpts, password string) *Vault {
	n := *v
	n.Items = nil
	for i, it := range v.Items {
		switch r.Intn(6) {
		case 0: // gone
		case 1, 2: // edited
			x := genItem(r, o, 1000+i)
			x.UID = it.UID
			x.Trashed = it.Trashed
			n.seal(r, x)
			n.Items = append(n.Items, x)
		case 3: // into or out of the trash
			x := *it
			x.Trashed = !it.Trashed
			x.Updated++
			n.raw(&x)
			n.Items = append(n.Items, &x)
		default:
			n.Items = append(n.Items, it)
		}
	}
	for k := r.Intn(4); k >= 0; k-- {
		x := genItem(r, o, 2000+k)
		n.seal(r, x)
		n.Items = append(n.Items, x)
	}
	if password != v.Password || r.Intn(4) == 0 {
		n.Password, n.Salt, n.Iter = password, rbytes(r, 16), v.Iter+1
		dk, dm := derive(password, n.Salt, n.Iter)
		n.MasterKey, n.OverKey = b64(opdata(r, n.masterBase, dk, dm)), b64(opdata(r, n.overBase, dk, dm))
	}
	return &n
}

// gateServer lets a run that is held at every read of the vault go on, after having done some of the steps.
type gateServer struct {
	dir   string
	mu    sync.Mutex
	stop  bool
	done  chan struct{}
	holds int
	trace string
}

func (c *Ctx) serveGates(step func(hold int) int) *gateServer {
	g := &gateServer{dir: c.dir("gate"), done: make(chan struct{})}
	go func() {
		defer close(g.done)
		for {
			g.mu.Lock()
			stop := g.stop
			g.mu.Unlock()
			if stop {
				return
			}
			if _, err := os.Stat(filepath.Join(g.dir, "here")); err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			if _, err := os.Stat(filepath.Join(g.dir, "go")); err == nil { // about to go on
				time.Sleep(200 * time.Microsecond)
				continue
			}
			g.mu.Lock()
			g.holds++
			g.trace += fmt.Sprint(step(g.holds), " ")
			g.mu.Unlock()
			os.WriteFile(filepath.Join(g.dir, "go"), nil, 0644)
		}
	}()
	return g
}

func (g *gateServer) end() {
	g.mu.Lock()
	g.stop = true
	g.mu.Unlock()
	<-g.done
	os.RemoveAll(g.dir)
}

func bandOf(uid string) string { return strings.ToUpper(uid[:1]) }

// mixOf checks that rows are, for every band, those of one of the versions.
func mixOf(rows []listed, trashed bool, versions ...*Vault) string {
	got := map[string][]string{}
	prev := listed{}
	code := map[string]string{}
	for k, n := range catNames {
		code[n] = k
	}
	for i, g := range rows {
		got[bandOf(g.Uid)] = append(got[bandOf(g.Uid)], g.Uid+"/"+g.Cat+"/"+g.Title)
		if i > 0 && code[prev.Cat] > code[g.Cat] {
			return "rows out of order"
		}
		prev = g
	}
	bands := map[string]bool{}
	for _, v := range versions {
		for _, it := range v.Items {
			bands[bandOf(it.UID)] = true
		}
	}
	for b := range got {
		if !bands[b] {
			return "rows of no version: " + fmt.Sprint(got[b])
		}
	}
	for b := range bands {
		sort.Strings(got[b])
		ok := false
		var wants [][]string
		for _, v := range versions {
			var want []string
			for _, it := range v.known() {
				if it.Trashed == trashed && bandOf(it.UID) == b {
					want = append(want, it.UID+"/"+catNames[it.Cat]+"/"+strings.TrimSpace(it.Title))
				}
			}
			sort.Strings(want)
			wants = append(wants, want)
			ok = ok || reflect.DeepEqual(want, got[b]) || len(want)+len(got[b]) == 0
		}
		if !ok {
			return fmt.Sprintf("band %s is shown as %q, stored were %q", b, got[b], wants)
		}
	}
	return ""
}

func runC27(c *Ctx) {
	c.B.get("app")
	c.B.get("gui")
	hows := []string{"atomic", "atomic", "in place", "directory"}
	opts := genOpts{items: 8, noUnknown: true, uniqueTitles: true, narrow: true, trashRate: 20}
	type scene struct {
		w      *world
		v0, v1 *Vault
		steps  []syncOp
		done   int
		how    string
		gone   bool // bands disappear, so a run may meet a missing file
		pace   int
		at     int
	}
	setup := func(r *rand.Rand) *scene {
		w := c.world("vault")
		s := &scene{w: w, how: hows[r.Intn(len(hows))]}
		o := opts
		o.items = 3 + r.Intn(14)
		s.v0 = genVault(r, "first "+fmt.Sprint(r.Intn(100)), 2, o)
		s.v0.EmptyBand = false
		pass := s.v0.Password
		if r.Intn(4) == 0 {
			pass = "second " + fmt.Sprint(r.Intn(100))
		}
		s.v1 = s.v0.nextVersion(r, o, pass)
		next := filepath.Join(w.dir, "next")
		os.MkdirAll(next, 0755)
		s.v0.write(r, w.vault)
		s.v1.write(r, next)
		w.quiet(w.vault)
		w.own()
		for b := range s.v0.Bands {
			s.gone = s.gone || s.v1.Bands[b] == nil
		}
		s.steps = syncSteps(r, w.vault, next, s.how)
		// all at one read, a few at every read, or at random
		s.pace, s.at = r.Intn(3), 1+r.Intn(30)
		return s
	}
	advance := func(s *scene, r *rand.Rand, hold int) int {
		k := 0
		switch {
		case hold < s.at:
		case s.pace == 0: // all at once
			k = len(s.steps)
		case hold == s.at: // it began before
			k = 1 + r.Intn(len(s.steps)+1)
		case s.pace == 1:
			k = r.Intn(2)
		case r.Intn(4) == 0:
			k = 1 + r.Intn(len(s.steps)+1)
		}
		n := 0
		for ; k > 0 && s.done < len(s.steps); k-- {
			s.steps[s.done]()
			s.done++
			n++
		}
		return n
	}
	finish := func(s *scene) {
		for ; s.done < len(s.steps); s.done++ {
			s.steps[s.done]()
		}
	}
	c.each("command", 0, c.n(160, 2400), 0, func(n int, r *rand.Rand) {
		s := setup(r)
		w := s.w
		defer w.done()
		var args []string
		var a, b *VItem
		trashed, uid := false, ""
		cmd := []string{"list", "list", "list trashed", "details", "overview"}[r.Intn(5)]
		switch cmd {
		case "list":
			args = []string{"list"}
		case "list trashed":
			args, trashed = []string{"list", "-t"}, true
		default:
			a = s.v0.Items[r.Intn(len(s.v0.Items))]
			if r.Intn(4) == 0 {
				a = s.v1.Items[r.Intn(len(s.v1.Items))]
			}
			uid = a.UID
			a, b = s.v0.find(uid), s.v1.find(uid)
			args = []string{cmd, uid}
			trashed = a != nil && a.Trashed || a == nil && b.Trashed
			if trashed {
				args = append(args, "-t")
			}
		}
		g := c.serveGates(func(hold int) int { return advance(s, r, hold) })
		o := w.opts(args...)
		o.scope, o.reads, o.fault = []string{w.vault}, true, "1:gate+"
		o.env = []string{"VERIF_GATE=" + g.dir}
		o.steps = []step{pw(s.v0.Password)}
		o.steps[0].maybe = true
		o.timeout = 60 * time.Second
		res := c.run(o)
		g.end()
		during := s.done
		wit := map[string]any{"synchronisation": s.how, "steps done during the run": during, "of": len(s.steps), "steps at each read": g.trace, "args": args, "run": res.brief(), "password changed": s.v0.Password != s.v1.Password}
		fail := func(what string) { c.violation(n, what, wit) }
		if res.crashed() || res.Timeout {
			fail("a run crashes or hangs while the vault is synchronised")
			return
		}
		if g.holds == 0 {
			return
		}
		c.count("reads of the vault held", g.holds)
		c.count("sync steps during runs", during)
		out := afterPrompt(res.Out)
		outcome := "shown"
		switch {
		case res.Code != 0:
			outcome = "refused"
			if strings.TrimSpace(out) == "" {
				fail("a run fails without a message while the vault is synchronised")
				return
			}
			if strings.Contains(out, "║") {
				fail("a run that fails shows a listing")
				return
			}
			never := s.how == "atomic" && !s.gone && s.v0.Password == s.v1.Password && (a != nil && b != nil && a.Trashed == b.Trashed || strings.HasPrefix(cmd, "list"))
			if never || during == 0 && (a != nil || strings.HasPrefix(cmd, "list")) {
				fail("a run fails although every file was whole at all times")
				return
			}
		case strings.HasPrefix(cmd, "list"):
			rows, bad := parseTable(out)
			if bad == "" && !strings.Contains(out, "║") && !strings.Contains(out, "No results for search") {
				bad = "no table"
			}
			if bad == "" {
				bad = mixOf(rows, trashed, s.v0, s.v1)
			}
			if bad != "" {
				fail("while the vault is synchronised, " + bad)
				return
			}
			c.count("listings compared", 1)
		default:
			got := viewLines(out)
			ok := false
			for _, it := range []*VItem{a, b} {
				if it != nil && it.Trashed == trashed {
					ok = ok || eqLines(got, it.view(cmd == "overview"))
				} else if strings.Contains(out, uid+" do not exist") {
					ok = true
				}
			}
			if !ok {
				wit["before"], wit["after"] = itemWitness(a), itemWitness(b)
				fail(cmd + " shows what no version of the item says")
				return
			}
			c.count("items compared", 1)
		}
		c.count("runs "+outcome+", sync "+s.how, 1)
		// afterwards everything is as the synchronisation left it
		finish(s)
		o = w.opts("list")
		o.steps = []step{pw(s.v1.Password)}
		res = c.run(o)
		rows, bad := parseTable(afterPrompt(res.Out))
		if res.Code != 0 {
			bad = "it fails"
		}
		if bad == "" {
			bad = mixOf(rows, false, s.v1)
		}
		if bad != "" {
			wit["later run"] = res.brief()
			fail("a listing after the synchronisation is not what it left: " + bad)
			return
		}
		c.eval(fmt.Sprint(s.how, cmd, g.trace, outcome))
		if n%101 == 0 {
			c.sample(wit)
		}
	})
	c.each("gui", 100000, c.n(20, 260), 4, func(n int, r *rand.Rand) {
		s := setup(r)
		w := s.w
		defer w.done()
		early := r.Intn(2) == 0 // while it is unlocked for the first time, or later
		active := early
		var mu sync.Mutex
		g := c.serveGates(func(hold int) int {
			mu.Lock()
			defer mu.Unlock()
			if !active {
				return 0
			}
			return advance(s, r, hold)
		})
		defer g.end()
		o := runOpts{home: w.home, allow: []string{w.dir}}
		o.scope, o.reads, o.fault = []string{w.vault}, true, "1:gate+"
		o.env = []string{"VERIF_GATE=" + g.dir}
		x := c.guiStart(o, "gui", 90, 40, nil)
		defer x.kill()
		wit := func() map[string]any {
			return x.witness(map[string]any{"synchronisation": s.how, "during the first unlock": early, "steps done": s.done, "of": len(s.steps), "passwords": s.v0.Password + " / " + s.v1.Password})
		}
		// ended judges a session that came to its end by itself
		ended := func() bool {
			if !x.hasExited() && !x.waitExit(3*time.Second) {
				return false
			}
			if x.code == 0 || x.code == 2 || strings.TrimSpace(x.stderr()) == "" || strings.Contains(x.stderr(), "goroutine ") {
				c.violation(n, fmt.Sprintf("the GUI ends with status %d while the vault is synchronised", x.code), wit())
				return true
			}
			if s.how == "atomic" && !s.gone {
				c.violation(n, "the GUI ends although every file was whole at all times", wit())
				return true
			}
			c.count("GUI sessions ended with a message, sync "+s.how, 1)
			c.eval(fmt.Sprint("gui", s.how, g.trace, "ended"))
			return true
		}
		f := x.first()
		if f == nil {
			if !ended() {
				c.violation(n, "the GUI does not start while the vault is synchronised", wit())
			}
			return
		}
		unlock := func(pass string) (frameOf *frame, over bool) {
			if x.typeText(pass) == nil {
				if !ended() {
					c.violation(n, "the GUI does not take a password", wit())
				}
				return nil, true
			}
			f := x.press(gkey{Key: kEnter})
			if f == nil {
				if !ended() {
					c.violation(n, "the GUI does not answer a password", wit())
				}
				return nil, true
			}
			return f, false
		}
		f, over := unlock(s.v0.Password)
		if over {
			return
		}
		if early {
			mu.Lock()
			active = false
			mu.Unlock()
			if f.box("Error") != nil { // another password by then
				if s.v0.Password == s.v1.Password {
					c.violation(n, "the GUI refuses the right password while the vault is synchronised", wit())
					return
				}
				x.press(gkey{Key: kEnter})
			} else {
				// some mixture of whole bands: the number of all items tells a lot
				sums := map[int]bool{0: true}
				bands := map[string][2]int{}
				for k, v := range []*Vault{s.v0, s.v1} {
					for _, it := range v.known() {
						if !it.Trashed {
							p := bands[bandOf(it.UID)]
							p[k]++
							bands[bandOf(it.UID)] = p
						}
					}
				}
				for _, p := range bands {
					t := map[int]bool{}
					for q := range sums {
						t[q+p[0]], t[q+p[1]] = true, true
					}
					sums = t
				}
				main := f.box("1Pass")
				all, ok := 0, false
				if main != nil {
					for _, row := range f.inner(main) {
						if _, err := fmt.Sscanf(strings.TrimSpace(row), "All (%d)", &all); err == nil {
							ok = true
						}
					}
				}
				if main == nil || ok && !sums[all] || !ok && !sums[0] {
					c.violation(n, fmt.Sprintf("the GUI counts %d items, which no mixture of the versions has", all), wit())
					return
				}
				c.count("categories seen after an unlock during a synchronisation", 1)
				if x.press(gkey{Key: kCtrlL}) == nil {
					c.violation(n, "the GUI does not lock", wit())
					return
				}
			}
			finish(s)
		} else {
			// what was opened stays, whatever happens to the files meanwhile
			m := newModel(s.v0)
			m.state, m.unlocks = gsCats, 1
			if bad := m.check(f); bad != "" {
				c.violation(n, "after the first unlock: "+bad, wit())
				return
			}
			for k := 0; k < 25; k++ {
				if s.done < len(s.steps) && r.Intn(2) == 0 {
					s.steps[s.done]()
					s.done++
				}
				key := m.randKey(r)
				if key.Key == kCtrlL || key.Key == kCtrlQ {
					continue
				}
				f = x.press(key)
				if f == nil {
					c.violation(n, "the GUI ends or hangs while the vault is synchronised behind it", wit())
					return
				}
				m.key(key)
				if bad := m.check(f); bad != "" {
					c.violation(n, "while the vault is synchronised behind an open GUI: "+bad, wit())
					return
				}
				c.count("frames compared while the vault changed", 1)
			}
			finish(s)
			if m.state == gsPrompt || m.state == gsError {
				infra("model locked by itself")
			}
			if x.press(gkey{Key: kCtrlL}) == nil {
				c.violation(n, "the GUI does not lock", wit())
				return
			}
		}
		if f, over = unlock(s.v1.Password); over {
			return
		}
		m := newModel(s.v1)
		m.state, m.unlocks = gsCats, 1
		for k := 0; ; k++ {
			if bad := m.check(f); bad != "" {
				c.violation(n, "unlocked again after the synchronisation: "+bad, wit())
				return
			}
			c.count("frames compared after the vault changed", 1)
			if k == 15 {
				break
			}
			key := m.randKey(r)
			if key.Key == kCtrlL || key.Key == kCtrlQ {
				continue
			}
			if f = x.press(key); f == nil {
				c.violation(n, "the GUI ends or hangs after the synchronisation", wit())
				return
			}
			m.key(key)
		}
		if !x.quit() || x.code != 0 {
			c.violation(n, "the GUI does not quit", wit())
			return
		}
		c.eval(fmt.Sprint("gui", s.how, early, g.trace))
	})
}
