package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C13"] = check{
		level: "runtime monitoring of real update runs under enumerated faults (every file operation of a clean run x fault kind), judged by the bytes and mode of the executable",
		rule:  "a case is one update run with one injected fault (kill, short write, I/O error at the k-th file operation, or a network failure) followed by an undisturbed update; distinct = distinct (scenario, operation, fault kind)",
		run:   runC13,
	}
}

// seedCache puts leftovers where the update keeps its files.
func seedCache(r *rand.Rand, w *world, kind int) string {
	cache := filepath.Join(w.home, "cache-1pass")
	junk := func(n string) {
		os.MkdirAll(filepath.Dir(filepath.Join(cache, n)), 0755)
		b := make([]byte, 400000+r.Intn(100000)) // longer than what is downloaded
		r.Read(b)
		mustWrite(filepath.Join(cache, n), b)
	}
	switch kind % 6 {
	case 1:
		for _, n := range []string{"1pass", "1pass.tar.gz", "checksum.md5", "extracted/1pass", "x/y/z"} {
			junk(n)
		}
		return "old downloads"
	case 2:
		mustWrite(cache, []byte("a file"))
		return "a file at the cache path"
	case 3:
		for _, n := range []string{"1pass", "1pass.tar.gz", "checksum.md5", "extracted"} {
			os.MkdirAll(filepath.Join(cache, n), 0755)
		}
		return "directories under the download names"
	case 4:
		t := filepath.Join(w.dir, "elsewhere")
		os.MkdirAll(t, 0755)
		mustWrite(filepath.Join(t, "keep"), []byte("keep"))
		os.Symlink(t, cache)
		return "a symlink at the cache path"
	case 5:
		os.MkdirAll(cache, 0755)
		for _, n := range []string{"1pass", "1pass.tar.gz", "checksum.md5", "extracted"} {
			t := filepath.Join(w.dir, "target-"+n)
			mustWrite(t, []byte("target"))
			os.Symlink(t, filepath.Join(cache, n))
		}
		return "symlinks under the download names"
	}
	return ""
}

func runC13(c *Ctx) {
	c.B.get("app")
	kinds := []string{"kill", "short", "shortkill", "eio", "eacces", "enospc", "exdev"}
	type job struct {
		scen, op int
		kind     string
		desc     string
	}
	const nscen = 4
	scenario := func(s int) (mode os.FileMode, size int, reads bool) {
		return []os.FileMode{0755, 0755, 0700, 0555}[s%4], []int{120000, 300, 700000, 40000}[s%4], s%2 == 1
	}
	setup := func(s int, r *rand.Rand) (*world, *pub, *inst, *fakeHub) {
		w := c.world("vault")
		mode, size, _ := scenario(s)
		w.config("opvault: /x\ntimeout: 20\nupdate-notification: true\nupdate-period: 1\n")
		p := newPub(r, "2.0.0", size)
		return w, p, w.install(mode), c.pubHub(p)
	}
	// clean runs tell which operations there are
	var jobs []job
	for s := 0; s < nscen; s++ {
		r := c.rng("clean", s)
		w, p, in, h := setup(s, r)
		w.own()
		_, _, reads := scenario(s)
		o := w.updateOpts(in, h, "y\n")
		o.scope, o.reads = []string{w.dir}, reads
		res := c.run(o)
		st := in.state(p.bin)
		h.close()
		if st != "new" || !claimsUpdate(res.Out) {
			c.violation(-1, "an undisturbed update does not succeed: "+st, map[string]any{"run": res.brief()})
			w.done()
			return
		}
		total := 0
		last := map[int]event{}
		for _, e := range res.Events {
			if e.Count > total {
				total = e.Count
			}
			if _, ok := last[e.Count]; !ok && e.Op != "dial" {
				last[e.Count] = e
			}
		}
		w.done()
		c.count("operations in clean updates", total)
		for op := 1; op <= total; op++ {
			e := last[op]
			for _, k := range kinds {
				if e.Op != "write" && strings.HasPrefix(k, "short") {
					continue
				}
				if k == "exdev" && !strings.HasPrefix(e.Op, "rename") && !strings.HasPrefix(e.Op, "link") {
					continue
				}
				if (e.Op == "write" || e.Op == "read" || e.Op == "stat") && (k == "eacces" || k == "enospc" && e.Op != "write") {
					continue
				}
				jobs = append(jobs, job{s, op, k, e.Op + " " + strings.TrimPrefix(e.Path, w.dir)})
			}
		}
	}
	if c.stopped.Load() {
		return
	}
	again := func(i int, w *world, in *inst, p *pub, wit map[string]any, fail func(string)) bool {
		h := c.pubHub(p)
		defer h.close()
		res := c.run(w.updateOpts(in, h, "y\n"))
		wit["later update"] = res.brief()
		if st := in.state(p.bin); st != "new" || !claimsUpdate(res.Out) || res.Code != 0 {
			wit["executable after the later update"] = st
			fail("a later update does not succeed: " + st)
			return false
		}
		c.count("later updates that succeeded", 1)
		return true
	}
	runs := func(in *inst, w *world, want string) bool {
		o := w.opts("version")
		o.bin, o.pipe = in.exe, true
		return strings.Contains(c.run(o).Out, "=== "+want+" ===")
	}
	version := ""
	{
		o := runOpts{bin: c.B.get("app"), args: []string{"version"}, home: c.dir("h"), pipe: true}
		version = strings.Trim(strings.TrimSpace(c.run(o).Out), "= ")
	}
	n := len(jobs)
	stride := 1
	c.each("fault", 0, n, 0, func(i int, r *rand.Rand) {
		j := jobs[i*stride]
		w, p, in, h := setup(j.scen, r)
		defer w.done()
		defer h.close()
		seed := ""
		if r.Intn(3) == 0 && j.scen%2 == 0 {
			// the operations of the beginning shift, which only moves the fault point
			seed = seedCache(r, w, 1+r.Intn(5))
		}
		w.own()
		_, _, reads := scenario(j.scen)
		o := w.updateOpts(in, h, "y\n")
		o.fault, o.scope, o.reads = fmt.Sprintf("%d:%s", j.op, j.kind), []string{w.dir}, reads
		res := c.run(o)
		st := in.state(p.bin)
		wit := map[string]any{"fault": j.kind, "at operation": j.op, "operation in the clean run": j.desc, "leftovers": seed, "run": res.brief(), "executable": st,
			"events": evStrings(res.Events, func(e event) bool { return e.Dec != "ok" && e.Op != "write" })}
		fail := func(what string) { c.violation(i, what, wit) }
		if res.Timeout || res.crashed() && !res.Killed {
			fail("the update crashed or hung on the fault")
			return
		}
		if st != "old" && st != "new" {
			fail("after a " + j.kind + " at " + j.desc + " " + st)
			return
		}
		if fi, err := os.Stat(in.exe); err != nil || fi.Mode() != in.mode {
			fail("the executable lost its permissions")
			return
		}
		if claimsUpdate(res.Out) && st != "new" {
			fail("success is reported but the executable was not replaced")
			return
		}
		if !runs(in, w, map[string]string{"old": version, "new": "2.0.0"}[st]) {
			fail("the executable left behind does not run")
			return
		}
		c.count("left "+st+" after "+j.kind, 1)
		// what the program does about an error is disturbed as well
		more := []string{}
		if !strings.HasSuffix(j.kind, "kill") {
			total := 0
			for _, e := range res.Events {
				total = max(total, e.Count)
			}
			for op := j.op + 1; op <= total && op < j.op+40; op++ {
				for _, k := range []string{"kill", "shortkill", "eio", "short"} {
					more = append(more, fmt.Sprintf("%d:%s,%d:%s", j.op, j.kind, op, k))
				}
			}
			if j.kind[0] == 'e' {
				more = append(more, fmt.Sprintf("%d:%s+", j.op, j.kind))
			}
			r.Shuffle(len(more), func(a, b int) { more[a], more[b] = more[b], more[a] })
		}
		for k := 0; k < len(more) && k < 2; k++ {
			w2, p2, in2, h2 := setup(j.scen, r)
			w2.own()
			o := w2.updateOpts(in2, h2, "y\n")
			o.fault, o.scope, o.reads = more[k], []string{w2.dir}, reads
			res := c.run(o)
			st := in2.state(p2.bin)
			h2.close()
			fi, err := os.Stat(in2.exe)
			bad := ""
			switch {
			case st != "old" && st != "new":
				bad = st
			case err != nil || fi.Mode() != in2.mode:
				bad = "the executable lost its permissions"
			case claimsUpdate(res.Out) && st != "new":
				bad = "success is reported but the executable was not replaced"
			}
			if bad == "" && st == "old" && k == 0 && !again(i, w2, in2, p2, wit, fail) {
				w2.done()
				return
			}
			w2.done()
			if bad != "" {
				wit["faults"], wit["run"], wit["executable"] = more[k], res.brief(), st
				fail(fmt.Sprintf("after the faults %s (%s at %s) %s", more[k], j.kind, j.desc, bad))
				return
			}
			c.count("updates with a second fault after the first", 1)
			c.eval(fmt.Sprint(j.scen, more[k]))
		}
		if st == "old" {
			if r.Intn(3) == 0 { // a second interruption, then the final run
				h2 := c.pubHub(p)
				o := w.updateOpts(in, h2, "y\n")
				o.fault, o.scope = fmt.Sprintf("%d:%s", 1+r.Intn(j.op+3), kinds[r.Intn(3)]), []string{w.dir}
				c.run(o)
				h2.close()
				if st := in.state(p.bin); st != "old" && st != "new" {
					fail("after a second interruption " + st)
					return
				} else if st == "new" {
					c.eval(fmt.Sprint(j.scen, j.op, j.kind))
					return
				}
			}
			if !again(i, w, in, p, wit, fail) {
				return
			}
		}
		c.eval(fmt.Sprint(j.scen, j.op, j.kind))
		if i%211 == 5 {
			c.sample(wit)
		}
	})
	// failures of the network, with and without leftovers
	nets := []struct {
		what string
		o    reply
	}{{"archive", reply{mode: "reset"}}, {"archive", reply{mode: "truncate"}}, {"archive", reply{mode: "garbage"}}, {"archive", reply{status: 404, body: []byte("no")}},
		{"archive", reply{mode: "stallhead"}}, {"sum", reply{mode: "reset"}}, {"sum", reply{mode: "truncate"}}, {"sum", reply{mode: "stallhead"}}, {"releases2", reply{mode: "reset"}},
		{"releases2", reply{mode: "stallbody"}}, {"", reply{}}}
	c.each("net", 100000, c.n(90, 900), 0, func(i int, r *rand.Rand) {
		w, p, in, h := setup(r.Intn(nscen), r)
		h.close()
		defer w.done()
		seed := seedCache(r, w, r.Intn(6))
		nt := nets[i%len(nets)]
		rp := nt.o
		if rp.mode == "truncate" || rp.mode == "stallbody" {
			rp.body = map[string][]byte{"archive": p.archive, "sum": p.sum, "releases2": relJSON(p.rel)}[nt.what]
			rp.cut = r.Intn(len(rp.body))
		}
		if nt.what != "" {
			p.over[nt.what] = rp
		}
		w.config("timeout: 20\n")
		if strings.HasPrefix(rp.mode, "stall") {
			w.config("timeout: 1\n")
		}
		w.own()
		h = c.pubHub(p)
		defer h.close()
		res := c.run(w.updateOpts(in, h, "y\n"))
		st := in.state(p.bin)
		wit := map[string]any{"network": nt.what + " " + rp.mode, "leftovers": seed, "run": res.brief(), "executable": st,
			"events": evStrings(res.Events, func(e event) bool { return e.Dec != "ok" && e.Op != "write" })}
		fail := func(what string) { c.violation(i, what, wit) }
		want := "old"
		if nt.what == "" {
			want = "new"
		}
		if st != want || claimsUpdate(res.Out) != (want == "new") || res.Timeout || res.crashed() {
			fail(fmt.Sprintf("after a network failure (%s %s) with leftovers %q the executable is %s", nt.what, rp.mode, seed, st))
			return
		}
		p.over = map[string]reply{}
		w.config("timeout: 20\n")
		w.own()
		if st == "old" && !again(i, w, in, p, wit, fail) {
			return
		}
		c.eval(fmt.Sprint("net", nt, seed))
		c.count("network failures", 1)
	})
}
