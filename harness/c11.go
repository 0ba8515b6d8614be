package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
)

func init() {
	checks["C11"] = check{
		level: "runtime monitoring of settings saves under enumerated faults (every file operation of a clean save x fault kind), judged by what a later process reads",
		rule:  "a case is one configuration dialogue with one injected fault (kill, short write, I/O error at the k-th file operation), then a fresh process reading the settings and an undisturbed save; distinct = distinct (initial file, operation, fault kind, answers)",
		run:   runC11,
	}
}

func runC11(c *Ctx) {
	c.B.get("app")
	c.B.get("driver")
	kinds := []string{"kill", "short", "shortkill", "eio", "eacces", "enospc", "exdev"}
	type scen struct {
		name    string
		text    string
		exists  bool
		linked  bool
		mode    os.FileMode
		reads   bool
		args    []string
		answers string
		temp    string // leftovers of an earlier interruption
	}
	big := "opvault: /a/vault\ntimeout: 3\nupdate-notification: false\nupdate-period: 40\n"
	for k := 0; k < 900; k++ {
		big += fmt.Sprintf("unknown-entry-%d: some longer text that has to survive %d\n", k, k*k)
	}
	full := "opvault: /old/vault\ntimeout: 3\nupdate-notification: false\nupdate-period: 40\ntheme: dark\n"
	all := "y\n/new/vault path\ny\n17\n211\n"
	scens := []scen{
		{name: "full file", text: full, exists: true, args: []string{"configure"}, answers: all},
		{name: "full file, reads too", text: full, exists: true, reads: true, args: []string{"configure"}, answers: all},
		{name: "no file", args: []string{"configure"}, answers: all},
		{name: "no file, reads too", reads: true, args: []string{"configure"}, answers: all},
		{name: "first run", args: []string{"list"}, answers: all},
		{name: "first run, reads too", reads: true, args: []string{"list"}, answers: all},
		{name: "empty file", text: "", exists: true, args: []string{"configure"}, answers: all},
		{name: "partial file", text: "timeout: 9\n", exists: true, args: []string{"configure"}, answers: "n\nn\n\n5\n"},
		{name: "big file", text: big, exists: true, args: []string{"configure"}, answers: all},
		{name: "linked file", text: full, exists: true, linked: true, args: []string{"configure"}, answers: all},
		{name: "private file", text: full, exists: true, mode: 0600, args: []string{"configure"}, answers: "y\n/n\n\n\n\n"},
		{name: "shorter new path", text: strings.Replace(full, "/old/vault", "/old/"+strings.Repeat("long/", 200), 1), exists: true, args: []string{"configure"}, answers: all},
		{name: "longer new path", text: full, exists: true, args: []string{"configure"}, answers: "y\n/" + strings.Repeat("long/", 800) + "\ny\n17\n211\n"},
	}
	type state struct {
		vals cfgVals
		doc  map[string]any
	}
	setup := func(s scen) (*world, string) {
		w := c.world("vault")
		file := filepath.Join(w.cfg, "1pass.yml")
		if s.exists {
			os.MkdirAll(w.cfg, 0755)
			t := file
			if s.linked {
				t = filepath.Join(w.dir, "dotfiles", "one.yml")
				os.MkdirAll(filepath.Dir(t), 0755)
				os.Symlink(t, file)
			}
			mustWrite(t, []byte(s.text))
			if s.mode != 0 {
				os.Chmod(t, s.mode)
			}
		}
		w.own()
		return w, file
	}
	read := func(w *world, file string) (state, string) {
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		if b := d.bad(d.call(map[string]any{"op": "new", "path": w.cfg})); b != "" {
			return state{}, "the settings cannot be loaded any more: " + b
		}
		v, bad := d.cfg()
		if bad != "" {
			return state{}, bad
		}
		doc, err := parseCfg(file)
		if err != nil && !os.IsNotExist(err) {
			return state{}, err.Error()
		}
		return state{v, doc}, ""
	}
	same := func(a, b state) bool {
		return a.vals == b.vals && len(a.doc) == len(b.doc) && (len(a.doc) == 0 || reflect.DeepEqual(a.doc, b.doc))
	}
	opts := func(w *world, s scen) runOpts {
		o := w.opts(s.args...)
		o.pipe, o.reads, o.scope = true, s.reads, []string{w.dir}
		o.steps = []step{{send: s.answers}}
		return o
	}
	type job struct {
		s    int
		op   int
		kind string
		desc string
	}
	var jobs []job
	olds, news := map[int]state{}, map[int]state{}
	for i, s := range scens {
		w, file := setup(s)
		old, bad := read(w, file)
		if bad != "" {
			infra("initial settings: %s", bad)
		}
		res := c.run(opts(w, s))
		now, bad := read(w, file)
		lines := strings.Split(strings.TrimSuffix(s.answers, "\n"), "\n")
		if bad != "" || now.vals != dialogue(old.vals, lines) || !strings.Contains(res.Out, "1pass configured") {
			c.violation(-1, fmt.Sprintf("an undisturbed save gives %+v %s", now.vals, bad), map[string]any{"scenario": s.name, "run": res.brief()})
			w.done()
			return
		}
		olds[i], news[i] = old, now
		total := 0
		first := map[int]event{}
		for _, e := range res.Events {
			if e.Count > total {
				total = e.Count
			}
			if _, ok := first[e.Count]; !ok {
				first[e.Count] = e
			}
		}
		c.count("operations in clean saves", total)
		for op := 1; op <= total; op++ {
			e := first[op]
			for _, k := range kinds {
				if e.Op != "write" && strings.HasPrefix(k, "short") || k == "exdev" && !strings.HasPrefix(e.Op, "rename") {
					continue
				}
				jobs = append(jobs, job{i, op, k, e.Op + " " + strings.TrimPrefix(e.Path, w.dir)})
			}
		}
		w.done()
	}
	reps := c.n(3, 12)
	c.each("fault", 0, len(jobs)*reps, 0, func(i int, r *rand.Rand) {
		j := jobs[i%len(jobs)]
		s := scens[j.s]
		w, file := setup(s)
		defer w.done()
		old, want := olds[j.s], news[j.s]
		o := opts(w, s)
		o.fault = fmt.Sprintf("%d:%s", j.op, j.kind)
		res := c.run(o)
		now, bad := read(w, file)
		raw, _ := os.ReadFile(file)
		wit := map[string]any{"scenario": s.name, "fault": j.kind, "at operation": j.op, "operation": j.desc, "file": firstN(string(raw), 2000), "read as": now.vals,
			"old settings": old.vals, "new settings": want.vals, "run": res.brief(), "events": evStrings(res.Events, func(e event) bool { return e.Dec != "ok" })}
		fail := func(what string) { c.violation(i, what, wit) }
		where := fmt.Sprintf("after %s at '%s' (%s): ", j.kind, j.desc, s.name)
		switch {
		case res.Timeout || res.crashed() && !res.Killed:
			fail(where + "the program crashed or hung")
			return
		case bad != "":
			fail(where + bad)
			return
		case !same(now, old) && !same(now, want):
			fail(where + fmt.Sprintf("settings are neither the old nor the new ones: %+v", now.vals))
			return
		}
		saved := same(now, want)
		if strings.Contains(res.Out, "1pass configured") && !saved {
			fail(where + "success is claimed but nothing was saved")
			return
		}
		if !saved && res.Code == 0 {
			fail(where + "exit status zero but nothing was saved")
			return
		}
		// what the program does about an error is disturbed as well
		more := []string{}
		if !strings.HasSuffix(j.kind, "kill") {
			total := 0
			for _, e := range res.Events {
				total = max(total, e.Count)
			}
			for op := j.op + 1; op <= total; op++ {
				for _, k := range []string{"kill", "shortkill", "eio", "short"} {
					more = append(more, fmt.Sprintf("%d:%s,%d:%s", j.op, j.kind, op, k))
				}
			}
			if j.kind[0] == 'e' {
				more = append(more, fmt.Sprintf("%d:%s+", j.op, j.kind))
			}
			r.Shuffle(len(more), func(a, b int) { more[a], more[b] = more[b], more[a] })
		}
		for k := 0; k < len(more) && k < 3; k++ {
			w2, file := setup(s)
			o := opts(w2, s)
			o.fault = more[k]
			res := c.run(o)
			now, bad := read(w2, file)
			w2.done()
			wit["faults"], wit["run"], wit["read as"] = more[k], res.brief(), now.vals
			if bad != "" || !same(now, old) && !same(now, want) {
				fail(fmt.Sprintf("after the faults %s (%s at '%s', %s): neither the old nor the new settings %s", more[k], j.kind, j.desc, s.name, bad))
				return
			}
			if strings.Contains(res.Out, "1pass configured") && !same(now, want) || !same(now, want) && res.Code == 0 {
				fail(fmt.Sprintf("after the faults %s (%s at '%s', %s): success is claimed but nothing was saved", more[k], j.kind, j.desc, s.name))
				return
			}
			c.count("saves with a second fault after the first", 1)
			c.eval(fmt.Sprint(j.s, more[k]))
		}
		// a second, possibly also disturbed, save and a final one
		if r.Intn(2) == 0 {
			o.fault = fmt.Sprintf("%d:%s", 1+r.Intn(8), kinds[r.Intn(3)])
			c.run(o)
			now, bad = read(w, file)
			if bad != "" || !same(now, old) && !same(now, want) {
				fail(where + "and a second disturbed save: neither the old nor the new settings " + bad)
				return
			}
			c.count("second disturbed saves", 1)
		}
		clean := w.opts("configure")
		clean.pipe = true
		clean.steps = []step{{send: s.answers}}
		res = c.run(clean)
		now, bad = read(w, file)
		if bad != "" || !same(now, want) || res.Code != 0 {
			wit["later save"] = res.brief()
			fail(where + "a later save does not work " + bad)
			return
		}
		c.count(fmt.Sprintf("left %s after %s", map[bool]string{true: "new", false: "old"}[saved], j.kind), 1)
		c.eval(fmt.Sprint(j.s, j.op, j.kind))
		if i%173 == 0 {
			c.sample(wit)
		}
	})
}
