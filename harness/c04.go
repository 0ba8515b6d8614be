package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C04"] = check{
		level: "runtime monitoring of randomised lock/unlock histories against a reference model",
		rule:  "a case is one history of unlock (right/wrong), query, lock and on-disk vault changes, through the facade or the GUI; distinct = distinct histories",
		run:   runC04,
	}
}

// mutateVault changes what is stored, keeping the key material.
func mutateVault(r *rand.Rand, v *Vault, o genOpts) string {
	switch k := r.Intn(7); {
	case k == 5 && len(v.Items) > 0: // the trash fills up or empties
		how := r.Intn(3)
		for _, it := range v.Items {
			it.Trashed = how == 0 || how == 1 && !it.Trashed
			v.raw(it)
		}
		return "trash all"
	case k == 6 && len(v.Items) > 0:
		var keep []*VItem
		for _, it := range v.Items {
			if !it.Trashed {
				keep = append(keep, it)
			}
		}
		v.Items = keep
		return "empty trash"
	case k == 0 && len(v.Items) > 0:
		i := r.Intn(len(v.Items))
		v.Items = append(v.Items[:i:i], v.Items[i+1:]...)
		return "remove"
	case k == 1 && len(v.Items) > 0:
		it := v.Items[r.Intn(len(v.Items))]
		it.Trashed = !it.Trashed
		v.raw(it)
		return "trash"
	case k == 2 && len(v.Items) > 0:
		it := v.Items[r.Intn(len(v.Items))]
		genDetails(r, o, it)
		v.seal(r, it)
		return "edit"
	case k == 3:
		v.Items = nil
		return "clear"
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		it := genItem(r, o, 900+r.Intn(99))
		for v.find(it.UID) != nil {
			it.UID = hexUID(r)
		}
		dup := false
		for _, x := range v.Items {
			dup = dup || x.Title == it.Title
		}
		if o.uniqueTitles && dup {
			continue
		}
		v.Items = append(v.Items, it)
		v.seal(r, it)
	}
	return "add"
}

// rekey gives the vault another password: the same keys wrapped anew, or new keys throughout.
func rekey(r *rand.Rand, v *Vault, password string) {
	n := newVault(r, password, 1+r.Intn(20))
	if r.Intn(2) == 0 {
		n.masterBase, n.overBase, n.mk, n.mm, n.ok, n.om = v.masterBase, v.overBase, v.mk, v.mm, v.ok, v.om
		dk, dm := derive(password, n.Salt, n.Iter)
		n.MasterKey, n.OverKey = b64(opdata(r, n.masterBase, dk, dm)), b64(opdata(r, n.overBase, dk, dm))
		n.Items = v.Items
	} else {
		for _, it := range v.Items {
			n.seal(r, it)
		}
		n.Items = v.Items
	}
	n.Pretty, n.EmptyBand = v.Pretty, v.EmptyBand
	*v = *n
}

func runC04(c *Ctx) {
	c.B.get("driver")
	c.B.get("gui")
	c.each("facade", 0, c.n(500, 8000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		o := genOpts{items: r.Intn(10), trashRate: 30, noUnknown: r.Intn(2) == 0}
		v := genVault(r, "pw", 1+r.Intn(20), o)
		v.write(r, w.vault)
		w.own()
		d := c.driver(runOpts{home: w.home, allow: []string{w.dir}})
		defer d.close()
		d.call(map[string]any{"op": "new", "path": w.cfg})
		d.call(map[string]any{"op": "validate", "path": w.vault})
		open, prev := false, ""
		var hist []string
		seen := map[string]bool{}
		for _, it := range v.Items {
			seen[it.UID] = true
		}
		bad := func(what string, extra any) {
			c.violation(i, what, map[string]any{"history": hist, "extra": extra})
		}
		for s := 0; s < 12+r.Intn(25); s++ {
			switch r.Intn(8) {
			case 0, 1: // lock
				hist = append(hist, "lock")
				if q := d.call(map[string]any{"op": "lock"}); d.bad(q) != "" {
					bad(d.bad(q), nil)
					return
				}
				open = false
				c.count("locks", 1)
			case 2, 3:
				if open {
					continue
				}
				q := d.call(map[string]any{"op": "unlock", "path": w.vault, "password": v.Password})
				hist = append(hist, "unlock "+v.Password)
				if q.Err != "" || d.bad(q) != "" {
					bad("the right password is refused: "+q.Err+d.bad(q), nil)
					return
				}
				open = true
				c.count("unlocks", 1)
				if msg, it, _ := compareAll(d, v); msg != "" {
					bad("after unlocking: "+msg, itemWitness(it))
					return
				}
			case 4:
				if open {
					continue
				}
				wrong := "wrong"
				if prev != "" && r.Intn(3) > 0 {
					wrong = prev
				}
				q := d.call(map[string]any{"op": "unlock", "path": w.vault, "password": wrong})
				hist = append(hist, "wrong password "+wrong)
				if q.Err == "" || d.bad(q) != "" {
					bad("a wrong password is accepted "+d.bad(q), nil)
					return
				}
			case 5:
				if !open {
					if r.Intn(4) == 0 {
						prev = v.Password
						rekey(r, v, fmt.Sprintf("pw%d", s))
						hist = append(hist, "disk password changed to "+v.Password)
						c.count("password changes", 1)
					} else {
						hist = append(hist, "disk "+mutateVault(r, v, o))
					}
					v.write(r, w.vault)
					for _, it := range v.Items {
						seen[it.UID] = true
					}
					w.own()
				}
			default: // query
				if !open {
					for _, tr := range []bool{false, true} {
						if q := d.call(map[string]any{"op": "list", "trashed": tr}); len(q.Items) > 0 || d.bad(q) != "" {
							bad(fmt.Sprintf("locked vault lists %d items %s", len(q.Items), d.bad(q)), q.Items)
							return
						}
						for _, cat := range append([]string{""}, catCodes...) {
							if q := d.call(map[string]any{"op": "count", "cat": cat, "trashed": tr}); q.Count != 0 || d.bad(q) != "" {
								bad("locked vault counts items "+d.bad(q), nil)
								return
							}
						}
						for uid := range seen {
							if q := d.call(map[string]any{"op": "get", "uid": uid, "trashed": tr}); !q.Nil || d.bad(q) != "" {
								bad("locked vault hands out item "+uid+d.bad(q), nil)
								return
							}
						}
					}
					c.count("queries while locked", 1)
				} else {
					cat := ""
					if len(v.Items) > 0 && r.Intn(2) == 0 {
						cat = v.Items[r.Intn(len(v.Items))].Cat
						if catNames[cat] == "" {
							cat = ""
						}
					}
					tr := r.Intn(2) == 0
					if q := d.call(map[string]any{"op": "count", "cat": cat, "trashed": tr}); q.Count != len(v.sel(cat, "", tr)) {
						bad(fmt.Sprintf("count of %q is %d instead of %d", cat, q.Count, len(v.sel(cat, "", tr))), nil)
						return
					}
				}
				hist = append(hist, "query")
			}
			if q := d.call(map[string]any{"op": "isunlocked"}); q.Bool != open {
				bad(fmt.Sprintf("unlocked is reported as %v", q.Bool), nil)
				return
			}
		}
		c.eval(strings.Join(hist, ","))
		c.sample(map[string]any{"history": hist})
	})
	c.each("gui", 100000, c.n(140, 2000), 0, func(i int, r *rand.Rand) {
		w := c.world("vault")
		defer w.done()
		v := randGuiVault(r, 30)
		v.Password = "pw"
		nv := newVault(r, "pw", 3)
		nv.Items = v.Items
		v = nv
		for _, it := range v.Items {
			v.seal(r, it)
		}
		v.write(r, w.vault)
		w.quiet(w.vault)
		w.own()
		cols, rows := randSize(r)
		s := &guiSession{w: w, v: v, m: newModel(v)}
		s.g = c.guiStart(runOpts{home: w.home, allow: []string{w.dir}}, "gui", cols, rows, nil)
		defer s.g.kill()
		if f := s.g.first(); f == nil || s.m.check(f) != "" {
			c.violation(i, "no proper first screen", s.g.witness(nil))
			return
		}
		o := genOpts{narrow: true, uniqueTitles: true, noUnknown: true, trashRate: 30}
		var words []string
		prev := "nope"
		for cycle := 0; cycle < 3+r.Intn(4); cycle++ {
			fail := func(what string) {
				c.violation(i, what, s.g.witness(map[string]any{"cycle": cycle, "state": s.m.state.String()}))
			}
			play := func(k gkey) bool {
				before := s.m.state
				s.m.key(k)
				f := s.g.press(k)
				if f == nil {
					fail(fmt.Sprintf("no screen after %v in state %v", k, before))
					return false
				}
				if x := s.m.check(f); x != "" {
					fail(fmt.Sprintf("after %v in state %v: %s", k, before, x))
					return false
				}
				if s.m.state == gsPrompt || s.m.state == gsError {
					t := f.text()
					for _, wd := range words {
						if strings.Contains(t, wd) {
							fail(fmt.Sprintf("the locked screen shows %q", wd))
							return false
						}
					}
					c.count("locked screens scanned", 1)
				}
				return true
			}
			ks := keys(v.Password)
			if r.Intn(3) == 0 {
				ks = append(keys(prev), gkey{Key: kEnter}, gkey{Key: kEnter})
				ks = append(ks, keys(v.Password)...)
			}
			for _, k := range append(ks, gkey{Key: kEnter}) {
				if !play(k) {
					return
				}
			}
			words = nil
			for _, it := range v.Items {
				if len(it.Title) > 5 {
					words = append(words, firstRunes(it.Title, 12))
				}
				for _, sct := range it.Secrets {
					words = append(words, firstRunes(sct, 8))
				}
			}
			for n := r.Intn(25); n > 0; n-- { // browse without locking
				k := s.m.randKey(r)
				if k.Key == kCtrlL && k.Ch == 0 {
					continue
				}
				if !play(k) {
					return
				}
			}
			from := s.m.state
			if from == gsPrompt || from == gsError {
				infra("model left the vault")
			}
			if r.Intn(2) == 0 {
				// the vault changes before it is locked or while it is locked
				mutateVault(r, v, o)
				if r.Intn(2) == 0 {
					v.write(r, w.vault)
					w.own()
				}
			}
			if !play(gkey{Key: kCtrlL}) {
				return
			}
			if r.Intn(4) == 0 {
				prev = v.Password
				rekey(r, v, fmt.Sprintf("pw%d", cycle))
				s.m.pass = v.Password
				c.count("password changes", 1)
			}
			v.write(r, w.vault)
			w.own()
			s.m.cats = catEntries(v)
			c.count("locks from "+from.String(), 1)
		}
		c.count("frames", s.g.nframes)
		c.eval(fmt.Sprint(len(v.Items), strings.Join(keyStrings(s.g.log), "")))
	})
}

func firstRunes(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		r = r[:n]
	}
	return strings.TrimSpace(string(r))
}
